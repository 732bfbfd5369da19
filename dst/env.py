"""Process set-up: find the code under test and install the seams before it is
imported.  Nothing in /repo is changed; every seam is patched from outside."""
import ast
import contextlib
import importlib.machinery
import importlib.util
import logging
import os
import sys
import warnings

REPO = os.environ.get('DST_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRIPTS = os.path.join(REPO, 'scripts')
RAWDATA = os.path.join(REPO, 'data')

#: why the code under test could not be imported, if it could not
import_error = None

#: what every process that uses the library has loaded
PARTS = ['data', 'datasets', 'score_predictor', 'item_finder', 'metrics',
         'model_selection', 'utils']


#: in fine runs every part of an expression counts as a line of its own
fine = 0

#: numbers a line of the source has in fine runs
WIDTH = 512


def fine_code(src, path):
    """`src` compiled in such a way that the interpreter reports a new line
    wherever another part of an expression begins or ends."""
    tree = ast.parse(src, path)
    for n in ast.walk(tree):
        if hasattr(n, 'lineno'):
            n.lineno = n.lineno * WIDTH + min(n.col_offset, WIDTH - 1)
        if getattr(n, 'end_lineno', None) is not None:
            n.end_lineno = (n.end_lineno * WIDTH +
                            min(n.end_col_offset, WIDTH - 1))
    return compile(tree, path, 'exec')


class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles the modules of the library once."""
    codes = {}

    def get_code(self, name):
        key = (name, bool(fine))
        c = self.codes.get(key)
        if c is None:
            if fine:
                c = fine_code(self.get_data(self.path), self.path)
            else:
                c = importlib.machinery.SourceFileLoader.get_code(self, name)
            self.codes[key] = c
        return c


class _Finder(object):
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'kamrecsys' and not name.startswith('kamrecsys.'):
            return None
        p = os.path.join(REPO, *name.split('.'))
        init = os.path.join(p, '__init__.py')
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(name, init),
                submodule_search_locations=[p])
        if os.path.isfile(p + '.py'):
            return importlib.util.spec_from_file_location(
                name, p + '.py', loader=_Loader(name, p + '.py'))
        return None


def take_library():
    """Remove the modules of the library from the interpreter."""
    return {k: sys.modules.pop(k) for k in list(sys.modules)
            if k == 'kamrecsys' or k.startswith('kamrecsys.')}


@contextlib.contextmanager
def world():
    """A part of a run in which the library is newly initialised: nothing it
    remembers in its modules comes in or gets out."""
    old = take_library()
    try:
        _import_all()
        yield
    finally:
        take_library()
        sys.modules.update(old)


def _import_all():
    importlib.import_module('kamrecsys')
    for p in PARTS:
        importlib.import_module('kamrecsys.' + p)


def setup():
    """Import numpy etc., install seams, then import the code under test."""
    global import_error
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    if sys.path[:1] != [REPO]:
        sys.path.insert(0, REPO)
    from . import seams, simio
    seams.install_optimizer_seam()
    seams.install_clock_seam()
    import platform
    platform.uname()
    platform.processor()
    platform.python_compiler()
    try:
        sys.meta_path.insert(0, _Finder)
        _import_all()
        import kamrecsys
        assert os.path.abspath(kamrecsys.__file__).startswith(
            os.path.abspath(REPO) + os.sep), kamrecsys.__file__
    except AssertionError:
        raise
    except Exception as e:  # the code under test is broken on import
        import traceback
        import_error = ''.join(
            traceback.format_exception(type(e), e, e.__traceback__))
    simio.install()
    import numpy as np
    np.seterr(all='ignore')
    logging.getLogger('kamrecsys').setLevel(logging.ERROR)
    logging.raiseExceptions = False
