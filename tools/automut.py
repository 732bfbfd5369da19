"""Systematic mutants of the code under test, and which of them no check sees.

    automut.py list [FILE...]                 the mutants that pass the tests
    automut.py run OUT [--jobs N] [--budget S] [--verif DIR] [FILE...]

Each mutant is applied to a scratch copy under /tmp, must compile and keep the
stable tests, and is then given to the quick checks of its file one after
another until one of them reports.  OUT gets a line per mutant."""
import argparse
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import warnings

warnings.simplefilter('ignore')
REPO = '/repo'
PY = '/opt/venv/bin/python'
CHECKS = {
    'kamrecsys/base/base.py': 'C05 C07 C04 C06',
    'kamrecsys/data/base.py': 'C01 C02 C07 C05 C11',
    'kamrecsys/data/event.py': 'C01 C02 C07 C05',
    'kamrecsys/data/event_with_score.py': 'C03 C02 C05',
    'kamrecsys/datasets/base.py': 'C10 C11',
    'kamrecsys/datasets/others.py': 'C10',
    'kamrecsys/datasets/flixster.py': 'C11 C10',
    'kamrecsys/datasets/movielens.py': 'C11',
    'kamrecsys/datasets/sushi3.py': 'C11',
    'kamrecsys/item_finder/base.py': 'C08 C07 C06',
    'kamrecsys/item_finder/matrix_factorization.py': 'C08 C07 C04 C06 C05',
    'kamrecsys/score_predictor/base.py': 'C08 C07 C06 C05',
    'kamrecsys/score_predictor/matrix_factorization.py': 'C08 C07 C04 C06 C05',
    'kamrecsys/score_predictor/topic_model.py': 'C08 C07 C04 C06 C05',
    'kamrecsys/metrics/base.py': 'C17 C03',
    'kamrecsys/metrics/item_finder.py': 'C17',
    'kamrecsys/metrics/real.py': 'C17',
    'kamrecsys/metrics/score_predictor.py': 'C17',
    'kamrecsys/model_selection/split.py': 'C12 C13',
    'kamrecsys/utils/base.py': 'C08',
    'kamrecsys/utils/kamexputils.py': 'C13 C14 C17',
    'kamrecsys/utils/kammath.py': 'C08 C07',
    'scripts/exp_recsys_util.py': 'C13 C14 C16 C15',
    'scripts/exp_recsys_sp.py': 'C13 C14 C15',
    'scripts/exp_recsys_if.py': 'C13 C14 C15',
    'scripts/exp_recsys_fold_merge.py': 'C14 C15 C17',
    'scripts/stats_recsys.py': 'C17 C15',
    'data/flixster.py': 'C11', 'data/movielens100k.py': 'C11',
    'data/movielens1m.py': 'C11', 'data/movielens_mini.py': 'C11',
    'data/sushi3.py': 'C11',
}

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '//',
       ast.FloorDiv: '%', ast.Pow: '*'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    b = src.encode()

    def span(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        i, j = span(n)
        return b[i:j].decode()

    out = []

    def rep(n, new, what):
        i, j = span(n)
        if b[i:j].decode() != new:
            out.append((n.lineno, what, b[i:j].decode()[:70], new[:70],
                        (b[:i] + new.encode() + b[j:]).decode()))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and 'MAIN' in ast.dump(n.test).upper() \
                and '__name__' in ast.dump(n.test) and len(n.body) < 4:
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
                skip.add(id(n.body[0]))
                skip.add(id(n.body[0].value))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for m in ast.walk(n):
                skip.add(id(m))
        # texts and logging are nobody's semantics
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in ('info', 'debug', 'warning', 'add_argument'):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                if m is not n:
                    skip.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            new = CMP.get(type(n.ops[0]))
            if new:
                rep(n, '%s %s %s' % (text(n.left), new,
                                     text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp):
            new = BIN.get(type(n.op))
            if new and not (isinstance(n.op, ast.Mod) and isinstance(
                    n.left, ast.Constant)):
                rep(n, '(%s %s %s)' % (text(n.left), new, text(n.right)),
                    'bin')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), 'const')
            elif isinstance(v, int):
                rep(n, str(v + 1), 'const')
                if v > 0:
                    rep(n, str(v - 1), 'const')
            elif isinstance(v, float):
                rep(n, repr(v * 2 + 1), 'const')
            elif v is None:
                pass
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + op.join(text(v) for v in n.values) + ')', 'bool')
            for v in n.values:
                rep(n, '(' + text(v) + ')', 'bool1')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not,
                                                              ast.USub)):
            rep(n, '(' + text(n.operand) + ')', 'unary')
        elif isinstance(n, (ast.If, ast.While)):
            rep(n.test, 'True', 'cond')
            rep(n.test, 'False', 'cond')
        elif isinstance(n, ast.IfExp):
            rep(n, '(' + text(n.body) + ')', 'ifexp')
            rep(n, '(' + text(n.orelse) + ')', 'ifexp')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                            ast.Delete)):
            rep(n, 'pass', 'drop')
        elif isinstance(n, ast.Call):
            t = text(n.func)
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'copy', 'astype', 'strip', 'ravel', 'flatten', 'rstrip',
                    'tolist', 'reshape', 'lower'):
                rep(n, text(n.func.value), 'unwrap')
            if len(n.args) >= 1 and t in (
                    'copy.copy', 'copy.deepcopy', 'np.array', 'np.sort',
                    'np.unique', 'list', 'dict', 'np.abs', 'np.atleast_1d',
                    'np.atleast_2d', 'np.asarray', 'sorted', 'set', 'str',
                    'int', 'float', 'np.copy', 'sanitize', 'check_random_state'
                    ) and not isinstance(n.args[0], ast.Starred):
                rep(n, text(n.args[0]), 'unwrap')
                if t == 'np.array':
                    rep(n, 'np.asarray' + text(n)[len('np.array'):], 'asarray')
                if t == 'copy.deepcopy':
                    rep(n, 'copy.copy' + text(n)[len(t):], 'shallow')
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred)
                                            for a in n.args):
                i, j = span(n.args[0])
                k, m = span(n.args[1])
                out.append((n.lineno, 'swap', text(n)[:70], '',
                            (b[:i] + b[k:m] + b[j:k] + b[i:j] + b[m:]
                             ).decode()))
            for k in n.keywords:
                if k.arg is None:
                    continue
                i, j = span(k)
                # with the comma before or after
                p = i
                while b[p - 1:p] in (b' ', b'\n', b'\t'):
                    p -= 1
                if b[p - 1:p] == b',':
                    new = b[:p - 1] + b[j:]
                else:
                    q = j
                    while b[q:q + 1] in (b' ', b'\n', b','):
                        q += 1
                    new = b[:i] + b[q:]
                out.append((n.lineno, 'kwarg', text(k)[:70], '',
                            new.decode()))
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                i, j = span(n.lower)
                out.append((n.lineno, 'slice', b[i:j].decode(), '',
                            (b[:i] + b[j:]).decode()))
            if n.upper is not None:
                i, j = span(n.upper)
                out.append((n.lineno, 'slice', b[i:j].decode(), '',
                            (b[:i] + b[j:]).decode()))
        elif isinstance(n, ast.Attribute) and n.attr in (
                'ascontiguousarray', 'asfortranarray'):
            pass
        elif isinstance(n, ast.Break):
            rep(n, 'pass', 'drop')
        elif isinstance(n, ast.Continue):
            rep(n, 'pass', 'drop')
    seen = set()
    res = []
    for m in out:
        if m[4] in seen or m[4] == src:
            continue
        seen.add(m[4])
        try:
            if ast.dump(ast.parse(m[4])) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append(m)
    return res


def one(job):
    f, k, line, what, old, new, src, opt = job
    d = tempfile.mkdtemp(prefix='am')
    dst = os.path.join(d, 'repo')
    rec = {'file': f, 'k': k, 'line': line, 'what': what, 'old': old,
           'new': new}
    try:
        shutil.copytree(REPO, dst, symlinks=True,
                        ignore=shutil.ignore_patterns('.git'))
        open(os.path.join(dst, f), 'w', encoding='utf-8').write(src)
        r = subprocess.run(
            [PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider']
            + STABLE(), cwd=dst, stdout=subprocess.PIPE, env=dict(
                os.environ, PYTHONPATH=dst),
            stderr=subprocess.STDOUT, text=True, timeout=120)
        if r.returncode:
            rec['out'] = 'tests'
            return rec
        for c in CHECKS[f].split():
            try:
                r = subprocess.run(
                    [PY, '-B', os.path.join(opt.verif, 'dst/main.py'), c,
                     '--no-min', '--jobs', '1', '--budget', str(opt.budget)],
                    env=dict(os.environ, DST_REPO=dst),
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    text=True, timeout=opt.budget * 3 + 60)
            except subprocess.TimeoutExpired:
                rec['out'] = 'timeout ' + c
                return rec
            if r.returncode:
                v = [x for x in r.stdout.splitlines() if x.strip()]
                rec['out'] = '%s rc%d' % (c, r.returncode)
                rec['msg'] = ([x for x in v if x.startswith(c + ': run')]
                              or v[-2:] or [''])[0][:200]
                return rec
        rec['out'] = 'SURVIVED'
        return rec
    except Exception as e:
        rec['out'] = 'error %r' % (e,)
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


_stable = None


def STABLE():
    global _stable
    if _stable is None:
        base = json.load(open('/opt/vp/BASELINE.json'))
        s = json.dumps(base)
        names = base.get('stable') or base.get('tests') or base
        if isinstance(names, dict):
            names = list(names)
        _stable = []
        for n in names:
            mod, test = n.split('::', 1)
            parts = mod.split('.')
            k = len(parts)
            while not os.path.exists(os.path.join(
                    REPO, *parts[:k]) + '.py'):
                k -= 1
            _stable.append('::'.join(['/'.join(parts[:k]) + '.py']
                                     + parts[k:] + [test]))
        assert _stable, s[:500]
    return _stable


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('args', nargs='*')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--budget', type=float, default=40)
    ap.add_argument('--verif', default='/verif')
    ap.add_argument('--per-line', type=int, default=1)
    opt = ap.parse_args()
    if opt.cmd == 'run':
        out, files = opt.args[0], opt.args[1:]
    else:
        files = opt.args
    todo = []
    rng = random.Random(5)
    for f in files or CHECKS:
        src = open(os.path.join(REPO, f), encoding='utf-8').read()
        ms = mutants(src)
        by = {}
        for k, m in enumerate(ms):
            by.setdefault(m[0], []).append((f, k) + m + (opt,))
        for line in sorted(by):
            todo += rng.sample(by[line], min(opt.per_line, len(by[line])))
        if opt.cmd == 'list':
            print(f, len(ms))
    print(len(todo), 'mutants', flush=True)
    if opt.cmd == 'list':
        return
    done = set()
    if os.path.exists(out):
        for x in open(out):
            r = json.loads(x)
            done.add((r['file'], r['k'], r['line'], r['what'], r['old']))
    todo = [t for t in todo if (t[0], t[1], t[2], t[3], t[4]) not in done]
    rng.shuffle(todo)
    with concurrent.futures.ThreadPoolExecutor(opt.jobs) as ex, \
            open(out, 'a') as fo:
        for rec in ex.map(one, todo):
            fo.write(json.dumps(rec) + '\n')
            fo.flush()
            if rec['out'] not in ('tests',) and 'rc1' not in rec['out']:
                print(rec['out'], rec['file'], rec['line'], rec['what'], '|',
                      rec['old'], '->', rec['new'], rec.get('msg', ''),
                      flush=True)


main()
