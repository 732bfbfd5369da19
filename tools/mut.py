"""Try a change of the code under test in a scratch copy.

    mut.py FILE OLD NEW CHECK...      (OLD/NEW: strings, \\n allowed)

Prints the outcome of each check on the changed copy."""
import os
import shutil
import subprocess
import sys
import tempfile

f, old, new = sys.argv[1:4]
checks = sys.argv[4:]
d = tempfile.mkdtemp(prefix='mut')
dst = os.path.join(d, 'repo')
shutil.copytree('/repo', dst, symlinks=True,
                ignore=shutil.ignore_patterns('.git'))
p = os.path.join(dst, f)
s = open(p).read()
old = old.replace('\\n', '\n')
new = new.replace('\\n', '\n')
assert s.count(old) >= 1, 'not found'
s = s.replace(old, new, 1)
open(p, 'w').write(s)
for c in checks:
    e = dict(os.environ, DST_REPO=dst)
    r = subprocess.run(['/opt/venv/bin/python', '/verif/dst/main.py', c,
                        '--no-min'], env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    lines = [x for x in r.stdout.splitlines() if x.strip()]
    print(c, 'rc', r.returncode, '|',
          [x for x in lines if x.startswith(c)][:1] or lines[-3:])
shutil.rmtree(d)
