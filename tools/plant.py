#!/usr/bin/env python3
"""Create and validate planted bugs (run by hand; no check uses this).

  plant.py make SPEC.py    each entry of PLANTS in SPEC.py becomes
                           /verif/seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}
  plant.py test ID...      apply in a scratch copy of /repo, build, run the
                           stable tests, the demo (clean and patched) and the
                           property's quick check
"""
import json, os, shutil, subprocess, sys, tempfile

SEEDED = '/verif/seeded'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, shell=isinstance(cmd, str),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    made = []
    for pid, p in ns['PLANTS'].items():
        d = tempfile.mkdtemp(prefix='plant_')
        try:
            files = sorted({e[0] for e in p['edits']})
            for side in 'ab':
                for f in files:
                    os.makedirs(os.path.dirname(os.path.join(d, side, f)), exist_ok=True)
                    shutil.copy(os.path.join('/repo', f), os.path.join(d, side, f))
            for f, old, new in p['edits']:
                path = os.path.join(d, 'b', f)
                s = open(path, encoding='utf-8').read()
                if old not in s:
                    sys.exit('%s: text not found in %s:\n%s' % (pid, f, old))
                open(path, 'w', encoding='utf-8').write(s.replace(old, new, 1))
            out = ''
            for f in files:
                rc, o = sh(['git', 'diff', '--no-index', '--no-prefix', 'a/' + f, 'b/' + f], cwd=d)
                out += o
            t = os.path.join(SEEDED, pid)
            os.makedirs(t, exist_ok=True)
            open(os.path.join(t, 'patch.diff'), 'w').write(out)
            open(os.path.join(t, 'demo.py'), 'w').write(p['demo'].lstrip('\n'))
            open(os.path.join(t, 'demo.sh'), 'w').write(
                '#!/bin/bash\n# run with the repository as working directory, after the build\n'
                'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(t, 'demo.sh'), 0o755)
            json.dump({'property': p['property'], 'needs': p['needs'],
                       'what_it_breaks': p['breaks']},
                      open(os.path.join(t, 'meta.json'), 'w'), indent=1)
            made.append(pid)
        finally:
            shutil.rmtree(d)
    return made


def test(pid, checks=None):
    t = os.path.join(SEEDED, pid)
    prop = json.load(open(os.path.join(t, 'meta.json')))['property']
    base = tempfile.mkdtemp(prefix='plantrepo_')
    d = os.path.join(base, 'repo')
    try:
        sh(['cp', '-a', '/repo', d])
        res = {}
        rc, o = sh(['bash', os.path.join(t, 'demo.sh')], cwd=d, timeout=300)
        res['demo clean'] = rc
        if rc:
            print(o[-1500:])
        rc, o = sh(['git', 'apply', os.path.join(t, 'patch.diff')], cwd=d)
        res['apply'] = rc
        if rc:
            print(o)
        rc, o = sh(['bash', os.path.join(t, 'demo.sh')], cwd=d, timeout=300)
        res['demo patched'] = rc
        res['demo says'] = o.strip().splitlines()[-1:] if o.strip() else ''
        # stable tests in the copy

        rc, o = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --tb=line '
                   'kamrecsys 2>&1 | tail -5', cwd=d, env=dict(ENV, PYTHONPATH=d, OMP_NUM_THREADS='1'))
        res['tests'] = o.strip().splitlines()[-1:]
        for c in checks or [prop]:
            env = dict(ENV, VERIF_REPO=d, DST_REPO=d)
            rc, o = sh(['/opt/venv/bin/python', '/verif/dst/main.py', c, '--no-min'], cwd='/verif', env=env)
            v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            res['check ' + c] = (rc, len(v))
            if rc == 1:
                res['said'] = [l for l in o.splitlines() if 'VIOL' in l or 'reason' in l or 'violat' in l][:3]
        return res
    finally:
        shutil.rmtree(base)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for pid in make(sys.argv[2]):
            print('made', pid)
    else:
        for pid in sys.argv[2:]:
            checks = None
            if ':' in pid:
                pid, c = pid.split(':')
                checks = c.split(',')
            print(pid, json.dumps(test(pid, checks), indent=1))
