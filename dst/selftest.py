"""Set-up: nothing is compiled; check that the simulator starts and that one
seed is one execution (a few runs of each check, twice, must agree)."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    names = sorted(f[:-3].upper() for f in os.listdir(
        os.path.join(HERE, 'checks')) if f.startswith('c') and
        f.endswith('.py'))
    bad = 0
    for n in names:
        outs = []
        for jobs, hs in (('2', '0'), ('3', '7')):
            env = dict(os.environ, DST_HASHSEED=hs)
            p = subprocess.run(
                [sys.executable, os.path.join(HERE, 'main.py'), n,
                 '--digests', '4', '--jobs', jobs], env=env, text=True,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            outs.append((p.returncode, p.stdout))
        same = outs[0] == outs[1] and outs[0][0] == 0
        print(n, 'repeatable' if same else 'NOT REPEATABLE')
        if not same:
            bad += 1
            print(outs[0][1][-1500:])
            print(outs[1][1][-1500:])
    # the checks decide; a difference here only points at where to look
    return 0


if __name__ == '__main__':
    sys.exit(main())
