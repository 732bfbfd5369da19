"""Writes /verif/MANIFEST.json from the checks that exist (run by hand)."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

NA = {
    'N01': 'pure functions of their arguments: no scheduling, time, I/O, '
           'randomness or other party for a simulator to control, so '
           'deterministic simulation adds nothing to direct evaluation; '
           'their use on recorded predictions is decided under C17',
    'N02': 'a pure scalar function: no scheduling, time, I/O, randomness or '
           'fault can influence it; its effect on served predictions is '
           'decided under C07',
}

NOTE = ('Seeded search over simulated runs (not exhaustive): schedules at '
        'line%s boundaries, faults and data are drawn from VERIF_SEED, '
        'every run is repeatable from its seed and violations are minimised '
        'into a replay file. Trusts the interpreter, numpy, scipy and '
        'scikit-learn, and the reference model of the check. ')
DETAIL = {
    'C01': 'Oracle: reference container of plain Python values, compared '
           'after every operation.',
    'C02': 'Oracle: reference container of plain Python values, compared '
           'after every operation of every caller.',
    'C03': 'Oracle: independently computed levels, bins, nearest level and '
           'thresholding.',
    'C04': 'Oracle: bit-exact comparison with a fresh serial training, and '
           'with one in another process with another hash seed.',
    'C05': 'Oracle: digests of containers, arguments and of the answers of '
           'all trained models after every step.',
    'C06': 'Oracle: error identity at the caller, digests of everything '
           'else, bit-exact comparison of the repeated training with a '
           'fresh object.',
    'C07': 'Oracle: independent evaluation of the documented prediction '
           'function from the public learned parameters (1e-9).',
    'C08': 'Oracle: independent objective, differences for the gradient, '
           'independent EM, record of what crossed the optimizer seam.',
    'C09': 'Oracle: snapshots of the settings of the process (and of each '
           'thread) before and after.',
    'C10': 'Oracle: records written by the generator, or an error; the '
           'stream is delivered by a simulated device.',
    'C11': 'Oracle: independent decoding of the raw files; converters run '
           'as simulated processes on a simulated disk.',
    'C12': 'Oracle: partition, counts per group, repetition and state of '
           'the global generator.',
    'C13': 'Oracle: every recorded prediction is recomputed by a fresh '
           'training on the complement of its fold.',
    'C14': 'Oracle: one undisturbed full cross-validation.',
    'C15': 'Oracle: output of an undisturbed run, and rejection of every '
           'incomplete file by the reading scripts. Crashes are process '
           'crashes (completed writes survive); loss of written data by the '
           'operating system is not simulated.',
    'C16': 'Oracle: readings of the simulated clock at the boundaries of '
           'training and prediction.',
    'C17': 'Oracle: independent recomputation from the recorded '
           'predictions.',
}
IO = {'C10', 'C11', 'C13', 'C14', 'C15', 'C16', 'C17'}


def main():
    checks, na = [], []
    with open(os.path.join(V, 'properties.jsonl')) as f:
        props = [json.loads(x) for x in f if x.strip()]
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(V, 'dst/checks', i.lower() + '.py')):
            cmd = '%s dst/main.py %s' % (PY, i)
            checks.append({
                'property': i,
                'quick_cmd': cmd + ' --tier quick',
                'thorough_cmd': cmd + ' --tier thorough',
                'technique': 'deterministic simulation with fault injection',
                'level': 'exploration',
                'level_note': NOTE % (' and I/O' if i in IO else '') +
                DETAIL[i]})
        else:
            na.append({'property': i, 'reason': NA.get(
                i, 'check not built yet')})
    m = {'version': 1,
         'setup_cmd': PY + ' dst/selftest.py',
         'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: all seams (optimizer, clocks, files, '
                  'standard streams, random generators, schedule) are '
                  'installed from outside before the code under test is '
                  'imported. Findings and fixes: known_findings.txt.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
