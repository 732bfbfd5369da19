"""A process with another hash seed, working directory and state of the global
generators that computes things of the checks.  For each line [check, seed,
argument] read it prints, in a library initialised anew, what other(argument)
of the check returns."""
import importlib
import json
import logging
import os
import random
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
out = os.fdopen(os.dup(1), 'w')
os.dup2(2, 1)
from dst import env                                         # noqa
env.setup()
if env.import_error:
    sys.exit(env.import_error)
import numpy as np                                          # noqa

for line in iter(sys.stdin.readline, ''):
    name, seed, arg = json.loads(line)
    np.random.seed(seed % 2 ** 31)
    random.seed(seed)
    np.seterr(all='ignore')
    logging.getLogger('kamrecsys').setLevel(logging.CRITICAL)
    try:
        with env.world():
            r = ['ok', importlib.import_module('dst.checks.' + name)
                 .other(arg)]
    except Exception:
        r = ['exc', traceback.format_exc()]
    out.write(json.dumps(r) + '\n')
    out.flush()
