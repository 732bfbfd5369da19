"""C01"""
from .. import bulk, hist

ID = 'C01'
RUNS = {'quick': 9000, 'thorough': 60000}
RULE = ('random histories of set_event, filter_event, set_feature, '
        'binarize_score, conversion and discretisation calls and caller-side '
        'overwriting of arrays by 1-3 interleaved callers on random tables, '
        'and now and then on tables of 130-70000 objects; '
        'non-trivial: at least one fault fired or one context switch happened')
SHRINK = [('switches',), ('prologue',), ('tasks', 0), ('tasks', 1),
          ('tasks', 2)]
COMPONENTS = {'real': ['kamrecsys.data', 'kamrecsys.metrics.base'],
              'simulated': ['thread scheduling', 'asynchronous exceptions'],
              'stub': []}
ASSUMPTIONS = ['single interpreter with a global lock: callers interleave at '
               'line boundaries of the code under test',
               'arrays and lists passed in hold at least one event']


def gen(rng, idx, tier):
    return (bulk.generate(rng, idx, tier, ID) or
            hist.generate(rng, idx, tier, ID))


def run(plan, R):
    (bulk if 'bulk' in plan else hist).execute(plan, R, ID)


def simplify(plan):
    return (bulk if 'bulk' in plan else hist).simplify(plan)
