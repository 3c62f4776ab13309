"""C05: the seed determines the run; no hidden source of randomness or state."""
import random

import numpy as np

from nv import algs, core
from nv.engine import Target, Violation

ID = 'C05'
RULE = ('one case = one run specification executed three times in one process (fresh instances, equal seed, different states of the global random '
        'generators, after an unrelated run of another algorithm), the full sequences of evaluated points are compared bit by bit; plus one run with '
        'another seed; non-trivial = at least one full iteration and two evaluations, distinct by the whole case')


def check(case):
    a = core.execute(case)
    core.crashed(a)
    np.random.seed(case['seed'] % 1000 + 17)
    random.seed(99)
    other = dict(case, alg='DifferentialEvolution', params={'population_size': 6}, seed=5)
    core.crashed(core.execute(other))
    b = core.execute(case)
    core.crashed(b)
    np.random.seed(4242)
    c = core.execute(case)
    core.crashed(c)
    for t in (b, c):
        if not core.same_points(a.prob.points, t.prob.points):
            raise Violation('two runs with seed %d differ: %s' % (case['seed'], core.first_difference(a.prob.points, t.prob.points)))
        if a.f != t.f or not np.array_equal(a.x, t.x):
            raise Violation('two runs with seed %d return different results: (%s, %r) and (%s, %r)' % (case['seed'], a.x, a.f, t.x, t.f))
        if a.task.evals != t.task.evals or a.task.iters != t.task.iters:
            raise Violation('two runs with seed %d do not take the same number of steps' % case['seed'])
    lab = core.labels(case, a)
    if len(a.prob.points) >= 3 and a.prob.dimension >= 1:
        d = core.execute(dict(case, seed=case['seed'] + 1))
        core.crashed(d)
        if core.same_points(a.prob.points, d.prob.points):
            raise Violation('seeds %d and %d produce the same run: the seed is ignored' % (case['seed'], case['seed'] + 1))
        lab['other seed differs'] = True
    return lab


def targets(tier):
    return [Target(n, (lambda n=n: core.run_cases(n, max_evals=160, max_iters=8, wild=True)), check, quick=26, thorough=1200) for n in algs.classes()]
