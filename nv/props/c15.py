"""C15: parameters mean the same however they are given, and are reported."""
import numpy as np
from hypothesis import strategies as st

from nv import algs, core
from nv.engine import Target, Violation

ID = 'C15'
RULE = ('one case = one run specification with explicit parameters executed with the parameters given to the constructor and with the parameters set '
        'afterwards on a plainly constructed instance of equal seed; the runs and the reported parameters are compared; non-trivial = at least one '
        'explicit parameter and one full iteration, distinct by the whole case')
# keys under which a parameter is reported when it is not its own name
KEYS = {('CoralReefsOptimization', 'crossover_rate'): 'cr', ('CoralReefsOptimization', 'mutation_rate'): 'mr'}


def check(case):
    a = core.execute(case)
    core.crashed(a, 'the run with constructor parameters')
    kw = algs.resolve_params(case['params'])
    alg = algs.classes()[case['alg']](seed=case['seed'])
    alg.set_parameters(**kw)
    b = core.execute(case, alg=alg)
    core.crashed(b, 'the run with parameters set afterwards')
    if not core.same_points(a.prob.points, b.prob.points):
        raise Violation('constructor and set_parameters differ for %s: %s' % (case['params'], core.first_difference(a.prob.points, b.prob.points)))
    if a.f != b.f or not np.array_equal(a.x, b.x):
        raise Violation('constructor and set_parameters give different results for %s' % case['params'])
    for who, name in ((core.construct(case), 'constructor'), (alg_with(case, kw), 'set_parameters')):
        rep = who.get_parameters()
        for k, v in kw.items():
            if k in rep and not same(rep[k], v):
                raise Violation('%s given by the %s as %r is reported as %r' % (k, name, v, rep[k]))
    pa, pb = core.construct(case).get_parameters(), alg_with(case, kw).get_parameters()
    for k in sorted(set(pa) | set(pb)):
        if k not in pa or k not in pb or not same(pa[k], pb[k]):
            raise Violation('%s: constructor and set_parameters with %s lead to different values of %s: %r and %r' % (
                case['alg'], case['params'], k, pa.get(k, 'none'), pb.get(k, 'none')))
    lab = core.labels(case, a)
    lab['nontrivial'] = lab['nontrivial'] and bool(case['params'])
    lab['reported'] = any(k in core.construct(case).get_parameters() for k in kw)
    return lab


def alg_with(case, kw):
    alg = algs.classes()[case['alg']](seed=case['seed'])
    alg.set_parameters(**kw)
    return alg


def same(a, b):
    if callable(b):
        return a is b or getattr(a, '__name__', a) == getattr(b, '__name__', b)
    if isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


@st.composite
def cases(draw, name):
    c = draw(core.run_cases(name, max_evals=160, max_iters=8, wild=True))
    if draw(st.integers(0, 3)) == 0 and c['task']['max_evals'] is not None:
        c['params'].pop('population_size', None)
    return c


def targets(tier):
    return [Target(n, (lambda n=n: cases(n)), check, quick=36, thorough=1500) for n in algs.classes()]
