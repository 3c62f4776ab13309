"""C03: every point handed to the objective is a complete, finite vector inside the box."""
import numpy as np

from nv import algs, core
from nv.engine import Target, Violation

ID = 'C03'
RULE = ('one case = one run (algorithm class x parameters x problem x budgets x one of the five repair functions x seed); every evaluated point is '
        'compared with the box; non-trivial = at least one full iteration and two evaluations, distinct by the whole case')


def check_points(points, lower, upper, bad=None):
    if bad:
        raise Violation(bad)
    lo, up = np.asarray(lower, dtype=float), np.asarray(upper, dtype=float)
    for i, p in enumerate(points):
        if p.shape != lo.shape:
            raise Violation('evaluation %d: point of shape %s' % (i + 1, p.shape))
        if not np.isfinite(p).all():
            raise Violation('evaluation %d: point with a non-finite component: %s' % (i + 1, p.tolist()))
        if (p < lo).any() or (p > up).any():
            j = int(np.argmax((p < lo) | (p > up)))
            raise Violation('evaluation %d: component %d is %r, outside [%r, %r]' % (i + 1, j, p[j], lo[j], up[j]))


def check(case):
    tr = core.execute(case)
    check_points(tr.prob.points, case['prob']['lower'], case['prob']['upper'], tr.prob.bad)
    core.crashed(tr)
    for key in ('lower', 'upper'):
        for who in (tr.prob, tr.task):
            if not np.array_equal(getattr(who, key), np.asarray(case['prob'][key], dtype=float)):
                raise Violation('the run changed the %s bound of its %s to %s' % (key, type(who).__name__, getattr(who, key)))
    lab = core.labels(case, tr)
    lo, up = np.asarray(case['prob']['lower']), np.asarray(case['prob']['upper'])
    lab['some point on the boundary'] = any((p == lo).any() or (p == up).any() for p in tr.prob.points)
    return lab


def targets(tier):
    kinds = ['linear', 'sphere', 'abs', 'noise', 'step', 'const', 'prod', 'rastrigin']
    return [Target(n, (lambda n=n: core.run_cases(n, kinds=kinds, wild=True)), check, quick=70, thorough=3000) for n in algs.classes()]
