"""C04: the returned pair is real, feasible, and the best of everything evaluated."""
import numpy as np

from nv import algs, core
from nv.engine import Target, Violation

ID = 'C04'
RULE = ('one case = one run (algorithm class x parameters x problem x budgets x repair x seed); the returned pair is recomputed from the log of '
        'evaluated points; non-trivial = at least one full iteration and two evaluations, distinct by the whole case')


def check_result(tr):
    case, prob = tr.case, tr.prob
    x, f = tr.x, tr.f
    if x is None or f is None:
        raise Violation('the run returned (%r, %r)' % (x, f))
    if not isinstance(x, np.ndarray) or x.shape != (case['prob']['dim'],):
        raise Violation('the returned solution is %s of shape %s' % (type(x).__name__, getattr(x, 'shape', None)))
    vals = np.array([float(v) for v in prob.values[tr.first_call:]])
    best = vals.min() if case['task']['opt'] == 'min' else vals.max()
    if float(f) != best:
        raise Violation('returned fitness %r, best evaluated value %r (of %d evaluations)' % (f, best, len(vals)))
    if float(tr.task.x_f) != best:
        raise Violation('the task recorded %r as the best value, best evaluated value %r' % (tr.task.x_f, best))
    xx = np.asarray(x, dtype=float)
    lo, up = np.asarray(case['prob']['lower'], dtype=float), np.asarray(case['prob']['upper'], dtype=float)
    if (xx < lo).any() or (xx > up).any() or not np.isfinite(xx).all():
        raise Violation('the returned solution %s is outside the box' % xx.tolist())
    if not np.isfinite(best):  # nothing but forbidden points was found: any feasible solution with the worst value is as good
        return
    if float(prob.fun(xx)) != best:
        raise Violation('objective(returned solution) = %r, returned fitness %r' % (float(prob.fun(xx)), f))
    if not any(np.array_equal(xx, p) for p in prob.points):
        raise Violation('the returned solution %s was never evaluated' % xx.tolist())


def check(case):
    tr = core.execute(case)
    core.crashed(tr)
    check_result(tr)
    lab = core.labels(case, tr)
    k = int(np.argmin(np.array([float(v) for v in tr.prob.values]) * tr.sign))
    lab['best found in the last fifth'] = k >= 0.8 * len(tr.prob.values)
    lab['best at the very last evaluation'] = k == len(tr.prob.values) - 1
    lab['best after the first population'] = k > 0 and tr.task.iters > 0
    return lab


def targets(tier):
    kinds = ['noise', 'noise', 'sphere', 'linear', 'prod', 'rastrigin', 'step', 'const', 'abs', 'rosen']
    return [Target(n, (lambda n=n: core.run_cases(n, kinds=kinds, wild=True)), check, quick=80, thorough=3000) for n in algs.classes()]
