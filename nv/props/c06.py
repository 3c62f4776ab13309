"""C06: maximising f is minimising -f."""
import numpy as np

from nv import algs, core, objectives
from nv.engine import Target, Violation

ID = 'C06'
RULE = ('one case = one run specification executed as given and with the objective negated and the sense of optimisation swapped (equal seed); the '
        'evaluated points, the number of steps, the result and the recorded convergence must mirror each other exactly; non-trivial = at least one '
        'full iteration and two evaluations with two different values, distinct by the whole case')


def check(case):
    a = core.execute(case, callbacks=lambda tr: [core.recorder(tr)])
    core.crashed(a)
    dual = dict(case, task=dict(case['task'], opt='max' if case['task']['opt'] == 'min' else 'min'))
    prob = objectives.recording_problem(case['prob'])
    f = prob.fun
    def negated(x):
        v = f(x)  # the type stays (the sum of Python floats is not the sum of numpy floats); integers become floats to have a signed zero
        return -v if isinstance(v, np.floating) else -float(v)
    prob.fun = negated
    b = core.execute(dual, prob=prob, callbacks=lambda tr: [core.recorder(tr)])
    core.crashed(b)
    if not core.same_points(a.prob.points, b.prob.points):
        raise Violation('%simising f and the dual run differ: %s' % (case['task']['opt'], core.first_difference(a.prob.points, b.prob.points)))
    if a.f != -b.f or not np.array_equal(a.x, b.x):
        raise Violation('results (%s, %r) and (%s, %r) are not mirror images' % (a.x, a.f, b.x, b.f))
    if (a.task.evals, a.task.iters) != (b.task.evals, b.task.iters):
        raise Violation('%s and %s evaluations / iterations' % ((a.task.evals, a.task.iters), (b.task.evals, b.task.iters)))
    for ax in ('iters', 'evals'):
        (x1, y1), (x2, y2) = a.task.convergence_data(x_axis=ax), b.task.convergence_data(x_axis=ax)
        if not (np.array_equal(x1, x2) and np.array_equal(np.asarray(y1, dtype=float), -np.asarray(y2, dtype=float))):
            raise Violation('convergence data over %s are not mirror images: %s / %s' % (ax, list(y1)[:6], list(y2)[:6]))
    for e, g in zip(a.events, b.events):
        if e['k'] != g['k'] or e.get('bf') != g.get('bf') or ('bx' in e and not np.array_equal(e['bx'], g['bx'], equal_nan=True)):
            raise Violation('the best solution reported to callbacks differs between the two senses')
    lab = core.labels(case, a)
    lab['nontrivial'] = lab['nontrivial'] and len({float(v) for v in a.prob.values}) > 1
    return lab


def targets(tier):
    return [Target(n, (lambda n=n: core.run_cases(n, max_evals=200, max_iters=10, wild=True)), check, quick=36, thorough=1500) for n in algs.classes()]
