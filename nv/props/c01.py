"""C01: budgets, stopping criteria, termination."""
import numpy as np
from hypothesis import strategies as st

from nv import algs, core
from nv.engine import Target, Violation

ID = 'C01'
TIMEOUT_IS_VIOLATION = True
RULE = ('one case = algorithm class x parameter values x problem (dim 1-8, box, objective family) x budgets (evaluations, iterations, both, '
        'tight, cutoff) x repair x seed, run to the end; non-trivial = at least one full iteration and two evaluations, distinct by the whole case')
ASSUMPTIONS = ['CPU budget of 30 s per run of at most a few hundred evaluations stands for non-termination']


def check(case):
    stopped = []
    holder = {}

    def hook(n, p):
        t = holder.get('task')
        if t is None:
            return
        # the criterion as documented, computed from the harness' own log, not from the task
        prob, c = holder['prob'], case['task']
        calls = len(prob.points)  # completed before this one
        if c['max_evals'] is not None and calls >= c['max_evals']:
            stopped.append('call %d of the objective exceeds max_evals=%s' % (n, c['max_evals']))
        if c['max_iters'] is not None and t.iters >= c['max_iters']:
            stopped.append('call %d of the objective after %d of %d iterations' % (n, t.iters, c['max_iters']))
        if c['cutoff'] is not None and prob.values:
            cut = holder['cut']
            if (min(prob.values) <= cut) if c['opt'] == 'min' else (max(prob.values) >= cut):
                stopped.append('call %d of the objective after the target value %r was reached' % (n, cut))

    from nv import objectives
    prob = objectives.recording_problem(case['prob'], hook)
    task = core.make_task(prob, case['task'])
    holder.update(task=task, prob=prob, cut=core.cutoff_value(prob, case['task']) if case['task']['cutoff'] is not None else None)
    prob.points.clear(), prob.values.clear()
    tr = core.execute(case, prob=prob, task=task)
    core.crashed(tr)
    c = case['task']
    if stopped:
        raise Violation(stopped[0])
    calls = len(prob.points)
    if task.evals != calls:
        raise Violation('the task counts %d evaluations, the objective was called %d times' % (task.evals, calls))
    if not task.stopping_condition():
        raise Violation('the run ended although no stopping criterion is met (evals=%d iters=%d)' % (task.evals, task.iters))
    reached = c['cutoff'] is not None and ((min(prob.values) <= holder['cut']) if c['opt'] == 'min' else (max(prob.values) >= holder['cut']))
    if c['max_evals'] is not None and c['max_iters'] is None and not reached and calls != c['max_evals']:
        raise Violation('%d of %d evaluations used although nothing else could stop the run' % (calls, c['max_evals']))
    if c['max_evals'] is None and not reached and task.iters != c['max_iters']:
        raise Violation('%d iterations done, max_iters=%d was the only limit' % (task.iters, c['max_iters']))
    if c['max_iters'] is not None and task.iters > c['max_iters']:
        raise Violation('%d iterations done, max_iters=%d' % (task.iters, c['max_iters']))
    # a stopped task evaluates nothing any more
    v = task.eval(np.asarray(prob.lower, dtype=float).copy())
    if not (v == np.inf and len(prob.points) == calls and task.evals == calls):
        raise Violation('a stopped task still evaluates: returned %r, objective called %d more times' % (v, len(prob.points) - calls))
    if prob.bad:
        raise Violation(prob.bad)
    out = core.labels(case, tr)
    out['stopped by cutoff'] = reached
    return out


@st.composite
def exhaustion_cases(draw):
    """Bee colonies whose food sources all run out close to the end of the budget, and values at the pole of the probabilities."""
    c = draw(core.run_cases('ArtificialBeeColonyAlgorithm', kinds=['const', 'step', 'noise', 'linear'], max_dim=3))
    c['params'] = dict(population_size=draw(st.integers(4, 7)), limit=draw(st.integers(1, 2)))
    c['task'].update(cutoff=None, max_evals=draw(st.integers(6, 40)))
    if draw(st.booleans()):
        c['prob']['f'].update(b=-0.01, s=1.0, ret='np')
    return c


def targets(tier):
    return [Target(n, (lambda n=n: core.run_cases(n, wild=True)), check, quick=60, thorough=2500) for n in algs.classes()] + [
        Target('exhausted-bees', exhaustion_cases, check, quick=150, thorough=2500, cpu=5)]
