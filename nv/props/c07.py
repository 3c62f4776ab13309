"""C07: the callback protocol, and run() as exactly the loop of the documented step interface."""
import numpy as np

from nv import algs, core, objectives
from nv.engine import Target, Violation

ID = 'C07'
RULE = ('one case = one run specification executed (a) with two recording callbacks, (b) without callbacks, (c) driven by hand with the documented '
        'step interface; the event sequence, its data and the equality of the three runs are checked; non-trivial = at least one full iteration and '
        'two evaluations, distinct by the whole case')


def same(a, b):
    return (a is None and b is None) or (a is not None and b is not None and a.shape == b.shape and np.array_equal(a, b, equal_nan=True))


def manual(case):
    """The optimization loop of the documentation, written with the public step methods."""
    tr = core.Trace()
    tr.case = case
    tr.prob = objectives.recording_problem(case['prob'])
    task = tr.task = core.make_task(tr.prob, case['task'])
    alg = core.construct(case)
    pop, fpop, params = alg.init_population(task)
    xb, fxb = alg.get_best(pop, fpop)
    while not task.stopping_condition():
        pop, fpop, xb, fxb, params = alg.run_iteration(task, pop, fpop, xb, fxb, **params)
        task.next_iter()
    tr.x, tr.f = xb, fxb * task.optimization_type.value
    return tr


def check(case):
    from niapy.callbacks import Callback, CallbackList
    order = []
    extra = {}

    class Second(Callback):
        def __init__(self, k=0):
            super().__init__()
            self.k = k

        def before_run(self):
            order.append(('br', self.k))

        def before_iteration(self, *a, **k):
            order.append(('bi', self.k))

        def after_iteration(self, *a, **k):
            order.append(('ai', self.k))

        def after_run(self):
            order.append(('ar', self.k))

    more = case.get('more', 1)

    def cbs(tr):
        lst = [core.recorder(tr)] + [Second(k) for k in range(more)]
        extra['cbs'] = lst
        if case.get('as_list'):
            return lst
        cl = CallbackList(lst[:1])
        for cb in lst[1:]:
            cl.append(cb)
        return cl

    tr = core.execute(case, callbacks=cbs)
    core.crashed(tr)
    ev = tr.events
    kinds = [e['k'] for e in ev]
    n = tr.task.iters
    want = ['br'] + ['bi', 'ai'] * n + ['ar']
    if kinds != want:
        raise Violation('callback sequence %s for a run of %d iterations' % (' '.join(kinds)[:120], n))
    if order != [(k, i) for k in want for i in range(more)]:
        raise Violation('the %d further callbacks saw %s for a run of %d iterations' % (more, ' '.join('%s:%d' % o for o in order)[:120], n))
    if any(cb.algorithm is not tr.alg for cb in extra['cbs']):
        raise Violation('a callback is not connected to its algorithm')
    if len(extra['cbs']) != 1 + more:
        raise Violation('the run changed the list of callbacks it was given')
    other = core.construct(case, callbacks=extra['cbs'])
    other.callbacks.append(Second())
    if len(extra['cbs']) != 1 + more or len(tr.alg.callbacks.callbacks) != 1 + more:
        raise Violation('a callback appended to one algorithm is registered elsewhere, too')
    if ev[0]['calls'] != tr.first_call or ev[0]['evals'] != 0:
        raise Violation('%d evaluations happened before before_run' % ev[0]['evals'])
    if ev[-1]['calls'] != len(tr.prob.points):
        raise Violation('evaluations happened after after_run')
    sign = tr.sign
    its = ev[1:-1]
    for i, e in enumerate(its):
        if e['iters'] != i // 2:
            raise Violation('event %d (%s) saw %d finished iterations' % (i + 1, e['k'], e['iters']))
        if i and e['k'] == 'bi':
            p = its[i - 1]
            if e['calls'] != p['calls']:
                raise Violation('evaluations happened between two iterations')
            for key in ('pop', 'fit', 'bx'):
                if not same(e[key], p[key]):
                    raise Violation('before_iteration %d got another %s than the preceding after_iteration' % (i // 2 + 1, key))
            if e['bf'] != p['bf'] or e['params'] != p['params']:
                raise Violation('before_iteration %d got another best fitness or other parameters than the preceding after_iteration' % (i // 2 + 1))
    if its:
        if not (np.array_equal(its[-1]['bx'], np.asarray(tr.x, dtype=float)) and its[-1]['bf'] * sign == tr.f):
            raise Violation('the last after_iteration reported (%s, %r), the run returned (%s, %r)' % (its[-1]['bx'], its[-1]['bf'], tr.x, tr.f))
    plain = core.execute(case)
    core.crashed(plain)
    if not core.same_points(tr.prob.points, plain.prob.points) or tr.f != plain.f or not np.array_equal(tr.x, plain.x):
        raise Violation('registering callbacks changed the run: ' + core.first_difference(tr.prob.points, plain.prob.points))
    hand = manual(case)
    if not core.same_points(hand.prob.points, plain.prob.points) or hand.f != plain.f or not np.array_equal(hand.x, plain.x):
        raise Violation('run() differs from the documented loop: ' + core.first_difference(plain.prob.points, hand.prob.points))
    if hand.task.iters != plain.task.iters or list(hand.task.fitness_iters) != list(plain.task.fitness_iters):
        raise Violation('run() and the documented loop record different iterations')
    return core.labels(case, tr)


def targets(tier):
    from hypothesis import strategies as st

    def strat(n):
        return st.builds(lambda c, b, k: dict(c, as_list=b, more=k), core.run_cases(n, max_evals=160, max_iters=8, wild=True), st.booleans(), st.integers(0, 3))
    return [Target(n, (lambda n=n: strat(n)), check, quick=26, thorough=1200) for n in algs.classes()]
