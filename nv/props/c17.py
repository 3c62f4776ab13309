"""C17: faults of the objective, a callback or the repair function."""
import multiprocessing
import threading

import numpy as np
from hypothesis import strategies as st

from nv import algs, core, objectives
from nv.engine import Skip, Target, Violation

ID = 'C17'
RULE = ('one case = one run specification, a place of the fault (objective call, callback event, repair call), its relative position in the run, an '
        'exception type and where the run takes place (main thread, worker thread, child process); the fault-free run tells the number of possible '
        'positions; non-trivial = the fault is neither in the first nor in the last possible position, distinct by the whole case')


class Custom(Exception):
    pass


class CustomBase(BaseException):
    pass


class Collected(Exception):
    """A collection of errors, which may be empty."""

    def __len__(self):
        return 0


EXC = {'value': ValueError, 'key': KeyError, 'zero': ZeroDivisionError, 'index': IndexError, 'runtime': RuntimeError, 'custom': Custom, 'base': CustomBase,
       'memory': MemoryError, 'type': TypeError, 'attribute': AttributeError, 'interrupt': KeyboardInterrupt, 'arith': FloatingPointError,
       'stop': StopIteration, 'exit': SystemExit, 'generator': GeneratorExit, 'collected': Collected, 'timeout': TimeoutError}


@st.composite
def cases(draw, name):
    spec = draw(core.run_cases(name, max_evals=120, max_iters=5, max_dim=4, wild=True))
    spec['task']['cutoff'] = None
    spec['fault'] = dict(place=draw(st.sampled_from(['objective', 'objective', 'callback', 'repair'])), pos=draw(st.integers(0, 1000)) / 1000,
                         exc=draw(st.sampled_from(sorted(EXC))), bare=draw(st.booleans()), where=draw(st.sampled_from(['main', 'main', 'thread', 'thread', 'process'])))
    return spec


class Plan:
    def __init__(self, place, k, exc):
        self.place, self.k, self.exc = place, k, exc
        self.n = dict(objective=0, callback=0, repair=0)
        self.after = dict(objective=0, callback=0, repair=0)
        self.fired = False

    def hit(self, place):
        self.n[place] += 1
        if self.fired:
            self.after[place] += 1
        elif place == self.place and self.n[place] == self.k:
            self.fired = True
            raise self.exc


def build(case, plan):
    from niapy.callbacks import Callback
    from niapy.util import repair as rep
    prob = objectives.recording_problem(case['prob'], lambda n, p: plan.hit('objective'))

    class Cb(Callback):
        def before_run(self):
            plan.hit('callback')

        def after_run(self):
            plan.hit('callback')

        def before_iteration(self, *a, **k):
            plan.hit('callback')

        def after_iteration(self, *a, **k):
            plan.hit('callback')
    task = core.make_task(prob, case['task'])
    fn = task.repair_function

    def repairing(x, lower, upper, **kw):
        plan.hit('repair')
        return fn(x, lower, upper, **kw)
    task.repair_function = repairing
    return prob, task, core.construct(case, callbacks=[Cb()])


def check(case):
    f = case['fault']
    dry = Plan('none', 0, None)
    prob, task, alg = build(case, dry)
    x, fx = alg.run(task)
    if alg.bad_run():
        raise Violation('a run without a fault reports itself as failed')
    total = dry.n[f['place']]
    place = f['place']
    if total == 0:
        place, total = 'objective', dry.n['objective']
    k = 1 + int(round(f['pos'] * (total - 1)))
    exc = EXC[f['exc']](*[] if f.get('bare') else ['injected'])
    plan = Plan(place, k, exc)
    prob2, task2, alg2 = build(case, plan)
    what = 'a fault in %s %d of %d' % (place, k, total)
    if alg2.bad_run():
        raise Violation('a fresh instance reports a failed run')
    if f['where'] == 'main':
        try:
            r = alg2.run(task2)
        except BaseException as e:
            if e is not exc:
                if type(e).__name__ == 'CaseTimeout':
                    raise
                raise Violation('%s surfaced as %r instead of %r' % (what, e, exc))
        else:
            raise Violation('%s was swallowed, the run returned %r' % (what, r))
    elif f['where'] == 'thread':
        box = []

        def body():
            np.seterr(all='ignore')
            try:
                box.append(alg2.run(task2))
            except BaseException as e:
                box.append(e)
        t = threading.Thread(target=body, daemon=True)
        t.start()
        t.join(60)
        if t.is_alive():
            raise Skip()
        r = box[0]
        if not (isinstance(r, tuple) and len(r) == 2 and r[0] is None and r[1] is None):
            raise Violation('%s in another thread: run gave %r' % (what, r))
        if not alg2.bad_run() or alg2.exception is not exc:
            raise Violation('%s in another thread: bad_run() = %r, exception %r' % (what, alg2.bad_run(), alg2.exception))
    else:
        return process(case, plan, prob2, task2, alg2, what, exc, k, total)
    tell(plan, prob2, task2, what, prob)
    return labels(case, k, total, place)


def tell(plan, prob, task, what, dry_prob):
    if any(plan.after.values()):
        raise Violation('after %s: %s' % (what, {a: b for a, b in plan.after.items() if b}))
    if not plan.n['objective'] - 1 <= task.evals <= plan.n['objective']:
        raise Violation('after %s the task counts %d evaluations, the objective was called %d times' % (what, task.evals, plan.n['objective']))
    if plan.place != 'objective' and task.evals != plan.n['objective']:
        raise Violation('after %s the task counts %d evaluations, the objective was called %d times' % (what, task.evals, plan.n['objective']))
    if not core.same_points(prob.points, dry_prob.points[:len(prob.points)]):
        raise Violation('before %s the run differs from the fault-free run: %s' % (what, core.first_difference(prob.points, dry_prob.points[:len(prob.points)])))


def process(case, plan, prob, task, alg, what, exc, k, total):
    ctx = multiprocessing.get_context('fork')
    a, b = ctx.Pipe()

    def body():
        import os
        try:
            np.seterr(all='ignore')
            try:
                r = alg.run(task)
                out = ('none' if r[0] is None and r[1] is None else repr(r), alg.bad_run(), alg.exception is exc, dict(plan.after), task.evals, plan.n['objective'])
            except BaseException as e:
                out = (repr(e), None, None, None, None, None)
            b.send(out)
            b.close()
        finally:
            os._exit(0)
    p = ctx.Process(target=body, daemon=True)
    p.start()
    b.close()
    try:
        if not a.poll(60):
            raise Skip()
        r, bad, same, after, evals, calls = a.recv()
    except EOFError:
        raise Violation('%s ended the child process' % what)
    finally:
        p.join(10)
        if p.is_alive():
            p.kill()
    if r != 'none' or not bad or not same:
        raise Violation('%s in a child process: run gave %s, bad_run() = %r, same exception: %r' % (what, r, bad, same))
    if any(after.values()) or not calls - 1 <= evals <= calls:
        raise Violation('after %s in a child process: %s, %d evaluations counted, %d calls' % (what, after, evals, calls))
    return labels(case, k, total, plan.place)


def labels(case, k, total, place):
    return {'nontrivial': 1 < k < total, 'place ' + place: 1, 'where ' + case['fault']['where']: 1, 'type ' + case['fault']['exc']: 1}


def targets(tier):
    return [Target(n, (lambda n=n: cases(n)), check, quick=30, thorough=1500) for n in algs.classes()]
