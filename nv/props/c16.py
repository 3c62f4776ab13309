"""C16: runs do not influence each other."""
import threading

import numpy as np
from hypothesis import strategies as st

from nv import algs, core, objectives
from nv.engine import Skip, Target, Violation

ID = 'C16'
RULE = ('target NAME: one case = one instance of an algorithm run on 2-3 tasks in a row (different problems, dimensions, budgets, senses; sometimes a '
        'run that is broken off by a fault first), each run compared with a fresh instance whose generator is in the same state; target threads: two '
        'runs of any two algorithms (also of one class, also sharing one problem object) interleaved in two threads by a generated schedule that '
        'switches at objective calls, each compared with its run alone; non-trivial = at least two runs with one full iteration, distinct by the '
        'whole case')
ASSUMPTIONS = ['thread switches happen at calls of the objective; the interpreter lock makes finer interleavings of one bytecode atomic']


@st.composite
def again_cases(draw, name):
    spec = draw(core.run_cases(name, max_evals=150, max_iters=7, max_dim=6, wild=True))
    more = []
    for _ in range(draw(st.integers(1, 2))):
        dim = None
        if draw(st.booleans()):
            prob = draw(core.problem_specs(min_dim=algs.table(name).get('dim', 1), max_dim=6))
        else:
            prob = spec['prob']  # equal problem: leftovers of the first run would fit
        more.append(dict(prob=prob, task=draw(core.task_specs(max_evals=150, max_iters=7))))
    spec['more'] = more
    spec['fault'] = draw(st.sampled_from([0, 0, 0, 1, 7, 40]))
    for m in more:
        core.clamp(dict(spec, prob=m['prob'], task=m['task']))
    if name == 'ForestOptimizationAlgorithm':
        d = min([spec['prob']['dim']] + [m['prob']['dim'] for m in more])
        for k in ('local_seeding_changes', 'global_seeding_changes'):
            spec['params'][k] = min(spec['params'][k], d)
    return spec


class Fault(Exception):
    pass


def check_again(case):
    alg = core.construct(case)
    steps = [dict(prob=case['prob'], task=case['task'])] + case['more']
    if case['fault']:
        def boom(n, p):
            if n == case['fault']:
                raise Fault()
        t = core.execute(dict(case, task=dict(case['task'], cutoff=None)), alg=alg, hook=boom)
        if t.exc is not None and not isinstance(t.exc, Fault):
            core.crashed(t)
    full = 0
    lab = {}
    for i, s in enumerate(steps):
        one = dict(case, **s)
        state = alg.rng.bit_generator.state
        a = core.execute(one, alg=alg)
        core.crashed(a, 'run %d of the instance' % (i + 1))
        fresh = core.construct(case)
        fresh.rng.bit_generator.state = state
        b = core.execute(one, alg=fresh)
        core.crashed(b)
        if not core.same_points(a.prob.points, b.prob.points):
            raise Violation('run %d of one instance differs from the run of a fresh instance: %s' % (i + 1, core.first_difference(a.prob.points, b.prob.points)))
        if a.f != b.f or not np.array_equal(a.x, b.x):
            raise Violation('run %d of one instance returns (%s, %r), a fresh instance (%s, %r)' % (i + 1, a.x, a.f, b.x, b.f))
        full += a.task.iters >= 1
        lab = core.labels(one, a)
    lab['nontrivial'] = full >= 2
    lab['after a fault'] = bool(case['fault'])
    return lab


# ---------------------------------------------------------------- two runs at once

@st.composite
def thread_cases(draw):
    names = sorted(algs.classes())
    a = draw(st.sampled_from(names))
    b = a if draw(st.booleans()) else draw(st.sampled_from(names))
    specs = [draw(core.run_cases(n, max_evals=110, max_iters=5, max_dim=4)) for n in (a, b)]
    share = draw(st.booleans())
    if share:
        dim = max(algs.table(n).get('dim', 1) for n in (a, b))
        prob = draw(core.problem_specs(min_dim=dim, max_dim=5))
        for s in specs:
            s['prob'] = prob
            core.clamp(s)
    return dict(specs=specs, share=share, schedule=draw(st.lists(st.integers(1, 12), min_size=2, max_size=10)), first=draw(st.integers(0, 1)))


class LockStep:
    """Exactly one of two threads runs; after each quantum of objective calls the turn passes to the other while it lives."""

    def __init__(self, schedule, first):
        self.cv = threading.Condition()
        self.turn, self.left, self.k, self.schedule = first, schedule[0], 0, schedule
        self.alive = [True, True]
        self.switches = 0

    def _next(self, me):
        self.k += 1
        self.left = self.schedule[self.k % len(self.schedule)]
        if self.alive[1 - me]:
            self.turn = 1 - me
            self.switches += 1
        self.cv.notify_all()

    def start(self, me):
        with self.cv:
            self.wait(me)

    def wait(self, me):
        if not self.cv.wait_for(lambda: self.turn == me, timeout=60):
            raise RuntimeError('schedule stuck')

    def step(self, me):
        with self.cv:
            self.left -= 1
            if self.left <= 0:
                self._next(me)
                self.wait(me)

    def end(self, me):
        with self.cv:
            self.alive[me] = False
            if self.alive[1 - me]:
                self.turn = 1 - me
            self.cv.notify_all()


def check_threads(case):
    solo = [core.execute(s) for s in case['specs']]
    for s in solo:
        core.crashed(s)
    sched = LockStep(case['schedule'], case['first'])
    logs, out = [[], []], [None, None]
    problem = None
    who = threading.local()

    def hook(n, p):
        if getattr(who, 'me', None) is not None:
            logs[who.me].append(p)
            sched.step(who.me)
    shared = objectives.recording_problem(case['specs'][0]['prob'], hook) if case['share'] else None

    # task construction evaluates the objective for target values, hence before the threads start
    prepared = []
    for s in case['specs']:
        prob = shared or objectives.recording_problem(s['prob'], hook)
        prepared.append((prob, core.make_task(prob, s['task'])))

    def body(me):
        np.seterr(all='ignore')
        try:
            sched.start(me)
            who.me = me
            s = case['specs'][me]
            alg = core.construct(s)
            prob, task = prepared[me]
            out[me] = (alg.run(task), task, alg)
        except BaseException as e:
            out[me] = e
        finally:
            who.me = None
            sched.end(me)

    threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in (0, 1)]
    for t in threads:
        t.start()
    for t in threads:
        t.join(90)
    if any(t.is_alive() for t in threads):
        raise Skip()
    for i in (0, 1):
        r, s = out[i], solo[i]
        if isinstance(r, BaseException):
            raise Violation('the interleaved run of %s ended with %r' % (case['specs'][i]['alg'], r))
        (x, f), task, alg = r
        if x is None:
            raise Violation('the interleaved run of %s failed: %r' % (case['specs'][i]['alg'], alg.exception))
        if not core.same_points(logs[i], s.prob.points[s.first_call:]):
            raise Violation('%s interleaved with %s differs from its run alone: %s' % (case['specs'][i]['alg'], case['specs'][1 - i]['alg'],
                                                                                   core.first_difference(logs[i], s.prob.points[s.first_call:])))
        if f != s.f or not np.array_equal(x, s.x) or (task.evals, task.iters) != (s.task.evals, s.task.iters):
            raise Violation('%s interleaved with %s gives (%s, %r), alone (%s, %r)' % (case['specs'][i]['alg'], case['specs'][1 - i]['alg'], x, f, s.x, s.f))
    return {'nontrivial': sched.switches >= 2 and all(s.task.iters >= 1 for s in solo), 'shared problem': case['share'],
            'same class': case['specs'][0]['alg'] == case['specs'][1]['alg']}


def targets(tier):
    ts = [Target(n, (lambda n=n: again_cases(n)), check_again, quick=24, thorough=1200) for n in algs.classes()]
    return ts + [Target('threads-%d' % k, thread_cases, check_threads, quick=40, thorough=2500, cpu=60) for k in range(8)]
