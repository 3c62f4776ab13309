"""C02: the task's record of the search (counters, best value, improvements, convergence data) equals the history of calls."""
import logging

import numpy as np
from hypothesis import strategies as st

from nv import algs, core, objectives
from nv.engine import Target, Violation

ID = 'C02'
RULE = ('target history: one case = a task (sense, budgets, target value, logging) and a sequence of up to 60 operations (evaluate, next iteration, '
        'stopping test, convergence data, plot) with scripted objective values (ties, infinities, nan, ints), compared step by step with a reference '
        'model; target runs: the same record compared with the log of a real optimization; non-trivial = at least two improvements and one '
        'non-improving evaluation (history), or two iterations (runs), distinct by the whole case')

VALS = st.one_of(st.sampled_from([0.0, -0.0, 1.0, -1.0, 2.5, 1e300, -1e300, 5e-324, 3, -7, 0, float('inf'), float('-inf'), float('nan')]),
                 st.integers(-20, 20), st.floats(-50, 50).map(lambda v: round(v, 3)), st.floats(allow_nan=False))


@st.composite
def histories(draw):
    t = dict(opt=draw(st.sampled_from(['min', 'max'])), log=draw(st.booleans()),
             max_evals=draw(st.one_of(st.none(), st.integers(15, 45), st.integers(0, 45), st.integers(1, 12))),
             max_iters=draw(st.one_of(st.none(), st.none(), st.integers(4, 20), st.integers(0, 20))),
             cutoff=draw(st.one_of(st.none(), st.none(), st.none(), st.floats(5, 40).map(lambda v: round(v)), VALS.filter(lambda v: v == v))))
    if isinstance(t['cutoff'], int) and t['opt'] == 'min':
        t['cutoff'] = -t['cutoff']
    shape = draw(st.sampled_from(['any', 'walk', 'walk']))
    n = draw(st.one_of(st.integers(20, 60), st.integers(1, 60)))
    if shape == 'any':
        vals = draw(st.lists(VALS, min_size=1, max_size=20))
    else:  # slowly improving with plateaus
        step = draw(st.lists(st.sampled_from([0, 0, 1, 2, -1, 0.5, -2]), min_size=4, max_size=40))
        vals = np.cumsum(step).tolist()
        if t['opt'] == 'min':
            vals = [-v for v in vals]
    ops = draw(st.lists(st.sampled_from(['eval'] * 12 + ['iter', 'iter', 'stopiter', 'plot'] + ['eval'] * 12), min_size=n, max_size=n))
    return dict(task=t, vals=vals, ops=ops)


class Model:
    """The documented behaviour of a task."""

    def __init__(self, t):
        self.t, self.max = t, t['opt'] == 'max'
        self.best = None
        self.evals = self.iters = 0
        self.improved, self.per_iter = [], []

    def better(self, a, b):
        return a > b if self.max else a < b

    def start(self):
        return -np.inf if self.max else np.inf

    def value(self):
        return self.start() if self.best is None else self.best

    def stopped(self):
        t = self.t
        cut = (np.inf if self.max else -np.inf) if t['cutoff'] is None else t['cutoff']
        v = self.value()
        return (t['max_evals'] is not None and self.evals >= t['max_evals']) or (t['max_iters'] is not None and self.iters >= t['max_iters']) \
            or (v >= cut if self.max else v <= cut)

    def eval(self, v):
        self.evals += 1
        if self.better(v, self.value()):
            self.best = float(v)
            self.improved.append((self.evals, float(v)))
            return True
        return False

    def next_iter(self):
        self.per_iter.append(self.value())
        self.iters += 1

    def conv(self, axis):
        if axis == 'iters':
            return list(range(self.iters)), self.per_iter
        xs, ys = [], []
        for k, (n, v) in enumerate(self.improved):
            end = self.improved[k + 1][0] if k + 1 < len(self.improved) else n + 1
            for m in range(n, end):
                xs.append(m), ys.append(v)
        return xs, ys


def compare(task, m, when):
    if (task.evals, task.iters) != (m.evals, m.iters):
        raise Violation('%s: the task counts %s evaluations / iterations, there were %s' % (when, (task.evals, task.iters), (m.evals, m.iters)))
    if not float(task.x_f) == m.value():
        raise Violation('%s: best value recorded %r, best value seen %r' % (when, task.x_f, m.value()))
    for axis in ('iters', 'evals'):
        x, y = task.convergence_data(x_axis=axis)
        mx, my = m.conv(axis)
        if list(x) != mx or [float(v) for v in y] != [float(v) for v in my]:
            raise Violation('%s: convergence data over %s are %s -> %s, the history says %s -> %s' %
                            (when, axis, list(x)[:12], [float(v) for v in y][:12], mx[:12], my[:12]))
    if bool(task.stopping_condition()) != bool(m.stopped()):
        raise Violation('%s: stopping condition is %r although %r was expected (evals=%d, iters=%d, best=%r)' %
                        (when, task.stopping_condition(), m.stopped(), m.evals, m.iters, m.value()))


def plotted(task, axis):
    from matplotlib import pyplot as plt
    shown = []
    show, plt.show = plt.show, lambda *a, **k: shown.append(plt.gcf())
    try:
        task.plot_convergence(x_axis=axis)
        if len(shown) != 1:
            raise Violation('plot_convergence showed %d figures' % len(shown))
        ax = shown[0].axes[0]
        (line,) = ax.get_lines()
        return list(line.get_xdata()), [float(v) for v in line.get_ydata()], ax.get_xlabel()
    finally:
        plt.show = show
        plt.close('all')


def check_history(case):
    from niapy.problems import Problem
    from niapy.task import OptimizationType, Task
    t = case['task']
    it = iter(range(10 ** 9))
    seen = []

    class Scripted(Problem):
        def __init__(self):
            super().__init__(2, -1.0, 1.0)

        def _evaluate(self, x):
            v = case['vals'][next(it) % len(case['vals'])]
            seen.append(v)
            return v

    kw = {k: t[k] for k in ('max_evals', 'max_iters') if t[k] is not None}
    task = Task(Scripted(), optimization_type=OptimizationType.MAXIMIZATION if t['opt'] == 'max' else OptimizationType.MINIMIZATION,
                cutoff_value=t['cutoff'], enable_logging=t['log'], **kw)
    m = Model(t)
    compare(task, m, 'before the first operation')
    records = []

    class Cap(logging.Handler):
        def emit(self, record):
            records.append(record.getMessage())

    cap = Cap()
    root = logging.getLogger()
    others = root.handlers[:]
    root.handlers[:] = [cap]
    logging.disable(logging.NOTSET)
    plots = worse = after_stop = 0
    try:
        for k, op in enumerate(case['ops']):
            when = 'operation %d (%s)' % (k + 1, op)
            if op == 'eval':
                stopped, calls = m.stopped(), len(seen)
                records.clear()
                r = task.eval(np.array([0.25, -0.5]))
                if stopped:
                    after_stop += 1
                    if not (r == np.inf and len(seen) == calls):
                        raise Violation('%s: a stopped task evaluated (returned %r, %d objective calls)' % (when, r, len(seen) - calls))
                else:
                    if len(seen) != calls + 1:
                        raise Violation('%s: %d objective calls' % (when, len(seen) - calls))
                    want = seen[-1] * (-1.0 if t['opt'] == 'max' else 1.0)
                    if not (float(r) == float(want) or (r != r and want != want)):
                        raise Violation('%s: objective %r was returned as %r' % (when, seen[-1], r))
                    imp = m.eval(seen[-1])
                    worse += not imp
                    if len(records) != (1 if imp and t['log'] else 0):
                        raise Violation('%s: %d log messages (logging %s, improvement %s)' % (when, len(records), t['log'], imp))
                    if records and (str(m.evals) not in records[0] or str(float(m.best)) not in records[0]):
                        raise Violation('%s: improvement to %r at evaluation %d logged as %r' % (when, m.best, m.evals, records[0]))
            elif op == 'iter':
                task.next_iter()
                m.next_iter()
            elif op == 'stopiter':
                want = m.stopped()
                got = task.stopping_condition_iter()
                m.next_iter()
                if bool(got) != bool(want):
                    raise Violation('%s: returned %r instead of %r' % (when, got, want))
            elif op == 'plot' and plots < 1 and m.evals > 5:
                plots += 1
                for axis in ('iters', 'evals'):
                    x, y, lab = plotted(task, axis)
                    mx, my = m.conv(axis)
                    if np.isfinite(my).all() and (x != mx or y != [float(v) for v in my]):
                        raise Violation('%s: plotted %s -> %s, the history says %s -> %s' % (when, x[:9], y[:9], mx[:9], my[:9]))
                    if ('iter' in lab.lower()) != (axis == 'iters'):
                        raise Violation('%s: the axis over %s is labelled %r' % (when, axis, lab))
            compare(task, m, when)
    finally:
        logging.disable(logging.CRITICAL)
        root.handlers[:] = others
    return {'nontrivial': len(m.improved) >= 2 and worse >= 1, 'opt=' + t['opt']: 1, 'stopped at the end': m.stopped(), 'plotted': plots,
            'evaluated after the end': after_stop, 'nan seen': any(v != v for v in seen), 'log': t['log'], 'iterations': m.iters > 0,
            'gap between improvements': any(b[0] - a[0] > 1 for a, b in zip(m.improved, m.improved[1:]))}


@st.composite
def runs(draw):
    return draw(core.run_cases(draw(st.sampled_from(sorted(algs.classes()))), wild=True))


def check_run(case):
    tr = core.execute(case, callbacks=lambda tr: [core.recorder(tr, detail=False)])
    core.crashed(tr)
    t = dict(case['task'])
    t['cutoff'] = None if t['cutoff'] is None else core.cutoff_value(tr.prob, tr.case['task'])
    m = Model(t)
    values = [float(v) for v in tr.prob.values[tr.first_call:]]
    # iterations end where the callbacks saw them end
    ends = [e['calls'] for e in tr.events if e['k'] == 'ai']
    done = 0
    for n, v in enumerate(values, 1):
        while done < len(ends) and ends[done] < n + tr.first_call:
            m.next_iter()
            done += 1
        m.eval(v)
    while done < len(ends):
        m.next_iter()
        done += 1
    compare(tr.task, m, 'after the run')
    lab = core.labels(case, tr)
    lab['nontrivial'] = m.iters >= 2
    return lab


def targets(tier):
    out = [Target('history-%d' % k, histories, check_history, quick=500, thorough=15000) for k in range(4)]
    return out + [Target('runs-%d' % k, runs, check_run, quick=150, thorough=5000) for k in range(4)]
