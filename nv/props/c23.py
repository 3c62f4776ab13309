"""C23: individuals."""
import numpy as np
from hypothesis import strategies as st

from nv import core, objectives
from nv.engine import Target, Violation

ID = 'C23'
RULE = ('one case = a task and 2-30 operations (generate from the task, build from a list / tuple / array, evaluate, copy, assign a component or slice, '
        'overwrite the vector, change a vector in place, compare, search in an array, read) over a growing set of individuals of the library\'s '
        'individual classes, each state compared with a reference model; non-trivial = at least one copy or evaluation followed by a change, distinct '
        'by the whole case')

KINDS = ['Individual', 'Individual', 'Individual', 'SolutionJDE', 'SolutionSHADE', 'MtsIndividual', 'AgingIndividual', 'IndividualES', 'MkeSolution', 'SolutionABC', 'Lion']


def cls(name):
    import niapy.algorithms.basic.abc as abc_
    import niapy.algorithms.basic.de as de
    import niapy.algorithms.basic.es as es
    import niapy.algorithms.basic.loa as loa
    import niapy.algorithms.basic.mke as mke
    import niapy.algorithms.modified.hde as hde
    import niapy.algorithms.modified.jde as jde
    import niapy.algorithms.modified.shade as shade
    from niapy.algorithms import Individual
    if name == 'Individual':
        return Individual
    for m in (jde, shade, hde, de, es, mke, abc_, loa):
        if hasattr(m, name):
            return getattr(m, name)


@st.composite
def cases(draw):
    prob = draw(core.problem_specs(max_dim=5))
    d = prob['dim']
    ops = []
    for _ in range(draw(st.integers(2, 30))):
        op = draw(st.sampled_from(['generate', 'build', 'build', 'evaluate', 'evaluate', 'copy', 'copy', 'set', 'set', 'slice', 'assign', 'compare', 'search', 'read', 'twin']))
        i, j = draw(st.integers(0, 9)), draw(st.integers(0, 9))
        vals = [draw(st.floats(-0.4, 1.4).map(lambda v: round(v, 3))) for _ in range(d)]
        ops.append([op, i, j, vals, draw(st.sampled_from(['list', 'tuple', 'array'])), draw(st.booleans()), draw(st.sampled_from(KINDS))])
    return dict(prob=prob, opt=draw(st.sampled_from(['min', 'max'])), repair=draw(st.sampled_from(core.REPAIRS)), ops=ops, seed=draw(st.integers(0, 2 ** 31)),
                max_evals=draw(st.sampled_from([1000, 1000, 3])), copy=draw(st.booleans()))


def check(c):
    prob = objectives.recording_problem(c['prob'])
    task = core.make_task(prob, dict(opt=c['opt'], repair=c['repair'], max_evals=c['max_evals'], max_iters=None, copy=c['copy']))
    lo, up = np.array(c['prob']['lower'], dtype=float), np.array(c['prob']['upper'], dtype=float)
    d, sign = len(lo), task.optimization_type.value
    rng = np.random.default_rng(c['seed'])
    inds, mx, mf = [], [], []
    used = changed = 0

    def value(x, calls):
        """What the task gives for x: the logged value, or infinity when the budget is used up."""
        if len(prob.points) == calls:
            if calls < c['max_evals']:
                raise Violation('%s: nothing was evaluated' % when)
            return np.inf
        if len(prob.points) != calls + 1 or not np.array_equal(prob.points[-1], x):
            raise Violation('%s: evaluated %s, the individual holds %s' % (when, prob.points[-1], x))
        return float(prob.values[-1]) * sign

    for k, (op, i, j, vals, kind, flag, kl) in enumerate(c['ops']):
        when = 'operation %d (%s)' % (k + 1, op)
        vec = lo + np.array(vals) * (up - lo)
        calls = len(prob.points)
        if op in ('evaluate', 'copy', 'set', 'slice', 'assign', 'compare', 'search', 'read', 'twin') and not inds:
            op = 'build'
        if op == 'generate':
            a = cls(kl)(task=task, rng=rng, e=flag)
            if a.x.shape != (d,) or (a.x < lo).any() or (a.x > up).any():
                raise Violation('%s: generated %s in the box %s, %s' % (when, a.x, lo, up))
            f = value(a.x, calls) if flag else np.inf
            inds.append(a), mx.append(a.x.copy()), mf.append(f)
        elif op == 'build':
            src = list(vec) if kind == 'list' else tuple(vec) if kind == 'tuple' else vec.copy()
            a = cls(kl)(x=src, task=task, e=flag, rng=rng) if flag else cls(kl)(x=src, e=False)
            if flag:
                inside = (vec >= lo) & (vec <= up)
                if not np.array_equal(a.x[inside], vec[inside]) or (a.x < lo).any() or (a.x > up).any():
                    raise Violation('%s: %s became %s' % (when, vec, a.x))
                f = value(a.x, calls)
            else:
                if not isinstance(a.x, np.ndarray) or not np.array_equal(a.x, vec):
                    raise Violation('%s: %s became %s' % (when, vec, a.x))
                f = np.inf
            inds.append(a), mx.append(np.array(a.x, dtype=float)), mf.append(f)
        elif op == 'evaluate':
            i %= len(inds)
            before = mx[i]
            inds[i].evaluate(task, rng=rng)
            x = np.array(inds[i].x, dtype=float)
            inside = (before >= lo) & (before <= up)
            if not np.array_equal(x[inside], before[inside]) or (x < lo).any() or (x > up).any():
                raise Violation('%s: %s became %s' % (when, before, x))
            mx[i], mf[i] = x, value(x, calls)
            used += 1
        elif op == 'copy':
            i %= len(inds)
            a = inds[i].copy()
            if a is inds[i] or np.shares_memory(a.x, inds[i].x):
                raise Violation('%s: the copy shares its vector with the original' % when)
            if not (a == inds[i]):
                raise Violation('%s: the copy %s is not equal to the original %s' % (when, a, inds[i]))
            inds.append(a), mx.append(mx[i].copy()), mf.append(mf[i])
            used += 1
        elif op == 'set':
            i, j = i % len(inds), j % d
            inds[i][j] = vec[j]
            mx[i][j] = vec[j]
            changed += bool(used)
        elif op == 'slice':
            i, j = i % len(inds), j % d
            inds[i][:j] = vec[:j]
            mx[i][:j] = vec[:j]
            changed += bool(used)
        elif op == 'assign':
            i %= len(inds)
            inds[i].x = vec.copy()
            mx[i] = vec.copy()
            changed += bool(used)
        elif op == 'compare':
            i, j = i % len(inds), j % len(inds)
            want = np.array_equal(mx[i], mx[j]) and mf[i] == mf[j]
            if bool(inds[i] == inds[j]) != want:
                raise Violation('%s: %s == %s gives %r' % (when, inds[i], inds[j], inds[i] == inds[j]))
        elif op == 'twin':  # the smallest possible difference
            i, j = i % len(inds), j % d
            a = inds[i].copy()
            a[j] = np.nextafter(mx[i][j], np.inf)
            inds.append(a), mx.append(mx[i].copy()), mf.append(mf[i])
            mx[-1][j] = np.nextafter(mx[i][j], np.inf)
            if a == inds[i] or inds[i] == a:
                raise Violation('%s: %r == %r although component %d differs' % (when, a.x.tolist(), inds[i].x.tolist(), j))
            u, v = inds[i].copy(), inds[i].copy()
            u[j], v[j] = 0.0, -0.0
            if np.isfinite(u.f) and not (u == v and v == u):
                raise Violation('%s: %r == %r gives False' % (when, u.x.tolist(), v.x.tolist()))
            used += 1
            changed += 1
        elif op == 'search':
            i = i % len(inds)
            part = [m for m in range(len(inds)) if (m + j) % 2]
            arr = np.empty(len(part), dtype=object)
            for n, m in enumerate(part):
                arr[n] = inds[m]
            want = any(np.array_equal(mx[i], mx[m]) and mf[i] == mf[m] for m in part)
            if bool(inds[i].__eq__(arr)) != want:
                raise Violation('%s: searching %s gives %r' % (when, inds[i], not want))
        else:
            i, j = i % len(inds), j % d
            if inds[i][j] != mx[i][j] or len(inds[i]) != d or not np.array_equal(inds[i][:], mx[i]):
                raise Violation('%s: component %d of %s is %r' % (when, j, mx[i], inds[i][j]))
            if str(inds[i]) != '%s -> %s' % (inds[i].x, inds[i].f):
                raise Violation('%s: printed as %s' % (when, inds[i]))
        if op not in ('generate', 'build', 'evaluate') and len(prob.points) != calls:
            raise Violation('%s evaluated the objective' % when)
        for n, a in enumerate(inds):
            if not np.array_equal(a.x, mx[n]) or float(a.f) != mf[n]:
                raise Violation('after %s individual %d is %s with %r, expected %s with %r' % (when, n, a.x, a.f, mx[n], mf[n]))
    return {'nontrivial': changed > 0, 'budget used up': len(prob.points) >= c['max_evals']}


def targets(tier):
    return [Target('history-%d' % k, cases, check, quick=130, thorough=8000) for k in range(8)]
