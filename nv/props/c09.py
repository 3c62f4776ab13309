"""C09: bound repair."""
import numpy as np
from hypothesis import strategies as st

from nv import core
from nv.engine import Target, Violation

ID = 'C09'
RULE = ('one case = repair function x box (1-12 dimensions, components of very different width and offset) x vector whose components lie inside, on, '
        'just beyond and far beyond the bounds; non-trivial = at least one component inside and one outside, or all components outside in the same '
        'way, distinct by the whole case')
ASSUMPTIONS = ['finite lower < upper', 'finite vectors', 'the values of the modulo repair are compared with a tolerance of 1e-9 of the width']

NUM = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.1, -0.3, 100.0, -100.0, 1e-6, 12345.678]), st.floats(-1000, 1000).map(lambda v: round(v, 6)))


@st.composite
def cases(draw):
    d = draw(st.one_of(st.integers(1, 12), st.integers(1, 3)))
    lo, up, x, how = [], [], [], []
    for _ in range(d):
        a = draw(NUM)
        w = draw(st.one_of(st.sampled_from([1.0, 10.0, 1e-3, 0.1, 200.0, 3.3, 1e-7, 2.0 ** -40]), st.floats(1e-6, 1e4)))
        b = a + w
        if not b > a:
            b = a + 1.0
        h = draw(st.sampled_from(['in', 'in', 'low', 'up', 'below', 'above', 'farbelow', 'farabove', 'ulpbelow', 'ulpabove', 'edge2', 'edge-1']))
        u = draw(st.floats(0.001, 0.999))
        w = b - a
        v = {'in': a + u * w, 'low': a, 'up': b, 'below': a - u * w, 'above': b + u * w, 'farbelow': a - (2 + 50 * u) * w, 'farabove': b + (2 + 50 * u) * w,
             'ulpbelow': np.nextafter(a, -np.inf), 'ulpabove': np.nextafter(b, np.inf), 'edge2': b + w, 'edge-1': a - w}[h]
        lo.append(float(a)), up.append(float(b)), x.append(float(v))
        how.append(h)
    return dict(lower=lo, upper=up, x=x, seed=draw(st.integers(0, 999)))


def reference(name, x, lo, up):
    """Componentwise meaning of the deterministic repairs."""
    if lo <= x <= up:
        return x
    if name == 'limit':
        return lo if x < lo else up
    if name == 'limit_inverse':
        return up if x < lo else lo
    if name == 'wang':
        return min(up, 2 * lo - x) if x < lo else max(lo, 2 * up - x)
    return None


def check(name, case):
    from niapy.util import repair
    fn = getattr(repair, name)
    lo, up, x = (np.array(case[k]) for k in ('lower', 'upper', 'x'))
    keep = lo.copy(), up.copy()
    rng = (lambda: np.random.default_rng(case['seed']))
    y = fn(x.copy(), lo, up, rng=rng())
    if not isinstance(y, np.ndarray) or y.shape != x.shape:
        raise Violation('%s returned %s' % (name, y))
    if not (np.array_equal(lo, keep[0]) and np.array_equal(up, keep[1])):
        raise Violation('%s changed the bounds' % name)
    inside = (x >= lo) & (x <= up)
    for j in range(len(x)):
        if not (lo[j] <= y[j] <= up[j]):
            raise Violation('%s(%r) in [%r, %r] gives %r' % (name, x[j], lo[j], up[j], y[j]))
        if inside[j] and y[j] != x[j]:
            raise Violation('%s changed the feasible component %r (in [%r, %r]) to %r' % (name, x[j], lo[j], up[j], y[j]))
        ref = reference(name, float(x[j]), float(lo[j]), float(up[j]))
        if ref is not None and y[j] != ref:
            raise Violation('%s(%r) in [%r, %r] gives %r, not %r' % (name, x[j], lo[j], up[j], y[j], ref))
        if name == 'reflect' and not inside[j]:
            w = up[j] - lo[j]
            want = lo[j] + float(np.mod(x[j], w))
            scale = 1e-9 * (w + abs(x[j]) + abs(lo[j]))
            diff = abs(y[j] - want)
            if min(diff, abs(diff - w)) > scale:
                raise Violation('reflect(%r) in [%r, %r] gives %r, not %r' % (x[j], lo[j], up[j], y[j], want))
        if name != 'rand':  # componentwise
            one = fn(x[j:j + 1].copy(), lo[j:j + 1], up[j:j + 1], rng=rng())[0]
            if one != y[j]:
                raise Violation('%s of component %d alone gives %r, inside the vector %r' % (name, j, one, y[j]))
    again = fn(y.copy(), lo, up, rng=rng())
    if not np.array_equal(again, y):
        raise Violation('%s is not idempotent: %s -> %s' % (name, y.tolist(), again.tolist()))
    np.random.seed(case['seed'] + 3)
    if not np.array_equal(fn(x.copy(), lo, up, rng=rng()), y):
        raise Violation('%s is not determined by the generator passed to it' % name)
    if name == 'rand' and not inside.all():
        g = rng()
        ys = np.array([fn(x.copy(), lo, up, rng=g) for _ in range(300)])
        rel = (ys - lo) / (up - lo)
        for j in np.where(~inside)[0]:
            r = rel[:, j]
            if not (0.38 < r.mean() < 0.62 and r.min() < 0.08 and r.max() > 0.92):  # 300 uniform draws: beyond 7 standard errors
                raise Violation('rand places component %d unevenly: mean %.3f, range [%.3f, %.3f] of the box' % (j, r.mean(), r.min(), r.max()))
    # the task applies the repair it was given, with the bounds of the problem
    t = dict(opt='min', repair=name, max_evals=None, max_iters=None)
    prob = dict(dim=len(x), lower=case['lower'], upper=case['upper'], f=dict(kind='sphere'))
    from nv import objectives
    task = core.make_task(objectives.recording_problem(prob), t)
    z = task.repair(x.copy(), rng=rng())
    if not np.array_equal(z, y):
        raise Violation('Task.repair with %s gives %s, the function itself %s' % (name, z.tolist(), y.tolist()))
    if bool(task.is_feasible(x)) != bool(inside.all()) or not task.is_feasible(z):
        raise Violation('is_feasible(%s) = %r, is_feasible(repaired) = %r' % (x.tolist(), task.is_feasible(x), task.is_feasible(z)))
    return {'nontrivial': not inside.all() and (inside.any() or len(x) > 1), name: 1, 'inside': inside.all(), 'far outside': bool((np.abs(x - (lo + up) / 2) > 2 * (up - lo)).any()),
            'exactly on a bound': bool(((x == lo) | (x == up)).any())}


def targets(tier):
    return [Target('%s-%d' % (n, k), cases, (lambda case, n=n: check(n, case)), quick=500, thorough=30000)
            for n in core.REPAIRS for k in (range(1) if tier == 'quick' else range(2))]
