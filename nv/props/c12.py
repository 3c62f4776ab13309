"""C12: the problem interface: dimension, bounds, purity, argument checks."""
import numpy as np
from hypothesis import strategies as st

from nv import bench
from nv.engine import Target, Violation

ID = 'C12'
RULE = ('one case = two instances of benchmark problems (class, dimension, bounds given as nothing / scalar / list / tuple / array, shorter, equal or '
        'longer than the dimension) and a sequence of evaluations interleaved over both, including vectors of a wrong length; non-trivial = at least '
        'three evaluations and one non-default construction, distinct by the whole case')


@st.composite
def bound(draw, d, base, numbers):
    how = draw(st.sampled_from(['none', 'none', 'float', 'int', 'list', 'tuple', 'array', 'short', 'long']))
    if how == 'none':
        return None
    if how in ('float', 'int'):
        v = draw(numbers)
        return [how, float(v) if how == 'float' else int(v)]
    n = d if how in ('list', 'tuple', 'array') else draw(st.integers(1, max(1, d - 1))) if how == 'short' else d + draw(st.integers(1, 3))
    return [how, [float(v) for v in draw(st.lists(numbers, min_size=n, max_size=n))]]


@st.composite
def instance(draw, name):
    d = draw(st.sampled_from([k for k in bench.dims(name) if k <= 13]))
    lo = up = None
    if name in bench.FREE_BOX and draw(st.integers(0, 3)):
        pos = name == 'Alpine2'
        lo = draw(bound(d, 0, st.integers(0, 3) if pos else st.integers(-20, 0)))
        up = draw(bound(d, 0, st.integers(11, 20) if pos else st.integers(6, 30)))
        if name == 'Csendes' and lo is None and up is None:
            pass
    return dict(name=name, dim=d, lower=lo, upper=up, default_dim=draw(st.integers(0, 9)) == 0)


@st.composite
def cases(draw, name):
    a = draw(instance(name))
    b = draw(instance(draw(st.sampled_from([name, name] + sorted(bench.F)))))
    n = draw(st.integers(3, 8))
    ops = []
    for _ in range(n):
        ops.append([draw(st.sampled_from([0, 1])), draw(st.sampled_from(['evaluate', 'call', 'eval', 'wrong', 'readonly', 'evaluate'])),
                    [draw(st.floats(0, 1)) for _ in range(draw(st.integers(1, 4)))]])
    return dict(inst=[a, b], ops=ops)


def as_bound(b):
    if b is None:
        return None
    k, v = b
    if k == 'array':
        return np.array(v)
    if k == 'tuple':
        return tuple(v)
    return v if not isinstance(v, list) else list(v)


def expected(b, d, default):
    if b is None:
        return np.full(d, default)
    v = b[1]
    if not isinstance(v, list):
        return np.full(d, float(v))
    return np.array([v[i % len(v)] for i in range(d)])


def check(case):
    import niapy.problems as P
    from niapy.task import Task
    probs, dims, boxes = [], [], []
    for s in case['inst']:
        name = s['name']
        cls = getattr(P, name)
        kw = {}
        d = s['dim']
        if name not in bench.FIXED_DIM:
            if s['default_dim']:
                d = cls().dimension
            else:
                kw['dimension'] = d
        given = {}
        for key in ('lower', 'upper'):
            if s[key] is not None:
                given[key] = kw[key] = as_bound(s[key])
        p = cls(**kw)
        lo, up = bench.box(name, d)
        elo, eup = expected(s['lower'], d, lo), expected(s['upper'], d, up)
        if name not in bench.FIXED_DIM and d != p.dimension or p.dimension != len(elo):
            raise Violation('%s(%s) has dimension %r' % (name, kw, p.dimension))
        for key, got, want in (('lower', p.lower, elo), ('upper', p.upper, eup)):
            if not (isinstance(got, np.ndarray) and got.shape == (d,) and np.allclose(got, want, rtol=0, atol=1e-12)):
                raise Violation('%s(%s): %s = %r, expected %s' % (name, kw, key, got, want.tolist()))
        if p.name() != name:
            raise Violation('%s().name() = %r' % (name, p.name()))
        t = Task(p, max_evals=1000)
        if t.dimension != d or not np.array_equal(t.lower, p.lower) or not np.array_equal(t.upper, p.upper) or \
                not np.array_equal(t.range, np.asarray(p.upper) - np.asarray(p.lower)):
            raise Violation('the task of %s(%s) has dimension %r, bounds %s, %s, range %s' % (name, kw, t.dimension, t.lower, t.upper, t.range))
        probs.append((p, t)), dims.append(d), boxes.append((elo, eup))
    for k, how, us in case['ops']:
        (p, t), d, (lo, up) = probs[k], dims[k], boxes[k]
        name = case['inst'][k]['name']
        x = lo + np.array([us[i % len(us)] for i in range(d)]) * (up - lo)
        x = np.where(np.abs(x) < 1e-200, 0.0, x)
        if how == 'wrong':
            for bad in (np.append(x, x[:1]), x[:-1]):
                try:
                    r = p.evaluate(bad)
                except ValueError:
                    continue
                raise Violation('%s of dimension %d evaluated a vector of length %d to %r' % (name, d, len(bad), r))
            continue
        keep = x.copy()
        if how == 'readonly':
            x.setflags(write=False)
        got = p(x) if how == 'call' else t.eval(x) if how == 'eval' else p.evaluate(x)
        if not np.array_equal(x, keep):
            raise Violation('%s changed the vector it evaluated: %s -> %s' % (name, keep.tolist(), x.tolist()))
        if np.ndim(got) != 0 or not np.isfinite(float(got)):
            raise Violation('%s(%s) = %r' % (name, x.tolist(), got))
        kw = {} if name in bench.FIXED_DIM else dict(dimension=d)
        fresh = getattr(P, name)(**kw).evaluate(keep.copy())
        if float(fresh) != float(got):
            raise Violation('%s(%s) = %r in this history (%s), %r on a fresh instance' % (name, keep.tolist(), got, how, fresh))
    ex = any(s['lower'] or s['upper'] or s['default_dim'] for s in case['inst'])
    return {'nontrivial': len(case['ops']) >= 3 and ex, 'two classes': case['inst'][0]['name'] != case['inst'][1]['name'],
            'wrong length': any(o[1] == 'wrong' for o in case['ops']), 'custom bounds': any(s['lower'] or s['upper'] for s in case['inst']),
            'default dimension': any(s['default_dim'] for s in case['inst'])}


def targets(tier):
    return [Target(n, (lambda n=n: cases(n)), check, quick=80, thorough=5000) for n in sorted(bench.F)]
