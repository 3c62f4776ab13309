"""C10: every benchmark problem computes its published function."""
import math

import numpy as np
from hypothesis import strategies as st

from nv import bench
from nv.engine import Target, Violation

ID = 'C10'
RULE = ('one case = problem class x dimension x shape parameters x point of the default box or of one 3 or 20 times as wide (arbitrary, integer, on the bounds, one component only, '
        'equal components, near 0/1/-1 or half-integers); value compared with an independent scalar implementation of the published definition; '
        'non-trivial = a point with at least two different components or dimension 1, not the origin, distinct by the whole case')
ASSUMPTIONS = ['relative tolerance 1e-9 plus the sensitivity of the function to a change of 4e-16 of its arguments']

PARAMS = {
    'Ackley': dict(a=st.sampled_from([20.0, 10.0, 1.5]), b=st.sampled_from([0.2, 0.5, 0.05]), c=st.sampled_from([2 * math.pi, math.pi, 1.0])),
    'HappyCat': dict(alpha=st.sampled_from([0.25, 0.125, 0.5])),
    'Michalewicz': dict(m=st.sampled_from([10, 1, 5, 20])),
    'Perm': dict(beta=st.sampled_from([0.5, 1.0, 10.0, 0.0])),
    'Weierstrass': dict(a=st.sampled_from([0.5, 0.3]), b=st.sampled_from([3, 2]), k_max=st.sampled_from([20, 5, 12])),
}


@st.composite
def cases(draw, name):
    d = draw(st.sampled_from(bench.dims(name)))
    lo, up = bench.box(name, d)
    wide = draw(st.sampled_from([1, 1, 1, 1, 1, 3, 20])) if name in bench.FREE_BOX else 1
    if name == 'Sphere2' and wide > 1:  # powers up to D + 1
        wide = 3
    lo, up = (0.0 if name == 'Alpine2' else lo * wide), up * wide
    comp = st.one_of(st.floats(lo, up).map(lambda v: v if abs(v) > 1e-200 else 0.0), st.floats(lo, up).map(lambda v: float(np.round(v, 3))).filter(lambda v: lo <= v <= up),
                     st.sampled_from([v for v in (0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 1.5, lo, up, (lo + up) / 2, 0.25, 90.0, -90.0, 1e-3) if lo <= v <= up]))
    shape = draw(st.sampled_from(['free', 'free', 'free', 'same', 'axis', 'int']))
    if shape == 'free':
        x = draw(st.lists(comp, min_size=d, max_size=d))
    elif shape == 'same':
        x = [draw(comp)] * d
    elif shape == 'int':
        x = [float(v) for v in draw(st.lists(st.integers(math.ceil(lo), math.floor(up)), min_size=d, max_size=d))]
    else:
        x = [draw(st.sampled_from([v for v in (0.0, 1.0, -1.0) if lo <= v <= up]))] * d
        x[draw(st.integers(0, d - 1))] = draw(comp)
    p = {}
    for k, s in PARAMS.get(name, {}).items():
        if draw(st.booleans()):
            p[k] = draw(s)
    return dict(name=name, x=x, p=p, wide=wide)


def tolerance(fn, x, v, p):
    h = 4e-16
    y = [u * (1 + h) if i % 2 else u * (1 - h) for i, u in enumerate(x)]
    z = [u * (1 + h) for u in x]
    try:
        s = max(abs(fn(y, **p) - v), abs(fn(z, **p) - v))
    except ValueError:
        s = 0.0
    return 1e-9 * (1 + abs(v)) + (50 * s if not math.isnan(s) else 0.0)


def check(case):
    import niapy.problems as P
    name, x, p = case['name'], case['x'], case['p']
    kw = dict(p)
    if name not in bench.FIXED_DIM:
        kw['dimension'] = len(x)
    if case.get('wide', 1) != 1:  # bounds of the user's choice, wider than the default
        lo, up = bench.box(name, len(x))
        kw.update(lower=lo * case['wide'], upper=up * case['wide'])
    got = float(getattr(P, name)(**kw).evaluate(np.array(x)))
    fn = bench.F[name]
    want = fn(x, **p)
    step = name.startswith('Step')
    tol = 1e-9 * (1 + abs(want)) if step else tolerance(fn, x, want, p)
    if not abs(got - want) <= tol:
        raise Violation('%s%s(%s) = %r, the definition gives %r' % (name, p or '', x, got, want))
    return {'nontrivial': any(x) and (len(x) == 1 or len(set(x)) > 1), 'dim=%d' % len(x): 1, 'shape parameters': bool(p), 'wider box': case.get('wide', 1) != 1}


def match_known(case, msg, known):
    """HappyCat adds the powers |x_i^2 - D|^alpha instead of taking the power of the sum."""
    for k in known:
        if k.get('problem') == case['name'] == 'HappyCat':
            import niapy.problems as P
            got = float(P.HappyCat(dimension=len(case['x']), **case['p']).evaluate(np.array(case['x'])))
            ref = bench.happy_cat_elementwise(case['x'], **case['p'])
            if abs(got - ref) <= 1e-9 * (1 + abs(ref)):
                return k['what']
    return None


def targets(tier):
    return [Target(n, (lambda n=n: cases(n)), check, quick=300, thorough=10000) for n in sorted(bench.F)]
