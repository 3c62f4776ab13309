"""C11: the published optimum of every benchmark problem is attained and nothing in the box is better."""
import numpy as np
from hypothesis import strategies as st

from nv import bench
from nv.engine import Target, Violation

ID = 'C11'
RULE = ('one case = problem class x dimension x 40 points of its default box (uniform, on the bounds, sparse, or around the published optimum at a '
        'distance of 1e-9 to 0.3 of the width), all compared with the optimum value; the optimum itself is evaluated in every case; non-trivial = '
        'every case, distinct by the whole case')
ASSUMPTIONS = ['published optima; where the documentation of the library disagrees with the published function (SchafferN4, ModifiedSchwefel) the published one']
TOL = {'Michalewicz': 2e-5, 'SchafferN4': 1e-6, 'ModifiedSchwefel': 2e-4, 'Schwefel': 1e-6}


@st.composite
def cases(draw, name):
    d = draw(st.sampled_from([k for k in bench.dims(name) if k <= 13]))
    return dict(name=name, dim=d, how=draw(st.sampled_from(['uniform', 'near', 'near', 'bounds', 'sparse', 'one'])),
                scale=draw(st.sampled_from([1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.1, 0.3])), seed=draw(st.integers(0, 2 ** 32 - 1)))


def check(case):
    import niapy.problems as P
    name, d = case['name'], case['dim']
    prob = getattr(P, name)(**({} if name in bench.FIXED_DIM else dict(dimension=d)))
    kind, best, xs = bench.optimum(name, d)
    xs = np.array(xs)
    lo, up = (np.full(d, v) for v in bench.box(name, d))
    if not ((lo <= xs).all() and (xs <= up).all() and np.allclose(prob.lower, lo) and np.allclose(prob.upper, up)):
        raise Violation('%s in %d dimensions: default box [%s, %s], expected [%s, %s]' % (name, d, prob.lower, prob.upper, lo, up))
    tol = TOL.get(name, 1e-8) * d * (1 + abs(best))
    at = float(prob.evaluate(xs.copy()))
    if not abs(at - best) <= tol:
        raise Violation('%s in %d dimensions is %r at its published optimum, not %r' % (name, d, at, best))
    if kind == 'value':
        return {'nontrivial': True, 'optimum attained': 1}
    r = np.random.default_rng(case['seed'])
    w = up - lo
    for _ in range(40):
        how = case['how']
        if how == 'near':
            x = xs + r.normal(size=d) * case['scale'] * w
        elif how == 'one':
            x = xs.copy()
            j = r.integers(d)
            x[j] = lo[j] + w[j] * r.random()
        elif how == 'bounds':
            x = np.where(r.random(d) < 0.5, lo, up)
            x = np.where(r.random(d) < 0.3, xs, x)
        elif how == 'sparse':
            x = np.where(r.random(d) < 0.5, xs, lo + w * r.random(d))
        else:
            x = lo + w * r.random(d)
        x = np.clip(x, lo, up)
        v = float(prob.evaluate(x.copy()))
        if not (v >= best - tol if kind == 'min' else v <= best + tol):
            raise Violation('%s(%s) = %r is better than the published optimum %r' % (name, x.tolist(), v, best))
    return {'nontrivial': True, 'optimum attained': 1, 'points ' + case['how']: 1}


def match_known(case, msg, known):
    for k in known:
        if k.get('problem') == case['name'] == 'HappyCat':
            import niapy.problems as P
            x = [-1.0] * case['dim']
            got = float(P.HappyCat(dimension=case['dim']).evaluate(np.array(x)))
            if abs(got - bench.happy_cat_elementwise(x)) <= 1e-9 * (1 + abs(got)) and 'at its published optimum' in msg:
                return k['what']
    return None


def targets(tier):
    return [Target(n, (lambda n=n: cases(n)), check, quick=80, thorough=6000) for n in sorted(bench.F)]
