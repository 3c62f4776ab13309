"""C19: numeric helpers."""
import math

import numpy as np
from hypothesis import strategies as st

from nv.engine import Target, Violation

ID = 'C19'
RULE = ('one case = one helper with generated arguments (broadcast to a dimension; distance of vectors or matrices; object array; Levy step; random, '
        'uniform, normal, standard_normal and integers of an algorithm with sizes, array bounds and numbers to skip; best of a population); non-trivial '
        '= more than one component, distinct by the whole case')

NUM = st.one_of(st.integers(-50, 50), st.floats(-100, 100).map(lambda v: round(v, 4)), st.sampled_from([0.0, -0.0, 1e300, 1e-300, float('inf')]))
SIZES = st.one_of(st.none(), st.integers(0, 7), st.lists(st.integers(1, 4), min_size=1, max_size=3))


def shape_of(size):
    return () if size is None else (size,) if isinstance(size, int) else tuple(size)


def tup(size):
    return tuple(size) if isinstance(size, list) else size


# ---------------------------------------------------------------- full_array

@st.composite
def full_cases(draw):
    kind = draw(st.sampled_from(['int', 'float', 'npfloat', 'list', 'tuple', 'array', 'intarray', 'bad']))
    vals = draw(st.lists(NUM, min_size=1, max_size=6))
    return dict(kind=kind, vals=vals, dim=draw(st.integers(1, 14)), bad=draw(st.integers(0, 3)))


def check_full(c):
    from niapy.util.array import full_array
    k, v, d = c['kind'], c['vals'], c['dim']
    if k == 'bad':
        a = [None, 'abc', {1: 2}, object()][c['bad']]
        try:
            r = full_array(a, d)
        except TypeError:
            return {'nontrivial': False}
        raise Violation('full_array(%r, %d) gives %r' % (a, d, r))
    if k in ('int', 'float', 'npfloat'):
        s = v[0]
        if k == 'int':
            s = int(s) if math.isfinite(s) and abs(s) < 1e9 else 7
        else:
            s = float(s) if k == 'float' else np.float64(s)
        a, want = s, [s] * d
    else:
        v = [int(x) if math.isfinite(x) and abs(x) < 1e9 else 3 for x in v] if k == 'intarray' else v
        a = list(v) if k == 'list' else tuple(v) if k == 'tuple' else np.array(v)
        want = [v[i % len(v)] for i in range(d)]
    keep = np.array(v)
    r = full_array(a, d)
    if not isinstance(r, np.ndarray) or r.shape != (d,) or not np.array_equal(r, np.array(want)):
        raise Violation('full_array(%r, %d) = %r' % (a, d, r))
    if k in ('array', 'intarray') and not np.array_equal(a, keep):
        raise Violation('full_array changed its argument')
    return {'nontrivial': d > 1, 'kind ' + k: 1, 'shorter': len(v) < d, 'longer': len(v) > d}


# ---------------------------------------------------------------- euclidean

@st.composite
def dist_cases(draw):
    d = draw(st.integers(1, 6))
    row = st.lists(st.floats(-1000, 1000).map(lambda x: round(x, 4)), min_size=d, max_size=d)
    how = draw(st.sampled_from(['vv', 'mv', 'mm', 'pair']))
    n = draw(st.integers(1, 4))
    u = [draw(row) for _ in range(n)]
    w = draw(st.one_of(st.just(u), st.lists(row, min_size=n, max_size=n)))
    return dict(how=how, u=u, v=w)


def check_dist(c):
    from niapy.util.distances import euclidean
    u, v = np.array(c['u']), np.array(c['v'])
    how = c['how']

    def ref(a, b):
        return math.sqrt(math.fsum((x - y) ** 2 for x, y in zip(a, b)))
    if how == 'vv':
        got, want = euclidean(u[0], v[0]), ref(u[0], v[0])
    elif how == 'mv':
        got, want = euclidean(u, v[0]), [ref(a, v[0]) for a in u]
    elif how == 'mm':
        got, want = euclidean(u, v), [ref(a, b) for a, b in zip(u, v)]
    else:
        got, want = euclidean(u[:, np.newaxis], v[np.newaxis]), [[ref(a, b) for b in v] for a in u]
    if np.shape(got) != np.shape(want) or not np.allclose(got, want, rtol=1e-12, atol=1e-12):
        raise Violation('euclidean(%s) of %s and %s = %s, expected %s' % (how, u.tolist(), v.tolist(), got, want))
    if not (np.array_equal(u, np.array(c['u'])) and np.array_equal(v, np.array(c['v']))):
        raise Violation('euclidean changed its arguments')
    return {'nontrivial': u.shape[1] > 1, 'form ' + how: 1}


# ---------------------------------------------------------------- objects_to_array

@st.composite
def obj_cases(draw):
    return dict(kinds=draw(st.lists(st.sampled_from(['individual', 'array', 'list', 'none', 'str', 'tuple']), min_size=0, max_size=8)), dim=draw(st.integers(1, 4)),
                as_=draw(st.sampled_from(['list', 'tuple', 'array'])))


def check_obj(c):
    from niapy.algorithms import Individual
    from niapy.util.array import objects_to_array
    make = dict(individual=lambda: Individual(x=np.zeros(c['dim']), e=False), array=lambda: np.zeros(c['dim']), list=lambda: [0] * c['dim'],
                none=lambda: None, str=lambda: 'abc', tuple=lambda: (1,) * c['dim'])
    objs = [make[k]() for k in c['kinds']]
    arg = objs if c['as_'] == 'list' else tuple(objs)
    if c['as_'] == 'array':
        arg = np.empty(len(objs), dtype=object)
        for i, o in enumerate(objs):
            arg[i] = o
    r = objects_to_array(arg)
    if not isinstance(r, np.ndarray) or r.dtype != object or r.shape != (len(objs),) or any(a is not b for a, b in zip(r, objs)):
        raise Violation('objects_to_array(%s) = %r' % (c['kinds'], r))
    return {'nontrivial': len(objs) > 1}


# ---------------------------------------------------------------- levy_flight

@st.composite
def levy_cases(draw):
    return dict(alpha=draw(st.sampled_from([0.01, 0.1, 1.0, 2.5])), beta=draw(st.sampled_from([0.5, 1.0, 1.5, 1.9, 1.2, 0.8])), size=draw(SIZES),
                seed=draw(st.integers(0, 2 ** 32 - 1)), big=draw(st.sampled_from([True, False, False])))


def check_levy(c):
    from niapy.util.random import levy_flight
    rng = np.random.default_rng
    size = tup(c['size'])
    np.random.seed(1)
    a = levy_flight(rng(c['seed']), c['alpha'], c['beta'], size)
    np.random.seed(2)
    b = levy_flight(rng(c['seed']), alpha=2 * c['alpha'], beta=c['beta'], size=size)
    if np.shape(a) != shape_of(c['size']):
        raise Violation('levy_flight(size=%r) has shape %s' % (size, np.shape(a)))
    if not np.allclose(np.asarray(a) * 2, b, rtol=1e-12, atol=0):
        raise Violation('levy_flight does not scale with alpha or is not determined by its generator: %s and %s' % (a, b))
    if c['big']:
        n = 300000
        s = np.sort(levy_flight(rng(c['seed']), c['alpha'], c['beta'], n) / c['alpha'])
        g = rng(c['seed'] ^ 0x5bd1e995)
        be = c['beta']
        sigma = (math.gamma(1 + be) * math.sin(math.pi * be / 2) / (math.gamma((1 + be) / 2) * be * 2 ** ((be - 1) / 2))) ** (1 / be)
        t = np.sort(g.normal(0, sigma, n) / np.abs(g.normal(0, 1, n)) ** (1 / be))
        ks = max(np.max(np.abs(np.searchsorted(t, s, side='right') / n - np.arange(1, n + 1) / n)),
                 np.max(np.abs(np.searchsorted(s, t, side='right') / n - np.arange(1, n + 1) / n)))
        if ks > 0.0085:  # about 3.3 / sqrt(n / 2): probability below 1e-9
            raise Violation("levy_flight(beta=%r) does not follow Mantegna's distribution (Kolmogorov-Smirnov distance %.3f)" % (be, ks))
    return {'nontrivial': np.size(a) > 1, 'distribution': c['big']}


# ---------------------------------------------------------------- draws of an algorithm

@st.composite
def draw_cases(draw):
    kind = draw(st.sampled_from(['random', 'uniform', 'normal', 'standard_normal', 'integers', 'integers']))
    c = dict(kind=kind, size=draw(SIZES), seed=draw(st.integers(0, 2 ** 31)))
    if kind == 'uniform':
        c['low'] = draw(st.sampled_from([0, -1, -5.5, 3]))
        c['high'] = c['low'] + draw(st.sampled_from([0.5, 1, 20]))
        if draw(st.booleans()):
            d = draw(st.integers(1, 4))
            c['low'] = draw(st.lists(st.sampled_from([0, -1.0, 2.5]), min_size=d, max_size=d))
            c['high'] = [v + 1.5 for v in c['low']]
            c['size'] = None if draw(st.booleans()) else [draw(st.integers(1, 4)), d]
    if kind == 'normal':
        c['loc'], c['scale'] = draw(st.sampled_from([0, 3.0, -2])), draw(st.sampled_from([1.0, 0.1, 5]))
    if kind == 'integers':
        c['low'] = draw(st.integers(-5, 5))
        c['high'] = draw(st.sampled_from([None, 'x']))
        if c['high'] is None:
            c['low'] = draw(st.integers(1, 9))
            vals = list(range(c['low']))
        else:
            c['high'] = c['low'] + draw(st.integers(1, 9))
            vals = list(range(c['low'], c['high']))
        skip = draw(st.lists(st.sampled_from(vals + [99, -99]), max_size=max(0, len(vals) - 1), unique=True))
        if set(vals) <= set(skip):
            skip = skip[1:]
        c['skip'] = draw(st.sampled_from([None, skip, skip, skip]))
        c['skip_as'] = draw(st.sampled_from(['list', 'array', 'tuple', 'set', 'scalar']))
        if c['skip_as'] == 'scalar' and c['skip'] is not None:
            c['skip'] = [s for s in skip if set(vals) != {s}][:1] or None
        c['vals'] = vals
    return c


def check_draw(c):
    from niapy.algorithms import Algorithm
    alg, twin = Algorithm(seed=c['seed']), Algorithm(seed=c['seed'])
    size, kind = tup(c['size']), c['kind']

    def go(a, n):
        if kind == 'random':
            return a.random(n)
        if kind == 'uniform':
            return a.uniform(np.array(c['low']) if isinstance(c['low'], list) else c['low'], np.array(c['high']) if isinstance(c['high'], list) else c['high'], n)
        if kind == 'normal':
            return a.normal(c['loc'], c['scale'], n)
        if kind == 'standard_normal':
            return a.standard_normal(n)
        s = c['skip']
        if s is not None:
            s = dict(list=list, array=np.array, tuple=tuple, set=set, scalar=lambda v: v[0])[c['skip_as']](s)
        return a.integers(c['low'], c['high'], n, s)
    np.random.seed(3)
    r = go(alg, size)
    np.random.seed(4)
    q = go(twin, size)
    want = shape_of(c['size'])
    if kind == 'uniform' and isinstance(c['low'], list) and c['size'] is None:
        want = (len(c['low']),)
    if np.shape(r) != want:
        raise Violation('%s(size=%r) has shape %s' % (kind, size, np.shape(r)))
    if not np.array_equal(r, q) or alg.rng.bit_generator.state != twin.rng.bit_generator.state:
        raise Violation('%s is not determined by the seed: %s and %s' % (kind, r, q))
    many = go(alg, None if kind == 'uniform' and isinstance(c['low'], list) else 4000)
    for v in (r, many):
        a = np.asarray(v)
        if kind == 'random' and ((a < 0) | (a >= 1)).any():
            raise Violation('random() gives %s' % a)
        if kind == 'uniform' and ((a < np.array(c['low'])) | (a > np.array(c['high']))).any():
            raise Violation('uniform(%s, %s) gives %s' % (c['low'], c['high'], a))
        if kind == 'integers':
            bad = set(np.atleast_1d(a).ravel().tolist()) - (set(c['vals']) - set(c['skip'] or []))
            if bad:
                raise Violation('integers(%s, %s, skip=%s) gives %s' % (c['low'], c['high'], c['skip'], sorted(bad)))
    m = np.asarray(many, dtype=float)
    if m.size == 4000:
        if kind == 'random':
            lo, up, mean, sd = 0, 1, 0.5, math.sqrt(1 / 12)
        elif kind == 'uniform':
            w = c['high'] - c['low']
            mean, sd = c['low'] + w / 2, w * math.sqrt(1 / 12)
        elif kind == 'integers':
            ok = sorted(set(c['vals']) - set(c['skip'] or []))
            mean, sd = float(np.mean(ok)), float(np.std(ok))
            if set(m.tolist()) != set(ok):
                raise Violation('integers(%s, %s, skip=%s) never gives %s' % (c['low'], c['high'], c['skip'], sorted(set(ok) - set(m.tolist()))))
        else:
            mean, sd = (c['loc'], c['scale']) if kind == 'normal' else (0, 1)
        if abs(m.mean() - mean) > 7 * sd / math.sqrt(4000) + 1e-12 or abs(m.std() - sd) > 0.12 * sd + 1e-12:
            raise Violation('%s(%s): mean %.3f and deviation %.3f of 4000 numbers, expected %.3f and %.3f' %
                            (kind, {k: c[k] for k in c if k not in ('kind', 'seed')}, m.mean(), m.std(), mean, sd))
    return {'nontrivial': np.size(r) > 1, 'draw ' + kind: 1, 'skip': bool(c.get('skip'))}


# ---------------------------------------------------------------- get_best

@st.composite
def best_cases(draw):
    n, d = draw(st.integers(1, 7)), draw(st.integers(1, 3))
    vals = st.sampled_from([0.0, 1.0, -1.0, 2.5, 1e9, float('inf'), -3.0])
    return dict(fit=draw(st.lists(vals, min_size=n, max_size=n)), d=d, best=draw(st.one_of(st.none(), vals)), kind=draw(st.sampled_from(['array', 'individuals', 'single'])))


def check_best(c):
    from niapy.algorithms import Algorithm, Individual
    from niapy.util.array import objects_to_array
    n, d = len(c['fit']), c['d']
    x = np.arange(n * d, dtype=float).reshape(n, d)
    fit = np.array(c['fit'])
    kw = {} if c['best'] is None else dict(best_x=np.full(d, -7.0), best_fitness=c['best'])
    if c['kind'] == 'single':
        bx, bf = Algorithm.get_best(x[0], float(fit[0]), **kw)
        cand = [0]
    elif c['kind'] == 'individuals':
        pop = objects_to_array([Individual(x=v, e=False) for v in x])
        for p, v in zip(pop, fit):
            p.f = v
        bx, bf = Algorithm.get_best(pop, fit, **kw)
        cand = range(n)
    else:
        bx, bf = Algorithm.get_best(x, fit, **kw)
        cand = range(n)
    lowest = min([c['fit'][i] for i in cand] + ([] if c['best'] is None else [c['best']]))
    owners = [x[i] for i in cand if c['fit'][i] == lowest] + ([np.full(d, -7.0)] if c['best'] == lowest else [])
    if bf != lowest or not any(np.array_equal(bx, o) for o in owners):
        raise Violation('best of %s (with best so far %r) is %r at %s' % (c['fit'], c['best'], bf, bx))
    bx += 100.0
    if (x != np.arange(n * d, dtype=float).reshape(n, d)).any():
        raise Violation('the best solution is a view of the population')
    return {'nontrivial': n > 1, 'tie': len(owners) > 1}


def targets(tier):
    q = dict(quick=220, thorough=20000)
    return [Target('full_array', full_cases, check_full, **q), Target('euclidean', dist_cases, check_dist, **q), Target('objects', obj_cases, check_obj, **q),
            Target('levy', levy_cases, check_levy, **q), Target('draws-0', draw_cases, check_draw, **q), Target('draws-1', draw_cases, check_draw, **q),
            Target('draws-2', draw_cases, check_draw, **q), Target('get_best', best_cases, check_best, **q)]
