"""Deterministic objective functions described by plain data, and the recording problem built on them."""
import hashlib
import math

import numpy as np


def centre(spec, lower, upper):
    c = np.asarray(spec.get('c', [0.5]), dtype=float)
    c = np.tile(c, int(np.ceil(len(lower) / len(c))))[:len(lower)]
    return lower + c * (upper - lower)


def make(spec, lower, upper):
    """Objective as a function of a float vector. `spec`: kind, c (relative centre), b (offset), s (scale), ret, pen (forbidden region)."""
    lower, upper = np.asarray(lower, dtype=float), np.asarray(upper, dtype=float)
    kind, b, s = spec['kind'], float(spec.get('b', 0.0)), float(spec.get('s', 1.0))
    c = centre(spec, lower, upper)
    w = upper - lower

    def base(x):
        u = (x - c) / w
        if kind == 'sphere':
            return np.sum(u * u)
        if kind == 'rastrigin':
            return np.sum(u * u * 16 - np.cos(8 * np.pi * u))
        if kind == 'linear':
            return np.sum(u * (1 + np.arange(len(u))))
        if kind == 'const':
            return 0.0 * u[0]
        if kind == 'step':
            return np.sum(np.floor(np.abs(u) * 6))
        if kind == 'abs':
            return np.max(np.abs(u)) - 0.25
        if kind == 'rosen':
            v = u * 4
            return np.sum(100 * (v[1:] - v[:-1] ** 2) ** 2 + (1 - v[:-1]) ** 2) if len(v) > 1 else (1 - v[0]) ** 2
        if kind == 'prod':
            return np.prod(np.cos(3 * u)) - np.sum(np.abs(u))
        if kind == 'noise':  # rugged: a pseudo-random value per point, many late improvements, no structure
            h = hashlib.blake2b((np.asarray(x, dtype=float) + 0.0).tobytes(), digest_size=6).digest()
            return int.from_bytes(h, 'big') / 2 ** 48
        raise KeyError(kind)

    ret = {'int': lambda v: int(math.floor(float(np.clip(v, -1e15, 1e15)))), 'py': float, 'f32': np.float32,
           '0d': lambda v: np.array(float(v))}.get(spec.get('ret'), np.float64)
    pen = spec.get('pen')
    if pen:  # a region of the box is forbidden: the worst value there is infinite
        j, at, side, worst = pen['j'] % len(lower), pen['at'], pen['side'], pen['sign'] * math.inf
        return lambda x: worst if (x[j] - lower[j]) * side > at * w[j] * side else ret(base(x) * s + b)
    zero = spec.get('zero')
    if zero:  # moved so that a target value of the run is exactly zero
        v0 = quantile(lambda x: ret(base(x) * s + b), lower, upper, zero['q'], zero['opt'])
        return lambda x: ret(float(ret(base(x) * s + b)) - v0)
    return lambda x: ret(base(x) * s + b)


def quantile(fun, lower, upper, q, opt):
    """A value the objective takes in the box: the q-quantile over a fixed sample, counted from the best."""
    k = 64
    grid = np.array([[(0.5 + i * (0.6180339887 + 0.1 * j)) % 1.0 for j in range(len(lower))] for i in range(k)])
    vals = sorted(float(fun(lower + g * (upper - lower))) for g in grid)
    if opt == 'max':
        vals = vals[::-1]
    return vals[int(q * (k - 1))]


def bounds_value(vals, kind):
    if kind == 'scalar' and len(set(vals)) == 1:
        return float(vals[0])
    if kind == 'array':
        return np.array(vals, dtype=float)
    return [float(v) for v in vals]


def recording_problem(prob, hook=None):
    """A user-defined Problem that logs every point it is asked to evaluate (copied) and the value it returned."""
    from niapy.problems import Problem

    class Recorded(Problem):
        def __init__(self):
            super().__init__(prob['dim'], bounds_value(prob['lower'], prob.get('bk', 'list')),
                             bounds_value(prob['upper'], prob.get('bk', 'list')))
            self.fun = make(prob['f'], prob['lower'], prob['upper'])
            self.points, self.values, self.bad = [], [], None

        def _evaluate(self, x):
            if not isinstance(x, np.ndarray) or x.shape != (self.dimension,):
                self.bad = self.bad or 'objective was called with %s of shape %s' % (type(x).__name__, getattr(x, 'shape', None))
            p = np.array(x, dtype=float, copy=True)
            if hook is not None:
                hook(len(self.points) + 1, p)
            v = self.fun(p)
            self.points.append(p)
            self.values.append(v)
            return v

    return Recorded()
