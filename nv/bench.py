"""The benchmark functions, written from their published definitions with scalar arithmetic (independent of the code under test)."""
import math
from math import cos, exp, fsum, pi, prod, sin, sqrt


def _schwefel_g(z, d):
    if z > 500:
        m = 500 - math.fmod(z, 500)
        return m * sin(sqrt(abs(m))) - (z - 500) ** 2 / (10000 * d)
    if z < -500:
        m = math.fmod(abs(z), 500) - 500
        return m * sin(sqrt(abs(m))) + (z - 500) ** 2 / (10000 * d)
    return z * sin(sqrt(abs(z)))


def ackley(x, a=20.0, b=0.2, c=2 * pi):
    d = len(x)
    return -a * exp(-b * sqrt(fsum(v * v for v in x) / d)) - exp(fsum(cos(c * v) for v in x) / d) + a + math.e


def happy_cat(x, alpha=0.25):
    d = len(x)
    s2, s1 = fsum(v * v for v in x), fsum(x)
    return abs(s2 - d) ** alpha + (0.5 * s2 + s1) / d + 0.5


def happy_cat_elementwise(x, alpha=0.25):
    d = len(x)
    return fsum(abs(v * v - d) ** alpha for v in x) + (0.5 * fsum(v * v for v in x) + fsum(x)) / d + 0.5


def katsuura(x):
    return prod(1 + (i + 1) * fsum(abs(2.0 ** j * v - round(2.0 ** j * v)) / 2.0 ** j for j in range(1, 33)) for i, v in enumerate(x))


def levy(x):
    w = [1 + (v - 1) / 4 for v in x]
    return (sin(pi * w[0]) ** 2 + fsum((u - 1) ** 2 * (1 + 10 * sin(pi * u + 1) ** 2) for u in w[:-1]) +
            (w[-1] - 1) ** 2 * (1 + sin(2 * pi * w[-1]) ** 2))


def perm(x, beta=0.5):
    d = len(x)
    return fsum(fsum((j + beta) * (x[j - 1] ** i - (1.0 / j) ** i) for j in range(1, d + 1)) ** 2 for i in range(1, d + 1))


def pinter(x):
    d = len(x)
    t = []
    for i in range(1, d + 1):
        p, c, n = x[i - 2], x[i - 1], x[i % d]
        a = p * sin(c) + sin(n)
        b = p * p - 2 * c + 3 * n - cos(c) + 1
        t += [i * c * c, 20 * i * sin(a) ** 2, i * math.log10(1 + i * b * b)]
    return fsum(t)


def powell(x):
    return fsum((x[k] + 10 * x[k + 1]) ** 2 + 5 * (x[k + 2] - x[k + 3]) ** 2 + (x[k + 1] - 2 * x[k + 2]) ** 4 + 10 * (x[k] - x[k + 3]) ** 4
                for k in range(0, len(x), 4))


def expanded_griewank(x):
    def g(u, v):
        return 100 * (u * u - v) ** 2 + (u - 1) ** 2

    def h(z):
        return z * z / 4000 - cos(z) + 1
    return h(g(x[-1], x[0])) + fsum(h(g(x[i - 1], x[i])) for i in range(1, len(x)))


def expanded_schaffer(x):
    def g(u, v):
        s = u * u + v * v
        return 0.5 + (sin(sqrt(s)) ** 2 - 0.5) / (1 + 0.001 * s) ** 2
    return g(x[-1], x[0]) + fsum(g(x[i - 1], x[i]) for i in range(1, len(x)))


def weierstrass(x, a=0.5, b=3, k_max=20):
    return (fsum(a ** k * cos(2 * pi * b ** k * (v + 0.5)) for v in x for k in range(k_max + 1)) -
            len(x) * fsum(a ** k * cos(2 * pi * b ** k * 0.5) for k in range(k_max + 1)))


def whitley(x):
    def t(u, v):
        return 100 * (u * u - v) ** 2 + (1 - v) ** 2
    return fsum(t(u, v) ** 2 / 4000 - cos(t(u, v)) + 1 for u in x for v in x)


def zakharov(x):
    s = fsum(0.5 * (i + 1) * v for i, v in enumerate(x))
    return fsum(v * v for v in x) + s ** 2 + s ** 4


E = enumerate
F = {
    'Ackley': ackley,
    'Alpine1': lambda x: fsum(abs(v * sin(v) + 0.1 * v) for v in x),
    'Alpine2': lambda x: prod(sqrt(v) * sin(v) for v in x),
    'BentCigar': lambda x: x[0] ** 2 + 1e6 * fsum(v * v for v in x[1:]),
    'ChungReynolds': lambda x: fsum(v * v for v in x) ** 2,
    'CosineMixture': lambda x: -0.1 * fsum(cos(5 * pi * v) for v in x) - fsum(v * v for v in x),
    'Csendes': lambda x: fsum(v ** 6 * (2 + sin(1 / v)) if v else 0.0 for v in x),
    'Discus': lambda x: 1e6 * x[0] ** 2 + fsum(v * v for v in x[1:]),
    'DixonPrice': lambda x: (x[0] - 1) ** 2 + fsum((i + 1) * (2 * x[i] ** 2 - x[i - 1]) ** 2 for i in range(1, len(x))),
    'Elliptic': lambda x: fsum(1e6 ** (i / (len(x) - 1) if len(x) > 1 else 0.0) * v * v for i, v in E(x)),
    'ExpandedGriewankPlusRosenbrock': expanded_griewank,
    'ExpandedSchaffer': expanded_schaffer,
    'Griewank': lambda x: fsum(v * v / 4000 for v in x) - prod(cos(v / sqrt(i + 1)) for i, v in E(x)) + 1,
    'HappyCat': happy_cat,
    'HGBat': lambda x: sqrt(abs(fsum(v * v for v in x) ** 2 - fsum(x) ** 2)) + (0.5 * fsum(v * v for v in x) + fsum(x)) / len(x) + 0.5,
    'Katsuura': katsuura,
    'Levy': levy,
    'Michalewicz': lambda x, m=10: -fsum(sin(v) * sin((i + 1) * v * v / pi) ** (2 * m) for i, v in E(x)),
    'ModifiedSchwefel': lambda x: 418.9829 * len(x) - fsum(_schwefel_g(v + 420.9687462275036, len(x)) for v in x),
    'Perm': perm,
    'Pinter': pinter,
    'Powell': powell,
    'Qing': lambda x: fsum((v * v - (i + 1)) ** 2 for i, v in E(x)),
    'Quintic': lambda x: fsum(abs(v ** 5 - 3 * v ** 4 + 4 * v ** 3 + 2 * v ** 2 - 10 * v - 4) for v in x),
    'Rastrigin': lambda x: 10 * len(x) + fsum(v * v - 10 * cos(2 * pi * v) for v in x),
    'Ridge': lambda x: fsum(fsum(x[:i + 1]) ** 2 for i in range(len(x))),
    'Rosenbrock': lambda x: fsum(100 * (x[i + 1] - x[i] ** 2) ** 2 + (x[i] - 1) ** 2 for i in range(len(x) - 1)),
    'Salomon': lambda x: 1 - cos(2 * pi * sqrt(fsum(v * v for v in x))) + 0.1 * sqrt(fsum(v * v for v in x)),
    'SchafferN2': lambda x: 0.5 + (sin(x[0] ** 2 - x[1] ** 2) ** 2 - 0.5) / (1 + 0.001 * (x[0] ** 2 + x[1] ** 2)) ** 2,
    'SchafferN4': lambda x: 0.5 + (cos(sin(x[0] ** 2 - x[1] ** 2)) ** 2 - 0.5) / (1 + 0.001 * (x[0] ** 2 + x[1] ** 2)) ** 2,
    'SchumerSteiglitz': lambda x: fsum(v ** 4 for v in x),
    'Schwefel': lambda x: 418.9828872724338 * len(x) - fsum(v * sin(sqrt(abs(v))) for v in x),
    'Schwefel221': lambda x: max(abs(v) for v in x),
    'Schwefel222': lambda x: fsum(abs(v) for v in x) + prod(abs(v) for v in x),
    'Sphere': lambda x: fsum(v * v for v in x),
    'Sphere2': lambda x: fsum(abs(v) ** (i + 2) for i, v in E(x)),
    'Sphere3': lambda x: fsum(fsum(v * v for v in x[:i + 1]) for i in range(len(x))),
    'Step': lambda x: fsum(math.floor(abs(v)) for v in x),
    'Step2': lambda x: fsum(math.floor(v + 0.5) ** 2 for v in x),
    'Step3': lambda x: fsum(math.floor(v * v) for v in x),
    'Stepint': lambda x: 25 + fsum(math.floor(v) for v in x),
    'StyblinskiTang': lambda x: 0.5 * fsum(v ** 4 - 16 * v * v + 5 * v for v in x),
    'SumSquares': lambda x: fsum((i + 1) * v * v for i, v in E(x)),
    'Trid': lambda x: fsum((v - 1) ** 2 for v in x) - fsum(x[i] * x[i - 1] for i in range(1, len(x))),
    'Weierstrass': weierstrass,
    'Whitley': whitley,
    'Zakharov': zakharov,
}

# default box (None: documented as a function of the dimension)
BOX = {
    'Ackley': (-32.768, 32.768), 'Alpine1': (-10, 10), 'Alpine2': (0, 10), 'BentCigar': (-100, 100), 'ChungReynolds': (-100, 100),
    'CosineMixture': (-1, 1), 'Csendes': (-1, 1), 'Discus': (-100, 100), 'DixonPrice': (-10, 10), 'Elliptic': (-100, 100),
    'ExpandedGriewankPlusRosenbrock': (-100, 100), 'ExpandedSchaffer': (-100, 100), 'Griewank': (-100, 100), 'HappyCat': (-100, 100),
    'HGBat': (-100, 100), 'Katsuura': (-100, 100), 'Levy': (-10, 10), 'Michalewicz': (0, pi), 'ModifiedSchwefel': (-100, 100), 'Perm': None,
    'Pinter': (-10, 10), 'Powell': (-4, 5), 'Qing': (-500, 500), 'Quintic': (-10, 10), 'Rastrigin': (-5.12, 5.12), 'Ridge': (-64, 64),
    'Rosenbrock': (-30, 30), 'Salomon': (-100, 100), 'SchafferN2': (-100, 100), 'SchafferN4': (-100, 100), 'SchumerSteiglitz': (-100, 100),
    'Schwefel': (-500, 500), 'Schwefel221': (-100, 100), 'Schwefel222': (-100, 100), 'Sphere': (-5.12, 5.12), 'Sphere2': (-1, 1),
    'Sphere3': (-65.536, 65.536), 'Step': (-100, 100), 'Step2': (-100, 100), 'Step3': (-100, 100), 'Stepint': (-5.12, 5.12),
    'StyblinskiTang': (-5, 5), 'SumSquares': (-10, 10), 'Trid': None, 'Weierstrass': (-100, 100), 'Whitley': (-10.24, 10.24), 'Zakharov': (-5, 10),
}


def box(name, d):
    if name == 'Perm':
        return float(-d), float(d)
    if name == 'Trid':
        return float(-d * d), float(d * d)
    return tuple(float(v) for v in BOX[name])


FIXED_DIM = {'SchafferN2': 2, 'SchafferN4': 2}
FREE_BOX = {n for n in F if n not in ('Perm', 'Trid')}


def dims(name):
    """Dimensions the definition covers."""
    if name in FIXED_DIM:
        return [FIXED_DIM[name]]
    if name == 'Powell':
        return [4, 8, 12]
    if name == 'Perm':
        return [1, 2, 3, 4, 5, 6, 7, 8]
    return [1, 2, 3, 4, 5, 6, 7, 10, 13, 30]


# (value, point) of the global optimum over the default box; sense 'max' where the documented optimum is a maximum
def optimum(name, d):
    z, one = [0.0] * d, [1.0] * d
    zeros = ('Ackley Alpine1 BentCigar ChungReynolds Csendes Discus Elliptic ExpandedSchaffer Griewank Pinter Powell Rastrigin Ridge Salomon '
             'SchafferN2 SchumerSteiglitz Schwefel221 Schwefel222 Sphere Sphere2 Sphere3 Step Step3 SumSquares Weierstrass Zakharov').split()
    if name in zeros:
        return 'min', 0.0, z
    if name == 'Step2':
        return 'min', 0.0, [-0.5] * d
    if name in ('Rosenbrock', 'Levy', 'Whitley', 'ExpandedGriewankPlusRosenbrock'):
        return 'min', 0.0, one
    if name == 'Katsuura':
        return 'min', 1.0, z
    if name in ('HGBat', 'Quintic', 'HappyCat'):
        return 'min', 0.0, [-1.0] * d
    if name == 'Qing':
        return 'min', 0.0, [sqrt(i + 1) for i in range(d)]
    if name == 'DixonPrice':
        return 'min', 0.0, [2.0 ** (-(2.0 ** (i + 1) - 2) / 2.0 ** (i + 1)) for i in range(d)]
    if name == 'Perm':
        return 'min', 0.0, [1.0 / (i + 1) for i in range(d)]
    if name == 'Schwefel':
        return 'min', 0.0, [420.9687462275036] * d
    if name == 'ModifiedSchwefel':
        return 'min', 0.0, z
    if name == 'StyblinskiTang':
        return 'min', -39.16616570377142 * d, [-2.903534018185960] * d
    if name == 'Trid':
        return 'min', -d * (d + 4) * (d - 1) / 6.0, [float((i + 1) * (d - i)) for i in range(d)]
    if name == 'Stepint':
        return 'min', 25.0 - 6 * d, [-5.12] * d
    if name == 'CosineMixture':  # the published value at the origin; it is not an extreme over the box
        return 'value', -0.1 * d, z
    if name == 'Alpine2':
        return 'max', 2.8081311800070053 ** d, [7.917052698245946] * d
    if name == 'Michalewicz':  # separable: the best of every component
        x = [_michalewicz_component(i + 1) for i in range(d)]
        return 'min', {2: -1.8013034, 5: -4.687658, 10: -9.66015}.get(d, F[name](x)), x
    if name == 'SchafferN4':
        return 'min', 0.292578632, [0.0, 1.253131828792882]
    raise KeyError(name)


_MICH = {}


def _michalewicz_component(i):
    if i not in _MICH:
        def f(v):
            return -sin(v) * sin(i * v * v / pi) ** 20
        n = 2000 * i
        v, h = min((k * pi / n for k in range(n + 1)), key=f), pi / n
        while h > 1e-13:
            v = min((v - h, v - h / 2, v, v + h / 2, v + h), key=lambda u: f(min(max(u, 0.0), pi)))
            h /= 2
        _MICH[i] = v
    return _MICH[i]
