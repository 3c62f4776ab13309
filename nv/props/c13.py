"""C13: name-based creation of algorithms, problems and tasks."""
import re

import numpy as np
from hypothesis import strategies as st

from nv import algs, bench, core
from nv.engine import Target, Violation

ID = 'C13'
RULE = ('one case = a sequence of 2-8 factory requests (algorithm by class name, problem by name in any letter case, task with a problem name, unknown '
        'names) with arguments; every answer is compared with the class the name denotes; all exported classes and all names are enumerated first; '
        'non-trivial = at least two requests with arguments, distinct by the whole case')

ALIASES = {'conditioned_elliptic': 'Elliptic', 'schaffer2': 'SchafferN2', 'schaffer4': 'SchafferN4'}


def canonical(cls):
    """snake_case name of a problem class: digits stay attached (Alpine1 -> alpine1, HGBat -> hgbat)."""
    for k, v in ALIASES.items():
        if v == cls and k.startswith('schaffer'):
            return k
    if cls == 'HGBat':
        return 'hgbat'
    return re.sub(r'(?<=[a-z])(?=[A-Z])', '_', cls).lower()


def problem_names():
    out = {canonical(n): n for n in bench.F}
    out['conditioned_elliptic'] = 'Elliptic'
    return out


BAD = ['', 'nope', 'Ackley ', 'differentialevolution', 'DifferentialEvolution2', 'sphere-', 'Problem', 'Algorithm', 'schaffer', ' sphere', 'GA', 'DE']


def casing(draw, name):
    how = draw(st.sampled_from(['lower', 'upper', 'title', 'mixed']))
    if how == 'mixed':
        mask = draw(st.integers(0, 2 ** len(name) - 1))
        return ''.join(c.upper() if mask >> i & 1 else c for i, c in enumerate(name))
    return getattr(name, how)()


@st.composite
def cases(draw):
    reqs = []
    pn = problem_names()
    for _ in range(draw(st.integers(2, 8))):
        kind = draw(st.sampled_from(['algorithm', 'algorithm', 'problem', 'problem', 'task', 'bad']))
        if kind == 'algorithm':
            spec = draw(core.alg_specs(draw(st.sampled_from(sorted(algs.classes())))))
            reqs.append(['algorithm', spec])
        elif kind in ('problem', 'task'):
            key = draw(st.sampled_from(sorted(pn)))
            d = draw(st.sampled_from([None] + bench.dims(pn[key])))
            lo = up = None
            if pn[key] in bench.FREE_BOX and draw(st.booleans()):
                lo, up = draw(st.sampled_from([(0.5, 3.5), (1, 2), ([0.25], [7.5, 8.5])]))
            reqs.append([kind, dict(key=key, name=casing(draw, key), dim=d, lower=lo, upper=up)])
        else:
            reqs.append(['bad', draw(st.sampled_from(BAD)), draw(st.sampled_from(['algorithm', 'problem', 'task']))])
    return dict(reqs=reqs)


def everything():
    yield dict(reqs=[['algorithm', dict(alg=n, params={}, seed=3)] for n in sorted(algs.classes())])
    pn = problem_names()
    yield dict(reqs=[['problem', dict(key=k, name=k, dim=None, lower=None, upper=None)] for k in sorted(pn)])
    yield dict(reqs=[['task', dict(key=k, name=k, dim=None, lower=None, upper=None)] for k in sorted(pn)])
    yield dict(reqs=[['bad', b, k] for b in BAD for k in ('algorithm', 'problem', 'task')])


def check(case):
    import niapy.problems as P
    from niapy.problems import Problem
    from niapy.task import Task
    from niapy.util.factory import get_algorithm, get_problem
    pn = problem_names()
    exported = {n for n in P.__all__ if n != 'Problem'}
    if exported - set(bench.F):
        pass  # classes the harness does not know are not requested by name
    seen = []
    args = 0
    for req in case['reqs']:
        kind = req[0]
        if kind == 'bad':
            try:
                got = dict(algorithm=get_algorithm, problem=get_problem, task=lambda n: Task(n))[req[2]](req[1])
            except KeyError:
                continue
            raise Violation('the unknown %s name %r gives %r' % (req[2], req[1], got))
        s = req[1]
        if kind == 'algorithm':
            cls = algs.classes()[s['alg']]
            kw = algs.resolve_params(s['params'])
            args += bool(kw)
            obj = get_algorithm(s['alg'], seed=s['seed'], **kw)
            if type(obj) is not cls:
                raise Violation('get_algorithm(%r) gives a %s' % (s['alg'], type(obj).__name__))
            ref = cls(seed=s['seed'], **kw)
            if repr_params(obj) != repr_params(ref):
                raise Violation('get_algorithm(%r, %s) has parameters %s, the class gives %s' % (s['alg'], s['params'], repr_params(obj), repr_params(ref)))
            if obj.rng.bit_generator.state != ref.rng.bit_generator.state:
                raise Violation('get_algorithm(%r, seed=%d) does not start from the seed' % (s['alg'], s['seed']))
        else:
            cls = pn[s['key']]
            kw = {}
            if s['dim'] is not None and cls not in bench.FIXED_DIM:
                kw['dimension'] = s['dim']
            for k in ('lower', 'upper'):
                if s[k] is not None:
                    kw[k] = s[k]
            args += bool(kw)
            obj = get_problem(s['name'], **kw) if kind == 'problem' else Task(s['name'], max_evals=10, **kw)
            prob = obj if kind == 'problem' else obj.problem
            ref = getattr(P, cls)(**kw)
            if type(prob) is not type(ref) or not isinstance(prob, Problem):
                raise Violation('%s %r gives a %s' % (kind, s['name'], type(prob).__name__))
            for who in (prob, obj):
                if who.dimension != ref.dimension or not np.array_equal(who.lower, ref.lower) or not np.array_equal(who.upper, ref.upper):
                    raise Violation('%s(%r, %s): dimension %r, bounds %s, %s' % (kind, s['name'], kw, who.dimension, who.lower, who.upper))
        if any(o is obj for o in seen):
            raise Violation('two requests share one object')
        seen.append(obj)
    return {'nontrivial': args >= 2, **{'requests ' + r[0]: 1 for r in case['reqs']}}


def repr_params(alg):
    try:
        d = alg.get_parameters()
    except Exception as e:  # same for both sides
        return type(e).__name__
    return sorted((k, re.sub(r' at 0x[0-9a-f]+', '', repr(v))) for k, v in d.items())


def targets(tier):
    return [Target('all', None, check, exhaustive=everything)] + [Target('requests-%d' % k, cases, check, quick=150, thorough=8000) for k in range(8)]
