"""C20: trial vectors of differential evolution."""
import itertools

import numpy as np
from hypothesis import strategies as st

from nv import core, objectives
from nv.engine import Target, Violation

ID = 'C20'
RULE = ('one case = mutation strategy x population (all different vectors, 1-7 dimensions, 3-8 members) x index x weight x crossover probability x '
        'generator state, called 1-150 times; each trial vector must be explained by one admissible tuple of donors (all tuples are enumerated); the '
        'calls of one case together must use every donor and every forced component and the right share of mutant components; non-trivial = at least '
        'two dimensions and 0 < weight, distinct by the whole case')
ASSUMPTIONS = ['populations with more members than the strategy draws, as the documentation requires different individuals']

# name -> (donors, function of (current, best, donors) -> mutant)
FORM = {
    'cross_rand1': (3, lambda c, b, r, f: r[0] + f * (r[1] - r[2])),
    'cross_best1': (2, lambda c, b, r, f: b + f * (r[0] - r[1])),
    'cross_rand2': (5, lambda c, b, r, f: r[0] + f * (r[1] - r[2]) + f * (r[3] - r[4])),
    'cross_best2': (4, lambda c, b, r, f: b + f * (r[0] - r[1]) + f * (r[2] - r[3])),
    'cross_curr2rand1': (4, lambda c, b, r, f: c + f * (r[0] - r[1]) + f * (r[2] - r[3])),
    'cross_curr2best1': (3, lambda c, b, r, f: c + f * (b - r[0]) + f * (r[1] - r[2])),
}


@st.composite
def cases(draw, name):
    need = FORM[name][0]
    n = draw(st.integers(need + 1, min(need + 4, 8)))
    return dict(name=name, n=n, d=draw(st.integers(1, 7)), ic=draw(st.integers(0, n - 1)), f=draw(st.sampled_from([0.5, 1.0, 0.1, 0.9, 2.0, 0.0])),
                cr=draw(st.sampled_from([0.0, 1.0, 0.5, 0.9, 0.2])), seed=draw(st.integers(0, 2 ** 31)), reps=draw(st.sampled_from([1, 1, 1, 150])),
                plain=draw(st.booleans()))


def population(c):
    from niapy.algorithms import Individual
    from niapy.util.array import objects_to_array
    g = np.random.default_rng(c['seed'] ^ 0xABCDEF)
    x = g.uniform(-10, 10, (c['n'], c['d']))
    best = g.uniform(-10, 10, c['d'])
    if c['plain']:
        return x, x.copy(), best
    pop = objects_to_array([Individual(x=v.copy(), e=False) for v in x])
    return x, pop, best


def check(c):
    import niapy.algorithms.basic.de as de
    fn = getattr(de, c['name'])
    need, form = FORM[c['name']]
    x, pop, best = population(c)
    ic, f, d = c['ic'], c['f'], c['d']
    keepx, keepb = x.copy(), best.copy()
    others = [i for i in range(c['n']) if i != ic]
    tuples = list(itertools.permutations(others, need))
    idx = np.array(tuples)
    mutants = form(x[ic], best, [x[idx[:, k]] for k in range(need)], f)  # one row per tuple
    rng = np.random.default_rng(c['seed'])
    used = [set() for _ in range(need)]
    mutant_comps, forced = [], set()
    for rep in range(c['reps']):
        np.random.seed(rep)
        v = fn(pop, ic, f, c['cr'], rng=rng, x_b=best)
        if not isinstance(v, np.ndarray) or v.shape != (d,):
            raise Violation('%s returned %r' % (c['name'], v))
        own = v == x[ic]
        hit = np.abs(v - mutants) <= 1e-9 * (1 + np.abs(mutants))
        ok = np.where((hit | own).all(axis=1) & hit.any(axis=1))[0]
        if len(ok) == 0:
            raise Violation('%s: no choice of %d other members explains the trial vector %s (current %s, best %s, members %s, weight %r)' %
                            (c['name'], need, v.tolist(), x[ic].tolist(), best.tolist(), x.tolist(), f))
        if f > 0:
            m = hit[ok].sum(axis=1).max()
            if c['cr'] == 0.0 and m != 1:
                raise Violation('%s with crossover probability 0 took %d components from the mutant' % (c['name'], m))
            if c['cr'] == 1.0 and m != d:
                raise Violation('%s with crossover probability 1 took %d of %d components from the mutant' % (c['name'], m, d))
            mutant_comps.append(m)
            if len(ok) == 1 or c['cr'] == 0.0:
                forced.update(np.where(hit[ok[0]])[0].tolist() if c['cr'] == 0.0 else [])
            for k in range(need):
                used[k].update(idx[ok, k].tolist())
    now = np.array([p.x for p in pop]) if not c['plain'] else pop
    if not np.array_equal(now, keepx) or not np.array_equal(best, keepb):
        raise Violation('%s changed its inputs' % c['name'])
    if c['reps'] > 1 and f > 0:
        for k in range(need):
            if used[k] != set(others):
                raise Violation('%s never used the members %s as donor %d in %d calls' % (c['name'], sorted(set(others) - used[k]), k + 1, c['reps']))
        if c['cr'] == 0.0 and forced != set(range(d)):
            raise Violation('%s never takes component(s) %s from the mutant in %d calls' % (c['name'], sorted(set(range(d)) - forced), c['reps']))
        want = 1 + (d - 1) * c['cr']
        sd = np.sqrt((d - 1) * c['cr'] * (1 - c['cr']) / c['reps'])
        if abs(np.mean(mutant_comps) - want) > 7 * sd + 1e-9:
            raise Violation('%s with crossover probability %r took %.2f components from the mutant on average, expected %.2f' % (c['name'], c['cr'], np.mean(mutant_comps), want))
    return {'nontrivial': d > 1 and f > 0, 'repeated': c['reps'] > 1, 'cr=%r' % c['cr']: 1}


# ---------------------------------------------------------------- current-to-pbest with archive

@st.composite
def pbest_cases(draw):
    n = draw(st.integers(3, 8))
    return dict(n=n, d=draw(st.integers(1, 6)), ic=draw(st.integers(0, n - 1)), f=draw(st.sampled_from([0.5, 1.0, 0.1, 0.9, 2.0])),
                cr=draw(st.sampled_from([0.0, 1.0, 0.5, 0.9])), seed=draw(st.integers(0, 2 ** 31)), p=draw(st.integers(1, n)), arc=draw(st.integers(0, 5)),
                box=draw(st.sampled_from([10.0, 12.0, 1000.0])), reps=draw(st.sampled_from([1, 1, 1, 400])), plain=False, empty=draw(st.integers(0, 3)))


def check_pbest(c):
    from niapy.algorithms import Individual
    from niapy.algorithms.modified.shade import cross_curr2pbest1
    from niapy.util.array import objects_to_array
    x, pop, _ = population(c)
    g = np.random.default_rng(c['seed'] ^ 0x1234567)
    d, ic, f, n = c['d'], c['ic'], c['f'], c['n']
    arc = g.uniform(-10, 10, (c['arc'], d))
    archive = objects_to_array([Individual(x=v.copy(), e=False) for v in arc] + [None] * c['empty'])
    prob = dict(dim=d, lower=[-c['box']] * d, upper=[c['box']] * d, f=dict(kind='sphere'))
    task = core.make_task(objectives.recording_problem(prob), dict(opt='min', repair='limit', max_evals=10, max_iters=None))
    union = np.concatenate([x, arc])
    tuples = [(b, r1, r2) for b in range(c['p']) for r1 in range(n) if r1 != ic for r2 in range(n + c['arc']) if r2 != ic and r2 != r1]
    idx = np.array(tuples)
    raw = x[ic] + f * (x[idx[:, 0]] - x[ic]) + f * (x[idx[:, 1]] - union[idx[:, 2]])
    lo, up = -c['box'], c['box']
    want = np.where(raw < lo, (lo + x[ic]) / 2, np.where(raw > up, (up + x[ic]) / 2, raw))
    rng = np.random.default_rng(c['seed'])
    used = [set(), set(), set()]
    comps = []
    for _ in range(c['reps']):
        v = cross_curr2pbest1(pop, ic, f, c['cr'], rng=rng, p_num=c['p'], archive=archive, arc_ind_cnt=c['arc'], task=task)
        own = v == x[ic]
        hit = np.abs(v - want) <= 1e-9 * (1 + np.abs(want))
        ok = np.where((hit | own).all(axis=1) & hit.any(axis=1))[0]
        if len(ok) == 0:
            raise Violation('current-to-pbest: no choice of donors explains the trial vector %s (current %s)' % (np.asarray(v).tolist(), x[ic].tolist()))
        if (v < lo).any() or (v > up).any():
            raise Violation('current-to-pbest left the box: %s' % v.tolist())
        for k in range(3):
            used[k].update(idx[ok, k].tolist())
        comps.append(hit[ok].sum(axis=1).max())
        if c['cr'] == 1.0 and comps[-1] != d:
            raise Violation('current-to-pbest with crossover probability 1 took %d of %d components from the mutant' % (comps[-1], d))
    if not np.array_equal(np.array([p.x for p in pop]), x) or (c['arc'] and not np.array_equal(np.array([p.x for p in archive[:c['arc']]]), arc)):
        raise Violation('current-to-pbest changed the population or the archive')
    if c['reps'] > 1:
        for k, all_ in ((0, range(c['p'])), (1, [i for i in range(n) if i != ic]), (2, [i for i in range(n + c['arc']) if i != ic])):
            if not set(all_) <= used[k]:
                raise Violation('current-to-pbest never used %s as donor %d' % (sorted(set(all_) - used[k]), k))
    return {'nontrivial': d > 1, 'archive': c['arc'] > 0, 'repeated': c['reps'] > 1, 'repaired': bool((raw != want).any())}


# ---------------------------------------------------------------- multi_mutations

@st.composite
def multi_cases(draw):
    return dict(prob=draw(core.problem_specs(max_dim=5)), n=draw(st.integers(6, 9)), ic=draw(st.integers(0, 5)), seed=draw(st.integers(0, 2 ** 31)),
                f=draw(st.sampled_from([0.5, 1.0, 0.1])), cr=draw(st.sampled_from([0.0, 0.5, 1.0])), opt=draw(st.sampled_from(['min', 'max'])),
                strategies=draw(st.lists(st.sampled_from(sorted(FORM)), min_size=1, max_size=5)), repair=draw(st.sampled_from(core.REPAIRS)))


def check_multi(c):
    import niapy.algorithms.basic.de as de
    from niapy.algorithms import Individual
    from niapy.util.array import objects_to_array
    prob = objectives.recording_problem(c['prob'])
    task = core.make_task(prob, dict(opt=c['opt'], repair=c['repair'], max_evals=1000, max_iters=None))
    g = np.random.default_rng(c['seed'])
    pop = objects_to_array([Individual(task=task, rng=g, e=True) for _ in range(c['n'])])
    keep = [p.x.copy() for p in pop]
    best = pop[0].x.copy()
    n0 = len(prob.points)
    r = de.multi_mutations(pop, c['ic'], best, c['f'], c['cr'], rng=g, task=task, individual_type=Individual, strategies=[getattr(de, s) for s in c['strategies']])
    new, vals = prob.points[n0:], [float(v) * task.optimization_type.value for v in prob.values[n0:]]
    if len(new) != len(c['strategies']):
        raise Violation('%d strategies made %d evaluations' % (len(c['strategies']), len(new)))
    if r.f != min(vals) or not any(np.array_equal(r.x, p) for p, v in zip(new, vals) if v == r.f):
        raise Violation('multi_mutations returned %s with %r, the trial vectors had %s' % (r.x, r.f, vals))
    if not all(np.array_equal(a, b.x) for a, b in zip(keep, pop)):
        raise Violation('multi_mutations changed the population')
    return {'nontrivial': len(c['strategies']) > 1}


def targets(tier):
    return ([Target(n, (lambda n=n: cases(n)), check, quick=130, thorough=8000) for n in FORM] +
            [Target('pbest-%d' % k, pbest_cases, check_pbest, quick=100, thorough=8000) for k in (0, 1)] + [Target('multi', multi_cases, check_multi, quick=100, thorough=8000)])
