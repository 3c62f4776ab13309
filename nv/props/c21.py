"""C21: operators of the genetic algorithm and of the anarchic society optimization."""
import numpy as np
from hypothesis import strategies as st

from nv import core, objectives
from nv.engine import Target, Violation

ID = 'C21'
RULE = ('one case = operator x population (2-8 members, 1-7 dimensions, distinct or tied fitness) x index x rate x generator state, called 1-3000 times; '
        'each result is judged gene by gene, the calls of one case together must use every mate and gene; non-trivial = at least two dimensions and '
        'two members, distinct by the whole case')
RATES = st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.9])


@st.composite
def cases(draw, kind):
    n = draw(st.integers(2, 8))
    return dict(kind=kind, n=n, d=draw(st.integers(1, 7)), ic=draw(st.integers(0, n - 1)), rate=draw(RATES), seed=draw(st.integers(0, 2 ** 31)),
                reps=draw(st.sampled_from([1, 1, 1, 120, 3000])), ts=draw(st.integers(1, n)), points=draw(st.integers(1, 3)),
                fit=draw(st.sampled_from(['distinct', 'tied', 'positive'])))


def setup(c):
    from niapy.algorithms import Individual
    from niapy.util.array import objects_to_array
    d, n = c['d'], c['n']
    g = np.random.default_rng(c['seed'] ^ 0x777)
    lo = g.uniform(-10, 0, d)
    up = lo + g.uniform(0.5, 20, d)
    prob = dict(dim=d, lower=lo.tolist(), upper=up.tolist(), f=dict(kind='sphere'))
    task = core.make_task(objectives.recording_problem(prob), dict(opt='min', repair='limit', max_evals=100000, max_iters=None))
    x = g.uniform(lo, up, (n, d))
    f = g.uniform(-3, 3, n)
    if c['fit'] == 'tied':
        f = np.round(f)
    if c['fit'] == 'positive':
        f = np.abs(f) + 0.01
    pop = objects_to_array([Individual(x=v.copy(), e=False) for v in x])
    for p, v in zip(pop, f):
        p.f = v
    return task, x, f, pop, g.uniform(lo, up), lo, up


def unchanged(c, pop, x, f):
    if not np.array_equal(np.array([p.x for p in pop]), x) or [p.f for p in pop] != list(f):
        raise Violation('%s changed the population' % c['kind'])


def share(name, counts, base, total, p, reps):
    """Average number of affected genes: `base` forced ones, the others with probability p."""
    want = base + (total - base) * p
    sd = np.sqrt(max(0.0, (total - base) * p * (1 - p)) / reps)
    if abs(np.mean(counts) - want) > 7 * sd + 1e-9:
        raise Violation('%s with rate %r affects %.2f of %d genes on average, expected %.2f' % (name, p, np.mean(counts), total, want))


def check_selection(c):
    import niapy.algorithms.basic.ga as ga
    task, x, f, pop, xb, lo, up = setup(c)
    rng = np.random.default_rng(c['seed'])
    winners, got, firsts = set(), [], 0
    for _ in range(c['reps']):
        if c['kind'] == 'tournament':
            w = ga.tournament_selection(pop, c['ic'], c['ts'], xb, rng)
            who = [i for i, p in enumerate(pop) if p is w or (getattr(w, 'x', None) is not None and np.array_equal(w.x, p.x) and w.f == p.f)]
            if not who:
                raise Violation('the tournament was won by %s, which is not in the population' % w)
            worse = sum(v >= w.f for v in f)
            if worse < c['ts']:
                raise Violation('a tournament of %d was won by the member with only %d members not better: %r of %s' % (c['ts'], worse, w.f, f.tolist()))
            winners.add(w.f)
            firsts += w.f == f.min()
        else:
            w = np.asarray(ga.roulette_selection(pop, c['ic'], c['ts'], xb, rng))
            own, best = np.array_equal(w, x[c['ic']]), np.array_equal(w, xb)
            if not (own or best):
                raise Violation('roulette selection returned %s, neither the current nor the best solution' % w)
            got.append(own)
    unchanged(c, pop, x, f)
    if c['reps'] > 1 and c['kind'] == 'tournament':
        possible = {v for v in f if sum(u >= v for u in f) >= c['ts']}
        if c['ts'] == len(f) and winners != {min(f)}:
            raise Violation('a tournament of all %d members was won by %s, the best is %r' % (len(f), winners, min(f)))
        if c['ts'] == 1 and winners != set(f.tolist()) and len(f) <= 6:
            raise Violation('tournaments of one were never won by %s in %d draws' % (set(f.tolist()) - winners, c['reps']))
        q = c['ts'] / len(f)
        if (f == f.min()).sum() == 1 and abs(firsts / c['reps'] - q) > 7 * np.sqrt(q * (1 - q) / c['reps']) + 1e-9:
            raise Violation('the best member won %d of %d tournaments of %d out of %d' % (firsts, c['reps'], c['ts'], len(f)))
        if winners - possible:
            raise Violation('impossible winners %s' % (winners - possible))
    if c['reps'] > 1 and c['kind'] == 'roulette' and c['fit'] == 'positive':
        q = f[:c['ic'] + 1].sum() / f.sum()
        if abs(np.mean(got) - q) > 7 * np.sqrt(q * (1 - q) / c['reps']) + 0.05:
            raise Violation('roulette selection keeps the member in %.2f of the draws, its cumulative share is %.2f' % (np.mean(got), q))
    return {'nontrivial': c['d'] > 1, 'repeated': c['reps'] > 1}


def check_crossover(c):
    import niapy.algorithms.basic.ga as ga
    task, x, f, pop, xb, lo, up = setup(c)
    rng = np.random.default_rng(c['seed'])
    ic, d = c['ic'], c['d']
    others = [i for i in range(c['n']) if i != ic]
    mates, counts, genes, often = set(), [], set(), np.zeros(d)
    for _ in range(c['reps']):
        if c['kind'] == 'two_point':
            v = ga.two_point_crossover(pop, ic, c['rate'], rng)
        elif c['kind'] == 'multi_point':
            v = ga.multi_point_crossover(pop, ic, c['points'], rng)
        elif c['kind'] == 'uniform':
            v = ga.uniform_crossover(pop, ic, c['rate'], rng)
        else:
            v = ga.crossover_uros(pop, ic, c['rate'], rng)
        v = np.asarray(v)
        if v.shape != (d,):
            raise Violation('%s crossover returned %r' % (c['kind'], v))
        if c['kind'] == 'uros':
            # on the line through both parents, the weight of the current one between rate and 1 + 3 rate
            ok = []
            for m in others:
                a = (v - x[m]) / (x[ic] - x[m])
                if (a >= c['rate'] - 1e-6).all() and (a <= 1 + 3 * c['rate'] + 1e-6).all():
                    ok.append(m)
            if not ok:
                raise Violation('crossover of %s with one of %s gave %s' % (x[ic], x[others].tolist(), v))
            mates.update(ok)
            continue
        own = v == x[ic]
        ok = [m for m in others if (own | (v == x[m])).all()]
        if not ok:
            raise Violation('%s crossover: %s mixes no other member with %s' % (c['kind'], v.tolist(), x[ic].tolist()))
        taken = np.where(~own)[0]
        counts.append(len(taken))
        genes.update(taken.tolist())
        often[taken] += 1
        if len(taken):
            mates.update(ok)
        blocks = 0 if len(taken) == 0 else 1 + int((np.diff(taken) > 1).sum())
        if c['kind'] == 'two_point' and blocks > 1:
            raise Violation('two point crossover took the genes %s from the mate' % taken.tolist())
        if c['kind'] == 'multi_point' and blocks > c['points']:
            raise Violation('%d point crossover took the genes %s from the mate' % (c['points'], taken.tolist()))
        if c['kind'] == 'uniform' and c['rate'] == 0 and len(taken) != 1 or c['kind'] == 'uniform' and c['rate'] == 1 and len(taken) != d:
            raise Violation('uniform crossover with rate %r took %d of %d genes' % (c['rate'], len(taken), d))
    unchanged(c, pop, x, f)
    if c['reps'] > 1:
        if c['kind'] in ('uniform', 'uros') and not mates >= set(others) and c['n'] <= 6:
            raise Violation('%s crossover never mated %d with %s' % (c['kind'], ic, sorted(set(others) - mates)))
        if c['kind'] == 'uniform':
            share('uniform crossover', counts, 1, d, c['rate'], c['reps'])
            if genes != set(range(d)):
                raise Violation('uniform crossover never takes the genes %s' % sorted(set(range(d)) - genes))
        if c['kind'] in ('two_point', 'multi_point'):
            # the points are drawn independently: a gene is taken when the number of points up to it is odd
            k = 2 * c['points'] if c['kind'] == 'multi_point' else 2
            q = (1 - (1 - 2 * (np.arange(d) + 1) / d) ** k) / 2
            far = np.abs(often / c['reps'] - q) > 7 * np.sqrt(q * (1 - q) / c['reps']) + 1e-9
            if far.any():
                raise Violation('%s crossover took gene %d in %d of %d calls, expected a share of %.3f' % (c['kind'], np.argmax(far), often[np.argmax(far)], c['reps'], q[np.argmax(far)]))
        if c['kind'] in ('two_point', 'multi_point') and d >= 3 and not genes:
            raise Violation('%s crossover never takes a gene of the mate' % c['kind'])
    return {'nontrivial': d > 1, 'repeated': c['reps'] > 1}


def check_mutation(c):
    import niapy.algorithms.basic.ga as ga
    task, x, f, pop, xb, lo, up = setup(c)
    rng = np.random.default_rng(c['seed'])
    ic, d = c['ic'], c['d']
    counts, bases, genes = [], set(), set()
    for _ in range(c['reps']):
        fn = dict(uniform=ga.uniform_mutation, creep=ga.creep_mutation, uros=ga.mutation_uros)[c['kind']]
        v = np.asarray(fn(pop, ic, c['rate'], task, rng))
        if v.shape != (d,) or (v < lo).any() or (v > up).any():
            raise Violation('%s mutation returned %s in the box %s, %s' % (c['kind'], v, lo, up))
        if c['kind'] == 'uros':
            if c['rate'] == 0 and not np.array_equal(v, x[ic]):
                raise Violation('mutation with rate 0 changed %s to %s' % (x[ic], v))
            if c['rate'] > 0 and np.array_equal(v, x[ic]):
                raise Violation('mutation with rate %r changed nothing' % c['rate'])
            continue
        same = (v == x).sum(axis=1)
        base = ic if c['kind'] == 'uniform' else int(np.argmax(same))
        changed = np.where(v != x[base])[0]
        genes.update(changed.tolist())
        counts.append(len(changed))
        if len(changed) < d:
            bases.add(base)
        if len(changed) == 0 or (c['rate'] == 0 and len(changed) != 1) or (c['rate'] == 1 and len(changed) != d):
            raise Violation('%s mutation with rate %r changed %d of %d genes' % (c['kind'], c['rate'], len(changed), d))
    unchanged(c, pop, x, f)
    if c['reps'] > 1 and c['kind'] != 'uros':
        share(c['kind'] + ' mutation', counts, 1, d, c['rate'], c['reps'])
        if genes != set(range(d)):
            raise Violation('%s mutation never changes the genes %s' % (c['kind'], sorted(set(range(d)) - genes)))
        if c['kind'] == 'creep' and d >= 2 and c['rate'] == 0 and c['n'] <= 6 and bases != set(range(c['n'])):
            raise Violation('creep mutation never starts from the members %s' % sorted(set(range(c['n'])) - bases))
    return {'nontrivial': d > 1, 'repeated': c['reps'] > 1}


# ---------------------------------------------------------------- anarchic society optimization

@st.composite
def aso_cases(draw):
    return dict(prob=draw(core.problem_specs(min_dim=2, max_dim=6)), opt=draw(st.sampled_from(['min', 'max'])), repair=draw(st.sampled_from(core.REPAIRS)),
                kind=draw(st.sampled_from(['elitism', 'sequential', 'crossover'])), seed=draw(st.integers(0, 2 ** 31)),
                mp=[draw(st.sampled_from([0.0, 0.1, 0.3, 0.49, 0.5, 0.6, 0.75, 0.9, 1.0])) for _ in range(3)], f=draw(st.sampled_from([0.0, 0.5, 1.5])), cr=draw(RATES))


def check_aso(c):
    import niapy.algorithms.other.aso as aso
    prob = objectives.recording_problem(c['prob'])
    task = core.make_task(prob, dict(opt=c['opt'], repair=c['repair'], max_evals=1000, max_iters=None))
    g = np.random.default_rng(c['seed'])
    x, xpb, xb, xr = (g.uniform(task.lower, task.upper) for _ in range(4))
    keep = [v.copy() for v in (x, xpb, xb, xr)]
    v, fv = getattr(aso, c['kind'])(x, xpb, xb, xr, c['mp'][0], c['mp'][1], c['mp'][2], c['f'], c['cr'], task, g)
    if not all(np.array_equal(a, b) for a, b in zip(keep, (x, xpb, xb, xr))):
        raise Violation('%s changed its inputs' % c['kind'])
    vals = [float(q) * task.optimization_type.value for q in prob.values]
    want = 3 if c['kind'] == 'elitism' else 1
    if len(vals) != want:
        raise Violation('%s made %d evaluations' % (c['kind'], len(vals)))
    if fv != min(vals) or not any(np.array_equal(v, p) for p, q in zip(prob.points, vals) if q == fv):
        raise Violation('%s returned %s with %r, evaluated were %s with %s' % (c['kind'], v, fv, [p.tolist() for p in prob.points], vals))
    for p in prob.points:
        if (p < task.lower).any() or (p > task.upper).any():
            raise Violation('%s evaluated %s outside the box' % (c['kind'], p))
        if c['f'] == 0.0:  # without a random step every component comes from one of the four positions
            src = np.array(keep)
            if not (p == src).any(axis=0).all():
                raise Violation('%s: %s has components of none of the positions' % (c['kind'], p))
    return {'nontrivial': True, 'kind ' + c['kind']: 1}


# ---------------------------------------------------------------- the pipeline of the genetic algorithm

@st.composite
def pipeline_cases(draw):
    prob = draw(core.problem_specs(max_dim=5, kinds=['sphere', 'noise', 'linear', 'rastrigin'], sanebox=True))
    n = draw(st.integers(2, 8))
    return dict(alg='GeneticAlgorithm', params=dict(population_size=n), prob=prob, seed=draw(st.integers(0, 2 ** 16)),
                task=dict(opt=draw(st.sampled_from(['min', 'max'])), repair='limit', max_evals=None, max_iters=draw(st.integers(1, 4)), cutoff=None, log=False),
                pick=draw(st.sampled_from(['best', 'worst', 'table'])), table=draw(st.lists(st.integers(0, n - 1), min_size=n, max_size=n)),
                vec=draw(st.booleans()), cross=draw(st.sampled_from(['same', 'next', 'mean'])), mut=draw(st.sampled_from(['same', 'half', 'flip'])))


def check_pipeline(c):
    """User-supplied operators without randomness: the next generation is computed here as well."""
    def pick(fs, i):
        return int(np.argmin(fs)) if c['pick'] == 'best' else int(np.argmax(fs)) if c['pick'] == 'worst' else c['table'][i]

    def selection(pop, ic, ts, best, rng):
        m = pop[pick([q.f for q in pop], ic)]
        return m.x if c['vec'] else m

    def cross(xs, i):
        o = xs[(i + 1) % len(xs)]
        return xs[i].copy() if c['cross'] == 'same' else np.where(np.arange(len(o)) % 2 == 0, o, xs[i]) if c['cross'] == 'next' else 0.5 * xs[i] + 0.5 * o

    def mut(x, lo, up):
        return x.copy() if c['mut'] == 'same' else 0.5 * x + 0.5 * lo if c['mut'] == 'half' else np.clip(lo + (up - x), lo, up)

    ops = dict(selection=selection, crossover=lambda pop, ic, cr, rng: cross([np.array(q.x) for q in pop], ic),
               mutation=lambda pop, ic, mr, task, rng: mut(np.array(pop[ic].x), task.lower, task.upper))
    from niapy.algorithms.basic import GeneticAlgorithm
    alg = GeneticAlgorithm(seed=c['seed'], **c['params'], **ops)
    tr = core.execute(c, alg=alg)
    core.crashed(tr)
    n = c['params']['population_size']
    pts, sign = tr.prob.points, tr.sign
    vals = [float(v) * sign for v in tr.prob.values]
    lo, up = np.asarray(c['prob']['lower'], dtype=float), np.asarray(c['prob']['upper'], dtype=float)
    for k in range(1, len(pts) // n):
        old, f = pts[(k - 1) * n:k * n], vals[(k - 1) * n:k * n]
        sel = [old[pick(f, i)] for i in range(n)]
        new = [mut(cross(sel, i), lo, up) for i in range(n)]
        for i in range(n):
            if not np.allclose(pts[k * n + i], new[i], rtol=1e-12, atol=1e-12):
                raise Violation('generation %d, member %d is %s, the mutated crossover of the selected members is %s (members %s with fitness %s)' % (
                    k, i, pts[k * n + i].tolist(), new[i].tolist(), [o.tolist() for o in old], f))
    return {'nontrivial': len(pts) >= 2 * n, 'pick ' + c['pick']: 1, 'cross ' + c['cross']: 1, 'mut ' + c['mut']: 1}


def targets(tier):
    q = dict(quick=130, thorough=8000)
    return ([Target('selection-' + k, (lambda k=k: cases(k)), check_selection, **q) for k in ('tournament', 'roulette')] +
            [Target('crossover-' + k, (lambda k=k: cases(k)), check_crossover, **q) for k in ('two_point', 'multi_point', 'uniform', 'uros')] +
            [Target('mutation-' + k, (lambda k=k: cases(k)), check_mutation, **q) for k in ('uniform', 'creep', 'uros')] + [Target('aso', aso_cases, check_aso, **q), Target('ga-pipeline', pipeline_cases, check_pipeline, **q)])
