"""C26: greedy and elitist selection keeps the better solution."""
import numpy as np
from hypothesis import strategies as st

from nv import core
from nv.engine import Skip, Target, Violation

ID = 'C26'
RULE = ('one case = one run of an algorithm with greedy or elitist selection (class x parameters x problem x budgets x repair x seed), recorded before and after '
        'each iteration together with the objective values of that iteration; the survivors are recomputed from the parents and the values; non-trivial = at least '
        'one full iteration and one member replaced, distinct by the whole case')


class Step:
    """One iteration: fitness before, values evaluated in it (sense applied; padded with infinity where the budget ended), fitness after."""

    def __init__(self, case, a, b, v, stopped, trace):
        self.case, self.a, self.b, self.v, self.stopped, self.trace = case, a, b, v, stopped, trace
        self.f, self.g = a['f'], b['f']

    def pad(self, n):
        if len(self.v) > n or len(self.v) < n and not self.stopped:
            raise Violation('%d evaluations instead of %d' % (len(self.v), n))
        return np.concatenate([self.v, np.full(n - len(self.v), np.inf)])

    def say(self, what, want):
        return Violation('%s: fitness before %s, evaluated %s, expected %s, fitness after %s' % (what, self.f.tolist()[:8], self.v.tolist()[:12], np.asarray(want).tolist()[:8], self.g.tolist()[:8]))


def trial(s):
    """Member i against its only trial vector."""
    want = np.minimum(s.f, s.pad(len(s.f)))
    if not np.array_equal(s.g, want):
        raise s.say('each member is the better of itself and its trial vector', want)


def trials(s, default=4):
    """Member i against the best of one trial vector per strategy."""
    k = len(s.case['params'].get('strategies') or [0] * default)
    want = np.minimum(s.f, s.pad(len(s.f) * k).reshape(len(s.f), k).min(axis=1))
    if not np.array_equal(s.g, want):
        raise s.say('each member is the better of itself and the best of its %d trial vectors' % k, want)


def trials_jde(s):
    trials(s, 5)


def trial_sorted(s):
    """The success-history variants rank the members first."""
    want = np.sort(np.minimum(np.sort(s.f), s.pad(len(s.f))))[:len(s.g)]  # trial i is made for the i-th best member
    if len(s.g) > len(s.f) or not np.array_equal(np.sort(s.g), want):
        raise s.say('the population consists of the better of each member and its trial vector, without the worst ones when it shrinks', want)


def two_rounds(s):
    v = s.pad(2 * len(s.f))
    want = np.minimum(s.f, np.minimum(v[:len(s.f)], v[len(s.f):]))
    if not np.array_equal(s.g, want):
        raise s.say('each nest is the best of itself and its two candidates', want)


def maybe(s):
    """Accepted with a probability, but never a worse one."""
    v = s.pad(len(s.f))
    for i, (f, w, g) in enumerate(zip(s.f, v, s.g)):
        if not (g == f or (g == w and w <= f)):
            raise s.say('member %d is replaced only by its own new solution, and only if that is not worse' % i, np.minimum(s.f, v))


def slots(s):
    if len(s.f) == len(s.g) and not np.all(s.g <= s.f):
        raise s.say('no member gets worse', s.f)


def halving(s):
    """Slot-wise, or the better of each pair when the population is halved."""
    n = len(s.f)
    k = len(s.case['params'].get('strategies') or [0] * 4) if 'MultiStrategy' in s.case['alg'] else 1
    want = np.minimum(s.f, s.pad(n * k).reshape(n, k).min(axis=1))
    if len(s.g) == n // 2 and n > 3:
        want = np.minimum(want[:n // 2], want[n // 2:2 * (n // 2)])
    if not np.array_equal(s.g, want):
        raise s.say('each member is the better of itself and its trial vector, the better of each pair when the population is halved', want)


def harmony(s):
    v = s.pad(1)[0]
    want = s.f.copy()
    iw = np.argmax(want)
    if v <= want[iw]:
        want[iw] = v
    if not np.array_equal(np.sort(s.g), np.sort(want)):
        raise s.say('the new harmony replaces the worst one if it is not worse', want)


def one_plus(s):
    mu = s.case['params'].get('mu', 40) if s.case['alg'].endswith('Mp1') else 1
    want = min(s.f[0], s.pad(mu).min())
    if s.g[0] != want:
        raise s.say('the parent is replaced by the best offspring if that is better', [want])


def plus(s):
    lam = s.case['params'].get('lam', 45)
    want = np.sort(np.concatenate([s.f, s.pad(lam)]))[:len(s.f)]
    if not np.array_equal(np.sort(s.g), want):
        raise s.say('the best mu of parents and offspring survive', want)


def comma(s):
    """The best mu of the offspring."""
    lam, mu = s.case['params'].get('lam', 45), s.case['params']['mu']
    if mu < lam:
        want = np.sort(s.pad(lam))[:mu]
        if not np.array_equal(np.sort(s.g), want):
            raise s.say('the best mu of the offspring survive', want)


def ranks(s):
    m = min(len(s.f), len(s.g))
    if not np.all(np.sort(s.g)[:m] <= np.sort(s.f)[:m]):
        raise s.say('the sorted fitness never gets worse', np.sort(s.f))


def best(s):
    if not s.g.min() <= s.f.min():
        raise s.say('the best member is never lost', [s.f.min()])


def best_of_all(s):
    want = min(s.f.min(), min(s.v, default=np.inf))
    if s.g.min() != want:
        raise s.say('the best of the members and of everything evaluated in the iteration is kept', [want])


def personal(s):
    """Personal bests: the best of the old one and the positions the particle visited (the first n evaluations of the iteration)."""
    p, q = s.a['params'], s.b['params']
    n = len(p['personal_best_fitness'])
    v = np.concatenate([s.v, np.full(max(0, n - len(s.v)), np.inf)])[:n]
    want = np.minimum(p['personal_best_fitness'], v)
    if not np.array_equal(q['personal_best_fitness'], want):
        raise Violation('personal bests: before %s, evaluated %s, expected %s, after %s' % (np.asarray(p['personal_best_fitness']).tolist()[:8], v.tolist()[:8], want.tolist()[:8], np.asarray(q['personal_best_fitness']).tolist()[:8]))
    true_points(s, q['personal_best'], q['personal_best_fitness'], 'personal best')


def personal_kept(s):
    p, q = s.a['params'], s.b['params']
    if not np.all(np.asarray(q['personal_best_fitness']) <= np.asarray(p['personal_best_fitness'])):
        raise Violation('a personal best got worse: %s -> %s' % (np.asarray(p['personal_best_fitness']).tolist()[:8], np.asarray(q['personal_best_fitness']).tolist()[:8]))
    true_points(s, q['personal_best'], q['personal_best_fitness'], 'personal best')


def true_points(s, xs, fs, what):
    for i, (x, f) in enumerate(zip(xs, fs)):
        if np.isfinite(f) and float(s.trace.prob.fun(np.array(x, dtype=float))) * s.trace.sign != f:
            raise Violation('%s %d at %s carries %r, its objective value is %r' % (what, i, np.asarray(x).tolist(), float(f), float(s.trace.prob.fun(np.array(x, dtype=float))) * s.trace.sign))


def wolves(s):
    """Alpha, beta and delta: true, ordered, never worse; alpha is the best of everything."""
    p, q = s.a['params'], s.b['params']
    fs = [float(q[k + '_fitness']) for k in ('alpha', 'beta', 'delta')]
    old = [float(p[k + '_fitness']) for k in ('alpha', 'beta', 'delta')]
    if not fs[0] <= fs[1] <= fs[2]:
        raise Violation('alpha, beta, delta have fitness %r' % fs)
    if any(u > v for u, v in zip(fs, old)):
        raise Violation('leading wolves got worse: %r -> %r' % (old, fs))
    if fs[0] != min([old[0]] + s.v.tolist()):
        raise Violation('alpha has %r, the best wolf so far %r' % (fs[0], min([old[0]] + s.v.tolist())))
    true_points(s, [q[k] for k in ('alpha', 'beta', 'delta')], fs, 'leading wolf')


def monkeys(s):
    """A monkey king takes the best of its tries (V2: or stays), any other monkey its new place; personal bests never get worse."""
    v2 = s.case['alg'].endswith('V2')
    c = s.case['params'].get('c', 3)
    k = int(c * (len(s.f) if v2 else s.case['prob']['dim']))
    want, pb, at = [], [], 0
    v = np.concatenate([s.v, np.full(len(s.f) * max(k, 1), np.inf)])
    for f, m in zip(s.f, s.a['members']):
        n = k if m['monkey_king'] else 1
        w = v[at:at + n].min()
        at += n
        want.append(min(f, w) if v2 and m['monkey_king'] else w)
        pb.append(min(m['f_pb'], want[-1]))
    if not np.array_equal(s.g, want):
        raise s.say('kings take the best of their %d tries, the others their new place' % k, want)
    got = [m['f_pb'] for m in s.b['members']]
    if got != pb:
        raise Violation('personal bests are %s, expected %s' % (got[:8], pb[:8]))
    true_points(s, [m['x_pb'] for m in s.b['members']], got, 'personal best')


def monkeys3(s):
    n = len(s.f)
    v = np.concatenate([s.v, np.full(10 ** 3, np.inf)])
    c = int(np.ceil(s.case['params'].get('c', 3) * s.case['prob']['dim']))
    want = v[c:c + n].copy()
    want[np.argmax(want)] = min(want.max(), v[:c].min())
    if not np.array_equal(np.sort(s.g), np.sort(want)):
        raise s.say('the best of the %d kings replaces the worst monkey if it is not worse' % c, want)


def metropolis(s):
    """Better is always accepted, worse only while the temperature makes it possible at all."""
    v = s.pad(1)[0]
    t = float(s.a['params']['current_temperature'])
    if not (s.g[0] == v or s.g[0] == s.f[0]) or v < s.f[0] and s.g[0] != v:
        raise s.say('a better candidate is accepted', [min(v, s.f[0])])
    if s.g[0] > s.f[0] and (t <= 0 or s.g[0] - s.f[0] > 50 * t):
        raise s.say('a candidate worse by %r was accepted at temperature %r' % (s.g[0] - s.f[0], t), s.f)


def personal_of_members(s):
    """Personal bests against the members after the iteration."""
    p, q = s.a['params'], s.b['params']
    want = np.minimum(p['personal_best_fitness'], s.g)
    if not np.array_equal(q['personal_best_fitness'], want):
        raise Violation('personal bests: before %s, members %s, after %s' % (np.asarray(p['personal_best_fitness']).tolist()[:8], s.g.tolist()[:8], np.asarray(q['personal_best_fitness']).tolist()[:8]))
    true_points(s, q['personal_best'], q['personal_best_fitness'], 'personal best')


def elitism(s):
    """Anarchic society: the elitist combination takes the best of the three candidates of a member."""
    if s.case['params'].get('combination', '@elitism') == '@elitism':
        want = s.pad(3 * len(s.f)).reshape(len(s.f), 3).min(axis=1)
        if not np.array_equal(s.g, want):
            raise s.say('each member takes the best of its 3 candidates', want)


def forest(s):
    """The best area_limit of the trees that are not too old and the new local seeds stay, global seeds are added."""
    p = s.case['params']
    age = np.asarray(s.a['params']['age'])
    n = int(np.sum(age < p.get('lifetime', 3)) + np.sum(age == 0) * p['local_seeding_changes'])
    v = np.concatenate([s.v, np.full(max(0, n - len(s.v)), np.inf)])
    want = np.concatenate([np.sort(v[:n])[:p.get('area_limit', 10)], v[n:]])
    if len(s.g) < len(want) or not np.array_equal(s.g[:len(want)], want) or np.any(np.isfinite(s.g[len(want):])) or len(s.g) > len(want) and not s.stopped:
        raise s.say('the best trees and seeds stay', want)


def foods(s):
    """A food source is replaced by a worse one only when it may have reached its limit."""
    limit = s.case['params'].get('limit', 100)
    tries = np.asarray(s.a['params']['trials'])
    for i, t in enumerate(tries):
        if t + 1 + len(tries) < limit and s.g[i] > s.f[i]:
            raise s.say('food source %d got worse after at most %d of %d trials' % (i, t + 1 + len(tries), limit), s.f)


def climb(s):
    if s.g[0] != min(s.v, default=np.inf):
        raise s.say('the climb ends at the best point it has seen', [min(s.v, default=np.inf)])


PSO = ['ParticleSwarmAlgorithm', 'ParticleSwarmOptimization', 'CenterParticleSwarmOptimization', 'MutatedParticleSwarmOptimization', 'MutatedCenterParticleSwarmOptimization',
       'MutatedCenterUnifiedParticleSwarmOptimization']
R = {
    'DifferentialEvolution': [trial], 'SelfAdaptiveDifferentialEvolution': [trial], 'FlowerPollinationAlgorithm': [trial],
    'MultiStrategyDifferentialEvolution': [trials], 'MultiStrategySelfAdaptiveDifferentialEvolution': [trials_jde],
    'SuccessHistoryAdaptiveDifferentialEvolution': [trial_sorted], 'LpsrSuccessHistoryAdaptiveDifferentialEvolution': [trial_sorted],
    'ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution': [trial_sorted],
    'DynNpDifferentialEvolution': [halving], 'DynNpMultiStrategyDifferentialEvolution': [halving],
    'MonkeyKingEvolutionV1': [monkeys], 'MonkeyKingEvolutionV2': [monkeys], 'MonkeyKingEvolutionV3': [monkeys3], 'SimulatedAnnealing': [metropolis],
    'AnarchicSocietyOptimization': [personal_of_members, elitism], 'ForestOptimizationAlgorithm': [forest], 'ArtificialBeeColonyAlgorithm': [foods],
    'HillClimbAlgorithm': [climb],
    'CuckooSearch': [two_rounds], 'BatAlgorithm': [maybe], 'HybridBatAlgorithm': [maybe], 'AdaptiveBatAlgorithm': [maybe], 'SelfAdaptiveBatAlgorithm': [maybe],
    'HybridSelfAdaptiveBatAlgorithm': [maybe], 'ParameterFreeBatAlgorithm': [maybe],
    'HarmonySearch': [harmony], 'HarmonySearchV1': [harmony],
    'EvolutionStrategy1p1': [one_plus], 'EvolutionStrategyMp1': [one_plus], 'EvolutionStrategyMpL': [plus], 'EvolutionStrategyML': [comma],
    'BareBonesFireworksAlgorithm': [best_of_all], 'FireworksAlgorithm': [best_of_all], 'EnhancedFireworksAlgorithm': [best_of_all, slots], 'DynamicFireworksAlgorithm': [slots, best],
    'DynamicFireworksAlgorithmGauss': [slots, best], 'BeesAlgorithm': [best_of_all],
    'ClonalSelectionAlgorithm': [ranks], 'CoralReefsOptimization': [ranks], 'NelderMeadMethod': [best],
    'MultipleTrajectorySearch': [slots], 'MultipleTrajectorySearchV1': [slots],
    'DifferentialEvolutionMTS': [slots, best], 'DifferentialEvolutionMTSv1': [slots, best], 'MultiStrategyDifferentialEvolutionMTS': [slots, best],
    'MultiStrategyDifferentialEvolutionMTSv1': [slots, best], 'DynNpDifferentialEvolutionMTS': [slots, best], 'DynNpDifferentialEvolutionMTSv1': [slots, best],
    'DynNpMultiStrategyDifferentialEvolutionMTS': [slots, best], 'DynNpMultiStrategyDifferentialEvolutionMTSv1': [slots, best],
    'GreyWolfOptimizer': [wolves], 'OppositionVelocityClampingParticleSwarmOptimization': [personal_kept], 'ComprehensiveLearningParticleSwarmOptimizer': [personal_kept],
}
R.update({n: [personal] for n in PSO})


def check(case):
    tr = core.execute(case, callbacks=lambda t: [core.snapshots(t)])
    core.crashed(tr)
    replaced = kept = False
    for it, (a, b) in enumerate(zip(tr.states, tr.states[1:])):
        v = np.array([float(u) for u in tr.prob.values[a['calls']:b['calls']]]) * tr.sign
        last = it == len(tr.states) - 2
        s = Step(case, a, b, v, last and tr.task.stopping_condition(), tr)
        try:
            for rule in R[case['alg']]:
                rule(s)
        except Violation as e:
            raise Violation('iteration %d: %s' % (it + 1, e))
        except (KeyError, AttributeError) as e:
            raise Skip('the state has other names: %r' % e)
        replaced = replaced or len(s.f) != len(s.g) or not np.array_equal(s.f, s.g)
        kept = kept or len(s.f) == len(s.g) and bool(np.any(s.f == s.g))
    lab = core.labels(case, tr)
    lab.update({'member replaced': replaced, 'member kept': kept, 'nontrivial': len(tr.states) >= 2 and replaced})
    return lab


@st.composite
def cases(draw, n):
    kinds = ['noise', 'noise', 'sphere', 'linear', 'prod', 'rastrigin', 'step', 'abs', 'rosen']
    return draw(core.run_cases(n, mode=draw(st.sampled_from(['evals', 'evals', 'iters', 'both'])), kinds=kinds, max_dim=5))


def targets(tier):
    return [Target(n, (lambda n=n: cases(n)), check, quick=60, thorough=2500) for n in R]
