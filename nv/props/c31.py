"""C31: one step of an optimizer has the distribution its update rule gives."""
import math
import random

import numpy as np
from hypothesis import strategies as st

from nv import algs
from nv.engine import Target, Violation
from nv.steps import MODELS, Env

ID = 'C31'
RULE = ('one case = algorithm x parameters x box x objective x initial population x repair x part of the budget already used; the library runs 400 seeds, a reference model of the update rule with its own '
        'draws 800; the points evaluated are compared in distribution, call by call (coordinates, projections, differences to earlier calls, means, number of calls); '
        'a deviation (Kolmogorov-Smirnov, p < 1e-3) has to repeat on 1000 and on 3000 fresh runs, there with p < 1e-9 (or p < 1e-4 and then p < 1e-9 on 12000 more); non-trivial = the library runs differ from each other '
        '(or the rule is deterministic) and evaluate points after the initial population, distinct by the whole case')
ASSUMPTIONS = ['the reference models restate the update rules at the pinned commit where the documentation leaves them open',
               'where the code is known to depart from its publication (jDE, SABA, MBO, SCA, MFO, krill herd, coral reefs) the model is that of the code']

ONE, P2 = dict(pop=None), dict(pop=[2, 4])


class V:
    """One of the values."""
    def __init__(self, *a):
        self.a = a

    def pick(self, r):
        return r.choice(self.a)


class Some(V):
    """`lo` to `hi` of the values of a choice, in some order."""
    def __init__(self, of, lo, hi, unique=False):
        self.of, self.lo, self.hi, self.unique = of, lo, hi, unique

    def pick(self, r):
        k = r.randint(self.lo, self.hi)
        return r.sample(self.of.a, k) if self.unique else [r.choice(self.of.a) for _ in range(k)]


PSO = dict(c1=V(1.2, 2.0), c2=V(0.8, 1.7), w=V(0.4, 0.7))
BAT = dict(loudness=V(0.4, 0.9), pulse_rate=V(0.6, 1.0), alpha=V(0.6, 0.9), gamma=V(0.4, 1.0), min_frequency=V(0.0, 0.5), max_frequency=V(1.0, 2.0))
DE = dict(differential_weight=V(0.5, 0.9), crossover_probability=V(0.2, 0.5, 0.8), strategy=V(*algs.DE_STRATS))
MSDE = dict(differential_weight=V(0.5, 0.9), crossover_probability=V(0.3, 0.7), strategies=Some(V(*algs.DE_STRATS), 2, 3, unique=True))
MTS = dict(num_tests=V(1, 2), num_searches=V(1, 2), num_enabled=V(1, 2), bonus1=V(5, 10), bonus2=V(1, 2))
SABAT = dict(starting_loudness=V(0.5, 0.8), epsilon=V(0.1, 0.5), pulse_rate=V(0.3, 0.6), min_loudness=V(0.9, 1.1), max_loudness=V(1.2, 1.4), min_pulse_rate=V(0.1, 0.2), max_pulse_rate=V(0.6, 0.8),
             tao_1=V(0.2, 0.5), tao_2=V(0.3, 0.6), min_frequency=V(0.0, 0.5), max_frequency=V(1.0, 2.0))
MKE = dict(fluctuation_coeff=V(0.4, 0.7), population_rate=V(0.4, 0.6), c=V(1, 2), fc=V(0.3, 0.6))
FWA = dict(num_sparks=V(8, 12), a=V(0.15, 0.25), b=V(0.5, 0.8), max_amplitude=V(3.0, 8.0), num_gaussian=V(2, 3))
GSO = dict(l0=V(2, 5), nt=V(2, 3), rho=V(0.2, 0.4), gamma=V(0.6, 1.0), beta=V(0.08, 0.5), s=V(0.3, 0.8))
ES = dict(k=V(1, 2, 3, 5), c_a=V(1.5, 2.0), c_r=V(0.3, 0.6))
# population sizes, iterations, parameters; 'start': the library draws the initial population itself; 'more': fixed parameters
TABLE = {
    'ParticleSwarmAlgorithm': dict(pop=(3, 5), p=dict(PSO, min_velocity=V(-1.5, -0.7), max_velocity=V(0.6, 2.0))),
    'ParticleSwarmOptimization': dict(pop=(3, 5), p={k: PSO[k] for k in ('c1', 'c2')}),
    'CenterParticleSwarmOptimization': dict(pop=(3, 5), p=PSO),
    'MutatedParticleSwarmOptimization': dict(pop=(3, 5), p=dict(PSO, num_mutations=V(1, 2))),
    'MutatedCenterParticleSwarmOptimization': dict(pop=(3, 5), p=dict(PSO, num_mutations=V(1, 2))),
    'MutatedCenterUnifiedParticleSwarmOptimization': dict(pop=(3, 5), p=dict(PSO, num_mutations=V(1, 2))),
    'BatAlgorithm': dict(pop=(3, 6), p=BAT),
    'HybridBatAlgorithm': dict(pop=(6, 7), p=dict(BAT, **DE)),
    'AdaptiveBatAlgorithm': dict(pop=(3, 6), p=dict(starting_loudness=V(0.5, 0.8), epsilon=V(0.1, 0.5), alpha=V(0.5, 0.9), pulse_rate=V(0.3, 0.5, 0.7),
                                                     min_frequency=V(0.0, 0.5), max_frequency=V(1.0, 2.0))),
    'ParameterFreeBatAlgorithm': dict(pop=(80, 80), iters=(1, 2), p={}, calls=160, stride=7, costly=True),
    'FireflyAlgorithm': dict(pop=(3, 4), p=dict(alpha=V(0.3, 0.8), beta0=V(0.5, 1.0), gamma=V(0.01, 0.1), theta=V(0.6, 0.9))),
    'FlowerPollinationAlgorithm': dict(pop=(3, 6), p=dict(p=V(0.3, 0.5, 0.7))),
    'CuckooSearch': dict(pop=(3, 6), p=dict(pa=V(0.25, 0.5, 0.75))),
    'GreyWolfOptimizer': dict(pop=(4, 6), p={}, evals=True),
    'ArtificialBeeColonyAlgorithm': dict(pop=(4, 10), p=dict(limit=V(1, 2, 4)), start=True),
    'BeesAlgorithm': dict(pop=(5, 7), p=dict(m=V(3, 4), e=V(1, 2), ngh=V(0.5, 1.5), nep=V(2, 3), nsp=V(1, 2))),
    'HarrisHawksOptimization': dict(pop=(3, 5), p=dict(levy=V(0.01, 0.5)), iters=(2, 6), quick=10, runs=3, where=['first far', 'first far', 'first best', 'anywhere']),
    'CatSwarmOptimization': dict(pop=(4, 6), p=dict(mixture_ratio=V(0.3, 0.5, 0.7), c1=V(1.0, 2.05), smp=V(2, 3), spc=V(False, True), cdc=V(0.6, 0.85), srd=V(0.2, 0.5),
                                                    max_velocity=V(0.7, 1.9))),
    'FishSchoolSearch': dict(pop=(3, 6), p=dict(step_individual_init=V(0.1, 0.3), step_individual_final=V(0.001, 0.05), step_volitive_init=V(0.1, 0.4), step_volitive_final=V(0.01, 0.05),
                                                min_w=V(1.0), w_scale=V(4.0, 50.0)), start=True),
    'BacterialForagingOptimization': dict(pop=(4, 6), p=dict(n_chemotactic=V(1, 2), n_swim=V(1, 2), n_reproduction=V(1, 2), prob_elimination=V(0.3, 0.6), step_size=V(0.3, 1.0), swarming=V(False, True)),
                                          even=True),
    'CamelAlgorithm': dict(pop=(3, 6), p=dict(burden_factor=V(0.25, 0.8), death_rate=V(0.3, 0.5, 0.8), visibility=V(0.3, 0.7), supply_init=V(5.0, 10.0), endurance_init=V(5.0, 10.0)), extra='camel'),
    'ForestOptimizationAlgorithm': dict(pop=(4, 6), p=dict(lifetime=V(1, 2), area_limit=V(4, 5), transfer_rate=V(0.4, 0.8), local_seeding_changes=V(1, 2), global_seeding_changes=V(1, 2)), dim=2),
    'GravitationalSearchAlgorithm': dict(pop=(3, 5), p=dict(g0=V(1.0, 2.467, 5.0))),
    'HarmonySearch': dict(pop=(3, 5), p=dict(r_accept=V(0.6, 0.8), r_pa=V(0.2, 0.4), b_range=V(0.5, 1.42)), iters=(4, 9)),
    'HarmonySearchV1': dict(pop=(3, 5), p=dict(r_accept=V(0.6, 0.8), r_pa=V(0.2, 0.4), bw_min=V(0.2, 0.5), bw_max=V(1.0, 2.0)), iters=(4, 9)),
    'BareBonesFireworksAlgorithm': dict(pop=(1, 1), fixed=True, p=dict(num_sparks=V(2, 4), amplification_coefficient=V(1.2, 1.5), reduction_coefficient=V(0.5, 0.8))),
    'FireworksAlgorithm': dict(pop=(3, 4), p=FWA, calls=50, costly=True),
    'EnhancedFireworksAlgorithm': dict(pop=(3, 4), p=dict(FWA, amplitude_init=V(0.5, 1.0), amplitude_final=V(0.05, 0.1)), evals=12, calls=50, costly=True),
    'DynamicFireworksAlgorithm': dict(pop=(3, 4), p=dict(FWA, amplification_coeff=V(1.2, 1.5), reduction_coeff=V(0.6, 0.9)), calls=50, costly=True),
    'DynamicFireworksAlgorithmGauss': dict(pop=(3, 4), p=dict(FWA, amplification_coeff=V(1.2, 1.5), reduction_coeff=V(0.6, 0.9)), calls=50, costly=True),
    'GlowwormSwarmOptimization': dict(pop=(4, 6), p=GSO),
    'GlowwormSwarmOptimizationV1': dict(pop=(4, 6), p=GSO),
    'GlowwormSwarmOptimizationV2': dict(pop=(4, 6), p=dict(GSO, alpha=V(0.2, 1.0))),
    'GlowwormSwarmOptimizationV3': dict(pop=(4, 6), p=dict(GSO, beta1=V(0.2, 0.4))),
    'MantisSearchAlgorithm': dict(pop=(4, 7), p=dict(k_value=V(0.1, 0.3), use_reflection=V(False, True), normalize_space=V(False, True))),
    'AnarchicSocietyOptimization': dict(pop=(4, 6), p=dict(alpha=V(0.5, 0.9), gamma=V(0.3, 1.17), theta=V(0.3, 0.932), nl=V(0.3, 1.0), f=V(0.6, 1.2), cr=V(0.25, 0.6), combination=V('@elitism', '@sequential', '@crossover'))),
    'ClonalSelectionAlgorithm': dict(pop=(5, 8), p=dict(clone_factor=V(0.25, 0.4), mutation_factor=V(0.02, 0.1), num_rand=V(1, 2), bits_per_param=V(6, 10)), start=True),
    'OppositionVelocityClampingParticleSwarmOptimization': dict(pop=(3, 5), p=dict(p0=V(0.3, 0.6), w_min=V(0.2, 0.4), w_max=V(0.6, 0.9), sigma=V(0.1, 0.3), c1=PSO['c1'], c2=PSO['c2']), iters=(3, 4)),
    'DifferentialEvolution': dict(pop=(6, 7), p=DE),
    'DynNpDifferentialEvolution': dict(pop=(12, 13), iters=(2, 4), evals=True, p=dict(DE, p_max=V(2, 50), rp=V(1, 2)), calls=50),
    'AgingNpDifferentialEvolution': dict(pop=(9, 10), iters=(2, 4), p=dict(DE, strategy=V('@cross_rand1', '@cross_best1', '@cross_curr2best1'), min_lifetime=V(1, 2), max_lifetime=V(3, 6), omega=V(0.3, 0.7),
                                                                           age=V('@proportional', '@linear', '@bilinear'))),
    'MultiStrategyDifferentialEvolution': dict(pop=(6, 7), p=MSDE),
    'DynNpMultiStrategyDifferentialEvolution': dict(pop=(12, 12), iters=(2, 3), evals=3, p=dict(MSDE, p_max=V(2, 50), rp=V(1, 2)), calls=60),
    'MultipleTrajectorySearch': dict(pop=(2, 3), iters=(1, 2), p=dict(MTS, num_searches_best=V(0, 1), local_searches=Some(V('@mts_ls1', '@mts_ls2', '@mts_ls3', '@mts_ls1v1'), 1, 3)), calls=40),
    'MultipleTrajectorySearchV1': dict(pop=(2, 3), iters=(1, 2), p=MTS, calls=40),
    'DifferentialEvolutionMTS': dict(pop=(6, 6), iters=(1, 2), p=dict(MTS, **DE, local_searches=Some(V('@mts_ls1', '@mts_ls2', '@mts_ls3'), 1, 2)), calls=60, costly=True),
    'DifferentialEvolutionMTSv1': dict(pop=(6, 6), iters=(1, 1), p=dict(MTS, **DE), calls=60, costly=True, runs=0.4),
    'DynNpDifferentialEvolutionMTS': dict(pop=(12, 12), iters=(2, 2), p=dict(MTS, **DE, p_max=V(5000), rp=V(0, 1), local_searches=Some(V('@mts_ls1', '@mts_ls2'), 1, 1)), calls=80, costly=True),
    'MultiStrategyDifferentialEvolutionMTS': dict(pop=(6, 6), iters=(1, 2), p=dict(MTS, **MSDE, local_searches=Some(V('@mts_ls1', '@mts_ls2', '@mts_ls3'), 1, 2)), calls=60, costly=True),
    'SuccessHistoryAdaptiveDifferentialEvolution': dict(pop=(6, 8), p=dict(extern_arc_rate=V(0.5, 1.0, 2.0), pbest_factor=V(0.3, 0.5), hist_mem_size=V(1, 2)), iters=(2, 4)),
    'DynNpDifferentialEvolutionMTSv1': dict(pop=(12, 12), iters=(1, 1), p=dict(MTS, **DE, p_max=V(5000), rp=V(0, 1)), calls=60, costly=True, quick=1, runs=0.4),
    'MultiStrategyDifferentialEvolutionMTSv1': dict(pop=(6, 6), iters=(1, 1), p=dict(MTS, **MSDE), calls=60, costly=True, quick=1, runs=0.4),
    'DynNpMultiStrategyDifferentialEvolutionMTS': dict(pop=(12, 12), iters=(2, 2), p=dict(MTS, **MSDE, p_max=V(5000), rp=V(0, 1), local_searches=Some(V('@mts_ls1', '@mts_ls2'), 1, 1)), calls=80, costly=True),
    'DynNpMultiStrategyDifferentialEvolutionMTSv1': dict(pop=(12, 12), iters=(1, 1), p=dict(MTS, **MSDE, p_max=V(5000), rp=V(0, 1)), calls=60, costly=True, quick=1, runs=0.4),
    'LpsrSuccessHistoryAdaptiveDifferentialEvolution': dict(pop=(8, 10), p=dict(extern_arc_rate=V(0.5, 1.0, 2.0), pbest_factor=V(0.3, 0.5), hist_mem_size=V(1, 2)), iters=(2, 4), evals=True),
    'ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution': dict(pop=(8, 10), p=dict(extern_arc_rate=V(0.5, 1.0, 2.0), pbest_start=V(0.13, 0.5, 0.6), pbest_end=V(0.05, 0.2, 0.3), hist_mem_size=V(1, 2, 3)), iters=(2, 5), evals=True),
    'GeneticAlgorithm': dict(pop=(4, 6), p=dict(tournament_size=V(2, 3), mutation_rate=V(0.1, 0.25), crossover_rate=V(0.25, 0.5), selection=V('@tournament_selection', '@roulette_selection'),
                                                crossover=V('@uniform_crossover', '@two_point_crossover', '@crossover_uros'),
                                                mutation=V('@uniform_mutation', '@creep_mutation', '@mutation_uros'))),
    'EvolutionStrategy1p1': dict(pop=(1, 1), fixed=True, p=ES, start=True, iters=(6, 12)),
    'EvolutionStrategyMp1': dict(pop=(1, 1), fixed=True, p=dict(ES, mu=V(2, 4)), start=True, iters=(4, 8)),
    'EvolutionStrategyMpL': dict(pop='mu', p=dict(ES, mu=V(3, 4), lam=V(3, 5)), start=True, iters=(3, 6)),
    'EvolutionStrategyML': dict(pop='mu', p=dict(mu=V(2, 3), lam=V(4, 5)), start=True),
    'MonkeyKingEvolutionV1': dict(pop=(4, 5), p=MKE),
    'MonkeyKingEvolutionV2': dict(pop=(4, 5), p=MKE),
    'MonkeyKingEvolutionV3': dict(pop=(4, 6), p={k: MKE[k] for k in ('c', 'fc')}),
    'HillClimbAlgorithm': dict(pop=(1, 1), fixed=True, p=dict(delta=V(0.5, 1.5)), start=True),
    'SimulatedAnnealing': dict(pop=(1, 1), fixed=True, p=dict(delta=V(1.0, 3.0), starting_temperature=V(0.3, 1.0, 3.0), delta_temperature=V(0.05, 0.2), cooling_method=V('@cool_delta', '@cool_linear')),
                               start=True, iters=(6, 12), evals=True),
    'RandomSearch': dict(pop=(1, 1), fixed=True, p={}, start=True, iters=(3, 6)),
    'SelfAdaptiveDifferentialEvolution': dict(pop=(6, 7), p=dict(f_lower=V(0.1, 0.3), f_upper=V(0.8, 1.0), tao1=V(0.3, 0.7), tao2=V(0.3, 0.7), strategy=V(*algs.DE_STRATS))),
    'MultiStrategySelfAdaptiveDifferentialEvolution': dict(pop=(6, 7), p=MSDE),
    'SelfAdaptiveBatAlgorithm': dict(pop=(3, 6), p=SABAT),
    'HybridSelfAdaptiveBatAlgorithm': dict(pop=(6, 7), p=dict(SABAT, **DE)),
    'SineCosineAlgorithm': dict(pop=(3, 5), iters=(2, 5), p=dict(a=V(1.5, 3.0), r_min=V(0.0, 0.5), r_max=V(1.5, 2.0))),
    'MothFlameOptimizer': dict(pop=(4, 6), iters=(2, 4), p={}),
    'MonarchButterflyOptimization': dict(pop=(7, 9), p=dict(partition=V(0.35, 5 / 12, 0.55), period=V(0.8, 1.2, 1.6))),
    'KrillHerd': dict(pop=(4, 6), iters=(2, 4), p=dict(n_max=V(0.01, 0.05), foraging_speed=V(0.02, 0.05), diffusion_speed=V(0.002, 0.03), c_t=V(0.5, 0.93), w_neighbor=V(0.2, 0.42), w_foraging=V(0.3, 0.6),
                                                       max_neighbors=V(1, 2), crossover_rate=V(0.2, 0.6), mutation_rate=V(0.05, 0.3))),
    'CoralReefsOptimization': dict(pop=(5, 6), iters=(1, 2), p=dict(phi=V(0.4, 1.5), asexual_reproduction_prob=V(0.4, 0.6), broadcast_prob=V(0.4, 0.7), depredation_prob=V(0.2, 0.4), k=V(1, 2),
                                                                    crossover_rate=V(0.3, 0.6), mutation_rate=V(0.2, 0.36)), calls=80, costly=True),
    'ComprehensiveLearningParticleSwarmOptimizer': dict(pop=(3, 5), iters=(2, 4), p=dict(w0=V(0.7, 0.9), w1=V(0.2, 0.4), c=V(1.2, 1.49445), m=V(1, 2), c1=V(1.0, 2.0), c2=V(1.5, 2.0), min_velocity=V(-1.5, -0.7), max_velocity=V(0.6, 2.0))),
    'LionOptimizationAlgorithm': dict(pop=(10, 14), iters=(1, 1), p=dict(nomad_ratio=V(0.2, 0.3), num_of_prides=V(1, 2), female_ratio=V(0.6, 0.8), roaming_factor=V(0.2, 0.4), mating_factor=V(0.3, 0.6),
                                                                       mutation_factor=V(0.2, 0.5)), calls=45),
    'NelderMeadMethod': dict(pop=(4, 6), p=dict(alpha=V(0.5, 1.0), gamma=V(1.5, 2.0), rho=V(-0.5, -0.3), sigma=V(0.5, 0.7)), iters=(8, 14), exact=True),
}


@st.composite
def cases(draw, name):
    # one drawn number decides all: ten cases per optimizer are too few for a generator that starts with the simplest ones
    ent, r = TABLE[name], random.Random(draw(st.integers(0, 2 ** 40)))
    one, num = lambda *a: r.choice(a), lambda a: r.randint(*a)
    d = one(2, 2, 3) if 'dim' not in ent else r.randint(ent['dim'], 3)
    params = {k: s.pick(r) for k, s in sorted(ent['p'].items())}
    n = params['mu'] if ent['pop'] == 'mu' else num(ent['pop'])
    if ent.get('even'):
        n += n % 2
    it = ent.get('iters', (2, 3))
    lower = [one(-5.0, -2.0, 0.0, -3.3) for _ in range(d)]
    return dict(alg=name, params=params, n=n, iters=num(it), lower=lower, upper=[a + one(4.0, 6.5, 10.0) for a in lower],
                c=[one(0.3, 0.45, 0.62, 0.8) for _ in range(d)], w=[one(1.0, 3.0) for _ in range(d)], b=one(*[0.3, 2.0] if params.get('age') == '@proportional' else [0.3, 2.0, -1.5]), wave=one(0.0, 0.4),
                fix=one('clip', 'wrap'), where=one(*ent.get('where', ['anywhere'] * 3 + ['first far', 'last far', 'first best', 'last best'])), slack=one(0, 3, 20), late=one(0, 4, 40), pseed=r.randrange(2 ** 31))


def objective(case):
    lo, up, c, w = (np.array(case[k]) for k in ('lower', 'upper', 'c', 'w'))

    def f(x):
        u = (np.asarray(x, float) - lo) / (up - lo) - c
        return float(case['b'] + 4 * (w * u * u).sum() + case['wave'] * (1 + math.sin(9 * u[0] + 5 * u[-1])))
    return f


FIX = {'clip': lambda x, lower, upper, rng=None, **kw: np.minimum(np.maximum(x, lower), upper),
       'wrap': lambda x, lower, upper, rng=None, **kw: np.where((x < lower) | (x > upper), lower + np.mod(x - lower, upper - lower), x)}


def budget(case):
    """(iterations, evaluations) of the budget and of it used up before: the evaluations never end the run, but some rules use them."""
    late, k = case.get('late', 0), TABLE[case['alg']].get('evals', 0)
    if k:
        return case['iters'] + late, case['n'] * ((case['iters'] + late) * k + 1) + 1 + case['slack'], late, case['n'] * late * k
    return case['iters'] + late, 100000, late, 0


def start(case):
    lo, up = np.array(case['lower']), np.array(case['upper'])
    u = np.random.default_rng(case['pseed']).random((case['n'], len(lo)))
    if case['where'] != 'anywhere':     # all but one point near the best place or in a corner
        k = 0 if case['where'].startswith('first') else case['n'] - 1
        u = np.array(case['c']) + 0.1 * (u - 0.5) if case['where'].endswith('far') else 0.02 + 0.2 * u
        u[k] = 0.97 if case['where'].endswith('far') else case['c']
    return lo + u * (up - lo)


def library(case, seeds):
    from niapy.problems import Problem
    from niapy.task import Task
    from niapy.util.array import objects_to_array
    f, ent, cls, out = objective(case), TABLE[case['alg']], algs.classes()[case['alg']], []

    class Recorded(Problem):
        def _evaluate(self, x):
            self.calls.append(np.array(x, float))
            return f(x)

    def init(task, population_size, rng, individual_type=None, **kw):
        x = start(case)
        if individual_type is None:
            return x, np.array([task.eval(v) for v in x])
        more = {k: case['params'][k] for k in ('endurance_init', 'supply_init')} if ent.get('extra') else {}
        pop = objects_to_array([individual_type(x=v.copy(), task=task, rng=rng, e=True, **more) for v in x])
        return pop, np.array([q.f for q in pop])

    kw = algs.resolve_params(case['params'])
    if not ent.get('fixed') and ent['pop'] != 'mu' and case['alg'] != 'ParameterFreeBatAlgorithm':
        kw['population_size'] = case['n']
    if not ent.get('start'):
        kw['initialization_function'] = init
    if 'ParticleSwarm' in case['alg']:
        kw['repair'] = FIX['clip']
    iters, evals, t0, n0 = budget(case)
    for s in seeds:
        p = Recorded(len(case['lower']), list(case['lower']), list(case['upper']))
        p.calls = []
        task = Task(p, max_iters=iters, max_evals=evals, repair_function=FIX[case['fix']])
        task.iters, task.evals = t0, n0
        cls(seed=int(s), **kw).run(task)
        out.append(p.calls)
    return out


def reference(case, seeds):
    f, ent, out = objective(case), TABLE[case['alg']], []
    iters, evals, t0, n0 = budget(case)
    x0 = start(case)
    for s in seeds:
        r = np.random.default_rng([int(s), 7])
        e = Env(f, case['lower'], case['upper'], iters, evals, FIX[case['fix']], (t0, n0))
        x = np.array([e.uniform(r) for _ in range(case['n'])]) if ent.get('start') else x0.copy()
        v = np.array([e.f(q) for q in x])
        MODELS[case['alg']](e, x, v, case['params'], r)
        out.append(e.calls)
    return out


def features(case, runs):
    """{name: one value per run}, with NaN where a run has no such call."""
    d, n, ent = len(case['lower']), case['n'], TABLE[case['alg']]
    lo, up, c, w = (np.array(case[k]) for k in ('lower', 'upper', 'c', 'w'))
    values = lambda x: 4 * (w * ((x - lo) / (up - lo) - c) ** 2).sum(axis=-1)
    k = min(ent.get('calls', 60), max(len(c) for c in runs))
    a = np.full((len(runs), k, d), np.nan)
    for i, r in enumerate(runs):
        a[i, :min(k, len(r))] = np.array(r)[:k].reshape(-1, d)
    b = values(a)
    all_v = [values(np.array(r)) for r in runs]
    out = {'number of evaluations': np.array([float(len(r)) for r in runs]),
           'best value': np.array([v.min() for v in all_v]), 'mean value of the last %d' % n: np.array([v[-n:].mean() for v in all_v])}
    means = np.array([np.mean(np.array(r)[n:], axis=0) if len(r) > n else np.full(d, np.nan) for r in runs])
    for j in range(d):
        out['mean of coordinate %d, all evaluations' % j] = means[:, j]
        out['coordinate %d, last evaluation' % j] = np.array([r[-1][j] for r in runs])
    for q in range(0 if ent.get('start') else n, k, ent.get('stride', 1)):
        at = ', evaluation %d' % (q + 1)
        for j in range(d):
            out['coordinate %d' % j + at] = a[:, q, j]
            if ent.get('start') and q >= n:
                out['coordinate %d minus the one %d evaluations before' % (j, n) + at] = a[:, q, j] - a[:, q - n, j]
        out['x0 + x1' + at] = a[:, q, 0] + a[:, q, 1]
        out['x0 - x1' + at] = a[:, q, 0] - a[:, q, 1]
        out['value' + at] = b[:, q]
        if q:
            out['x0 minus x0 one evaluation before' + at] = a[:, q, 0] - a[:, q - 1, 0]
        if q >= n > 1:
            out['x1 minus x1 %d evaluations before' % n + at] = a[:, q, 1] - a[:, q - n, 1]
            out['distance to the point %d evaluations before' % n + at] = np.sqrt(((a[:, q] - a[:, q - n]) ** 2).sum(axis=1))
        if q >= 2 * n > 2:
            out['distance to the point %d evaluations before' % (2 * n) + at] = np.sqrt(((a[:, q] - a[:, q - 2 * n]) ** 2).sum(axis=1))
    return {key: np.floor(v * 1e7 + 0.1234) for key, v in out.items()}


def distance(u, v):
    u, v = np.sort(u[~np.isnan(u)]), np.sort(v[~np.isnan(v)])
    if len(u) < 20 or len(v) < 20:
        return 0.0, 1.0
    z = np.concatenate([u, v])
    dist = float(np.max(np.abs(np.searchsorted(u, z, 'right') / len(u) - np.searchsorted(v, z, 'right') / len(v))))
    return dist, min(1.0, 2 * math.exp(-2 * dist * dist * len(u) * len(v) / (len(u) + len(v))))


def check(case):
    if case['alg'] not in algs.classes():
        return {'nontrivial': False}
    g = np.random.default_rng([case['pseed'], 1])
    draw = lambda k: g.integers(2 ** 31, size=k)
    first = int(400 * TABLE[case['alg']].get('runs', 1))
    runs = library(case, draw(first))
    names = None
    for stage, (n, m, p_max) in enumerate([(first, 2 * first, 1e-3), (max(1000, first), 2000, 1e-3), (3000, 6000, 1e-4), (12000, 24000, 1e-9)]):
        a = features(case, runs if stage == 0 else library(case, draw(n)))
        b = features(case, reference(case, draw(m)))
        test = {k: distance(a[k], b[k]) for k in (names or a) if k in a and k in b}
        names = sorted((k for k in test if test[k][1] < p_max), key=lambda k: test[k][1])[:12]
        if not names:
            break
        k = names[0]
        if stage < 2 or test[k][1] >= 1e-9:
            continue
        u, v = a[k][~np.isnan(a[k])] / 1e7, b[k][~np.isnan(b[k])] / 1e7
        raise Violation('%s, %d iterations%s: "%s" over %d runs has quartiles %s, the update rule gives %s (largest difference of the distribution functions %.3f)' % (
            case['alg'], case['iters'], ' after %d' % case['late'] if case.get('late') else '', k, len(u), np.round(np.quantile(u, [.05, .25, .5, .75, .95]), 4).tolist(), np.round(np.quantile(v, [.05, .25, .5, .75, .95]), 4).tolist(), test[k][0]))
    spread = len({tuple(np.round(c[-1], 9)) for c in runs}) > 1
    return {'nontrivial': (spread or TABLE[case['alg']].get('exact', False)) and max(map(len, runs)) > case['n'], 'second stage': stage > 0, 'third stage': stage > 1, 'wrap': case['fix'] == 'wrap', 'late': bool(case.get('late'))}


def targets(tier):
    return [Target(n, (lambda n=n: cases(n)), check, quick=TABLE[n].get('quick', 4 if TABLE[n].get('costly') else 10), thorough=60, cpu=300) for n in TABLE if n in algs.classes()]
