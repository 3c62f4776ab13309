"""The optimizers under test: for each exported algorithm class the valid ranges of its parameters.

Functions are written '@name' (resolved over the algorithm modules).  Only parameter values inside the documented domain are
generated; `pop` is the (min, max) population size used by quick cases, `dim` the smallest supported dimension.
"""
import inspect

from hypothesis import strategies as st


def classes():
    """Every exported algorithm class of the current tree (new ones are picked up with default parameters)."""
    from niapy.algorithms import basic, modified, other
    out = {}
    for m in (basic, modified, other):
        for n in m.__all__:
            c = getattr(m, n)
            if inspect.isclass(c) and c not in out.values():
                out[n] = c
    return out


def F(a, b):
    return st.one_of(st.floats(a, b, allow_nan=False).map(lambda v: round(v, 4)), st.sampled_from([float(a), float(b)]))


def I(a, b):
    return st.integers(a, b)


U = F(0.0, 1.0)
BOOL = st.booleans()
DE_STRATS = ['@cross_rand1', '@cross_best1', '@cross_rand2', '@cross_best2', '@cross_curr2rand1', '@cross_curr2best1']
DE = dict(differential_weight=F(0.1, 2.0), crossover_probability=U, strategy=st.sampled_from(DE_STRATS))
STRATS = dict(strategies=st.lists(st.sampled_from(DE_STRATS), min_size=1, max_size=4, unique=True))
DYN = dict(p_max=I(2, 20), rp=I(0, 6))
MTSP = dict(num_tests=I(1, 4), num_searches=I(1, 4), num_searches_best=I(1, 4), num_enabled=I(1, 12), bonus1=F(0, 10), bonus2=F(0, 3))
MTSL = dict(local_searches=st.lists(st.sampled_from(['@mts_ls1', '@mts_ls2', '@mts_ls3', '@mts_ls1v1', '@mts_ls3v1']), min_size=1, max_size=4))
BAT = dict(loudness=F(0.1, 1.5), pulse_rate=U, alpha=F(0.5, 1), gamma=F(0, 1), min_frequency=F(0, 1), max_frequency=F(1, 3))
ABAT = dict(starting_loudness=U, epsilon=F(0.0001, 0.1), alpha=st.one_of(F(0.5, 1), st.sampled_from([0.03, 0.1])), pulse_rate=U, min_frequency=F(0, 1), max_frequency=F(1, 3))
SABAT = dict(ABAT, min_loudness=F(0.1, 0.9), max_loudness=F(0.9, 1.5), min_pulse_rate=F(0, 0.1), max_pulse_rate=F(0.1, 1), tao_1=U, tao_2=U)
ES = dict(k=st.one_of(I(1, 12), st.sampled_from([5, 10])), c_a=F(1.01, 2), c_r=F(0.3, 0.99))
GSO = dict(l0=F(1, 8), nt=I(1, 8), rho=U, gamma=U, beta=U, s=F(0.001, 0.5))
FWA = dict(num_sparks=I(2, 30), a=F(0.01, 0.3), b=F(0.4, 0.95), max_amplitude=F(1, 60), num_gaussian=I(0, 6))
EFWA = dict(FWA, amplitude_init=F(0.1, 0.5), amplitude_final=F(0.001, 0.1))
DFWA = dict(EFWA, amplification_coeff=F(1.01, 2), reduction_coeff=F(0.3, 0.99))
PSO = dict(c1=F(0, 3), c2=F(0, 3), w=U, min_velocity=F(-3, -0.1), max_velocity=F(0.1, 3),
           repair=st.sampled_from(['@reflect', '@limit', '@wang', '@rand', '@limit_inverse']))
PSOV = {k: PSO[k] for k in ('c1', 'c2', 'repair')}
PSOW = {k: PSO[k] for k in ('c1', 'c2', 'w', 'repair')}
SHADE = dict(extern_arc_rate=F(0, 3), pbest_factor=F(0.05, 0.5), hist_mem_size=I(1, 8))

T = {
    'BatAlgorithm': dict(pop=(1, 30), p=BAT),
    'FireflyAlgorithm': dict(pop=(1, 20), p=dict(alpha=U, beta0=F(0, 2), gamma=F(0, 1), theta=F(0.5, 1))),
    'DifferentialEvolution': dict(pop=(6, 30), p=DE),
    'AgingNpDifferentialEvolution': dict(pop=(6, 30), p=dict(DE, min_lifetime=I(0, 4), max_lifetime=I(5, 15), delta_np=F(0, 0.6), omega=U,
                                                              age=st.sampled_from(['@proportional', '@linear', '@bilinear']))),
    'DynNpDifferentialEvolution': dict(pop=(6, 30), p=dict(DE, **DYN)),
    'MultiStrategyDifferentialEvolution': dict(pop=(6, 30), p=dict({k: DE[k] for k in ('differential_weight', 'crossover_probability')}, **STRATS)),
    'DynNpMultiStrategyDifferentialEvolution': dict(pop=(6, 30), p=dict({k: DE[k] for k in ('differential_weight', 'crossover_probability')}, **STRATS, **DYN)),
    'FlowerPollinationAlgorithm': dict(pop=(2, 30), p=dict(p=U)),
    'GreyWolfOptimizer': dict(pop=(3, 30), p={}),
    'CatSwarmOptimization': dict(pop=(1, 30), p=dict(mixture_ratio=U, c1=F(0, 3), smp=I(2, 5), spc=BOOL, cdc=U, srd=F(0, 0.6), max_velocity=F(0.1, 3))),
    'GeneticAlgorithm': dict(pop=(1, 30), p=dict(tournament_size=I(1, 8), mutation_rate=U, crossover_rate=U,
                                                  selection=st.sampled_from(['@tournament_selection', '@roulette_selection']),
                                                  crossover=st.sampled_from(['@uniform_crossover', '@two_point_crossover', '@crossover_uros']),
                                                  mutation=st.sampled_from(['@uniform_mutation', '@creep_mutation', '@mutation_uros']))),
    'ArtificialBeeColonyAlgorithm': dict(pop=(2, 30), p=dict(limit=I(1, 20))),
    'ParticleSwarmAlgorithm': dict(pop=(1, 30), p=PSO),
    'BareBonesFireworksAlgorithm': dict(pop=None, p=dict(num_sparks=I(1, 20), amplification_coefficient=F(1, 2), reduction_coefficient=F(0.1, 1))),
    'CamelAlgorithm': dict(pop=(1, 30), p=dict(burden_factor=U, death_rate=U, visibility=U, supply_init=F(1, 20), endurance_init=F(1, 20))),
    'MonkeyKingEvolutionV1': dict(pop=(2, 25), p=dict(fluctuation_coeff=F(0.1, 1), population_rate=F(0.1, 1), c=I(1, 4), fc=F(0.1, 1))),
    'MonkeyKingEvolutionV2': dict(pop=(3, 25), p=dict(fluctuation_coeff=F(0.1, 1), population_rate=F(0.1, 1), c=I(1, 4), fc=F(0.1, 1))),
    'MonkeyKingEvolutionV3': dict(pop=(3, 25), p=dict(fluctuation_coeff=F(0.1, 1), population_rate=F(0.1, 1), c=I(1, 4), fc=F(0.1, 1))),
    'EvolutionStrategy1p1': dict(pop=None, p=ES),
    'EvolutionStrategyMp1': dict(pop=None, p=dict(ES, mu=I(1, 20))),
    'EvolutionStrategyMpL': dict(pop=None, p=dict(ES, mu=I(2, 15), lam=I(1, 20))),
    'EvolutionStrategyML': dict(pop=None, p=dict(ES, mu=I(2, 15), lam=I(15, 25))),
    'SineCosineAlgorithm': dict(pop=(1, 30), p=dict(a=F(1, 4), r_min=F(0, 1), r_max=F(1, 3))),
    'GlowwormSwarmOptimization': dict(pop=(1, 25), p=GSO),
    'GlowwormSwarmOptimizationV1': dict(pop=(1, 25), p=GSO),
    'GlowwormSwarmOptimizationV2': dict(pop=(1, 25), p=dict(GSO, alpha=U)),
    'GlowwormSwarmOptimizationV3': dict(pop=(1, 25), p=dict(GSO, beta1=U)),
    'HarmonySearch': dict(pop=(1, 30), p=dict(r_accept=U, r_pa=U, b_range=F(0.01, 3))),
    'HarmonySearchV1': dict(pop=(1, 30), p=dict(r_accept=U, r_pa=U, bw_min=F(0.1, 1), bw_max=F(1, 3))),
    'KrillHerd': dict(pop=(1, 25), p=dict(n_max=F(0, 0.1), foraging_speed=F(0, 0.1), diffusion_speed=F(0, 0.01), c_t=F(0.1, 1.9), w_neighbor=U,
                                          w_foraging=U, d_s=F(0.5, 5), max_neighbors=I(1, 8), crossover_rate=U, mutation_rate=U)),
    'LionOptimizationAlgorithm': dict(pop=(3, 50), p=dict(nomad_ratio=U, num_of_prides=I(1, 6), female_ratio=U, roaming_factor=U,
                                                           mating_factor=U, mutation_factor=U, immigration_factor=U)),
    'FireworksAlgorithm': dict(pop=(1, 8), p=FWA),
    'EnhancedFireworksAlgorithm': dict(pop=(1, 8), p=EFWA),
    'DynamicFireworksAlgorithm': dict(pop=(1, 8), p=DFWA),
    'DynamicFireworksAlgorithmGauss': dict(pop=(1, 8), p=DFWA),
    'GravitationalSearchAlgorithm': dict(pop=(1, 25), p=dict(g0=F(0.1, 10))),
    'MothFlameOptimizer': dict(pop=(1, 30), p={}),
    'MantisSearchAlgorithm': dict(pop=(1, 30), p=dict(k_value=F(0, 1), use_reflection=BOOL, normalize_space=BOOL)),
    'FishSchoolSearch': dict(pop=(1, 25), p=dict(step_individual_init=F(0.01, 0.5), step_individual_final=F(0.0001, 0.01), step_volitive_init=F(0.01, 0.1),
                                                 step_volitive_final=F(0.0001, 0.01), min_w=F(0.1, 2), w_scale=st.one_of(F(4, 12), F(10, 1000)))),
    'CuckooSearch': dict(pop=(1, 30), p=dict(pa=U)),
    'CoralReefsOptimization': dict(pop=(2, 14), p=dict(phi=F(0.1, 0.6), asexual_reproduction_prob=U, broadcast_prob=U, depredation_prob=U,
                                                       k=I(1, 6), crossover_rate=U, mutation_rate=U), iters=3),
    'ForestOptimizationAlgorithm': dict(pop=(2, 20), p=dict(lifetime=I(1, 4), area_limit=I(2, 15), transfer_rate=U, local_seeding_changes=I(1, 3), global_seeding_changes=I(1, 3))),
    'MonarchButterflyOptimization': dict(pop=(4, 30), p=dict(partition=F(0.1, 0.7), period=F(0.5, 2))),
    'BeesAlgorithm': dict(pop=(6, 30), p=dict(m=I(2, 5), e=I(1, 2), ngh=F(0.1, 2), nep=I(1, 5), nsp=I(1, 3))),
    'ParticleSwarmOptimization': dict(pop=(1, 30), p={k: PSO[k] for k in ('c1', 'c2', 'repair')}),
    'MutatedParticleSwarmOptimization': dict(pop=(1, 25), p=dict(PSOW, num_mutations=I(1, 5))),
    'MutatedCenterUnifiedParticleSwarmOptimization': dict(pop=(1, 25), p=dict(PSOW, num_mutations=I(1, 5))),
    'MutatedCenterParticleSwarmOptimization': dict(pop=(1, 25), p=dict(PSOW, num_mutations=I(1, 5))),
    'OppositionVelocityClampingParticleSwarmOptimization': dict(pop=(1, 25), p=dict(PSOV, p0=U, w_min=F(0.1, 0.4), w_max=F(0.5, 1), sigma=F(0.05, 0.5))),
    'ComprehensiveLearningParticleSwarmOptimizer': dict(pop=(2, 25), p=dict(m=I(1, 12), w0=F(0.5, 1), w1=F(0.1, 0.5), c=F(0.5, 2))),
    'CenterParticleSwarmOptimization': dict(pop=(1, 25), p=PSOW),
    'HarrisHawksOptimization': dict(pop=(1, 25), p=dict(levy=F(0.001, 1))),
    'BacterialForagingOptimization': dict(pop=(1, 16), p=dict(n_chemotactic=I(1, 10), n_swim=I(1, 4), n_reproduction=I(1, 4), n_elimination=I(1, 3),
                                                              prob_elimination=U, step_size=F(0.01, 2), swarming=BOOL)),
    'ClonalSelectionAlgorithm': dict(pop=(2, 15), p=dict(clone_factor=F(0.1, 1), mutation_factor=F(0.5, 20), num_rand=I(0, 3), bits_per_param=I(2, 20))),
    'HybridBatAlgorithm': dict(pop=(6, 30), p=dict(BAT, **DE)),
    'DifferentialEvolutionMTS': dict(pop=(6, 12), p=dict(DE, **MTSP, **MTSL)),
    'DifferentialEvolutionMTSv1': dict(pop=(6, 12), p=dict(DE, **MTSP)),
    'DynNpDifferentialEvolutionMTS': dict(pop=(6, 12), p=dict(DE, **MTSP, **MTSL, **DYN)),
    'DynNpDifferentialEvolutionMTSv1': dict(pop=(6, 12), p=dict(DE, **MTSP, **DYN)),
    'MultiStrategyDifferentialEvolutionMTS': dict(pop=(6, 12), p=dict(MTSP, **STRATS)),
    'MultiStrategyDifferentialEvolutionMTSv1': dict(pop=(6, 12), p=dict(MTSP, **STRATS)),
    'DynNpMultiStrategyDifferentialEvolutionMTS': dict(pop=(6, 12), p=dict(MTSP, **STRATS, **DYN)),
    'DynNpMultiStrategyDifferentialEvolutionMTSv1': dict(pop=(6, 12), p=dict(MTSP, **STRATS, **DYN)),
    'SelfAdaptiveDifferentialEvolution': dict(pop=(6, 30), p=dict(f_lower=F(0, 0.5), f_upper=F(0.5, 2), tao1=U, tao2=U, **DE)),
    'MultiStrategySelfAdaptiveDifferentialEvolution': dict(pop=(6, 30), p=dict(f_lower=F(0, 0.5), f_upper=F(0.5, 2), tao1=U, tao2=U, **STRATS)),
    'AdaptiveBatAlgorithm': dict(pop=(1, 30), p=ABAT),
    'SelfAdaptiveBatAlgorithm': dict(pop=(1, 30), p=SABAT),
    'HybridSelfAdaptiveBatAlgorithm': dict(pop=(6, 30), p=dict(SABAT, **DE)),
    'ParameterFreeBatAlgorithm': dict(pop=None, p={}),
    'SuccessHistoryAdaptiveDifferentialEvolution': dict(pop=(6, 40), p=SHADE),
    'LpsrSuccessHistoryAdaptiveDifferentialEvolution': dict(pop=(6, 40), p=SHADE),
    'ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution': dict(pop=(6, 40), p=dict(extern_arc_rate=F(0, 3), pbest_start=F(0.2, 0.5), pbest_end=F(0.05, 0.2), hist_mem_size=I(2, 8))),
    'NelderMeadMethod': dict(pop=None, p=dict(population_size=st.one_of(st.none(), I(2, 20)), alpha=F(0.05, 1), gamma=F(0.1, 2), rho=F(-0.5, -0.1), sigma=F(-0.5, 0.5))),
    'HillClimbAlgorithm': dict(pop=None, p=dict(delta=F(0.01, 2))),
    'SimulatedAnnealing': dict(pop=None, p=dict(delta=F(0.01, 2), starting_temperature=F(10, 3000), delta_temperature=F(0.1, 5), cooling_method=st.sampled_from(['@cool_delta', '@cool_linear']))),
    'MultipleTrajectorySearch': dict(pop=(1, 10), p=dict(MTSP, **MTSL)),
    'MultipleTrajectorySearchV1': dict(pop=(1, 10), p={k: v for k, v in MTSP.items() if k != 'num_searches_best'}),
    'AnarchicSocietyOptimization': dict(pop=(2, 25), dim=2, p=dict(nl=F(0.1, 2), f=F(0.2, 2), cr=U, combination=st.sampled_from(['@elitism', '@sequential', '@crossover']))),
    'RandomSearch': dict(pop=None, p={}, finite=True),
}


def table(name):
    return T.get(name, dict(pop=None, p={}))


_FN = {}


def functions():
    if not _FN:
        import niapy.algorithms.basic.de as de
        import niapy.algorithms.basic.ga as ga
        import niapy.algorithms.other.aso as aso
        import niapy.algorithms.other.mts as mts
        import niapy.algorithms.other.sa as sa
        import niapy.util.repair as rep
        for m in (aso, sa, rep, mts, ga, de):
            _FN.update({k: v for k, v in vars(m).items() if inspect.isfunction(v)})
    return _FN


def resolve(v):
    if isinstance(v, str) and v.startswith('@'):
        return functions()[v[1:]]
    if isinstance(v, (list, tuple)):
        return tuple(resolve(x) for x in v)
    return v


def resolve_params(params):
    return {k: resolve(v) for k, v in params.items()}
