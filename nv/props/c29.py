"""C29: the unit of the objective does not matter."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from nv import algs, core, objectives
from nv.engine import Target, Violation

ID = 'C29'
RULE = ('one case = algorithm class x parameters x problem x budgets x repair x seed, run with the objective f and with g(f), g a multiplication by a power of '
        'two or (comparison-based algorithms) an uneven strictly increasing map of the grid the values lie on: equal points, equal counts, mapped result; '
        'non-trivial = at least one full iteration and two different objective values, distinct by the whole case')
ASSUMPTIONS = ['powers of two make the scaling exact in floating point; the increasing map acts on values rounded down to a grid']

# rules of these use absolute objective values (luciferin, amplitudes, probabilities 1 / (f + 0.01), temperatures, fixed bonuses, health, affinity)
ABSOLUTE = {'AnarchicSocietyOptimization', 'ArtificialBeeColonyAlgorithm', 'BacterialForagingOptimization', 'ClonalSelectionAlgorithm', 'DifferentialEvolutionMTS',
            'DynNpDifferentialEvolutionMTS', 'DynNpMultiStrategyDifferentialEvolutionMTS', 'MultiStrategyDifferentialEvolutionMTS', 'MultipleTrajectorySearch',
            'DynamicFireworksAlgorithm', 'DynamicFireworksAlgorithmGauss', 'EnhancedFireworksAlgorithm', 'FireworksAlgorithm', 'GlowwormSwarmOptimization',
            'GlowwormSwarmOptimizationV1', 'GlowwormSwarmOptimizationV2', 'GlowwormSwarmOptimizationV3', 'KrillHerd', 'SimulatedAnnealing'}
# these only compare objective values
RANK = {'AdaptiveBatAlgorithm', 'BareBonesFireworksAlgorithm', 'BatAlgorithm', 'BeesAlgorithm', 'CenterParticleSwarmOptimization', 'ComprehensiveLearningParticleSwarmOptimizer',
        'CuckooSearch', 'DifferentialEvolution', 'DifferentialEvolutionMTSv1', 'DynNpDifferentialEvolution', 'DynNpDifferentialEvolutionMTSv1',
        'DynNpMultiStrategyDifferentialEvolution', 'DynNpMultiStrategyDifferentialEvolutionMTSv1', 'MultiStrategyDifferentialEvolution', 'MultiStrategyDifferentialEvolutionMTSv1',
        'SelfAdaptiveDifferentialEvolution', 'MultiStrategySelfAdaptiveDifferentialEvolution', 'EvolutionStrategy1p1', 'EvolutionStrategyML', 'EvolutionStrategyMp1',
        'EvolutionStrategyMpL', 'FireflyAlgorithm', 'FlowerPollinationAlgorithm', 'ForestOptimizationAlgorithm', 'GreyWolfOptimizer', 'HarmonySearch', 'HarmonySearchV1',
        'HarrisHawksOptimization', 'HillClimbAlgorithm', 'HybridBatAlgorithm', 'HybridSelfAdaptiveBatAlgorithm', 'MantisSearchAlgorithm', 'MonarchButterflyOptimization',
        'MonkeyKingEvolutionV1', 'MonkeyKingEvolutionV2', 'MonkeyKingEvolutionV3', 'MothFlameOptimizer', 'MultipleTrajectorySearchV1', 'MutatedParticleSwarmOptimization',
        'MutatedCenterParticleSwarmOptimization', 'MutatedCenterUnifiedParticleSwarmOptimization', 'NelderMeadMethod', 'OppositionVelocityClampingParticleSwarmOptimization',
        'ParameterFreeBatAlgorithm', 'ParticleSwarmAlgorithm', 'ParticleSwarmOptimization', 'RandomSearch', 'SelfAdaptiveBatAlgorithm', 'SineCosineAlgorithm'}


def grid(v):
    return math.floor(v * 2.0 ** 20)


def uneven(v):
    n = grid(v)
    return 2 * n + 1000 * (n // 2 ** 14) + 17


@st.composite
def cases(draw, name):
    c = draw(core.run_cases(name, mode=draw(st.sampled_from(['evals', 'evals', 'iters', 'both'])), max_evals=200, max_iters=8,
                            kinds=['noise', 'noise', 'sphere', 'rastrigin', 'linear', 'abs', 'prod', 'step', 'rosen'], max_dim=5))
    c['prob']['f'].update(s=1.0, b=draw(st.sampled_from([0.0, 0.0, -1.0, 3.0, -0.4])), ret='py')
    big = [] if name == 'LionOptimizationAlgorithm' else [30, 90]  # its cubs start from "their value plus one", which has no effect on huge values
    c['map'] = draw(st.sampled_from([-120, -60, -40, -14, -5, -1, 1, 7] + big + (['uneven'] * 5 if name in RANK else [])))
    return c


def check(case):
    how = case['map']
    g0, g1 = (grid, uneven) if how == 'uneven' else (float, lambda v: float(v) * 2.0 ** how)
    runs = []
    for g in (g0, g1):
        prob = objectives.recording_problem(case['prob'])
        base = prob.fun
        prob.fun = lambda x, base=base, g=g: float(g(float(base(x))))
        runs.append(core.execute(case, prob=prob))
        core.crashed(runs[-1])
    a, b = runs
    if not core.same_points(a.prob.points, b.prob.points):
        raise Violation('the run on g(f) leaves the run on f (g: %s): %s' % (how, core.first_difference(a.prob.points, b.prob.points)))
    if (a.task.evals, a.task.iters) != (b.task.evals, b.task.iters):
        raise Violation('%d evaluations and %d iterations on f, %d and %d on g(f)' % (a.task.evals, a.task.iters, b.task.evals, b.task.iters))
    if not np.array_equal(a.x, b.x) or how != 'uneven' and b.f != a.f * 2.0 ** how:
        raise Violation('the run on f returns (%s, %r), on g(f) (%s, %r), g: %s' % (a.x, a.f, b.x, b.f, how))
    lab = core.labels(case, a)
    lab.update({'uneven': how == 'uneven', 'scaled': how != 'uneven', 'nontrivial': a.task.iters >= 1 and len(set(a.prob.values)) > 1})
    return lab


def targets(tier):
    return [Target(n, (lambda n=n: cases(n)), check, quick=60, thorough=2500) for n in algs.classes() if n not in ABSOLUTE]
