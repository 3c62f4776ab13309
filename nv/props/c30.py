"""C30: the units of the variables do not matter."""
import copy

import numpy as np
from hypothesis import strategies as st

from nv import algs, core, objectives
from nv.engine import Target, Violation

ID = 'C30'
RULE = ('one case = algorithm class x parameters x problem x budgets x repair x seed, run on f over the box and on x -> f(x / s) over the box times s, s one power '
        'of two per coordinate (one for all where the algorithm uses lengths across coordinates): the points differ exactly by the factor s, values and counts are equal; '
        'non-trivial = at least one full iteration and s is not 1, distinct by the whole case')
ASSUMPTIONS = ['powers of two make the scaling exact in floating point', 'only algorithms without absolute lengths among their parameters']

EACH = {'AgingNpDifferentialEvolution', 'ArtificialBeeColonyAlgorithm', 'BareBonesFireworksAlgorithm', 'CamelAlgorithm', 'CenterParticleSwarmOptimization', 'ClonalSelectionAlgorithm',
        'CuckooSearch', 'DifferentialEvolution', 'DynNpDifferentialEvolution', 'DynNpMultiStrategyDifferentialEvolution', 'FlowerPollinationAlgorithm', 'ForestOptimizationAlgorithm',
        'GeneticAlgorithm', 'GreyWolfOptimizer', 'HybridBatAlgorithm', 'HybridSelfAdaptiveBatAlgorithm', 'ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution',
        'LpsrSuccessHistoryAdaptiveDifferentialEvolution', 'MonkeyKingEvolutionV1', 'MonkeyKingEvolutionV2', 'MonkeyKingEvolutionV3', 'MothFlameOptimizer',
        'MultiStrategyDifferentialEvolution', 'MultiStrategySelfAdaptiveDifferentialEvolution', 'NelderMeadMethod', 'OppositionVelocityClampingParticleSwarmOptimization',
        'ParticleSwarmOptimization', 'RandomSearch', 'SelfAdaptiveDifferentialEvolution', 'SineCosineAlgorithm', 'SuccessHistoryAdaptiveDifferentialEvolution'}
JOINT = {'MantisSearchAlgorithm', 'MutatedParticleSwarmOptimization', 'MutatedCenterParticleSwarmOptimization', 'MutatedCenterUnifiedParticleSwarmOptimization'}


@st.composite
def cases(draw, name):
    c = draw(core.run_cases(name, mode=draw(st.sampled_from(['evals', 'evals', 'iters', 'both'])), max_evals=200, max_iters=8,
                            kinds=['noise', 'noise', 'sphere', 'rastrigin', 'linear', 'abs', 'prod', 'step', 'rosen'], max_dim=5))
    c['task']['cutoff'] = None
    d = c['prob']['dim']
    k = st.sampled_from([-6, -2, -1, 1, 2, 5])
    c['s'] = draw(st.lists(k, min_size=d, max_size=d)) if name in EACH else [draw(k)] * d
    return c


def check(case):
    a = core.execute(case)
    core.crashed(a)
    s = 2.0 ** np.array(case['s'], dtype=float)
    other = copy.deepcopy(case)
    for k in ('lower', 'upper'):
        other['prob'][k] = (np.array(case['prob'][k]) * s).tolist()
    prob = objectives.recording_problem(other['prob'])
    fun = objectives.make(case['prob']['f'], case['prob']['lower'], case['prob']['upper'])
    prob.fun = lambda x: fun(np.asarray(x) / s)
    b = core.execute(other, prob=prob)
    core.crashed(b, 'the run in other units')
    back = [p / s for p in b.prob.points]
    if not core.same_points(a.prob.points, back):
        raise Violation('with coordinates in units 2**%s the run differs: %s' % (case['s'], core.first_difference(a.prob.points, back)))
    if (a.task.evals, a.task.iters, a.f) != (b.task.evals, b.task.iters, b.f) or not np.array_equal(a.x, b.x / s):
        raise Violation('%d evaluations, %d iterations, result (%s, %r) against %d, %d, (%s, %r) in units 2**%s' % (
            a.task.evals, a.task.iters, a.x, a.f, b.task.evals, b.task.iters, b.x / s, b.f, case['s']))
    lab = core.labels(case, a)
    lab['different units'] = len(set(case['s'])) > 1
    return lab


def targets(tier):
    return [Target(n, (lambda n=n: cases(n)), check, quick=100, thorough=5000) for n in sorted(EACH | JOINT) if n in algs.classes()]
