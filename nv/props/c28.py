"""C28: a larger budget only continues the run; stopping criteria and logging do not change its course."""
import copy

import numpy as np
from hypothesis import strategies as st

from nv import algs, core
from nv.engine import Skip, Target, Violation

ID = 'C28'
RULE = ('one case = algorithm class x parameters x problem x seed, run under a small budget (evaluations, iterations or both; several of them) and under a larger one, or with and '
        'without a target value, or with and without logging: the points of the shorter run must be the first points of the longer one; non-trivial = the '
        'shorter run did one full iteration and the longer run evaluated more points (logging: one full iteration), distinct by the whole case')
ASSUMPTIONS = ['algorithms whose documented schedule refers to the budget are compared under a larger budget of the other kind only']

# the documented schedule of these refers to the total number of evaluations / iterations
BY_EVALS = {'DynNpDifferentialEvolution', 'DynNpMultiStrategyDifferentialEvolution', 'DynNpDifferentialEvolutionMTS', 'DynNpDifferentialEvolutionMTSv1',
            'DynNpMultiStrategyDifferentialEvolutionMTS', 'DynNpMultiStrategyDifferentialEvolutionMTSv1', 'EnhancedFireworksAlgorithm', 'GreyWolfOptimizer',
            'LpsrSuccessHistoryAdaptiveDifferentialEvolution', 'ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution', 'SimulatedAnnealing'}
BY_ITERS = {'CamelAlgorithm', 'ComprehensiveLearningParticleSwarmOptimizer', 'FishSchoolSearch', 'HarmonySearchV1', 'HarrisHawksOptimization', 'KrillHerd',
            'MothFlameOptimizer', 'OppositionVelocityClampingParticleSwarmOptimization', 'SineCosineAlgorithm'}


@st.composite
def cases(draw, name):
    c = draw(core.run_cases(name, mode='evals', max_evals=160, max_dim=5, wild=True))
    t = c['task']
    t.update(cutoff=None, max_iters=None)
    how = ['target', 'log']
    if name not in BY_EVALS:
        how += ['evals'] * 3
    if name not in BY_ITERS and not algs.table(name).get('iters'):
        how += ['iters'] * 2
    how = c['how'] = draw(st.sampled_from(how))
    if how == 'evals':
        c['more'] = draw(st.one_of(st.integers(1, 4), st.integers(1, 200)))
        c['less'] = draw(st.lists(st.one_of(st.integers(1, 12), st.integers(1, t['max_evals'])), max_size=8, unique=True))
        if draw(st.booleans()):
            t['max_iters'] = draw(st.integers(1, 30))
    elif how == 'iters':
        if draw(st.booleans()):
            t['max_evals'] = None
        t['max_iters'] = draw(st.integers(1, 6))
        c['more'] = draw(st.integers(1, 6))
        if t['max_evals'] is None and draw(st.integers(0, 3)) == 0:
            c['more'] += 8
        c['less'] = list(range(1, t['max_iters'] + c['more']))
    elif how == 'target':
        c['more'] = draw(st.floats(0, 1).map(lambda v: round(v, 3)))
    if how in ('target', 'log') and algs.table(name).get('iters') is None and draw(st.integers(0, 3)) == 0:
        t['max_iters'] = draw(st.integers(2, 12))
    return c


def check(case):
    how = case['how']
    longer = copy.deepcopy(case)
    if how in ('evals', 'iters'):
        longer['task']['max_' + how] += case['more']
    if how == 'log':
        longer['task']['log'] = not case['task']['log']
    b = core.execute(longer)
    core.crashed(b, 'the longer run')
    pb, vb = b.prob.points, [float(v) for v in b.prob.values]
    if how == 'target':
        k = int(case['more'] * (len(pb) - 1))
        best = min(vb[:k + 1]) if case['task']['opt'] == 'min' else max(vb[:k + 1])
        if not np.isfinite(best):
            raise Skip('no finite value to reach')
        first = vb.index(best)
        from nv import objectives
        prob = objectives.recording_problem(case['prob'])
        task = core.make_task(prob, case['task'])
        task.cutoff_value = best
        a = core.execute(case, prob=prob, task=task)
        core.crashed(a, 'the run with a target')
        if len(a.prob.points) != first + 1:
            raise Violation('with the target %r, which evaluation %d of the run without target reaches first, %d evaluations are made' % (best, first + 1, len(a.prob.points)))
    else:
        a = core.execute(case)
        core.crashed(a, 'the shorter run')
    pa = a.prob.points
    runs = [a]
    for k in case.get('less', ()):
        fewer = copy.deepcopy(case)
        fewer['task']['max_' + how] = k if how == 'iters' else case['task']['max_evals'] - k
        if k < longer['task']['max_' + how] and fewer['task']['max_' + how] > 0:
            runs.append(core.execute(fewer))
            core.crashed(runs[-1], 'the run with max_%s = %d' % (how, fewer['task']['max_' + how]))
    for r in runs:
        p = r.prob.points
        if len(p) > len(pb) or not core.same_points(p, pb[:len(p)]):
            raise Violation('%s: the shorter run (%d evaluations) is not the beginning of the longer one (%d evaluations): %s' % (
                how, len(p), len(pb), core.first_difference(p, pb[:len(p)])))
        if how != 'log' and (b.f - r.f) * r.sign > 0:
            raise Violation('the longer run returns %r, worse than %r of the shorter one' % (b.f, r.f))
    if how == 'log':
        if len(pa) != len(pb) or a.f != b.f or not np.array_equal(a.x, b.x):
            raise Violation('logging changes the run: (%s, %r) after %d evaluations, (%s, %r) after %d' % (a.x, a.f, len(pa), b.x, b.f, len(pb)))
    lab = core.labels(case, a)
    lab[how] = 1
    lab['several budgets'] = len(runs) > 2
    lab['nontrivial'] = a.task.iters >= 1 and (how == 'log' or len(pb) > len(pa))
    return lab


def targets(tier):
    return [Target(n, (lambda n=n: cases(n)), check, quick=30, thorough=1500) for n in algs.classes()]
