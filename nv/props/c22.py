"""C22: initial populations and custom individuals."""
import numpy as np
from hypothesis import strategies as st

from nv import algs, core, objectives
from nv.engine import Skip, Target, Violation

ID = 'C22'
RULE = ('targets NAME: one case = algorithm x parameters x problem x user-supplied initial population (explicit points, ties and points on the bounds '
        'included) of the size asked for; the state before the first iteration is compared with it; targets start: the points evaluated by the default '
        'initialisation over five seeds, compared with the uniform distribution; targets type: runs with a subclass of the individual type; '
        'non-trivial = at least two members in at least two dimensions or a budget beyond the initialisation, distinct by the whole case')

# classes that document no initialisation function: they reject it, ignore it (single solution) or derive the start in another way
NO_INIT = {'ArtificialBeeColonyAlgorithm', 'EvolutionStrategy1p1', 'EvolutionStrategyMp1', 'EvolutionStrategyMpL', 'EvolutionStrategyML', 'FishSchoolSearch',
           'OppositionVelocityClampingParticleSwarmOptimization', 'ClonalSelectionAlgorithm', 'HillClimbAlgorithm', 'SimulatedAnnealing', 'RandomSearch',
           'NelderMeadMethod'}
FIXED = {'ParameterFreeBatAlgorithm': 80, 'BareBonesFireworksAlgorithm': 1}
TYPED = ['DifferentialEvolution', 'DynNpDifferentialEvolution', 'MultiStrategyDifferentialEvolution', 'DynNpMultiStrategyDifferentialEvolution', 'GeneticAlgorithm',
         'MonkeyKingEvolutionV1', 'MonkeyKingEvolutionV2', 'LionOptimizationAlgorithm', 'DifferentialEvolutionMTS', 'MultiStrategyDifferentialEvolutionMTS',
         'SelfAdaptiveDifferentialEvolution', 'MultiStrategySelfAdaptiveDifferentialEvolution', 'SuccessHistoryAdaptiveDifferentialEvolution',
         'LpsrSuccessHistoryAdaptiveDifferentialEvolution', 'ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution']


@st.composite
def init_cases(draw, name):
    spec = draw(core.run_cases(name, max_evals=150, max_iters=3, max_dim=5))
    spec['task']['cutoff'] = None
    spec['where'] = draw(st.sampled_from(['uniform', 'uniform', 'corner', 'grid', 'bounds']))
    spec['pseed'] = draw(st.integers(0, 2 ** 31))
    spec['late'] = draw(st.booleans())
    return spec


def points(case, n):
    g = np.random.default_rng(case['pseed'])
    lo, up = np.array(case['prob']['lower'], dtype=float), np.array(case['prob']['upper'], dtype=float)
    d = len(lo)
    w = case['where']
    if w == 'corner':  # a small part of the box
        u = 0.9 + 0.05 * g.random((n, d))
    elif w == 'grid':  # ties
        u = g.integers(0, 4, (n, d)) / 4 + 0.1
    elif w == 'bounds':
        u = g.integers(0, 2, (n, d)).astype(float)
    else:
        u = g.random((n, d))
    return np.clip(lo + u * (up - lo), lo, up)


def check_init(case):
    from niapy.util.array import objects_to_array
    calls = []

    def init(task, population_size, rng, individual_type=None, **kw):
        x = points(case, population_size)
        if individual_type is not None:
            more = dict(endurance_init=10, supply_init=10) if case['alg'] == 'CamelAlgorithm' else {}
            pop = objects_to_array([individual_type(x=v.copy(), task=task, rng=rng, e=True, **more) for v in x])
            fit = np.array([p.f for p in pop])
        else:
            pop, fit = x.copy(), np.array([task.eval(v) for v in x])
        calls.append(dict(n=population_size, rng=rng, task=task, x=x, fit=fit.copy(), evals=task.evals))
        return pop, fit

    tr = core.Trace()
    tr.case = case
    tr.prob = objectives.recording_problem(case['prob'])
    tr.task = core.make_task(tr.prob, case['task'])
    if case.get('late'):  # handed over after the construction
        alg = core.construct(case, callbacks=[core.recorder(tr)])
        alg.set_parameters(**algs.resolve_params(case['params']), initialization_function=init)
    else:
        alg = core.construct(case, initialization_function=init, callbacks=[core.recorder(tr)])
    try:
        tr.x, tr.f = alg.run(tr.task)
    except (Violation, Skip):
        raise
    except Exception as e:
        tr.exc = e
        core.crashed(tr, 'the run with a user-supplied population')
    want = case['params'].get('population_size', FIXED.get(case['alg']))
    if len(calls) != 1:
        raise Violation('the initialisation function was called %d times' % len(calls))
    c = calls[0]
    if c['n'] != want or c['task'] is not tr.task or c['rng'] is not alg.rng:
        raise Violation('the initialisation function was asked for %r members (population_size=%r), own task %s, own generator %s' %
                        (c['n'], want, c['task'] is tr.task, c['rng'] is alg.rng))
    lab = core.labels(case, tr)
    first = next((e for e in tr.events if e['k'] == 'bi'), None)
    if first is None:
        lab['nontrivial'] = False
        return lab
    d = case['prob']['dim']
    if first['evals'] != want:
        raise Violation('%d evaluations before the first iteration, the supplied population has %d members' % (first['evals'], want))
    pop, fit = first['pop'].reshape(-1, d), first['fit']
    if len(pop) != want or len(fit) != want:
        raise Violation('the first iteration starts with %d members, supplied were %d' % (len(pop), want))
    rows = sorted([tuple(a) + (b,) for a, b in zip((pop + 0.0).tolist(), fit.tolist())])
    given = sorted([tuple(a) + (b,) for a, b in zip((c['x'] + 0.0).tolist(), c['fit'].tolist())])
    if rows != given:
        raise Violation('the first iteration starts from %s, supplied was %s' % (rows[:3], given[:3]))
    if first['bf'] != min(c['fit']) or not any(np.array_equal(first['bx'], a) for a, b in zip(c['x'], c['fit']) if b == first['bf']):
        raise Violation('the first iteration starts with best %r at %s, best of the supplied population is %r' % (first['bf'], first['bx'], min(c['fit'])))
    lab['nontrivial'] = want >= 2 or len(tr.prob.points) > want
    lab['start ' + case['where']] = 1
    lab['initialisation function set after the construction'] = bool(case.get('late'))
    return lab


@st.composite
def start_cases(draw, name):
    dim = draw(st.integers(max(2, algs.table(name).get('dim', 1)), 6))
    return dict(name=name, seed=draw(st.integers(0, 2 ** 31)), prob=draw(core.problem_specs(min_dim=dim, max_dim=dim)))


def check_start(c):
    u = []
    ent = algs.table(c['name'])
    size = dict(population_size=50) if ent.get('pop') else {}
    k = 0
    while len(u) < 200:
        prob = objectives.recording_problem(c['prob'])
        task = core.make_task(prob, dict(opt='min', repair='limit', max_evals=100000, max_iters=10))
        algs.classes()[c['name']](seed=c['seed'] + k, **size).init_population(task)
        if not prob.points:
            raise Violation('the initialisation evaluated nothing')
        if size and len(prob.points) < 50:
            raise Violation('population_size=50, but only %d points were evaluated' % len(prob.points))
        lo, up = np.array(c['prob']['lower'], dtype=float), np.array(c['prob']['upper'], dtype=float)
        u += [(p - lo) / (up - lo) for p in prob.points]
        k += 1
        if k > 60 and len(u) < 200:
            break
    u = np.array(u)
    n = len(u)
    for j in range(u.shape[1]):
        s = np.sort(u[:, j])
        ks = max(np.max(np.abs(s - np.arange(1, n + 1) / n)), np.max(np.abs(s - np.arange(n) / n)))
        if ks * np.sqrt(n) > 3.3:  # probability below 1e-9
            raise Violation('component %d of the initial population is not uniform over the box (Kolmogorov-Smirnov statistic %.2f, %d points)' % (j, ks * np.sqrt(n), n))
    if n >= 150 and u.shape[1] >= 2 and c['name'] not in NOT_INDEPENDENT:
        r = np.corrcoef(u.T)
        off = np.abs(r - np.eye(len(r))).max()
        if off > 7 / np.sqrt(n):
            raise Violation('components of the initial population are correlated (%.2f)' % off)
        if len({tuple(row) for row in u}) < n and c['name'] != 'ClonalSelectionAlgorithm':
            raise Violation('the initial population contains equal members')
    return {'nontrivial': True}


NOT_INDEPENDENT = {'OppositionVelocityClampingParticleSwarmOptimization'}  # evaluates every point and its mirror image


@st.composite
def type_cases(draw):
    return draw(core.run_cases(draw(st.sampled_from(TYPED)), max_evals=150, max_iters=4, max_dim=4))


def check_type(case):
    from niapy.callbacks import Callback
    base = core.construct(case).individual_type
    seen = []

    class Mine(base):
        pass

    class Look(Callback):
        def before_iteration(self, population, fitness, best_x, best_fitness, **k):
            seen.append([type(p) for p in population])

        after_iteration = before_iteration
    plain = core.execute(case)
    core.crashed(plain)
    tr = core.Trace()
    tr.prob = objectives.recording_problem(case['prob'])
    tr.task = core.make_task(tr.prob, case['task'])
    try:
        tr.x, tr.f = core.construct(case, individual_type=Mine, callbacks=[Look()]).run(tr.task)
    except Exception as e:
        tr.exc = e
        core.crashed(tr, 'the run with a custom individual type')
    for k, types in enumerate(seen):
        if any(t is not Mine for t in types):
            raise Violation('event %d: the population holds %s instead of the custom individual type' % (k + 1, sorted({t.__name__ for t in types})))
    if not core.same_points(plain.prob.points, tr.prob.points):
        raise Violation('an empty subclass of the individual type changes the run: ' + core.first_difference(plain.prob.points, tr.prob.points))
    return {'nontrivial': len(seen) >= 2, 'type ' + case['alg']: 1}


def targets(tier):
    names = [n for n in algs.classes() if n in algs.T]
    return ([Target(n, (lambda n=n: init_cases(n)), check_init, quick=24, thorough=1200) for n in names if n not in NO_INIT] +
            [Target('start-' + n, (lambda n=n: start_cases(n)), check_start, quick=3, thorough=150) for n in names] +
            [Target('type-%d' % k, type_cases, check_type, quick=50, thorough=2500) for k in range(4)])
