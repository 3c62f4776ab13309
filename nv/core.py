"""Cases (plain data) -> executions of the real library -> traces."""
import numpy as np
from hypothesis import strategies as st

from nv import algs, objectives
from nv.engine import CaseTimeout, Skip, Violation

REPAIRS = ['limit', 'limit_inverse', 'wang', 'rand', 'reflect']
F_KINDS = ['sphere', 'sphere', 'rastrigin', 'linear', 'const', 'step', 'abs', 'rosen', 'prod', 'noise', 'noise']


# ---------------------------------------------------------------- generators

@st.composite
def objective_specs(draw, kinds=None):
    spec = dict(kind=draw(st.sampled_from(kinds or F_KINDS)))
    spec['c'] = draw(st.one_of(st.just([0.5]), st.lists(st.sampled_from([0.0, 0.1, 0.37, 0.5, 0.83, 1.0, 1.4, -0.3]), min_size=1, max_size=3)))
    spec['b'] = draw(st.sampled_from([0.0, 0.0, -5.0, 3.0, 1000.0, -1e6]))
    spec['s'] = draw(st.sampled_from([1.0, 1.0, 1.0, 100.0, 1e-6, 1e6]))
    spec['ret'] = draw(st.sampled_from(['np', 'py', 'np', 'py', 'int']))
    return spec


_LOW = [-5.0, -100.0, 0.0, 1.0, -0.3, -10.0, 2.5, -1e-3]
_WID = [10.0, 200.0, 1.0, 0.5, 6.4, 20.0, 1e-3, 1e4]


@st.composite
def problem_specs(draw, min_dim=1, max_dim=8, kinds=None, sanebox=False):
    dim = draw(st.one_of(st.integers(min_dim, max_dim), st.integers(min_dim, min(max_dim, max(3, min_dim)))))
    shape = draw(st.sampled_from(['same', 'vector', 'vector']))
    wid = _WID[:6] if sanebox else _WID
    if shape == 'same':
        lo, w = draw(st.sampled_from(_LOW)), draw(st.sampled_from(wid))
        lower, upper = [lo] * dim, [round(lo + w, 9)] * dim
    else:
        lower = draw(st.lists(st.sampled_from(_LOW), min_size=dim, max_size=dim))
        ws = draw(st.lists(st.sampled_from(wid), min_size=dim, max_size=dim))
        upper = [round(a + b, 9) for a, b in zip(lower, ws)]
    return dict(dim=dim, lower=lower, upper=upper, bk=draw(st.sampled_from(['list', 'array', 'scalar'])),
                f=draw(objective_specs(kinds)))


@st.composite
def task_specs(draw, mode=None, max_evals=260, max_iters=14, finite_evals=False):
    modes = ['evals', 'evals', 'iters', 'both', 'tight', 'cutoff']
    mode = mode or draw(st.sampled_from(modes))
    t = dict(opt=draw(st.sampled_from(['min', 'max'])), repair=draw(st.sampled_from(REPAIRS)), max_evals=None, max_iters=None, cutoff=None,
             log=draw(st.sampled_from([False, False, False, True])))
    if mode == 'tight':
        t['max_evals'] = draw(st.integers(1, 60))
    elif mode == 'evals':
        t['max_evals'] = draw(st.integers(20, max_evals))
    elif mode == 'iters':
        t['max_iters'] = draw(st.integers(1, max_iters))
    elif mode == 'both':
        t['max_evals'] = draw(st.integers(1, max_evals))
        t['max_iters'] = draw(st.integers(1, max_iters))
    elif mode == 'cutoff':
        # a quantile of the objective over a fixed sample of the box: reachable, but not at once
        t['max_evals'] = draw(st.integers(20, max_evals))
        t['cutoff'] = draw(st.sampled_from([0.5, 0.2, 0.05, 0.0]))
    if mode in ('long', 'many'):
        t['max_evals'] = draw(st.integers(800, 2500))
    if mode == 'many':
        t['max_iters'] = draw(st.integers(30, 250))
    return t


@st.composite
def alg_specs(draw, name, defaults_ok=True):
    ent = algs.table(name)
    params = {}
    if ent.get('pop'):
        lo, hi = ent['pop']
        params['population_size'] = draw(st.one_of(st.integers(lo, hi), st.integers(lo, min(hi, lo + 4)), st.integers(lo, max(lo, min(hi, 12)))))
    p = ent['p']
    if p:
        how = draw(st.sampled_from(['default', 'some', 'all']))
        keys = sorted(p) if how == 'all' else [] if how == 'default' else draw(st.lists(st.sampled_from(sorted(p)), unique=True, max_size=3))
        for k in sorted(keys):
            params[k] = draw(p[k])
    _fix(name, params)
    return dict(alg=name, params=params, seed=draw(st.integers(0, 2 ** 16)))


def _fix(name, params):
    """Cross-parameter preconditions stated by the documentation of the classes."""
    if name == 'BeesAlgorithm':  # m, e subsets of the population; e <= m
        params.pop('m', None) if params['population_size'] < params.get('m', 5) else None
        params['e'] = min(params.get('e', 1), params.get('m', 5))
    if name == 'EvolutionStrategyML':
        params['mu'] = params.get('mu', 5)
        params['lam'] = max(params.get('lam', 20), params['mu'])
    if name in ('EvolutionStrategyMpL',):
        params['mu'] = params.get('mu', 5)
    if name == 'LionOptimizationAlgorithm':
        params.setdefault('num_of_prides', 3)
    if name == 'GeneticAlgorithm':  # the tournament is drawn without replacement
        params['tournament_size'] = min(params.get('tournament_size', 5), params['population_size'])
    if 'Fireworks' in name and name != 'BareBonesFireworksAlgorithm':  # Gaussian sparks are drawn from the sparks without replacement
        params['num_gaussian'] = min(params.get('num_gaussian', 5), params['population_size'])
    if name == 'ClonalSelectionAlgorithm':  # at least the best individual is cloned
        params['clone_factor'] = max(params.get('clone_factor', 0.1), round(1.01 / params['population_size'], 3))
    if name == 'ForestOptimizationAlgorithm':
        params.setdefault('local_seeding_changes', 1)
        params.setdefault('global_seeding_changes', 1)


BIG = [''] * 18 + ['long', 'large']


@st.composite
def run_cases(draw, name, mode=None, kinds=None, max_dim=8, max_evals=260, max_iters=14, sanebox=False, wild=False):
    # wild: also what users do beyond the bundled problems and repair functions - repair functions that return new
    # arrays, objectives that return numpy.float32 or a 0-d array, infinite values in a forbidden region -, and now and
    # then a run that is long, or a problem that is large, with the default size of the population
    ent = algs.table(name)
    spec = draw(alg_specs(name))
    big = draw(st.sampled_from(BIG)) if wild and mode in (None, 'evals') else ''
    if big == 'large':
        max_evals, max_dim, mode = 1500, 40, mode or draw(st.sampled_from(['evals', 'evals', 'both', 'cutoff']))
        if draw(st.booleans()):
            spec['params'].pop('population_size', None)
    elif big == 'long':
        max_evals, mode = 2500, draw(st.sampled_from(['many', 'long'])) if mode is None else 'long'
    spec['prob'] = draw(problem_specs(min_dim=10 if big == 'large' else ent.get('dim', 1), max_dim=max_dim, kinds=kinds, sanebox=sanebox))
    spec['task'] = draw(task_specs(mode=mode, max_evals=max_evals, max_iters=max_iters))
    if wild:
        w = draw(st.sampled_from(['', '', '', '', '', 'copy', 'copy', 'f32', '0d', 'pen', 'pen', 'pen+copy']))
        if 'copy' in w:
            spec['task']['copy'] = True
        if w in ('f32', '0d'):
            spec['prob']['f']['ret'] = w
        if 'pen' in w and spec['task']['cutoff'] is None:
            spec['prob']['f']['pen'] = dict(j=draw(st.integers(0, 7)), at=draw(st.sampled_from([0.5, 0.2, 0.8, 0.95, 0.02])), side=draw(st.sampled_from([1, -1])),
                                            sign=1 if spec['task']['opt'] == 'min' else -1)
    if spec['task']['cutoff'] is not None and draw(st.sampled_from([False, False, True])):
        spec['prob']['f']['zero'] = dict(q=spec['task']['cutoff'], opt=spec['task']['opt'])
    return clamp(spec)


def clamp(spec):
    name, ent, t = spec['alg'], algs.table(spec['alg']), spec['task']
    if ent.get('iters') and t['max_iters'] is not None:
        t['max_iters'] = min(t['max_iters'], ent['iters'])
    if name == 'CoralReefsOptimization' and t['max_evals'] is None:
        t['max_iters'] = min(t['max_iters'], 2)
    if name == 'ForestOptimizationAlgorithm':
        for k in ('local_seeding_changes', 'global_seeding_changes'):
            spec['params'][k] = min(spec['params'][k], spec['prob']['dim'])
    if name == 'LionOptimizationAlgorithm' and t['max_iters'] is None:  # with a few lions of one gender, or no nomads, nobody may ever move again
        p = spec['params']
        if 'population_size' in p:
            p['population_size'] = max(20, p['population_size'])
        p['num_of_prides'] = min(p['num_of_prides'], 4)
        for k, lo, hi in (('nomad_ratio', 0.1, 0.4), ('female_ratio', 0.6, 0.9)):
            if k in p:
                p[k] = min(max(p[k], lo), hi)
    if name == 'RandomSearch' and t['max_evals'] is not None:  # quadratic in the number of evaluations
        t['max_evals'] = min(t['max_evals'], 500)
    if ent.get('finite') and t['max_evals'] is None and t['max_iters'] is None:
        t['max_evals'] = 50
    return spec


# ---------------------------------------------------------------- execution

def make_task(prob_obj, t):
    from niapy.task import OptimizationType, Task
    from niapy.util import repair
    opt = OptimizationType.MAXIMIZATION if t['opt'] == 'max' else OptimizationType.MINIMIZATION
    rep = getattr(repair, t['repair'])
    if t.get('copy'):
        inplace = rep

        def rep(x, lower, upper, rng=None, **_kwargs):
            return inplace(np.array(x, dtype=float), lower, upper, rng=rng)
    kw = dict(optimization_type=opt, repair_function=rep, enable_logging=bool(t.get('log')))
    if t['max_evals'] is not None:
        kw['max_evals'] = t['max_evals']
    if t['max_iters'] is not None:
        kw['max_iters'] = t['max_iters']
    if t.get('cutoff') is not None:
        kw['cutoff_value'] = cutoff_value(prob_obj, t)
    return Task(prob_obj, **kw)


def cutoff_value(prob_obj, t):
    lo, up = np.asarray(prob_obj.lower, dtype=float), np.asarray(prob_obj.upper, dtype=float)
    return objectives.quantile(prob_obj.fun, lo, up, t['cutoff'], t['opt'])


class Trace:
    """What one run did: logged points/values, the returned pair, the task, callback events, the exception if any."""

    def __init__(self):
        self.exc = None
        self.events = []
        self.x = self.f = None

    @property
    def sign(self):
        return self.task.optimization_type.value


def as_population(pop):
    """Positions of a population as an (n, dim) float array (works for arrays, Individuals, single solutions)."""
    from niapy.algorithms.algorithm import Individual
    if isinstance(pop, Individual):
        return np.array([np.array(pop.x, dtype=float)])
    if isinstance(pop, np.ndarray) and pop.dtype != object:
        return np.array(pop, dtype=float, ndmin=2)
    return np.array([np.array(getattr(p, 'x', p), dtype=float) for p in pop])


def recorder(trace, detail=True, fail_at=None):
    from niapy.callbacks import Callback

    class Rec(Callback):
        def _ev(self, kind, pop, fit, bx, bf, params):
            n = len(trace.events) + 1
            e = dict(k=kind, bf=bf, evals=trace.task.evals, iters=trace.task.iters, calls=len(trace.prob.points))
            if detail:
                e['bx'] = None if bx is None else np.array(getattr(bx, 'x', bx), dtype=float, copy=True)
                e['pop'] = as_population(pop)
                e['fit'] = np.array(np.atleast_1d(fit), dtype=float)
                e['params'] = sorted(params)
            trace.events.append(e)
            if fail_at is not None and n == fail_at[0]:
                raise fail_at[1]

        def before_run(self):
            trace.events.append(dict(k='br', evals=trace.task.evals, iters=trace.task.iters, calls=len(trace.prob.points)))
            if fail_at is not None and len(trace.events) == fail_at[0]:
                raise fail_at[1]

        def after_run(self):
            trace.events.append(dict(k='ar', evals=trace.task.evals, iters=trace.task.iters, calls=len(trace.prob.points)))
            if fail_at is not None and len(trace.events) == fail_at[0]:
                raise fail_at[1]

        def before_iteration(self, population, fitness, best_x, best_fitness, **params):
            self._ev('bi', population, fitness, best_x, best_fitness, params)

        def after_iteration(self, population, fitness, best_x, best_fitness, **params):
            self._ev('ai', population, fitness, best_x, best_fitness, params)

    return Rec()


def freeze(v):
    """A private copy of an adapted parameter (arrays, scalars, individuals, lists of them)."""
    if isinstance(v, np.ndarray) and v.dtype == object or isinstance(v, (list, tuple)):
        return [freeze(u) for u in v]
    if isinstance(v, np.ndarray):
        return v.copy()
    if hasattr(v, '__dict__') and hasattr(v, 'x'):
        return {k: freeze(u) for k, u in vars(v).items()}
    return v


def snapshots(trace):
    """A callback that keeps the state before the first iteration and after each iteration, copied (trace.states)."""
    from niapy.callbacks import Callback
    trace.states = []

    class Snap(Callback):
        def _keep(self, population, fitness, best_x, best_fitness, params):
            s = dict(x=as_population(population), f=np.array(np.atleast_1d(fitness), dtype=float), bx=np.array(getattr(best_x, 'x', best_x), dtype=float),
                     bf=float(best_fitness), params={k: freeze(v) for k, v in params.items()}, evals=trace.task.evals, calls=len(trace.prob.points))
            members = population if not isinstance(population, np.ndarray) or population.dtype == object else []
            if hasattr(population, '__dict__') and hasattr(population, 'x') and not isinstance(population, np.ndarray):
                members = [population]
            s['members'] = [freeze(m) for m in members]
            trace.states.append(s)

        def before_iteration(self, population, fitness, best_x, best_fitness, **params):
            if not trace.states:
                self._keep(population, fitness, best_x, best_fitness, params)

        def after_iteration(self, population, fitness, best_x, best_fitness, **params):
            self._keep(population, fitness, best_x, best_fitness, params)

    return Snap()


def construct(case, **extra):
    cls = algs.classes()[case['alg']]
    kw = algs.resolve_params(case['params'])
    kw.update(extra)
    return cls(seed=case['seed'], **kw)


def execute(case, callbacks=None, hook=None, alg=None, prob=None, detail=False, catch=True, task=None):
    """Run the case once.  `callbacks` is None, or a function trace -> list of callbacks."""
    tr = Trace()
    tr.case = case
    tr.prob = prob or objectives.recording_problem(case['prob'], hook)
    tr.task = task or make_task(tr.prob, case['task'])
    tr.first_call = len(tr.prob.points)
    cbs = callbacks(tr) if callbacks else None
    try:
        if alg is None:
            alg = construct(case, callbacks=cbs) if cbs is not None else construct(case)
        tr.alg = alg
        tr.x, tr.f = alg.run(tr.task)
    except (CaseTimeout, Violation, Skip):
        raise
    except BaseException as e:
        if not catch:
            raise
        tr.exc = e
    return tr


def crashed(tr, what='the run'):
    if tr.exc is not None:
        import traceback
        tb = traceback.extract_tb(tr.exc.__traceback__)
        at = ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(tb) if 'niapy' in f.filename)
        raise Violation('%s ended with %s: %s (at %s)' % (what, type(tr.exc).__name__, str(tr.exc)[:200], at[:300]))


def same_points(a, b):
    return len(a) == len(b) and all(np.array_equal(u, v, equal_nan=True) for u, v in zip(a, b))


def first_difference(a, b):
    for i, (u, v) in enumerate(zip(a, b)):
        if not np.array_equal(u, v, equal_nan=True):
            return 'evaluation %d: %s versus %s' % (i + 1, u.tolist(), v.tolist())
    return '%d versus %d evaluations' % (len(a), len(b))


def labels(case, tr=None):
    p, t = case['prob'], case['task']
    out = {'repair returns a new array': bool(t.get('copy')), 'objective returns float32': p['f'].get('ret') == 'f32',
           'forbidden region with infinite values': bool(p['f'].get('pen')), 'opt=' + t['opt']: 1, 'repair=' + t['repair']: 1, 'f=' + p['f']['kind']: 1, 'dim=1': p['dim'] == 1, 'dim>=5': p['dim'] >= 5, 'dim>=10': p['dim'] >= 10, 'budget of 800 evaluations or more': (t['max_evals'] or 0) >= 800,
           'default population size': 'population_size' not in case['params'] and bool(algs.table(case['alg']).get('pop')),
           'params=default': not case['params'], 'limit=cutoff': t['cutoff'] is not None,
           'limit=evals': t['max_evals'] is not None and t['max_iters'] is None and t['cutoff'] is None,
           'limit=iters': t['max_evals'] is None, 'limit=both': t['max_evals'] is not None and t['max_iters'] is not None,
           'bounds=vector': len(set(p['lower'])) > 1 or len(set(p['upper'])) > 1}
    if tr is not None:
        out['iters>=2'] = tr.task.iters >= 2
        out['iters>=10'] = tr.task.iters >= 10
        out['budget<population'] = tr.task.iters == 0
        out['nontrivial'] = tr.task.iters >= 1 and len(tr.prob.points) >= 2
    return out
