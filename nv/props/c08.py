"""C08: what an algorithm carries from one iteration to the next is consistent with what was evaluated."""
import numpy as np

from nv import algs, core
from nv.engine import Target, Violation

ID = 'C08'
RULE = ('one case = one run (algorithm class x parameters x problem x budgets x repair x seed) whose state is recorded before and after every '
        'iteration; non-trivial = at least one full iteration and two evaluations, distinct by the whole case')


def check(case, strict=None):
    tr = core.execute(case, callbacks=lambda tr: [core.recorder(tr), core.snapshots(tr)])
    core.crashed(tr)
    sign, prob = tr.sign, tr.prob
    lo, up = np.asarray(case['prob']['lower'], dtype=float), np.asarray(case['prob']['upper'], dtype=float)
    vals = np.array([float(v) for v in prob.values[tr.first_call:]]) * sign
    running = np.minimum.accumulate(vals)
    evaluated = {}
    for p, v in zip(prob.points[tr.first_call:], vals):
        evaluated[(p + 0.0).tobytes()] = v
    last = np.inf
    final = ([e for e in tr.events if e['k'] == 'ai'] or [None])[-1]
    for e in tr.events:
        if 'bf' not in e:
            continue
        when = '%s iteration %d' % ('before' if e['k'] == 'bi' else 'after', e['iters'] + 1)
        bf, bx = float(e['bf']), e['bx']
        if not bf <= last:
            raise Violation('%s the best fitness went from %r to %r' % (when, last, bf))
        last = bf
        n = e['calls'] - tr.first_call
        if bf != running[n - 1]:
            raise Violation('%s the best fitness is %r, the best evaluated so far %r' % (when, bf, running[n - 1]))
        if np.isfinite(bf) and evaluated.get((bx + 0.0).tobytes()) != bf:
            raise Violation('%s the best solution %s does not have the best fitness %r' % (when, bx.tolist(), bf))
        pop, fit = e['pop'], e['fit']
        if pop.ndim != 2 or pop.shape[1] != len(lo) or len(pop) != len(fit):
            raise Violation('%s the population has shape %s, the fitness array %s' % (when, pop.shape, fit.shape))
        if case['alg'] in ROAMING:
            continue
        if not ((pop >= lo).all() and (pop <= up).all()):
            i = int(np.argmax(((pop < lo) | (pop > up)).any(axis=1)))
            raise Violation('%s individual %d at %s is outside the box' % (when, i, pop[i].tolist()))
        for i, (x, v) in enumerate(zip(pop, fit)):
            if np.isfinite(v):
                w = float(prob.fun(x)) * sign
                if w != v:
                    raise Violation('%s individual %d at %s carries fitness %r, its objective value is %r' % (when, i, x.tolist(), v, w))
            elif v != np.inf or not (e is final or float(prob.fun(x)) * sign == v):  # not evaluated any more: only in the last iteration
                raise Violation('%s individual %d carries fitness %r' % (when, i, v))
    kept = remembered(case, tr, evaluated, lo, up)
    sizes(case, tr)
    lab = core.labels(case, tr)
    lab['remembered points'] = kept > 0
    fits = [e for e in tr.events if 'fit' in e]
    lab['best improved between iterations'] = len({e['bf'] for e in fits}) > 1
    lab['unevaluated individuals'] = any(np.isinf(e['fit']).any() for e in fits)
    return lab


PAIRS = [('personal_best', 'personal_best_fitness'), ('alpha', 'alpha_fitness'), ('beta', 'beta_fitness'), ('delta', 'delta_fitness')]
OWN = [('x_pb', 'f_pb'), ('x_past', 'f_past'), ('current_x', 'current_f')]


def remembered(case, tr, evaluated, lo, up):
    """Points that the state remembers next to their values (personal bests, leaders, former positions) really have those values."""
    sign, kept = tr.sign, 0
    for k, s in enumerate(tr.states):
        last = k + 1 == len(tr.states)
        rows = []
        for a, b in PAIRS:
            if a in s['params'] and b in s['params']:
                rows += [('%s %d' % (a, i), x, v) for i, (x, v) in enumerate(zip(np.atleast_2d(np.asarray(s['params'][a], float)), np.atleast_1d(np.asarray(s['params'][b], float))))]
        for i, m in enumerate(s['members']):
            rows += [('%s of member %d' % (a, i), np.asarray(m[a], float), float(m[b])) for a, b in OWN if a in m and b in m]
            if 'f' in m and case['alg'] not in ROAMING and len(s['f']) == len(s['members']):
                f = float(m['f'])
                if f != s['f'][i] and np.isfinite([f, s['f'][i]]).all():
                    raise Violation('after iteration %d member %d holds the value %r, the fitness array %r' % (k, i, f, s['f'][i]))
        for what, x, v in rows:
            if not np.isfinite(v):
                continue
            kept += 1
            if evaluated.get((x + 0.0).tobytes()) != v:
                raise Violation('after iteration %d the %s is %s with the value %r, %s' % (
                    k, what, x.tolist(), v, 'where the objective is %r' % (float(tr.prob.fun(x)) * sign) if (x >= lo).all() and (x <= up).all() else 'outside the box'))
    return kept


VARIABLE = ('AgingNp', 'DynNp', 'Lpsr', 'CoralReefs', 'ForestOptimization')  # the size of their population is part of what they adapt (C24, C31)


def sizes(case, tr):
    name, n = case['alg'], case['params'].get('population_size')
    if name not in algs.T or any(v in name for v in VARIABLE) or not tr.states:
        return
    first = len(tr.states[0]['f'])
    if algs.table(name)['pop'] and n is not None and first != n:
        raise Violation('the first population has %d members instead of %d' % (first, n))
    for k, s in enumerate(tr.states):
        if len(s['f']) != first or len(s['x']) != first:
            raise Violation('after iteration %d the population has %d members with %d fitness values instead of %d' % (k, len(s['x']), len(s['f']), first))
        if name == 'LionOptimizationAlgorithm' and {'pride_size', 'gender_distribution'} <= set(s['params']) and all({'gender', 'has_pride', 'pride', 'current_f'} <= set(m) for m in s['members']):
            prides(k, s, tr.alg)


def prides(k, s, alg):
    """The lions stand pride by pride, the nomads last, and the books about them are right."""
    size, gender = np.asarray(s['params']['pride_size']), np.asarray(s['params']['gender_distribution'])
    n = len(s['members'])
    homeless = round(alg.nomad_ratio * n)
    if len(size) != alg.num_of_prides + 1 or size.sum() != n or size[-1] != homeless or size[:-1].max() - size[:-1].min() > 1:
        raise Violation('after iteration %d the %d prides and the nomads have %s members (population %d, nomad ratio %r)' % (k, alg.num_of_prides, size.tolist(), n, alg.nomad_ratio))
    at = 0
    for i, c in enumerate(size):
        group, nomads = s['members'][at:at + c], i + 1 == len(size)
        at += c
        share = 1 - alg.female_ratio if nomads else alg.female_ratio
        counts = [sum(m['gender'] == g for m in group) for g in 'fm']
        if counts != list(gender[i]) or counts[0] != round(share * c):
            raise Violation('after iteration %d group %d has %d females and %d males, its books say %s, the female ratio %r of %d' % (k, i, counts[0], counts[1], gender[i].tolist(), share, c))
        for m in group:
            if bool(m['has_pride']) == nomads or m['pride'] != (-1 if nomads else i):
                raise Violation('after iteration %d a lion of group %d of %d says has_pride=%r, pride=%r' % (k, i, len(size), m['has_pride'], m['pride']))
            if k and not m['f'] <= m['current_f']:
                raise Violation('after iteration %d a lion remembers %r as its best and is at %r' % (k, m['f'], m['current_f']))


ROAMING = {'ComprehensiveLearningParticleSwarmOptimizer'}  # its particles fly outside the box and are evaluated only inside it (reference paper)



def targets(tier):
    kinds = ['noise', 'noise', 'sphere', 'linear', 'prod', 'rastrigin', 'step', 'abs', 'rosen']
    return [Target(n, (lambda n=n: core.run_cases(n, kinds=kinds, wild=True)), check, quick=60, thorough=2500) for n in algs.classes()]
