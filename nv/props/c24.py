"""C24: self-adapted parameters stay in their documented ranges and follow their documented schedules."""
import numpy as np
from hypothesis import strategies as st

from nv import core
from nv.engine import Skip, Target, Violation

ID = 'C24'
RULE = ('one case = one run of an adaptive algorithm (class x parameters x problem x budgets x repair x seed), the adapted parameters recorded before and after '
        'each iteration and compared with the documented schedule computed from the recorded objective values; the helper targets call one schedule function '
        'with generated arguments; non-trivial = at least one iteration in which an adapted parameter changed (helpers: more than one distinct result), distinct by the whole case')


class Step:
    def __init__(self, case, ref, tr, it, a, b, v, stopped):
        self.case, self.ref, self.tr, self.it, self.a, self.b, self.v, self.stopped = case, ref, tr, it, a, b, v, stopped
        self.f, self.g, self.p, self.q = a['f'], b['f'], a['params'], b['params']
        self.max_evals, self.max_iters = tr.task.max_evals, tr.task.max_iters

    def pad(self, n):
        return np.concatenate([self.v, np.full(max(0, n - len(self.v)), np.inf)])[:n]


def near(a, b, tol=1e-9):
    return bool(np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=tol, atol=1e-13, equal_nan=True))


def want(what, got, exp, tol=1e-9):
    if not near(got, exp, tol):
        raise Violation('%s is %s instead of %s' % (what, np.asarray(got, dtype=float).tolist(), np.asarray(exp, dtype=float).tolist()))


def within(what, val, lo, hi, tol=1e-9):
    val, lo, hi = np.asarray(val, dtype=float), np.asarray(lo, dtype=float), np.asarray(hi, dtype=float)
    slack = tol * (1 + np.abs(val))
    if not np.all((val >= lo - slack) & (val <= hi + slack)):
        raise Violation('%s %s outside [%s, %s]' % (what, val.tolist(), lo.tolist(), hi.tolist()))


def rounded(x):
    """The admissible results of rounding x (both neighbours at a tie, against last-digit differences)."""
    return {int(round(x - 1e-9)), int(round(x)), int(round(x + 1e-9))}


# ---------------------------------------------------------------- differential evolution

def jde(s):
    r = s.ref
    for i, (m, o) in enumerate(zip(s.b['members'], s.a['members'])):
        f, cr = m['differential_weight'], m['crossover_probability']
        if f != 2:
            within('differential weight of member %d' % i, f, r.f_lower, r.f_upper)
        within('crossover probability of member %d' % i, cr, 0, 1)
        if r.tao1 == 0 and f != o['differential_weight'] or r.tao2 == 0 and cr != o['crossover_probability']:
            raise Violation('member %d changed its parameters from %r, %r to %r, %r although the probabilities of a change are %r, %r' % (
                i, o['differential_weight'], o['crossover_probability'], f, cr, r.tao1, r.tao2))
        if i < len(s.v) and s.v[i] > s.f[i] and (f, cr) != (o['differential_weight'], o['crossover_probability']):
            raise Violation('member %d kept its solution but changed its parameters from %r, %r to %r, %r' % (i, o['differential_weight'], o['crossover_probability'], f, cr))


def shade(s, average=False):
    r, n = s.ref, len(s.f)
    fs, v = np.sort(s.f), s.pad(len(s.f))
    succ = np.flatnonzero(v < fs)
    hf, hc, k = np.array(s.p['h_mem_f']), np.array(s.p['h_mem_cr']), s.p['k']
    size = r.hist_mem_size
    if len(hf) != size or len(hc) != size or len(s.q['h_mem_f']) != size or len(s.q['h_mem_cr']) != size:
        raise Violation('the memories have %d and %d entries instead of %d' % (len(s.q['h_mem_f']), len(s.q['h_mem_cr']), size))
    for m in s.b['members']:
        within('differential weight', m['differential_weight'], 0, 1)
        within('crossover probability', m['crossover_probability'], 0, 1)
    within('memory of F', s.q['h_mem_f'], 0, 1)
    within('memory of CR', s.q['h_mem_cr'], -1, 1)
    if s.q['k'] != ((k + 1) % size if len(succ) else k):
        raise Violation('memory index went from %r to %r with %d successes and %d entries' % (k, s.q['k'], len(succ), size))
    others = np.arange(size) != k
    want('other entries of the memory of F', np.asarray(s.q['h_mem_f'])[others], hf[others], 0)
    want('other entries of the memory of CR', np.asarray(s.q['h_mem_cr'])[others], hc[others], 0)
    if not len(succ):
        want('memory of F without a success', s.q['h_mem_f'], hf, 0)
        want('memory of CR without a success', s.q['h_mem_cr'], hc, 0)
    elif len(s.g) == n:  # trial i sits at position i
        F = np.array([s.b['members'][i]['differential_weight'] for i in succ], dtype=float)
        C = np.array([s.b['members'][i]['crossover_probability'] for i in succ], dtype=float)
        w = fs[succ] - v[succ]
        w = w / w.sum()
        nf = np.sum(w * F * F) / np.sum(w * F)
        nc = -1.0 if np.sum(w * C) == 0 or hc[k] == -1 else np.sum(w * C * C) / np.sum(w * C)
        if average:
            nf, nc = (nf + hf[k]) / 2, (nc + hc[k]) / 2
        want('memory of F after %d successes' % len(succ), s.q['h_mem_f'][k], nf, 1e-7)
        want('memory of CR after %d successes' % len(succ), s.q['h_mem_cr'][k], nc, 1e-7)
    arc = int(round(n * r.extern_arc_rate))
    old = s.p['arc_ind_cnt']
    cnt = max(old, min(arc, old + len(succ))) if arc > 1 else old
    if len(s.g) < n:
        cnt = min(cnt, int(len(s.g) * r.extern_arc_rate))
    if s.q['arc_ind_cnt'] != cnt:
        raise Violation('%r archived solutions instead of %r (%r before, %d successes, %d -> %d members)' % (s.q['arc_ind_cnt'], cnt, old, len(succ), n, len(s.g)))
    known = s.tr.__dict__.setdefault('_seen', set())
    for x in s.tr.prob.points[s.tr.__dict__.get('_upto', 0):s.b['calls']]:
        known.add(np.asarray(x, dtype=float).tobytes())
    s.tr._upto = s.b['calls']
    for row in np.asarray(s.q['archive'], dtype=float)[:cnt]:
        if (row + 0.0).tobytes() not in known and row.tobytes() not in known:
            raise Violation('the archive holds %s, which was never a member' % row.tolist())


def size_fixed(s):
    if len(s.g) != len(s.f):
        raise Violation('%d members became %d' % (len(s.f), len(s.g)))


def lpsr(s):
    n0, n = s.ref.population_size, len(s.f)
    nxt = {max(4, u) for u in rounded((4.0 - n0) / s.max_evals * s.b['evals'] + n0)}
    if len(s.g) not in {min(n, u) for u in nxt}:
        raise Violation('%d members became %d instead of %s (initially %d, %r of %r evaluations)' % (n, len(s.g), sorted({min(n, u) for u in nxt}), n0, s.b['evals'], s.max_evals))


def ilshade(s):
    shade(s, average=True)
    r, share = s.ref, s.a['evals'] / s.max_evals
    fs, v = np.sort(s.f), s.pad(len(s.f))
    if len(s.g) == len(s.f):
        for i in np.flatnonzero(v < fs):
            m = s.b['members'][i]
            within('differential weight of a new member at %.3f of the budget' % share, m['differential_weight'], 0, 0.7 if share < 0.25 else 0.8 if share < 0.5 else 0.9 if share < 0.75 else 1)
            within('crossover probability of a new member at %.3f of the budget' % share, m['crossover_probability'], 0.5 if share < 0.25 else 0.25 if share < 0.5 else 0, 1)
        want('p-best factor', s.q['pbest_factor'], s.p['pbest_factor'], 0)
    else:
        want('p-best factor', s.q['pbest_factor'], r.pbest_start + (r.pbest_end - r.pbest_start) * s.b['evals'] / s.max_evals)
    within('p-best factor', s.q['pbest_factor'], min(r.pbest_start, r.pbest_end), max(r.pbest_start, r.pbest_end))


def dynnp(s):
    n, r = len(s.f), s.ref
    due = np.isfinite(s.max_evals) and s.it + 1 == s.max_evals // (r.p_max * n) + r.rp and n > 3
    if len(s.g) != (n // 2 if due else n):
        raise Violation('%d members became %d in iteration %d (p_max %r, rp %r, max_evals %r)' % (n, len(s.g), s.it + 1, r.p_max, r.rp, s.max_evals))


def lifetime(kind, lo, hi, f, avg, worst, best):
    mu = abs(hi - lo) / 2
    with np.errstate(all='ignore'):
        f, avg, worst, best = np.float64(f), np.float64(avg), np.float64(worst), np.float64(best)
        if kind == 'proportional':
            t = lo + mu * avg / f
            t = min(t, hi) if np.isfinite(avg) else hi
        elif kind == 'linear':
            t = lo + 2 * mu * (f - worst) / (best - worst)
        else:
            t = lo + mu * (f - worst) / (best - worst) if avg < f else 0.5 * (lo + hi) + mu * (f - avg) / (best - avg)
    return t if np.isfinite(t) else hi


def aging(s):
    r, n = s.ref, len(s.f)
    if s.stopped or len(s.v) < n + 1:
        return
    v = s.v[:n]
    if np.any(v == s.f):
        return
    pool = [(w, 1) if w < f else (f, m['age'] + 1) for f, w, m in zip(s.f, v, s.a['members'])] + [(s.v[n], 1)]
    fit = np.array([u[0] for u in pool])
    kind, live = r.age.__name__, []
    for f, age in pool:
        t = lifetime(kind, r.min_lifetime, r.max_lifetime, f, np.mean(fit), fit.max(), fit.min())
        if abs(t % 1 - 0.5) < 1e-6:
            return
        if age <= round(t):
            live.append((float(f), int(age)))
    got = sorted((float(m['f']), int(m['age'])) for m in s.b['members'])
    if not live:
        if got != sorted((float(w), 0) for w in s.v[n + 1:]) or len(got) != r.population_size:
            raise Violation('every member died, but the new population is %s' % got[:6])
        return
    live.sort()
    if len(s.v) > n + 1:
        raise Violation('%d additional individuals although %d members live on' % (len(s.v) - n - 1, len(live)))
    if len(live) <= r.population_size:
        ok = got == live
    else:
        ok = got == live or r.omega > 0 and len(got) == len(live) - 1 and any(live[:i] + live[i + 1:] == got for i in range(len(live)))
    if not ok:
        raise Violation('living members (fitness, age) %s, expected %s' % (got[:8], live[:8]))


# ---------------------------------------------------------------- bats, fireflies, annealing, bees, fireworks

def bat(s):
    want('loudness', s.q['loudness'], s.p['loudness'] * s.ref.alpha)


def adaptive_bat(s):
    r, best = s.ref, s.a['bf']
    loud = np.array(s.p['loudness'], dtype=float)
    for i, v in enumerate(s.pad(len(loud))):
        if v <= best:
            best = v
            loud[i] *= r.alpha
            if loud[i] <= 1e-13:
                loud[i] = r.starting_loudness
    want('loudness', s.q['loudness'], loud)


def self_adaptive_bat(s):
    r = s.ref
    for key, lo, hi, tao in (('loudness', r.min_loudness, r.max_loudness, r.tao_1), ('pulse_rates', r.min_pulse_rate, r.max_pulse_rate, r.tao_2)):
        old, new = np.asarray(s.p[key], dtype=float), np.asarray(s.q[key], dtype=float)
        if len(new) != r.population_size:
            raise Violation('%d values of %s' % (len(new), key))
        changed = old != new
        if tao == 0 and changed.any():
            raise Violation('%s changed from %s to %s with probability 0' % (key, old.tolist(), new.tolist()))
        within(key, new if tao == 1 else new[changed], lo, hi)


def firefly(s):
    want('alpha', s.q['alpha'], s.p['alpha'] * s.ref.theta)


def annealing(s):
    r = s.ref
    step = r.delta_temperature if r.cooling_method.__name__ == 'cool_delta' else r.starting_temperature / s.max_evals
    want('temperature', s.q['current_temperature'], s.p['current_temperature'] - step)


def bees(s):
    want('neighbourhood size', s.q['ngh'], s.p['ngh'] * 0.95)


def bare_bones(s):
    r = s.ref
    up = len(s.v) and s.v.min() < s.f.min()
    want('amplitude after %s' % ('an improvement' if up else 'no improvement'), s.q['amplitude'], np.asarray(s.p['amplitude']) * (r.amplification_coefficient if up else r.reduction_coefficient))


def core_firework(s):
    r = s.ref
    old, new = np.asarray(s.p['amplitude_cf'], dtype=float), np.asarray(s.q['amplitude_cf'], dtype=float)
    if not (near(new, old * r.amplification_coeff) or near(new, old * r.reduction_coeff)):
        raise Violation('amplitude of the core firework went from %s to %s (coefficients %r, %r)' % (old.tolist(), new.tolist(), r.amplification_coeff, r.reduction_coeff))
    if s.stopped:
        return
    if s.v.min(initial=np.inf) > s.a['bf']:
        want('amplitude of the core firework after no improvement', new, old * r.reduction_coeff)
    elif s.b['bf'] < s.a['bf'] and s.g[0] == s.b['bf']:
        want('amplitude of the core firework after an improvement', new, old * r.amplification_coeff)


def first_range(key):
    def rule(s):
        if s.it == 0:
            want('initial ' + key, s.p[key], np.asarray(s.case['prob']['upper'], dtype=float) - np.asarray(s.case['prob']['lower'], dtype=float))
    return rule


# ---------------------------------------------------------------- fish, forest, harmony

def fish(s):
    r = s.ref
    within('weights', [m['weight'] for m in s.b['members']], r.min_w, r.w_scale)
    t = (s.it + 1) / s.max_iters
    span = np.asarray(s.case['prob']['upper'], dtype=float) - np.asarray(s.case['prob']['lower'], dtype=float)
    want('individual step', s.q['step_individual'], span * (r.step_individual_init - t * (r.step_individual_init - r.step_individual_final)))
    want('volitive step', s.q['step_volitive'], span * (r.step_volitive_init - t * (r.step_volitive_init - r.step_volitive_final)))
    want('weight of the school', s.q['school_weight'], sum(m['weight'] for m in s.b['members']))
    # feeding: the weight grows by the share of the best improvement of the individual movement
    n = len(s.f)
    gain = np.maximum(0.0, s.f - s.pad(n))
    if len(s.v) >= n and gain.max() > 0:
        old = np.array([m['weight'] for m in s.a['members']], dtype=float)
        want('weights after feeding', [m['weight'] for m in s.b['members']], np.clip(old + gain / gain.max(), r.min_w, r.w_scale))


def forest(s):
    age, r = np.asarray(s.q['age']), s.ref
    if len(age) != len(s.g):
        raise Violation('%d ages for %d trees' % (len(age), len(s.g)))
    within('ages', age, 0, r.lifetime)
    if age[np.argmin(s.g)] != 0 and not np.any(age[s.g == s.g.min()] == 0):
        raise Violation('the best tree has age %d instead of 0' % age[np.argmin(s.g)])
    old = {x.tobytes(): a for x, a in zip(s.a['x'], np.asarray(s.p['age']))}
    seen = [x.tobytes() for x in s.b['x']]
    if len(set(seen)) == len(seen) and len(old) == len(s.a['x']):
        for i, (x, a) in enumerate(zip(seen, age)):
            if x in old and i != np.argmin(s.g) and a not in (old[x] + 1, 0) or x not in old and a != 0:
                raise Violation('tree %d has age %d, %s' % (i, a, 'it had %d before the iteration' % old[x] if x in old else 'it is new'))
    gsn = len(s.g) - min(r.area_limit, len(s.g))
    if gsn and r.transfer_rate == 0:
        raise Violation('%d trees with the area limit %d and transfer rate 0' % (len(s.g), r.area_limit))


def harmony_bandwidth(s):
    """Every component of a new harmony comes from the memory, moved by at most the bandwidth, when random components are excluded."""
    r = s.ref
    if r.r_pa > 0 or s.case['task']['repair'] != 'limit' or not len(s.v):
        return
    bw = getattr(r, 'bw_max', r.b_range)
    x = np.asarray(s.tr.prob.points[s.a['calls']], dtype=float)
    gap = np.min(np.abs(s.a['x'] - x), axis=0)
    within('distance of the new harmony from the memory', gap, 0, bw if r.r_accept > 0 else 0)


# ---------------------------------------------------------------- swarms

def velocity(s):
    v = np.asarray(s.q['v'], dtype=float)
    rows = np.any(v != np.asarray(s.p['v']), axis=1) if s.case['alg'].startswith('Opposition') else slice(None)  # an opposition step leaves the velocities alone
    within('velocities', v[rows], np.asarray(s.p['min_velocity']), np.asarray(s.p['max_velocity']))
    ref = s.ref
    if s.case['alg'] in ('ParticleSwarmAlgorithm', 'ComprehensiveLearningParticleSwarmOptimizer'):
        within('velocities', v, ref.min_velocity, ref.max_velocity)
    if s.case['alg'] == 'ComprehensiveLearningParticleSwarmOptimizer':
        moved = np.asarray(s.p['flag']) < ref.m  # the others are refreshed first: an ordinary move and its repair
        want('position', s.b['x'][moved], (s.a['x'] + v)[moved])
        within('refreshing gap', np.asarray(s.q['flag']), 0, ref.m)
        whole = np.asarray(s.q['flag']) > np.where(moved, np.asarray(s.p['flag']), 0) + 1
        if whole.any():
            raise Violation('refreshing gaps %s after %s' % (np.asarray(s.q['flag']).tolist(), np.asarray(s.p['flag']).tolist()))
    elif s.case['task']['repair'] == 'limit' and not s.case['alg'].startswith('Opposition'):
        want('position', s.b['x'], np.clip(s.a['x'] + v, s.case['prob']['lower'], s.case['prob']['upper']))


def opposition(s):
    velocity(s)
    lo, hi = s.ref.sigma * s.b['x'].min(axis=0), s.ref.sigma * s.b['x'].max(axis=0)
    new = near(s.q['min_velocity'], lo) and near(s.q['max_velocity'], hi)
    kept = near(s.q['min_velocity'], s.p['min_velocity']) and near(s.q['max_velocity'], s.p['max_velocity'])
    if not (new or kept):
        raise Violation('velocity bounds %s, %s, expected %s, %s or the old ones' % (np.asarray(s.q['min_velocity']).tolist(), np.asarray(s.q['max_velocity']).tolist(), lo.tolist(), hi.tolist()))
    if s.ref.p0 == 1 and not near(s.q['v'], s.p['v']):
        raise Violation('velocities changed in an opposition step')
    if s.ref.p0 == 0 and not new:
        raise Violation('velocity bounds were not updated')


def cats(s):
    m = s.ref.max_velocity
    within('velocities', s.q['velocities'], -m, m)
    moved = np.any(np.asarray(s.q['velocities']) != np.asarray(s.p['velocities']), axis=1).sum()
    if moved > int(len(s.f) * s.ref.mixture_ratio):
        raise Violation('%d cats traced, the mixture ratio allows %d' % (moved, int(len(s.f) * s.ref.mixture_ratio)))


def bee_trials(s):
    t = np.asarray(s.q['trials'])
    if len(t) != len(s.g) // 2 and len(t) != s.ref.population_size // 2:
        raise Violation('%d trial counters' % len(t))
    within('trials', t, 0, max(0, s.ref.limit - 1))
    old = np.asarray(s.p['trials'])
    n = s.ref.population_size // 2
    if np.any(t > old + 1 + n):
        raise Violation('trials rose from %s to %s in one iteration of %d onlookers' % (old.tolist(), t.tolist(), n))
    same = np.all(s.a['x'][:n] == s.b['x'][:n], axis=1) & (s.f[:n] == s.g[:n])
    if np.any(same & (t <= old)):
        raise Violation('food sources that did not change have trials %s -> %s' % (old.tolist(), t.tolist()))


# ---------------------------------------------------------------- evolution strategies

def one_fifth(s):
    r, rho, ki = s.ref, s.a['members'][0]['rho'], s.p['ki']
    if (s.it + 1) % r.k == 0:
        phi = ki / r.k
        if phi != 0.2:
            rho = (r.c_r if phi < 0.2 else r.c_a) * rho if rho > r.epsilon else 1
        ki = 0
    mu = 1 if s.case['alg'].endswith('1p1') else r.mu
    ki += bool(s.pad(mu).min() < s.f[0])
    want('standard deviation in iteration %d' % (s.it + 1), s.b['members'][0]['rho'], rho)
    want('number of successes in iteration %d' % (s.it + 1), s.q['ki'], ki, 0)


def one_fifth_all(s):
    r, ki = s.ref, s.p['ki']
    fac = 1.0
    if (s.it + 1) % r.k == 0:
        phi = ki / r.k
        fac = r.c_r if phi < 0.2 else r.c_a if phi > 0.2 else 1.0
        ki = 0
    old = {m['x'].tobytes(): m['rho'] for m in s.a['members']}
    if len(old) < len(s.a['members']) or any(np.asarray(x, dtype=float).tobytes() in old for x in s.tr.prob.points[s.a['calls']:s.b['calls']]):  # an offspring coincides with a parent
        return
    fresh = 0
    for i, m in enumerate(s.b['members']):
        k = m['x'].tobytes()
        if k in old:
            want('standard deviation of the surviving member %d' % i, m['rho'], old[k] * fac)
        else:
            fresh += 1
            want('standard deviation of the new member %d' % i, m['rho'], 1)
    want('number of successes in iteration %d' % (s.it + 1), s.q['ki'], ki + fresh, 0)


# ---------------------------------------------------------------- glowworms, camels, monkeys

def glow(s):
    r, n = s.ref, len(s.f)
    luc = (1 - r.rho) * np.asarray(s.p['luciferin'], dtype=float) + r.gamma * s.f
    v = s.case['alg'][-2:]
    if v == 'V1':
        luc = np.maximum(0.0, luc)
    want('luciferin', s.q['luciferin'], luc)
    big = float(np.linalg.norm(np.asarray(s.case['prob']['upper'], dtype=float) - np.asarray(s.case['prob']['lower'], dtype=float)))
    want('sensing range', s.q['sensing_range'], big)
    within('ranges', s.q['ranges'], 0, big)
    d = np.linalg.norm(s.a['x'][:, None, :] - s.a['x'][None, :, :], axis=2)
    off = ~np.eye(n, dtype=bool)
    rng_ = np.asarray(s.p['ranges'], dtype=float)
    luc = np.asarray(s.q['luciferin'], dtype=float)
    close = np.abs(d - rng_[:, None]) <= 1e-9 * (1 + d)
    for i in range(n):
        if np.any(close[i] & off[i]):
            continue
        cnt = int(np.sum(off[i] & (d[i] <= rng_[i]) & (luc[i] >= luc)))
        u = {'V1': big / (1 + r.beta * (cnt / (np.pi * big ** 2))), 'V2': getattr(r, 'alpha', 0) + (big - getattr(r, 'alpha', 0)) / (1 + r.beta * cnt),
             'V3': rng_[i] + (r.beta if cnt < r.nt else -getattr(r, 'beta1', 0)) * cnt}.get(v, rng_[i] + r.beta * (r.nt - cnt))
        want('range of glowworm %d with %d neighbours' % (i, cnt), s.q['ranges'][i], max(0.0, min(big, u)))
    if s.case['task']['repair'] == 'limit':
        within('step length', np.linalg.norm(s.b['x'] - s.a['x'], axis=1), 0, r.s)


def camels(s):
    r = s.ref
    for i, (m, o) in enumerate(zip(s.b['members'], s.a['members'])):
        if m['steps'] == 0:
            if (m['supply'], m['endurance']) != (r.supply_init, r.endurance_init):
                raise Violation('the new camel %d has supply %r and endurance %r' % (i, m['supply'], m['endurance']))
            continue
        if m['steps'] != o['steps'] + 1:
            raise Violation('camel %d went from step %r to %r' % (i, o['steps'], m['steps']))
        supply = o['supply'] * (1 - r.burden_factor * o['steps'] / s.max_iters)
        top = o['endurance'] * (1 - r.min_temperature / r.max_temperature) * (1 - o['steps'] / s.max_iters)
        if not (m['supply'] == r.supply_init and m['endurance'] == r.endurance_init):
            want('supply of camel %d' % i, m['supply'], supply)
            within('endurance of camel %d' % i, m['endurance'], 0, top)
        elif not m['f'] < o['f'] and not (near(supply, r.supply_init) and r.endurance_init <= top * (1 + 1e-9)):
            raise Violation('camel %d was refilled without an improvement (%r -> %r)' % (i, o['f'], m['f']))
        elif r.visibility == 0 and not near(supply, r.supply_init):
            raise Violation('camel %d was refilled with visibility 0' % i)
        within('supply of camel %d' % i, m['supply'], 0, r.supply_init)
        within('temperature of camel %d' % i, m['temperature'], r.min_temperature, r.max_temperature)
        if (m['supply'], m['endurance'], m['f']) != (m['supply_past'], m['endurance_past'], m['f_past']) or not np.array_equal(m['x'], m['x_past']):
            raise Violation('camel %d does not remember its last state' % i)


def kings(s):
    n = sum(bool(m['monkey_king']) for m in s.b['members'])
    if n != int(s.ref.population_rate * len(s.g)):
        raise Violation('%d monkey kings instead of %d' % (n, int(s.ref.population_rate * len(s.g))))


R = {
    'SelfAdaptiveDifferentialEvolution': [jde, size_fixed],
    'SuccessHistoryAdaptiveDifferentialEvolution': [shade, size_fixed], 'LpsrSuccessHistoryAdaptiveDifferentialEvolution': [shade, lpsr],
    'ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution': [ilshade, lpsr],
    'DynNpDifferentialEvolution': [dynnp], 'DynNpMultiStrategyDifferentialEvolution': [dynnp], 'DynNpDifferentialEvolutionMTS': [dynnp], 'DynNpDifferentialEvolutionMTSv1': [dynnp],
    'DynNpMultiStrategyDifferentialEvolutionMTS': [dynnp], 'DynNpMultiStrategyDifferentialEvolutionMTSv1': [dynnp],
    'AgingNpDifferentialEvolution': [aging],
    'BatAlgorithm': [bat], 'HybridBatAlgorithm': [bat], 'AdaptiveBatAlgorithm': [adaptive_bat], 'SelfAdaptiveBatAlgorithm': [self_adaptive_bat], 'HybridSelfAdaptiveBatAlgorithm': [self_adaptive_bat],
    'FireflyAlgorithm': [firefly], 'SimulatedAnnealing': [annealing], 'BeesAlgorithm': [bees],
    'BareBonesFireworksAlgorithm': [first_range('amplitude'), bare_bones], 'DynamicFireworksAlgorithm': [first_range('amplitude_cf'), core_firework],
    'DynamicFireworksAlgorithmGauss': [first_range('amplitude_cf'), core_firework],
    'FishSchoolSearch': [fish], 'ForestOptimizationAlgorithm': [forest], 'HarmonySearch': [harmony_bandwidth], 'HarmonySearchV1': [harmony_bandwidth],
    'ParticleSwarmAlgorithm': [velocity], 'ParticleSwarmOptimization': [velocity], 'CenterParticleSwarmOptimization': [velocity], 'MutatedParticleSwarmOptimization': [velocity],
    'MutatedCenterParticleSwarmOptimization': [velocity], 'MutatedCenterUnifiedParticleSwarmOptimization': [velocity],
    'OppositionVelocityClampingParticleSwarmOptimization': [opposition], 'ComprehensiveLearningParticleSwarmOptimizer': [velocity],
    'CatSwarmOptimization': [cats], 'ArtificialBeeColonyAlgorithm': [bee_trials],
    'EvolutionStrategy1p1': [one_fifth], 'EvolutionStrategyMp1': [one_fifth], 'EvolutionStrategyMpL': [one_fifth_all],
    'GlowwormSwarmOptimization': [glow], 'GlowwormSwarmOptimizationV1': [glow], 'GlowwormSwarmOptimizationV2': [glow], 'GlowwormSwarmOptimizationV3': [glow],
    'CamelAlgorithm': [camels], 'MonkeyKingEvolutionV1': [kings], 'MonkeyKingEvolutionV2': [kings],
}


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b))


def check(case):
    tr = core.execute(case, callbacks=lambda t: [core.snapshots(t)])
    core.crashed(tr)
    ref = core.construct(case)
    changed = False
    for it, (a, b) in enumerate(zip(tr.states, tr.states[1:])):
        v = np.array([float(u) for u in tr.prob.values[a['calls']:b['calls']]]) * tr.sign
        s = Step(case, ref, tr, it, a, b, v, it == len(tr.states) - 2 and tr.task.stopping_condition())
        try:
            for rule in R[case['alg']]:
                rule(s)
        except Violation as e:
            raise Violation('iteration %d: %s' % (it + 1, e))
        except (KeyError, AttributeError) as e:
            raise Skip('the state has other names: %r' % e)
        changed = changed or not same(s.p, s.q) or len(s.f) != len(s.g) or not same(
            [{k: w for k, w in m.items() if k not in ('x', 'f')} for m in a['members']], [{k: w for k, w in m.items() if k not in ('x', 'f')} for m in b['members']])
    lab = core.labels(case, tr)
    lab.update({'parameter changed': changed, 'population size changed': len({len(t['f']) for t in tr.states}) > 1,
                'nontrivial': len(tr.states) >= 2 and (changed or len(tr.states) >= 3)})
    return lab


LONG = ('DynNp', 'Aging', 'EvolutionStrategy', 'ArtificialBee', 'Lpsr', 'FishSchool', 'Bees', 'BatAlgorithm')


@st.composite
def cases(draw, n):
    kinds = ['noise', 'noise', 'sphere', 'linear', 'prod', 'rastrigin', 'step', 'abs', 'rosen']
    modes = ['evals', 'evals', 'iters', 'both'] + (['long', 'long'] if any(w in n for w in LONG) else [])
    c = draw(core.run_cases(n, mode=draw(st.sampled_from(modes)), kinds=kinds, max_dim=5, max_iters=30 if n.startswith('EvolutionStrategy') else 14))
    if n == 'FishSchoolSearch' and c['task']['max_iters'] is None:
        c['task']['max_iters'] = draw(st.sampled_from([1, 2, 3, 5, 8, 14, 30, 60]))
    return c


# ---------------------------------------------------------------- schedule functions

@st.composite
def helper_cases(draw):
    fl = st.one_of(st.floats(-1e3, 1e3, allow_nan=False).map(lambda v: round(v, 3)), st.sampled_from([0.0, 1.0, -1.0, 1e-9, 1e9]))
    what = draw(st.sampled_from(['age', 'bw', 'sparks', 'amplitude', 'amplitude_min', 'cool']))
    c = dict(what=what, fit=draw(st.lists(fl, min_size=2, max_size=8)), t=draw(st.integers(0, 40)), T=draw(st.integers(1, 40)))
    if what == 'age':
        c.update(kind=draw(st.sampled_from(['proportional', 'linear', 'bilinear'])), lo=draw(st.integers(0, 5)), hi=draw(st.integers(6, 20)))
    elif what == 'bw':
        c.update(lo=draw(st.sampled_from([0.01, 0.5, 1.0])), hi=draw(st.sampled_from([1.0, 2.0, 5.0])))
    elif what == 'cool':
        c.update(T0=draw(st.sampled_from([10.0, 2000.0])), d=draw(st.sampled_from([0.1, 0.8, 5.0])))
    else:
        c.update(n=draw(st.integers(2, 50)), a=draw(st.sampled_from([0.01, 0.04, 0.3])), b=draw(st.sampled_from([0.5, 0.8, 0.95])), A=draw(st.sampled_from([1.0, 40.0])),
                 ai=draw(st.sampled_from([0.2, 0.5])), af=draw(st.sampled_from([0.01, 0.1])))
    return c


def check_helper(c):
    from niapy.algorithms.basic import EnhancedFireworksAlgorithm, FireworksAlgorithm, HarmonySearchV1, de
    from niapy.algorithms.other import sa
    from niapy.problems import Sphere
    from niapy.task import Task
    fit, what = np.array(c['fit']), c['what']
    out = set()
    try:
        if what == 'age':
            fn = getattr(de, c['kind'])
            if fit.max() == fit.min() or np.mean(fit) == fit.min() or c['kind'] == 'proportional' and np.any(fit == 0):
                raise Skip('degenerate population')
            for f in fit:
                t = fn(min_lifetime=c['lo'], max_lifetime=c['hi'], mu=abs(c['hi'] - c['lo']) / 2, x_f=np.float64(f), avg=np.mean(fit), x_gw=fit.max(), x_gb=fit.min())
                want('%s lifetime of fitness %r in %s' % (c['kind'], float(f), fit.tolist()), t, lifetime(c['kind'], c['lo'], c['hi'], f, np.mean(fit), fit.max(), fit.min()), 1e-7)
                if c['kind'] != 'proportional':
                    within('lifetime', t, c['lo'], c['hi'], 1e-7)
                out.add(float(t))
        elif what == 'bw':
            task = Task(Sphere(2), max_iters=c['T'])
            task.iters = min(c['t'], c['T'] - 1)
            b = HarmonySearchV1(bw_min=c['lo'], bw_max=c['hi']).bw(task)
            within('bandwidth in iteration %d of %d' % (task.iters + 1, c['T']), b, c['lo'], c['hi'])
            want('bandwidth in iteration %d of %d' % (task.iters + 1, c['T']), b, c['hi'] * (c['lo'] / c['hi']) ** ((task.iters + 1) / c['T']))
            out = {0, 1}
        elif what == 'cool':
            want('temperature', sa.cool_delta(c['T0'] - c['t'], delta_temperature=c['d'], starting_temperature=c['T0'], max_evals=c['T']), c['T0'] - c['t'] - c['d'])
            want('temperature', sa.cool_linear(c['T0'] - c['t'], delta_temperature=c['d'], starting_temperature=c['T0'], max_evals=c['T']), c['T0'] - c['t'] - c['T0'] / c['T'])
            out = {0, 1}
        elif what == 'sparks':
            got = np.asarray(FireworksAlgorithm(population_size=len(fit), num_sparks=c['n'], a=c['a'], b=c['b']).sparks_num(fit.copy()))
            lo, hi = round(c['a'] * c['n']), round(c['b'] * c['n'])
            within('numbers of sparks', got, min(lo, int(c['a'] * c['n'])), max(hi, int(np.ceil(c['b'] * c['n']))))
            eps = np.finfo(float).eps
            s = c['n'] * (fit.max() - fit + eps) / (np.sum(fit.max() - fit) + eps)
            for i, v in enumerate(s):
                ok = rounded(v) if c['a'] * c['n'] < v <= c['b'] * c['n'] else {lo} if v < c['a'] * c['n'] else {hi} if c['a'] < c['b'] < 1 else rounded(v)
                if abs(v - c['a'] * c['n']) < 1e-9 or abs(v - c['b'] * c['n']) < 1e-9:
                    ok = ok | rounded(v) | {lo, hi}
                if int(got[i]) not in ok:
                    raise Violation('%d sparks for the firework of fitness %r in %s instead of %s' % (got[i], float(fit[i]), fit.tolist(), sorted(ok)))
            order = np.argsort(fit, kind='stable')
            if np.any(np.diff(got[order]) > 0):
                raise Violation('numbers of sparks %s for fitness %s: a worse firework gets more' % (got.tolist(), fit.tolist()))
            out = set(got.tolist())
        else:
            cls = EnhancedFireworksAlgorithm if what == 'amplitude_min' else FireworksAlgorithm
            kw = dict(amplitude_init=c['ai'], amplitude_final=c['af']) if what == 'amplitude_min' else {}
            task = Task(Sphere(2), max_evals=c['T'])
            task.evals = min(c['t'], c['T'])
            got = np.asarray(cls(population_size=len(fit), num_sparks=c['n'], max_amplitude=c['A'], **kw).explosion_amplitudes(fit.copy(), task=task))
            eps = np.finfo(float).eps
            exp = c['A'] * (fit - fit.min() + eps) / (np.sum(fit - fit.min()) + eps)
            if what == 'amplitude_min':
                low = c['ai'] - (c['ai'] - c['af']) * np.sqrt(task.evals * (2 * c['T'] - task.evals)) / c['T']
                exp = np.maximum(exp, low)
                within('amplitudes', got, min(c['ai'], c['af']) if c['A'] >= 1 else 0, np.inf)
            want('amplitudes for fitness %s' % fit.tolist(), got, exp, 1e-7)
            out = set(got.tolist())
    except (AttributeError, ImportError) as e:
        raise Skip('no such function: %s' % e)
    return {'what=' + what: 1, 'nontrivial': len(out) > 1}


# ---------------------------------------------------------------- distributions of the drawn parameters

def cauchy(r, loc):
    """Cauchy around loc with scale 0.1, drawn again until positive, at most 1."""
    out = np.full(len(loc), -1.0)
    while np.any(out <= 0):
        k = out <= 0
        out[k] = loc[k] + 0.1 * np.tan(np.pi * (r.random(k.sum()) - 0.5))
    return np.minimum(out, 1.0)


def draw_jde(r, old, state, p, used, total):
    n = len(old)
    f = np.where(r.random(n) < p['tao1'], p['f_lower'] + (p['f_upper'] - p['f_lower']) * r.random(n), old[:, 0])
    return np.stack([f, np.where(r.random(n) < p['tao2'], r.random(n), old[:, 1])], 1)


def draw_shade(r, old, state, p, used, total):
    i = r.integers(p['hist_mem_size'], size=len(old))
    mf, mc = np.asarray(state['h_mem_f'], dtype=float)[i], np.asarray(state['h_mem_cr'], dtype=float)[i]
    return np.stack([cauchy(r, mf), np.where(mc == -1, 0.0, np.clip(r.normal(mc, 0.1), 0, 1))], 1)


def draw_ilshade(r, old, state, p, used, total):
    i = r.integers(p['hist_mem_size'], size=len(old))
    mf, mc = np.asarray(state['h_mem_f'], dtype=float)[i], np.asarray(state['h_mem_cr'], dtype=float)[i]
    last = i == p['hist_mem_size'] - 1
    mf, mc = np.where(last, 0.9, mf), np.where(last, 0.9, mc)
    f, c = cauchy(r, mf), np.where(mc < 0, 0.0, np.clip(r.normal(mc, 0.1), 0, 1))
    return np.stack([np.minimum(f, 0.7 if used < total / 4 else 0.8 if used < total / 2 else 0.9 if used < 3 * total / 4 else 1.0),
                     np.maximum(c, 0.5 if used < total / 4 else 0.25 if used < total / 2 else 0.0)], 1)


def draw_bats(r, old, state, p, used, total):
    n = len(old)
    return np.stack([np.where(r.random(n) < p['tao_1'], p['min_loudness'] + (p['max_loudness'] - p['min_loudness']) * r.random(n), old[:, 0]),
                     np.where(r.random(n) < p['tao_2'], p['min_pulse_rate'] + (p['max_pulse_rate'] - p['min_pulse_rate']) * r.random(n), old[:, 1])], 1)


DRAWN = {'SelfAdaptiveDifferentialEvolution': draw_jde, 'SuccessHistoryAdaptiveDifferentialEvolution': draw_shade, 'LpsrSuccessHistoryAdaptiveDifferentialEvolution': draw_shade,
         'ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution': draw_ilshade, 'SelfAdaptiveBatAlgorithm': draw_bats, 'HybridSelfAdaptiveBatAlgorithm': draw_bats}


@st.composite
def drawn_cases(draw, n):
    c = dict(alg=n, seed=draw(st.integers(0, 2 ** 31)), iters=draw(st.sampled_from([1, 1, 2, 3])), used=draw(st.sampled_from([0.0, 0.2, 0.24, 0.26, 0.3, 0.4, 0.48, 0.52, 0.6, 0.72, 0.74, 0.76, 0.9])))
    rate = st.sampled_from([0.1, 0.3, 0.5, 0.8])
    if 'Shade' in n or 'Success' in n or 'Lpsr' in n:
        c['p'] = dict(hist_mem_size=draw(st.integers(1, 6)))
    elif 'Bat' in n:
        c['p'] = dict(min_loudness=draw(st.sampled_from([0.1, 0.5, 0.9])), max_loudness=draw(st.sampled_from([0.95, 1.0, 2.0])), min_pulse_rate=draw(st.sampled_from([0.0, 0.001, 0.1])),
                      max_pulse_rate=draw(st.sampled_from([0.2, 0.5, 1.0])), tao_1=draw(rate), tao_2=draw(rate))
    else:
        c['p'] = dict(f_lower=draw(st.sampled_from([0.0, 0.1, 0.3])), f_upper=draw(st.sampled_from([0.5, 0.9, 1.0, 1.5])), tao1=draw(rate), tao2=draw(rate))
    return c


def differ(a, b):
    """A deviation of sample a from sample b beyond chance: (p-value, words)."""
    from scipy import stats
    worst = (stats.ks_2samp(a, b, method='asymp').pvalue, 'the distribution')
    for v in set(np.concatenate([a, b]).tolist()) if len(np.unique(np.concatenate([a, b]))) < 12 else {u for x in (a, b) for u, k in zip(*np.unique(x, return_counts=True)) if k > len(x) / 200}:
        k, m = int(np.sum(a == v)), int(np.sum(b == v))
        worst = min(worst, (stats.fisher_exact([[k, len(a) - k], [m, len(b) - m]])[1], 'the share of values equal to %r, %.4f instead of %.4f' % (v, k / len(a), m / len(b))))
    return worst


def sample_drawn(case, seed, runs, n=60):
    """Parameters before and after an iteration in which every trial succeeds; the model's draws for the same state."""
    from niapy.callbacks import Callback
    from niapy.problems import Problem
    from niapy.task import Task

    class Falling(Problem):
        def __init__(self):
            super().__init__(2, -5.0, 5.0)
            self.calls = 0

        def _evaluate(self, x):
            self.calls += 1
            return 1e6 - 10.0 * self.calls - x[0]

    def read(population, params):
        if 'Bat' in case['alg']:
            return np.stack([np.array(params['loudness'], dtype=float), np.array(params['pulse_rates'], dtype=float)], 1)
        return np.array([[float(m.differential_weight), float(m.crossover_probability)] for m in population])

    class Look(Callback):
        def __init__(self):
            super().__init__()
            self.rows = []

        def before_iteration(self, population, fitness, best_x, best_fitness, **params):
            self.now = read(population, params), {k: np.array(v) for k, v in params.items() if k.startswith('h_mem')}, self.task.evals

        def after_iteration(self, population, fitness, best_x, best_fitness, **params):
            self.rows.append(self.now + (read(population, params),))

    r = np.random.default_rng([seed, 7])
    got, exp = [], []
    cls = core.algs.classes()[case['alg']]
    for k in range(runs):
        look = Look()
        a = cls(population_size=n, seed=int(r.integers(2 ** 31)), callbacks=[look], **case['p'])
        look.task = task = Task(Falling(), max_iters=case['iters'], max_evals=20000)
        task.evals = max(0, int(20000 * case['used']) - n * case['iters'])
        a.run(task)
        if len(look.rows) < case['iters']:
            raise Skip('the run ended early')
        old, state, used, new = look.rows[-1]
        got.append(new)
        exp.append(DRAWN[case['alg']](r, np.tile(old, (2, 1)), state, case['p'], used, task.max_evals))
    return np.concatenate(got), np.concatenate(exp)


def check_drawn(case):
    try:
        if case['alg'] not in core.algs.classes():
            return {'nontrivial': False}
        for stage, runs in enumerate((25, 150)):
            got, exp = sample_drawn(case, case['seed'] + stage, runs)
            bad = [(differ(u, v), name) for u, v, name in ((got[:, 0], exp[:, 0], 'first'), (got[:, 1], exp[:, 1], 'second'), (got[:, 0] - got[:, 1], exp[:, 0] - exp[:, 1], 'difference of the'))]
            (p, words), name = min(bad)
            if p > (1e-3, 1e-9)[stage]:
                return {'nontrivial': len(np.unique(got)) > 10, 'second stage': stage > 0}
    except (KeyError, AttributeError) as e:
        raise Skip('the state has other names: %r' % e)
    raise Violation('%s: %s self-adapted parameter drawn in iteration %d, over %d values: %s is not the documented one (p = %.2g); quartiles %s, documented %s' % (
        case['alg'], name, case['iters'], len(got), words, p, *[np.round(np.quantile(z[:, 1 if name == 'second' else 0], [.05, .25, .5, .75, .95]), 3).tolist() for z in (got, exp)]))


def targets(tier):
    return [Target('drawn-' + n, (lambda n=n: drawn_cases(n)), check_drawn, quick=24 if n.startswith('Impr') else 8, thorough=150) for n in DRAWN] + [Target('schedules', helper_cases, check_helper, quick=400, thorough=20000)] + [Target(n, (lambda n=n: cases(n)), check, quick=60, thorough=2500) for n in R]
