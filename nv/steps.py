"""Reference models of the update rules: written for reading, one point at a time, with their own random draws.

`MODELS[name](E, X, F, p, r)`: E the environment (box E.lo, E.hi, dimension E.d, budgets E.T and E.N, E.used evaluations, E.fix the repair, E.f the objective, which records
every point), X and F the initial population and its values, p the parameters, r a numpy Generator.  `for t in E.steps():` runs until the budget is used up
(from a later iteration on, when the run is taken up late: `late` iterations and evaluations count as made).
"""
import math

import numpy as np


class Env:
    def __init__(self, fun, lo, hi, iters, evals, fix, late=(0, 0)):
        self.fun, self.lo, self.hi, self.T, self.N, self.fixer = fun, np.asarray(lo, float), np.asarray(hi, float), iters, evals, fix
        self.d, self.span, self.calls, self.values, self.late = len(lo), self.hi - self.lo, [], [], late

    def f(self, x):
        x = np.array(x, float)
        v = self.fun(x)
        self.calls.append(x)
        self.values.append(v)
        return v

    def fix(self, x):
        return self.fixer(np.array(x, float), self.lo, self.hi)

    @property
    def used(self):
        return self.late[1] + len(self.calls)

    def steps(self):
        t = self.late[0]
        while t < self.T and self.used < self.N:
            yield t
            t += 1

    def uniform(self, r):
        return self.lo + self.span * r.random(self.d)


MODELS = {}


def model(*names):
    def put(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return put


def bound(x, lo, hi):
    return np.minimum(np.maximum(x, lo), hi)


def levy(r, d, scale=0.01, beta=1.5):
    s = (math.gamma(1 + beta) * math.sin(math.pi * beta / 2) / (math.gamma((1 + beta) / 2) * beta * 2 ** ((beta - 1) / 2))) ** (1 / beta)
    return scale * r.normal(0, s, d) / np.abs(r.normal(0, 1, d)) ** (1 / beta)


def first_best(X, F):
    i = int(np.argmin(F))
    return X[i].copy(), F[i]


def others(r, n, not_i, k):
    """k different members, none of them `not_i`."""
    pool = [j for j in range(n) if j != not_i]
    return [pool[j] for j in r.permutation(len(pool))[:k]]


# --------------------------------------------------------------------------------------------------------------------- particle swarms

def swarm(E, X, F, p, r, name):
    n, d = X.shape
    V, P, PF = np.zeros((n, d)), X.copy(), F.copy()
    g, gf = first_best(X, F)
    clamped = name == 'ParticleSwarmAlgorithm'
    vlo, vhi = (p['min_velocity'], p['max_velocity']) if clamped else (-np.inf, np.inf)
    w = 1.0 if name == 'ParticleSwarmOptimization' else p['w']
    for _ in E.steps():
        for i in range(n):
            r1, r2 = r.random(d), r.random(d)
            own, common = p['c1'] * r1 * (P[i] - X[i]), p['c2'] * r2 * (g - X[i])
            if name == 'MutatedCenterUnifiedParticleSwarmOptimization':
                r3 = r.random(d)
                own, common = own * r3, common * (1 - r3)
            V[i] = bound(w * V[i] + own + common, vlo, vhi)
            X[i] = E.fix(X[i] + V[i])
            F[i] = E.f(X[i])
            if F[i] < PF[i]:
                P[i], PF[i] = X[i].copy(), F[i]
            if F[i] < gf:
                g, gf = X[i].copy(), F[i]
        if 'Center' in name:
            c = E.fix(np.mean(X, axis=0))
            cf = E.f(c)
            if cf <= gf:
                g, gf = c, cf
        if 'Mutated' in name:
            mean = np.mean(V, axis=0)
            mean = mean / np.max(np.abs(mean))
            for _ in range(p['num_mutations']):
                m = E.fix(g + mean * r.uniform(E.lo, E.hi))
                mf = E.f(m)
                if mf <= gf:
                    g, gf = m, mf


for _n in ('ParticleSwarmAlgorithm', 'ParticleSwarmOptimization', 'CenterParticleSwarmOptimization', 'MutatedParticleSwarmOptimization',
           'MutatedCenterParticleSwarmOptimization', 'MutatedCenterUnifiedParticleSwarmOptimization'):
    model(_n)(lambda E, X, F, p, r, name=_n: swarm(E, X, F, p, r, name))


# --------------------------------------------------------------------------------------------------------------------- bats

def bats(E, X, F, p, r, name):
    n, d = X.shape
    V = np.zeros((n, d))
    g, gf = first_best(X, F)
    plain, adaptive = name in ('BatAlgorithm', 'HybridBatAlgorithm'), name == 'AdaptiveBatAlgorithm'
    loud = p.get('loudness', 0.9)
    louds = np.full(n, p.get('starting_loudness', 0.9))
    for t in E.steps():
        if plain:
            loud = loud * p['alpha']
        for i in range(n):
            if name == 'ParameterFreeBatAlgorithm':
                freq = (E.hi[0] - E.lo[0]) / n * r.normal()
            else:
                freq = p['min_frequency'] + (p['max_frequency'] - p['min_frequency']) * r.random()
            V[i] = V[i] + (X[i] - g) * freq
            if plain:
                near = r.random() < p['pulse_rate'] * (1 - math.exp(-p['gamma'] * t))
            else:
                near = r.random() > (p['pulse_rate'] if adaptive else 0.1)
            if near and name == 'HybridBatAlgorithm':
                c = trial(r, X, i, p['differential_weight'], p['crossover_probability'], p['strategy'], g)
            elif near:
                c = g + (0.1 * loud if plain else p['epsilon'] * louds[i] if adaptive else 0.001) * r.normal(size=d)
            else:
                c = X[i] + V[i]
            c = E.fix(c)
            cf = E.f(c)
            if cf <= F[i] and (r.random() > loud if plain else r.random() < louds[i]):
                X[i], F[i] = c.copy(), cf
            if cf <= gf:
                g, gf = c.copy(), cf
                if adaptive:
                    louds[i] = louds[i] * p['alpha'] if louds[i] * p['alpha'] > 1e-13 else p['starting_loudness']


for _n in ('BatAlgorithm', 'HybridBatAlgorithm', 'AdaptiveBatAlgorithm', 'ParameterFreeBatAlgorithm'):
    model(_n)(lambda E, X, F, p, r, name=_n: bats(E, X, F, p, r, name))


# --------------------------------------------------------------------------------------------------------------------- swarms of other animals

@model('FireflyAlgorithm')
def fireflies(E, X, F, p, r):
    n, d = X.shape
    alpha = p['alpha']
    for _ in E.steps():
        alpha *= p['theta']
        for i in range(n):
            for j in range(n):
                if F[i] >= F[j]:
                    beta = p['beta0'] * math.exp(-p['gamma'] * np.sum((X[i] - X[j]) ** 2))
                    X[i] = E.fix(X[i] + beta * (X[j] - X[i]) + alpha * (r.random(d) - 0.5) * E.span)
                    F[i] = E.f(X[i])


@model('FlowerPollinationAlgorithm')
def flowers(E, X, F, p, r):
    n, d = X.shape
    S = X.copy()
    g, gf = first_best(X, F)
    for _ in E.steps():
        for i in range(n):
            if r.random() > p['p']:
                S[i] = X[i] + levy(r, d) * (X[i] - g)
            else:
                j, k = others(r, n, None, 2)
                S[i] = S[i] + r.random() * (X[j] - X[k])
            S[i] = E.fix(S[i])
            v = E.f(S[i])
            if v <= F[i]:
                X[i], F[i] = S[i].copy(), v
            if v <= gf:
                g, gf = S[i].copy(), v


@model('CuckooSearch')
def cuckoos(E, X, F, p, r):
    n, d = X.shape
    for _ in E.steps():
        g, gf = first_best(X, F)
        for phase in range(2):
            if phase == 0:
                C = [X[i] + levy(r, d) * (X[i] - g) * r.normal(size=d) for i in range(n)]
            else:
                a, b, s = r.permutation(n), r.permutation(n), r.random()
                C = [X[i] + s * (X[a[i]] - X[b[i]]) * (r.random(d) > p['pa']) for i in range(n)]
            C = [E.fix(c) for c in C]
            CF = [E.f(c) for c in C]
            for i in range(n):
                if CF[i] < F[i]:
                    X[i], F[i] = C[i], CF[i]


@model('GreyWolfOptimizer')
def wolves(E, X, F, p, r):
    n, d = X.shape
    order = np.argsort(F)
    lead = [(F[k], X[k].copy()) for k in order[:3]]
    for _ in E.steps():
        a = 2 - 2 * E.used / E.N
        for i in range(n):
            s = np.zeros(d)
            for _, w in lead:
                A, C = 2 * a * r.random(d) - a, 2 * r.random(d)
                s += w - A * np.abs(C * w - X[i])
            X[i] = E.fix(s / 3)
            F[i] = E.f(X[i])
        for i in range(n):
            if F[i] < lead[0][0]:
                lead[0] = (F[i], X[i].copy())
            elif lead[0][0] < F[i] < lead[1][0]:
                lead[1] = (F[i], X[i].copy())
            elif lead[1][0] < F[i] < lead[2][0]:
                lead[2] = (F[i], X[i].copy())


@model('ArtificialBeeColonyAlgorithm')
def bees_abc(E, X, F, p, r):
    n = len(X) // 2
    trials = [0] * n

    def forage(i, j):
        c = X[i].copy()
        k = int(r.integers(E.d))
        c[k] += r.uniform(-1, 1) * (X[i][k] - X[j][k])
        c = E.fix(c)
        v = E.f(c)
        if v < F[i]:
            X[i], F[i], trials[i] = c, v, 0
        else:
            trials[i] += 1
            if trials[i] >= p['limit']:
                X[i] = E.uniform(r)
                F[i], trials[i] = E.f(X[i]), 0

    for _ in E.steps():
        for i in range(n):
            forage(i, int(r.integers(n)))
        q = 1.0 / (np.array(F[:n]) + 0.01)
        q, done, s = q / q.sum(), 0, 0
        while done < n:
            if r.random() < q[s]:
                done += 1
                forage(s, others(r, n, s, 1)[0])
            s = (s + 1) % n


@model('BeesAlgorithm')
def bees(E, X, F, p, r):
    n, d = X.shape
    o = np.argsort(F)
    X, F, ngh = X[o], F[o], p['ngh']
    for _ in E.steps():
        for i in range(p['m']):
            got = None
            for _ in range(p['nep'] if i < p['e'] else p['nsp']):
                c = X[i].copy()
                c[r.integers(d)] += r.uniform(-ngh, ngh)
                c = E.fix(c)
                v = E.f(c)
                if got is None or v < got[0]:
                    got = (v, c)
            if got[0] < F[i]:
                F[i], X[i] = got
        for i in range(p['m'], n):
            X[i] = E.uniform(r)
            F[i] = E.f(X[i])
        o = np.argsort(F)
        X, F, ngh = X[o], F[o], ngh * 0.95


@model('HarrisHawksOptimization')
def hawks(E, X, F, p, r):
    n, d = X.shape
    g, gf = first_best(X, F)
    for t in E.steps():
        factor, mean = 2 * (1 - (t + 1) / E.T), X.mean(axis=0)
        best = (gf, g)
        for i in range(n):
            J, en, q = r.uniform(0, 2), factor * r.uniform(-1, 1), r.random()
            if en >= 1 and q >= 0.5:
                a = X[r.integers(n)].copy()
                X[i] = a - r.random() * np.abs(a - 2 * r.random() * X[i])
            elif abs(en) >= 1 and q < 0.5:
                X[i] = g - mean - r.random() * r.uniform(E.lo, E.hi)
            elif abs(en) >= 0.5 and q >= 0.5:
                X[i] = g - X[i] - en * np.abs(J * g - X[i])
            elif q >= 0.5:
                X[i] = g - en * np.abs(g - X[i])
            else:
                y = E.fix(g - en * np.abs(J * g - (X[i] if abs(en) >= 0.5 else mean)))
                z = E.fix(y + r.random(d) * levy(r, d, p['levy']))
                for c in (y, z):
                    v = E.f(c)
                    if v < best[0]:
                        best = (v, c.copy())
                    if v < F[i]:
                        X[i] = c
                        break
            X[i] = E.fix(X[i])
            F[i] = E.f(X[i])
        k = int(np.argmin(F))
        if best[0] < gf:
            gf, g = best[0], best[1].copy()
        if F[k] < gf:
            gf, g = F[k], X[k].copy()


@model('CatSwarmOptimization')
def cats(E, X, F, p, r):
    n, d = X.shape
    vm = p['max_velocity']
    V = r.uniform(-vm, vm, (n, d))
    g, gf = first_best(X, F)
    for _ in E.steps():
        tracing = set(r.permutation(n)[:int(n * p['mixture_ratio'])].tolist())
        seek = (gf, g)
        for k in range(n):
            if k in tracing:
                V[k] = bound(V[k] + r.random(d) * p['c1'] * (g - X[k]), -vm, vm)
                X[k] = E.fix(X[k] + V[k])
                F[k] = E.f(X[k])
                continue
            copies, vals = [], []
            for _ in range(p['smp'] - bool(p['spc'])):
                c = X[k].copy()
                dims = r.permutation(d)[:int(d * p['cdc'])]
                c[dims] += (1 if r.random() < 0.5 else -1) * p['srd'] * c[dims]
                c = E.fix(c)
                copies.append(c)
                vals.append(E.f(c))
            if p['spc']:
                copies.append(X[k].copy())
                vals.append(F[k])
            lo, hi = min(vals), max(vals)
            q = np.abs(np.array(vals) - hi) / (hi - lo) if lo != hi else np.ones(len(vals))
            b = int(np.argmin(vals))
            if lo < gf:
                j = r.integers(n)
                X[j], F[j] = copies[b].copy(), lo
            if lo < seek[0]:
                seek = (lo, copies[b].copy())
            s = int(r.choice(len(vals), p=q / q.sum()))
            X[k], F[k] = copies[s].copy(), vals[s]
        if seek[0] < gf:
            gf, g = seek
        k = int(np.argmin(F))
        if F[k] < gf:
            gf, g = F[k], X[k].copy()


@model('FishSchoolSearch')
def fish(E, X, F, p, r):
    n, d = X.shape
    W, si, sv, total = np.full(n, p['w_scale'] / 2), p['step_individual_init'] * E.span, p['step_volitive_init'] * E.span, n * p['w_scale'] / 2
    for t in E.steps():
        DX, DF = np.zeros((n, d)), np.zeros(n)
        for i in range(n):
            c = E.fix(X[i] + si * r.uniform(-1, 1, d))
            v = E.f(c)
            if v < F[i]:
                DX[i], DF[i] = c - X[i], F[i] - v
                X[i], F[i] = c, v
        if DF.max() > 0:
            W = W + DF / DF.max()
        W = bound(W, p['min_w'], p['w_scale'])
        if DF.sum() > 0:
            drift = DF @ DX / DF.sum()
            X = np.array([E.fix(x + drift) for x in X])
        centre = W @ X / W.sum()
        sign = -1 if W.sum() > total else 1
        for i in range(n):
            X[i] = E.fix(X[i] + sign * (X[i] - centre) * sv * r.random(d))
            F[i] = E.f(X[i])
        total, k = W.sum(), (t + 1) / E.T
        si = E.span * (p['step_individual_init'] - k * (p['step_individual_init'] - p['step_individual_final']))
        sv = E.span * (p['step_volitive_init'] - k * (p['step_volitive_init'] - p['step_volitive_final']))


@model('BacterialForagingOptimization')
def bacteria(E, X, F, p, r):
    n, d = X.shape
    health, k, j = np.zeros(n), 0, 0

    def signal(x):
        dist = np.sqrt(((X - x) ** 2).sum(axis=1))
        return float(np.sum(-0.1 * np.exp(-0.2 * dist)) + np.sum(0.1 * np.exp(-10.0 * dist))) if p['swarming'] else 0.0

    for _ in E.steps():
        for i in range(n):
            last = F[i] + signal(X[i])
            u = r.uniform(-1, 1, d)
            u = u / np.sqrt(np.sum(u * u))
            m = 0
            while True:
                X[i] = E.fix(X[i] + p['step_size'] * u)
                F[i] = E.f(X[i])
                cost = F[i] + signal(X[i])
                health[i] += cost
                if m >= p['n_swim'] or cost >= last:
                    break
                m += 1
        k += 1
        if k >= p['n_chemotactic']:
            k, j = 0, j + 1
            keep = np.argsort(health)[:(n + 1) // 2]
            X, F, health = np.concatenate([X[keep], X[keep]])[:n], np.concatenate([F[keep], F[keep]])[:n], np.zeros(n)
        if j >= p['n_reproduction']:
            j = 0
            for i in range(n):
                if r.random() < p['prob_elimination']:
                    X[i] = E.uniform(r)
                    F[i] = E.f(X[i])


@model('CamelAlgorithm')
def camels(E, X, F, p, r):
    n, d = X.shape
    S0, E0 = p['supply_init'], p['endurance_init']
    C = [dict(x=X[i].copy(), f=F[i], px=X[i].copy(), pf=F[i], s=S0, ps=S0, e=E0, pe=E0, k=0) for i in range(n)]
    g, gf = first_best(X, F)
    for _ in E.steps():
        for c in C:
            temp = r.uniform(-10, 10)
            c['s'] = c['ps'] * (1 - p['burden_factor'] * c['k'] / E.T)
            c['e'] = c['pe'] * (1 - temp / 10) * (1 - c['k'] / E.T)
            x = c['px'] + r.uniform(-1, 1) * (1 - c['e'] / E0) * math.exp(1 - c['s'] / S0) * (g - c['px'])
            if np.all(x >= E.lo) and np.all(x <= E.hi):
                c['x'], c['f'] = x, E.f(x)
            else:
                c['x'] = c['px']
        for c in C:
            if r.random() < p['visibility'] and c['f'] < c['pf']:
                c['s'], c['e'] = S0, E0
        b = min(C, key=lambda c: c['f'])
        if b['f'] <= gf:
            g, gf = b['x'].copy(), b['f']
        for i, c in enumerate(C):
            if c['pf'] < p['death_rate'] * c['f']:
                x = E.uniform(r)
                v = E.f(x)
                C[i] = dict(x=x, f=v, px=x.copy(), pf=v, s=S0, ps=S0, e=E0, pe=E0, k=0)
            else:
                c.update(px=c['x'].copy(), pf=c['f'], ps=c['s'], pe=c['e'], k=c['k'] + 1)
        b = min(C, key=lambda c: c['f'])
        if b['f'] <= gf:
            g, gf = b['x'].copy(), b['f']


@model('ForestOptimizationAlgorithm')
def forest(E, X, F, p, r):
    d = E.d
    trees, age = [x.copy() for x in X], [0] * len(X)
    dx = np.abs(E.hi) / 5
    for _ in E.steps():
        seeds = []
        for x, a in zip(trees, age):
            if a == 0:
                for _ in range(p['local_seeding_changes']):
                    s, k = x.copy(), r.permutation(d)[:p['local_seeding_changes']]
                    s[k] += r.uniform(-dx[k], dx[k])
                    seeds.append(E.fix(s))
        age = [a + 1 for a in age]
        old = [x for x, a in zip(trees, age) if a > p['lifetime']]
        alive = [(x, a) for x, a in zip(trees, age) if a <= p['lifetime']] + [(s, 0) for s in seeds]
        val = [E.f(x) for x, _ in alive]
        o = np.argsort(val)
        old += [alive[k][0] for k in o[p['area_limit']:]]
        alive, val = [alive[k] for k in o[:p['area_limit']]], [val[k] for k in o[:p['area_limit']]]
        for k in r.permutation(len(old))[:int(p['transfer_rate'] * len(old))]:
            s, dims = old[k].copy(), r.permutation(d)[:p['global_seeding_changes']]
            s[dims] = r.uniform(E.lo[dims], E.hi[dims])
            alive.append((s, 0))
            val.append(E.f(s))
        trees, age = [x.copy() for x, _ in alive], [a for _, a in alive]
        age[int(np.argmin(val))] = 0


# --------------------------------------------------------------------------------------------------------------------- physics and music

@model('GravitationalSearchAlgorithm')
def gravity(E, X, F, p, r):
    n, d = X.shape
    V = np.zeros((n, d))
    for t in E.steps():
        F = np.asarray(F, float)
        m = (F - F.max()) / (F.min() - F.max()) if F.max() > F.min() else np.ones(n)
        m = m / m.sum()
        A = np.zeros((n, d))
        u = r.random((n, d))
        for i in range(n):
            for j in range(n):
                if i != j:
                    R = np.sqrt(np.sum((X[i] - X[j]) ** 2))
                    A[i] += u[j] * p['g0'] / (t + 1) * m[i] * m[j] / (R + 1e-17) * (X[j] - X[i]) / (m[i] + 1e-17)
        V = r.random((n, d)) * V + A
        X = np.array([E.fix(x) for x in X + V])
        F = np.array([E.f(x) for x in X])


@model('HarmonySearch')
def harmony(E, X, F, p, r, width=None):
    n, d = X.shape
    for t in E.steps():
        h = np.zeros(d)
        for k in range(d):
            u, j = r.random(), r.integers(n)
            if u > p['r_accept']:
                h[k] = X[j, k]
            elif u > p['r_pa']:
                h[k] = X[j, k] + (r.uniform(-1, 1) * p['b_range'] if width is None else width(t))
            else:
                h[k] = r.uniform(E.lo[k], E.hi[k])
        h = E.fix(h)
        v = E.f(h)
        w = int(np.argmax(F))
        if v <= F[w]:
            X[w], F[w] = h, v


@model('HarmonySearchV1')
def harmony_v1(E, X, F, p, r):
    harmony(E, X, F, p, r, lambda t: p['bw_max'] * (p['bw_min'] / p['bw_max']) ** ((t + 1) / E.T))


@model('BareBonesFireworksAlgorithm')
def bare_bones(E, X, F, p, r):
    x, v, a = X[0], F[0], E.span.copy()
    for _ in E.steps():
        S = [E.fix(x + r.uniform(-1, 1, E.d) * a) for _ in range(p['num_sparks'])]
        SF = [E.f(s) for s in S]
        k = int(np.argmin(SF))
        if SF[k] < v:
            x, v, a = S[k], SF[k], a * p['amplification_coefficient']
        else:
            a = a * p['reduction_coefficient']


# --------------------------------------------------------------------------------------------------------------------- evolution

def trial(r, X, i, f, cr, strategy, g):
    n, d = len(X), len(X[i])
    k = {'@cross_rand1': 3, '@cross_best1': 2, '@cross_rand2': 5, '@cross_best2': 4, '@cross_curr2rand1': 4, '@cross_curr2best1': 3}[strategy]
    a = others(r, n, i, k) if n > k else list(r.permutation(n)) if n == k else list(r.integers(n, size=k))  # in too small a population anyone will do
    pick = lambda k: np.asarray(X[a[k]], float)
    x = np.array(X[i], float)
    v = {'@cross_rand1': lambda: pick(0) + f * (pick(1) - pick(2)),
         '@cross_best1': lambda: g + f * (pick(0) - pick(1)),
         '@cross_rand2': lambda: pick(0) + f * (pick(1) - pick(2)) + f * (pick(3) - pick(4)),
         '@cross_best2': lambda: g + f * (pick(0) - pick(1)) + f * (pick(2) - pick(3)),
         '@cross_curr2rand1': lambda: x + f * (pick(0) - pick(1)) + f * (pick(2) - pick(3)),
         '@cross_curr2best1': lambda: x + f * (g - pick(0)) + f * (pick(1) - pick(2))}[strategy]()
    take = r.random(d) < cr
    take[r.integers(d)] = True
    return np.where(take, v, x)


def offspring(E, X, i, p, g, r):
    """Evaluate the trial of member i (with several strategies: the best of its trials)."""
    names = p['strategies'] if 'strategies' in p else [p['strategy']]
    C = [E.fix(trial(r, X, i, p['differential_weight'], p['crossover_probability'], s, g)) for s in names]
    v = [E.f(c) for c in C]
    k = int(np.argmin(v))
    return C[k], v[k]


def generation(E, X, F, p, g, r):
    """All trials are built from the old population; accepted: which members were replaced."""
    C = [E.fix(trial(r, X, i, p['differential_weight'], p['crossover_probability'], p['strategy'], g)) for i in range(len(X))] if 'strategy' in p else None
    new = [(c, E.f(c)) for c in C] if C else [offspring(E, X, i, p, g, r) for i in range(len(X))]
    accepted = [v < F[i] for i, (_, v) in enumerate(new)]
    X = np.array([new[i][0] if a else X[i] for i, a in enumerate(accepted)])
    F = np.array([new[i][1] if a else F[i] for i, a in enumerate(accepted)])
    return X, F, accepted


def halve(E, X, F, p, t):
    """Which members the population keeps after iteration t of the dynamic variants."""
    n = len(X)
    if 'rp' in p and t + 1 == E.N // (p['p_max'] * n) + p['rp'] and n > 3:
        m = n // 2
        return [i if F[i] < F[i + m] else i + m for i in range(m)]
    return list(range(n))


@model('DifferentialEvolution', 'MultiStrategyDifferentialEvolution', 'DynNpDifferentialEvolution', 'DynNpMultiStrategyDifferentialEvolution')
def de(E, X, F, p, r):
    for t in E.steps():
        X, F, _ = generation(E, X, F, p, first_best(X, F)[0], r)
        keep = halve(E, X, F, p, t)
        X, F = X[keep], F[keep]


@model('AgingNpDifferentialEvolution')
def ageing_de(E, X, F, p, r):
    size, ages = len(X), [0] * len(X)
    g, gf = first_best(X, F)
    span = abs(p['max_lifetime'] - p['min_lifetime']) / 2
    for _ in E.steps():
        X, F, accepted = generation(E, X, F, p, g, r)
        x = E.uniform(r)
        X, F = np.vstack([X, x]), np.append(F, E.f(x))
        ages = [0 if a else q for q, a in zip(ages, accepted)] + [0]
        if F.min() < gf:
            g, gf = first_best(X, F)
        keep, mean, lo, hi = [], F.mean(), F.min(), F.max()
        for i, f in enumerate(F):
            ages[i] += 1
            if p['age'] == '@proportional':
                life = min(p['min_lifetime'] + span * mean / f, p['max_lifetime'])
            elif p['age'] == '@linear':
                life = p['min_lifetime'] + 2 * span * (f - hi) / (lo - hi)
            elif mean < f:
                life = p['min_lifetime'] + span * (f - hi) / (lo - hi)
            else:
                life = (p['min_lifetime'] + p['max_lifetime']) / 2 + span * (f - mean) / (lo - mean)
            if ages[i] <= round(life):
                keep.append(i)
        X, F, ages = X[keep], F[keep], [ages[i] for i in keep]
        if not keep:
            X = np.array([E.uniform(r) for _ in range(size)])
            F, ages = np.array([E.f(x) for x in X]), [0] * size
        if len(X) > size and r.random() < p['omega']:
            gone = r.integers(len(X))
            keep = [i for i in range(len(X)) if i != gone]
            X, F, ages = X[keep], F[keep], [ages[i] for i in keep]


# -------------------------------------------------------------------------------------------------- trajectory search and its hybrids

class Searcher:
    """One solution with what its local searches know: x, f, search range, whether the last one improved it, and its grade."""

    def __init__(self, x, f, reach, improved):
        self.x, self.f, self.reach, self.improved, self.grade, self.enabled = np.array(x, float), f, reach, improved, 0, True


def shrink(E, s):
    if not s.improved:
        s.reach /= 2
        s.reach[s.reach < 1e-15] = (E.span * 0.4)[s.reach < 1e-15]
    s.improved = False


def probe(E, x, best):
    """(point, value, whether it is a new best one)"""
    x = E.fix(x)
    v = E.f(x)
    new = v < best[0]
    if new:
        best[:] = [v, x.copy()]
    return x, v, new


def ls1(E, s, best, b1, b2, r, random_direction=False):
    shrink(E, s)
    direction = r.uniform(-1, 1, E.d) if random_direction else np.ones(E.d)
    for i in range(E.d):
        for step in (-s.reach[i] * direction[i], 0.5 * s.reach[i]):
            x = s.x.copy()
            x[i] += step
            x, v, new = probe(E, x, best)
            s.grade += b1 * new
            if v < s.f:
                s.grade += b2 * (not (new and random_direction))
                s.x, s.f, s.improved = x, v, True
                break
            if v == s.f:
                break


def ls1v1(E, s, best, b1, b2, r):
    ls1(E, s, best, b1, b2, r, True)


def ls2(E, s, best, b1, b2, r):
    shrink(E, s)
    for _ in range(E.d):
        step = s.reach * r.uniform(-1, 1, E.d) * (r.random(E.d) < 0.25)
        for x in (s.x - step, s.x + step):
            x, v, new = probe(E, x, best)
            s.grade += b1 * new
            if new or v == s.f:
                break
            if v < s.f:
                s.grade += b2
                s.x, s.f, s.improved = x, v, True
                break


def ls3(E, s, best, b1, b2, r):
    z = s.x.copy()
    for i in range(E.d):
        gains = []
        tries = []
        for step in (0.1, -0.1, 0.2):
            x = z.copy()
            x[i] += step
            tries.append(E.fix(x))
        for x in tries:
            x, v, new = probe(E, x, best)
            s.grade += b1 * new + b2 * (v < s.f)
            s.improved = s.improved or new or v < s.f
            gains.append(s.f - v)
        z[i] += r.uniform(0.4, 0.5) * (gains[0] - gains[1]) + r.uniform(0.1, 0.3) * (gains[2] - 2 * gains[0]) + r.random()
        z = E.fix(z)
        v = E.f(z)
        if v < s.f:
            new = v < best[0]
            s.grade += b1 if new else b2
            if new:
                best[:] = [v, z.copy()]
            s.x, s.f, s.improved = z.copy(), v, True


def ls3v1(E, s, best, b1, b2, r):
    width = E.span / 10
    while (width > 0.001).any():
        C = [E.fix(s.x[r.permutation(E.d)] + width * r.uniform(-1, 1, E.d)) for _ in range(3)]
        V = [E.f(c) for c in C]
        s.grade += sum(b1 if v < best[0] else b2 if v < s.f else 0 for v in V)
        k = int(np.argmin(V))
        if V[k] < s.f:
            s.x, s.f, s.improved = C[k], V[k], True
        if V[k] < best[0]:
            best[:] = [V[k], C[k].copy()]
        width = (np.minimum(E.hi, s.x + 2 * width) - np.maximum(E.lo, s.x - 2 * width)) / 10


SEARCH = {'@mts_ls1': ls1, '@mts_ls1v1': ls1v1, '@mts_ls2': ls2, '@mts_ls3': ls3, '@mts_ls3v1': ls3v1}


def search(E, s, best, p, r, names):
    """Try all local searches from s, continue from the best result with the one of the best grade."""
    results, improved = [], s.improved
    for name in names:
        q = Searcher(s.x, s.f, s.reach, improved)
        for _ in range(p['num_tests']):
            SEARCH[name](E, q, best, p['bonus1'], p['bonus2'], r)
        results.append(q)
        improved = q.improved
    q = min(results, key=lambda q: q.f)
    s.x, s.f, s.grade = q.x.copy(), q.f, 0
    name = names[int(np.argmax([q.grade for q in results]))]
    for _ in range(p['num_searches']):
        SEARCH[name](E, s, best, p['bonus1'], p['bonus2'], r)


def enable(S, k):
    for i in np.argsort([-s.grade for s in S])[:k]:
        S[i].enabled = True


@model('MultipleTrajectorySearch', 'MultipleTrajectorySearchV1')
def trajectories(E, X, F, p, r):
    S = [Searcher(x, f, E.span / 2, True) for x, f in zip(X, F)]
    g, gf = first_best(X, F)
    best = [gf, g]
    for _ in E.steps():
        for s in S:
            if s.enabled:
                s.enabled = False
                search(E, s, best, p, r, p.get('local_searches', ['@mts_ls1v1', '@mts_ls2']))
        for _ in range(p.get('num_searches_best', 0)):
            ls1(E, Searcher(best[1], best[0], E.span / 10, False), best, 10, 1, r)
        enable(S, p['num_enabled'])


@model('DifferentialEvolutionMTS', 'DifferentialEvolutionMTSv1', 'DynNpDifferentialEvolutionMTS', 'DynNpDifferentialEvolutionMTSv1', 'MultiStrategyDifferentialEvolutionMTS',
       'MultiStrategyDifferentialEvolutionMTSv1', 'DynNpMultiStrategyDifferentialEvolutionMTS', 'DynNpMultiStrategyDifferentialEvolutionMTSv1')
def de_mts(E, X, F, p, r):
    S = [Searcher(x, f, E.span / 4, False) for x, f in zip(X, F)]
    g, gf = first_best(X, F)
    best = [gf, g]
    for t in E.steps():
        X, F = np.array([s.x for s in S]), np.array([s.f for s in S])
        X, F, accepted = generation(E, X, F, p, best[1], r)
        S = [Searcher(X[i], F[i], E.span / 4, False) if a else S[i] for i, a in enumerate(accepted)]
        if F.min() < best[0]:
            g, gf = first_best(X, F)
            best = [gf, g]
        S = [S[i] for i in halve(E, X, F, p, t)]
        for s in S:
            if s.enabled:
                s.enabled = False
                search(E, s, best, p, r, p.get('local_searches', ['@mts_ls1v1', '@mts_ls2', '@mts_ls3v1']))
        enable(S, p['num_enabled'])


@model('SuccessHistoryAdaptiveDifferentialEvolution')
def shade(E, X, F, p, r, reduce=False, improved=False):
    size, d = X.shape
    H = p['hist_mem_size']
    MC, MF, k, archive = [0.8 if improved else 0.5] * H, [0.5] * H, 0, []
    share = p['pbest_start'] if improved else p['pbest_factor']
    for _ in E.steps():
        n = len(X)
        cap, done = round(n * p['extern_arc_rate']), E.used / E.N
        o = np.argsort(F)
        X, F = X[o], F[o]
        best = max(2, round(n * share))
        C, CF, par = [], [], []
        for i in range(n):
            h = r.integers(H)
            mc, mf = (0.9, 0.9) if improved and h == H - 1 else (MC[h], MF[h])
            cr = 0.0 if mc == -1 or improved and mc < 0 else min(1.0, max(0.0, r.normal(mc, 0.1)))
            f = -1.0
            while f <= 0:
                f = mf + 0.1 * math.tan(math.pi * (r.random() - 0.5))
            f = min(f, 1.0)
            if improved:
                cr = max(cr, 0.5 if done < 0.25 else 0.25 if done < 0.5 else 0.0)
                f = min(f, 0.7 if done < 0.25 else 0.8 if done < 0.5 else 0.9 if done < 0.75 else 1.0)
            ia = others(r, n, i, 1)[0]
            a = X[ia]
            pb = X[r.integers(best)]
            pool = [X[q] for q in range(n) if q not in (i, ia)] + archive
            b = pool[r.integers(len(pool))]
            v = X[i] + f * (pb - X[i]) + f * (a - b)
            take = r.random(d) < cr
            take[r.integers(d)] = True
            v = np.where(take, v, X[i])
            v = np.where(v < E.lo, (E.lo + X[i]) / 2, np.where(v > E.hi, (E.hi + X[i]) / 2, v))
            C.append(E.fix(v))
            par.append((f, cr))
        CF = [E.f(c) for c in C]
        won = []
        for i in range(n):
            if CF[i] < F[i]:
                if cap > 1:
                    if len(archive) < cap:
                        archive.append(X[i].copy())
                    else:
                        archive[r.integers(cap)] = X[i].copy()
                won.append((F[i] - CF[i],) + par[i])
            if CF[i] <= F[i]:
                X[i], F[i] = C[i], CF[i]
        if won:
            w, f, c = (np.array(z) for z in zip(*won))
            old = MF[k], MC[k]
            MF[k] = (w @ f ** 2) / (w @ f)
            MC[k] = -1 if w @ c == 0 or MC[k] == -1 else (w @ c ** 2) / (w @ c)
            if improved:
                MF[k], MC[k] = (MF[k] + old[0]) / 2, (MC[k] + old[1]) / 2
            k = (k + 1) % H
        left = max(4, round(size + (4 - size) * E.used / E.N))
        if reduce and left < n:
            keep = sorted(np.argsort(F, kind='stable')[:left].tolist())
            X, F, archive = X[keep], F[keep], archive[:int(left * p['extern_arc_rate'])]
            if improved:
                share = p['pbest_start'] + (p['pbest_end'] - p['pbest_start']) * E.used / E.N


@model('LpsrSuccessHistoryAdaptiveDifferentialEvolution')
def lshade(E, X, F, p, r):
    shade(E, X, F, p, r, reduce=True)


@model('ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution')
def ilshade(E, X, F, p, r):
    shade(E, X, F, p, r, reduce=True, improved=True)


@model('GeneticAlgorithm')
def genetic(E, X, F, p, r):
    n, d = X.shape
    g, gf = first_best(X, F)
    for _ in E.steps():
        S = []
        for i in range(n):
            if p['selection'] == '@tournament_selection':
                k = r.permutation(n)[:p['tournament_size']]
                S.append(X[k[int(np.argmin(F[k]))]].copy())
            else:
                S.append(X[i].copy() if r.random() < F[:i + 1].sum() / F.sum() else g.copy())
        C = []
        for i in range(n):
            o = S[others(r, n, i, 1)[0]]
            if p['crossover'] == '@uniform_crossover':
                take = r.random(d) < p['crossover_rate']
                take[r.integers(d)] = True
                C.append(np.where(take, o, S[i]))
            elif p['crossover'] == '@two_point_crossover':
                a, b = sorted(r.integers(0, d, 2))
                c = S[i].copy()
                c[a:b] = o[a:b]
                C.append(c)
            else:
                q = p['crossover_rate'] + (1 + 2 * p['crossover_rate']) * r.random(d)
                C.append(q * S[i] + (1 - q) * o)
        M = []
        for i in range(n):
            if p['mutation'] == '@mutation_uros':
                M.append(E.fix(bound(r.normal(C[i], p['mutation_rate'] * E.span), E.lo, E.hi)))
            else:
                take = r.random(d) < p['mutation_rate']
                take[r.integers(d)] = True
                M.append(E.fix(np.where(take, E.uniform(r), C[i if p['mutation'] == '@uniform_mutation' else r.integers(n)])))
        X, F = np.array(M), np.array([E.f(m) for m in M])
        b, bf = first_best(X, F)
        if bf < gf:
            g, gf = b, bf


@model('EvolutionStrategy1p1', 'EvolutionStrategyMp1')
def es_plus_one(E, X, F, p, r):
    x, v, rho, hits = X[0], F[0], 1.0, 0
    for t in E.steps():
        if (t + 1) % p['k'] == 0:
            if hits / p['k'] != 0.2:
                rho = rho * (p['c_a'] if hits / p['k'] > 0.2 else p['c_r']) if rho > 1e-20 else 1
            hits = 0
        C = [E.fix(x + rho * r.normal(size=E.d)) for _ in range(p.get('mu', 1))]
        CF = [E.f(c) for c in C]
        b = int(np.argmin(CF))
        if CF[b] < v:
            x, v, hits = C[b], CF[b], hits + 1


@model('EvolutionStrategyMpL')
def es_plus(E, X, F, p, r):
    pop, hits = [[F[i], X[i], 1.0] for i in range(len(X))], 0
    for t in E.steps():
        if (t + 1) % p['k'] == 0:
            if hits / p['k'] != 0.2:
                for m in pop:
                    m[2] *= p['c_a'] if hits / p['k'] > 0.2 else p['c_r']
            hits = 0
        kids = []
        for _ in range(p['lam']):
            m = pop[r.integers(p['mu'])]
            c = E.fix(m[1] + m[2] * r.normal(size=E.d))
            kids.append([E.f(c), c, 1.0])
        new = sorted(kids + pop, key=lambda m: m[0])[:p['mu']]
        hits += sum(not any(m is q for q in pop) for m in new)
        pop = new


@model('EvolutionStrategyML')
def es_comma(E, X, F, p, r):
    pop = list(X)
    for _ in E.steps():
        kids = []
        for _ in range(p['lam']):
            c = E.fix(pop[r.integers(p['mu'])] + r.normal(size=E.d))
            kids.append((E.f(c), c))
        pop = [c for _, c in sorted(kids, key=lambda k: k[0])[:p['mu']]]


def monkeys(E, X, F, p, r, name):
    n, d = X.shape
    v2 = name.endswith('V2')
    PB, PF, king = X.copy(), F.copy(), np.zeros(n, bool)
    g, gf = first_best(X, F)
    king[r.permutation(n)[:int(p['population_rate'] * n)]] = True
    for _ in E.steps():
        for i in range(n):
            if not king[i]:
                X[i] = E.fix(PB[i] + p['fluctuation_coeff'] * r.random(d) * (g - X[i]))
                F[i] = E.f(X[i])
            else:
                king[i] = False
                got = (F[i], X[i].copy()) if v2 else None
                for _ in range(int(p['c'] * (n if v2 else d))):
                    if v2:
                        a, b = others(r, n, None, 2)
                        c = X[i] - p['fc'] * (X[a] - X[b])
                    else:
                        c = X[i] + p['fc'] * r.random(d) * X[i]
                    c = E.fix(c)
                    v = E.f(c)
                    if got is None or v < got[0]:
                        got = (v, c)
                F[i], X[i] = got
            if F[i] < PF[i]:
                PB[i], PF[i] = X[i].copy(), F[i]
        king[r.permutation(n)[:int(p['population_rate'] * n)]] = True
        b, bf = first_best(X, F)
        if bf <= gf:
            g, gf = b, bf


model('MonkeyKingEvolutionV1')(lambda E, X, F, p, r: monkeys(E, X, F, p, r, 'V1'))
model('MonkeyKingEvolutionV2')(lambda E, X, F, p, r: monkeys(E, X, F, p, r, 'V2'))


@model('MonkeyKingEvolutionV3')
def monkeys_v3(E, X, F, p, r):
    n, d = X.shape
    c = math.ceil(p['c'] * d)
    g, gf = first_best(X, F)
    for _ in E.steps():
        K = [E.fix(g + p['fc'] * (X[r.integers(n)] - X[r.integers(n)])) for _ in range(c)]
        KF = [E.f(k) for k in K]
        b = int(np.argmin(KF))
        if KF[b] <= gf:
            g, gf = K[b].copy(), KF[b]
        for i in range(n):
            keep = np.zeros(d, bool)
            keep[r.permutation(d)[:i % d + 1]] = True
            X[i] = E.fix(np.where(keep, X[i], g))
        F = np.array([E.f(x) for x in X])
        q, qf = first_best(X, F)
        if qf <= gf:
            g, gf = q, qf
        w = int(np.argmax(F))
        if KF[b] <= F[w]:
            X[w], F[w] = K[b].copy(), KF[b]


# --------------------------------------------------------------------------------------------------------------------- single solutions

@model('HillClimbAlgorithm')
def hill(E, X, F, p, r):
    x = X[0]
    for _ in E.steps():
        y = E.uniform(r)
        v = E.f(y)
        while True:
            c = E.fix(x + p['delta'] * r.normal(size=E.d))
            w = E.f(c)
            if not w < v:
                break
            y, v = c, w
        x = y


@model('SimulatedAnnealing')
def annealing(E, X, F, p, r):
    x, v, temp = X[0], F[0], p['starting_temperature']
    for _ in E.steps():
        c = E.fix(x + p['delta'] * (r.random(E.d) - 0.5))
        w = E.f(c)
        if w < v or temp > 0 and r.random() < math.exp(-(w - v) / temp):
            x, v = c, w
        temp -= p['delta_temperature'] if p['cooling_method'] == '@cool_delta' else p['starting_temperature'] / E.N


@model('RandomSearch')
def random_search(E, X, F, p, r):
    for _ in E.steps():
        E.f(E.uniform(r))


@model('NelderMeadMethod')
def simplex(E, X, F, p, r):
    for _ in E.steps():
        o = np.argsort(F)
        X, F = X[o], F[o]
        c = X[:-1].mean(axis=0)
        go = lambda k: E.fix(c + k * (c - X[-1]))
        a = go(p['alpha'])
        av = E.f(a)
        if F[0] <= av < F[-2]:
            X[-1], F[-1] = a, av
        elif av < F[0]:
            b = go(p['gamma'])
            bv = E.f(b)
            X[-1], F[-1] = (b, bv) if bv < av else (a, av)
        else:
            b = go(p['rho'])
            bv = E.f(b)
            if bv < F[-1]:
                X[-1], F[-1] = b, bv
            else:
                X[1:] = [E.fix(X[0] + p['sigma'] * (x - X[0])) for x in X[1:]]
                F[1:] = [E.f(x) for x in X[1:]]


# --------------------------------------------------------------------------------------------------------------------- fireworks

def reflected(x, lo, hi):
    y = np.mod(x - lo, 2 * (hi - lo))
    return lo + np.where(y > hi - lo, 2 * (hi - lo) - y, y)


def fireworks(E, X, F, p, r, name):
    n, d = X.shape
    M = p['num_sparks']
    plain, core = name == 'FireworksAlgorithm', name.startswith('Dynamic')
    g, gf = first_best(X, F)
    A = E.span.copy()
    tiny = np.finfo(float).eps

    def inside(x):
        return np.where((x < E.lo) | (x > E.hi), E.lo + np.mod(x, E.span) if plain else r.uniform(E.lo, E.hi), x)

    def some():
        return r.permutation(d)[:int(r.integers(d))]

    def explode(x, amplitude):
        x, z = x.copy(), some()
        x[z] += (amplitude[z] if np.ndim(amplitude) else amplitude) * (r.uniform(-1, 1) if plain else r.uniform(-1, 1, len(z)))
        return inside(x)

    def limits(s):
        return round(p['a'] * M) if s < p['a'] * M else round(p['b'] * M) if s > p['b'] * M and p['a'] < p['b'] < 1 else round(s)

    for _ in E.steps():
        worst, best = F.max(), F.min()
        sparks = [limits(M * (worst - v + tiny) / (np.sum(worst - F) + tiny)) for v in F]
        amps = p['max_amplitude'] * (F - best + tiny) / (np.sum(F - best) + tiny)
        if name == 'EnhancedFireworksAlgorithm':
            k = E.used
            amps = np.maximum(amps, p['amplitude_init'] - (p['amplitude_init'] - p['amplitude_final']) / E.N * math.sqrt(k * (2 * E.N - k)))
        S = [x.copy() for x in X] + [explode(X[i], amps[i]) for i in range(n) for _ in range(sparks[i])]
        if name != 'DynamicFireworksAlgorithm':
            for i in r.permutation(len(S))[:p['num_gaussian']]:
                x, z = S[i].copy(), some()
                x[z] = x[z] * r.normal(1, 1) if plain else x[z] + (g[z] - x[z]) * r.normal()
                S.append(inside(x))
        C = [explode(g, A) for _ in range(limits(M))] if core else []
        V = np.array([E.f(s) for s in S])
        b = int(np.argmin(V))
        if plain:
            rest = [i for i in range(len(S)) if i != b]
            dist = np.array([sum(np.sqrt(np.sum((S[i] - S[j]) ** 2)) for j in rest) for i in rest])
            pick = [rest[i] for i in r.choice(len(rest), n - 1, replace=False, p=dist / dist.sum() if dist.sum() > 0 else None)]
            X, F = np.array([S[i].copy() for i in [b] + pick]), np.array([V[i] for i in [b] + pick])
        else:
            for i in range(0 if core else 1, n):
                k = r.integers(len(S))
                if V[k] < F[i]:
                    X[i], F[i] = S[k].copy(), V[k]
            if core or V[b] < F[0]:
                X[0], F[0] = S[b].copy(), V[b]
        if not core:
            if V[b] < gf:
                g, gf = S[b].copy(), V[b]
            continue
        W = [E.f(c) for c in C]
        k = int(np.argmin(W))
        if W[k] <= gf:
            g, gf = C[k].copy(), W[k]
        if gf >= F[0]:
            g, gf, A = X[0].copy(), F[0], A * p['amplification_coeff']
        else:
            A = A * p['reduction_coeff']


for _n in ('FireworksAlgorithm', 'EnhancedFireworksAlgorithm', 'DynamicFireworksAlgorithm', 'DynamicFireworksAlgorithmGauss'):
    model(_n)(lambda E, X, F, p, r, name=_n: fireworks(E, X, F, p, r, name))


# --------------------------------------------------------------------------------------------------------------------- glowworms, mantis shrimps, societies, antibodies

def glowworms(E, X, F, p, r, name):
    n, d = X.shape
    sense = math.sqrt(np.sum(E.span ** 2))
    L, R = np.full(n, float(p['l0'])), np.full(n, sense)
    for _ in E.steps():
        L = (1 - p['rho']) * L + p['gamma'] * np.asarray(F)
        if name.endswith('V1'):
            L = np.maximum(L, 0)
        Y, size = X.copy(), []
        for i in range(n):
            near = [j for j in range(n) if j != i and np.sqrt(np.sum((X[i] - X[j]) ** 2)) <= R[i] and L[j] <= L[i]]
            size.append(len(near))
            total = sum(L[j] - L[i] for j in near) + np.finfo(float).eps
            u, got = r.random(), int(r.integers(n))
            low = 0
            for j in near:
                low, before = low + (L[j] - L[i]) / total, low
                if before < u < low:
                    got = j
                    break
            Y[i] = E.fix(X[i] + p['s'] * (X[got] - X[i]) / (np.sqrt(np.sum((X[got] - X[i]) ** 2)) + 1e-31))
        for i in range(n):
            k = size[i]
            if name.endswith('V1'):
                new = sense / (1 + p['beta'] * k / (math.pi * sense ** 2))
            elif name.endswith('V2'):
                new = p['alpha'] + (sense - p['alpha']) / (1 + p['beta'] * k)
            elif name.endswith('V3'):
                new = R[i] + (p['beta'] if k < p['nt'] else -p['beta1']) * k
            else:
                new = R[i] + p['beta'] * (p['nt'] - k)
            R[i] = max(0.0, min(sense, new))
        X, F = Y, [E.f(y) for y in Y]


for _n in ('GlowwormSwarmOptimization', 'GlowwormSwarmOptimizationV1', 'GlowwormSwarmOptimizationV2', 'GlowwormSwarmOptimizationV3'):
    model(_n)(lambda E, X, F, p, r, name=_n: glowworms(E, X, F, p, r, name))


@model('MantisSearchAlgorithm')
def mantis(E, X, F, p, r):
    n, d = X.shape
    unit = p['normalize_space']
    lo, hi = (-np.ones(d), np.ones(d)) if unit else (E.lo, E.hi)
    real = (lambda z: E.lo + (z + 1) / 2 * E.span) if unit else (lambda z: z)
    Z = 2 * (X - E.lo) / E.span - 1 if unit else X.copy()
    b = int(np.argmin(F))
    g, gf = Z[b].copy(), F[b]
    kind = [int(round(1 + 2 * r.random())) for _ in range(n)]
    for _ in E.steps():
        Y = Z.copy()
        for i in range(n):
            if kind[i] == 1:
                j = int(r.integers(n))
                j = (j + 1) % n if j == i else j
                Y[i] = g - (Z[i] - g) + r.uniform(-1, 1) * (Z[j] - Z[i])
            elif kind[i] == 2:
                Y[i] = g * math.cos(r.uniform(math.pi, 2 * math.pi))
            else:
                Y[i] = g * (1 + (1 if r.random() < 0.5 else -1) * p['k_value'])
            Y[i] = reflected(Y[i], lo, hi) if p['use_reflection'] else E.fixer(Y[i], lo, hi)
        F = np.array([E.f(real(y)) for y in Y])
        b = int(np.argmin(F))
        if F[b] < gf:
            g, gf = Y[b].copy(), F[b]

        def polarization(a):
            """(type, distance from the middle of the type)"""
            q = math.pi / 8
            if 3 * q <= a <= 5 * q:
                return 1, abs(a - 4 * q)
            if a <= q or a >= 7 * q:
                return 2, min(a, 8 * q - a)
            return 3, min(abs(a - 2 * q), abs(a - 6 * q))

        for i in range(n):
            size = np.sqrt(np.sum(Z[i] ** 2)) * np.sqrt(np.sum(Y[i] ** 2))
            left = polarization(math.acos(max(-1.0, min(1.0, np.sum(Z[i] * Y[i]) / size))) if size else 0.0)
            right = polarization(r.random() * math.pi)
            kind[i] = left[0] if left[1] < right[1] else right[0]
        Z = Y


@model('AnarchicSocietyOptimization')
def society(E, X, F, p, r):
    n, d = X.shape
    P, PF = X.copy(), F.copy()
    g, gf = first_best(X, F)
    reach = math.sqrt(np.sum(E.span ** 2))

    def part(x, source, block):
        """x with a block, or a random subset, of its components taken from the source."""
        x = x.copy()
        if block:
            a, b = sorted(r.permutation(d)[:2])
            x[a:b] = source[a:b]
        else:
            take = r.random(d) < p['cr']
            x[take] = source[take]
        return x

    for _ in E.steps():
        Y, YF = [], []
        for i in range(n):
            near = [j for j in range(n) if np.sqrt(np.sum((X[i] - X[j]) ** 2)) / reach <= p['nl']]
            nb = min(F[j] for j in near)
            fick = 1 - p['alpha'] * gf / F[i] - (1 - p['alpha']) * PF[i] / F[i]
            ext = 1 - math.exp(-p['gamma'] * abs(F[i] - nb))
            inn = 1 - math.exp(-p['theta'] * abs(F[i] - PF[i]))
            o = X[others(r, n, i, 1)[0]]
            current = lambda x: part(x, x + p['f'] * r.normal(size=d), fick < 0.5)
            social = lambda x: part(x, g if ext < 0.5 else o, ext < 0.25 or 0.5 <= ext < 0.75)
            past = lambda x: part(x, P[i], inn < 0.5)
            if p['combination'] == '@sequential':
                y = E.fix(social(past(current(X[i]))))
            else:
                C = [E.fix(m(X[i])) for m in (current, social, past)]
                if p['combination'] == '@crossover':
                    y = np.array([C[r.integers(3)][k] if r.random() < p['cr'] else X[i][k] for k in range(d)])
                else:
                    V = [E.f(c) for c in C]
                    Y.append(C[int(np.argmin(V))])
                    YF.append(min(V))
                    continue
            Y.append(y)
            YF.append(E.f(y))
        X, F = np.array(Y), np.array(YF)
        for i in range(n):
            if F[i] < PF[i]:
                P[i], PF[i] = X[i].copy(), F[i]
        b, bf = first_best(X, F)
        if bf < gf:
            g, gf = b, bf


@model('ClonalSelectionAlgorithm')
def antibodies(E, X, F, p, r):
    n, d, m = len(X), E.d, p['bits_per_param']
    clones = int(n * p['clone_factor'])
    decode = lambda bits: E.lo + E.span * np.array([int(''.join('1' if b else '0' for b in row), 2) for row in bits]) / (2 ** m - 1)
    # the initial population the caller drew is not made of bit strings: draw it anew
    del E.calls[:]
    pool = []
    for _ in range(n):
        bits = r.random((d, m)) > 0.5
        pool.append((E.f(decode(bits)), bits))
    for _ in E.steps():
        new = []
        for v, bits in pool:
            rate = math.exp(-p['mutation_factor'] * v)
            new += [np.logical_xor(bits, r.random((d, m)) > rate) for _ in range(clones)]
        pool = sorted(pool + [(E.f(decode(b)), b) for b in new], key=lambda q: q[0])[:n]
        more = [r.random((d, m)) > 0.5 for _ in range(p['num_rand'])]
        pool = sorted(pool + [(E.f(decode(b)), b) for b in more], key=lambda q: q[0])[:n]


@model('OppositionVelocityClampingParticleSwarmOptimization')
def opposition(E, X, F, p, r):
    n, d = X.shape
    V, P, PF = np.zeros((n, d)), X.copy(), F.copy()

    def opposite():
        nonlocal X, F
        O = [bound(E.lo + E.hi - x, E.lo, E.hi) for x in X]
        Y, YF = list(X) + O, list(F) + [E.f(o) for o in O]
        k = np.argsort(YF)[:n]
        X, F = np.array([Y[i] for i in k]), np.array([YF[i] for i in k])
        for i in range(n):
            if F[i] < PF[i]:
                P[i], PF[i] = X[i].copy(), F[i]

    opposite()
    g, gf = first_best(X, F)
    vlo, vhi = -p['sigma'] * E.span, p['sigma'] * E.span
    for t in E.steps():
        if r.random() < p['p0']:
            opposite()
            if F[0] < gf:
                g, gf = X[0].copy(), F[0]
            continue
        w = p['w_max'] - (p['w_max'] - p['w_min']) * (t + 1) / E.T
        for i in range(n):
            V[i] = bound(w * V[i] + p['c1'] * r.random(d) * (P[i] - X[i]) + p['c2'] * r.random(d) * (g - X[i]), vlo, vhi)
            X[i] = E.fix(X[i] + V[i])
            F[i] = E.f(X[i])
            if F[i] < PF[i]:
                P[i], PF[i] = X[i].copy(), F[i]
                if F[i] < gf:
                    g, gf = X[i].copy(), F[i]
        vlo, vhi = p['sigma'] * X.min(axis=0), p['sigma'] * X.max(axis=0)


# ------------------------------------------------------------------------------- rules that are the implemented ones (they depart from their publications)

@model('SelfAdaptiveDifferentialEvolution')
def jde(E, X, F, p, r):
    """Trials are built one after the other in the population they are going to replace."""
    n = len(X)
    A = [(2.0, 0.5)] * n
    g, gf = first_best(X, F)
    for _ in E.steps():
        B, Y = [], X.copy()
        for f, c in A:
            B.append((r.uniform(p['f_lower'], p['f_upper']) if r.random() < p['tao1'] else f, r.random() if r.random() < p['tao2'] else c))
        for i in range(n):
            Y[i] = trial(r, Y, i, B[i][0], B[i][1], p['strategy'], g)
        for i in range(n):
            y = E.fix(Y[i])
            v = E.f(y)
            if v < F[i]:
                X[i], F[i], A[i] = y, v, B[i]
        if F.min() < gf:
            g, gf = first_best(X, F)


@model('MultiStrategySelfAdaptiveDifferentialEvolution')
def ms_jde(E, X, F, p, r):
    de(E, X, F, p, r)


@model('SelfAdaptiveBatAlgorithm', 'HybridSelfAdaptiveBatAlgorithm')
def self_adaptive_bats(E, X, F, p, r):
    n, d = X.shape
    A, R, V = [p['starting_loudness']] * n, [p['pulse_rate']] * n, np.zeros((n, d))
    g, gf = first_best(X, F)
    for _ in E.steps():
        for i in range(n):
            if r.random() < p['tao_1']:
                A[i] = r.uniform(p['min_loudness'], p['max_loudness'])
            if r.random() < p['tao_2']:
                R[i] = r.uniform(p['min_pulse_rate'], p['max_pulse_rate'])
            V[i] += (X[i] - g) * r.uniform(p['min_frequency'], p['max_frequency'])
            if r.random() <= R[i]:
                x = X[i] + V[i]
            elif 'strategy' in p:
                x = trial(r, X, i, p['differential_weight'], p['crossover_probability'], p['strategy'], g)
            else:
                x = g + p['epsilon'] * A[i] * r.standard_normal(d)
            x = E.fix(x)
            v = E.f(x)
            if v <= F[i] and r.random() < (p['min_loudness'] - A[i]) / p['starting_loudness']:
                X[i], F[i] = x, v
            if v <= gf:
                g, gf = x.copy(), v


@model('SineCosineAlgorithm')
def sine_cosine(E, X, F, p, r):
    g, gf = first_best(X, F)
    for t in E.steps():
        r1 = p['a'] * (1 - (t + 1) / E.T)
        angle, weight = 2 * math.pi * r.random(), r.uniform(p['r_min'], p['r_max'])
        wave = math.sin(angle) if r.random() < 0.5 else math.cos(angle)
        X = np.array([E.fix(x + r1 * wave * np.abs(weight * g - x)) for x in X])
        F = np.array([E.f(x) for x in X])
        if F.min() < gf:
            g, gf = first_best(X, F)


@model('MothFlameOptimizer')
def moths(E, X, F, p, r):
    n, d = X.shape
    for t in E.steps():
        flames = X[np.argsort(F)]
        last = round(n - (t + 1) * (n - 1) / E.T)
        a = -1 - (t + 1) / E.T
        new = []
        for i in range(n):
            q = (a - 1) * r.random(d) + 1
            new.append(E.fix(np.abs(flames[i] - X[i]) * np.exp(q) * np.cos(2 * math.pi * q) + flames[min(i, last)]))
        X = np.array(new)
        F = np.array([E.f(x) for x in X])


@model('MonarchButterflyOptimization')
def butterflies(E, X, F, p, r):
    n, d = X.shape
    n1 = math.ceil(p['partition'] * n)
    X = X[np.argsort(F)]
    best = X[0].copy()
    for t in E.steps():
        elite, first, second = X[:2].copy(), X[:n1].copy(), X[n1:].copy()
        for i in range(n1):
            for j in range(d):
                X[i, j] = first[r.integers(n1), j] if r.random() * p['period'] <= p['partition'] else second[r.integers(n - n1), j]
        X = np.array([E.fix(x) for x in X])
        for i in range(n1, n):
            for j in range(d):
                if r.random() >= p['partition']:
                    X[i, j] = best[j]
                else:
                    X[i, j] = second[r.integers(n - n1), j]
                    if r.random() > p['partition']:
                        X[i, j] += (sum(math.tan(math.pi * r.random()) for _ in range(10)) - 0.5) / (t + 1) ** 2
        X = np.array([E.fix(x) for x in X])
        for again in (True, False):
            F = np.array([E.f(x) for x in X])
            X = X[np.argsort(F, kind='stable')]
            if again:
                best = X[0].copy()
                X[-2:] = elite


@model('KrillHerd')
def krill(E, X, F, p, r):
    n, d = X.shape
    tiny = np.finfo(float).eps
    N, S = np.zeros((n, d)), np.zeros((n, d))
    dist = lambda a, b: math.sqrt(((a - b) ** 2).sum())
    toward = lambda x, y: (y - x + tiny) / (dist(y, x) + tiny)
    for t in E.steps():
        left = 1 - (t + 1) / E.T
        b, w = int(np.argmin(F)), int(np.argmax(F))
        K = lambda u, v: (u - v + tiny) / (F[w] - F[b] + tiny)
        food = E.fix((X / F[:, None]).sum(axis=0) / (1 / F).sum())
        food_f = E.f(food)
        for i in range(n):
            reach = sum(dist(X[i], x) for x in X) / (p['max_neighbors'] * n)
            near = [j for j in range(n) if j != i and dist(X[i], X[j]) < reach] or [int(r.integers(n))]
            pull = sum((K(F[i], F[j]) * toward(X[i], X[j])).sum() for j in near)
            N[i] = p['n_max'] * (pull + 2 * (1 + r.random() * (t + 1) / E.T)) + p['w_neighbor'] * N[i]
        for i in range(n):
            forage = 2 * left * K(F[i], food_f) * toward(X[i], food) if F[b] < F[i] else 0
            S[i] = p['foraging_speed'] * (forage + K(F[i], F[b]) * toward(X[i], X[b])) + p['w_foraging'] * S[i]
        new = []
        for i in range(n):
            x = X[i] + p['c_t'] * E.span.sum() * (N[i] + S[i] + p['diffusion_speed'] * left * r.uniform(-1, 1, d))
            x = np.where(r.random(d) < p['crossover_rate'] * K(F[i], F[b]), X[i], x)
            new.append(E.fix(np.where(r.random(d) < p['mutation_rate'] / (K(F[i], F[b]) + 1e-31), x, X[b] + r.random(d))))
        X = np.array(new)
        F = np.array([E.f(x) for x in X])


@model('CoralReefsOptimization')
def corals(E, X, F, p, r):
    n, d = X.shape

    def brood(C):
        C = [E.fix(np.where(r.random(d) < p['mutation_rate'], c, E.uniform(r))) for c in C]
        return np.array(C), np.array([E.f(c) for c in C])

    def settle(X, F, C, CF):
        def push(reef):
            near = [i for i, c in enumerate(C) if any(((c - x) ** 2).sum() < p['phi'] ** 2 for x in reef)]
            if any(near):
                for i in near:
                    C[i] = E.fix(np.where(r.random(d) < p['mutation_rate'], C[i], C[i] + p['mutation_rate'] * r.random(d)))
                CF[near] = [E.f(C[i]) for i in near]
        for _ in range(p['k']):
            push(X)
            push(C.copy())
        keep = [i for i, c in enumerate(C) if any(((c - x) ** 2).sum() >= p['phi'] ** 2 for x in X)]
        return np.vstack([X, C[keep]]), np.append(F, CF[keep])

    for t in E.steps():
        spawn = r.permutation(len(X))[:int(n * p['broadcast_prob'])]
        A = X[spawn].copy()
        for i in range(len(A) // 2):
            A[i] = np.where(r.random(d) < p['crossover_rate'], A[i], A[2 * i])
        AF = np.array([E.f(a) for a in A])
        B, BF = brood(np.delete(X, spawn, 0))
        X, F = settle(X, F, np.vstack([A, B]), np.append(AF, BF))
        C, CF = brood(X[np.argsort(F)[:int(n * p['asexual_reproduction_prob'])]])
        X, F = settle(X, F, C, CF)
        if (t + 1) % p['k'] == 0:
            worst = np.argsort(F)[::-1][:int(n * p['depredation_prob'])]
            X, F = np.delete(X, worst, 0), np.delete(F, worst)


@model('ComprehensiveLearningParticleSwarmOptimizer')
def learning_swarm(E, X, F, p, r):
    n, d = X.shape
    V, P, PF = np.zeros((n, d)), X.copy(), F.copy()
    G, GF = X[F.argmin()].copy(), F.min()
    gap = [0] * n

    def evaluate(i):
        nonlocal G, GF
        F[i] = E.f(X[i])
        if F[i] < PF[i]:
            P[i], PF[i], gap[i] = X[i].copy(), F[i], 0
            if F[i] < GF:
                G, GF = X[i].copy(), F[i]
    for t in E.steps():
        w = p['w0'] - (p['w0'] - p['w1']) * (t + 1) / E.T
        for i in range(n):
            if gap[i] >= p['m']:        # refreshed: one move of the ordinary swarm
                V[i] = bound(V[i] + p['c1'] * r.random(d) * (P[i] - X[i]) + p['c2'] * r.random(d) * (G - X[i]), p['min_velocity'], p['max_velocity'])
                X[i] = E.fix(X[i] + V[i])
                evaluate(i)
                gap[i] = 0
            gap[i] += 1
            pc = 0.05 + 0.45 * (math.exp(10 * (i - 1) / (n - 1)) - 1) / (math.exp(10) - 1)
            teacher = P[i].copy()
            for j in range(d):
                if r.random() <= pc:
                    a, b = r.integers(n), r.integers(n)
                    teacher[j] = P[a if PF[a] < PF[b] else b, j]
            V[i] = bound(w * V[i] + p['c'] * r.random(d) * (teacher - X[i]), p['min_velocity'], p['max_velocity'])
            X[i] = X[i] + V[i]
            if (X[i] >= E.lo).all() and (X[i] <= E.hi).all():
                evaluate(i)


@model('LionOptimizationAlgorithm')
def lions(E, X, F, p, r):
    """One iteration: hunt, safe places, roaming, mating. What happens to the population afterwards does not show in the evaluated points."""
    n, d = X.shape
    homeless = round(p['nomad_ratio'] * n)
    k = p['num_of_prides']
    sizes = [(n - homeless) // k + (i < (n - homeless) % k) for i in range(k)]
    P, PF, start, cubs = X.copy(), F.copy(), 0, []      # best places; X are the current ones
    width = abs(E.hi[0] - E.lo[0])
    prides = []
    for s in sizes:
        members = list(range(start, start + s))
        prides.append((members, members[:round(p['female_ratio'] * s)], members[round(p['female_ratio'] * s):]))
        start += s
    nomads = list(range(start, n))
    cut = round((1 - p['female_ratio']) * len(nomads))
    group = [0] * n

    def arrive(i, x):
        X[i] = E.fix(x)
        F[i] = E.f(X[i])
        if F[i] < PF[i]:
            P[i], PF[i] = X[i].copy(), F[i]
            return True
        return False

    for members, females, males in prides:
        for i in females:
            group[i] = int(r.integers(4))
        hunters = [i for i in females if group[i]]
        if not hunters:
            continue
        prey = E.fix(X[hunters].mean(axis=0))
        strength = [sum(F[i] for i in females if group[i] == q) for q in (1, 2, 3)]
        center = int(np.argsort(strength, kind='stable')[2]) + 1
        for i in hunters:
            other = X[i] if group[i] == center else 2 * prey - X[i]
            before = PF[i]
            if arrive(i, prey + (other - prey) * r.random(d)):
                prey = E.fix(prey + r.random() * (1 - PF[i] / before) * (prey - X[i]))
    for members, females, males in prides:
        size = max(2, math.ceil(len(members) / 2)) if len(members) > 1 else 1
        w = min(r.permutation(members)[:size].tolist(), key=lambda i: PF[i])
        place = P[w].copy()
        for i in females:
            if group[i] == 0:
                away = place - P[i]
                far = math.sqrt(away @ away)
                if far == 0:
                    side = np.zeros(d)
                    side[r.integers(d)] = 1
                else:
                    side = r.standard_normal(d)
                    side = side - (away @ side) / (away @ away) * away
                arrive(i, X[i] + 2 * far / width * r.random() * away + r.uniform(-1, 1) * math.tan(r.uniform(-math.pi / 6, math.pi / 6)) * far / width * side)
    for members, females, males in prides:
        for i in males:
            chosen = [P[j].copy() for j in r.permutation(members)[:round(len(members) * p['roaming_factor'])]]
            for c in chosen:
                far = math.sqrt(((c - P[i]) ** 2).sum()) / width
                arrive(i, X[i] + r.uniform(0, 2 * far) * far * math.tan(r.uniform(-math.pi / 6, math.pi / 6)))
    for i in nomads:
        b = min(F[j] for j in nomads)
        if r.random() <= 0.1 + min(0.5, (F[i] - b) / b):
            arrive(i, E.uniform(r))

    def mate(female, males, all_males):
        k = r.integers(1, len(males)) if all_males and len(males) > 1 else 1
        m = P[r.permutation(males)[:k]].mean(axis=0)
        b = r.normal(0.5, 0.1)
        a, c = b * P[female] + (1 - b) * m, (1 - b) * P[female] + b * m
        for x in (a, c):
            E.f(E.fix(np.where(r.random(d) < p['mutation_factor'], E.uniform(r), x)))

    for females, males, home in [(f, m, True) for _, f, m in prides] + [(nomads[:cut], nomads[cut:], False)]:
        for i in females:
            if r.random() < p['mating_factor'] and males:
                mate(i, males, home)
