"""C25: the local searches of the multiple trajectory search."""
import copy

import numpy as np
from hypothesis import strategies as st

from nv import core, objectives
from nv.engine import Target, Violation

ID = 'C25'
RULE = ('one case = local search x problem x start point x incoming best x search range x bonuses x budget x repair x seed; the oracle walks the log of '
        'objective values of the call (sign of the optimisation included); targets MTS: complete runs with instrumented local searches; non-trivial = at '
        'least two evaluations and a start strictly inside the box, distinct by the whole case')
LS = ['mts_ls1', 'mts_ls1v1', 'mts_ls2', 'mts_ls3', 'mts_ls3v1']


@st.composite
def ls_cases(draw, name):
    prob = draw(core.problem_specs(max_dim=6))
    return dict(ls=name, prob=prob, seed=draw(st.integers(0, 2 ** 31)), opt=draw(st.sampled_from(['min', 'max'])), repair=draw(st.sampled_from(core.REPAIRS)),
                improve=draw(st.booleans()), b1=draw(st.sampled_from([10, 0, 7, 2.5])), b2=draw(st.sampled_from([1, 0, 3, 0.5])),
                sr=draw(st.lists(st.sampled_from([0.5, 0.2, 0.01, 1.0, 3e-16, 0.003]), min_size=1, max_size=3)), budget=draw(st.sampled_from([100000, 100000, 100000, 3, 7, 12])),
                calls=draw(st.integers(1, 3)), u=draw(st.lists(st.floats(0, 1).map(lambda v: round(v, 3)), min_size=1, max_size=3)),
                sr_fix=draw(st.sampled_from([None, 0.4, 0.1])), phi=draw(st.sampled_from([None, 2, 5])), gap=draw(st.sampled_from([0.0, 0.0, 0.3, 1.0])))


def walk(name, vals, cur, best, b1, b2, dim, phi):
    """Grade, value of the current solution and number of improvements of it, from the values seen (the documented bonuses)."""
    grade, ups, tops = 0.0, 0, 0
    if name == 'mts_ls1':
        for v in vals:
            if v < best:
                grade, best, tops = grade + b1, v, tops + 1
            if v < cur:
                grade, cur, ups = grade + b2, v, ups + 1
    elif name == 'mts_ls1v1':
        for v in vals:
            if v < best:
                grade, best, cur, ups, tops = grade + b1, v, v, ups + 1, tops + 1
            elif v < cur:
                grade, cur, ups = grade + b2, v, ups + 1
    elif name == 'mts_ls2':
        for v in vals:
            if v < best:
                grade, best, tops = grade + b1, v, tops + 1
            elif v < cur:
                grade, cur, ups = grade + b2, v, ups + 1
    elif name == 'mts_ls3':
        for k in range(0, len(vals), 4):
            for v in vals[k:k + 3]:
                if v < best:
                    grade, best, tops = grade + b1, v, tops + 1
            for v in vals[k:k + 3]:
                if v < cur:
                    grade += b2
            for v in vals[k + 3:k + 4]:
                if v < cur:
                    if v < best:
                        grade, best, tops = grade + b1, v, tops + 1
                    else:
                        grade += b2
                    cur, ups = v, ups + 1
    else:
        for k in range(0, len(vals), phi):
            r = vals[k:k + phi]
            nb, nc = sum(v < best for v in r), sum(v < cur for v in r)
            grade += nb * b1 + (nc - nb) * b2
            if nb:
                best = cur = min(r)
                ups, tops = ups + 1, tops + 1
            elif nc:
                cur, ups = min(r), ups + 1
    return grade, cur, best, ups, tops


def check_ls(c):
    import niapy.algorithms.other.mts as mts
    from niapy.task import OptimizationType
    fn = getattr(mts, c['ls'])
    prob = objectives.recording_problem(c['prob'])
    task = core.make_task(prob, dict(opt=c['opt'], repair=c['repair'], max_evals=100000, max_iters=None))
    g = np.random.default_rng(c['seed'])
    lo, up = np.array(c['prob']['lower'], dtype=float), np.array(c['prob']['upper'], dtype=float)
    d = len(lo)
    x = np.clip(lo + np.resize(np.array(c['u']), d) * (up - lo), lo, up)
    fx = task.eval(x)
    bx = np.clip(lo + ((np.resize(np.array(c['u']), d) + c['gap'] * g.random(d)) % 1.0) * (up - lo), lo, up)
    fb = task.eval(bx)
    if fb > fx or c['gap'] == 0.0:
        bx, fb = x.copy(), fx
    task.max_evals = task.evals + c['budget']
    sr = np.resize(np.array(c['sr']), d) * (up - lo)
    improve, kw = c['improve'], {}
    if c['sr_fix'] is not None and c['ls'] in ('mts_ls1', 'mts_ls1v1', 'mts_ls2'):
        kw['sr_fix'] = c['sr_fix']
    if c['phi'] is not None and c['ls'] == 'mts_ls3v1':
        kw['phi'] = c['phi']
    phi = kw.get('phi', 3)
    lab = {c['ls']: 1}
    sign = task.optimization_type.value
    for call in range(c['calls']):
        n0 = len(prob.points)
        sr0, fx0, fb0, bx0, x0 = sr.copy(), fx, fb, np.array(bx, copy=True), np.array(x, copy=True)
        left = task.max_evals - task.evals
        x, fx, bx, fb, imp, grade, sr = fn(np.array(x, copy=True), fx, np.array(bx, copy=True), fb, improve, sr.copy(), task, g, bonus1=c['b1'], bonus2=c['b2'], **kw)
        pts, vals = prob.points[n0:], [float(v) * sign for v in prob.values[n0:]]
        where = 'call %d of %s: ' % (call + 1, c['ls'])
        seen = {(p + 0.0).tobytes(): v for p, v in zip(pts, vals)}

        def truth(p, f, start, fstart, what):
            p = np.array(p, dtype=float)
            if p.shape != (d,) or not np.all(np.isfinite(p)) or np.any(p < lo) or np.any(p > up):
                raise Violation(where + 'the %s %s is outside the box' % (what, p.tolist()))
            if np.array_equal(p, start) and f == fstart:
                return
            v = seen.get((p + 0.0).tobytes())
            if v is None:
                raise Violation(where + 'the %s %s was not evaluated' % (what, p.tolist()))
            if v != f:
                raise Violation(where + 'the %s has value %r, but is reported with %r' % (what, v, float(f)))
        truth(x, fx, x0, fx0, 'returned solution')
        truth(bx, fb, bx0, fb0, 'returned best')
        if fx > fx0:
            raise Violation(where + 'the returned solution (%r) is worse than the start (%r)' % (float(fx), float(fx0)))
        if fb != min([fb0] + vals):
            raise Violation(where + 'best %r, but best of the incoming best and all evaluated points is %r' % (float(fb), min([fb0] + vals)))
        # the documented bonuses (evaluations beyond the budget have the value infinity)
        full = list(vals)
        if len(vals) >= left:
            full = full + [np.inf] * ((-len(full)) % (4 if c['ls'] == 'mts_ls3' else phi if c['ls'] == 'mts_ls3v1' else 1))
        want, cur, best, ups, tops = walk(c['ls'], full, fx0, fb0, c['b1'], c['b2'], d, phi)
        if abs(grade - want) > 1e-9 * (1 + abs(want)):
            raise Violation(where + 'grade %r, the improvements among %s from %r (best %r) are worth %r' % (float(grade), vals[:12], float(fx0), float(fb0), want))
        if fx != cur:
            raise Violation(where + 'the returned solution has value %r, the accepted improvements lead to %r' % (float(fx), cur))
        if ups and not imp:
            raise Violation(where + 'an improved solution is reported as not improved')
        if imp and not ups and not tops and (not improve or c['ls'] in ('mts_ls1', 'mts_ls1v1', 'mts_ls2')) and not any(v < fx0 for v in vals):
            raise Violation(where + 'an improvement is reported although no evaluated value is better than the start')
        if c['ls'] in ('mts_ls1', 'mts_ls1v1', 'mts_ls2'):
            exp = sr0.copy()
            if not improve:
                exp = exp / 2
                exp = np.where(exp < 1e-15, (up - lo) * kw.get('sr_fix', 0.4), exp)
        else:
            exp = sr0
        if not np.allclose(np.array(sr, dtype=float), exp, rtol=1e-12, atol=0):
            raise Violation(where + 'search range %s, expected %s from %s (improve=%r)' % (np.array(sr).tolist(), exp.tolist(), sr0.tolist(), improve))
        if left > 4 * d:
            n = len(vals)
            ok = {'mts_ls1': d <= n <= 2 * d, 'mts_ls1v1': d <= n <= 2 * d, 'mts_ls2': d <= n <= 2 * d, 'mts_ls3': n == 4 * d, 'mts_ls3v1': n % phi == 0 or n >= left}[c['ls']]
            if not ok:
                raise Violation(where + '%d evaluations in %d dimensions' % (n, d))
        moved(c, where, pts, vals, x0, fx0, exp, lo, up)
        lab['improved'] = lab.get('improved') or bool(ups)
        lab['best improved'] = lab.get('best improved') or bool(tops)
        lab['range reset'] = lab.get('range reset') or bool(np.any(sr0 / 2 < 1e-15) and not improve)
        lab['nontrivial'] = lab.get('nontrivial') or (len(vals) >= 2)
        improve = imp
    return lab


def moved(c, where, pts, vals, x0, fx0, sr, lo, up):
    """The documented moves, for the deterministic repair to the nearest bound."""
    if c['repair'] != 'limit':
        return
    d = len(lo)
    tol = 1e-9 * (1 + np.abs(lo) + np.abs(up))
    if c['ls'] in ('mts_ls1', 'mts_ls1v1'):
        cur, fc, i, second = x0.copy(), fx0, 0, False
        for p, v in zip(pts, vals):
            if i >= d:
                raise Violation(where + 'more trial points than coordinates allow')
            diff = np.abs(p - cur)
            diff[i] = 0
            if np.any(diff > tol):
                raise Violation(where + 'trial point %s differs from the current solution %s in other coordinates than %d' % (p.tolist(), cur.tolist(), i))
            if second:
                want = np.clip(cur[i] + 0.5 * sr[i], lo[i], up[i])
                if abs(p[i] - want) > tol[i]:
                    raise Violation(where + 'second move of coordinate %d goes to %r, half the search range upwards is %r' % (i, float(p[i]), float(want)))
            else:
                want = np.clip(cur[i] - sr[i], lo[i], up[i])
                if c['ls'] == 'mts_ls1' and abs(p[i] - want) > tol[i]:
                    raise Violation(where + 'first move of coordinate %d goes to %r, the search range downwards is %r' % (i, float(p[i]), float(want)))
                if c['ls'] == 'mts_ls1v1' and abs(p[i] - cur[i]) > sr[i] + tol[i]:
                    raise Violation(where + 'move of coordinate %d exceeds the search range' % i)
            if v < fc:
                cur, fc, i, second = p.copy(), v, i + 1, False
            elif v == fc or second:
                i, second = i + 1, False
            else:
                second = True
    elif c['ls'] == 'mts_ls2':
        cur, fc, best = x0.copy(), fx0, None
        for p, v in zip(pts, vals):
            if np.any(np.abs(p - cur) > sr + tol):
                raise Violation(where + 'trial point %s is further from the current solution %s than the search range %s' % (p.tolist(), cur.tolist(), sr.tolist()))
            break  # the first trial point; later ones depend on whether the incoming best was beaten
    elif c['ls'] == 'mts_ls3':
        for k in range(0, len(pts) - 3, 4):
            i = k // 4
            base = x0 if k == 0 else pts[k - 1]
            for p, step in zip(pts[k:k + 3], (0.1, -0.1, 0.2)):
                want = base.copy()
                want[i] = np.clip(base[i] + step, lo[i], up[i])
                if np.any(np.abs(p - want) > tol):
                    raise Violation(where + 'probe point %s, expected %s' % (p.tolist(), want.tolist()))
            a = np.abs(pts[k + 3] - base)
            a[i] = 0
            if np.any(a > tol):
                raise Violation(where + 'step point differs from the solution in other coordinates than %d' % i)


@st.composite
def run_cases(draw):
    name = draw(st.sampled_from(['MultipleTrajectorySearch', 'MultipleTrajectorySearchV1']))
    c = draw(core.run_cases(name, max_dim=4, max_iters=4))
    c['task']['cutoff'] = None
    return c


def check_run(case):
    """Complete runs: what the class does with the results of its local searches."""
    import niapy.algorithms.other.mts as mts
    log = []
    fns = [algs_fn for algs_fn in (case['params'].get('local_searches') or ([] if case['alg'].endswith('V1') else ['@mts_ls1', '@mts_ls2', '@mts_ls3']))]
    if case['alg'].endswith('V1'):
        fns = ['@mts_ls1v1', '@mts_ls2']
    case = copy.deepcopy(case)
    case['params'].pop('local_searches', None)

    def wrap(k, fn):
        def run(current_x, current_fitness, best_x, best_fitness, improve, search_range, task, rng, bonus1=10, bonus2=1, **kw):
            r = fn(current_x, current_fitness, best_x, best_fitness, improve, search_range, task, rng, bonus1=bonus1, bonus2=bonus2, **kw)
            log.append(dict(k=k, b=(bonus1, bonus2), fin=current_fitness, fout=r[1], grade=r[5], fb=r[3]))
            return r
        return run
    ls = tuple(wrap(k, getattr(mts, n[1:])) for k, n in enumerate(fns))
    tr = core.Trace()
    tr.case = case
    tr.prob = objectives.recording_problem(case['prob'])
    tr.task = core.make_task(tr.prob, case['task'])
    alg = core.construct(case, callbacks=[core.snapshots(tr)])
    alg.local_searches = ls
    marks = []
    nxt = tr.task.next_iter

    def next_iter():
        marks.append(len(log))
        return nxt()
    tr.task.next_iter = next_iter
    try:
        alg.run(tr.task)
    except Violation:
        raise
    except Exception as e:
        tr.exc = e
        core.crashed(tr)
    prm = case['params']
    nt, ns, ne = prm.get('num_tests', 5), prm.get('num_searches', 5), prm.get('num_enabled', 17)
    b = (prm.get('bonus1', 10), prm.get('bonus2', 1))
    pop = prm['population_size']
    for e in log:
        if e['b'] != b:
            raise Violation('local search called with bonuses %r, configured %r' % (e['b'], b))
    start = 0
    for it, end in enumerate(marks):
        calls = log[start:end]
        start = end
        block = nt * len(ls) + ns
        before, after = tr.states[it], tr.states[it + 1]
        on = [i for i in range(pop) if before['params']['enable'][i]]
        if len(calls) != block * len(on):
            raise Violation('iteration %d: %d local search runs for %d enabled solutions (%d tests of %d searches and %d runs each)' % (it + 1, len(calls), len(on), nt, len(ls), ns))
        for j, i in enumerate(on):
            part = calls[j * block:(j + 1) * block]
            tests, runs = part[:nt * len(ls)], part[nt * len(ls):]
            if [e['k'] for e in tests] != [k for k in range(len(ls)) for _ in range(nt)]:
                raise Violation('iteration %d: the searches were tested in the order %r' % (it + 1, [e['k'] for e in tests]))
            sums = [sum(e['grade'] for e in tests if e['k'] == k) for k in range(len(ls))]
            used = {e['k'] for e in runs}
            if runs and (len(used) != 1 or sums[used.pop()] < max(sums) - 1e-9 * (1 + abs(max(sums)))):
                raise Violation('iteration %d, solution %d: grades of the searches %r, but search %r was applied' % (it + 1, i, sums, [e['k'] for e in runs]))
            g = after['params']['grades'][i]
            if abs(g - sum(e['grade'] for e in runs)) > 1e-9 * (1 + abs(g)):
                raise Violation('iteration %d, solution %d: recorded grade %r, collected %r' % (it + 1, i, float(g), sum(e['grade'] for e in runs)))
            if runs and after['f'][i] != runs[-1]['fout']:
                raise Violation('iteration %d, solution %d: fitness %r, the last local search returned %r' % (it + 1, i, after['f'][i], runs[-1]['fout']))
        off = [i for i in range(pop) if i not in on]
        if any(after['params']['grades'][i] != before['params']['grades'][i] for i in off) or not np.array_equal(after['x'][off], before['x'][off]):
            raise Violation('iteration %d: a disabled solution was changed' % (it + 1))
        en = np.array(after['params']['enable'], dtype=bool)
        if en.sum() != min(ne, pop):
            raise Violation('iteration %d: %d solutions enabled, num_enabled=%d of %d' % (it + 1, en.sum(), ne, pop))
        gr = np.array(after['params']['grades'], dtype=float)
        if en.any() and (~en).any() and gr[~en].max() > gr[en].min() + 1e-9 * (1 + abs(gr).max()):
            raise Violation('iteration %d: solution with grade %r disabled, one with grade %r enabled' % (it + 1, gr[~en].max(), gr[en].min()))
        if np.any(np.array(after['params']['search_range']) <= 0):
            raise Violation('iteration %d: search range not positive' % (it + 1))
    return {'nontrivial': len(marks) >= 1 and len(log) >= 2, 'iterations>=2': len(marks) >= 2, 'some disabled': any(not np.all(s['params']['enable']) for s in tr.states)}


HYBRIDS = ['DifferentialEvolutionMTS', 'DynNpDifferentialEvolutionMTS', 'MultiStrategyDifferentialEvolutionMTS', 'DynNpMultiStrategyDifferentialEvolutionMTS']


@st.composite
def hybrid_cases(draw):
    c = draw(core.run_cases(draw(st.sampled_from(HYBRIDS)), max_dim=3, max_iters=4))
    c['task'].update(cutoff=None, max_evals=None, max_iters=draw(st.integers(1, 5)))
    return c


def check_hybrid(case):
    """DE with local searches: the same use of the grades, on individuals."""
    import niapy.algorithms.other.mts as mts
    case, log = copy.deepcopy(case), []
    names = case['params'].pop('local_searches', None) or ['@mts_ls1', '@mts_ls2', '@mts_ls3']

    def wrap(k, fn):
        def run(*a, **kw):
            r = fn(*a, **kw)
            log.append(dict(k=k, grade=r[5], fout=r[1]))
            return r
        return run
    tr = core.Trace()
    tr.prob = objectives.recording_problem(case['prob'])
    tr.task = core.make_task(tr.prob, case['task'])
    alg = core.construct(case, callbacks=[core.snapshots(tr)])
    alg.local_searches = tuple(wrap(k, getattr(mts, n[1:])) for k, n in enumerate(names))
    marks = []
    nxt = tr.task.next_iter

    def next_iter():
        marks.append(len(log))
        return nxt()
    tr.task.next_iter = next_iter
    try:
        alg.run(tr.task)
    except Violation:
        raise
    except Exception as e:
        tr.exc = e
        core.crashed(tr)
    prm = case['params']
    nt, ns, ne = prm.get('num_tests', 5), prm.get('num_searches', 5), prm.get('num_enabled', 17)
    block, start, off = nt * len(names) + ns, 0, False
    for it, end in enumerate(marks):
        calls, start = log[start:end], end
        after = tr.states[it + 1]
        if len(calls) % block:
            raise Violation('iteration %d: %d local search runs, each searched individual needs %d' % (it + 1, len(calls), block))
        todo = []
        for j in range(0, len(calls), block):
            tests, runs = calls[j:j + nt * len(names)], calls[j + nt * len(names):j + block]
            sums = [sum(e['grade'] for e in tests if e['k'] == k) for k in range(len(names))]
            used = {e['k'] for e in runs}
            if len(used) != 1 or sums[used.pop()] < max(sums) - 1e-9 * (1 + abs(max(sums))):
                raise Violation('iteration %d: grades of the searches %r, but search %r was applied' % (it + 1, sums, [e['k'] for e in runs]))
            todo.append((sum(e['grade'] for e in runs), runs[-1]['fout']))
        ms = after['members']
        gr, en = np.array([float(m['grade']) for m in ms]), np.array([bool(m['enable']) for m in ms])
        at = 0
        for g, f in todo:
            while at < len(ms) and not (abs(gr[at] - g) <= 1e-9 * (1 + abs(g)) and ms[at]['f'] == f):
                at += 1
            if at == len(ms):
                raise Violation('iteration %d: the local searches collected the grades %r, the individuals have %r' % (it + 1, [t[0] for t in todo], gr.tolist()))
            at += 1
        if en.sum() != min(ne, len(ms)):
            raise Violation('iteration %d: %d individuals enabled, num_enabled=%d of %d' % (it + 1, en.sum(), ne, len(ms)))
        if en.any() and (~en).any() and gr[~en].max() > gr[en].min() + 1e-9 * (1 + abs(gr).max()):
            raise Violation('iteration %d: individual with grade %r disabled, one with grade %r enabled' % (it + 1, gr[~en].max(), gr[en].min()))
        off = off or bool((~en).any())
    return {'nontrivial': len(marks) >= 1 and len(log) >= 2, 'iterations>=2': len(marks) >= 2, 'some disabled': off, case['alg']: 1}


def targets(tier):
    return ([Target('%s-%d' % (n, k), (lambda n=n: ls_cases(n)), check_ls, quick=220 if n != 'mts_ls3v1' else 80, thorough=10000) for n in LS for k in range(2)] +
            [Target('MTS-%d' % k, run_cases, check_run, quick=60, thorough=2500) for k in range(3)] +
            [Target('hybrids-%d' % k, hybrid_cases, check_hybrid, quick=40, thorough=1500) for k in range(2)])
