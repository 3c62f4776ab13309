"""C14: the Runner."""
import json
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from nv import algs, bench, core, objectives
from nv.engine import Target, Violation
from nv.props.c13 import ALIASES, problem_names

ID = 'C14'
RULE = ('one case = a runner (1-3 algorithms as names or configured instances, 1-3 problems as names or user-defined instances, dimension, budget, 0-6 '
        'runs) and 1-2 calls of run with an export kind (valid or not); results and files are compared with runs repeated by hand; non-trivial = at '
        'least two runs in total, distinct by the whole case')
ASSUMPTIONS = ['every run of the runner goes through Algorithm.run', 'no two algorithms (problems) of one runner have the same class (their results share one key)']
NOT_DEFAULT = {'CoralReefsOptimization'}  # the default settings grow the reef without bound on tiny budgets


@st.composite
def cases(draw):
    names = sorted(algs.classes())
    al, seen = [], set()
    for _ in range(draw(st.integers(1, 3))):
        n = draw(st.sampled_from(names))
        if n in seen:
            continue
        seen.add(n)
        if draw(st.booleans()) or n in NOT_DEFAULT:
            al.append(['instance', draw(core.alg_specs(n))])
        else:
            al.append(['name', n])
    dim = draw(st.integers(2, 6))
    pr, seen = [], set()
    pn = problem_names()
    for k in range(draw(st.integers(1, 3))):
        if draw(st.booleans()):
            p = draw(core.problem_specs(min_dim=2, max_dim=5))
            pr.append(['instance', 'User%d' % k, p])
        else:
            key = draw(st.sampled_from(sorted(pn)))
            if pn[key] in seen or pn[key] in bench.FIXED_DIM or pn[key] == 'Powell':
                continue
            seen.add(pn[key])
            pr.append(['name', draw(st.sampled_from([key, key.upper(), key.title()]))])
    if not pr:
        pr.append(['name', 'sphere'])
    for a in al:
        if a[0] == 'instance' and a[1]['alg'] == 'ForestOptimizationAlgorithm':
            a[1]['params'].update(local_seeding_changes=1, global_seeding_changes=1)
    return dict(algs=al, probs=pr, dim=dim, max_evals=draw(st.one_of(st.integers(1, 120), st.integers(1, 12))), runs=draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4, 6])),
                single=draw(st.booleans()), exports=draw(st.lists(st.sampled_from(['dataframe', 'json', 'excel', 'csv', '']), min_size=1, max_size=2)),
                verbose=draw(st.booleans()))


def plain(results):
    return {a: {p: [(np.array(x, dtype=float), float(f)) for x, f in runs] for p, runs in d.items()} for a, d in results.items()}


def equal(a, b, digits=None):
    if a[0].shape != b[0].shape:
        return False
    if digits is None:
        return np.array_equal(a[0], b[0]) and a[1] == b[1]
    tol = 2 * 10.0 ** -digits
    return bool(np.all(np.abs(a[0] - b[0]) <= tol + 1e-12 * np.abs(a[0]))) and abs(a[1] - b[1]) <= tol + 1e-12 * abs(a[1])


def check(case):
    from niapy.algorithms import Algorithm
    from niapy.runner import Runner
    from niapy.task import OptimizationType, Task

    instances, problems, log, order = {}, [], [], []
    alist, plist = [], []
    for kind, v in case['algs']:
        if kind == 'name':
            alist.append(v), order.append(v)
        else:
            obj = core.construct(v)
            alist.append(obj), order.append(v['alg'])
    for p in case['probs']:
        if p[0] == 'name':
            plist.append(p[1]), problems.append(p[1])
        else:
            base = objectives.recording_problem(p[2])
            base.__class__ = type(p[1], (type(base),), {})
            plist.append(base), problems.append(p[1])
    one = case['single'] and len(alist) == 1 and isinstance(alist[0], str)
    a_arg = alist[0] if one else alist
    p_arg = plist[0] if case['single'] and len(plist) == 1 and isinstance(plist[0], str) else plist

    orig = Algorithm.run

    def spy(self, task):
        e = dict(alg=self, type=type(self), state=self.rng.bit_generator.state, task=task, evals=task.evals, iters=task.iters)
        log.append(e)
        e['result'] = orig(self, task)
        return e['result']

    cwd = os.getcwd()
    scratch = tempfile.mkdtemp(prefix='runner-', dir=os.environ.get('NV_SCRATCH'))
    total = 0
    try:
        os.chdir(scratch)
        Algorithm.run = spy
        runner = Runner(dimension=case['dim'], max_evals=case['max_evals'], runs=case['runs'], algorithms=a_arg, problems=p_arg)
        files_before = set()
        for export in case['exports']:
            del log[:]
            calls0 = [len(p.points) if not isinstance(p, str) else None for p in plist]
            ok = export in ('dataframe', 'json', 'excel')
            try:
                res = runner.run(export=export, verbose=case['verbose'])
            except TypeError as e:
                if ok:
                    raise Violation('run(export=%r) failed: %r' % (export, e))
                res = runner.results
            else:
                if not ok:
                    raise Violation('run(export=%r) was accepted' % export)
            if list(res) != order or any(list(res[a]) != problems for a in order):
                raise Violation('results are given for %s, asked for %s on %s' % ({a: list(v) for a, v in res.items()}, order, problems))
            if any(len(res[a][p]) != case['runs'] for a in order for p in problems):
                raise Violation('%s results instead of %d per pair' % ({(a, p): len(res[a][p]) for a in order for p in problems}, case['runs']))
            total += len(log)
            if len(log) != len(order) * len(problems) * case['runs']:
                raise Violation('%d runs were made instead of %d' % (len(log), len(order) * len(problems) * case['runs']))
            k = 0
            Algorithm.run = orig
            for i, a in enumerate(order):
                cls = algs.classes()[a]
                for j, p in enumerate(problems):
                    for r in range(case['runs']):
                        e, (x, f) = log[k], res[a][p][r]
                        k += 1
                        what = 'run %d of %s on %s' % (r + 1, a, p)
                        if e['type'] is not cls or (not isinstance(alist[i], str) and e['alg'] is not alist[i]):
                            raise Violation('%s used a %s' % (what, e['type'].__name__))
                        if e['evals'] or e['iters'] or any(e['task'] is log[m]['task'] for m in range(k - 1)):
                            raise Violation('%s did not get a task of its own' % what)
                        if isinstance(alist[i], str) and any(e['alg'] is log[m]['alg'] for m in range(k - 1)):
                            raise Violation('%s reused an algorithm' % what)
                        t = e['task']
                        if isinstance(plist[j], str):
                            if t.dimension != case['dim'] or t.problem.name().lower() != algs_name(p).lower():
                                raise Violation('%s worked on %s in %d dimensions' % (what, t.problem.name(), t.dimension))
                        elif t.problem is not plist[j]:
                            raise Violation('%s worked on another problem' % what)
                        if t.max_evals != case['max_evals'] or t.evals > case['max_evals'] or t.optimization_type is not OptimizationType.MINIMIZATION:
                            raise Violation('%s: %d evaluations of %s, sense %s' % (what, t.evals, t.max_evals, t.optimization_type))
                        # repeat by hand: fresh instance, the generator as the run found it
                        again = core.construct(case['algs'][i][1]) if case['algs'][i][0] == 'instance' else cls()
                        again.rng.bit_generator.state = e['state']
                        prob = plist[j]
                        x2, f2 = again.run(Task(prob, max_evals=case['max_evals'], **(dict(dimension=case['dim']) if isinstance(prob, str) else {})))
                        if not equal((np.array(x, dtype=float), float(f)), (np.array(x2, dtype=float), float(f2))):
                            raise Violation('%s reports (%s, %r), the run repeated by hand gives (%s, %r)' % (what, x, f, x2, f2))
            # independent runs: no two begin with the generator in the same state
            states = [(id(e['type']), repr(e['state'])) for e in log]
            if len(set(states)) < len(states):
                raise Violation('%d of the %d runs repeat another one, their generators began in the same state' % (len(states) - len(set(states)), len(states)))
            Algorithm.run = spy
            files = set(os.listdir('export')) if os.path.isdir('export') else set()
            new = files - files_before
            files_before = files
            if not ok:
                if new:
                    raise Violation('run(export=%r) wrote %s' % (export, new))
                continue
            ext = dict(dataframe='.pkl', json='.json', excel='.xlsx')[export]
            if len(new) != 1 or not list(new)[0].endswith(ext):
                raise Violation('run(export=%r) wrote %s' % (export, sorted(new)))
            read_back(export, os.path.join('export', list(new)[0]), res, order, problems)
        extra = set(os.listdir('.')) - {'export'}
        if extra:
            raise Violation('the runner wrote %s' % sorted(extra))
    finally:
        Algorithm.run = orig
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return {'nontrivial': total >= 2, 'repeated run': len(case['exports']) > 1, **{'export ' + e: 1 for e in case['exports']}}


def algs_name(p):
    return problem_names()[p.lower()]


def read_back(export, path, res, order, problems):
    import pandas as pd
    if export == 'dataframe':
        df = pd.read_pickle(path)
        if list(df.columns) != order or list(df.index) != problems:
            raise Violation('the pickle has columns %s and rows %s' % (list(df.columns), list(df.index)))
        got = {a: {p: [(np.array(x, dtype=float), float(f)) for x, f in df[a][p]] for p in problems} for a in order}
        digits = None
    elif export == 'json':
        raw = json.load(open(path))
        if sorted(raw) != sorted(order) or any(sorted(raw[a]) != sorted(problems) for a in order):
            raise Violation('the JSON file has the keys %s' % {a: list(v) for a, v in raw.items()})
        got = {a: {p: [(np.array(x, dtype=float), float(f)) for x, f in raw[a][p]] for p in problems} for a in order}
        digits = 10
    else:
        df = pd.read_excel(path, index_col=0)
        if list(df.columns) != order or list(df.index) != problems:
            raise Violation('the sheet has columns %s and rows %s' % (list(df.columns), list(df.index)))
        for a in order:
            for p in problems:
                if str(df[a][p]) != str(res[a][p]):
                    raise Violation('the sheet says %s for %s on %s, the result is %s' % (df[a][p], a, p, res[a][p]))
        return
    want = plain(res)
    for a in order:
        for p in problems:
            if len(got[a][p]) != len(want[a][p]) or not all(equal(u, v, digits) for u, v in zip(got[a][p], want[a][p])):
                raise Violation('the %s file holds %s for %s on %s, the result is %s' % (export, got[a][p], a, p, want[a][p]))


def targets(tier):
    return [Target('runner-%d' % k, cases, check, quick=45, thorough=2000, cpu=60) for k in range(8)]
