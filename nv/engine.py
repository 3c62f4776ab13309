"""Runs the targets of a property over worker processes, drives Hypothesis, writes evidence and replay files."""
import collections
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from nv import env


class Violation(Exception):
    """The property does not hold on the case at hand."""


class CaseTimeout(Exception):
    """The case used up its CPU budget (inconclusive, except where termination is the property)."""


class Skip(Exception):
    """The case is outside the domain (counted, kept rare by construction)."""


class Target:
    """One generated check: `strategy()` yields JSON-able cases, `test(case)` returns a dict of labels or raises Violation.

    The returned dict may hold 'nontrivial': bool; every other key is counted as a label.
    """

    def __init__(self, name, strategy, test, quick=100, thorough=None, cpu=30, exhaustive=None):
        self.name, self.strategy, self.test = name, strategy, test
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 20
        self.cpu = cpu
        self.exhaustive = exhaustive  # iterable factory of cases enumerated completely before the random search


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def _on_alarm(*_):
    raise CaseTimeout()


def raised_by_library(e):
    """Whether an unexpected exception comes from niapy (or what niapy called) and not from the harness or its objectives."""
    src = os.path.join(os.path.realpath(env.REPO), 'src', 'niapy')
    side = None
    for f in traceback.extract_tb(e.__traceback__):
        name = os.path.realpath(f.filename)
        if name.startswith(src + os.sep):
            side = True
        elif name.startswith(env.VERIF + os.sep):
            side = False
    return bool(side)


def run_case(target, case, cpu=None):
    """Run one case from a clean global state; raises Violation / CaseTimeout / Skip or returns the labels."""
    import numpy as np
    random.seed(0)
    np.random.seed(0)
    old = signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu or target.cpu)
    try:
        with np.errstate(all='ignore'):
            return target.test(case) or {}
    except (Violation, CaseTimeout, Skip, MemoryError):
        raise
    except Exception as e:
        if raised_by_library(e):
            where = traceback.extract_tb(e.__traceback__)
            raise Violation('the library raises %s: %s (%s)' % (type(e).__name__, str(e)[:200], '; '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in where[-3:]))) from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def load(pid):
    return importlib.import_module('nv.props.' + pid.lower())


SHRINK_S = float(os.environ.get('NV_SHRINK_S', '40'))


def run_target(mod, target, tier, seed, deadline, known):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    st = dict(name=target.name, evaluations=0, distinct=set(), labels=collections.Counter(), samples=[], skipped=0,
              timeouts=0, violation=None, error=None, known=collections.Counter(), budget_hit=False, requested=0)
    n = target.quick if tier == 'quick' else target.thorough
    scale = float(os.environ.get('NV_SCALE', '1'))
    n = max(1, int(n * scale))
    st['requested'] = n
    best = {}
    t_fail = [None]

    def body(case):
        if t_fail[0] is not None and time.time() - t_fail[0] > SHRINK_S:
            return  # shrinking time is over: let Hypothesis finish, the smallest failing case is kept in `best`
        if t_fail[0] is None and time.time() > deadline:
            st['budget_hit'] = True
            return
        if st['timeouts'] >= 3:
            return
        st['evaluations'] += 1
        try:
            labels = run_case(target, case)
        except Skip:
            st['skipped'] += 1
            return
        except CaseTimeout:
            st['timeouts'] += 1
            if getattr(mod, 'TIMEOUT_IS_VIOLATION', False):
                msg = 'no termination within %s s of CPU time' % target.cpu
                best.update(case=case, msg=msg)
            return
        except Violation as e:
            k = mod.match_known(case, str(e), known) if hasattr(mod, 'match_known') else None
            if k:
                st['known'][k] += 1
                st['distinct'].add(hashlib.sha1(canon(case).encode()).hexdigest()[:16])
                return
            size = len(canon(case))
            if 'case' not in best or size <= len(canon(best['case'])):
                best.update(case=case, msg=str(e))
            if t_fail[0] is None:
                t_fail[0] = time.time()
            raise
        st['labels'].update(k for k, v in labels.items() if k != 'nontrivial' and v)
        if labels.get('nontrivial', True):
            h = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
            if h not in st['distinct']:
                st['distinct'].add(h)
                if len(st['samples']) < 2:
                    st['samples'].append(case)

    try:
        if target.exhaustive is not None:
            for case in target.exhaustive():
                body(case)
        if target.strategy is not None:
            fn = given(target.strategy())(body)
            fn = settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                          phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))(fn)
            h = int(hashlib.sha1(('%s/%s/%s' % (mod.ID, target.name, seed)).encode()).hexdigest()[:12], 16)
            fn = hypothesis.seed(h)(fn)
            fn()
    except Violation:
        pass
    except BaseException as e:
        if not best:
            st['error'] = ''.join(traceback.format_exception(e))[-3000:]
    if best:
        st['violation'] = dict(case=best['case'], msg=best['msg'], target=target.name)
    st['nontrivial'] = len(st.pop('distinct'))
    st['labels'] = dict(st['labels'])
    st['known'] = dict(st['known'])
    return st


def chosen(mod, tier):
    """The targets of the module; NV_ONLY (a regular expression, for development) restricts them."""
    return [t for t in mod.targets(tier) if re.fullmatch(os.environ.get('NV_ONLY', '.*'), t.name)]


def worker(pid, tier, seed, scratch, out):
    env.setup_path()
    mod = load(pid)
    targets = chosen(mod, tier)
    deadline = float(os.environ['NV_DEADLINE'])
    known = load_known(pid)
    with open(out, 'a') as fh:
        for i, t in enumerate(targets):
            try:
                os.close(os.open(os.path.join(scratch, 'claim-%d' % i), os.O_CREAT | os.O_EXCL))
            except FileExistsError:
                continue
            t0 = time.time()
            st = run_target(mod, t, tier, seed, deadline, known)
            st['wall'] = time.time() - t0
            fh.write(json.dumps(st, default=str) + '\n')
            fh.flush()


def load_known(pid):
    p = os.path.join(env.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == pid]


def main(argv):
    if argv and argv[0] == '--worker':
        worker(*argv[1:3], int(argv[3]), argv[4], argv[5])
        return 0
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    if argv and argv[0] == '--selftest':  # the tools are there and the library can be imported
        env.setup_path()
        import hypothesis
        import niapy
        print('hypothesis', hypothesis.__version__, 'niapy', niapy.__file__)
        return 0
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(pid, tier)


def check(pid, tier):
    t0 = time.time()
    seed = env.SEED
    scratch = tempfile.mkdtemp(prefix='nv-%s-' % pid)
    try:
        return _check(pid, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(pid, tier, seed, scratch, t0):
    nproc = int(os.environ.get('NV_JOBS', '0')) or min(8, os.cpu_count() or 1)
    wall = float(os.environ.get('NV_WALL', '0')) or (600 if tier == 'quick' else 3 * 3600)
    e = env.child_env(scratch)
    e['NV_DEADLINE'] = repr(t0 + wall)
    for d in ('mpl', 'pyc', 'hyp', 'cwd'):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    procs, outs = [], []
    for k in range(nproc):
        out = os.path.join(scratch, 'out-%d.jsonl' % k)
        outs.append(out)
        err = open(os.path.join(scratch, 'err-%d' % k), 'w')
        procs.append(subprocess.Popen([env.PYTHON, os.path.join(env.VERIF, 'check.py'), '--worker', pid, tier, str(seed), scratch, out],
                                      env=e, cwd=os.path.join(scratch, 'cwd'), stdin=subprocess.DEVNULL, stdout=err, stderr=err))
    rcs = [p.wait() for p in procs]
    res = []
    for o in outs:
        if os.path.exists(o):
            res += [json.loads(line) for line in open(o)]
    env.setup_path()
    mod = load(pid)
    names = [t.name for t in chosen(mod, tier)]
    errors = [r['error'] for r in res if r['error']]
    if any(rcs) or len(res) != len(names):
        tails = [open(os.path.join(scratch, 'err-%d' % k)).read()[-1500:] for k in range(nproc) if rcs[k]]
        errors.append('workers ended with %s, %d of %d targets reported\n%s' % (rcs, len(res), len(names), '\n'.join(tails)))
    violations = [r['violation'] for r in res if r['violation']]
    labels = collections.Counter()
    known = collections.Counter()
    for r in res:
        labels.update(r['labels'])
        known.update(r['known'])
    res.sort(key=lambda r: names.index(r['name']))
    samples = [dict(target=r['name'], case=s) for r in res for s in r['samples'][:1]]
    cov = dict(evaluations=sum(r['evaluations'] for r in res), distinct_nontrivial=sum(r['nontrivial'] for r in res),
               rule=mod.RULE, samples=samples[:: max(1, len(samples) // 8)][:8], targets=len(res),
               skipped=sum(r['skipped'] for r in res), timeouts=sum(r['timeouts'] for r in res),
               wall_budget_hit=any(r['budget_hit'] for r in res), labels=dict(sorted(labels.items())),
               per_target={r['name']: [r['evaluations'], r['nontrivial']] for r in res})
    for k in load_known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    cov['known_findings_hit'] = dict(known)
    ev = dict(property=pid, tier='thorough' if tier == 'thorough' else 'quick', seed=seed, level='exploration', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for v in violations:
        body = dict(property=pid, target=v['target'], message=v['msg'], case=v['case'], seed=seed)
        os.makedirs(os.path.join(env.VERIF, 'replays'), exist_ok=True)
        p = os.path.join(env.VERIF, 'replays', '%s-%s.json' % (pid, hashlib.sha1(canon(body).encode()).hexdigest()[:10]))
        with open(p, 'w') as fh:
            json.dump(body, fh, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        print('  %s: %s' % (v['target'], v['msg'].replace('\n', ' | ')[:600]))
    print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d targets, %d violations, %d errors, %.1f s' %
          (pid, tier, seed, cov['evaluations'], cov['distinct_nontrivial'], len(res), len(violations), len(errors), time.time() - t0))
    for x in errors[:3]:
        print('ERROR', x)
    if violations:
        return 1
    if errors:
        return 3
    return 0


def replay(path):
    """Re-run one recorded case without the library: exit 1 if it still fails."""
    body = json.load(open(path))
    env.setup_path()
    mod = load(body['property'])
    target = {t.name: t for t in mod.targets('quick')}[body['target']]
    try:
        print('holds:', run_case(target, body['case']))
        return 0
    except Violation as e:
        print('VIOLATION property=%s replay=%s' % (body['property'], path))
        print(e)
        return 1
    except CaseTimeout:
        print('TIMEOUT')
        return 1 if getattr(mod, 'TIMEOUT_IS_VIOLATION', False) else 2
