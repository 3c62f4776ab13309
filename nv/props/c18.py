"""C18: the command line parser."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from nv.engine import Target, Violation

ID = 'C18'
RULE = ('one case = a list of 0-9 documented options in any order, long, abbreviated or short spelling, "=" or separate values, with valid values '
        '(zero, negative and repeated ones included), or the same list with one invalid piece; parsed as namespace and dictionary and compared with a '
        'reference model; non-trivial = at least two options, distinct by the whole case')

INT = st.one_of(st.integers(1, 10 ** 6), st.sampled_from([0, 1, 2, 10, 10 ** 9, -1, -20, 10 ** 20]))
OPTS = {
    'algo': (['-a', '--algorithm'], st.sampled_from(['jDE', 'DifferentialEvolution', 'BatAlgorithm', 'x y', 'Ž'])),
    'problem': (['-p', '--problem'], st.none()),
    'dimension': (['-d', '--dimension'], INT),
    'max_evals': (['--max-evals'], INT),
    'max_iters': (['--max-iters'], INT),
    'population_size': (['-n', '--population-size'], INT),
    'run_type': (['-r', '--run-type'], st.sampled_from(['', 'log', 'plot'])),
    'seed': (['--seed'], st.lists(st.one_of(st.integers(0, 2 ** 31), st.sampled_from([0, 0, 1, -3])), min_size=1, max_size=4)),
    'opt_type': (['--opt-type'], st.sampled_from(['min', 'max', 'min', 'max', 'min', 'max', 'MAX', 'Max', 'maximum', 'ma', 'mini', 'x', ''])),
}
BAD = [['--dimension', 'ten'], ['--max-evals', '1.5'], ['--run-type', 'loud'], ['--problem', 'Nope'], ['--frobnicate', '1'], ['-d'], ['--seed'],
       ['--population-size', ''], ['--max-iters', 'x'], ['--problem', 'Ackley', 'nope'], ['stray']]


@st.composite
def cases(draw):
    items = []
    for _ in range(draw(st.integers(0, 9))):
        key = draw(st.sampled_from(sorted(OPTS)))
        flags, vals = OPTS[key]
        if key == 'problem':
            v = draw(st.lists(st.integers(0, 10 ** 4), min_size=1, max_size=3))
        else:
            v = draw(vals)
        items.append([key, draw(st.sampled_from(flags)), v, draw(st.sampled_from(['sep', 'sep', 'eq', 'glued', 'abbr']))])
    return dict(items=items, bad=draw(st.sampled_from([None, None, None] + BAD)), at=draw(st.integers(0, 9)))


def render(item, names):
    key, flag, v, how = item
    if key == 'problem':
        return [flag] + [names[i % len(names)] for i in v]
    if key == 'seed':
        return [flag] + [str(s) for s in v]
    v = str(v)
    if how == 'eq' and flag.startswith('--'):
        return [flag + '=' + v]
    if how == 'glued' and not flag.startswith('--') and v:
        return [flag + v]
    if how == 'abbr' and flag.startswith('--') and key not in ('max_evals', 'max_iters'):
        return [flag[:-2], v]
    return [flag, v]


def model(items, names):
    from niapy.task import OptimizationType
    out = dict(algo='jDE', problem=names[0], dimension=10, max_evals=np.inf, max_iters=np.inf, population_size=43, run_type='', seed=[None],
               opt_type=OptimizationType.MINIMIZATION)
    for key, _, v, _ in items:
        if key == 'problem':
            out[key] = [names[i % len(names)] for i in v]
        elif key == 'opt_type':
            out[key] = OptimizationType.MAXIMIZATION if v == 'max' else OptimizationType.MINIMIZATION
        else:
            out[key] = v
    return out


def check(case):
    import niapy.problems as problems
    from niapy.util.argparser import get_args, get_args_dict
    names = [n for n in problems.__all__ if n != 'Problem']
    if names[0] != 'Ackley':
        names = ['Ackley'] + [n for n in names if n != 'Ackley']  # the documented default
    pieces = [render(i, names) for i in case['items']]
    if case['bad'] is not None:
        at = min(case['at'], len(pieces))
        if case['bad'] == ['stray']:
            at = 0
        argv = [a for p in pieces[:at] + [case['bad']] + pieces[at:] for a in p]
        for fn in (get_args, get_args_dict):
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    r = fn(list(argv))
            except SystemExit as e:
                if e.code == 0:
                    raise Violation('%s ends the program as if successful' % argv)
                continue
            raise Violation('%s is accepted as %s' % (argv, r))
        return {'nontrivial': len(case['items']) >= 2, 'invalid': 1}
    argv = [a for p in pieces for a in p]
    want = model(case['items'], names)
    keep = list(argv)
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            ns, dc = get_args(argv), get_args_dict(argv)
    except SystemExit:
        raise Violation('%s is rejected' % argv)
    if argv != keep:
        raise Violation('the argument list was changed to %s' % argv)
    for got, kind in ((vars(ns), 'namespace'), (dc, 'dictionary')):
        for k, v in want.items():
            if k not in got or type(got[k]) is not type(v) or got[k] != v:
                raise Violation('%s: %s %s is %r, expected %r' % (argv, kind, k, got.get(k), v))
        if set(got) - set(want):
            pass  # new options are not judged
    # a second call starts from the defaults again
    if get_args_dict([]) != model([], names):
        raise Violation('after parsing %s the defaults are %s' % (argv, get_args_dict([])))
    return {'nontrivial': len(case['items']) >= 2, 'repeated option': len({i[0] for i in case['items']}) < len(case['items']),
            **{'option ' + i[0]: 1 for i in case['items']}}


def targets(tier):
    return [Target('argv-%d' % k, cases, check, quick=150, thorough=10000) for k in range(8)]
