"""C15: pattern operations are pure."""
import os
import random
import sys
import warnings
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check
from .c11 import MASK, make_mask
from .c05 import nodes


def arrays_in(x):
    if isinstance(x, dict):
        out = []
        for v in x.values():
            out += arrays_in(v)
        return out
    if isinstance(x, np.ndarray):
        return [x]
    if hasattr(x, 'toarray'):
        return [getattr(x, a) for a in ('data', 'row', 'col', 'offsets')
                if isinstance(getattr(x, a, None), np.ndarray)]
    return []


def snapshot(x):
    """A comparable copy of any result or argument."""
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if hasattr(x, 'toarray'):
        return np.array(x.toarray())
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, tuple):
        return tuple(snapshot(v) for v in x)
    if isinstance(x, list):
        return [snapshot(v) for v in x]
    return x


def same(a, b, exact=False):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and \
            all(same(a[k], b[k], exact) for k in a)
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape:
            return False
        if exact:
            return np.array_equal(a, b)
        return gen.nearly(a, b)
    if isinstance(a, (tuple, list)):
        return type(a) == type(b) and len(a) == len(b) and \
            all(same(x, y, exact) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return gen.nearly(a, b)
    return a == b


def relayout(x, how):
    """The same array in another memory layout, or read-only."""
    if isinstance(x, dict):
        return type(x)((k, relayout(v, how)) for k, v in x.items())
    x = np.array(x)
    if how == 'strided' and x.ndim >= 1:
        big = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), dtype=x.dtype)
        big[..., ::2] = x
        x = big[..., ::2]
    elif how == 'fortran':
        x = np.asfortranarray(x)
    elif how == 'readonly':
        x.flags.writeable = False
    return x


def scribble(x):
    for a in arrays_in(x):
        if a.flags.writeable and a.size:
            if a.dtype.kind == 'b':
                a[...] = ~a
            elif a.dtype.kind in 'US':
                a[...] = 'garbage'
            else:
                a[...] = -12345
    if isinstance(x, dict):
        for k in list(x):
            del x[k]
    elif isinstance(x, list):
        del x[:]


def zeroed(x):
    if isinstance(x, dict):
        return type(x)((k, zeroed(v)) for k, v in x.items())
    if isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = 0
        return x
    return 0.


def call(p, spec, op, args):
    k, free, vv = op['op'], op['free'], op['vv']
    if k == 'fold':
        return p.fold(args, free=free, validate_value=vv)
    if k == 'flatten':
        return p.flatten(args, free=free, validate_value=vv)
    if k == 'validate':
        ok, msg = p.validate_folded(args, validate_value=vv)
        return (bool(ok), msg)
    if k == 'indices':
        return p.flat_indices(args, free=free)
    if k == 'names':
        return p.flat_names(free)
    if k == 'empty':
        return p.empty(valid=True)
    if k == 'empty_any':
        # (The values are unspecified.)
        return zeroed(p.empty(valid=False))
    if k == 'empty_bool':
        return p.empty_bool(free)
    if k == 'jac':
        f = p.freeing_jacobian if free else p.unfreeing_jacobian
        return f(args, sparse=bool(vv))
    if k == 'json':
        return p.to_json()
    if k == 'length':
        return int(p.flat_length(free=free))
    if k == 'str':
        return str(p)
    if k == 'asdict':
        return p.as_dict()
    if k == 'random':
        np.random.seed(op['fill'] + 3)
        return p.random()
    if k == 'logdet':
        f = p.log_abs_det_freeing_jacobian if free \
            else p.log_abs_det_unfreeing_jacobian
        return float(f(args))
    raise ValueError(k)


def attempt(p, spec, op, args):
    """The result, or the type of the exception."""
    try:
        return call(p, spec, op, args), None
    except ValueError:
        return 'ValueError', ValueError


def spoil(spec, val, seed):
    """A value that is invalid in one or all of its constrained leaves."""
    lv = gen.leaves(spec)
    which = seed % (len(lv) + 1)

    def fn(path, s):
        v = np.array(gen.at(val, path))
        if which == len(lv) or lv[which][0] == path:
            return -1e7 * (1 + np.abs(v)) * np.where(
                np.arange(v.size).reshape(v.shape) % 2, 1, -1)
        return v
    return gen.map_leaves(spec, fn)


def make_args(spec, op, fills, mask):
    k = op['op']
    if op.get('bad') and k in ('fold', 'flatten', 'validate') and \
            not (k == 'fold' and op['free']):
        val = spoil(spec, gen.interior(spec, fills[op['fill'] % len(fills)]),
                    len(op['layout']) + op['fill'])
        # (Free values of invalid ones are undefined.)
        if k == 'fold':
            return gen.ref_flatten(spec, val)
        if k == 'flatten' and op['free']:
            return gen.interior(spec, fills[op['fill'] % len(fills)])
        return val
    fill = fills[op['fill'] % len(fills)]
    if k == 'fold':
        if op['free']:
            return gen.free_vector(spec, fill)
        return gen.ref_flatten(spec, gen.interior(spec, fill))
    if k in ('flatten', 'validate', 'jac', 'logdet'):
        return gen.interior(spec, fill)
    if k == 'indices':
        return make_mask(spec, dict(mask, s=mask['s'] + op['fill']))[1]
    return None


ERR = [('warn', 'warn', 'warn', 'warn'), ('ignore', 'warn', 'ignore', 'warn'),
       ('warn', 'ignore', 'warn', 'ignore'),
       ('ignore', 'ignore', 'ignore', 'ignore')]


def process_state():
    """What every other user of numpy in the process sees."""
    r = np.random.get_state()
    return (np.geterr(), np.geterrcall(), np.getbufsize(),
            repr(np.get_printoptions()),
            (r[0], r[1].tobytes()) + tuple(r[2:]), list(warnings.filters),
            random.getstate(), dict(os.environ), os.getcwd(), list(sys.path),
            sys.getrecursionlimit(), sys.stdout, sys.stderr)


def run(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    json0 = p.to_json()
    str0 = str(p)
    fd0 = p.free_default
    numeric = gen.kinds(spec) <= {'arr', 'vec', 'sca', 'dict'}
    earlier = []
    pending = []
    for op in case['ops']:
        np.random.seed(case['mask']['s'] % 1000)
        if op['op'] == 'logdet' and not numeric:
            op = dict(op, op='jac')
        if op['op'] == 'jac' and gen.flat_len(spec, False) > 60:
            op = dict(op, op='flatten')
        args = make_args(spec, op, case['fills'], case['mask'])
        if args is not None:
            args = relayout(args, op['layout'])
        before = snapshot(args)
        fresh, exc = attempt(gen.build(spec), spec, op, snapshot(args))
        fresh = snapshot(fresh)
        with warnings.catch_warnings(), np.errstate(
                **dict(zip(('over', 'divide', 'invalid', 'under'),
                           ERR[case['mask']['s'] % len(ERR)]))):
            warnings.simplefilter('ignore')
            state = process_state()
            got, exc2 = attempt(p, spec, op, args)
            if op['op'] != 'random':
                check(process_state() == state, '{} changed the error '
                      'handling, print options, warning filters or random '
                      'state', op['op'])
        check(exc == exc2, '{}: {} instead of {}', op, got, fresh)
        if exc:
            rec.label('rejected')
            check(same(snapshot(args), before, exact=True) and
                  p.to_json() == json0, 'a rejected {} changed something',
                  op['op'])
            continue
        check(same(snapshot(args), before, exact=True),
              '{} modified its argument', op['op'])
        snap = snapshot(got)
        check(same(snap, fresh), '{} differs from a fresh instance: '
              '{} != {}', op, snap, fresh)
        again = call(p, spec, op, args)
        check(same(snapshot(again), fresh), 'repeating {} differs', op)
        view_ok = op['op'] == 'fold' and not op['free']
        if not view_ok:
            for a in arrays_in(got):
                for b in arrays_in(args) + arrays_in(again):
                    check(not np.shares_memory(a, b),
                          '{} returned memory it shares', op['op'])
            for a in arrays_in(got):
                for b in earlier:
                    check(not np.shares_memory(a, b),
                          '{} shares memory with an earlier result', op['op'])
            scribble(got)
            check(same(snapshot(args), before, exact=True),
                  'modifying the result of {} changed its input', op['op'])
            check(same(snapshot(again), fresh),
                  'modifying one result of {} changed another', op['op'])
            third = call(p, spec, op, args)
            check(same(snapshot(third), fresh), 'modifying a result of {} '
                  'changed a later one: {} != {}', op['op'], snapshot(third),
                  fresh)
            earlier += arrays_in(again)
            pending.append((op, again, fresh))
        rec.label(op['op'], 'layout:' + op['layout'])
        check(p.to_json() == json0 and str(p) == str0 and
              p.free_default is fd0, '{} changed the pattern', op['op'])
    # Results obtained earlier are unaffected by everything since.
    for op, res, fresh in pending:
        check(same(snapshot(res), fresh),
              'a result of {} changed after the fact', op['op'])
    # Nothing is remembered of earlier choices: a fixed battery of calls that
    # leave the choices to the defaults.
    for i, k in enumerate(('flatten', 'fold', 'validate', 'flatten', 'fold',
                           'validate')):
        op = {'op': k, 'free': False if i % 2 or spec.get('fd') is None
              else None, 'vv': None, 'fill': i % 3, 'bad': i < 3,
              'layout': 'plain'}
        if op['free'] is None and spec['fd']:
            if k == 'fold' or op['bad']:
                op['bad'] = False
            args = make_args(spec, dict(op, free=True), case['fills'],
                             case['mask'])
        else:
            args = make_args(spec, dict(op, free=False), case['fills'],
                             case['mask'])
        want, exc = attempt(gen.build(spec), spec, op, snapshot(args))
        got, exc2 = attempt(p, spec, op, args)
        check(exc == exc2 and same(snapshot(got), snapshot(want)),
              'after the history, {} gives {} instead of {}', op, got, want)
    check(p == gen.build(spec), 'the pattern changed')
    rec.nt(gen.flat_len(spec, False) > 0 and
           len({(o['op'], o['free'], o['fill']) for o in case['ops']}) > 1)


OPS = st.fixed_dictionaries({
    'op': st.sampled_from(['fold', 'fold', 'flatten', 'flatten', 'validate',
                           'indices', 'indices', 'names', 'empty',
                           'empty_any', 'empty_bool', 'jac', 'jac', 'json', 'length',
                           'str', 'asdict', 'random', 'logdet']),
    'free': st.booleans(), 'vv': st.sampled_from([None, True, False]),
    'fill': st.integers(0, 2),
    'bad': st.sampled_from([False, False, False, True]),
    'layout': st.sampled_from(['plain', 'strided', 'fortran', 'readonly'])})

PROP = Prop(
    'C15',
    'A case is a generated pattern, three values and a history of calls in '
    'any order with plain, strided, column-major, read-only and (for '
    'validation) invalid arguments; '
    'each result is compared with the same call on a fresh instance, '
    'repeated, scribbled over and requested again, arguments are compared '
    'before and after, and memory sharing is probed.  Non-trivial: a '
    'non-empty pattern and at least two different calls.',
    [Sub('history', st.fixed_dictionaries(
        {'spec': gen.specs(), 'mask': MASK,
         'fills': st.lists(gen.fills(), min_size=3, max_size=3),
         'ops': st.lists(OPS, min_size=2, max_size=8)}), run, 4000)],
    ['Non-free folding may return a view of its argument.'])
