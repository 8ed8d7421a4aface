"""C04: invalid shapes and values are rejected, valid ones accepted."""
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check, Violation


def raises_value_error(f, what):
    try:
        r = f()
    except ValueError as e:
        if type(e).__module__ == 'numpy.linalg' or \
                type(e).__name__ == 'LinAlgError':
            raise Violation('{}: LinAlgError instead of a rejection'.format(
                what))
        return str(e)
    raise Violation('{} was accepted (returned {})'.format(
        what, str(r)[:200]))


def check_verdict(res, want, what):
    check(isinstance(res, tuple) and len(res) == 2,
          '{}: validate_folded returned {}', what, res)
    ok, msg = res
    check(isinstance(ok, (bool, np.bool_)), '{}: verdict is a {}', what,
          type(ok))
    check(isinstance(msg, str), '{}: message is a {}', what, type(msg))
    check(bool(ok) == want, '{}: verdict {} ({}), expected {}', what, ok, msg,
          want)
    check((msg == '') == bool(ok), '{}: verdict {} with message {!r}', what,
          ok, msg)


# -- single-entry corruptions ------------------------------------------------

def corrupt(s, v, c):
    """Corrupt (or only move to the edge of validity) the leaf value v in
    place; v is a float array.  Returns a label."""
    kind, pos, amount = c['kind'], c['pos'], c['amount']
    if v.size == 0:
        return 'empty'
    if gen.is_num(s):
        i = np.unravel_index(pos % v.size, v.shape)
        lb, ub = float(gen.lb_of(s)), float(gen.ub_of(s))
        if kind == 'none':
            return 'none'
        side = pos // v.size % 2
        if lb == -gen.INF:
            side = 1
        if ub == gen.INF:
            side = 0
        b = ub if side else lb
        if np.isinf(b):
            # Unbounded: everything finite is valid.
            v[i] = (-1) ** pos * 1e300
            return 'unbounded'
        if kind == 'edge':
            v[i] = b
            return 'on bound'
        sign = 1 if side else -1
        if amount == 'ulp':
            v[i] = np.nextafter(b, sign * gen.INF)
        elif amount == 'small':
            v[i] = b + sign * 1e-9 * max(1, abs(b))
        elif amount == 'unit':
            v[i] = b + sign * max(1, abs(b))
        else:
            v[i] = sign * gen.INF
        return 'beyond ' + ('ub' if side else 'lb')
    n = s['size']
    if s['k'] == 'psd':
        if kind == 'none':
            return 'none'
        dl = float(gen.diag_lb_of(s))
        r, q = pos % n, pos // n % n
        if n == 1 or kind == 'edge' or pos % 3 == 0:
            if kind == 'edge':
                v[r, r] = dl
                return 'diag on bound'
            v[r, r] = {'ulp': np.nextafter(dl, -1.),
                       'small': dl - 1e-9, 'unit': dl - 1,
                       'inf': -1e300}[amount]
            return 'diag below bound'
        if r == q:
            q = (r + 1) % n
        if amount == 'ulp':
            v[r, q] = np.nextafter(v[r, q], gen.INF)
        elif amount == 'small':
            v[r, q] += 1e-9 * max(1, abs(v[r, q]))
        elif amount == 'unit':
            v[r, q] += 1 + abs(v[r, q])
        else:
            v[r, q] = -v[r, q] - 1
        return 'asymmetric'
    rows = v.reshape(-1, n)
    r, q = pos // n % rows.shape[0], pos % n
    if kind == 'none':
        return 'none'
    if kind == 'edge':
        rows[r] = 0.
        rows[r, q] = 1.
        return 'vertex'
    d = {'ulp': 4e-12, 'small': 1e-9, 'unit': 1.0, 'inf': 1e3}[amount]
    if pos % 2 == 0:
        rows[r, q] += d if pos % 4 else -min(d, rows[r, q] / 2)
        return 'sum off'
    # Negative entry, sum preserved.
    o = (q + 1) % n
    t = rows[r, q] + rows[r, o]
    rows[r, q] = -d
    rows[r, o] = t + d
    return 'negative entry'


def validated(s, vv):
    return gen.dv_of(s) if vv is None else vv


def run_values(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    make = gen.boundary if case['boundary'] else gen.interior
    val = make(spec, case['fill'])
    val = gen.map_leaves(
        spec, lambda path, s, v=val: np.array(gen.at(v, path), dtype=float))
    ls = gen.leaves(spec)
    if ls:
        for c in case['corr']:
            path, s, _, _ = ls[c['leaf'] % len(ls)]
            leaf = gen.at(val, path)
            rec.label(s['k'][:3] + ':' + corrupt(s, leaf, c))
    verdicts = [(gen.leaf_valid(s, gen.at(val, path)), s)
                for path, s, _, _ in ls]
    vv = gen.npflag(case['vv'], case['fill']['s'])
    rec.label('validate:%s' % vv)
    if any(r == 'unsure' and validated(s, vv) for r, s in verdicts):
        rec.label('unsure')
        return
    want = not any(r == 'bad' and validated(s, vv) for r, s in verdicts)
    anybad = any(r == 'bad' for r, _ in verdicts)
    rec.label('valid' if not anybad else
              'rejected' if not want else 'invalid but unchecked')
    rec.nt(gen.flat_len(spec, False) > 1 and
           (anybad or case['boundary'] or bool(case['corr'])))
    flat = gen.ref_flatten(spec, val)
    check_verdict(p.validate_folded(val, validate_value=vv), want, 'value')
    if want:
        got = p.flatten(val, free=False, validate_value=vv)
        check(np.array_equal(got, flat), 'flattened another value')
        got = p.fold(flat, free=False, validate_value=vv)
        check(gen.exactly_equal(spec, got, val), 'folded another value')
    else:
        raises_value_error(
            lambda: p.flatten(val, free=False, validate_value=vv),
            'flattening an invalid value')
        raises_value_error(
            lambda: p.flatten(val, free=True, validate_value=vv),
            'free-flattening an invalid value')
        raises_value_error(
            lambda: p.fold(flat, free=False, validate_value=vv),
            'folding an invalid value')
    if vv is None:
        # Omitting the argument is the same as None.
        check_verdict(p.validate_folded(val), want, 'default')
        if want:
            check(np.array_equal(p.flatten(val, free=False), flat),
                  'flattened another value by default')
            check(gen.exactly_equal(spec, p.fold(flat, free=False), val),
                  'folded another value by default')
        else:
            for free in (False, True):
                raises_value_error(
                    lambda: p.flatten(val, free=free),
                    'flattening an invalid value by default')
            raises_value_error(lambda: p.fold(flat, free=False),
                               'folding an invalid value by default')


# -- wrong shapes and lengths ------------------------------------------------

def wrong_shapes(shape):
    n = gen.size(shape)
    out = []
    out.append(shape + (1,))
    out.append((1,) + shape)
    if len(shape) > 1:
        out.append((n,))
        out.append(shape[:-1])
        out.append(shape[1:])
        out.append(shape[::-1])
        out.append((shape[0] * shape[1],) + shape[2:])
        out.append(shape[:-2] + (shape[-1], shape[-2]))
    for ax in range(len(shape)):
        out.append(shape[:ax] + (shape[ax] + 1,) + shape[ax + 1:])
        if shape[ax] > 0:
            out.append(shape[:ax] + (shape[ax] - 1,) + shape[ax + 1:])
    for a in (2, 3):
        if n and n % a == 0:
            out.append((a, n // a))
    return [s for s in out if s != shape]


def array_nodes(spec, path=()):
    """Members whose folded value is one array."""
    if spec['k'] == 'dict':
        out = []
        for name, s in spec['items']:
            out += array_nodes(s, path + (name,))
        return out
    return [(path, spec)]


def dict_nodes(spec, path=()):
    if spec['k'] != 'dict':
        return []
    out = [(path, spec)] if spec['items'] else []
    for name, s in spec['items']:
        out += dict_nodes(s, path + (name,))
    return out


def run_shapes(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    val = gen.interior(spec, case['fill'])
    vv = gen.npflag(case['vv'], case['fill']['s'])
    arrays = array_nodes(spec)
    dicts = dict_nodes(spec)
    if case['drop'] and dicts:
        path, s = dicts[case['which'] % len(dicts)]
        name = s['items'][case['pos'] % len(s['items'])][0]
        del gen.at(val, path)[name]
        what = 'missing key {!r} at {}'.format(name, path)
        rec.label('missing key')
        rec.nt()
    elif arrays:
        path, s = arrays[case['which'] % len(arrays)]
        shape = gen.shape_of(s)
        cands = wrong_shapes(shape)
        if gen.is_num(s) and shape == (1,):
            # A scalar is an allowed value for a length-one array.
            cands = [c for c in cands if c != ()]
        bad = cands[case['pos'] % len(cands)]
        v = np.resize(np.asarray(gen.at(val, path), dtype=float), bad) \
            if gen.size(shape) else np.zeros(bad)
        if path:
            gen.at(val, path[:-1])[path[-1]] = v
        else:
            val = v
        what = 'shape {} instead of {}'.format(bad, shape)
        rec.label('wrong shape:' + s['k'])
        rec.nt()
    else:
        return
    rec.label('validate:%s' % vv)
    check_verdict(p.validate_folded(val, validate_value=vv), False, what)
    for free in (False, True):
        raises_value_error(
            lambda: p.flatten(val, free=free, validate_value=vv), what)


def run_lengths(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    free, vv = case['free'], case['vv']
    n = gen.flat_len(spec, free)
    base = gen.free_vector(spec, case['fill']) if free else \
        gen.ref_flatten(spec, gen.interior(spec, case['fill']))
    base = np.asarray(base, dtype=float)
    how = case['how']
    if how == 'longer':
        k = case['k']
        x = np.concatenate([base, base[:k] if n >= k else np.ones(k)])
    elif how == 'shorter':
        x = base[:max(0, n - case['k'])]
    elif how == 'other':
        m = gen.flat_len(spec, not free)
        x = np.resize(base, m) if n else np.zeros(m)
    elif how == 'row':
        x = base[None, :]
    elif how == 'col':
        x = base[:, None]
    elif how == '3d':
        x = base[None, :, None]
    elif how == 'folded':
        if spec['k'] == 'dict' or len(gen.shape_of(spec)) < 2 or free:
            x = base[None, :]
        else:
            x = base.reshape(gen.shape_of(spec))
    else:
        x = np.zeros(0)
    if x.ndim == 1 and x.size == n:
        return
    rec.label('how:' + how)
    rec.nt()
    raises_value_error(
        lambda: p.fold(x, free=free, validate_value=vv),
        'flat value of shape {} (expected length {})'.format(x.shape, n))


VV = st.sampled_from([None, None, True, False])
HOWS = st.sampled_from(['longer', 'shorter', 'other', 'row', 'col', '3d',
                        'folded', 'empty'])
CORR = st.fixed_dictionaries({
    'leaf': gen.picks(), 'pos': gen.picks(),
    'kind': st.sampled_from(['beyond', 'beyond', 'beyond', 'edge']),
    'amount': st.sampled_from(['ulp', 'small', 'unit', 'inf'])})

PROP = Prop(
    'C04',
    'A case is a generated pattern, a valid value, zero to two corrupted (or '
    'moved onto the boundary) entries at any position of any member, and a '
    'validation setting (explicit or default); or a wrong shape at any '
    'member, a missing key, or a flat vector of wrong length or dimension.  '
    'Non-trivial: more than one entry and at least one entry corrupted or on '
    'the boundary; every wrong shape or length.',
    [Sub('big_values', st.fixed_dictionaries(
        {'spec': gen.big_specs(), 'fill': gen.fills(), 'boundary': st.booleans(),
         'corr': st.lists(CORR, min_size=1, max_size=1), 'vv': VV}), run_values, 1600),
     Sub('values', st.fixed_dictionaries(
        {'spec': gen.specs(), 'fill': gen.fills(), 'boundary': st.booleans(),
         'corr': st.lists(CORR, min_size=0, max_size=2), 'vv': VV}),
        run_values, 6400),
     Sub('shapes', st.fixed_dictionaries(
         {'spec': gen.specs(), 'fill': gen.fills(), 'drop': st.booleans(),
          'which': gen.picks(), 'pos': gen.picks(), 'vv': VV}),
         run_shapes, 3200),
     Sub('big_shapes', st.fixed_dictionaries(
         {'spec': gen.big_specs(), 'fill': gen.fills(), 'drop': st.booleans(),
          'which': gen.picks(), 'pos': gen.picks(), 'vv': VV}),
         run_shapes, 800),
     Sub('big_lengths', st.fixed_dictionaries(
         {'spec': gen.big_specs(), 'fill': gen.fills(), 'free': st.booleans(),
          'how': HOWS, 'k': st.integers(1, 3), 'vv': VV}), run_lengths, 800),
     Sub('lengths', st.fixed_dictionaries(
         {'spec': gen.specs(), 'fill': gen.fills(), 'free': st.booleans(),
          'how': HOWS, 'k': st.integers(1, 3), 'vv': VV}), run_lengths, 2400)],
    ['Simplex sums whose error is between 0.5e-12 and 1.5e-12 are not '
     'decided (rounding around the tolerance).',
     'Extra dictionary keys are not specified.'])
