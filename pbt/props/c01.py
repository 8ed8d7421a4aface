"""C01: flattening then folding returns the original value."""
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check


def val_arg(spec, val, aslist):
    """Numeric patterns also take array-likes."""
    if aslist and gen.is_num(spec):
        return np.asarray(val).tolist() if np.asarray(val).size else val
    return val


def check_flat(p, spec, flat, free):
    check(isinstance(flat, np.ndarray), 'flat value is a {}', type(flat))
    check(flat.ndim == 1, 'flat value has {} dimensions', flat.ndim)
    n = gen.flat_len(spec, free)
    check(flat.size == n, 'flat value has length {}, expected {}',
          flat.size, n)
    check(p.flat_length(free=free) == n, 'flat_length({}) is {}, expected {}',
          free, p.flat_length(free=free), n)


def run_nonfree(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    rec.nt(gen.flat_len(spec, False) > 1)
    p = gen.build(spec)
    make = gen.boundary if case['boundary'] else gen.interior
    rec.label('boundary' if case['boundary'] else 'interior')
    val = make(spec, case['fill'])
    vv = gen.npflag(case['vv'], case['fill']['s'])
    flat = p.flatten(val_arg(spec, val, case['aslist']), free=False,
                     validate_value=vv)
    check_flat(p, spec, flat, False)
    got = p.fold(flat, free=False, validate_value=vv)
    gen.same_structure(spec, got)
    check(gen.exactly_equal(spec, got, val),
          'non-free round trip changed the value')
    flat2 = p.flatten(got, free=False, validate_value=vv)
    check(np.array_equal(flat2, flat), 'flattening again changed the vector')


def run_free(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    rec.nt(gen.flat_len(spec, False) > 1)
    p = gen.build(spec)
    make = gen.extreme_interior if case.get('extreme') else gen.interior
    rec.label('extreme' if case.get('extreme') else 'moderate')
    val = make(spec, case['fill'])
    vv = gen.npflag(case['vv'], case['fill']['s'])
    free = gen.npflag(True, case['fill']['s'] + 1)
    flat = p.flatten(val_arg(spec, val, case['aslist']), free=free,
                     validate_value=vv)
    check_flat(p, spec, flat, True)
    check(np.isfinite(flat).all(),
          'interior value has a non-finite free value')
    got = p.fold(flat, free=free, validate_value=vv)
    gen.same_structure(spec, got)
    tol = gen.free_round_trip_tol(spec, val)
    err = gen.max_err(spec, got, val, tol)
    check(err <= 0, 'free round trip exceeds its tolerance by {}', err)


def run_on_bounds(case, rec):
    """Numeric entries exactly on their bounds survive the free round trip."""
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    val = gen.boundary(spec, case['fill'])
    flat_ref = gen.ref_flatten(spec, val)
    on = 0
    for path, s, _, _ in gen.leaves(spec):
        v = gen.at(val, path)
        on += int(np.sum((v == gen.lb_of(s)) | (v == gen.ub_of(s))))
    rec.nt(on > 0)
    flat = p.flatten(val, free=True)
    check_flat(p, spec, flat, True)
    got = p.fold(flat, free=True)
    gen.same_structure(spec, got)
    tol = gen.free_round_trip_tol(spec, val)
    err = gen.max_err(spec, got, val, tol)
    check(err <= 0, 'free round trip from a bound is off by {}', err)
    assert flat_ref.size == flat.size


def run_types(case, rec):
    """Integer entries of every type."""
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec, gen.other_numbers if case['cv'] else gen.plain)
    wide = gen.subseed(case['s'], 1) % 2 == 0
    val, hit = gen.integers(spec, case['s'], case['t'], wide)
    rec.nt(hit > 0)
    rec.label('type:' + case['t'])
    flat = p.flatten(val, free=False)
    check_flat(p, spec, flat, False)
    got = p.fold(flat, free=False)
    gen.same_structure(spec, got)
    check(gen.exactly_equal(spec, got, val),
          'non-free round trip changed {} to {}', val, got)
    if any(np.abs(gen.at(val, path).astype(object)).max() > 2 ** 53
           for path, s, _, _ in gen.leaves(spec)
           if gen.is_num(s) and gen.at(val, path).size):
        # The free parameterization is one of floats.
        rec.label('beyond 2^53')
        return
    flat = p.flatten(val, free=True)
    check_flat(p, spec, flat, True)
    got = p.fold(flat, free=True)
    gen.same_structure(spec, got)
    ref = gen.floats(val)
    err = gen.max_err(spec, got, ref, gen.free_round_trip_tol(spec, ref))
    check(err <= 0, 'free round trip of {} gives {}', val, got)


BOUNDS = [(None, None), (0., None), (None, 1.), (0., 1.), (-1., 2.),
          (-3., None), (None, 4.), (0., 5.)]


def shared_member(m, shape, kind):
    """A pattern for which the shared value is interior."""
    common = {'dv': [None, True, False][m % 3], 'fd': None}
    lb, ub = BOUNDS[m // 3 % len(BOUNDS)]
    which = m // 24 % 3
    if kind == 'sim' and which == 0:
        return dict(common, k='sim', size=shape[-1], ashape=list(shape[:-1]))
    if kind == 'psd' and which == 0:
        return dict(common, k='psd', size=shape[0],
                    diag_lb=[None, 0.1, 0.25][m // 72 % 3])
    if kind == 'psd':
        lb, ub = [(None, None), (-9., 9.), (-20., None)][m // 72 % 3]
    if which == 1 and len(shape) > 1:
        k = 1 + m // 72 % (len(shape) - 1)
        return {'k': 'parr', 'ashape': list(shape[:k]), 'fd': None, 'base':
                dict(common, k='arr', shape=list(shape[k:]), lb=lb, ub=ub)}
    if which == 2 and len(shape) == 1:
        return dict(common, k='vec', length=shape[0], lb=lb, ub=ub)
    return dict(common, k='arr', shape=list(shape), lb=lb, ub=ub)


def run_shared(case, rec):
    """One value object in several places."""
    kind, shape = case['kind'], tuple(case['shape'])
    if kind == 'psd':
        shape = (shape[-1], shape[-1])
        u = gen.uniform(case['s'], shape[0] ** 2).reshape(shape)
        x = u @ u.T + 0.5 * np.eye(shape[0])
    else:
        x = 0.1 + 0.8 * gen.uniform(case['s'], gen.size(shape))
        x = x.reshape(shape)
        if kind == 'sim':
            if shape[-1] < 2:
                return
            x = x / x.sum(axis=-1, keepdims=True)
    members = [shared_member(m, shape, kind) for m in case['members']]
    items = [['m%d' % i, s] for i, s in enumerate(members)]
    val = {n: x for n, _ in items}
    if case['nest']:
        # The same dictionary of values twice.
        again = [shared_member(m + 5, shape, kind) for m in case['members']]
        inner = [{'k': 'dict', 'fd': None, 'items': items},
                 {'k': 'dict', 'fd': None, 'items': [
                     ['m%d' % i, s] for i, s in enumerate(again)]}]
        items = [['a', inner[0]], ['b', inner[1]]]
        val = {'a': val, 'b': val}
        members = members + again
    spec = {'k': 'dict', 'fd': None, 'items': items}
    gen.spec_labels(rec, spec)
    rec.label('shared:' + kind)
    rec.nt(len({repr(m) for m in members}) > 1)
    p = gen.build(spec)
    x0 = np.array(x)
    for free in (False, True):
        flat = p.flatten(val, free=free)
        check_flat(p, spec, flat, free)
        want = np.concatenate([np.ravel(gen.build(m).flatten(
            np.array(x0), free=free)) for m in members])
        check(gen.nearly(np.asarray(flat), want),
              'the flat value {} of a value in several places is not that of '
              'its copies, {}', flat, want)
        got = p.fold(flat, free=free)
        gen.same_structure(spec, got)
        check(gen.max_err(spec, got, val, gen.free_round_trip_tol(spec, val))
              <= 0, 'round trip of {} gives {}', val, got)
        check(np.array_equal(x, x0), 'flattening changed the value')
    mask = x0 > np.median(x0)
    bval = {n: mask for n, _ in items}
    if case['nest']:
        bval = {k: {n: mask for n, _ in s['items']} for k, s in items}
    ind = p.flat_indices(bval, free=False)
    check(np.array_equal(ind, np.nonzero(gen.ref_flatten(
        spec, gen.copy_val(bval)))[0]), 'indices {} of a shared mask', ind)


VV = st.sampled_from([None, None, True, False])
COMMON = {'fill': gen.fills(), 'vv': VV, 'aslist': st.booleans()}

PROP = Prop(
    'C01',
    'A case is a generated pattern configuration (numeric array/vector/scalar '
    'with bounds, PSD matrix, simplex array, nested dict, array of patterns) '
    'and a generated valid folded value (interior, at extreme scales, or with '
    'entries on the boundary; types: with integers of several types; shared: one array in several places of a dictionary).  '
    'Non-trivial: the flat vector has at least two entries (on_bounds: at '
    'least one entry sits on a bound; types: an integer entry).',
    [Sub('big_free', st.fixed_dictionaries(
         dict(COMMON, spec=gen.big_specs(), extreme=st.just(False))), run_free, 1280),
     Sub('big_nonfree', st.fixed_dictionaries(
        dict(COMMON, spec=gen.big_specs(), boundary=st.booleans())), run_nonfree, 960),
     Sub('huge_free', st.fixed_dictionaries(
         dict(COMMON, spec=gen.huge_specs(), extreme=st.just(False))),
         run_free, 64),
     Sub('huge_nonfree', st.fixed_dictionaries(
         dict(COMMON, spec=gen.huge_specs(), boundary=st.booleans())),
         run_nonfree, 64),
     Sub('nonfree', st.fixed_dictionaries(
        dict(COMMON, spec=gen.specs(), boundary=st.booleans())),
        run_nonfree, 3200),
     Sub('free', st.fixed_dictionaries(
         dict(COMMON, spec=gen.specs(),
              extreme=st.sampled_from([False, False, True]))),
         run_free, 5600),
     Sub('types', gen.type_cases(), run_types, 2400),
     Sub('shared', st.fixed_dictionaries(
         {'s': gen.seeds, 'kind': st.sampled_from(['num', 'sim', 'psd']),
          'shape': st.sampled_from([[2], [3], [2, 2], [2, 3], [1, 2, 2],
                                    [4]]),
          'members': st.lists(st.integers(0, 215), min_size=2, max_size=4),
          'nest': st.booleans()}), run_shared, 1200),
     Sub('on_bounds', st.fixed_dictionaries(
         {'spec': st.one_of(gen.num_specs(),
                            gen.parr_specs(base=gen.num_specs(zero=False)),
                            gen.dict_specs(leaf=gen.num_specs(), parr=False)),
          'fill': gen.fills()}), run_on_bounds, 2400)],
    ['PSD values are those for which the matrix minus diag_lb on the diagonal '
     'is positive definite; simplex values are interior for the free '
     'parameterization.'])
