"""C12: empty, random and boolean folded values; reported configuration."""
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check


def scribble(spec, val):
    for path, s, _, _ in gen.leaves(spec):
        v = gen.at(val, path)
        if v.flags.writeable:
            v[...] = True if v.dtype == bool else 77
    if isinstance(val, dict):
        for k in list(val):
            del val[k]


def check_valid(p, spec, val, what):
    gen.same_structure(spec, val, what)
    for path, s, _, _ in gen.leaves(spec):
        v = gen.at(val, path)
        check(np.isfinite(np.asarray(v, dtype=float)).all(),
              '{} is not finite at {}: {}', what, path, v)
        check(gen.leaf_valid(s, v) != 'bad', '{} is invalid at {}: {}', what,
              path, v)
        if s['k'] == 'psd':
            check(np.linalg.eigvalsh(v)[0] > 0 or gen.diag_lb_of(s) > 1e6,
                  '{} is not positive definite at {}', what, path)
    for vv in (True, None, np.bool_(True)):
        ok, msg = p.validate_folded(val, validate_value=vv)
        check(ok, '{} is rejected: {}', what, msg)
    p.flatten(val, free=False, validate_value=True)
    p.flatten(val, free=True, validate_value=True)


def run_values(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    rec.nt(gen.flat_len(spec, False) > 0)
    p = gen.build(spec)
    first = p.empty(valid=True)
    check_valid(p, spec, first, 'empty value')
    keep = gen.ref_flatten(spec, first).copy()
    scribble(spec, first)
    again = p.empty(valid=True)
    gen.same_structure(spec, again, 'second empty value')
    check(gen.nearly(gen.ref_flatten(spec, again), keep),
          'modifying an empty value changed a later one')
    # Filling in one entry affects that entry only.
    mine = p.empty(valid=True)
    before = gen.ref_flatten(spec, mine).copy()
    n = before.size
    if n:
        for k in {0, n - 1, case['state'] % n}:
            for path, s, off, _ in gen.leaves(spec):
                m = gen.flat_len(s, False)
                if off <= k < off + m:
                    v = gen.at(mine, path)
                    check(v.flags.writeable, 'an empty value is read-only')
                    v[np.unravel_index(k - off, v.shape)] = 1234.5 + k
            before[k] = 1234.5 + k
        check(np.array_equal(gen.ref_flatten(spec, mine), before),
              'filling in entries of an empty value changed others')
    un = p.empty(valid=False)
    gen.same_structure(spec, un, 'unfilled empty value')
    scribble(spec, un)
    gen.same_structure(spec, p.empty(valid=False), 'unfilled empty value')

    np.random.seed(case['state'])
    for _ in range(2):
        r = p.random()
        check_valid(p, spec, r, 'random value')
        scribble(spec, r)

    for value in (True, False, np.bool_(True), np.bool_(False)):
        b = p.empty_bool(value)
        gen.same_structure(spec, b, 'boolean value')
        for path, s, _, _ in gen.leaves(spec):
            v = gen.at(b, path)
            check(v.dtype == bool, 'boolean value has dtype {}', v.dtype)
            check((v == value).all(), 'boolean value is {}', v)
        scribble(spec, b)
        b = p.empty_bool(value)
        gen.same_structure(spec, b, 'boolean value')
        check((gen.ref_flatten(spec, b) == value).all(),
              'modifying a boolean value changed a later one')
    r = p.random()
    check_valid(p, spec, r, 'later random value')


def check_reported(p, s):
    k = s['k']
    fd = s.get('fd')
    check(p.free_default is fd, 'free_default {} != {}', p.free_default, fd)
    for free in (True, False):
        n = p.flat_length(free=free)
        check(n == gen.flat_len(s, free), 'length {} != {}', n,
              gen.flat_len(s, free))
        check(isinstance(n, (int, np.integer)) and not isinstance(n, bool),
              'length is a {}', type(n))
    if k != 'dict':
        check(isinstance(p.shape(), tuple) and p.shape() == gen.shape_of(s),
              'shape {} != {}', p.shape(), gen.shape_of(s))
    if k in ('arr', 'vec', 'sca', 'psd', 'sim'):
        check(p.default_validate == gen.dv_of(s), 'default_validate')
    if gen.is_num(s):
        lb, ub = p.bounds()
        check(lb == gen.lb_of(s) and ub == gen.ub_of(s), 'bounds {}',
              p.bounds())
    if k == 'vec':
        check(p.length() == s['length'], 'length() {}', p.length())
    if k == 'psd':
        check(p.size() == s['size'] and p.diag_lb() == gen.diag_lb_of(s),
              'size {} diag_lb {}', p.size(), p.diag_lb())
    if k == 'sim':
        check(p.simplex_size() == s['size'] and
              tuple(p.array_shape()) == tuple(s['ashape']),
              'simplex_size {} array_shape {}', p.simplex_size(),
              p.array_shape())
    if k == 'parr':
        check(tuple(p.array_shape()) == tuple(s['ashape']), 'array_shape {}',
              p.array_shape())
        check_reported(p.base_pattern(), s['base'])
    if k == 'dict':
        check(list(p.keys()) == [n for n, _ in s['items']], 'keys {}',
              list(p.keys()))
        for n, x in s['items']:
            check_reported(p[n], x)


def run_reported(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    rec.nt(gen.flat_len(spec, False) > 0)
    p = gen.build(spec)
    check_reported(p, spec)
    # Using the pattern does not change what it reports.
    p.flatten(gen.interior(spec, case['fill']), free=True)
    p.random()
    p.empty(valid=True)
    check_reported(p, spec)
    check(isinstance(str(p), str), 'str')


PROP = Prop(
    'C12',
    'A case is a generated pattern and random state.  The empty, random and '
    'boolean values are checked against the specification\'s structure and a '
    'reference validity predicate, then scribbled over and requested again; '
    'reported shapes, bounds, sizes and lengths against the specification.  '
    'Non-trivial: the pattern has at least one entry.',
    [Sub('big_reported', st.fixed_dictionaries(
        {'spec': gen.big_specs(), 'fill': gen.fills()}), run_reported, 960),
     Sub('big_values', st.fixed_dictionaries(
        {'spec': gen.big_specs(),
         'state': st.integers(0, 2 ** 32 - 1)}), run_values, 960),
     Sub('values', st.fixed_dictionaries(
        {'spec': gen.specs(), 'state': st.integers(0, 2 ** 32 - 1)}),
        run_values, 6000),
     Sub('reported', st.fixed_dictionaries(
         {'spec': gen.specs(depth_left=3), 'fill': gen.fills()}),
         run_reported, 3200)])
