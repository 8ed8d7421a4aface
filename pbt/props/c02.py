"""C02: every finite free vector folds to a valid value, one to one."""
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check


def extreme_free(spec, fill, mag, psd_cap=100.):
    parts = []
    for path, s, _, _ in gen.leaves(spec):
        ps = gen.pathseed(fill['s'], path)
        n = gen.flat_len(s, True)
        u = 2 * gen.uniform(ps, n) - 1
        big = gen.ints(gen.subseed(ps, 3), n, 0, 3)
        if gen.is_num(s):
            one_sided = (gen.lb_of(s) > -gen.INF) != (gen.ub_of(s) < gen.INF)
            cap = 700. if one_sided else 1e6
        elif s['k'] == 'psd':
            cap = psd_cap
        else:
            cap = 1e6
        m = min(mag, cap)
        x = np.where(big == 0, u * m, np.where(big == 1, np.sign(u) * m, u))
        parts.append(x)
    return np.concatenate(parts) if parts else np.zeros(0)


def check_valid(p, spec, val, rec):
    gen.same_structure(spec, val)
    for path, s, _, _ in gen.leaves(spec):
        v = gen.at(val, path)
        check(np.isfinite(v).all(), 'non-finite value at {}: {}', path, v)
        check(gen.leaf_valid(s, v) != 'bad',
              'invalid {} value at {}: {}', s['k'], path, v)
    ok, msg = p.validate_folded(val, validate_value=True)
    check(ok, 'folded free value is rejected: {}', msg)
    p.flatten(val, free=False, validate_value=True)


def run_extreme(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    free = extreme_free(spec, case['fill'], case['mag'])
    rec.label('mag:%g' % case['mag'])
    rec.nt(free.size > 0 and np.abs(free).max() > 30)
    val = p.fold(free, free=True, validate_value=case['vv'])
    check_valid(p, spec, val, rec)
    if 'psd' not in gen.kinds(spec):
        # (The Cholesky of an extreme matrix can fail from rounding.)
        p.flatten(val, free=True, validate_value=True)
    # A non-free round trip through the pattern's own validation.
    flat = gen.ref_flatten(spec, val)
    p.fold(flat, free=False, validate_value=True)


def run_inverse(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    if case.get('mag') is None:
        free = gen.free_vector(spec, case['fill'])
    else:
        free = extreme_free(spec, case['fill'], case['mag'], 1.)
        rec.label('mag:%g' % case['mag'])
    if case['asint']:
        free = np.rint(free).astype(int)
        rec.label('int free')
    val = p.fold(free.tolist() if case['aslist'] and free.size else free,
                 free=True)
    check_valid(p, spec, val, rec)
    for path, s, _, _ in gen.leaves(spec):
        if s['k'] == 'psd':
            v = gen.at(val, path) - gen.diag_lb_of(s) * np.eye(s['size'])
            ev = np.linalg.eigvalsh(v)
            check(ev[0] > 0 or ev[-1] * 1e-12 + gen.diag_lb_of(s) * 1e-13 >
                  abs(ev[0]), 'not positive definite: {}', ev)
    back = p.flatten(val, free=True, validate_value=True)
    check(back.shape == free.shape, 'shape {}', back.shape)
    tol = gen.free_inverse_tol(spec, free.astype(float), val)
    rec.nt(free.size > 1 and np.isfinite(tol).sum() > 1)
    if np.isinf(tol).any():
        rec.label('some saturated')
    bad = ~(np.abs(back - free) <= tol) & np.isfinite(tol)
    check(not bad.any(), 'free round trip: {} -> {} (tol {})',
          free[bad][:3], back[bad][:3], tol[bad][:3])


def run_tails(case, rec):
    """As far out as floating point goes, entries still come back: next to
    a bound at zero, and for very unlikely categories."""
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    n = gen.flat_len(spec, True)
    rec.label('mag:%g' % case['mag'])
    free = np.zeros(n)
    for path, s, _, off in gen.leaves(spec):
        k = gen.flat_len(s, True)
        m = min(case['mag'], 300.) if s['k'] == 'sim' else case['mag']
        free[off:off + k] = m * (2 * gen.uniform(
            gen.pathseed(case['s'], path), k) - 1)
    rec.nt(n > 1 and np.abs(free).max() > 20)
    val = p.fold(free, free=True, validate_value=case['vv'])
    check_valid(p, spec, val, rec)
    for vv in (case['vv'], False):
        back = p.flatten(val, free=True, validate_value=vv)
        check(back.shape == free.shape, 'shape {}', back.shape)
        bad = ~(np.abs(back - free) <= 1e-11 * (1 + np.abs(free)))
        # (Unlikely categories relative to the first.)
        check(not bad.any(), 'free round trip: {} -> {}', free[bad][:3],
              back[bad][:3])


@st.composite
def zero_bound(draw):
    s = dict(draw(gen.num_specs(zero=False)))
    z = draw(st.sampled_from([0, 0., -0.]))
    s['lb'], s['ub'] = (z, None) if draw(st.booleans()) else (None, z)
    return s


ZERO = st.one_of(zero_bound(), gen.sim_specs(), gen.sim_specs())
TAILS = st.one_of(ZERO, ZERO, gen.parr_specs(base=ZERO, max_total=60),
                  gen.dict_specs(leaf=ZERO, parr=False))


def run_graded(case, rec):
    """Badly scaled matrices: the free vector of D M D (D diagonal, M well
    conditioned) comes back, as Cholesky factors scale with the rows."""
    n, seed = case['n'], case['s']
    p = gen.build({'k': 'psd', 'size': n, 'diag_lb': None, 'dv': None,
                   'fd': None})
    g = (2 * gen.uniform(seed, n * n) - 1).reshape(n, n)
    m = g @ g.T / n + 0.5 * np.eye(n)
    d = 10. ** (case['range'] * (2 * gen.uniform(gen.subseed(seed, 1), n) - 1)
                + case['shift'])
    a = d[:, None] * m * d
    a = np.tril(a) + np.tril(a, -1).T
    rec.nt(n > 1)
    rec.label('range:%g' % case['range'], 'shift:%g' % case['shift'])
    free = p.flatten(a, free=True, validate_value=case['vv'])
    check(np.isfinite(free).all(), 'free vector {}', free)
    back = p.fold(free, free=True)
    check((back == back.T).all(), 'not symmetric')
    check((np.abs(back - a) <= 1e-9 * d[:, None] * d).all(),
          'matrix {} comes back as {}', a, back)
    again = p.flatten(back, free=True, validate_value=False)
    check((np.abs(again - free) <= 1e-8 + 1e-8 * np.abs(free)).all(),
          'free vector {} comes back as {}', free, again)
    # Scaling the matrix moves the free vector, and never to the same one.
    b = a.copy()
    i = seed % n
    b[i, :] *= 1.5
    b[:, i] *= 1.5
    other = p.flatten(b, free=True, validate_value=case['vv'])
    check(np.abs(other - free).max() > 0.1, 'different matrices have the '
          'same free vector {}', free)


PROP = Prop(
    'C02',
    'A case is a generated pattern and a generated free vector: extreme '
    '(magnitudes up to 1e6 for two-sided numeric bounds and simplexes, 700 '
    'for one-sided bounds, 100 for matrices; mixed with moderate entries) or '
    'mostly moderate, up to 700 (for the inverse).  Non-trivial: an entry above 30 in '
    'magnitude (extreme); at least two entries whose inverse is '
    'well-conditioned (inverse).  tails: bounds at zero and simplexes, up to 700 and 300, '
    'every entry comes back.',
    [Sub('graded', st.fixed_dictionaries(
        {'n': st.sampled_from([1, 2, 3, 4, 6]), 's': gen.seeds,
         'range': st.sampled_from([0, 2, 8, 16]),
         'shift': st.sampled_from([0, 0, -20, 20, -40, 40, 60]),
         'vv': st.sampled_from([None, True])}), run_graded, 960),
     Sub('tails', st.fixed_dictionaries(
        {'spec': TAILS, 's': gen.seeds,
         'mag': st.sampled_from([30., 100., 300., 700.]),
         'vv': st.sampled_from([None, True, False])}), run_tails, 2400),
     Sub('big_inverse', st.fixed_dictionaries(
        {'spec': gen.big_specs(), 'fill': gen.fills(),
         'asint': st.booleans(), 'mag': st.none(), 'aslist': st.booleans()}), run_inverse, 960),
     Sub('big_extreme', st.fixed_dictionaries(
        {'spec': gen.big_specs(), 'fill': gen.fills(),
         'mag': st.sampled_from([5., 40., 100., 700.]), 'vv': st.none()}), run_extreme, 960),
     Sub('extreme', st.fixed_dictionaries(
        {'spec': gen.specs(), 'fill': gen.fills(),
         'mag': st.sampled_from([5., 40., 100., 300., 700., 710., 1e3, 1e4,
                                 1e6]),
         'vv': st.sampled_from([None, True, False])}), run_extreme, 5600),
     Sub('inverse', st.fixed_dictionaries(
         {'spec': gen.specs(), 'fill': gen.fills(), 'asint': st.booleans(),
          'mag': st.sampled_from([None, None, None, 5., 20., 50., 300.,
                                  700.]),
          'aslist': st.booleans()}),
         run_inverse, 5600)],
    ['Free flattening of values obtained from extreme free vectors is not '
     'required of patterns containing matrices (Cholesky rounding).'])
