"""C23: Hessian preconditioners are inverse square roots of the truncated
Hessian."""
import numpy as np
import scipy.sparse as sps
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check, Violation


def orthogonal(seed, n, kind):
    if kind == 'diagonal':
        return np.eye(n)
    if kind == 'permutation':
        return np.eye(n)[np.argsort(gen.uniform(seed, n))]
    u = 2 * gen.uniform(seed, n * n).reshape(n, n) - 1
    return np.linalg.qr(u + 1e-3 * np.eye(n))[0]


def eigenvalues(seed, n, kind):
    u = gen.uniform(gen.subseed(seed, 1), n)
    if kind == 'positive':
        return 0.2 + 4 * u
    if kind == 'spread':
        return 10. ** (4 * u - 2)
    if kind == 'repeated':
        return 1. + np.floor(2 * u)
    if kind == 'negative':
        return -0.1 - 3 * u
    if kind == 'zeros':
        return np.floor(3 * u)
    return 6 * u - 3


def clamp(ev, lo, hi):
    out = [float(v) for v in ev]
    if lo is not None:
        out = [max(v, float(lo)) for v in out]
    if hi is not None:
        out = [min(v, float(hi)) for v in out]
    return np.array(out)


def near(a, b, tol, what):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape, '{}: shape {} instead of {}', what, a.shape,
          b.shape)
    check((np.abs(a - b) <= tol).all(), '{}: {} instead of {} (tolerance {})',
          what, a, b, tol)


def run_hessian(case, rec):
    import autograd
    import autograd.numpy as np_
    import paragami
    n = case['n']
    q = orthogonal(case['s'], n, case['basis'])
    ev = eigenvalues(case['s'], n, case['ev'])
    lo, hi = limits(case)
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    if lo is None or lo <= 0:
        # The truncated matrix must be positive definite.
        if lo is None and (ev <= 0.05).any():
            lo = 0.1
        elif lo is not None and (ev <= 0.05).any():
            return
    if hi is not None and lo is not None and hi < lo:
        hi = lo
    if case['intlim']:
        lo = None if lo is None else max(1, int(np.ceil(lo)))
        hi = None if hi is None else max(lo or 1, int(np.ceil(hi)))
    scale = 1.
    if case['e'] and not case['intlim']:
        # Very small or large Hessians, limits and all.
        scale = 10. ** case['e']
        ev = ev * scale
        lo = None if lo is None else lo * scale
        hi = None if hi is None else hi * scale
        rec.label('scaled')
    tev = clamp(ev, lo, hi)
    h = (q * ev) @ q.T
    h = 0.5 * (h + h.T)
    want = (q * tev) @ q.T
    root = (q * np.sqrt(tev)) @ q.T
    inv = (q / np.sqrt(tev)) @ q.T
    cut = (tev != ev).any()
    rec.label('n:%d' % n, 'basis:' + case['basis'], 'ev:' + case['ev'],
              'truncated' if cut else 'whole', case['by'],
              'limits:%d%d' % (lo is not None, hi is not None))
    rec.nt(n > 1)
    c = 2 * gen.uniform(gen.subseed(case['s'], 3), n) - 1
    x = 2 * gen.uniform(gen.subseed(case['s'], 4), n) - 1

    def f(z):
        # Hessian h at x; third derivatives elsewhere.
        d = z - x
        return 0.5 * np_.dot(d, np_.dot(h, d)) + np_.dot(c, z) + \
            case['cubic'] * scale * np_.sum(d ** 3)
    pf = paragami.PreconditionedFunction(f)
    kw = {}
    if lo is not None:
        kw['ev_min'] = lo
    if hi is not None:
        kw['ev_max'] = hi
    if case['nones']:
        kw = {'ev_min': lo, 'ev_max': hi}
    if case['by'] == 'point':
        x0 = np.array(x)
        out = pf.set_preconditioner_with_hessian(x=x, **kw)
        check(np.array_equal(x, x0), 'the point was modified')
    elif case['by'] == 'other':
        # Not the Hessian of the function.
        pf = paragami.PreconditionedFunction(lambda z: np_.sum(z))
        out = pf.set_preconditioner_with_hessian(hessian=h.tolist()
                                                 if case['cubic'] else h,
                                                 **kw)
    else:
        h0 = np.array(h)
        out = pf.set_preconditioner_with_hessian(hessian=h, **kw)
        check(np.array_equal(h, h0), 'the Hessian was modified')
    big = max(np.abs(ev).max(), tev.max())
    kap = big / tev.min()
    # The operators are differences from the identity.
    pad = max(1., np.sqrt(big), 1 / np.sqrt(tev.min()))
    # The square root amplifies rounding of the smallest eigenvalues.
    e = 1e-13 * n * (pad if scale != 1. else 1.)
    near(out, want, e * big * 10 * (1 + np.sqrt(kap)), 'returned Hessian')
    a, ai = pf.get_preconditioner(n), pf.get_preconditioner_inv(n)
    tol_a = 10 * e * kap / np.sqrt(tev.min())
    tol_i = 10 * e * np.sqrt(big) * (1 + np.sqrt(kap))
    near(a, inv, tol_a, 'preconditioner')
    near(ai, root, tol_i, 'inverse preconditioner')
    near(a, a.T, 10 * e * np.abs(a).max(), 'symmetry')
    near(a @ want @ a, np.eye(n), 100 * e * kap, 'A H A')
    y = pf.precondition(x)
    near(pf.unprecondition(y), x, 100 * e * kap, 'there and back')
    if case['by'] != 'other':
        hess = autograd.hessian(pf)(y)
        full = a @ h @ a
        more = pad if scale != 1. else 1.
        near(hess, full, 1e-9 * (np.abs(a).max() ** 2 * n * n * big + 1) *
             (1 + 6 * case['cubic']) * more, 'preconditioned Hessian')
        if not cut:
            rec.label('identity')
            near(hess, np.eye(n), 1e-10 * kap * n + 1e-9 *
                 (1 + 6 * case['cubic']) * kap ** 1.5 * n * more,
                 'preconditioned Hessian')


def run_reject(case, rec):
    import paragami
    n = case['n']
    rec.nt()
    f = paragami.PreconditionedFunction(lambda z: np.sum(z ** 2))
    a = 2. * np.eye(n) + 0.1
    f.set_preconditioner_matrix(a)
    h = sps.coo_matrix(np.eye(n)).asformat(case['fmt'])
    x = np.ones(n)
    lims = {}
    if case['lims']:
        lims = {'ev_min': 0.1, 'ev_max': 3.}
    kind = case['kind']
    rec.label(kind)
    exc = ValueError
    if kind == 'both':
        kw = {'x': x, 'hessian': np.eye(n)}
    elif kind == 'neither':
        kw = {}
    elif kind == 'both, sparse':
        kw = {'x': x, 'hessian': h}
    else:
        kw, exc = {'hessian': h}, NotImplementedError
    kw.update(lims)
    try:
        f.set_preconditioner_with_hessian(**kw)
    except exc:
        pass
    else:
        raise Violation('{} was accepted'.format(kind))
    near(f.get_preconditioner(n), a, 1e-12, 'preconditioner after an error')


def run_truncate(case, rec):
    from paragami.optimization_lib import truncate_eigenvalues
    n = case['n']
    u = 2 * gen.uniform(case['s'], n) - 1
    kind = case['values']
    if kind == 'int':
        ev = np.floor(8 * u).astype(int)
    elif kind == 'int32':
        ev = np.floor(8 * u).astype(np.int32)
    elif kind == 'float':
        ev = 4 * u * 10. ** case['e']
    elif kind == 'rounded':
        ev = np.round(4 * u)
    else:
        ev = np.where(u > 0.5, np.inf, np.where(u < -0.5, -np.inf, u))
    lo, hi = limits(case)
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    arg = ev.tolist() if case['aslist'] else ev
    before = np.array(arg)
    kw = {}
    if lo is not None or case['nones']:
        kw['ev_min'] = lo
    if hi is not None or case['nones']:
        kw['ev_max'] = hi
    if case['positional']:
        out = truncate_eigenvalues(arg, lo, hi)
    else:
        out = truncate_eigenvalues(arg, **kw)
    want = clamp(ev, lo, hi)
    rec.label(kind, 'limits:%d%d' % (lo is not None, hi is not None))
    if (want != ev).any():
        rec.label('truncated')
        rec.nt()
    if lo is not None and (ev == lo).any() or \
            hi is not None and (ev == hi).any():
        rec.label('on a limit')
    check(np.shape(out) == (n,), 'shape {}', np.shape(out))
    check(np.array_equal(np.asarray(out, dtype=float), want),
          '{} instead of {}', out, want)
    check(np.array_equal(np.array(arg), before), 'the argument was modified')
    if not case['aslist']:
        check(not np.shares_memory(out, ev), 'shares memory with its '
              'argument')


FUNS = {'sqrt': np.sqrt, 'invsqrt': lambda x: 1 / np.sqrt(x),
        'inverse': lambda x: 1 / x, 'same': lambda x: x,
        'zero': lambda x: 0. * x, 'one': lambda x: 0. * x + 1.,
        'affine': lambda x: 2 * x - 3, 'reverse': lambda x: x[::-1]}


def run_transform(case, rec):
    import autograd
    from paragami.optimization_lib import transform_eigenspace
    n = case['n']
    k = min(case['k'], n)
    q = orthogonal(case['s'], n, case['basis'])
    v = q[:, :k]
    lam = np.abs(eigenvalues(case['s'], k, case['ev'])) + 0.1
    fun = FUNS[case['fun']]
    seen = []

    def tf(e):
        seen.append(np.array(e))
        return fun(e)
    rec.label('n:%d' % n, 'all' if k == n else 'some', case['fun'])
    rec.nt(n > 1)
    v0, l0 = np.array(v), np.array(lam)
    mult = transform_eigenspace(v, lam, tf)
    want = np.eye(n) + (v * (fun(lam) - 1)) @ v.T
    sc = 1e-13 * n * (1 + np.abs(fun(lam)).max(initial=0))
    for j in range(2):
        x = 2 * gen.uniform(gen.subseed(case['s'], 7 + j), n) - 1
        x0 = np.array(x)
        near(mult(x), want @ x, sc, 'product')
        check(np.array_equal(x, x0), 'the argument was modified')
    for i in range(k):
        near(mult(np.array(v[:, i])), fun(lam)[i] * v[:, i], sc,
             'eigenvector {}'.format(i))
    for i in range(k, n):
        near(mult(np.array(q[:, i])), q[:, i], sc, 'complement')
    near(mult(np.zeros(n)), np.zeros(n), 0., 'zero')
    near(np.asarray(autograd.jacobian(mult)(x)), want, 10 * sc, 'Jacobian')
    check(all(np.array_equal(s, l0) for s in seen), 'transformed {}', seen)
    check(np.array_equal(v, v0) and np.array_equal(lam, l0),
          'an argument was modified')


def run_transform_bad(case, rec):
    from paragami.optimization_lib import transform_eigenspace
    n, k = case['n'], min(case['k'], case['n'])
    v, lam = np.eye(n)[:, :k], np.ones(k)
    rec.nt()
    kind = case['kind']
    rec.label(kind)
    if kind == 'vectors 1d':
        v = v[:, 0]
    elif kind == 'vectors 3d':
        v = v[:, :, None]
    elif kind == 'values 2d':
        lam = lam[:, None] if case['flip'] else lam[None, :]
    elif kind == 'more values':
        lam = np.ones(k + 1)
    else:
        lam = np.ones(k - 1)
    try:
        transform_eigenspace(v, lam, lambda x: 2 * x)
    except ValueError:
        return
    raise Violation('{} accepted'.format(kind))


BASIS = st.sampled_from(['general', 'general', 'diagonal', 'permutation'])
EV = st.sampled_from(['positive', 'spread', 'repeated', 'mixed', 'negative',
                      'zeros'])
LIM = st.sampled_from([0.5, 1, 2., 0.1, 3, 5., 1e-3])
ALIM = st.sampled_from([0, 0., 1, -1, 2.5, -2.5, 0.5, 3, -3, 1e4,
                        -1e4])

EXPS = st.sampled_from([0, 0, 0, 0, -12, -10, -9, -6, -3, 3, 6, 9, 12])
WHICH = st.sampled_from(['both', 'lower', 'upper', 'none', 'lower', 'upper'])


def limits(case):
    return (case['lo'] if case['which'] in ('both', 'lower') else None,
            case['hi'] if case['which'] in ('both', 'upper') else None)


PROP = Prop(
    'C23',
    'hessian: symmetric matrices of any scale with chosen eigenvectors and eigenvalues '
    '(repeated, negative, zero, spread), limits, given directly or through '
    'the Hessian at a point; preconditioner, inverse, returned matrix and '
    'preconditioned Hessian against the eigendecomposition they were made '
    'from.  truncate: exact elementwise clamping.  transform: the linear map '
    'against its matrix.  reject: invalid calls.  Non-trivial: dimension '
    'above one; something truncated.',
    [Sub('hessian', st.fixed_dictionaries(
        {'n': st.sampled_from([1, 2, 2, 3, 4, 5, 7]), 's': gen.seeds,
         'basis': BASIS, 'ev': EV, 'lo': LIM, 'hi': LIM, 'which': WHICH,
         'intlim': st.booleans(), 'nones': st.booleans(), 'e': EXPS,
         'cubic': st.sampled_from([0., 0., 0.3]),
         'by': st.sampled_from(['point', 'matrix', 'other'])}),
        run_hessian, 3000),
     Sub('hessian_big', st.fixed_dictionaries(
         {'n': st.sampled_from([10, 16, 25]), 's': gen.seeds,
          'basis': BASIS, 'ev': EV, 'lo': LIM, 'hi': LIM, 'which': WHICH,
          'intlim': st.booleans(), 'nones': st.booleans(), 'e': EXPS,
          'cubic': st.sampled_from([0., 0.3]),
          'by': st.sampled_from(['point', 'matrix', 'other'])}),
         run_hessian, 800),
     Sub('truncate', st.fixed_dictionaries(
         {'n': st.sampled_from([0, 1, 2, 3, 5, 9, 9, 40, 300]), 's': gen.seeds,
          'values': st.sampled_from(['float', 'rounded', 'int', 'int32',
                                     'infinite']),
          'e': st.sampled_from([0, 0, 2, -2]), 'lo': ALIM, 'hi': ALIM,
          'which': WHICH,
          'aslist': st.sampled_from([False, False, True]),
          'nones': st.booleans(), 'positional': st.booleans()}),
         run_truncate, 3000),
     Sub('transform', st.fixed_dictionaries(
         {'n': st.integers(1, 6), 'k': st.integers(0, 6), 's': gen.seeds,
          'basis': BASIS, 'ev': EV,
          'fun': st.sampled_from(sorted(FUNS))}), run_transform, 2000),
     Sub('transform_bad', st.fixed_dictionaries(
         {'n': st.integers(1, 4), 'k': st.integers(1, 4),
          'flip': st.booleans(),
          'kind': st.sampled_from(['vectors 1d', 'vectors 3d', 'values 2d',
                                   'more values', 'fewer values'])}),
         run_transform_bad, 300),
     Sub('reject', st.fixed_dictionaries(
         {'n': st.integers(1, 4), 'lims': st.booleans(),
          'fmt': st.sampled_from(['csc', 'csr', 'coo', 'lil']),
          'kind': st.sampled_from(['both', 'neither', 'both, sparse',
                                   'sparse'])}), run_reject, 400)],
    ['The truncated matrix is positive definite; the lower limit does not '
     'exceed the upper one.'])
