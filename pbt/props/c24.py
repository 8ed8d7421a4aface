"""C24: sparse square-root functions factor the sparse Hessian."""
import warnings
import numpy as np
import scipy.sparse as sps
from hypothesis import strategies as st
from .. import ad, gen
from ..core import Prop, Sub, check, Violation


def spd(case):
    """A symmetric positive definite matrix with a given sparsity pattern."""
    n, seed, kind = case['n'], case['s'], case['kind']
    u = 2 * gen.uniform(seed, n * n).reshape(n, n) - 1
    i, j = np.indices((n, n))
    if kind == 'diagonal':
        mask = i == j
    elif kind == 'tridiagonal':
        mask = np.abs(i - j) <= 1
    elif kind == 'arrow up':
        # Fills in completely without reordering.
        mask = (i == j) | (i == 0) | (j == 0)
    elif kind == 'arrow down':
        mask = (i == j) | (i == n - 1) | (j == n - 1)
    elif kind == 'cross':
        mask = (i == j) | (i == n // 2) | (j == n // 2)
    elif kind == 'blocks':
        mask = i // 3 == j // 3
    elif kind == 'ring':
        mask = ((i - j) % n <= 1) | ((j - i) % n <= 1)
    elif kind == 'grid':
        m = max(1, int(np.sqrt(n)))
        mask = (np.abs(i - j) == m) | (i == j) | \
            ((np.abs(i - j) == 1) & (i // m == j // m))
    elif kind == 'dense':
        mask = i == i
    else:
        mask = gen.uniform(gen.subseed(seed, 1), n * n).reshape(n, n) < \
            case['density']
    a = np.where(mask & mask.T, u, 0.)
    a = 0.5 * (a + a.T)
    np.fill_diagonal(a, 0.)
    row = np.abs(a).sum(axis=1)
    # Strictly diagonally dominant.
    d = row + 0.2 + 2 * gen.uniform(gen.subseed(seed, 2), n)
    a = a + np.diag(d)
    if case['scaled']:
        s = 10. ** (3 * gen.uniform(gen.subseed(seed, 3), n) - 1.5)
        a = a * s[:, None] * s[None, :]
    if case['permuted']:
        p = np.argsort(gen.uniform(gen.subseed(seed, 4), n))
        a = a[np.ix_(p, p)]
    if case['int']:
        a = np.round(a * 4)
        np.fill_diagonal(a, np.abs(a - np.diag(np.diag(a))).sum(axis=1) + 1.)
    return 0.5 * (a + a.T)


def sparse(a, case):
    h = sps.coo_matrix(a).asformat(case['fmt'])
    if case['explicit'] and case['fmt'] in ('csc', 'csr'):
        # Explicit zeros do not change the matrix.
        i, j = np.indices(a.shape)
        i, j = i.reshape(-1), j.reshape(-1)
        cls = sps.csc_matrix if case['fmt'] == 'csc' else sps.csr_matrix
        h = cls((a[i, j], (i, j)), shape=a.shape)
    return h


def functions(h):
    from paragami.sparse_preconditioners_lib import \
        get_sym_matrix_inv_sqrt_funcs
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return get_sym_matrix_inv_sqrt_funcs(h)


def operator(f, n):
    return np.stack([np.asarray(f(e)) for e in np.eye(n)], axis=1)


def near(a, b, tol, what):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape, '{}: shape {} instead of {}', what, a.shape,
          b.shape)
    check((np.abs(a - b) <= tol).all(), '{}: {} instead of {} (tolerance {})',
          what, a, b, tol)


def run(case, rec):
    import autograd
    import autograd.numpy as np_
    import paragami
    n = case['n']
    a = spd(case)
    d = np.sqrt(np.diag(a))
    rec.label('n:%d' % n, 'kind:' + case['kind'], case['fmt'])
    rec.nt(n > 2 and np.count_nonzero(a) > n)
    h = sparse(a, case)
    made = [(a, d, functions(h))]
    check(np.array_equal(gen.dense(h), a), 'the matrix was modified')
    if case['second']:
        # Another matrix of the same size, made before the first is used.
        a2 = spd(dict(case, s=case['s'] + 1))
        k = case['s'] % 6
        sign = np.where(gen.uniform(gen.subseed(case['s'], 8), n) < 0.5,
                        -1., 1.)
        if k == 0:
            a2 = a * sign[:, None] * sign[None, :]
        elif k == 1:
            perm = np.argsort(sign, kind='stable')
            a2 = a[np.ix_(perm, perm)]
        elif k == 2:
            a2 = 3. * a
        elif k == 3:
            a2 = a + np.diag(np.diag(a) * (sign > 0))
        if k < 4:
            rec.label('related')
        made.append((a2, np.sqrt(np.diag(a2)),
                     functions(sparse(a2, case))))
    for a, d, (mult, solve) in made:
        r = operator(mult, n)
        ri = operator(solve, n)
        near(r.T @ r, a, 1e-12 * n * np.outer(d, d), "R'R")
        # Condition number after scaling to a unit diagonal.
        s = np.linalg.eigvalsh(a / np.outer(d, d))
        kap = n * s[-1] / s[0]
        near(r @ ri, np.eye(n), 1e-12 * kap * n, 'R R^-1')
        near(ri @ r * (d[:, None] / d[None, :]), np.eye(n),
             1e-12 * kap * n, 'R^-1 R')
        x = (2 * gen.uniform(gen.subseed(case['s'], 5), n) - 1) / d
        y = 2 * gen.uniform(gen.subseed(case['s'], 6), n) - 1
        x0, y0 = np.array(x), np.array(y)
        near(mult(x), r @ x, 1e-12 * kap, 'linearity of R')
        near(solve(y) * d, (ri @ y) * d, 1e-11 * kap, 'linearity of R^-1')
        near(mult(solve(y)), y, 1e-12 * kap * n, 'R R^-1 y')
        near(solve(mult(x)) * d, x * d, 1e-12 * kap * n, 'R^-1 R x')
        check(np.array_equal(x, x0) and np.array_equal(y, y0),
              'an argument was modified')
        if case['derivatives']:
            rec.label('derivatives')
            ad.same_derivatives(
                lambda z: mult(z / d) / n, lambda z: np_.dot(r, z / d) / n,
                y, case['s'], 'R', third=False)
            ad.same_derivatives(
                lambda z: solve(z) * d / kap,
                lambda z: np_.dot(ri, z) * d / kap, y, case['s'], 'R^-1',
                third=False)
            # As preconditioner functions, inverse first.
            c = 2 * gen.uniform(gen.subseed(case['s'], 7), n) - 1

            def f(z):
                return 0.5 * np_.dot(z, np_.dot(a, z)) + np_.sum(c * d * z)
            pf = paragami.PreconditionedFunction(f)
            pf.set_preconditioner_functions(solve, mult)
            near(autograd.hessian(pf)(y), np.eye(n), 1e-11 * kap * n,
                 'preconditioned Hessian')
            g = ri.T @ (a @ (ri @ y) + c * d)
            near(autograd.grad(pf)(y), g, 1e-11 * kap * n,
                 'preconditioned gradient')
            near(pf.get_preconditioner(n) * d[:, None], ri * d[:, None],
                 1e-12 * kap * n, 'preconditioner')
            near(pf.get_preconditioner_inv(n) / d, r / d, 1e-12 * n,
                 'inverse preconditioner')
            pf.check_preconditioner(y, tol=1e-11 * kap * n)


def run_dense(case, rec):
    from paragami.sparse_preconditioners_lib import \
        get_sym_matrix_inv_sqrt_funcs
    a = spd(case)
    rec.nt()
    arg = np.asmatrix(a) if case['second'] else a
    try:
        get_sym_matrix_inv_sqrt_funcs(arg)
    except ValueError:
        return
    raise Violation('a dense matrix was accepted')


CASE = {'n': st.sampled_from([1, 2, 3, 4, 5, 6, 8, 9, 12, 20]),
        's': gen.seeds,
        'kind': st.sampled_from(['random', 'arrow up', 'tridiagonal',
                                 'arrow down', 'cross', 'blocks', 'ring',
                                 'grid', 'diagonal', 'dense']),
        'density': st.sampled_from([0.3, 0.15, 0.6]),
        'scaled': st.booleans(), 'permuted': st.booleans(),
        'int': st.sampled_from([False, False, True]),
        'explicit': st.sampled_from([False, False, True]),
        'fmt': st.sampled_from(['csc', 'csr', 'coo']),
        'second': st.booleans(), 'derivatives': st.booleans()}

PROP = Prop(
    'C24',
    'A case is one or two sparse symmetric positive definite matrices '
    '(structured and random patterns, permuted, badly scaled, explicit '
    'zeros); the functions are compared with their own matrices: R\'R = H, '
    'inverses, linearity, derivatives against dense traced products, and the '
    'preconditioned Hessian against the identity.  Non-trivial: dimension '
    'above two and not diagonal.',
    [Sub('factor', st.fixed_dictionaries(CASE), run, 2400),
     Sub('factor_big', st.fixed_dictionaries(dict(
         CASE, n=st.sampled_from([30, 49, 64, 90]),
         derivatives=st.just(False))), run, 1600),
     Sub('dense', st.fixed_dictionaries(dict(
         CASE, n=st.integers(1, 4))), run_dense, 100)],
    ['Matrices are positive definite with a moderate condition number after '
     'scaling to unit diagonal.'])
