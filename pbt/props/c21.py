"""C21: sparse products and solvers compute and differentiate exactly."""
import numpy as np
import scipy.sparse as sps
import scipy.sparse.linalg
from hypothesis import strategies as st
from .. import ad, gen
from ..core import Prop, Sub, check, Violation
from .c19 import matrix, related


FORMATS = ['csr', 'csc', 'coo', 'lil', 'dok', 'bsr', 'dia', 'dense',
           'csr_array', 'csc_array']


def as_format(a, fmt):
    if fmt == 'dense':
        return np.array(a)
    if fmt.endswith('_array'):
        return getattr(sps, fmt)(a)
    return getattr(sps, fmt + '_matrix')(a)


def sparse_dense(seed, m, n, density, integer=False):
    u = gen.uniform(seed, m * n).reshape(m, n)
    v = 2 * gen.uniform(gen.subseed(seed, 1), m * n).reshape(m, n) - 1
    if integer:
        v = np.floor(20 * v)
    return np.where(u < density, v, 0.)


def rhs(seed, n, k, integer=False):
    shape = (n,) if k is None else (n, k)
    v = 2 * gen.uniform(seed, gen.size(shape)).reshape(shape) - 1
    return np.floor(30 * v) if integer else v


def reject(f, what):
    try:
        r = f()
    except ValueError:
        return
    raise Violation('{} was accepted (returned {})'.format(what, r))


def run_product(case, rec):
    from paragami.autograd_supplement_lib import get_sparse_product
    import autograd.numpy as np_
    made = []
    for z in case['mats']:
        a = sparse_dense(z['s'], z['m'], z['n'], z['density'], z['int'])
        if z['like'] and made and z['int'] == made[-1][0]['int']:
            a = related(made[-1][1], z['s'])
            if z['int']:
                a = np.floor(a)
            z = dict(z, m=a.shape[0], n=a.shape[1])
            rec.label('related')
        if z['int'] and z['zt'] != 'float64':
            zm = as_format(a.astype(z['zt']), z['fmt'])
            rec.label('matrix of ' + z['zt'])
        else:
            zm = as_format(a, z['fmt'])
        made.append((z, a, zm, get_sparse_product(zm)))
        rec.label(z['fmt'], 'square' if z['m'] == z['n'] else 'not square',
                  'density:%g' % z['density'])
        if len(made[-1][3]) != 2:
            raise Violation('not a pair')
    rec.nt(any(z['m'] > 1 and z['n'] > 1 and z['density'] > 0
               for z in case['mats']))
    # Only use them after all have been made.
    for z, a, zm, (mult, multt) in made:
        for fun, b_len, mat, what in ((mult, z['n'], a, 'Z b'),
                                      (multt, z['m'], a.T, "Z' b")):
            b = rhs(gen.subseed(z['s'], 3), b_len, case['k'], z['int'])
            rec.label('vector' if case['k'] is None else 'matrix')
            b0 = np.array(b)
            got = fun(b)
            want = mat @ b0
            check(isinstance(got, np.ndarray), '{} is a {}', what, type(got))
            check(got.shape == want.shape, '{}: shape {} instead of {}',
                  what, got.shape, want.shape)
            if z['int']:
                check(np.array_equal(got, want), '{}: {} instead of {}',
                      what, got, want)
            else:
                size = np.abs(mat) @ np.abs(b0)
                check((np.abs(got - want) <= 1e-14 * b_len * size).all(),
                      '{}: {} instead of {}', what, got, want)
            check(np.array_equal(b, b0), '{}: argument modified', what)
            # Vectors of other types.  (scipy gives the products of its
            # dictionaries-of-keys and matrices the type of the latter.)
            if case['bt'] != 'float64' and \
                    not (z['fmt'] == 'dok' and case['k'] is not None):
                rec.label('vector of ' + case['bt'])
                b = np.floor(8 * b).astype(case['bt'])
                want = mat @ b.astype(float)
                got = fun(b)
                check(got.shape == want.shape and np.all(
                    np.abs(got - want) <= 1e-13 * b_len * (
                        np.abs(mat) @ np.abs(b.astype(float)))),
                    '{} of {}: {} instead of {}', what, case['bt'], got, want)
            shape = [(b_len, 1, 1), (1, b_len, 2), (2, b_len, 1),
                     (b_len, b_len, b_len), (b_len, 2, 1, 1)][
                         case['pick'] % 5]
            reject(lambda: fun(np.ones(shape)),
                   '{} of shape {}'.format(what, shape))
        check(np.array_equal(gen.dense(zm), a), 'the matrix was modified')
    if not case['derivatives']:
        return
    rec.label('derivatives')
    for z, a, zm, (mult, multt) in made:
        for fun, b_len, mat, what in ((mult, z['n'], a, 'Z b'),
                                      (multt, z['m'], a.T, "Z' b")):
            x = rhs(gen.subseed(z['s'], 4), b_len, case['k'])
            sc = 1. + np.abs(mat).max()
            ad.same_derivatives(
                lambda y: fun(y / sc + 0.3 * y ** 2 / sc),
                lambda y: np_.dot(mat, y / sc + 0.3 * y ** 2 / sc),
                x, case['pick'], what, third=case['third'])
        # Both directions together, and a quadratic form.
        x = rhs(gen.subseed(z['s'], 5), z['n'], case['k'])
        sc = 1. + np.abs(a).sum()
        ad.same_derivatives(
            lambda y: multt(np_.sin(mult(y) / sc)) + y * np_.sum(
                mult(y) ** 2) / sc ** 2,
            lambda y: np_.dot(a.T, np_.sin(np_.dot(a, y) / sc)) +
            y * np_.sum(np_.dot(a, y) ** 2) / sc ** 2,
            x, case['pick'], "Z' f(Z b)", third=False)
    # Products of different matrices in one function.
    if len(made) > 1:
        rec.label('several matrices')
        (z1, a1, _, (m1, t1)), (z2, a2, _, (m2, t2)) = made[:2]
        n1, n2 = z1['n'], z2['n']
        x = rhs(case['pick'], n1 + n2, None)
        s1, s2 = 1. + np.abs(a1).sum(), 1. + np.abs(a2).sum()
        ad.same_derivatives(
            lambda y: np_.concatenate(
                [t1(m1(y[:n1]) / s1 ** 2), m2(y[n1:]) / s2]) *
            np_.sum(y ** 2),
            lambda y: np_.concatenate(
                [np_.dot(a1.T, np_.dot(a1, y[:n1]) / s1 ** 2),
                 np_.dot(a2, y[n1:]) / s2]) * np_.sum(y ** 2),
            x, case['pick'], 'two matrices', third=False)


def run_bad(case, rec):
    from paragami.autograd_supplement_lib import get_sparse_product
    rec.nt()
    rec.label('dims:%d' % len(case['shape']))
    reject(lambda: get_sparse_product(
        np.ones(tuple(case['shape']))), 'matrix of shape {}'.format(
            case['shape']))


class Solver:
    """A solver that keeps what it was given and what it returned."""
    def __init__(self, fun):
        self.fun = fun
        self.calls = []

    def __call__(self, b):
        r = self.fun(b)
        self.calls.append((np.array(b), np.array(r)))
        return r


def solvers(a, how):
    if how == 'dense':
        return (lambda b: np.linalg.solve(a, b)), \
            (lambda b: np.linalg.solve(a.T, b))
    if how == 'inverse':
        inv = np.linalg.inv(a)
        return (lambda b: inv @ b), (lambda b: inv.T @ b)
    lu = scipy.sparse.linalg.splu(sps.csc_matrix(a))
    if how == 'splu':
        return (lambda b: lu.solve(b)), (lambda b: lu.solve(b, 'T'))
    return scipy.sparse.linalg.factorized(sps.csc_matrix(a)), \
        scipy.sparse.linalg.factorized(sps.csc_matrix(a.T))


def run_solver(case, rec):
    from paragami.autograd_supplement_lib import get_differentiable_solver
    import autograd.numpy as np_
    made = []
    for z in case['mats']:
        n = z['n']
        a = matrix(z['s'], n, z['kind'])
        mask = sparse_dense(gen.subseed(z['s'], 5), n, n, z['density'])
        if z['kind'] in ('dominant', 'negative', 'triangular'):
            a = np.where((mask != 0) | np.eye(n, dtype=bool), a, 0.)
        if z['like'] and made:
            b = related(made[-1][1], z['s'])
            if np.linalg.cond(b) < 200:
                a = b
                z = dict(z, n=b.shape[0])
                rec.label('related')
        fs = [Solver(f) for f in solvers(a, z['how'])]
        made.append((z, a, fs, get_differentiable_solver(*fs)))
        rec.label(z['how'], z['kind'])
    k = case['k']
    rec.nt(any(z['n'] > 1 for z in case['mats']))
    for z, a, fs, ads in made:
        for fun, orig, what in ((ads[0], fs[0], 'solve'),
                                (ads[1], fs[1], 'transposed solve')):
            kk = None if z['how'] == 'factorized' else k
            b = rhs(gen.subseed(z['s'], 3), z['n'], kk)
            b0 = np.array(b)
            orig.calls.clear()
            got = fun(b)
            check(len(orig.calls) == 1, '{}: solver called {} times', what,
                  len(orig.calls))
            check(np.array_equal(orig.calls[0][0], b0), '{}: other argument',
                  what)
            check(np.array_equal(np.asarray(got), orig.calls[0][1]),
                  '{}: returned {}, solver {}', what, got, orig.calls[0][1])
    if not case['derivatives']:
        return
    rec.label('derivatives')
    for z, a, fs, ads in made:
        kk = None if z['how'] == 'factorized' else k
        rec.label('vector' if kk is None else 'matrix')
        ai = np.linalg.inv(a)
        sc = 1. + np.abs(ai).max()
        x = rhs(gen.subseed(z['s'], 4), z['n'], kk)
        for fun, inv, what in ((ads[0], ai, 'solve'),
                               (ads[1], ai.T, 'transposed solve')):
            ad.same_derivatives(
                lambda y: fun(y / sc + 0.3 * y ** 2 / sc),
                lambda y: np_.dot(inv, y / sc + 0.3 * y ** 2 / sc),
                x, case['pick'], what, third=case['third'])
        ad.same_derivatives(
            lambda y: ads[1](np_.sin(ads[0](y)) / sc ** 2),
            lambda y: np_.dot(ai.T, np_.sin(np_.dot(ai, y)) / sc ** 2),
            x, case['pick'], 'both solvers', third=False)
    if len(made) > 1:
        rec.label('several matrices')
        (z1, a1, _, (f1, _)), (z2, a2, _, (_, g2)) = made[:2]
        n1, n2 = z1['n'], z2['n']
        i1, i2 = np.linalg.inv(a1), np.linalg.inv(a2)
        s1, s2 = 1. + np.abs(i1).sum(), 1. + np.abs(i2).sum()
        x = rhs(case['pick'], n1 + n2, None)
        ad.same_derivatives(
            lambda y: np_.concatenate([f1(y[:n1]) / s1, g2(y[n1:]) / s2]) *
            np_.sum(y ** 2),
            lambda y: np_.concatenate(
                [np_.dot(i1, y[:n1]) / s1, np_.dot(i2.T, y[n1:]) / s2]) *
            np_.sum(y ** 2),
            x, case['pick'], 'two solvers', third=False)


def graded(seed, shape, e):
    u = 2 * gen.uniform(seed, gen.size(shape)).reshape(shape) - 1
    w = 2 * gen.uniform(gen.subseed(seed, 1), gen.size(shape)) - 1
    return u * 10. ** (e * w.reshape(shape))


def run_scales(case, rec):
    """Larger matrices with entries over many orders of magnitude."""
    from paragami.autograd_supplement_lib import get_sparse_product, \
        get_differentiable_solver
    from autograd.differential_operators import make_jvp, make_vjp
    m, n, s, e = case['m'], case['n'], case['s'], case['e']
    rec.label('m:%d' % m, 'n:%d' % n, 'e:%d' % e, case['what'])
    rec.nt(m > 1)

    def entries(got, want, size, what):
        got = np.asarray(got)
        check(got.shape == want.shape, '{}: shape {} instead of {}', what,
              got.shape, want.shape)
        check((np.abs(got - want) <= 1e-14 * (n + m) * size + 1e-300).all(),
              '{}: {} instead of {}', what, got, want)
    if case['what'] == 'product':
        keep = gen.uniform(gen.subseed(s, 2), m * n).reshape(m, n)
        a = np.where(keep < case['density'], graded(s, (m, n), e), 0.)
        funs = get_sparse_product(as_format(a, case['fmt']))
        mats = a, a.T
    else:
        # Easy to invert by entry: permuted and scaled.
        m = n
        perm = np.argsort(gen.uniform(gen.subseed(s, 2), n))
        d = graded(s, (n,), e)
        d = np.where(d == 0, 1., d)
        i = np.arange(n)
        inv = np.zeros((n, n))
        inv[perm, i] = 1 / d
        funs = get_differentiable_solver(
            lambda b: (b.T / d).T[np.argsort(perm)],
            lambda b: (b[perm].T / d).T)
        mats = inv, inv.T
    for fun, mat, what in zip(funs, mats, ('first', 'transposed')):
        k = case['k']
        shape = (mat.shape[1],) + (() if k is None else (k,))
        out = (mat.shape[0],) + shape[1:]
        b, v, c = (graded(gen.subseed(s, j), sh, case['eb'])
                   for j, sh in ((3, shape), (4, shape), (5, out)))
        entries(fun(b), mat @ b, np.abs(mat) @ np.abs(b), what)
        entries(make_jvp(fun)(b)(v)[1], mat @ v, np.abs(mat) @ np.abs(v),
                what + ', forward')
        entries(make_vjp(fun)(b)[0](c), mat.T @ c, np.abs(mat.T) @ np.abs(c),
                what + ', reverse')


MAT = st.fixed_dictionaries({
    's': gen.seeds, 'm': st.integers(1, 6), 'n': st.integers(1, 6),
    'density': st.sampled_from([0.4, 1., 0.7, 0.2, 0.]),
    'fmt': st.sampled_from(FORMATS), 'int': st.booleans(),
    'like': st.booleans(),
    'zt': st.sampled_from(['float64', 'int64', 'int32', 'float32'])})
SQ = st.fixed_dictionaries({
    's': gen.seeds, 'n': st.integers(1, 6),
    'kind': st.sampled_from(['dominant', 'negative', 'permuted', 'spd',
                             'triangular', 'orthogonal']),
    'density': st.sampled_from([0.5, 1., 0.2]), 'like': st.booleans(),
    'how': st.sampled_from(['dense', 'inverse', 'splu', 'factorized'])})
COMMON = {'k': st.sampled_from([None, None, 1, 2, 3]),
          'bt': st.sampled_from(['float64', 'int64', 'int32', 'int8', 'bool',
                                 'float32']), 'pick': gen.picks(),
          'derivatives': st.booleans(), 'third': st.booleans()}

PROP = Prop(
    'C21',
    'product: one to three generated matrices (any format, shape, density; '
    'unrelated or easily taken for each other), '
    'right-hand sides and functions of the products; values against dense '
    'products (exactly for integers) and derivatives to the third order, in '
    'every mix of modes, against dense traced products.  scales: values and first derivatives of larger ones, entry '
    'by entry, over many orders of magnitude.  solver: recorded '
    'solvers of several kinds, derivatives against the dense inverse.  bad: '
    'matrices that are not two-dimensional.  Non-trivial: more than one row '
    'and column.',
    [Sub('product', st.fixed_dictionaries(dict(
        COMMON, mats=st.lists(MAT, min_size=1, max_size=3))),
        run_product, 1600),
     Sub('solver', st.fixed_dictionaries(dict(
         COMMON, mats=st.lists(SQ, min_size=1, max_size=2))),
         run_solver, 1600),
     Sub('product_big', st.fixed_dictionaries(dict(
         COMMON, mats=st.lists(st.builds(
             lambda m, r, c: dict(m, m=r, n=c), MAT,
             st.sampled_from([1, 10, 16, 24]),
             st.sampled_from([2, 11, 17, 30])), min_size=1, max_size=1),
         derivatives=st.just(True), third=st.just(False))),
         run_product, 640),
     Sub('solver_big', st.fixed_dictionaries(dict(
         COMMON, mats=st.lists(st.builds(
             lambda m, r: dict(m, n=r), SQ,
             st.sampled_from([9, 12, 16])), min_size=1, max_size=1),
         derivatives=st.just(True), third=st.just(False))),
         run_solver, 640),
     Sub('scales', st.fixed_dictionaries(
         {'s': gen.seeds, 'm': st.sampled_from([1, 2, 3, 7, 20, 60]),
          'n': st.sampled_from([1, 2, 3, 8, 30, 70]),
          'what': st.sampled_from(['product', 'product', 'solver']),
          'k': st.sampled_from([None, None, 1, 3]),
          'density': st.sampled_from([0.02, 0.1, 0.4, 1.]),
          'fmt': st.sampled_from(FORMATS),
          'e': st.sampled_from([1, 8, 20, 100]),
          'eb': st.sampled_from([1, 8, 20, 100])}), run_scales, 1600),
     Sub('bad', st.fixed_dictionaries({'shape': st.one_of(
         st.lists(st.integers(1, 4), min_size=1, max_size=1),
         st.lists(st.integers(1, 4), min_size=3, max_size=5))}),
         run_bad, 200)],
    ['Supplied solvers solve the system and its transpose.'])
