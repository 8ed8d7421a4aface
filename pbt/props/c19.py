"""C19: supplied forward-mode derivatives are correct."""
import math
from fractions import Fraction
import numpy as np
import scipy.special
from hypothesis import strategies as st
from .. import fd, gen
from ..core import Prop, Sub, check


def matrix(seed, n, kind, batch=()):
    """A nonsingular matrix with a moderate condition number."""
    u = 2 * gen.uniform(seed, gen.size(batch) * n * n).reshape(
        tuple(batch) + (n, n)) - 1
    if kind == 'dominant':
        return u + (n + 0.5) * np.eye(n)
    if kind == 'negative':
        return u - (n + 0.5) * np.eye(n)
    if kind == 'permuted':
        perm = np.argsort(gen.uniform(gen.subseed(seed, 1), n))
        return (u * 0.4 / n + np.eye(n))[..., perm, :]
    if kind == 'spd':
        return u @ np.swapaxes(u, -1, -2) + 0.3 * np.eye(n)
    if kind == 'triangular':
        return np.triu(u) * 0.7 + 1.5 * np.eye(n)
    # An orthogonal one, scaled and perturbed.
    q = np.linalg.qr(u + 0.1 * np.eye(n))[0]
    return q * np.linspace(1, 2.5, n)


def related(a, seed):
    """Another matrix, easily taken for the given one: the same shape and
    many of the same entries, sums, diagonal or sparsity pattern."""
    m, n = a.shape
    k = gen.ints(gen.subseed(seed, 81), 4, 0, 1 << 20)
    how = k[0] % 7
    off = np.arange(m)[:, None] != np.arange(n)[None, :]
    if how == 0 and m == n:
        return np.array(a.T)
    if how == 1:
        # Off-diagonal entries change sign.
        return np.where(off, -a, a)
    if how == 2:
        return a[np.argsort(gen.uniform(gen.subseed(seed, 82), m))]
    if how == 3:
        return a[:, ::-1].copy() if m != n else a[::-1, ::-1].copy()
    if how == 4:
        return a * 2.
    b = np.array(a)
    i, j = k[1] % m, k[2] % n
    if how == 5:
        b[i, j] = b[i, j] * 1.5 + (0. if k[3] % 2 else 0.25)
        return b
    # The same nonzeros in other places.
    nz = np.nonzero(b)
    b[nz] = b[nz][np.argsort(gen.uniform(gen.subseed(seed, 83),
                                         nz[0].size))]
    return b


def sparse_direction(v, mode):
    if mode == 0:
        return v
    out = np.zeros(v.shape)
    if v.size:
        out.flat[mode % v.size] = 1.0
    return out


def directions(shape, seed, mode):
    v = 2 * gen.uniform(seed, gen.size(shape)).reshape(shape) - 1
    return sparse_direction(v, mode)


def close(got, want, tol, what):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    check(got.shape == want.shape, '{}: shape {} instead of {}', what,
          got.shape, want.shape)
    check((np.abs(got - want) <= tol).all(), '{}: {} != {} (tolerance {})',
          what, got, want, tol)


def examine(f, x, v, w, seed, what, rev=True):
    """f: array to array.  Value, first derivative along v and second along
    v, w, in every combination of modes."""
    import autograd
    import autograd.numpy as np_
    from autograd.differential_operators import make_jvp
    y0 = np.asarray(f(x))
    c = 2 * gen.uniform(gen.subseed(seed, 5), y0.size).reshape(y0.shape) - 1
    y, dy = make_jvp(f)(x)(v)
    scale = float(np.abs(y0).max(initial=0))
    close(y, y0, 1e-10 * scale + 1e-300, what + ': value in forward mode')
    h = 0.004
    want = fd.directional(f, x, v, h)
    mag = float(np.abs(want).max(initial=0))
    tol = 1e-6 * mag + fd.noise(4 * max(1., scale), h)
    close(dy, want, tol, what + ': forward mode against numerical')

    if rev:
        def phi(z):
            return np_.sum(c * f(z))
        g = np.asarray(autograd.grad(phi)(x))
        one = float(np.sum(c * np.asarray(dy)))
        lim = 1e-8 * float(np.abs(g * v).sum() +
                           np.abs(c * np.asarray(dy)).sum()) + 1e-13
        check(abs(float(np.sum(g * v)) - one) <= lim,
              '{}: reverse mode {} != forward mode {}', what,
              np.sum(g * v), one)

    # Second derivatives.
    def first(z):
        return make_jvp(f)(z)(v)[1]
    _, ddy = make_jvp(first)(x)(w)
    want2 = fd.directional(lambda z: np.asarray(first(z)), x, w, h)
    mag2 = float(np.abs(want2).max(initial=0))
    tol = 1e-6 * (mag2 + mag) + fd.noise(4 * max(1., mag), h)
    close(ddy, want2, tol, what + ': forward over forward')
    if rev:
        two = float(np.sum(c * np.asarray(ddy)))
        lim = 1e-6 * float(np.abs(c * np.asarray(ddy)).sum() + mag) + 1e-12
        fr = make_jvp(autograd.grad(phi))(x)(w)[1]
        check(abs(float(np.sum(np.asarray(fr) * v)) - two) <= lim,
              '{}: forward over reverse {} != {}', what,
              np.sum(np.asarray(fr) * v), two)
        rf = autograd.grad(lambda z: np_.sum(c * first(z)))(x)
        check(abs(float(np.sum(np.asarray(rf) * w)) - two) <= lim,
              '{}: reverse over forward {} != {}', what,
              np.sum(np.asarray(rf) * w), two)


def run_inv(case, rec):
    import autograd.numpy as np_
    import paragami
    n, batch = case['n'], case['batch']
    a = matrix(case['s'], n, case['kind'], batch)
    rec.label('n:%d' % n, 'kind:' + case['kind'], 'batch:%d' % len(batch),
              case['form'])
    rec.nt(n > 1)
    v = directions(a.shape, gen.subseed(case['s'], 1), case['mode'])
    w = directions(a.shape, gen.subseed(case['s'], 2), case['mode2'])
    if case['form'] == 'inv':
        def f(z):
            return np_.linalg.inv(z)
    elif case['form'] == 'inv composed':
        def f(z):
            return np_.matmul(np_.linalg.inv(z), z * z) + \
                np_.linalg.inv(2 * z)
    elif case['form'] == 'inv twice':
        def f(z):
            return np_.linalg.inv(np_.linalg.inv(z))
    else:
        def f(z):
            return np_.sin(np_.linalg.inv(z)) * z
    examine(f, a, v, w, case['s'], case['form'])


def run_solve(case, rec):
    import autograd.numpy as np_
    n, batch, m = case['n'], case['batch'], case['m']
    a = matrix(case['s'], n, case['kind'], batch)
    bbatch = list(batch)
    if len(batch) and m > 0 and case['ones']:
        # Broadcasting along dimensions of length one.
        if case['ones'] == 1:
            bbatch[0] = 1
        elif batch[0] == 1:
            bbatch[0] = 3
    rhs = tuple(bbatch) + ((n,) if m == 0 else (n, m))
    if bbatch != list(batch):
        rec.label('broadcast')
    b = 2 * gen.uniform(gen.subseed(case['s'], 9),
                        gen.size(rhs)).reshape(rhs) - 1
    arg = case['arg']
    rec.label('n:%d' % n, 'rhs:%s%s' % (
        'stacked ' if batch else '', 'vector' if m == 0 else 'matrix'),
              'argument:' + arg, 'kind:' + case['kind'])
    if m == n:
        rec.label('square right-hand side')
    rec.nt(n > 1)
    s = case['s']
    if arg == 'a':
        def f(z):
            return np_.linalg.solve(z, b)
        x = a
    elif arg == 'b':
        def f(z):
            return np_.linalg.solve(a, z)
        x = b
    elif arg == 'both':
        # One vector holding both arguments.
        na = a.size

        def f(z):
            return np_.linalg.solve(np_.reshape(z[:na], a.shape),
                                    np_.reshape(z[na:], b.shape))
        x = np.concatenate([a.reshape(-1), b.reshape(-1)])
    else:
        def f(z):
            return np_.sum(np_.linalg.solve(z, np_.cos(b) + z[..., :, :1] +
                                            np_.zeros(rhs)), axis=-1) \
                if b.ndim == a.ndim else \
                np_.linalg.solve(z, b * z[..., :, 0])
        x = a
    v = directions(x.shape, gen.subseed(s, 1), case['mode'])
    w = directions(x.shape, gen.subseed(s, 2), case['mode2'])
    # autograd's reverse mode does not broadcast.
    examine(f, x, v, w, s, 'solve in ' + arg, rev=bbatch == list(batch))


def run_logdet(case, rec):
    import autograd
    import autograd.numpy as np_
    n = case['n']
    a = matrix(case['s'], n, case['kind'])
    sign, val = np.linalg.slogdet(a)
    rec.label('n:%d' % n, 'kind:' + case['kind'], 'sign:%+d' % sign)
    rec.nt(n > 1)
    v = directions(a.shape, gen.subseed(case['s'], 1), case['mode'])
    w = directions(a.shape, gen.subseed(case['s'], 2), case['mode2'])
    examine(lambda z: np_.linalg.slogdet(z)[1], a, v, w, case['s'],
            'log determinant')
    examine(lambda z: np_.sin(np_.linalg.slogdet(np_.matmul(z, z))[1]) *
            np_.linalg.slogdet(z)[1], a, v, w, case['s'],
            'composed log determinant')
    # Exactly: the derivative is the inverse transposed.
    from autograd.differential_operators import make_jvp
    d = float(make_jvp(lambda z: np_.linalg.slogdet(z)[1])(a)(v)[1])
    t = np.linalg.inv(a).T * v
    check(abs(d - t.sum()) <= 1e-8 * np.abs(t).sum() + 1e-13,
          'log determinant derivative {} != {}', d, t.sum())
    # The sign is locally constant.
    sg = make_jvp(lambda z: np_.linalg.slogdet(z)[0] *
                  np_.linalg.slogdet(z)[1])(a)(v)[1]
    check(abs(float(sg) - sign * d) <= 1e-9 * np.abs(t).sum() + 1e-12,
          'derivative of sign times log determinant: {} != {}', sg, sign * d)


def run_stacked_logdet(case, rec):
    """Forward mode of stacked log determinants is right or refused."""
    import autograd.numpy as np_
    from autograd.differential_operators import make_jvp
    n, batch = case['n'], case['batch']
    a = matrix(case['s'], n, case['kind'], batch)
    rec.label('n:%d' % n, 'batch:%s' % (batch,))
    rec.nt(n > 1)
    v = directions(a.shape, gen.subseed(case['s'], 1), case['mode'])
    try:
        d = make_jvp(lambda z: np_.linalg.slogdet(z)[1])(a)(v)[1]
    except Exception:
        rec.label('refused')
        return
    t = np.swapaxes(np.linalg.inv(a), -1, -2) * v
    want = t.sum(axis=(-1, -2))
    check(np.shape(d) == want.shape and np.all(
        np.abs(d - want) <= 1e-8 * np.abs(t).sum(axis=(-1, -2)) + 1e-13),
        'stacked log determinant derivative {} != {}', d, want)


GAMMAS = ['gamma', 'gammaln', 'psi', 'digamma', 'rgamma', 'polygamma',
          'gammasgn']


def run_gamma(case, rec):
    import autograd.numpy as np_
    import autograd.scipy.special as sp
    name = case['fun']
    shape = tuple(case['shape'])
    u = gen.uniform(case['s'], gen.size(shape)).reshape(shape)
    if case['range'] == 'small':
        x = 0.3 + u
    elif case['range'] == 'mid':
        x = 0.8 + 6 * u
    elif case['range'] == 'large':
        x = 5 + 25 * u
    else:
        # Between the poles.
        x = -np.floor(6 * gen.uniform(gen.subseed(case['s'], 3),
                                      gen.size(shape)).reshape(shape)) - \
            (0.3 + 0.4 * u)
    rec.label(name, 'range:' + case['range'])
    rec.nt()
    order = case['order']
    if name == 'polygamma':
        if case['range'] == 'negative':
            x = np.abs(x)
        rec.label('order:%d' % order)

        def base(z):
            return sp.polygamma(order, z)
    else:
        base = getattr(sp, name)
    # Functions with zeros are not scaled by their values near these.
    low = 1. if name in ('psi', 'digamma', 'gammaln') or \
        (name == 'polygamma' and order == 0) else 1e-30
    sc0 = np.maximum(low, np.abs(np.asarray(base(x))))
    forms = {'plain': base,
             'chain': lambda z: base(1.3 * z + 0 * z ** 2) * z,
             'outer': lambda z: np_.sin(base(z) / sc0)}
    f = forms[case['form']]
    if case['form'] == 'chain' and case['range'] == 'negative':
        f = base
    v = directions(x.shape, gen.subseed(case['s'], 1), case['mode'])
    w = directions(x.shape, gen.subseed(case['s'], 2), case['mode2'])
    if name == 'gammasgn':
        # Locally constant.
        def g(z):
            return base(z) * z ** 2
        from autograd.differential_operators import make_jvp
        dy = np.asarray(make_jvp(g)(x)(v)[1])
        close(dy, scipy.special.gammasgn(x) * 2 * x * v,
              1e-10 * (1 + np.abs(x)), 'gammasgn')
        return
    # Each entry on its own scale.
    sc = np.maximum(low, np.abs(np.asarray(f(x))))
    v, w = 0.3 * v, 0.3 * w
    examine(lambda z: f(z) / sc, x, v, w, case['s'],
            '{} ({})'.format(name, case['form']),
            rev=name not in NO_REVERSE)


NO_REVERSE = ()


def exact_lse(row):
    """log(sum(exp(row))) with an exactly rounded sum."""
    m = max(row)
    return m + math.log(math.fsum(math.exp(r - m) for r in row))


def run_lse(case, rec):
    from paragami import simplex_patterns
    import autograd.numpy as np_
    shape = tuple(case['shape'])
    axis = case['axis'] % len(shape)
    u = 2 * gen.uniform(case['s'], gen.size(shape)).reshape(shape) - 1
    scale = case['scale']
    x = u * min(scale, 4.) + case['shift']
    if scale > 4:
        x = u * scale + case['shift']
    if case['ties']:
        x = np.round(x)
    rec.label('dims:%d' % len(shape), 'axis:%d' % axis,
              'scale:%g' % scale, 'shift:%g' % case['shift'])
    rec.nt(shape[axis] > 1)
    ax = int(axis) - (len(shape) if case['negative'] else 0)
    x0 = x.copy()
    got = simplex_patterns.logsumexp(x, ax)
    check(np.array_equal(x, x0), 'the argument was modified')
    want = np.apply_along_axis(exact_lse, axis, x)
    want = np.expand_dims(want, axis)
    check(np.asarray(got).shape == want.shape, 'shape {} instead of {}',
          np.shape(got), want.shape)
    top = np.abs(x).max(axis=axis, keepdims=True)
    close(got, want, 1e-14 * top + 1e-13, 'logsumexp')
    # Derivatives: the softmax, exactly.
    from autograd.differential_operators import make_jvp
    import autograd
    p = np.exp(x - want)
    v = directions(x.shape, gen.subseed(case['s'], 1), case['mode'])
    w = directions(x.shape, gen.subseed(case['s'], 2), case['mode2'])

    def f(z):
        return simplex_patterns.logsumexp(z, ax)
    y, dy = make_jvp(f)(x)(v)
    ptol = 1e-9 + 1e-14 * top
    close(y, want, 1e-14 * top + 1e-13, 'value in forward mode')
    close(dy, (p * v).sum(axis=axis, keepdims=True), ptol * shape[axis],
          'forward derivative')
    c = 2 * gen.uniform(gen.subseed(case['s'], 4),
                        want.size).reshape(want.shape) - 1

    def phi(z):
        return np_.sum(c * f(z))
    g = autograd.grad(phi)(x)
    close(g, c * p, ptol, 'reverse derivative')
    second = p * w * v
    want2 = second.sum(axis=axis, keepdims=True) - \
        (p * v).sum(axis=axis, keepdims=True) * \
        (p * w).sum(axis=axis, keepdims=True)
    _, ddy = make_jvp(lambda z: make_jvp(f)(z)(v)[1])(x)(w)
    close(ddy, want2, 4 * ptol * shape[axis], 'forward over forward')
    hvp = make_jvp(autograd.grad(phi))(x)(w)[1]
    want3 = c * (p * w - p * (p * w).sum(axis=axis, keepdims=True))
    close(hvp, want3, 4 * ptol * shape[axis], 'forward over reverse')
    rr = autograd.grad(lambda z: np_.sum(autograd.grad(phi)(z) * w))(x)
    close(rr, want3, 4 * ptol * shape[axis], 'reverse over reverse')


def run_closed(case, rec):
    """Larger matrices at any scale, against the analytic derivatives."""
    import autograd.numpy as np_
    import autograd
    from autograd.differential_operators import make_jvp
    n, m, s = case['n'], case['m'], case['s']
    batch = tuple(case['batch'])
    scale = 10. ** case['e']
    a0 = matrix(s, n, case['kind'], batch)
    cond = float(np.linalg.cond(a0).max())
    rec.label('n:%d' % n, 'e:%d' % case['e'], case['what'])
    rec.nt(n > 1)
    a = a0 * scale
    ai = np.linalg.inv(a0)
    v0 = directions(a.shape, gen.subseed(s, 1), case['mode'])
    w0 = directions(a.shape, gen.subseed(s, 2), case['mode2'])
    v, w = v0 * scale, w0 * scale
    tol = 1e-14 * cond ** 2 * n ** 3 * 10

    def near(got, want, what, unit=1.):
        got = np.asarray(got) / unit
        check(got.shape == want.shape, '{}: shape {}', what, got.shape)
        check((np.abs(got - want) <= tol * (
            1e-3 + np.abs(want).max(initial=0))).all(),
              '{}: {} instead of {}', what, got, want)

    def along(f, x, d):
        return make_jvp(f)(x)(d)[1]
    if case['what'] == 'inv':
        f = np_.linalg.inv
        near(along(f, a, v), -ai @ v0 @ ai, 'inverse', 1 / scale)
        near(along(lambda z: along(f, z, v), a, w),
             ai @ v0 @ ai @ w0 @ ai + ai @ w0 @ ai @ v0 @ ai,
             'inverse, second', 1 / scale)
    elif case['what'] == 'slogdet':
        if batch:
            a, ai, v, w, v0, w0 = a[(0,) * len(batch)], \
                ai[(0,) * len(batch)], v[(0,) * len(batch)], \
                w[(0,) * len(batch)], v0[(0,) * len(batch)], \
                w0[(0,) * len(batch)]

        def f(z):
            return np_.linalg.slogdet(z)[1]
        near(along(f, a, v), np.trace(ai @ v0), 'log determinant')
        near(along(lambda z: along(f, z, v), a, w),
             -np.trace(ai @ w0 @ ai @ v0), 'log determinant, second')
        near(np_.sum(autograd.grad(lambda z: along(f, z, v))(a) * w),
             -np.trace(ai @ w0 @ ai @ v0),
             'log determinant, reverse over forward')
    else:
        rhs = batch + ((n,) if m == 0 else (n, m))
        unit = 10. ** case['eb']
        b0 = 2 * gen.uniform(gen.subseed(s, 9), gen.size(rhs)).reshape(rhs) - 1
        d0 = 2 * gen.uniform(gen.subseed(s, 10),
                             gen.size(rhs)).reshape(rhs) - 1
        b, d = b0 * unit, d0 * unit

        def times(p, q):
            return p @ q if m else (p @ q[..., None])[..., 0]
        x0 = times(ai, b0)
        near(along(lambda z: np_.linalg.solve(z, b), a, v),
             -times(ai, times(v0, x0)), 'solve, matrix', unit / scale)
        near(along(lambda z: np_.linalg.solve(a, z), b, d),
             times(ai, d0), 'solve, right-hand side', unit / scale)
        near(along(lambda z: along(lambda y: np_.linalg.solve(y, b), z, v),
                   a, w),
             times(ai, times(w0, times(ai, times(v0, x0)))) +
             times(ai, times(v0, times(ai, times(w0, x0)))),
             'solve, matrix, second', unit / scale)
        near(along(lambda z: along(lambda y: np_.linalg.solve(a, y) *
                                   (1 / unit), z, d), b, d),
             np.zeros(rhs), 'solve, right-hand side, second', unit / scale)


def run_gamma_closed(case, rec):
    """Analytic derivatives, entry by entry, over a wide range."""
    import autograd
    import autograd.scipy.special as sp
    import scipy.special as ss
    from autograd.differential_operators import make_jvp
    name, k, order = case['fun'], case['k'], case['order']
    u = gen.uniform(case['s'], k)
    lo, hi = {'gamma': (-8, 2), 'rgamma': (-8, 2), 'gammaln': (-8, 8),
              'psi': (-8, 8), 'digamma': (-8, 8), 'polygamma': (-2, 3)}[name]
    x = 10. ** (lo + (hi - lo) * u)
    v = 2 * gen.uniform(gen.subseed(case['s'], 1), k) - 1
    if case['scalar']:
        x, v = x[0], v[0]
    rec.label(name, 'scalar' if case['scalar'] else 'array')
    rec.nt(k > 1)
    want = {'gamma': lambda: ss.gamma(x) * ss.psi(x),
            'rgamma': lambda: -ss.psi(x) * ss.rgamma(x),
            'gammaln': lambda: ss.psi(x),
            'psi': lambda: ss.polygamma(1, x),
            'digamma': lambda: ss.polygamma(1, x),
            'polygamma': lambda: ss.polygamma(order + 1, x)}[name]()
    f = (lambda z: sp.polygamma(order, z)) if name == 'polygamma' else \
        getattr(sp, name)
    y, dy = make_jvp(f)(x)(v)
    check(np.array_equal(y, f(x)), 'value {}', y)
    check(np.shape(dy) == np.shape(x), 'shape {}', np.shape(dy))
    check(np.all(np.abs(dy - want * v) <= 1e-9 * np.abs(want * v)),
          'forward derivative of {} at {}: {} instead of {}', name, x, dy,
          want * v)
    g = np.asarray(autograd.elementwise_grad(f)(x))
    check(np.all(np.abs(g - want) <= 1e-9 * np.abs(want)),
          'reverse derivative of {} at {}: {} instead of {}', name, x, g,
          want)


KINDS = st.sampled_from(['dominant', 'negative', 'permuted', 'spd',
                         'triangular', 'orthogonal'])
MODE = st.sampled_from([0, 0, 0, 1, 2, 3, 5, 7])
BATCH = st.sampled_from([[], [], [], [1], [2], [3], [2, 2], [1, 2]])
N = st.sampled_from([1, 2, 2, 3, 3, 4, 5])
COMMON = {'s': gen.seeds, 'n': N, 'kind': KINDS, 'mode': MODE, 'mode2': MODE}

PROP = Prop(
    'C19',
    'A case is a nonsingular matrix (several families, stacked or not), '
    'right-hand side, or points of a special function, with two directions.  '
    'Forward mode against seven-point numerical derivatives and reverse '
    'mode; second derivatives forward over forward, forward over reverse and '
    'reverse over forward.  lse: against exactly rounded sums and the '
    'analytic softmax derivatives, with huge entries.  closed, gamma_closed: '
    'analytic derivatives of larger matrices at all scales, and of special '
    'functions over many orders of magnitude.  Non-trivial: size '
    'above one.',
    [Sub('inv', st.fixed_dictionaries(dict(
        COMMON, batch=BATCH, form=st.sampled_from(
            ['inv', 'inv composed', 'inv twice', 'inv outer']))),
        run_inv, 1600),
     Sub('solve', st.fixed_dictionaries(dict(
         COMMON, batch=BATCH, m=st.sampled_from([0, 0, 1, 2, 3, 4, 5]),
         ones=st.sampled_from([0, 0, 0, 1, 2]),
         arg=st.sampled_from(['a', 'b', 'both', 'composed']))),
         run_solve, 2400),
     Sub('logdet', st.fixed_dictionaries(COMMON), run_logdet, 1200),
     Sub('stacked_logdet', st.fixed_dictionaries(dict(
         COMMON, batch=st.sampled_from([[1], [2], [3], [2, 2], [1, 2]]))),
         run_stacked_logdet, 240),
     Sub('gamma', st.fixed_dictionaries(
         {'s': gen.seeds, 'fun': st.sampled_from(GAMMAS),
          'shape': st.sampled_from([[1], [2], [3], [2, 2], [5]]),
          'range': st.sampled_from(['small', 'mid', 'large', 'negative']),
          'order': st.integers(0, 4), 'mode': MODE, 'mode2': MODE,
          'form': st.sampled_from(['plain', 'chain', 'outer'])}),
         run_gamma, 2000),
     Sub('closed', st.fixed_dictionaries(dict(
         COMMON, n=st.sampled_from([1, 2, 3, 6, 8, 12, 20, 33]), batch=BATCH,
         what=st.sampled_from(['inv', 'slogdet', 'solve', 'solve']),
         m=st.sampled_from([0, 0, 1, 2, 3, 6, 12]),
         e=st.sampled_from([0, 3, -3, 8, -8, 40, -40]),
         eb=st.sampled_from([0, 3, -6, 30, -30]))), run_closed, 1600),
     Sub('gamma_closed', st.fixed_dictionaries(
         {'s': gen.seeds, 'fun': st.sampled_from(
             ['gamma', 'gammaln', 'psi', 'digamma', 'rgamma', 'polygamma']),
          'k': st.integers(1, 6), 'order': st.integers(0, 6),
          'scalar': st.booleans()}), run_gamma_closed, 1600),
     Sub('lse', st.fixed_dictionaries(
         {'s': gen.seeds, 'shape': st.lists(st.integers(1, 5), min_size=1,
                                            max_size=4),
          'axis': st.integers(0, 3), 'negative': st.booleans(),
          'scale': st.sampled_from([0.1, 1., 4., 50., 800., 1e5]),
          'shift': st.sampled_from([0., 0., 5., -700., 800., -1e4, 1e8]),
          'ties': st.booleans(), 'mode': MODE, 'mode2': MODE}),
         run_lse, 2000)],
    ['Matrices have moderate condition numbers.', 'Stacks of matrices and '
     'right-hand sides have the same number of dimensions (a single matrix '
     'with a stack of right-hand sides is not supported by autograd).',
     'The log determinant of '
     'stacked matrices is documented as unsupported in forward mode.'])
