"""Differential comparison of the derivatives of two traceable functions."""
import numpy as np
from . import gen
from .core import check


def rnd(seed, k, shape):
    return (2 * gen.uniform(gen.subseed(seed, k), gen.size(shape)) -
            1).reshape(shape)


def near(a, b, scale, what):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    check(a.shape == b.shape, '{}: shape {} instead of {}', what, a.shape,
          b.shape)
    if a.size == 0:
        return
    tol = 1e-9 * (np.abs(b).max() + scale)
    check((np.abs(a - b) <= tol).all(), '{}: {} != {}', what, a, b)


def same_derivatives(f, ref, x, seed, what, scale=1., third=True):
    """f and ref: the same function of one array argument, written with the
    code under test and without it.  Compares values and derivatives in
    forward, reverse and mixed modes, to the third order."""
    import autograd
    import autograd.numpy as np_
    from autograd.differential_operators import make_jvp
    x = np.asarray(x, dtype=float)
    y = np.asarray(ref(x))
    near(f(x), y, scale, what + ': value')
    v, w, u = [rnd(seed, k, x.shape) for k in (1, 2, 3)]
    c = rnd(seed, 4, y.shape)

    def jv(fun):
        return lambda z: make_jvp(fun)(z)(v)[1]

    def phi(fun):
        # A nonlinear function, so that no derivative is constant.
        return lambda z: np_.sum(c * np_.sin(fun(z) + 0.3 * fun(z) ** 2))

    near(make_jvp(f)(x)(v)[0], y, scale, what + ': value in forward mode')
    near(jv(f)(x), jv(ref)(x), scale, what + ': forward derivative')
    near(jv(jv(f))(x), jv(jv(ref))(x), scale, what + ': forward over forward')
    near(jv(phi(f))(x), jv(phi(ref))(x), scale,
         what + ': forward derivative of a function of it')
    gf, gr = autograd.grad(phi(f)), autograd.grad(phi(ref))
    near(gf(x), gr(x), scale, what + ': reverse derivative')

    def fr(fun):
        return make_jvp(autograd.grad(phi(fun)))(x)(w)[1]

    def rr(fun):
        g = autograd.grad(phi(fun))
        return autograd.grad(lambda z: np_.sum(w * g(z)))(x)

    def rf(fun):
        return autograd.grad(lambda z: make_jvp(phi(fun))(z)(w)[1])(x)
    want = fr(ref)
    near(fr(f), want, scale, what + ': forward over reverse')
    near(rr(f), want, scale, what + ': reverse over reverse')
    near(rf(f), want, scale, what + ': reverse over forward')
    if third:
        def rrr(fun):
            g = autograd.grad(phi(fun))
            h = autograd.grad(lambda z: np_.sum(w * g(z)))
            return autograd.grad(lambda z: np_.sum(u * h(z)))(x)

        def ffr(fun):
            g = autograd.grad(phi(fun))
            return make_jvp(lambda z: make_jvp(g)(z)(w)[1])(x)(u)[1]
        want = rrr(ref)
        near(rrr(f), want, scale, what + ': third order, reverse')
        near(ffr(f), want, scale, what + ': third order, mixed')
