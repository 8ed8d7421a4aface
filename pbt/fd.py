"""Numerical derivatives with a seven-point (sixth-order) stencil."""
import numpy as np

_W = ((1, 45.0), (2, -9.0), (3, 1.0))


def directional(f, x, v, h=0.02):
    """d/dt f(x + t v) at 0, for array-valued f."""
    out = 0.
    for k, w in _W:
        out = out + w * (np.asarray(f(x + k * h * v), dtype=float) -
                         np.asarray(f(x - k * h * v), dtype=float))
    return out / (60.0 * h)


def jacobian(f, x, h=0.02):
    cols = []
    for i in range(x.size):
        v = np.zeros(x.shape)
        v.flat[i] = 1.0
        cols.append(np.asarray(directional(f, x, v, h)).reshape(-1))
    if not cols:
        return np.zeros((np.asarray(f(x)).size, 0))
    return np.stack(cols, axis=1)


def noise(scale, h=0.02):
    """Rounding error of the stencil for function values of a given scale."""
    return 16 * np.finfo(float).eps * scale / h
