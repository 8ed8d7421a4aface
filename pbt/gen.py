"""Pattern specifications, values and an independent reference model.

A *spec* is plain JSON describing a pattern; a *fill* is plain JSON from which
values are derived deterministically.  Nothing in the reference model calls
paragami: layouts, lengths, validity and names are computed from the spec."""

import itertools
import math
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

INF = float('inf')
EPS = np.finfo(float).eps

# --------------------------------------------------------------------------
# Deterministic expansion of a seed (splitmix64).

_M = (1 << 64) - 1


def _mix(z):
    z = (z + 0x9E3779B97F4A7C15) & _M
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & _M
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & _M
    return z ^ (z >> 31)


def subseed(seed, *keys):
    z = _mix(int(seed) & _M)
    for k in keys:
        if isinstance(k, str):
            for ch in k.encode('utf8', 'surrogatepass'):
                z = _mix(z ^ (ch + 1))
        else:
            z = _mix(z ^ (int(k) & _M))
    return z


def uniform(seed, n):
    """n distinct-looking numbers in (0, 1)."""
    idx = np.arange(1, n + 1, dtype=np.uint64)
    with np.errstate(over='ignore'):
        z = np.uint64(_mix(int(seed) & _M)) + \
            idx * np.uint64(0x9E3779B97F4A7C15)
        z = (z ^ (z >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        z = z ^ (z >> np.uint64(31))
    return ((z >> np.uint64(11)).astype(float) + 0.5) / 2.0 ** 53


def ints(seed, n, lo, hi):
    """n integers in [lo, hi)."""
    return (lo + np.floor(uniform(seed, n) * (hi - lo))).astype(int)


# --------------------------------------------------------------------------
# Spec helpers.

def size(shape):
    return int(np.prod([int(s) for s in shape], dtype=int)) \
        if len(shape) else 1


def is_num(spec):
    return spec['k'] in ('arr', 'vec', 'sca')


def lb_of(spec):
    return -INF if spec.get('lb') is None else spec['lb']


def ub_of(spec):
    return INF if spec.get('ub') is None else spec['ub']


def dv_of(spec):
    return True if spec.get('dv') is None else spec['dv']


def shape_of(spec):
    k = spec['k']
    if k == 'arr':
        return tuple(spec['shape'])
    if k == 'vec':
        return (spec['length'],)
    if k == 'sca':
        return (1,)
    if k == 'psd':
        return (spec['size'], spec['size'])
    if k == 'sim':
        return tuple(spec['ashape']) + (spec['size'],)
    if k == 'parr':
        return tuple(spec['ashape']) + shape_of(spec['base'])
    raise ValueError(k)


def flat_len(spec, free):
    k = spec['k']
    if is_num(spec):
        return size(shape_of(spec))
    if k == 'psd':
        n = spec['size']
        return n * (n + 1) // 2 if free else n * n
    if k == 'sim':
        return size(spec['ashape']) * (spec['size'] - (1 if free else 0))
    if k == 'dict':
        return sum(flat_len(s, free) for _, s in spec['items'])
    if k == 'parr':
        return size(spec['ashape']) * flat_len(spec['base'], free)
    raise ValueError(k)


def depth(spec):
    if spec['k'] == 'dict':
        return 1 + max([depth(s) for _, s in spec['items']] + [0])
    if spec['k'] == 'parr':
        return 1 + depth(spec['base'])
    return 0


def kinds(spec):
    out = {spec['k']}
    if spec['k'] == 'dict':
        for _, s in spec['items']:
            out |= kinds(s)
    if spec['k'] == 'parr':
        out |= kinds(spec['base'])
    return out


def walk(spec):
    """All specs in a tree."""
    yield spec
    if spec['k'] == 'dict':
        for _, s in spec['items']:
            yield from walk(s)
    if spec['k'] == 'parr':
        yield from walk(spec['base'])


def leaves(spec, path=(), off=0, freeoff=0):
    """List of (path, leaf spec, flat offset, free flat offset)."""
    k = spec['k']
    if k == 'dict':
        out = []
        for name, s in spec['items']:
            out += leaves(s, path + (name,), off, freeoff)
            off += flat_len(s, False)
            freeoff += flat_len(s, True)
        return out
    if k == 'parr':
        out = []
        base = spec['base']
        for item in itertools.product(*[range(n) for n in spec['ashape']]):
            out += leaves(base, path + (item,), off, freeoff)
            off += flat_len(base, False)
            freeoff += flat_len(base, True)
        return out
    return [(path, spec, off, freeoff)]


def at(val, path):
    """The leaf of a folded value (a view where it is part of an array)."""
    for p in path:
        val = val[p]
    return val


def map_leaves(spec, fn, path=()):
    """Build a folded value, with fn(path, leaf spec) giving leaf arrays."""
    k = spec['k']
    if k == 'dict':
        out = OrderedDict()
        for name, s in spec['items']:
            out[name] = map_leaves(s, fn, path + (name,))
        return out
    if k == 'parr':
        base = spec['base']
        elems = [map_leaves(base, fn, path + (item,))
                 for item in itertools.product(
                     *[range(n) for n in spec['ashape']])]
        return np.array(elems).reshape(shape_of(spec))
    return fn(path, spec)


def pathseed(seed, path):
    keys = []
    for p in path:
        if isinstance(p, tuple):
            keys += [1000003] + list(p)
        else:
            keys.append('k' + p)
    return subseed(seed, *keys)


def ref_flatten(spec, val):
    """Reference non-free flattening."""
    parts = [np.asarray(at(val, path)).reshape(-1)
             for path, _, _, _ in leaves(spec)]
    return np.concatenate(parts) if parts else np.zeros(0)


def ref_fold(spec, flat):
    """Reference non-free folding."""
    it = {path: (s, off) for path, s, off, _ in leaves(spec)}

    def fn(path, s):
        off = it[path][1]
        n = flat_len(s, False)
        return np.array(flat[off:off + n]).reshape(shape_of(s))
    return map_leaves(spec, fn)


def npflag(flag, seed):
    """Some choices are numpy's, as when they were computed."""
    if isinstance(flag, bool) and subseed(seed, 77) % 4 == 0:
        return np.bool_(flag)
    return flag


def copy_val(val):
    if isinstance(val, dict):
        return OrderedDict((k, copy_val(v)) for k, v in val.items())
    return np.array(val)


def same_structure(spec, val, why=''):
    """Raises AssertionError unless val has exactly the spec's structure."""
    if spec['k'] == 'dict':
        assert isinstance(val, dict), \
            '{} is not a dictionary: {}'.format(why, type(val))
        assert list(val.keys()) == [n for n, _ in spec['items']], \
            '{} keys {} != {}'.format(
                why, list(val.keys()), [n for n, _ in spec['items']])
        for n, s in spec['items']:
            same_structure(s, val[n], why + '/' + n)
    else:
        assert isinstance(val, np.ndarray), \
            '{} is not an array: {}'.format(why, type(val))
        assert val.shape == shape_of(spec), \
            '{} shape {} != {}'.format(why, val.shape, shape_of(spec))


def max_err(spec, a, b, tol):
    """Largest excess of |a - b| over tol; all folded values (tol a folded
    value or a number).  Structures must already be the same."""
    worst = -INF
    for path, s, _, _ in leaves(spec):
        x = np.asarray(at(a, path), dtype=float)
        y = np.asarray(at(b, path), dtype=float)
        t = at(tol, path) if isinstance(tol, dict) or \
            (isinstance(tol, np.ndarray) and tol.ndim) else tol
        if x.size == 0:
            continue
        d = np.abs(x - y) - t
        if np.isnan(d).any():
            return INF
        worst = max(worst, float(d.max()))
    return worst


def nearly(a, b, rel=1e-9):
    """Equal up to rounding, relative to the largest finite entry.  (BLAS and
    SIMD results may depend on memory alignment in the last bits, so that
    computed values are never compared bitwise.)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype.kind not in 'biufc' or b.dtype.kind not in 'biufc':
        return bool(np.array_equal(a, b))
    a, b = a.astype(float), b.astype(float)
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return False
    if not np.array_equal(a[~fa], b[~fa], equal_nan=True):
        return False
    if not fa.any():
        return True
    sc = max(np.abs(a[fa]).max(), np.abs(b[fa]).max())
    tol = rel * np.abs(a[fa]) + 0.01 * rel * sc
    return bool((np.abs(a[fa] - b[fa]) <= tol).all())


def exactly_equal(spec, a, b):
    return all(same_numbers(at(a, path), at(b, path))
               for path, _, _, _ in leaves(spec))


def same_numbers(a, b):
    """Exactly the same numbers, also between integers and floats."""
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype == b.dtype:
        return np.array_equal(a, b)
    # Comparing arrays of different types may round.
    return a.shape == b.shape and a.tolist() == b.tolist()


# --------------------------------------------------------------------------
# Building the real patterns.

def plain(what, x):
    return tuple(x) if what == 'shape' else x


def numpy_scalars(what, x):
    """Settings as numpy scalars."""
    if what == 'shape':
        return tuple(np.int64(n) if i % 2 else np.int32(n)
                     for i, n in enumerate(x))
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, int):
        return np.int64(x) if x % 2 else np.int32(x)
    return np.float32(x) if float(np.float32(x)) == x else np.float64(x)


def small_numbers(what, x):
    """Settings in the smallest numpy types that hold them."""
    if what == 'shape':
        return tuple(small_numbers('size', n) for n in x)
    if isinstance(x, bool) or not np.isfinite(x):
        return x
    kinds = (np.int8, np.uint8, np.int16, np.int32, np.int64) \
        if float(x).is_integer() and abs(x) < 2 ** 62 else \
        (np.float16, np.float32, np.float64)
    with np.errstate(all='ignore'):
        for t in kinds:
            if not issubclass(t, np.integer) or \
                    np.iinfo(t).min <= x <= np.iinfo(t).max:
                if t(x) == x:
                    return t(x)
    return x


def other_numbers(what, x):
    """Bounds as equal numbers of another type; other settings as they
    are."""
    if what == 'bound':
        if isinstance(x, int):
            return float(x)
        if float(x).is_integer() and abs(x) < 1e15:
            return int(x)
    return plain(what, x)


def build(spec, cv=plain):
    """The pattern; cv maps settings to the form in which they are given."""
    import paragami
    k = spec['k']
    kw = {}
    if spec.get('small') and cv is plain:
        spec = dict(spec, small=False)
        return build(spec, small_numbers)
    if spec.get('fd') is not None:
        kw['free_default'] = cv('flag', spec['fd'])
    if k in ('arr', 'vec', 'sca', 'psd', 'sim') and spec.get('dv') is not None:
        kw['default_validate'] = cv('flag', spec['dv'])
    if is_num(spec):
        if spec.get('lb') is not None:
            kw['lb'] = cv('bound', spec['lb'])
        if spec.get('ub') is not None:
            kw['ub'] = cv('bound', spec['ub'])
    if k == 'arr':
        return paragami.NumericArrayPattern(
            shape=cv('shape', spec['shape']), **kw)
    if k == 'vec':
        return paragami.NumericVectorPattern(
            length=cv('size', spec['length']), **kw)
    if k == 'sca':
        return paragami.NumericScalarPattern(**kw)
    if k == 'psd':
        if spec.get('diag_lb') is not None:
            kw['diag_lb'] = cv('bound', spec['diag_lb'])
        return paragami.PSDSymmetricMatrixPattern(
            size=cv('size', spec['size']), **kw)
    if k == 'sim':
        return paragami.SimplexArrayPattern(
            simplex_size=cv('size', spec['size']),
            array_shape=cv('shape', spec['ashape']), **kw)
    if k == 'dict':
        d = paragami.PatternDict(**kw)
        for name, s in spec['items']:
            d[name] = build(s, cv)
        return d
    if k == 'parr':
        return paragami.PatternArray(
            array_shape=cv('shape', spec['ashape']),
            base_pattern=build(spec['base'], cv), **kw)
    raise ValueError(k)


def diag_lb_of(spec):
    return 0.0 if spec.get('diag_lb') is None else spec['diag_lb']


# --------------------------------------------------------------------------
# Values.

def num_interior(spec, seed, e=0, integer=False):
    shape = shape_of(spec)
    n = size(shape)
    lb, ub = lb_of(spec), ub_of(spec)
    u = uniform(seed, n)
    sc = 10.0 ** e
    if lb == -INF and ub == INF:
        if integer:
            return ints(seed, n, -50, 50).reshape(shape)
        v = (2 * u - 1) * 3 * sc
    elif ub == INF:
        w = max(sc, 1e-6 * abs(lb))
        v = lb + w * (0.02 + 3 * u)
        if integer and float(lb).is_integer() and abs(lb) < 1e9:
            return (int(lb) + ints(seed, n, 1, 40)).reshape(shape)
        v = np.maximum(v, np.nextafter(float(lb), INF))
    elif lb == -INF:
        w = max(sc, 1e-6 * abs(ub))
        v = ub - w * (0.02 + 3 * u)
        if integer and float(ub).is_integer() and abs(ub) < 1e9:
            return (int(ub) - ints(seed, n, 1, 40)).reshape(shape)
        v = np.minimum(v, np.nextafter(float(ub), -INF))
    else:
        r = 0.01 + 0.98 * u
        if e > 0:
            r = 1 - (1 - r) ** (1 + e)
        elif e < 0:
            r = r ** (1 - e)
        if integer and float(lb).is_integer() and float(ub).is_integer() \
                and ub - lb >= 2 and max(abs(lb), abs(ub)) < 1e9:
            return ints(seed, n, int(lb) + 1, int(ub)).reshape(shape)
        v = lb + (float(ub) - lb) * r
        v = np.minimum(np.maximum(v, np.nextafter(float(lb), INF)),
                       np.nextafter(float(ub), -INF))
    return v.reshape(shape)


def psd_interior(spec, seed, e=0):
    n = spec['size']
    u = uniform(seed, n * n + 1)
    sc = 10.0 ** max(min(e, 3), -3)
    g = (2 * u[:n * n] - 1).reshape(n, n)
    a = sc * (g @ g.T / max(n, 1) + (0.05 + u[-1]) * np.eye(n))
    if e < -1 and n > 1:
        a = np.diag(np.diag(a))
    a = 0.5 * (a + a.T)
    return a + diag_lb_of(spec) * np.eye(n)


def sim_interior(spec, seed, e=0):
    shape = shape_of(spec)
    u = uniform(seed, size(shape)).reshape(shape)
    z = np.exp((1 + 2 * max(e, 0)) * (2 * u - 1)) if e >= 0 else 0.05 + u
    p = z / np.sum(z, axis=-1, keepdims=True)
    return p / np.sum(p, axis=-1, keepdims=True)


def lay_out(a, mode):
    """The same array in another memory layout."""
    a = np.asarray(a)
    if mode == 1:
        return np.asfortranarray(a)
    if mode == 2 and a.ndim:
        # Every second element of a larger array.
        b = np.empty(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        b[...] = 7
        b[..., ::2] = a
        return b[..., ::2]
    if mode == 3 and a.ndim:
        # A reversed view.
        return a[::-1].copy()[::-1]
    if mode == 4:
        # A transposed view of a C-ordered array.
        return a.T.copy().T
    return a


def extreme_interior(spec, fill):
    """Interior values at extreme scales: next to and far from bounds, badly
    scaled matrices, simplexes with tiny entries."""
    def fn(path, s):
        ps = pathseed(fill['s'], path)
        if is_num(s):
            return num_extreme(s, ps)
        if s['k'] == 'psd':
            n = s['size']
            m = psd_interior(dict(s, diag_lb=0.), ps)
            e = 12 * uniform(subseed(ps, 5), n) - 6
            if subseed(ps, 6) % 3 == 0:
                e = 5 * e
            d = 10.0 ** e
            lb = diag_lb_of(s)
            if lb > 0:
                d = 10.0 ** (8 * uniform(subseed(ps, 5), n) - 2) * \
                    math.sqrt(lb)
            m = d[:, None] * m * d
            return np.tril(m) + np.tril(m, -1).T + lb * np.eye(n)
        u = uniform(ps, size(shape_of(s))).reshape(shape_of(s))
        z = np.exp(60 * (2 * u - 1))
        q = z / np.sum(z, axis=-1, keepdims=True)
        return q / np.sum(q, axis=-1, keepdims=True)
    return relayout(spec, map_leaves(spec, fn), fill)


def num_extreme(s, seed):
    shape = shape_of(s)
    n = size(shape)
    lb, ub = float(lb_of(s)), float(ub_of(s))
    if any(0 < abs(b) < 1e-200 for b in (lb, ub)) or ub - lb < 1e-200:
        # No room for distances that are normal numbers.
        return num_interior(s, seed)
    u = uniform(seed, n)
    sign = np.where(uniform(subseed(seed, 1), n) < 0.5, -1., 1.)
    if lb == -INF and ub == INF:
        return (sign * 10.0 ** (200 * (2 * u - 1))).reshape(shape)
    out = np.empty(n)
    for i in range(n):
        side = (lb > -INF and ub < INF and sign[i] > 0) or lb == -INF
        b = ub if side else lb
        w = ub - lb
        far = 0. if w < INF else 12.
        near = 200. if b == 0 else 15.
        scale = w / 2 if w < INF else (abs(b) if b != 0 else 1.)
        if w == INF and b == 0:
            far = 200.
        d = scale * 10.0 ** (far - u[i] * (near + far))
        out[i] = b - d if side else b + d
    if lb > -INF:
        out = np.maximum(out, np.nextafter(lb, INF) if lb != 0 else 1e-290)
    if ub < INF:
        out = np.minimum(out, np.nextafter(ub, -INF) if ub != 0 else -1e-290)
    return out.reshape(shape)


def relayout(spec, val, fill):
    """The arrays of a folded value in the memory layout the fill asks for,
    and its dictionaries plain or with their keys in another order (the
    pattern determines the order of the entries)."""
    mode = fill.get('o', 0)
    if not mode:
        return val
    if spec['k'] == 'dict':
        items = [(n, relayout(s, val[n], fill)) for n, s in spec['items']]
        if mode == 1:
            return dict(items[::-1])
        if mode == 2:
            return OrderedDict(items[1:] + items[:1])
        if mode == 3:
            return dict(items)
        return OrderedDict(items[::-1])
    return lay_out(val, mode)


def interior(spec, fill):
    """A valid folded value in the interior of the constraint set."""
    return relayout(spec, _interior(spec, fill), fill)


SMALL_TYPES = ['int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint64']


def array_base(spec):
    return array_base(spec['base']) if spec['k'] == 'parr' else spec


def integers(spec, seed, dtype, wide=False):
    """An interior value with integer entries of the given type wherever the
    type and the constraints have room for them, and how many entries have it.
    """
    hit = [0]
    info = np.iinfo(dtype).min, np.iinfo(dtype).max
    # Members of other types turn the flat vector into floats.
    limit = 2 ** 63 if wide and is_num(array_base(spec)) else 2 ** 40

    def fn(path, s):
        ps = pathseed(seed, path)
        if s['k'] == 'sim':
            return sim_interior(s, ps)
        if s['k'] == 'psd':
            n = s['size']
            g = ints(ps, n * n, -2, 3).reshape(n, n)
            return g @ g.T + (1 + n + int(np.ceil(diag_lb_of(s)))) * np.eye(
                n, dtype=int)
        lb, ub = lb_of(s), ub_of(s)
        lo = info[0] if lb == -INF else max(int(np.floor(lb)) + 1, info[0])
        hi = info[1] if ub == INF else min(int(np.ceil(ub)) - 1, info[1])
        lo, hi = max(lo, -limit), min(hi, limit)
        if lb == -INF and ub < INF and ps % 2:
            lo = max(lo, hi - 50)
        if ub == INF and lb > -INF and ps % 2:
            hi = min(hi, lo + 50)
        if lo > hi:
            return num_interior(s, ps)
        if max(-lo, hi) > 2 ** 50:
            # Too large to go through a float.
            n = size(shape_of(s))
            v = [lo + subseed(ps, i) % (hi - lo + 1) for i in range(n)]
            v = np.array(v, dtype=dtype)
        else:
            v = ints(ps, size(shape_of(s)), lo, hi + 1)
        if v.size and ps % 3:
            v[0], v[-1] = lo, hi
        return v.reshape(shape_of(s))

    def cast(v):
        if isinstance(v, dict):
            return OrderedDict((k, cast(w)) for k, w in v.items())
        if v.size and v.dtype.kind in 'iu' and v.min() >= info[0] and \
                v.max() <= info[1]:
            hit[0] += v.size
            return v.astype(dtype)
        return v
    return cast(map_leaves(spec, fn)), hit[0]


def floats(val):
    if isinstance(val, dict):
        return OrderedDict((k, floats(w)) for k, w in val.items())
    return np.array(val, dtype=float)


def type_cases(specs=None):
    if specs is None:
        leaf = st.one_of(num_specs(), num_specs(),
                         psd_specs(max_n=4, big=False), sim_specs())
        specs = st.one_of(leaf, num_specs(), dict_specs(leaf=leaf, parr=False),
                          parr_specs(base=num_specs(zero=False)))
    return st.fixed_dictionaries(
        {'spec': specs, 's': seeds, 't': st.sampled_from(SMALL_TYPES),
         'cv': st.booleans()})


def boundary(spec, fill):
    """A valid value with many entries on the boundary of the constraints."""
    return relayout(spec, _boundary(spec, fill), fill)


def _interior(spec, fill):
    seed, e, integer = fill['s'], fill.get('e', 0), fill.get('i', False)

    def fn(path, s):
        ps = pathseed(seed, path)
        if is_num(s):
            return num_interior(s, ps, e, integer)
        if s['k'] == 'psd':
            return psd_interior(s, ps, e)
        return sim_interior(s, ps, e)
    return map_leaves(spec, fn)


def _boundary(spec, fill):
    seed, e = fill['s'], fill.get('e', 0)

    def fn(path, s):
        ps = pathseed(seed, path)
        if is_num(s):
            v = np.array(num_interior(s, ps, e), dtype=float)
            pick = ints(subseed(ps, 7), v.size, 0, 3).reshape(v.shape)
            if lb_of(s) > -INF:
                v = np.where(pick == 1, lb_of(s), v)
            if ub_of(s) < INF:
                v = np.where(pick == 2, ub_of(s), v)
            return v
        if s['k'] == 'psd':
            n = s['size']
            v = psd_interior(s, ps, e)
            pick = ints(subseed(ps, 7), n, 0, 2)
            for i in range(n):
                if pick[i]:
                    v[i, :] = 0.
                    v[:, i] = 0.
                    v[i, i] = diag_lb_of(s)
            return v
        v = np.zeros(shape_of(s))
        flat = v.reshape(-1, s['size'])
        mode = ints(subseed(ps, 7), flat.shape[0], 0, 3)
        which = ints(subseed(ps, 8), flat.shape[0], 0, s['size'])
        full = sim_interior(s, ps, e).reshape(-1, s['size'])
        for i in range(flat.shape[0]):
            if mode[i] == 0:
                flat[i, which[i]] = 1.0
            elif mode[i] == 1 and s['size'] > 2:
                p = full[i].copy()
                p[which[i]] = 0.0
                p = p / p.sum()
                flat[i] = p / p.sum()
            else:
                flat[i] = full[i]
        return v
    return map_leaves(spec, fn)


def free_vector(spec, fill):
    """A moderate free vector."""
    seed, e = fill['s'], fill.get('e', 0)
    parts = []
    for path, s, _, _ in leaves(spec):
        ps = pathseed(seed, path)
        n = flat_len(s, True)
        u = 2 * uniform(ps, n) - 1
        special = subseed(seed, 77) % 10
        if special == 0:
            # The origin, also of the unconstrained space.
            u = np.zeros(n)
        elif special == 1:
            u = np.where(uniform(subseed(ps, 1), n) < 0.5, 0., u)
        elif special == 2:
            # Ties.
            u = np.round(2 * u) / 2
        if is_num(s):
            if lb_of(s) == -INF and ub_of(s) == INF:
                x = 3 * u * 10.0 ** e
            else:
                x = u * (4.0 if e >= 0 else 1.0)
        elif s['k'] == 'psd':
            x = 1.2 * u
        else:
            x = u * (5.0 if e > 0 else 2.0)
        parts.append(x)
    return np.concatenate(parts) if parts else np.zeros(0)


def num_round_trip_tol(s, v):
    """Allowed error of fold(flatten(v)) for one numeric leaf value."""
    lb, ub = lb_of(s), ub_of(s)
    t = np.abs(v).astype(float)
    if lb > -INF:
        t = t + abs(lb)
    if ub < INF:
        t = t + abs(ub)
    return 1e-11 * t + 1e-300


def free_round_trip_tol(spec, val):
    """Allowed error of fold(flatten(val, free), free), as a folded value."""
    def fn(path, s):
        v = np.asarray(at(val, path))
        if is_num(s):
            if lb_of(s) == -INF and ub_of(s) == INF:
                return np.zeros(v.shape)
            return num_round_trip_tol(s, v)
        if s['k'] == 'psd':
            r = np.sqrt(np.abs(np.diag(v)))
            return 1e-11 * np.outer(r, r)
        return 1e-10 * v + 1e-300
    return map_leaves(spec, fn)


def free_inverse_tol(spec, free, val):
    """Allowed error of flatten(fold(free)) as a vector; inf where floating
    point saturates."""
    parts = []
    for path, s, _, off in leaves(spec):
        n = flat_len(s, True)
        f = free[off:off + n]
        v = np.asarray(at(val, path), dtype=float)
        if is_num(s):
            lb, ub = lb_of(s), ub_of(s)
            if lb == -INF and ub == INF:
                t = np.zeros(n)
            else:
                if ub == INF:
                    d = np.exp(f)
                    c = abs(lb) + d
                elif lb == -INF:
                    d = np.exp(-f)
                    c = abs(ub) + d
                else:
                    r = 1 / (1 + np.exp(-np.clip(f, -700, 700)))
                    d = (float(ub) - lb) * r * (1 - r)
                    c = abs(lb) + abs(ub)
                with np.errstate(all='ignore'):
                    t = 64 * EPS * c / d + 1e-12 * (1 + np.abs(f))
        elif s['k'] == 'psd':
            k = s['size']
            dl = diag_lb_of(s)
            m = v - dl * np.eye(k)
            ev = np.linalg.eigvalsh(m)
            if ev[0] <= 0:
                t = np.full(n, INF)
            else:
                kap = (ev[-1] + dl) / ev[0]
                t = np.full(n, 1e-14 * k * kap ** 1.5 * 10 + 1e-12)
        else:
            t = 1e-12 * (1 + np.abs(f)) + 1e-12
            # Probabilities that underflow.
            v = v.reshape(-1, s['size'])
            low = (v[:, 1:] < 1e-290) | (v[:, :1] < 1e-290)
            t = np.where(low.reshape(-1), INF, t)
        parts.append(np.where(t > 1e-3, INF, t))
    return np.concatenate(parts) if parts else np.zeros(0)


# --------------------------------------------------------------------------
# Reference validity.

def leaf_valid(s, v):
    """'ok', 'bad' or 'unsure' (within rounding of the tolerance)."""
    v = np.asarray(v)
    if is_num(s):
        return 'bad' if (v < lb_of(s)).any() or (v > ub_of(s)).any() else 'ok'
    if s['k'] == 'psd':
        if (np.diag(v) < diag_lb_of(s)).any():
            return 'bad'
        return 'ok' if np.array_equal(v, v.T) else 'bad'
    if (v < 0).any():
        return 'bad'
    err = np.abs(np.sum(v, axis=-1) - 1)
    if (err > 1.5e-12).any():
        return 'bad'
    if (err > 0.5e-12).any():
        return 'unsure'
    return 'ok'


def dense(jac):
    import scipy.sparse
    if scipy.sparse.issparse(jac):
        return np.asarray(jac.toarray())
    return np.asarray(jac)


# --------------------------------------------------------------------------
# Strategies (all produce plain JSON).

KEYS = ['a', 'b', 'ab', 'A', 'x', 'x1', 'x10', 'x2', 'z', 'aa', '0', '1',
        'vec', 'mat', 'sub_dict', 'a_b', 'a b', '', 'pattern', 'keys',
        'contents', 'free', '\u00e9', '\u4e2d', '"', '[0]', 'None', 'array',
        'free_default', 'shape', 'items', '__class__']

seeds = st.integers(0, 2 ** 32)
small_seeds = st.integers(0, 2 ** 20)


def picks():
    """A number used modulo something: mixed, because Hypothesis favours
    small integers, which would favour the first alternatives."""
    return st.integers(0, 2 ** 24).map(lambda x: _mix(x) % 1000003)


def fills():
    return st.fixed_dictionaries({
        's': seeds,
        'e': st.sampled_from([0, 0, 0, 1, -1, 2, -2, 3, -3]),
        'i': st.sampled_from([False, False, False, True]),
        'o': st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3, 4])})


def bound_values():
    return st.one_of(
        st.sampled_from([0, 0.0, 1, -1, 1.5, -2, -0.5, 2, 3, 10, -10, 100,
                         -100, -20000, -1000, 1e-3, -1e-3, 1e6, -1e6, 0.1, -0.1, 7.25]),
        st.floats(-20, 20, allow_nan=False, allow_subnormal=False).map(
            lambda x: float('%.6g' % x)))


@st.composite
def bounds(draw):
    kind = draw(st.sampled_from(['none', 'none', 'lb', 'ub', 'both', 'both',
                                 'inf']))
    if kind == 'none':
        return None, None
    if kind == 'inf':
        return -INF, INF
    if kind == 'lb':
        return draw(bound_values()), draw(st.sampled_from([None, INF]))
    if kind == 'ub':
        return draw(st.sampled_from([None, -INF])), draw(bound_values())
    if draw(st.integers(0, 7)) == 0:
        # Their difference does not fit into the smallest type of each.
        return draw(st.sampled_from([(-100, 100), (-20000, 20000), (-128, 127),
                                     (-64, 64), (-2000000000, 2000000000)]))
    if draw(st.integers(0, 2)) == 0:
        # Bounds whose rounded difference does not lead from one to the other.
        a, b = draw(st.one_of(
            st.sampled_from([(-0.1, 0.3), (-1.1, 2.3), (-0.6, 0.2),
                             (-0.3, 0.7), (-2.7, 1.7)]),
            st.tuples(st.integers(-40, 40), st.integers(-40, 40)).map(
                lambda t: (t[0] / 10, t[1] / 10)),
            st.tuples(st.floats(-3, 3, allow_subnormal=False),
                      st.floats(-3, 3, allow_subnormal=False))))
        if abs(a - b) > 1e-3:
            return min(a, b), max(a, b)
    lb = draw(bound_values())
    w = draw(st.sampled_from([1, 2, 1, 5, 0.5, 0.1, 1e-3, 100, 1e4, 3.3, 8,
                              200, 40000]))
    ub = lb + w
    return lb, ub


def smalls():
    # Whether settings are given in small numpy types.
    return st.sampled_from([False] * 7 + [True])


def dvs():
    return st.sampled_from([None, True, True, False])


def fds():
    return st.sampled_from([None, None, True, False])


@st.composite
def shapes(draw, zero=True, max_size=36, max_dims=5):
    mode = draw(st.integers(0, 11))
    if mode == 0:
        return [draw(st.integers(9, 40))]
    if mode == 1 and zero:
        sh = draw(st.lists(st.integers(0, 3), min_size=1, max_size=3))
        return sh
    if mode == 2:
        return [1] * draw(st.integers(1, max_dims))
    sh = draw(st.lists(st.integers(1, 4), min_size=1, max_size=max_dims))
    while size(sh) > max_size:
        sh = sh[:-1]
    return sh


@st.composite
def num_specs(draw, zero=True, unbounded_ok=True):
    k = draw(st.sampled_from(['arr', 'arr', 'arr', 'vec', 'vec', 'sca']))
    lb, ub = draw(bounds())
    s = {'k': k, 'lb': lb, 'ub': ub, 'dv': draw(dvs()), 'fd': draw(fds()),
         'small': draw(smalls())}
    if s['small']:
        # Single precision holds them, but not always their difference.
        a, b = [None if x is None else
                x if isinstance(x, int) else float(np.float32(x))
                for x in (lb, ub)]
        if a is None or b is None or a < b:
            s['lb'], s['ub'] = a, b
    if k == 'arr':
        s['shape'] = draw(shapes(zero=zero))
    elif k == 'vec':
        s['length'] = draw(st.sampled_from(
            ([0] if zero else []) + [1, 1, 2, 3, 4, 5, 7, 12, 30]))
    return s


DIAG_LBS = [None, None, 0.0, 0, 1, 0.5, 0.1, 2.0, 10.0, 100, 255, 1e-3]


@st.composite
def psd_specs(draw, max_n=6, big=True):
    sizes = [1, 2, 2, 3, 3, 4, 5, 6]
    if big:
        sizes += [8, 11]
    n = draw(st.sampled_from([x for x in sizes if x <= max_n or x > 6]))
    return {'k': 'psd', 'size': n, 'diag_lb': draw(st.sampled_from(DIAG_LBS)),
            'dv': draw(dvs()), 'fd': draw(fds()), 'small': draw(smalls())}


@st.composite
def sim_specs(draw, zero=False):
    n = draw(st.sampled_from([2, 2, 3, 3, 4, 5, 6, 9, 15]))
    mode = draw(st.integers(0, 8))
    if mode == 0:
        sh = []
    else:
        sh = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
        while size(sh) * n > 60:
            sh = sh[:-1]
        if zero and sh and draw(st.integers(0, 19)) == 0:
            sh[draw(st.integers(0, len(sh) - 1))] = 0
    return {'k': 'sim', 'size': n, 'ashape': sh, 'dv': draw(dvs()),
            'fd': draw(fds())}


def leaf_specs(zero=True, psd_big=True):
    return st.one_of(num_specs(zero=zero), num_specs(zero=zero),
                     psd_specs(big=psd_big), sim_specs(zero=zero))


@st.composite
def parr_specs(draw, base=None, max_total=80, zero=False):
    if base is None:
        mode = draw(st.integers(0, 9))
        if mode <= 1:
            inner = draw(leaf_specs(zero=False, psd_big=False))
            b = {'k': 'parr',
                 'ashape': draw(st.sampled_from([[1], [2], [1, 2], [3]])),
                 'base': inner, 'fd': draw(fds())}
        else:
            b = draw(leaf_specs(zero=False, psd_big=False))
    else:
        b = draw(base)
    sh = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    while len(sh) > 1 and size(sh) * flat_len(b, False) > max_total:
        sh = sh[:-1]
    odd = draw(st.integers(0, 29))
    if odd == 0:
        # A single element without an axis.
        sh = []
    elif odd == 1 and zero:
        sh[draw(st.integers(0, len(sh) - 1))] = 0
    return {'k': 'parr', 'ashape': sh, 'base': b, 'fd': draw(fds())}


def key_names():
    return st.one_of(st.sampled_from(KEYS),
                     st.text(alphabet='abAB_0 1.', min_size=0, max_size=3))


@st.composite
def dict_specs(draw, depth_left=2, zero=True, max_total=150, keys=None,
               min_items=0, leaf=None, parr=True, max_items=5):
    mode = draw(st.integers(0, 14))
    if mode == 0 and min_items == 0:
        names = []
    elif mode == 1:
        names = draw(st.lists(keys or key_names(), min_size=max_items + 1,
                              max_size=max(12, max_items + 1), unique=True))
    else:
        names = draw(st.lists(keys or key_names(),
                              min_size=max(1, min_items),
                              max_size=max_items, unique=True))
    items = []
    total = 0
    for n in names:
        which = draw(st.integers(0, 9))
        lf = leaf if leaf is not None else leaf_specs(zero=zero,
                                                      psd_big=False)
        if which <= 2 and depth_left > 0:
            s = draw(dict_specs(depth_left=depth_left - 1, zero=zero,
                                max_total=max_total // 2, keys=keys,
                                leaf=leaf, parr=parr, max_items=3))
        elif which <= 4 and parr:
            s = draw(parr_specs(zero=zero))
        else:
            s = draw(lf)
        if total + flat_len(s, False) > max_total:
            s = {'k': 'sca', 'lb': None, 'ub': None, 'dv': draw(dvs()),
                 'fd': draw(fds())}
        total += flat_len(s, False)
        items.append([n, s])
    return {'k': 'dict', 'items': items, 'fd': draw(fds())}


def specs(zero=True, depth_left=2):
    return st.one_of(leaf_specs(zero=zero), parr_specs(zero=zero),
                     dict_specs(depth_left=depth_left, zero=zero),
                     dict_specs(depth_left=depth_left, zero=zero))


@st.composite
def big_specs(draw, kinds=('num', 'psd', 'sim', 'parr', 'dict', 'long',
                           'deep'), limit=700):
    """Patterns with hundreds of entries, many axes, keys or levels."""
    kind = draw(st.sampled_from(list(kinds)))
    spec = _big(draw, kind)
    while flat_len(spec, False) > limit:
        # Everything that is too long for the user.
        spec = _big(draw, 'num' if 'num' in kinds else kind)
    return spec


def _big(draw, kind):
    common = {'dv': draw(dvs()), 'fd': draw(fds())}
    if kind == 'num':
        lb, ub = draw(bounds())
        s = dict(common, lb=lb, ub=ub)
        n = draw(st.sampled_from([65, 100, 127, 128, 129, 200, 255, 256, 257,
                                  300, 513]))
        if draw(st.booleans()):
            return dict(s, k='vec', length=n)
        return dict(s, k='arr', shape=draw(st.sampled_from([
            [n], [1, n], [n, 1], [n // 10, 10], [10, n // 10], [2] * 8,
            [1] * 12, [3, 2, 4, 2, 3, 2], [17, 17], [2, 65, 2], [5, 4, 13],
            [1, 1, 2, 1, 3, 1, 1, 2, 1]])))
    if kind == 'psd':
        return dict(common, k='psd', size=draw(st.sampled_from(
            [7, 9, 10, 12, 13, 16, 17, 20])),
            diag_lb=draw(st.sampled_from(DIAG_LBS)))
    if kind == 'sim':
        n, sh = draw(st.sampled_from([
            (130, []), (257, [1]), (300, []), (20, [15]), (2, [130]),
            (3, [90]), (3, [2, 3, 4, 5]), (10, [3, 9]), (16, [4, 4]),
            (4, [2, 2, 2, 2, 2]), (129, [3]), (2, [9, 15])]))
        return dict(common, k='sim', size=n, ashape=sh)
    if kind == 'parr':
        base = draw(st.one_of(
            num_specs(zero=False), sim_specs(),
            psd_specs(max_n=3, big=False),
            parr_specs(base=num_specs(zero=False), max_total=6)))
        m = max(1, 400 // max(1, flat_len(base, False)))
        sh = draw(st.sampled_from([[130], [11, 12], [2, 3, 4, 2, 3],
                                   [5, 7, 2], [1, 40], [12], [20, 2],
                                   [2, 2, 2, 2, 2]]))
        while size(sh) > m and len(sh) > 1:
            sh = sh[1:]
        return {'k': 'parr', 'ashape': [min(sh[0], max(m, 1))] + sh[1:],
                'base': base, 'fd': common['fd']}
    if kind == 'deep':
        s = draw(leaf_specs(zero=False, psd_big=False))
        for i in range(draw(st.integers(4, 7))):
            items = [['k%d' % i, s]]
            for j in range(draw(st.integers(0, 2))):
                t = draw(num_specs(zero=False))
                items.insert(draw(st.integers(0, len(items))),
                             ['m%d' % j, t if flat_len(t, False) < 12 else
                              dict(t, k='sca')])
            s = {'k': 'dict', 'items': items, 'fd': draw(fds())}
        return s
    if kind == 'long':
        # Many keys, not in alphabetical or numerical order.
        n = draw(st.integers(11, 40))
        pool = draw(st.lists(leaf_specs(zero=False, psd_big=False),
                             min_size=3, max_size=5))
        pool = [t if flat_len(t, False) <= 30 else
                {'k': 'sca', 'lb': 0.0, 'ub': None} for t in pool]
        mult = draw(st.sampled_from([1, 3, 7]))
        names = [('x%d' % (i * mult % 41)) for i in range(1, n + 1)]
        return {'k': 'dict', 'fd': common['fd'], 'items': [
            [name, pool[(i * 7 + i // 3) % len(pool)]]
            for i, name in enumerate(names)]}
    # A big member before and after small ones.
    items = [['small', draw(leaf_specs(zero=False, psd_big=False))],
             ['big', _big(draw, draw(st.sampled_from(
                 ['num', 'sim', 'parr', 'psd'])))],
             ['after', draw(leaf_specs(zero=False, psd_big=False))],
             ['end', draw(num_specs(zero=False))]]
    if draw(st.booleans()):
        items = items[::-1]
    return {'k': 'dict', 'items': items, 'fd': common['fd']}


def array_specs(zero=True):
    """Patterns whose folded value is an array."""
    return st.one_of(leaf_specs(zero=zero), leaf_specs(zero=zero),
                     parr_specs(zero=zero))


def spec_labels(rec, spec):
    for k in kinds(spec):
        rec.label('kind:' + k)
    rec.label('top:' + spec['k'])
    rec.label('depth:%d' % depth(spec))
    for s in walk(spec):
        if is_num(s):
            rec.label('bounds:%d%d' % (lb_of(s) > -INF, ub_of(s) < INF))


@st.composite
def huge_specs(draw, kinds=('num', 'dict', 'sim', 'psd', 'parr')):
    """More entries than 16-bit integers can count."""
    kind = draw(st.sampled_from(kinds))
    n = draw(st.sampled_from([32769, 33000, 40000, 65537, 66001, 70000]))
    lb, ub = draw(bounds())
    common = {'dv': draw(dvs()), 'fd': draw(fds())}
    arr = dict(common, k='arr', lb=lb, ub=ub, shape=draw(st.sampled_from(
        [[n], [n, 1], [n // 10, 10], [20, 1 + n // 20], [2, n // 2 + 1]])))
    if kind == 'num':
        return arr
    if kind == 'sim':
        return dict(common, k='sim', size=draw(st.sampled_from([7, 260])),
                    ashape=[n // 250, draw(st.sampled_from([1, 3]))])
    if kind == 'psd':
        # (Its flat length is above 32767 and its square above 65535.)
        return dict(common, k='psd', size=draw(st.sampled_from([257, 300])),
                    diag_lb=draw(st.sampled_from([0., 0.5])))
    if kind == 'parr':
        return {'k': 'parr', 'ashape': [draw(st.sampled_from([3, 9]))],
                'base': dict(common, k='arr', lb=lb, ub=ub,
                             shape=[n // 3 + 1]), 'fd': common['fd']}
    items = [['b', draw(num_specs(zero=False))], ['huge', arr],
             ['a', draw(leaf_specs(zero=False, psd_big=False))],
             ['s', draw(sim_specs())]]
    return {'k': 'dict', 'items': draw(st.permutations(items)),
            'fd': common['fd']}
