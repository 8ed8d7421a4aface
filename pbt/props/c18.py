"""C18: flattened functions are differentiable to all orders used in
optimization."""
import numpy as np
from hypothesis import strategies as st
from .. import ad, fd, gen
from ..core import Prop, Sub, check
from .c09 import small

H = 0.006


def unvalidated(spec):
    s = dict(spec)
    if s['k'] == 'dict':
        s['items'] = [[n, unvalidated(x)] for n, x in s['items']]
    elif s['k'] == 'parr':
        s['base'] = unvalidated(s['base'])
    else:
        s['dv'] = False
    return s


def smooth(spec, seed, val):
    """A smooth function of the folded value, of order one, coupling every
    entry with every other; and the scale of each flat entry."""
    import autograd.numpy as np_
    parts = []
    for path, s, off, foff in gen.leaves(spec):
        v = np.asarray(gen.at(val, path), dtype=float)
        sc = max(1., float(np.abs(v).max(initial=0)))
        if gen.is_num(s):
            # Distances to a bound change by their own size.
            for b in (gen.lb_of(s), gen.ub_of(s)):
                if np.isfinite(b):
                    sc = max(sc, float(np.abs(v - b).max(initial=0)))
        w = [2 * gen.uniform(gen.subseed(gen.pathseed(seed, path), k),
                             v.size).reshape(v.shape) - 1 for k in range(4)]
        parts.append((path, sc, w))

    def g(folded):
        lin = 0.0
        tot = 0.0
        for path, sc, (a, b, c, d) in parts:
            x = gen.at(folded, path) / sc
            lin = lin + np_.sum(a * x)
            tot = tot + np_.sum(b * np_.sin(c * x + d)) + \
                0.3 * np_.sum(d * x ** 3)
        return tot + 0.5 * lin ** 2 + 0.2 * np_.sin(lin)
    return g


def groups(spec, free):
    """The leaf index of every flat entry."""
    out = []
    for i, (_, s, _, _) in enumerate(gen.leaves(spec)):
        out += [i] * gen.flat_len(s, free)
    return np.array(out, dtype=int)


def group_max(a, g):
    """The largest |a| (vector) within each entry's group."""
    out = np.zeros(a.size)
    for i in np.unique(g):
        out[g == i] = np.abs(a[g == i]).max(initial=0)
    return out


def steps(spec, x, free):
    """A step length for every flat entry."""
    if free:
        return np.where(np.abs(x) > 10, np.abs(x) / 10, 1.0)
    h = np.ones(x.size)
    for path, s, off, _ in gen.leaves(spec):
        n = gen.flat_len(s, False)
        h[off:off + n] = max(1., np.abs(x[off:off + n]).max(initial=0))
    return h


def compare(got, want, tol, what):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    check(got.shape == want.shape, '{} has shape {}, expected {}', what,
          got.shape, want.shape)
    bad = ~(np.abs(got - want) <= tol)
    check(not bad.any(), '{}: {} != numerical {} (tolerance {})', what,
          got[bad][:3], want[bad][:3],
          np.broadcast_to(tol, got.shape)[bad][:3])


def deriv_check(f, x, g, h, rec, hess=True, seed=0):
    """Gradient, Hessian and forward mode of a scalar function of a vector.
    g: groups of entries of comparable sensitivity; h: step lengths."""
    import autograd
    from autograd.differential_operators import make_jvp
    n = x.size
    f0 = float(f(x))
    grad = autograd.grad(f)
    got = np.asarray(grad(x))
    # In units of h.
    want = fd.jacobian(lambda u: f(x + h * u), np.zeros(n), H)[0]
    noise = fd.noise(abs(f0) + 3. + n, H)
    tol = 1e-6 * group_max(want, g) + noise
    compare(got * h, want, tol, 'gradient')
    # Forward mode.
    v = h * (2 * gen.uniform(gen.subseed(seed, 3), n) - 1)
    val, dv = make_jvp(f)(x)(v)
    check(abs(float(val) - f0) <= 1e-10 * (abs(f0) + 1), 'value in forward '
          'mode is {} instead of {}', val, f0)
    tot = np.abs(got * v).sum()
    check(abs(float(dv) - got @ v) <= 1e-9 * tot + 1e-13,
          'forward mode derivative {} != reverse mode {}', dv, got @ v)
    if not hess:
        return
    hs = np.asarray(autograd.hessian(f)(x))
    check(hs.shape == (n, n), 'Hessian of shape {}', hs.shape)
    hw = fd.jacobian(lambda u: np.asarray(grad(x + h * u)) * h, np.zeros(n), H)
    hg = hs * h[:, None] * h[None, :]
    mx = np.zeros((n, n))
    for i in np.unique(g):
        for j in np.unique(g):
            b = np.ix_(g == i, g == j)
            mx[b] = np.abs(hw[b]).max(initial=0)
    tol = 2e-6 * mx + fd.noise(np.abs(got * h).max(initial=0) + 1e-3, H)
    compare(hg, hw, tol, 'Hessian')
    scale = np.abs(hg).max(initial=0)
    check(np.abs(hg - hg.T).max(initial=0) <= 1e-8 * scale + 1e-13,
          'the Hessian is not symmetric')
    # Other ways to the same second derivatives.
    hv = hs @ v
    lim = 1e-8 * (np.abs(hs) @ np.abs(v) * h).max(initial=0) + 1e-12
    hvp = autograd.hessian_vector_product(f)(x, v)
    check((np.abs((hvp - hv) * h) <= lim).all(),
          'Hessian vector product differs')
    fr = make_jvp(grad)(x)(v)[1]
    check((np.abs((fr - hv) * h) <= lim).all(),
          'forward over reverse differs from the Hessian')


def run_flattened(case, rec):
    import paragami
    spec = unvalidated(case['spec'])
    free = case['free']
    gen.spec_labels(rec, spec)
    rec.label('free' if free else 'not free')
    if case['keep_validation'] and free:
        # Folding free values needs no validation.
        spec = case['spec']
    p = gen.build(spec)
    fill = case['fill']
    if free:
        x = gen.free_vector(spec, fill)
        val = p.fold(x, free=True)
    else:
        val = gen.interior(spec, fill)
        x = np.array(gen.ref_flatten(spec, val), dtype=float)
    if x.size == 0:
        return
    rec.nt(x.size > 1)
    fun = smooth(spec, case['w'], val)
    arg = case['arg']

    def original(*args, **kw):
        th = args[arg]
        other = sum(a for i, a in enumerate(args) if i != arg)
        return fun(th) + other * kw.get('k', 0.0)
    f = paragami.FlattenFunctionInput(original, p, free, arg) \
        if arg or case['explicit'] else \
        paragami.FlattenFunctionInput(original, p, free)

    def flat(z):
        args = [0.5, 0.25, 0.75][:arg + 1]
        args[arg] = z
        return f(*args, k=2.0)
    want = float(fun(val)) + 2.0 * sum([0.5, 0.25, 0.75][:arg])
    check(abs(float(flat(x)) - want) <= 1e-7 * (1 + abs(want)),
          'value {} instead of {}', flat(x), want)
    deriv_check(flat, x, groups(spec, free), steps(spec, x, free), rec,
                case['hess'], case['w'])


def tangent(spec, val, seed, scale=0.5):
    """A direction within the constraint set from an interior point, of a
    length such that three stencil steps of 0.02 stay inside."""
    def fn(path, s):
        ps = gen.pathseed(gen.subseed(seed, 99), path)
        v = np.asarray(gen.at(val, path), dtype=float)
        u = 2 * gen.uniform(ps, v.size).reshape(v.shape) - 1
        if gen.is_num(s):
            room = np.minimum(np.minimum(v - gen.lb_of(s),
                                         gen.ub_of(s) - v), 1.)
            return scale * u * room
        if s['k'] == 'psd':
            m = v - gen.diag_lb_of(s) * np.eye(s['size'])
            ev = np.linalg.eigvalsh(m)
            u = u + u.T
            return scale * ev[0] * u / max(1., np.abs(u).sum())
        u = u * v.min(axis=-1, keepdims=True)
        return scale * (u - u.mean(axis=-1, keepdims=True))
    return gen.map_leaves(spec, fn)


def run_folded(case, rec):
    """Functions of the flat vector, differentiated in the folded value."""
    import autograd
    import autograd.numpy as np_
    import paragami
    spec, free = unvalidated(case['spec']), case['free']
    gen.spec_labels(rec, spec)
    rec.label('free' if free else 'not free')
    p = gen.build(spec)
    val = np.array(gen.interior(spec, dict(case['fill'], i=False)),
                   dtype=float)
    if val.size == 0:
        return
    rec.nt(val.size > 1)
    n = gen.flat_len(spec, free)
    flat0 = np.asarray(p.flatten(val, free=free), dtype=float)
    sc = np.maximum(1., group_max(flat0, groups(spec, free)))
    w = [2 * gen.uniform(gen.subseed(case['w'], k), n) - 1 for k in range(3)]

    def g(flat):
        y = flat / sc
        lin = np_.sum(w[0] * y)
        return np_.sum(w[1] * np_.sin(w[2] * y)) + 0.5 * lin ** 2
    f = paragami.FoldFunctionInput(g, p, free)
    check(abs(float(f(val)) - float(g(flat0))) <= 1e-9 * (1 + n),
          'value differs')
    grad = np.asarray(autograd.grad(f)(val))
    check(grad.shape == val.shape, 'gradient has shape {}', grad.shape)
    for k in range(2):
        d = tangent(spec, val, gen.subseed(case['w'], k))

        def phi(t):
            return f(val + t * d)
        want = float(fd.directional(phi, 0.0, 1.0, 0.01))
        # Conditioning: flattening amplifies rounding of the value by
        # value / distance to the boundary, which the direction scales with.
        noise = rounding(spec, p, val, free, d, sc)
        got = float(np.sum(grad * d))
        tol = 1e-6 * (abs(want) + np.abs(grad * d).max()) + noise
        check(abs(got - want) <= tol, 'derivative {} != numerical {} '
              '(tolerance {})', got, want, tol)
        one = float(autograd.grad(phi)(0.0))
        check(abs(one - got) <= 1e-8 * (abs(got) + np.abs(grad * d).max()) +
              1e-13, 'derivative along a line {} != {}', one, got)
        two = float(autograd.grad(autograd.grad(phi))(0.0))

        def dphi(t):
            return np.asarray(autograd.grad(f)(val + t * d)).reshape(-1) @ \
                d.reshape(-1)
        want2 = float(fd.directional(dphi, 0.0, 1.0, 0.01))
        tol = 2e-6 * (abs(want2) + np.abs(grad * d).max()) + 4 * noise
        check(abs(two - want2) <= tol, 'second derivative {} != numerical {} '
              '(tolerance {})', two, want2, tol)


def rounding(spec, p, val, free, d, sc):
    """Rounding error of the numerical derivative along d."""
    if not free:
        return fd.noise(3. + val.size, 0.01)
    rel = 1.0
    for path, s, _, _ in gen.leaves(spec):
        v = np.abs(np.asarray(gen.at(val, path)))
        if gen.is_num(s):
            b = [abs(float(x)) for x in (gen.lb_of(s), gen.ub_of(s))
                 if np.isfinite(x)]
            if b:
                room = np.minimum(v * 0 + np.asarray(gen.at(val, path)) -
                                  gen.lb_of(s),
                                  gen.ub_of(s) -
                                  np.asarray(gen.at(val, path)))
                rel = max(rel, float(((v + max(b)) / room).max(initial=0)))
        elif s['k'] == 'psd':
            m = np.asarray(gen.at(val, path))
            ev = np.linalg.eigvalsh(
                m - gen.diag_lb_of(s) * np.eye(s['size']))
            rel = max(rel, float(np.abs(m).max() / ev[0]))
        else:
            rel = max(rel, float(1 / v.min()))
    return fd.noise((3. + val.size) * rel, 0.01)


def run_reparam(case, rec):
    """Folding in one parameterization and flattening in another."""
    import autograd
    from autograd.differential_operators import make_jvp
    spec = unvalidated(case['spec'])
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    x = gen.free_vector(spec, dict(case['fill'], e=0))
    n = gen.flat_len(spec, True)
    if n == 0:
        return
    rec.nt(n > 1)
    g = groups(spec, True)
    val = p.fold(x, free=True)

    def there(z):
        return p.flatten(p.fold(z, free=True), free=False)
    jac = np.asarray(autograd.jacobian(there)(x))
    want = fd.jacobian(there, x)
    flat = np.asarray(there(x), dtype=float)
    bscale = np.zeros(flat.size)
    for path, s, off, _ in gen.leaves(spec):
        m = gen.flat_len(s, False)
        b = [abs(float(q)) for q in (gen.lb_of(s), gen.ub_of(s))
             if np.isfinite(q)] if gen.is_num(s) else []
        bscale[off:off + m] = max(
            b + [np.abs(flat[off:off + m]).max(initial=0)])
    tol = fd.noise(bscale)[:, None] + \
        1e-7 * np.abs(want).max(axis=1, keepdims=True)
    compare(jac, want, tol, 'Jacobian of folding')
    v = 2 * gen.uniform(case['w'], n) - 1
    fw = np.asarray(make_jvp(there)(x)(v)[1])
    lim = 1e-9 * (np.abs(jac) @ np.abs(v)) + 1e-14 * bscale
    check(fw.shape == flat.shape and (np.abs(fw - jac @ v) <= lim).all(),
          'forward mode through folding differs from reverse mode')

    def back(z):
        return p.flatten(p.fold(z, free=True), free=True)
    ident = np.asarray(autograd.jacobian(back)(x))
    # Where the round trip is itself accurate, so is its derivative.
    acc = gen.free_inverse_tol(spec, x, val)
    tol = np.maximum(1e-7, 1e3 * acc)
    tol = group_max(tol, g)
    err = np.abs(ident - np.eye(n))
    check((err <= tol[:, None]).all(), 'derivative of a round trip is not '
          'the identity: {}', ident[err > tol[:, None]][:3])


def run_extremes(case, rec):
    """Derivatives of folding far from the origin, in closed form."""
    import autograd
    import paragami
    from autograd.differential_operators import make_jvp
    spec = unvalidated(case['spec'])
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    n = gen.flat_len(spec, True)
    if n == 0:
        return
    seed, mag = case['s'], case['mag']
    rec.label('mag:%g' % mag)
    u = 2 * gen.uniform(seed, n) - 1
    pick = gen.ints(gen.subseed(seed, 1), n, 0, 4)
    x = np.where(pick == 0, u, mag * np.where(pick == 1, u, np.sign(u)))
    # The origin is where formulas for either sign meet.
    x = np.where(pick == 3, 0., x)
    w = 2 * gen.uniform(gen.subseed(seed, 2), gen.flat_len(spec, False)) - 1
    v = 2 * gen.uniform(gen.subseed(seed, 3), n) - 1
    f = paragami.FlattenFunctionInput(
        lambda z: (z * w.reshape(z.shape)).sum(), p, True)
    # Gradient and curvature along v of a linear function.
    g = np.zeros(n)
    h = np.zeros((n, n))
    scale = 1.
    if gen.is_num(spec):
        lb, ub = float(gen.lb_of(spec)), float(gen.ub_of(spec))
        if lb == -gen.INF and ub == gen.INF:
            d1, d2 = np.ones(n), np.zeros(n)
        elif ub == gen.INF:
            d1 = d2 = np.exp(x)
        elif lb == -gen.INF:
            d1, d2 = np.exp(-x), -np.exp(-x)
        else:
            e = np.exp(-np.abs(x))
            d1 = (ub - lb) * e / (1 + e) ** 2
            d2 = -np.sign(x) * (ub - lb) * e * (1 - e) / (1 + e) ** 3
            scale = max(ub - lb, abs(lb), abs(ub))
        g, h = w * d1, np.diag(w * d2)
        lim_g = 1e-9 * np.abs(d1)
        lim_h = np.diag(1e-9 * np.abs(d1))
        if np.isfinite(lb) and np.isfinite(ub):
            # Saturated derivatives may round to zero.
            lim_g = lim_g + 1e-14 * scale
            lim_h = lim_h + 1e-14 * scale
    else:
        k = spec['size']
        z = x.reshape(-1, k - 1)
        z = np.concatenate([np.zeros((len(z), 1)), z], axis=1)
        ez = np.exp(z - z.max(axis=1, keepdims=True))
        q = ez / ez.sum(axis=1, keepdims=True)
        ww = w.reshape(-1, k)
        for i in range(len(z)):
            jac = np.diag(q[i]) - np.outer(q[i], q[i])
            blk = slice(i * (k - 1), (i + 1) * (k - 1))
            g[blk] = (jac @ ww[i])[1:]
            c = jac @ ww[i]
            hess = np.diag(c) - np.outer(c, q[i]) - np.outer(q[i], c)
            h[blk, blk] = hess[1:, 1:]
        lim_g, lim_h = 1e-12, 1e-12
    rec.nt(n > 1 and np.abs(x).max() > 20)
    if not np.isfinite(g).all():
        return
    got = np.asarray(autograd.grad(f)(x))
    check((np.abs(got - g) <= lim_g).all(), 'gradient {} instead of {} at {}',
          got, g, x)
    got = np.asarray(autograd.hessian(f)(x))
    check((np.abs(got - h) <= lim_h).all(), 'Hessian {} instead of {} at {}',
          got, h, x)
    got = float(make_jvp(f)(x)(v)[1])
    check(abs(got - g @ v) <= np.sum(lim_g * np.ones(n)) + 1e-12 * np.abs(
        g * v).sum(), 'forward mode {} instead of {}', got, g @ v)
    got = np.asarray(autograd.hessian_vector_product(f)(x, v))
    check((np.abs(got - h @ v) <= (lim_h * np.ones((n, n))).sum(axis=1) +
           1e-12 * np.abs(h) @ np.abs(v)).all(),
          'Hessian vector product {} instead of {}', got, h @ v)


def run_several(case, rec):
    """Wrappers of several arguments or returned values, in any order and
    with others in between, against the same composition by hand."""
    import autograd
    import autograd.numpy as np_
    import paragami
    from autograd.differential_operators import make_jvp
    kind, seed = case['kind'], case['w']
    specs, pats, xs, funs, vals = [], [], [], [], []
    for i, slot in enumerate(case['slots']):
        si = gen.subseed(seed, 50 + i)
        fill = dict(slot['fill'], e=0, o=0)
        if not slot['on']:
            specs.append(None)
            pats.append(None)
            xs.append(ad.rnd(si, 1, (1 + si % 3,)))
            funs.append(lambda v, k=i: np_.sum(np_.sin((k + 1.) * v)))
            vals.append(xs[-1])
            continue
        spec = unvalidated(slot['spec'])
        p = gen.build(spec)
        x = gen.free_vector(spec, fill)
        val = p.fold(x, free=True)
        if not slot['free']:
            x = np.asarray(gen.ref_flatten(spec, val), dtype=float)
        specs.append(spec)
        pats.append(p)
        xs.append(np.asarray(x, dtype=float))
        vals.append(val)
        funs.append(smooth(spec, si, val))
    on = [i for i, p in enumerate(pats) if p is not None]
    if not on or not sum(x.size for x in xs):
        return
    order = [on[k] for k in np.argsort(
        gen.uniform(gen.subseed(seed, 1), len(on)))]
    frees = [case['slots'][i]['free'] for i in order]
    chosen = [pats[i] for i in order]
    off = np.cumsum([0] + [x.size for x in xs])
    rec.label(kind, 'patterns:%d' % len(on), 'others:%d' % (
        len(xs) - len(on)))
    if order != sorted(order):
        rec.label('unsorted')
    if on and on[-1] > len(on) - 1:
        rec.label('gaps')
    rec.nt(len(on) > 1)

    def split(z):
        return [z[off[i]:off[i + 1]] for i in range(len(xs))]

    def total(*args, **kw):
        t = [fn(a) for fn, a in zip(funs, args)]
        lin = sum((0.7 + 0.2 * k) * v for k, v in enumerate(t))
        return sum(t) + 0.5 * np_.sin(lin) + kw.get('k', 0.)

    def fold(parts):
        return tuple(
            x if p is None else p.fold(x, free=s['free'])
            for x, p, s in zip(parts, pats, case['slots']))

    def flat_total(outs, other):
        t = 0.
        for i, a in enumerate(outs):
            if pats[i] is not None:
                a = a / scales[other][i]
            c = ad.rnd(seed, 70 + i, np.shape(a))
            t = t + np_.sum(c * np_.sin((1. + 0.3 * i) * a))
        return t + 0.5 * t ** 2
    scales = {}
    if kind == 'input':
        wrapped = paragami.FlattenFunctionInput(total, chosen, frees, order)

        def f(z):
            return wrapped(*split(z), k=1.5)

        def ref(z):
            return total(*fold(split(z)), k=1.5)
    elif kind == 'fold output':
        wrapped = paragami.FoldFunctionOutput(
            lambda z: tuple(split(z)), chosen, frees, order)

        def f(z):
            return total(*wrapped(z))

        def ref(z):
            return total(*fold(split(z)))
    else:
        # The flat values returned are in the other parameterization when
        # case['flip'].
        frees2 = [bool(a) != case['flip'] for a in frees]
        for other in (0,):
            scales[other] = [
                None if p is None else max(1., float(np.abs(p.flatten(
                    v, free=bool(s['free']) != case['flip'])).max(initial=0)))
                for p, v, s in zip(pats, vals, case['slots'])]
        if kind == 'flatten output':
            wrapped = paragami.FlattenFunctionOutput(
                lambda z: fold(split(z)), chosen, frees2, order)

            def f(z):
                return flat_total(wrapped(z), 0)
        else:
            wrapped = paragami.FlattenFunctionInputAndOutput(
                lambda *args: args, chosen, frees, order,
                chosen[::-1], frees2[::-1], order[::-1])

            def f(z):
                return flat_total(wrapped(*split(z)), 0)

        def ref(z):
            return flat_total(
                [x if p is None else p.flatten(
                    x, free=bool(s['free']) != case['flip'])
                 for x, p, s in zip(fold(split(z)), pats, case['slots'])], 0)
    z = np.concatenate(xs)
    v = ad.rnd(seed, 2, z.shape)
    w = ad.rnd(seed, 3, z.shape)
    ad.near(f(z), ref(z), 1., kind + ': value')
    ad.near(autograd.grad(f)(z), autograd.grad(ref)(z), 1., kind + ': gradient')
    # autograd has no forward mode of the Cholesky decomposition.
    if kind in ('input', 'fold output') or not any(
            'psd' in gen.kinds(s) for s in specs if s is not None):
        rec.label('forward')
        ad.near(make_jvp(f)(z)(v)[1], make_jvp(ref)(z)(v)[1], 1.,
                kind + ': forward derivative')
        ad.near(make_jvp(autograd.grad(f))(z)(v)[1],
                make_jvp(autograd.grad(ref))(z)(v)[1], 1.,
                kind + ': forward over reverse')
    ad.near(autograd.hessian_vector_product(f)(z, w),
            autograd.hessian_vector_product(ref)(z, w), 1.,
            kind + ': Hessian vector product')
    # In one argument alone, as argnum selects it.
    i = seed % len(xs)
    if kind == 'input' and xs[i].size:
        one = autograd.grad(wrapped, i)(*xs, k=1.5)
        ad.near(one, autograd.grad(ref)(z)[off[i]:off[i + 1]], 1.,
                'gradient in argument {}'.format(i))
        two = autograd.jacobian(autograd.grad(wrapped, i), i)(*xs, k=1.5)
        want = autograd.hessian(ref)(z)[off[i]:off[i + 1], off[i]:off[i + 1]]
        ad.near(two, want, 1., 'Hessian in argument {}'.format(i))


ANY = st.one_of(gen.leaf_specs(psd_big=False),
                gen.parr_specs(max_total=12),
                gen.dict_specs(depth_left=2, max_items=4, max_total=24),
                gen.dict_specs(depth_left=1, max_items=4, max_total=24))
# Matrices large enough for every part of the triangular layout.
MATRIX = st.fixed_dictionaries({
    'k': st.just('psd'), 'size': st.sampled_from([4, 4, 5]),
    'diag_lb': st.sampled_from([None, 0.5]), 'dv': gen.dvs(),
    'fd': gen.fds()})

PROP = Prop(
    'C18',
    'A case is a generated pattern, interior point, and smooth function '
    'coupling all entries.  flattened: gradient, Hessian, forward mode and '
    'Hessian-vector products of the flattened function against seven-point '
    'numerical derivatives, free and not.  folded: first and second '
    'derivatives along constraint-preserving directions of functions of the '
    'flat vector.  extremes: closed-form derivatives far from the origin.  '
    'reparam: Jacobians of fold-then-flatten.  extremes: closed-form '
    'derivatives far from the origin.  Non-trivial: '
    'more than one entry.',
    [Sub('flattened', st.fixed_dictionaries(
        {'spec': st.one_of(*([small(ANY, 9)] * 7 + [MATRIX])),
         'fill': gen.fills(),
         'free': st.sampled_from([True, False, True, True]),
         'w': gen.seeds, 'arg': st.integers(0, 2), 'explicit': st.booleans(),
         'hess': st.sampled_from([True, True, False]),
         'keep_validation': st.booleans()}),
        run_flattened, 1200),
     Sub('several', st.fixed_dictionaries(
         {'slots': st.lists(st.fixed_dictionaries(
             {'spec': small(ANY, 5), 'fill': gen.fills(),
              'free': st.sampled_from([True, True, False]),
              'on': st.sampled_from([True, True, True, False])}),
             min_size=1, max_size=5),
          'kind': st.sampled_from(['input', 'input', 'fold output',
                                   'flatten output', 'both']),
          'flip': st.booleans(), 'w': gen.seeds}), run_several, 800),
     Sub('folded', st.fixed_dictionaries(
         {'spec': st.one_of(*([small(gen.array_specs(), 12)] * 7 + [MATRIX])),
         'fill': gen.fills(),
          'free': st.sampled_from([True, True, False]), 'w': gen.seeds}),
         run_folded, 1200),
     Sub('reparam', st.fixed_dictionaries(
         {'spec': small(ANY, 16), 'fill': gen.fills(), 'w': gen.seeds}),
         run_reparam, 800),
     Sub('extremes', st.fixed_dictionaries(
         {'spec': small(st.one_of(gen.num_specs(zero=False),
                                  gen.sim_specs()), 20), 's': gen.seeds,
          'mag': st.sampled_from([5., 30., 40., 300., 700., 1000., 1e5])}),
         run_extremes, 1600)],
    ['Differentiating with respect to constrained (non-free) values needs '
     'value validation to be off, as the validity of a traced value cannot '
     'be decided.', 'Numerical derivatives are accurate to about 1e-7 '
     'relative.'])
