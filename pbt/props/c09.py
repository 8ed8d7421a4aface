"""C09: Jacobians are the true derivatives of the freeing transforms."""
import numpy as np
import scipy.linalg
import scipy.sparse
from hypothesis import strategies as st
from .. import fd, gen
from ..core import Prop, Sub, check


def get_both(f, val, shape, what):
    """The sparse (default and explicit) and dense results; returns dense."""
    d = f(val, sparse=False)
    check(type(d) is np.ndarray, 'dense {} is a {}', what, type(d))
    check(d.shape == shape, 'dense {} has shape {}, expected {}', what,
          d.shape, shape)
    for s in (f(val), f(val, sparse=True)):
        check(scipy.sparse.issparse(s), 'sparse {} is a {}', what, type(s))
        check(s.shape == shape, 'sparse {} has shape {}, expected {}', what,
              s.shape, shape)
        check(gen.nearly(s.toarray(), d), 'sparse and dense {} differ', what)
    return d


def run_types(case, rec):
    """Integer entries count as the real numbers they are."""
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec, gen.other_numbers if case['cv'] else gen.plain)
    val, hit = gen.integers(spec, case['s'], case['t'])
    rec.nt(hit > 0)
    rec.label('type:' + case['t'])
    ref = gen.floats(val)
    nf, n = gen.flat_len(spec, True), gen.flat_len(spec, False)
    for f, shape in ((p.freeing_jacobian, (nf, n)),
                     (p.unfreeing_jacobian, (n, nf))):
        a, b = get_both(f, val, shape, f.__name__), gen.dense(f(ref))
        check(gen.nearly(a, b), '{} of {} is {} instead of {}', f.__name__,
              val, a, b)


def run_derivative(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    free = gen.free_vector(spec, case['fill'])
    val = p.fold(free, free=True)
    nf, n = gen.flat_len(spec, True), gen.flat_len(spec, False)
    rec.nt(nf > 0 and n > 1)
    arg = val
    if case['aslist'] and gen.is_num(spec) and n:
        arg = np.asarray(val).tolist()
    ju = get_both(p.unfreeing_jacobian, arg, (n, nf), 'unfreeing Jacobian')
    jf = get_both(p.freeing_jacobian, arg, (nf, n), 'freeing Jacobian')
    if nf == 0:
        return

    # Derivative of free -> flat, leaf by leaf (entries of different leaves
    # do not interact), numerically through the whole pattern.
    def unfree(x):
        return np.asarray(p.flatten(
            p.fold(x, free=True, validate_value=False), free=False,
            validate_value=False), dtype=float)
    want = fd.jacobian(unfree, free)
    flat = unfree(free)
    # Rounding noise per row, and truncation per entry scale.
    noise = fd.noise(np.abs(flat) + 1e-300) [:, None] + \
        1e-7 * np.abs(want).max(axis=1, keepdims=True)
    bscale = np.zeros(n)
    for path, s, off, _ in gen.leaves(spec):
        if gen.is_num(s):
            m = max([abs(float(b)) for b in (gen.lb_of(s), gen.ub_of(s))
                     if np.isfinite(b)] + [0.])
            bscale[off:off + gen.flat_len(s, False)] = m
        elif s['k'] == 'psd':
            k = gen.flat_len(s, False)
            bscale[off:off + k] = np.abs(flat[off:off + k]).max()
    noise = noise + fd.noise(bscale)[:, None]
    bad = ~(np.abs(ju - want) <= noise)
    check(not bad.any(), 'unfreeing Jacobian differs from the numerical '
          'derivative at {}: {} != {}', np.argwhere(bad)[:2].tolist(),
          ju[bad][:3], want[bad][:3])

    # The inverse map's Jacobian is a left inverse.
    prod = jf @ ju
    scale = np.abs(jf) @ np.abs(ju)
    tol = 1e-8 * np.maximum(1, scale)
    # Relative error of distances to a bound.
    for path, s, off, foff in gen.leaves(spec):
        if gen.is_num(s) and (np.isfinite(gen.lb_of(s)) or
                              np.isfinite(gen.ub_of(s))):
            m = gen.flat_len(s, False)
            if m == 0:
                continue
            v = np.asarray(gen.at(val, path), dtype=float).reshape(-1)
            dist = np.minimum(np.abs(v - gen.lb_of(s)),
                              np.abs(gen.ub_of(s) - v))
            with np.errstate(all='ignore'):
                rel = 64 * gen.EPS * (np.abs(v) + bscale[off]) / dist
            tol[foff:foff + m, foff:foff + m] += np.diag(
                np.where(np.isfinite(rel), rel, np.inf))
    bad = ~(np.abs(prod - np.eye(nf)) <= tol)
    check(not bad.any(), 'freeing times unfreeing Jacobian is not the '
          'identity: {}', prod[bad][:3])


def run_freeing(case, rec):
    """Numeric arrays and simplexes: the freeing Jacobian is the derivative of
    the flattening map in every direction."""
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    val = gen.interior(spec, dict(case['fill'], e=0, i=False))
    flat = np.asarray(gen.ref_flatten(spec, val), dtype=float)
    if flat.size == 0:
        return
    rec.nt(flat.size > 1)
    # A step that stays within the constraints, entry by entry.
    room = np.empty(flat.size)
    for path, s, off, _ in gen.leaves(spec):
        m = gen.flat_len(s, False)
        v = flat[off:off + m]
        if gen.is_num(s):
            room[off:off + m] = np.minimum(
                np.minimum(v - gen.lb_of(s), gen.ub_of(s) - v), 1.)
        else:
            room[off:off + m] = v
    h = 0.01 * room

    def freeing(x):
        folded = p.fold(x, free=False, validate_value=False)
        return np.asarray(p.flatten(folded, free=True, validate_value=False),
                          dtype=float)
    want = np.zeros((gen.flat_len(spec, True), flat.size))
    for i in range(flat.size):
        v = np.zeros(flat.size)
        v[i] = h[i]
        want[:, i] = fd.directional(freeing, flat, v, h=1.0) / h[i]
    got = gen.dense(p.freeing_jacobian(val))
    check(got.shape == want.shape, 'shape {} != {}', got.shape, want.shape)
    base = np.abs(freeing(flat))
    noise = 64 * gen.EPS * (base[:, None] + 10) / h[None, :] + \
        1e-6 * np.abs(want).max(axis=0, keepdims=True) + \
        64 * gen.EPS * np.abs(flat)[None, :] / (h * room)[None, :]
    bad = ~(np.abs(got - want) <= noise)
    check(not bad.any(), 'freeing Jacobian differs from the numerical '
          'derivative at {}: {} != {}', np.argwhere(bad)[:2].tolist(),
          got[bad][:3], want[bad][:3])


def run_blocks(case, rec):
    """Containers give the block diagonal of their members' Jacobians."""
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    val = gen.interior(spec, case['fill'])
    ls = gen.leaves(spec)
    rec.nt(len(ls) > 1)
    n, nf = gen.flat_len(spec, False), gen.flat_len(spec, True)
    for name, shape in (('freeing_jacobian', (nf, n)),
                        ('unfreeing_jacobian', (n, nf))):
        want = np.zeros(shape)
        for path, s, off, foff in ls:
            m = gen.build(s)
            b = gen.dense(getattr(m, name)(np.array(gen.at(val, path))))
            if name == 'freeing_jacobian':
                want[foff:foff + b.shape[0], off:off + b.shape[1]] = b
            else:
                want[off:off + b.shape[0], foff:foff + b.shape[1]] = b
        got = get_both(getattr(p, name), val, shape, name)
        ok = np.abs(got - want) <= 1e-9 * np.abs(want) + \
            1e-11 * np.abs(want).max(initial=0) * (want != 0)
        # Matrix members: their zero entries are only zero up to rounding.
        for path, s, off, foff in ls:
            if s['k'] == 'psd':
                a, b = slice(foff, foff + gen.flat_len(s, True)), \
                    slice(off, off + gen.flat_len(s, False))
                if name != 'freeing_jacobian':
                    a, b = b, a
                blk = want[a, b]
                ok[a, b] = np.abs(got[a, b] - blk) <= \
                    1e-9 * np.abs(blk).max()
        check(ok.all(), '{} is not the block diagonal of the members', name)


def run_extremes(case, rec):
    """At extreme scales the freeing Jacobian times the unfreeing Jacobian is
    still the identity, up to rounding in each entry's own scale."""
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    val = gen.extreme_interior(spec, case['fill'])
    nf, n = gen.flat_len(spec, True), gen.flat_len(spec, False)
    rec.nt(nf > 0 and n > 1)
    if nf == 0:
        return
    # The natural scale of each flat entry, and the relative accuracy with
    # which its distance to the bound is known.
    unit, extra = np.ones(n), np.zeros(n)
    for path, s, off, foff in gen.leaves(spec):
        m = gen.flat_len(s, False)
        v = np.asarray(gen.at(val, path), dtype=float).reshape(-1)
        if s['k'] == 'psd':
            d = np.sqrt(np.diag(v.reshape(gen.shape_of(s))) -
                        gen.diag_lb_of(s))
            unit[off:off + m] = np.outer(d, d).reshape(-1)
        elif s['k'] == 'sim':
            unit[off:off + m] = v
        else:
            u, e = np.full(m, gen.INF), np.zeros(m)
            for b in (float(gen.lb_of(s)), float(gen.ub_of(s))):
                if np.isfinite(b):
                    dist = np.abs(v - b)
                    u = np.minimum(u, dist)
                    e = np.maximum(e, 64 * gen.EPS *
                                   (np.abs(v) + abs(b)) / dist)
            unit[off:off + m] = np.where(np.isfinite(u), u, 1.)
            extra[foff:foff + m] = e
    mats = []
    for sparse in (None, True, False):
        kw = {} if sparse is None else {'sparse': sparse}
        jf = gen.dense(p.freeing_jacobian(val, **kw))
        ju = gen.dense(p.unfreeing_jacobian(val, **kw))
        check(jf.shape == (nf, n) and ju.shape == (n, nf), 'shapes')
        check(np.isfinite(jf).all() and np.isfinite(ju).all(), 'not finite')
        # In natural units.
        a, b = jf * unit[None, :], ju / unit[:, None]
        prod = a @ b
        r, c = np.abs(a).max(axis=1), np.abs(b).max(axis=0)
        tol = 1e-9 * n * np.outer(r, c) + np.diag(extra[:nf])
        bad = ~(np.abs(prod - np.eye(nf)) <= tol)
        check(not bad.any(), 'freeing times unfreeing Jacobian (sparse={}) '
              'is not the identity at {}: {}', sparse,
              np.argwhere(bad)[:2].tolist(), prod[bad][:3])
        mats.append((a, b))
    for a, b in mats[1:]:
        for x, y in ((mats[0][0], a), (mats[0][1], b)):
            check((np.abs(x - y) <= 1e-9 * np.abs(x).max()).all(),
                  'sparse and dense Jacobians differ')


SMALL_PSD = gen.psd_specs(max_n=4, big=False)
SMALL = st.one_of(gen.num_specs(), gen.num_specs(), SMALL_PSD, gen.sim_specs())


@st.composite
def small(draw, strat, limit):
    """A spec with a limited number of entries (numerical derivatives)."""
    s = draw(strat)
    return shrink_spec(s, limit)


def shrink_spec(s, limit):
    s = dict(s)
    if s['k'] == 'arr':
        while gen.size(s['shape']) > limit and len(s['shape']) > 1:
            s['shape'] = s['shape'][:-1]
        if gen.size(s['shape']) > limit:
            s['shape'] = [limit]
    elif s['k'] == 'vec':
        s['length'] = min(s['length'], limit)
    elif s['k'] == 'sca':
        pass
    elif s['k'] == 'psd':
        while s['size'] > 1 and s['size'] ** 2 > limit:
            s['size'] -= 1
    elif s['k'] in ('sim', 'parr'):
        s['ashape'] = list(s['ashape'])
        while len(s['ashape']) > 0 and gen.flat_len(s, False) > limit and \
                gen.size(s['ashape']) > 1:
            i = int(np.argmax(s['ashape']))
            s['ashape'][i] -= 1
        if s['k'] == 'sim':
            s['size'] = max(2, min(s['size'], limit))
        elif gen.flat_len(s, False) > limit:
            s['base'] = shrink_spec(s['base'], limit)
    else:
        items = []
        left = limit
        for n, x in s['items']:
            if left <= 0:
                break
            x = shrink_spec(x, left)
            items.append([n, x])
            left -= gen.flat_len(x, False)
        s['items'] = items
    return s


PROP = Prop(
    'C09',
    'A case is a generated pattern and interior point.  derivative: the '
    'unfreeing Jacobian against seven-point numerical derivatives of '
    'fold-then-flatten, and freeing times unfreeing against the identity.  '
    'freeing: numeric arrays and simplexes, every direction, against '
    'numerical derivatives of flatten.  blocks: containers against their '
    'members.  extremes: the identity at extreme scales (next to bounds, '
    'badly scaled matrices, tiny simplex entries).  Sparse (default, explicit) and dense forms are compared '
    'throughout.  Non-trivial: more than one flat entry; more than one '
    'member (blocks).',
    [Sub('big', st.fixed_dictionaries(
        {'spec': gen.big_specs(
            ['parr', 'dict', 'long', 'deep', 'parr', 'sim'], limit=160), 'fill': gen.fills()}), run_blocks, 640),
     Sub('derivative', st.fixed_dictionaries(
        {'spec': small(st.one_of(SMALL, SMALL, gen.parr_specs(),
                                 gen.dict_specs(depth_left=2)), 24),
         'fill': gen.fills(), 'aslist': st.booleans()}),
        run_derivative, 2400),
     Sub('freeing', st.fixed_dictionaries(
         {'spec': small(st.one_of(
             gen.num_specs(), gen.sim_specs(),
             gen.parr_specs(base=st.one_of(gen.num_specs(zero=False),
                                           gen.sim_specs()))), 24),
          'fill': gen.fills()}), run_freeing, 2400),
     Sub('blocks', st.fixed_dictionaries(
         {'spec': st.one_of(gen.parr_specs(), gen.dict_specs(depth_left=3)),
          'fill': gen.fills()}), run_blocks, 1600),
     Sub('types', gen.type_cases(small(st.one_of(
         gen.num_specs(), SMALL, gen.parr_specs(), gen.dict_specs(
             depth_left=2)), 40)), run_types, 1600),
     Sub('extremes', st.fixed_dictionaries(
        {'spec': small(st.one_of(SMALL, SMALL, gen.parr_specs(),
                                 gen.dict_specs(depth_left=2)), 40),
         'fill': gen.fills()}), run_extremes, 1600)],
    ['Off the tangent space of symmetric matrices the freeing Jacobian of a '
     'matrix pattern is a convention and is not checked.'])
