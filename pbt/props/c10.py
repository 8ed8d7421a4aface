"""C10: log determinants agree with the Jacobians."""
import autograd
import numpy as np
from hypothesis import strategies as st
from .. import fd, gen
from ..core import Prop, Sub, check
from .c09 import small

NUM = gen.num_specs()
NUM_DICT = gen.dict_specs(depth_left=3, leaf=gen.num_specs(), parr=False)


def run_types(case, rec):
    """Integer entries count as the real numbers they are."""
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec, gen.other_numbers if case['cv'] else gen.plain)
    val, hit = gen.integers(spec, case['s'], case['t'])
    rec.nt(hit > 0)
    rec.label('type:' + case['t'])
    ref = gen.floats(val)
    for f in (p.log_abs_det_freeing_jacobian,
              p.log_abs_det_unfreeing_jacobian):
        a, b = float(f(val)), float(f(ref))
        check(abs(a - b) <= 1e-9 * (1 + abs(b)), '{} of {} is {} instead of '
              '{}', f.__name__, val, a, b)


def run_values(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    make = gen.extreme_interior if case.get('extreme') else gen.interior
    rec.label('extreme' if case.get('extreme') else 'moderate')
    val = make(spec, case['fill'])
    n = gen.flat_len(spec, False)
    rec.nt(n > 0)
    arg = val
    if case['aslist'] and gen.is_num(spec) and n:
        arg = np.asarray(val).tolist()
    lf = p.log_abs_det_freeing_jacobian(arg)
    lu = p.log_abs_det_unfreeing_jacobian(arg)
    check(np.ndim(lf) == 0 and np.ndim(lu) == 0, 'not scalars: {} {}', lf, lu)
    jf = gen.dense(p.freeing_jacobian(val))
    ju = gen.dense(p.unfreeing_jacobian(val))
    # The Jacobians of numeric arrays are diagonal; avoid overflowing
    # determinants by summing logs of the diagonal of a diagonal matrix.
    check(jf.shape == (n, n) and ju.shape == (n, n), 'shape')
    df = np.linalg.slogdet(jf)[1] if n else 0.
    du = np.linalg.slogdet(ju)[1] if n else 0.
    # Relative error of distances to bounds.
    slack = 1e-9 * (1 + np.sum(np.abs(np.log(np.abs(np.diag(jf))))))
    for path, s, _, _ in gen.leaves(spec):
        v = np.asarray(gen.at(val, path), dtype=float)
        for b in (gen.lb_of(s), gen.ub_of(s)):
            if np.isfinite(b) and v.size:
                slack += 64 * gen.EPS * np.sum(
                    (np.abs(v) + abs(b)) / np.abs(v - b))
    check(abs(lf - df) <= slack, 'log|det freeing| {} != {}', lf, df)
    check(abs(lu - du) <= slack, 'log|det unfreeing| {} != {}', lu, du)
    check(abs(lf + lu) <= slack, '{} and {} are not negatives', lf, lu)
    # A numerical derivative, independent of the pattern's Jacobians.
    if 0 < n <= 8 and not case.get('extreme'):
        free = p.flatten(val, free=True)
        x = np.asarray(free, dtype=float)

        def unfree(x):
            return p.flatten(p.fold(x, free=True), free=False)
        num = fd.jacobian(unfree, x)
        d = np.diag(num)
        good = np.abs(d) > 1e6 * fd.noise(np.abs(gen.ref_flatten(spec, val)) +
                                          1e-300)
        bs = [abs(float(b)) for _, s, _, _ in gen.leaves(spec)
              for b in (gen.lb_of(s), gen.ub_of(s)) if np.isfinite(b)]
        good &= np.abs(d) > 1e6 * fd.noise(max(bs + [0.]))
        if good.all():
            rec.label('numerical')
            want = np.sum(np.log(np.abs(d)))
            check(abs(lu - want) <= 1e-4 * n + slack,
                  'log|det unfreeing| {} != numerical {}', lu, want)


def run_gradient(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    fill = dict(case['fill'], e=min(0, case['fill']['e']), i=False)
    x = gen.free_vector(spec, fill)
    v = 2 * gen.uniform(gen.subseed(case['fill']['s'], 5), x.size) - 1
    rec.nt(x.size > 0)
    if x.size == 0:
        return
    for name in ('log_abs_det_freeing_jacobian',
                 'log_abs_det_unfreeing_jacobian'):
        def f(y):
            return getattr(p, name)(p.fold(y, free=True))
        g = autograd.grad(f)(x)
        check(g.shape == x.shape, 'gradient shape {}', g.shape)
        want = fd.directional(f, x, v)
        # Rounding of distances to the bounds.
        val = gen.ref_flatten(spec, p.fold(x, free=True))
        jac = np.abs(np.diag(gen.dense(
            p.unfreeing_jacobian(p.fold(x, free=True)))))
        bs = np.zeros(x.size)
        for path, s, off, _ in gen.leaves(spec):
            m = gen.flat_len(s, False)
            bs[off:off + m] = sum(abs(float(b)) for b in (
                gen.lb_of(s), gen.ub_of(s)) if np.isfinite(b))
        with np.errstate(all='ignore'):
            noise = np.sum(fd.noise((np.abs(val) + bs) / jac *
                                    (bs > 0)))
        err = abs(np.sum(g * v) - want)
        check(err <= 1e-6 * (1 + np.abs(g).sum()) + noise,
              'derivative of {}: {} != {}', name, np.sum(g * v), want)
    if not gen.is_num(spec):
        return
    # With respect to the folded value itself.
    val = np.asarray(gen.interior(spec, fill), dtype=float)
    room = np.minimum(np.minimum(np.abs(val - gen.lb_of(spec)),
                                 np.abs(gen.ub_of(spec) - val)), 1.)
    d = v.reshape(val.shape) * room * 0.02
    for name in ('log_abs_det_freeing_jacobian',
                 'log_abs_det_unfreeing_jacobian'):
        f = getattr(p, name)
        g = autograd.grad(f)(val)
        want = fd.directional(f, val, d, h=1.0)
        got = np.sum(g * d)
        b = sum(abs(float(b)) for b in (gen.lb_of(spec), gen.ub_of(spec))
                if np.isfinite(b))
        noise = 64 * gen.EPS * np.sum((np.abs(val) + b) / room + 10)
        check(abs(got - want) <= 1e-6 * np.sum(np.abs(g * d)) + noise + 1e-9,
              'derivative of {} in the folded value: {} != {}', name, got,
              want)


PROP = Prop(
    'C10',
    'A case is a generated numeric array configuration, or a nested '
    'dictionary of them, and an interior value.  values: against slogdet of '
    'the dense Jacobians and (small cases) of a numerical Jacobian.  '
    'gradient: reverse-mode derivatives against numerical ones, through the '
    'free vector and directly.  Non-trivial: at least one entry.',
    [Sub('big', st.fixed_dictionaries(
        {'spec': gen.big_specs(['num']), 'fill': gen.fills(),
         'extreme': st.just(False), 'aslist': st.booleans()}), run_values, 1280),
     Sub('values', st.fixed_dictionaries(
        {'spec': st.one_of(NUM, NUM_DICT), 'fill': gen.fills(),
         'extreme': st.sampled_from([False, False, True]),
         'aslist': st.booleans()}), run_values, 6400),
     Sub('types', gen.type_cases(st.one_of(NUM, NUM, NUM_DICT)), run_types,
         1600),
     Sub('gradient', st.fixed_dictionaries(
         {'spec': small(st.one_of(NUM, NUM_DICT), 12),
          'fill': gen.fills()}), run_gradient, 3200)])
