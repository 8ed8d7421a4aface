"""C22: a preconditioned function is the original function in transformed
coordinates."""
import warnings
import numpy as np
import scipy.sparse as sps
import scipy.sparse.linalg
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check, Violation
from .c19 import matrix, related
from .c21 import as_format


class Objective:
    """A smooth function with known derivatives; records its arguments."""
    def __init__(self, n, seed):
        u = 2 * gen.uniform(seed, n * n).reshape(n, n) - 1
        self.q = u + u.T
        self.w = 2 * gen.uniform(gen.subseed(seed, 1), n) - 1
        self.b = 0.5 + gen.uniform(gen.subseed(seed, 2), n)
        self.args = []

    def __call__(self, x):
        import autograd.numpy as np_
        if isinstance(x, np.ndarray):
            self.args.append(np.array(x))
        return 0.5 * np_.dot(x, np_.dot(self.q, x)) + \
            np_.sum(self.w * np_.sin(self.b * x))

    def grad(self, x):
        return self.q @ x + self.w * self.b * np.cos(self.b * x)

    def hessian(self, x):
        return self.q - np.diag(self.w * self.b ** 2 * np.sin(self.b * x))


def near(a, b, scale, what, rel=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    check(isinstance(a, np.ndarray) and a.shape == b.shape,
          '{}: {} of shape {} instead of {}', what, type(a), a.shape, b.shape)
    check((np.abs(a - b) <= rel * (scale + np.abs(b).max(initial=0))).all(),
          '{}: {} instead of {}', what, a, b)


def apply_setting(pf, op, n, last=None):
    """Apply one setting; returns (A, its supplied inverse)."""
    a = matrix(op['s'], n, op['kind']) * 10. ** op['e']
    if op['sparse_zeros'] and op['kind'] in ('dominant', 'negative',
                                             'triangular'):
        keep = gen.uniform(gen.subseed(op['s'], 6), n * n).reshape(n, n) < 0.4
        a = np.where(keep | np.eye(n, dtype=bool), a, 0.)
    if op['like'] and last is not None:
        # Easily taken for the matrix before.
        b = related(last, op['s'])
        if np.linalg.cond(b) < 200:
            a = b
    if gen.subseed(op['s'], 41) % 6 == 0:
        # Integers.
        b = np.round(3 * a / np.abs(a).max()).astype(int)
        if np.linalg.matrix_rank(b) == n and np.linalg.cond(b) < 200:
            a = b
    inv = np.linalg.inv(a)
    how = op['how']
    ws = warnings.catch_warnings()
    ws.__enter__()
    warnings.simplefilter('ignore')
    try:
        if how == 'identity':
            pf.set_identitity_preconditioner()
            return np.eye(n), np.eye(n)
        if how == 'dense':
            pf.set_preconditioner_matrix(a)
        elif how == 'dense inverse':
            if op['pos']:
                pf.set_preconditioner_matrix(a, inv)
            else:
                pf.set_preconditioner_matrix(a, a_inv=inv)
        elif how == 'sparse':
            pf.set_preconditioner_matrix(
                sps.csr_matrix(a) if op['fmt'] == 'csr'
                else sps.csc_matrix(a))
        elif how == 'sparse inverse':
            pf.set_preconditioner_matrix(
                as_format(a, op['fmt']), as_format(inv, op['fmt2']))
        elif how == 'deprecated':
            if op['pos']:
                pf.set_preconditioner(a)
            else:
                pf.set_preconditioner(a, inv)
        elif how == 'functions':
            pf.set_preconditioner_functions(
                lambda v: a @ v, lambda v: inv @ v)
        elif how == 'hessian':
            # The inverse square root of a positive definite matrix.
            h = a @ a.T
            pf.set_preconditioner_with_hessian(hessian=h)
            ev, vec = np.linalg.eigh(0.5 * (h + h.T))
            return (vec / np.sqrt(ev)) @ vec.T, (vec * np.sqrt(ev)) @ vec.T
        elif how == 'sparse functions':
            from paragami.autograd_supplement_lib import \
                get_sparse_product, get_differentiable_solver
            lu = sps.linalg.splu(sps.csc_matrix(a))
            mult, _ = get_sparse_product(sps.csc_matrix(a))
            solve, _ = get_differentiable_solver(
                lu.solve, lambda b: lu.solve(b, 'T'))
            pf.set_preconditioner_functions(mult, solve)
        elif how == 'involution':
            # One function for both.
            if op['kind'] == 'permuted':
                a = np.eye(n)[::-1]
            elif op['kind'] == 'negative':
                a = -np.eye(n)
            else:
                u = 2 * gen.uniform(op['s'], n) - 1
                u[0] += 2
                a = np.eye(n) - 2 * np.outer(u, u) / (u @ u)

            def flip(v):
                return a @ v
            pf.set_preconditioner_functions(flip, flip)
            return a, a
        else:
            # Inverse first: the other way around.
            pf.set_preconditioner_functions(
                a_inv_times=lambda v: a @ v, a_times=lambda v: inv @ v)
            return inv, a
    finally:
        ws.__exit__(None, None, None)
    return a, inv


def verify(pf, f, a, inv, n, seed, deriv):
    import autograd
    y = (2 * gen.uniform(seed, n) - 1) / max(1., np.abs(a).max())
    x = a @ y
    y0 = np.array(y)
    ka = np.abs(a).max() * np.abs(inv).max()
    rel = 1e-10 * max(1., ka / 100)
    near(pf.unprecondition(y), x, 0., 'unprecondition', rel * n)
    near(pf.precondition(x), y, 0., 'precondition', rel * n)
    near(pf.precondition(pf.unprecondition(y)), y, 0., 'there and back',
         rel * n)
    near(pf.unprecondition(pf.precondition(x)), x, 0., 'back and there',
         rel * n)
    near(pf.get_preconditioner(n), a, 0., 'preconditioner', rel)
    near(pf.get_preconditioner_inv(n), inv, 0., 'inverse preconditioner', rel)
    f.args.clear()
    v = pf(y)
    check(len(f.args) == 1, 'original called {} times', len(f.args))
    near(f.args[0], x, 0., 'argument of the original', rel * n)
    want = f(x)
    sc = np.abs(x) @ np.abs(f.q) @ np.abs(x) + n
    check(abs(float(v) - float(want)) <= 1e-8 * sc, 'value {} instead of {}',
          v, want)
    check(np.array_equal(y, y0), 'the argument was modified')
    # The caller reuses its array.
    for shift in (1, 1) if n > 1 else ():
        y[:] = np.roll(y, shift)
        f.args.clear()
        v = pf(y)
        near(f.args[-1], a @ y, 0., 'argument of the original after an '
             'in-place change', rel * n)
        check(abs(float(v) - float(f(a @ y))) <= 1e-8 * sc * n * ka,
              'value {} instead of {} after an in-place change', v, f(a @ y))
        near(pf.precondition(a @ y), y, 0., 'precondition after an in-place '
             'change', rel * n)
    y[:] = y0
    # At any scale.
    big = 10. ** [3, 5, 9, 15, -3, -9, -15][seed % 7]
    f.args.clear()
    v = pf(big * y)
    near(f.args[-1] / big, x, 0., 'argument of the original at scale %g' %
         big, rel * n)
    check(float(v) == float(f(f.args[-1])), 'value {} at scale {}', v, big)
    near(pf.unprecondition(big * y) / big, x, 0., 'unprecondition at scale',
         rel * n)
    near(pf.precondition(big * x) / big, y, 0., 'precondition at scale',
         rel * n)
    if deriv:
        g = a.T @ f.grad(x)
        gs = float((np.abs(a).T @ (np.abs(f.q) @ np.abs(x) + 2)).max())
        near(autograd.grad(pf)(y), g, gs, 'gradient')
        h = a.T @ f.hessian(x) @ a
        hs = float((np.abs(a).T @ (np.abs(f.q) + 4 * np.eye(n)) @
                    np.abs(a)).max())
        near(autograd.hessian(pf)(y), h, hs, 'Hessian')
        w = 2 * gen.uniform(gen.subseed(seed, 4), n) - 1
        near(autograd.hessian_vector_product(pf)(y, w), h @ w, hs * n,
             'Hessian vector product')
    f.args.clear()


def run(case, rec):
    import paragami
    n = case['n']
    objs = []
    for k in range(case['objects']):
        f = Objective(n, gen.subseed(case['s'], k))
        pf = paragami.PreconditionedFunction(f)
        objs.append([pf, f, np.eye(n), np.eye(n)])
    rec.nt(n > 1 and len(case['ops']) > 1)
    rec.label('n:%d' % n, 'objects:%d' % len(objs))
    for o in objs:
        verify(o[0], o[1], o[2], o[3], n, case['s'], False)
    for i, op in enumerate(case['ops']):
        o = objs[op['obj'] % len(objs)]
        rec.label(op['how'])
        if op['how'] == 'rejected':
            x, h = np.ones(n), np.eye(n)
            bad = [((), ValueError),
                   ({'x': x, 'hessian': h}, ValueError),
                   ({'hessian': sps.csc_matrix(h)}, NotImplementedError)][
                       op['s'] % 3]
            try:
                o[0].set_preconditioner_with_hessian(**dict(bad[0]))
            except bad[1]:
                pass
            else:
                raise Violation('set_preconditioner_with_hessian({}) was '
                                'accepted'.format(bad[0]))
        else:
            o[2], o[3] = apply_setting(
                o[0], op, n, objs[(op['obj'] + op['s'] % 2) %
                                  len(objs)][2])
            v = 2 * gen.uniform(op['s'], n) - 1
            v = v * min(1., 1e3 / (np.abs(o[2]).max() * np.abs(o[3]).max()))
            o[0].check_preconditioner(v)
        # The setting is also in force on every later call, and only here.
        for p in objs:
            verify(p[0], p[1], p[2], p[3], n, gen.subseed(case['s'], 50 + i),
                   op['deriv'] and (p is o))


def run_check(case, rec):
    """The consistency check: a perturbed inverse."""
    import paragami
    n = case['n']
    a = matrix(case['s'], n, case['kind'])
    inv = np.linalg.inv(a)
    vec = (2 * gen.uniform(gen.subseed(case['s'], 1), n) - 1) * \
        10. ** case['e']
    if case['mode'] == 'scaled':
        err = case['delta'] * np.eye(n)
    elif case['mode'] == 'one direction':
        u = np.zeros(n)
        u[case['s'] % n] = 1.
        err = case['delta'] * np.outer(u, u)
    elif case['mode'] == 'blind':
        # Wrong, but not at the given vector.
        u = 2 * gen.uniform(gen.subseed(case['s'], 2), n) - 1
        u = u - vec * (u @ vec) / (vec @ vec)
        err = case['delta'] * np.outer(np.ones(n), u)
    else:
        err = np.zeros((n, n))
    wrong = inv @ (np.eye(n) + err)
    pf = paragami.PreconditionedFunction(lambda x: np.sum(x))
    how = case['how']
    if how == 'matrix':
        pf.set_preconditioner_matrix(a, wrong)
    elif how == 'sparse':
        pf.set_preconditioner_matrix(sps.csc_matrix(a), sps.csr_matrix(wrong))
    elif how == 'deprecated':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            pf.set_preconditioner(a, wrong)
    else:
        pf.set_preconditioner_functions(lambda v: a @ v, lambda v: wrong @ v)
    residual = float(np.linalg.norm(err @ vec))
    noise = 1e-13 * n * n * float(
        np.linalg.norm(vec) * np.abs(a).max() * np.abs(wrong).max() * n)
    tol = case['tol'] if case['tol'] is not None else 1e-8
    if case['near']:
        # A tolerance just above or below the error.
        tol = residual * (1.01 if case['near'] == 'above' else 0.99)
    if residual - noise > tol:
        want = True
    elif residual + noise < tol:
        want = False
    else:
        return
    rec.label(case['mode'], how, 'raises' if want else 'passes')
    rec.nt(n > 1)
    kw = {} if case['tol'] is None and not case['near'] else {'tol': tol}
    v0 = np.array(vec)
    try:
        pf.check_preconditioner(vec, **kw)
    except ValueError:
        check(want, 'raised with error {} within tolerance {}', residual, tol)
    else:
        check(not want, 'passed with error {} above tolerance {}', residual,
              tol)
    check(np.array_equal(vec, v0), 'the vector was modified')


def run_scales(case, rec):
    """Badly scaled preconditioners, entry by entry."""
    import autograd
    import paragami
    n, s = case['n'], case['s']
    e1, e2 = case['e']
    d1 = 10. ** (e1 * (2 * gen.uniform(gen.subseed(s, 1), n) - 1))
    d2 = 10. ** (e2 * (2 * gen.uniform(gen.subseed(s, 2), n) - 1))
    base = matrix(s, n, case['kind'])
    if case['monomial']:
        # One entry per row, with an obvious inverse.
        perm = np.argsort(gen.uniform(gen.subseed(s, 3), n))
        base = np.diag(np.diag(base))[perm]
        inv = np.zeros((n, n))
        i, j = np.nonzero(base)
        inv[j, i] = 1 / base[i, j] / d1[i] / d2[j]
    else:
        keep = gen.uniform(gen.subseed(s, 4), n * n).reshape(n, n) < 0.5
        inv = np.linalg.inv(base) / d2[:, None] / d1
        if case['kind'] != 'orthogonal' and case['zeros']:
            # Not the inverse any more, which is for the user to ensure.
            base = np.where(keep, base, 0.)
    a = d1[:, None] * base * d2
    f = Objective(n, gen.subseed(s, 5))
    pf = paragami.PreconditionedFunction(f)
    how = case['how']
    rec.label(how, 'monomial' if case['monomial'] else case['kind'])
    given = True
    if how == 'dense':
        pf.set_preconditioner_matrix(a, inv)
    elif how == 'dense alone':
        given = case['monomial']
        if np.abs(a).min(where=a != 0, initial=1.) < 1e-100 or \
                np.abs(a).max() > 1e100 or not case['monomial']:
            return
        pf.set_preconditioner_matrix(a)
    elif how == 'sparse':
        pf.set_preconditioner_matrix(sps.csc_matrix(a), sps.csc_matrix(inv))
    else:
        pf.set_preconditioner_functions(lambda v: a @ v, lambda v: inv @ v)
    rec.nt(n > 1)
    small = np.abs(a[a != 0]).min(initial=1.)
    rec.label('entries below 1e-12' if small < 1e-12 else 'moderate')

    def entries(got, want, size, what):
        got = np.asarray(got)
        check(got.shape == want.shape, '{}: shape {}', what, got.shape)
        check((np.abs(got - want) <= 1e-13 * n * size + 1e-300).all(),
              '{}: {} instead of {}', what, got, want)
    entries(pf.get_preconditioner(n), a, np.abs(a), 'preconditioner')
    entries(pf.get_preconditioner_inv(n), inv, np.abs(inv), 'inverse')
    y = 2 * gen.uniform(gen.subseed(s, 6), n) - 1
    y = y * 10. ** (case['ey'] * gen.uniform(gen.subseed(s, 7), n))
    entries(pf.unprecondition(y), a @ y, np.abs(a) @ np.abs(y),
            'unprecondition')
    entries(pf.precondition(y), inv @ y, np.abs(inv) @ np.abs(y),
            'precondition')
    if np.abs(a @ y).max() < 1e2 and given:
        # Differentiable at this scale, too.
        x = a @ y
        want = a.T @ f.grad(x)
        size = np.abs(a).T @ (np.abs(f.q) @ np.abs(x) + 2) * 1e3 * n
        entries(autograd.grad(pf)(y), want, size, 'gradient')


KINDS = st.sampled_from(['dominant', 'negative', 'permuted', 'spd',
                         'triangular', 'orthogonal'])
OP = st.fixed_dictionaries({
    'how': st.sampled_from(['dense', 'dense inverse', 'sparse',
                            'sparse inverse', 'functions', 'involution',
                            'sparse functions', 'swapped', 'identity',
                            'deprecated', 'rejected', 'hessian']),
    's': gen.seeds, 'kind': KINDS, 'e': st.sampled_from([0, 0, 1, -1, 2, -2]),
    'sparse_zeros': st.booleans(), 'pos': st.booleans(),
    'deriv': st.booleans(), 'like': st.booleans(), 'obj': st.integers(0, 1),
    'fmt': st.sampled_from(['csc', 'csr', 'coo', 'lil']),
    'fmt2': st.sampled_from(['csc', 'csr', 'coo', 'dense'])})

PROP = Prop(
    'C22',
    'history: one or two preconditioned functions and a history of settings '
    'of every kind (and rejected ones), with unrelated matrices or ones easily taken for the last; after each, values, coordinates, '
    'reported matrices, gradients and Hessians against the matrix algebra of '
    'a function with known derivatives.  scales: entries of any magnitude, compared entry by entry.  check: perturbed inverses, with '
    'the error at the vector on either side of the tolerance.  Non-trivial: '
    'dimension above one and at least two settings.',
    [Sub('history', st.fixed_dictionaries(
        {'n': st.sampled_from([1, 2, 2, 3, 4, 5, 7]), 's': gen.seeds,
         'objects': st.integers(1, 2),
         'ops': st.lists(OP, min_size=1, max_size=6)}), run, 2400),
     Sub('history_big', st.fixed_dictionaries(
         {'n': st.sampled_from([9, 12, 16, 20]), 's': gen.seeds,
          'objects': st.integers(1, 2),
          'ops': st.lists(OP, min_size=1, max_size=4)}), run, 960),
     Sub('scales', st.fixed_dictionaries(
         {'n': st.sampled_from([1, 2, 3, 4, 6, 12]), 's': gen.seeds,
          'kind': KINDS, 'monomial': st.booleans(), 'zeros': st.booleans(),
          'e': st.sampled_from([[0, 0], [14, 0], [0, 14], [8, 8], [60, 60],
                                [2, 10]]),
          'ey': st.sampled_from([0, 0, -10, 5]),
          'how': st.sampled_from(['dense', 'dense alone', 'sparse',
                                  'functions'])}), run_scales, 1600),
     Sub('check', st.fixed_dictionaries(
         {'n': st.integers(1, 5), 's': gen.seeds, 'kind': KINDS,
          'mode': st.sampled_from(['scaled', 'one direction', 'blind',
                                   'right']),
          'delta': st.sampled_from([1e-3, 1e-6, 1e-7, 1e-9, 0.5, -1., -2.]),
          'e': st.sampled_from([0, 0, 2, -2, 4]),
          'tol': st.sampled_from([None, None, 1e-8, 1e-4, 1., 10.]),
          'near': st.sampled_from(['', '', 'above', 'below']),
          'how': st.sampled_from(['matrix', 'sparse', 'deprecated',
                                  'functions'])}),
         run_check, 2400)],
    ['Matrices are square, nonsingular and moderately conditioned.'])
