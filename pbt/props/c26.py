"""C26: unconstrained optimization of a flattened objective solves the
constrained problem."""
import warnings
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check
from .c09 import small
from .c18 import unvalidated


def terms(spec, target, sharp=False):
    """For each leaf, a smooth non-negative function of the folded value
    whose only stationary point is the target."""
    import autograd.numpy as np_
    out = []

    def add(path, s):
        t = np.array(gen.at(target, path), dtype=float)
        if gen.is_num(s):
            lb, ub = float(gen.lb_of(s)), float(gen.ub_of(s))
            if lb == -gen.INF and ub == gen.INF:
                sc = max(1., float(np.abs(t).max(initial=0)))
                out.append(lambda v: 0.5 * np_.sum(((v - t) / sc) ** 2))
            elif ub == gen.INF:
                out.append(lambda v: np_.sum(
                    (v - lb) / (t - lb) - np_.log((v - lb) / (t - lb)) - 1.))
            elif lb == -gen.INF:
                out.append(lambda v: np_.sum(
                    (ub - v) / (ub - t) - np_.log((ub - v) / (ub - t)) - 1.))
            else:
                w = ub - lb
                a, b = (t - lb) / w, (ub - t) / w
                out.append(lambda v: np_.sum(
                    a * np_.log(a / ((v - lb) / w)) +
                    b * np_.log(b / ((ub - v) / w))))
        elif s['k'] == 'psd':
            n = s['size']
            lbm = gen.diag_lb_of(s) * np.eye(n)
            inv = np.linalg.inv(t - lbm)
            ld = np.linalg.slogdet(t - lbm)[1]
            out.append(lambda v: np_.sum(inv * (v - lbm)) -
                       np_.linalg.slogdet(v - lbm)[1] + ld - n)
        elif sharp:
            # As much weight on unlikely categories.
            r = np.log(t) - np.log(t[..., -1:])
            out.append(lambda v: 0.5 * np_.sum(
                (np_.log(v) - np_.log(v[..., -1:]) - r) ** 2))
        else:
            out.append(lambda v: np_.sum(t * np_.log(t / v)))
    paths = []
    for path, s, _, _ in gen.leaves(spec):
        paths.append(path)
        add(path, s)
    return list(zip(paths, out))


class Objective:
    """The sum of the terms, plus a monotone coupling; records the folded
    values that it is given."""
    def __init__(self, spec, target, sharp=False):
        self.spec = spec
        self.terms = terms(spec, target, sharp)
        self.bad = None
        self.evaluations = 0

    def __call__(self, folded):
        tot = 0.0
        for path, f in self.terms:
            tot = tot + f(gen.at(folded, path))
        self.look(folded)
        return tot + 0.1 * tot ** 2

    def look(self, folded):
        for path, s, _, _ in gen.leaves(self.spec):
            v = gen.at(folded, path)
            if not isinstance(v, np.ndarray):
                return
            # (A trial step can be so long that the value overflows.)
            if self.bad is None and np.isfinite(v).all() and \
                    gen.leaf_valid(s, v) == 'bad':
                self.bad = (s['k'], path, v)
        self.evaluations += 1


def precondition(pf, how, x, hess):
    import scipy.sparse as sps
    if how == 'point':
        pf.set_preconditioner_with_hessian(x=x)
    elif how == 'hessian':
        pf.set_preconditioner_with_hessian(hessian=hess)
    elif how == 'matrix':
        # Not symmetric.
        pf.set_preconditioner_matrix(np.linalg.inv(np.linalg.cholesky(hess)).T)
    elif how == 'sparse matrix':
        pf.set_preconditioner_matrix(sps.csc_matrix(
            np.linalg.inv(np.linalg.cholesky(hess)).T))
    else:
        from paragami.sparse_preconditioners_lib import \
            get_sym_matrix_inv_sqrt_funcs
        mult, solve = get_sym_matrix_inv_sqrt_funcs(sps.csc_matrix(hess))
        pf.set_preconditioner_functions(solve, mult)


def run(case, rec):
    import autograd
    import paragami
    import scipy.optimize
    spec = unvalidated(case['spec']) if case['dv'] else case['spec']
    gen.spec_labels(rec, spec)
    n = gen.flat_len(spec, True)
    if n == 0:
        return
    for s in gen.walk(spec):
        if gen.is_num(s):
            b = [abs(float(x)) for x in (gen.lb_of(s), gen.ub_of(s))
                 if np.isfinite(x)]
            w = float(gen.ub_of(s)) - float(gen.lb_of(s))
            if b and max(b) > 1e4 * min(w, 1.):
                rec.label('ill conditioned')
                return
    rec.nt(n > 1)
    rec.label(case['method'], case['pre'])
    p = gen.build(spec)
    t = gen.interior(spec, {'s': case['s'], 'e': case.get('e', 0),
                            'i': False})
    f = Objective(spec, t, case.get('sharp', False))
    flat = paragami.FlattenFunctionInput(f, p, True)
    xt = np.asarray(p.flatten(t, free=True), dtype=float)
    # The constrained minimizer is the only stationary point.
    f0 = float(flat(xt))
    check(abs(f0) <= 1e-8 * n, 'minimum {} instead of 0', f0)
    g0 = np.asarray(autograd.grad(flat)(xt))
    hess = np.asarray(autograd.hessian(flat)(xt))
    hess = 0.5 * (hess + hess.T)
    ev = np.linalg.eigvalsh(hess)
    check((np.abs(g0) <= 1e-7 * (1 + ev[-1])).all(),
          'gradient at the constrained minimizer: {}', g0)
    check(ev[0] > 0, 'Hessian at the minimizer has eigenvalues {}', ev)
    rng = 2 * gen.uniform(gen.subseed(case['s'], 9), n) - 1
    x0 = xt + case['far'] * rng
    pf = paragami.PreconditionedFunction(flat)
    y0, fun = x0, flat
    if case['pre'] != 'none':
        precondition(pf, case['pre'], xt, hess)
        yt = pf.precondition(xt)
        h = np.asarray(autograd.hessian(pf)(yt))
        check((np.abs(h - np.eye(n)) <= 1e-6 * ev[-1] / ev[0] + 1e-7).all(),
              'the preconditioned Hessian is {}', h)
        y0, fun = pf.precondition(x0), pf
    obj = paragami.OptimizationObjective(fun, print_every=0, log_every=1)
    kw = {}
    if case['method'] in ('trust-exact', 'trust-ncg', 'Newton-CG'):
        kw['hess'] = obj.hessian
    if case['method'] in ('trust-ncg', 'Newton-CG') and case['s'] % 2:
        kw = {'hessp': obj.hessian_vector_product}
    opts = {'gtol': 1e-7, 'maxiter': 400}
    if case['method'] == 'Newton-CG':
        opts = {'xtol': 1e-9, 'maxiter': 400}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = scipy.optimize.minimize(obj.f, y0, jac=obj.grad,
                                      method=case['method'], options=opts,
                                      **kw)
    check(f.bad is None, 'an evaluated value is invalid: {}', f.bad)
    x = np.asarray(pf.unprecondition(res.x) if case['pre'] != 'none'
                   else res.x)
    fx = float(flat(x))
    gx = np.asarray(autograd.grad(flat)(x))
    rec.label('converged' if res.success else 'not converged')
    # Whatever it reports, it must have come to the minimizer.
    check(fx <= 1e-7 * n, 'the optimizer stopped at {} (value {}, gradient '
          '{}), not at the constrained minimizer {}: {}', x, fx, gx, xt,
          res.message)
    # f is at least quadratic close to the minimizer.
    lim = 10 * np.sqrt(2 * max(fx, 1e-14) / ev[0]) + 1e-5
    check((np.abs(x - xt) <= lim).all(), 'found {} instead of {}', x, xt)
    got = p.fold(x, free=True)
    for path, s, _, _ in gen.leaves(spec):
        v = np.asarray(gen.at(got, path))
        check(np.isfinite(v).all() and gen.leaf_valid(s, v) != 'bad',
              'the solution {} is invalid', v)
    # The log is a record of the optimization.
    log = obj.optimization_log
    check(len(log) == obj.num_iterations() and len(log) > 0,
          '{} log entries for {} evaluations', len(log),
          obj.num_iterations())
    check([e[0] for e in log] == list(range(len(log))), 'log counts {}',
          [e[0] for e in log])
    check(np.array_equal(log[0][1], y0), 'the log starts at {}', log[0][1])
    best = min(float(e[2]) for e in log)
    check(abs(best - float(res.fun)) <= 1e-12 + 1e-9 * abs(best) or
          best <= float(res.fun), 'best logged value {}, result {}', best,
          res.fun)
    for e in log[::max(1, len(log) // 4)]:
        v = float(fun(e[1]))
        check(abs(v - float(e[2])) <= 1e-9 * (1 + abs(v)),
              'logged {} at {}, which has value {}', e[2], e[1], v)


ANY = st.one_of(gen.leaf_specs(zero=False, psd_big=False),
                gen.parr_specs(max_total=12),
                gen.dict_specs(depth_left=2, max_items=4, max_total=24),
                gen.dict_specs(depth_left=1, max_items=4, max_total=24))

MATRIX = st.fixed_dictionaries({
    'k': st.just('psd'), 'size': st.sampled_from([4, 4, 5]),
    'diag_lb': st.sampled_from([None, 0.5]), 'dv': gen.dvs(),
    'fd': gen.fds()})
METHOD = st.sampled_from(['trust-exact', 'trust-ncg', 'Newton-CG', 'BFGS',
                          'L-BFGS-B'])
# Targets far above, or next to, a single bound.
HALF = st.builds(
    lambda n, lo, fd, sign: {
        'k': 'vec', 'length': n, 'dv': None, 'fd': fd,
        'lb': lo if sign else None, 'ub': None if sign else lo},
    st.integers(1, 4), st.sampled_from([0., 0., 1., -2.]),
    gen.fds(), st.booleans())

# Simplexes with very unlikely categories.
SHARP = st.builds(
    lambda n, sh, fd: {'k': 'sim', 'size': n, 'ashape': sh, 'dv': None,
                       'fd': fd},
    st.sampled_from([2, 3, 4, 5]), st.sampled_from([[], [1], [2], [1, 1]]),
    gen.fds())

PROP = Prop(
    'C26',
    'A case is a generated pattern, a generated interior target, an objective '
    'of the folded value whose only stationary point is the target, a '
    'starting point, a scipy optimizer and a preconditioner; the flattened, '
    'preconditioned and logged objective is optimized, every evaluated '
    'folded value is checked against the constraints, and the solution and '
    'log against the target.  Non-trivial: more than one free entry.',
    [Sub('optimize', st.fixed_dictionaries(
        {'spec': small(ANY, 8), 's': gen.seeds, 'dv': st.booleans(),
         'far': st.sampled_from([0.5, 1., 2.]),
         'method': st.sampled_from(['trust-exact', 'trust-ncg', 'Newton-CG',
                                    'BFGS', 'L-BFGS-B']),
         'pre': st.sampled_from(['none', 'none', 'point', 'hessian',
                                 'matrix', 'sparse matrix',
                                 'sparse functions'])}), run, 960),
     Sub('matrix', st.fixed_dictionaries(
         {'spec': MATRIX, 's': gen.seeds, 'dv': st.booleans(),
          'far': st.sampled_from([0.5, 1.]), 'method': METHOD,
          'pre': st.sampled_from(['none', 'none', 'point', 'matrix',
                                  'sparse functions'])}), run, 160),
     Sub('scales', st.fixed_dictionaries(
         {'spec': HALF, 's': gen.seeds, 'dv': st.booleans(),
          'e': st.sampled_from([6, 9, 15, -3, -5]),
          'far': st.sampled_from([0.5, 1., 2.]), 'method': METHOD,
          'pre': st.sampled_from(['none', 'none', 'point', 'matrix'])}),
         run, 320),
     Sub('sharp', st.fixed_dictionaries(
         {'spec': SHARP, 's': gen.seeds, 'dv': st.booleans(),
          'e': st.sampled_from([1, 3, 6, 12, 25]), 'sharp': st.just(True),
          'far': st.sampled_from([0.5, 1., 2.]), 'method': METHOD,
          'pre': st.sampled_from(['none', 'none', 'point', 'matrix'])}),
         run, 320)],
    ['Bounds are at most 1e4 times the distances to them.',
     'scipy\'s optimizers converge on the generated problems.'])
