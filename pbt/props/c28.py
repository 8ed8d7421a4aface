"""C28: calls are independent of each other."""
import os
import sys
import warnings
import numpy as np
import scipy.sparse as sps
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check, REPO
from .c09 import small
from .c18 import smooth, unvalidated
from .c19 import matrix


# A target is a callable of the library together with a way to build it
# afresh and to make arguments for it.

class Target:
    view_ok = False

    def __init__(self, case):
        self.case = case
        self.s = case['s']

    def fresh(self):
        raise NotImplementedError

    def args(self, seed):
        raise NotImplementedError

    def shuffle(self, args, seed):
        """New contents with the same entries, or None."""
        return None

    def bad(self, args, seed):
        """Arguments of a call that may well fail."""
        out = copy_args(args)
        k = seed % len(out)
        if seed % 5 == 0:
            out[k] = None
        elif isinstance(out[k], np.ndarray):
            if seed % 2:
                out[k] = np.concatenate([out[k], out[k]])
            else:
                out[k] = out[k][:-1]
        return out


def permute(a, seed):
    flat = a.reshape(-1)
    if seed % 3 == 0 and flat.size > 1:
        # Only two of them, with ends and norm unchanged where possible.
        flat = flat.copy()
        lo, hi = (1, flat.size - 1) if flat.size > 3 else (0, flat.size)
        i = lo + gen.subseed(seed, 7) % (hi - lo)
        j = lo + (i - lo + 1) % (hi - lo)
        flat[i], flat[j] = flat[j], flat[i]
        return flat.reshape(a.shape)
    return flat[np.argsort(gen.uniform(seed, flat.size))].reshape(a.shape)


def shuffle_value(spec, val, seed):
    """A valid folded value with the same entries in other places."""
    def fn(path, s):
        v = np.array(gen.at(val, path))
        ps = gen.pathseed(seed, path)
        if gen.is_num(s):
            return permute(v, ps)
        if s['k'] == 'psd':
            o = np.argsort(gen.uniform(ps, s['size']))
            return v[np.ix_(o, o)]
        o = np.argsort(gen.uniform(ps, s['size']))
        return v[..., o]
    return gen.map_leaves(spec, fn)


class PatternCall(Target):
    def __init__(self, case):
        super().__init__(case)
        self.spec = case['spec']
        self.op = case['mode']
        self.free = {'fold free': True, 'flatten free': True}.get(
            self.op, False)
        if 'default' in self.op:
            if self.spec.get('fd') is None:
                self.spec = dict(self.spec, fd=bool(self.s % 2))
            self.free = self.spec['fd']
        self.view_ok = self.op.startswith('fold') and not self.free
        if self.op == 'logdet' and not \
                gen.kinds(self.spec) <= {'arr', 'vec', 'sca', 'dict'}:
            self.op = 'jac'
        if self.op in ('jac', 'unjac', 'jac default') and \
                gen.flat_len(self.spec, False) > 30:
            self.op = 'flatten'

    def fresh(self):
        p = self.p = gen.build(self.spec)
        return {
            'fold free': lambda x: p.fold(x, free=True),
            'fold': lambda x: p.fold(x, free=False),
            'fold default': lambda x: p.fold(x),
            'flatten free': lambda x: p.flatten(x, free=True),
            'flatten': lambda x: p.flatten(x, free=False),
            'flatten default': lambda x: p.flatten(x),
            'jac default': lambda x: gen.dense(p.freeing_jacobian(x)),
            'validate': lambda x: float(p.validate_folded(
                x, validate_value=True)[0]),
            'indices': lambda x: p.flat_indices(x, free=False),
            'indices free': lambda x: p.flat_indices(x, free=True),
            'jac': lambda x: gen.dense(p.freeing_jacobian(x, sparse=True)),
            'unjac': lambda x: gen.dense(
                p.unfreeing_jacobian(x, sparse=True)),
            'logdet': lambda x: float(p.log_abs_det_freeing_jacobian(x)),
        }[self.op]

    def args(self, seed):
        fill = {'s': seed, 'e': 0, 'i': False}
        if self.op.startswith('fold') and self.free:
            return [gen.free_vector(self.spec, fill)]
        if self.op.startswith('fold'):
            return [np.array(gen.ref_flatten(self.spec, gen.interior(
                self.spec, fill)))]
        if self.op.startswith('indices'):
            n = gen.flat_len(self.spec, False)
            return [gen.ref_fold(self.spec, gen.uniform(seed, n) < 0.4)]
        val = gen.interior(self.spec, fill)
        if self.op == 'validate' and seed % 2:
            def fn(path, s):
                v = np.array(gen.at(val, path), dtype=float)
                if v.size and seed % 3:
                    v.reshape(-1)[seed % v.size] = -1e9
                return v
            val = gen.map_leaves(self.spec, fn)
        return [val]

    def shuffle(self, args, seed):
        if self.op.startswith('fold') and self.free:
            return [permute(args[0], seed)]
        if self.op.startswith('fold'):
            val = gen.ref_fold(self.spec, args[0])
            return [np.array(gen.ref_flatten(
                self.spec, shuffle_value(self.spec, val, seed)))]
        if self.op.startswith('indices'):
            flat = gen.ref_flatten(self.spec, args[0])
            return [gen.ref_fold(self.spec, np.roll(flat, 1 + seed % 3))]
        return [shuffle_value(self.spec, args[0], seed)]

    def fail(self, p, seed):
        """Some other call with the same pattern, that may fail."""
        free = bool(seed % 2)
        what = seed // 2 % 5
        n = gen.flat_len(self.spec, free)
        val = gen.interior(self.spec, {'s': seed, 'e': 0, 'i': False})
        if what < 2:
            x = gen.free_vector(self.spec, {'s': seed, 'e': 0, 'i': False}) \
                if free else gen.ref_flatten(self.spec, val)
            x = np.array(x, dtype=float)
            if what == 0:
                x = x[:-1] if n else np.zeros(1)
            elif x.size:
                x[seed // 10 % x.size] = [np.nan, -1e9, 1e9][seed % 3]
            return p.fold(x, free=free)
        if what == 2:
            def fn(path, s):
                v = np.array(gen.at(val, path), dtype=float)
                return v[..., :-1] if gen.subseed(seed, 3) % 2 else v - 1e9
            return p.flatten(gen.map_leaves(self.spec, fn), free=free)
        if what == 3:
            return p.flat_indices(val if seed % 2 else None, free=free)
        return p.freeing_jacobian(None)


def derivative(f, mode):
    import autograd
    return {'value': f, 'grad': autograd.grad(f),
            'hessian': autograd.hessian(f)}[mode]


class FlattenInput(Target):
    def __init__(self, case):
        super().__init__(case)
        self.spec = unvalidated(case['spec'])
        self.mode = case['mode']
        self.free = case['free']
        if gen.flat_len(self.spec, True) > 12 or \
                gen.flat_len(self.spec, self.free) == 0:
            self.mode = 'value'
        val = gen.interior(self.spec, {'s': self.s})
        self.fun = smooth(self.spec, self.s, val)

    def fresh(self):
        import paragami
        f = paragami.FlattenFunctionInput(
            lambda z, c: self.fun(z) * (1. + c[0]) + c[1],
            gen.build(self.spec), self.free, argnums=0)
        return derivative(f, self.mode)

    def args(self, seed):
        fill = {'s': seed, 'e': 0, 'i': False}
        x = gen.free_vector(self.spec, fill) if self.free else np.array(
            gen.ref_flatten(self.spec, gen.interior(self.spec, fill)))
        return [x, gen.uniform(gen.subseed(seed, 5), 2)]

    def shuffle(self, args, seed):
        x, c = args
        if self.free:
            return [permute(x, seed), c[::-1].copy()]
        val = gen.ref_fold(self.spec, x)
        return [np.array(gen.ref_flatten(self.spec, shuffle_value(
            self.spec, val, seed))), c[::-1].copy()]


class FoldInput(Target):
    def __init__(self, case):
        super().__init__(case)
        self.spec = unvalidated(case['spec'])
        self.free = case['free']

    def fresh(self):
        import paragami
        return paragami.FoldFunctionInput(
            lambda x, c: np.cumsum(x) * (1. + c[0]) + c[1],
            gen.build(self.spec), self.free, argnums=[0])

    def args(self, seed):
        return [gen.interior(self.spec, {'s': seed}),
                gen.uniform(gen.subseed(seed, 5), 2)]

    def shuffle(self, args, seed):
        return [shuffle_value(self.spec, args[0], seed),
                args[1][::-1].copy()]


class FlattenOutput(FoldInput):
    def fresh(self):
        import paragami
        if self.case['mode'] == 'value':
            return paragami.FlattenFunctionOutput(
                lambda z, c: z, gen.build(self.spec), self.free)
        if self.case['mode'] == 'grad':
            return paragami.FlattenFunctionOutput(
                lambda z, c: (c, z, 2 * c, z, c - 1),
                [gen.build(self.spec), gen.build(self.spec)],
                [self.free, not self.free], retnums=[3, 1])
        return paragami.FlattenFunctionOutput(
            lambda z, c: (c, z, 2 * c), gen.build(self.spec), self.free,
            retnums=1)

    @property
    def view_ok(self):
        return True


class FoldOutput(FlattenInput):
    view_ok = True

    def fresh(self):
        import paragami
        return paragami.FoldFunctionOutput(
            lambda x, c: (c.sum(), x, 3 * c), gen.build(self.spec), self.free,
            retnums=[1])


class FlattenBoth(FlattenInput):
    def fresh(self):
        import paragami
        p = gen.build(self.spec)
        return paragami.FlattenFunctionInputAndOutput(
            lambda z, c: (c * 2, z, c - 1), p, self.free, [0], p, not self.free,
            [1])


class Preconditioned(Target):
    def __init__(self, case):
        super().__init__(case)
        self.n = 1 + case['n']
        self.a = matrix(self.s, self.n, 'dominant')
        self.w = gen.uniform(gen.subseed(self.s, 1), self.n)

    def make(self):
        import autograd.numpy as np_
        import paragami
        pf = paragami.PreconditionedFunction(
            lambda x: np_.sum(self.w * np_.sin(x)) + np_.sum(x) ** 2)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if self.s % 3 == 0:
                pf.set_preconditioner_matrix(self.a)
            elif self.s % 3 == 1:
                pf.set_preconditioner_matrix(sps.csc_matrix(self.a))
            else:
                pf.set_preconditioner_with_hessian(
                    hessian=self.a @ self.a.T)
        return pf

    def fresh(self):
        pf = self.make()
        m = self.case['mode']
        if m in ('value', 'grad', 'hessian'):
            return derivative(pf, m)
        return {'precondition': pf.precondition,
                'unprecondition': pf.unprecondition}.get(m, pf)

    def args(self, seed):
        return [2 * gen.uniform(seed, self.n) - 1]

    def shuffle(self, args, seed):
        return [permute(args[0], seed)]


class Objective(Preconditioned):
    def fresh(self):
        import paragami
        m = self.case['mode']
        obj = paragami.OptimizationObjective(
            self.make(), print_every=0, log_every=self.s % 3)
        return {'grad': obj.grad, 'hessian': obj.hessian,
                'precondition': lambda x: obj.hessian_vector_product(
                    x, x[::-1])}.get(m, obj.f)


class Product(Target):
    def __init__(self, case):
        super().__init__(case)
        self.n = 1 + case['n']
        self.a = matrix(self.s, self.n, 'dominant')
        self.k = [None, 1, 3][self.s % 3]

    def fresh(self):
        from paragami.autograd_supplement_lib import get_sparse_product
        return get_sparse_product(sps.csc_matrix(self.a))[
            self.case['mode'] == 'value']

    def args(self, seed):
        shape = (self.n,) if self.k is None else (self.n, self.k)
        return [2 * gen.uniform(seed, gen.size(shape)).reshape(shape) - 1]

    def shuffle(self, args, seed):
        return [permute(args[0], seed)]


class Solver(Product):
    def fresh(self):
        from paragami.autograd_supplement_lib import \
            get_differentiable_solver
        return get_differentiable_solver(
            lambda b: np.linalg.solve(self.a, b),
            lambda b: np.linalg.solve(self.a.T, b))[
                self.case['mode'] == 'value']


class Root(Product):
    def __init__(self, case):
        super().__init__(case)
        self.k = None

    def fresh(self):
        from paragami.sparse_preconditioners_lib import \
            get_sym_matrix_inv_sqrt_funcs
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return get_sym_matrix_inv_sqrt_funcs(
                sps.csc_matrix(self.a @ self.a.T))[
                    self.case['mode'] == 'value']


class Grouped(Target):
    def fresh(self):
        from paragami.autograd_supplement_lib import grouped_sum
        import autograd
        if self.case['mode'] == 'grad':
            return lambda x, g: autograd.grad(
                lambda y: (grouped_sum(y, g, num_groups=5) ** 2).sum())(x)
        if self.case['mode'] == 'value':
            return grouped_sum
        return lambda x, g: grouped_sum(x, g, num_groups=5)

    def args(self, seed):
        n = 2 + self.case['n']
        k = [None, 2][self.s % 2]
        shape = (n,) if k is None else (n, k)
        return [2 * gen.uniform(seed, gen.size(shape)).reshape(shape) - 1,
                gen.ints(gen.subseed(seed, 1), n, 0, 5)]

    def shuffle(self, args, seed):
        return [args[0] if seed % 2 else permute(args[0], seed),
                permute(args[1], gen.subseed(seed, 1))]


class Replace(Target):
    def fresh(self):
        from paragami.autograd_supplement_lib import replace
        return replace

    def args(self, seed):
        n = 2 + self.case['n']
        k = 1 + self.s % n
        inds = np.argsort(gen.uniform(gen.subseed(seed, 2), n))[:k]
        return [gen.uniform(seed, k), -gen.uniform(gen.subseed(seed, 1), n),
                inds]

    def shuffle(self, args, seed):
        x, y, i = args
        return [permute(x, seed), permute(y, gen.subseed(seed, 1)),
                permute(i, gen.subseed(seed, 2))]


class LogSumExp(Target):
    def fresh(self):
        from paragami.simplex_patterns import logsumexp
        return lambda x: logsumexp(x, axis=-1)

    def args(self, seed):
        return [5 * gen.uniform(seed, 3 * (1 + self.case['n'])).reshape(
            3, -1)]

    def shuffle(self, args, seed):
        return [permute(args[0], seed)]


class Truncate(Target):
    def fresh(self):
        from paragami.optimization_lib import truncate_eigenvalues
        return lambda x: truncate_eigenvalues(x, ev_min=-0.3, ev_max=0.4)

    def args(self, seed):
        return [2 * gen.uniform(seed, 2 + self.case['n']) - 1]

    def shuffle(self, args, seed):
        return [permute(args[0], seed)]


class Eigenspace(Truncate):
    def fresh(self):
        from paragami.optimization_lib import transform_eigenspace
        n = 2 + self.case['n']
        q = matrix(self.s, n, 'orthogonal')
        ev = 0.5 + gen.uniform(self.s, n)
        k = 1 + self.s % n
        return transform_eigenspace(q[:, :k], ev[:k], lambda v: 1 / v)


TARGETS = {'pattern': PatternCall, 'flatten input': FlattenInput,
           'fold input': FoldInput, 'flatten output': FlattenOutput,
           'fold output': FoldOutput, 'flatten both': FlattenBoth,
           'preconditioned': Preconditioned, 'objective': Objective,
           'product': Product, 'solver': Solver, 'root': Root,
           'grouped_sum': Grouped, 'replace': Replace,
           'logsumexp': LogSumExp, 'truncate': Truncate,
           'eigenspace': Eigenspace}


def copy_args(args):
    return [gen.copy_val(a) for a in args]


def snapshot(r):
    if isinstance(r, (tuple, list)):
        return [snapshot(x) for x in r]
    if isinstance(r, dict):
        return {k: snapshot(v) for k, v in r.items()}
    return np.array(r)


def same(a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and \
            all(same(a[k], b[k]) for k in b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind not in 'fiu' or b.dtype.kind not in 'fiu':
        return np.array_equal(a, b)
    return gen.nearly(a, b) or bool(
        (np.abs(a - b) <= 1e-9 * (1 + np.abs(b).max())).all())


def put(old, new):
    """Give the arrays in old the contents of new."""
    if isinstance(old, dict):
        for k in old:
            put(old[k], new[k])
    else:
        old[...] = new


def equal_args(a, b):
    if isinstance(b, dict):
        return list(a) == list(b) and all(equal_args(a[k], b[k]) for k in b)
    return np.array_equal(a, b)


def run_inplace(case, rec):
    t = TARGETS[case['target']](case)
    rec.label(case['target'])
    if case['target'] == 'pattern':
        rec.label('pattern:' + t.op)
    # The whole history is laid out, and the expected results are computed
    # on copies, before the first call of interest.
    contents = [t.args(case['s'])]
    for step in case['steps']:
        new = None
        if step['how'] == 'shuffle':
            new = t.shuffle(copy_args(contents[-1]), step['s'])
        contents.append(t.args(step['s']) if new is None else new)
    wants = [snapshot(t.fresh()(*copy_args(now))) for now in contents]
    f = t.fresh()
    p = getattr(t, 'p', None)
    args = copy_args(contents[0])
    kept = []
    changes = 0
    for i, now in enumerate(contents):
        step = case['steps'][i - 1] if i else None
        if i:
            if case['target'] in ('pattern', 'fold input') and \
                    step['s'] % 5 == 0 and isinstance(args[0], dict):
                # Other arrays in the same dictionary.
                for k in args[0]:
                    args[0][k] = gen.copy_val(now[0][k])
            before = snapshot(args)
            for a, b in zip(args, now):
                put(a, b)
            changes += not same(snapshot(args), before)
            rec.label(step['how'])
            if step['bad'] is not None:
                try:
                    with warnings.catch_warnings(), np.errstate(all='ignore'):
                        warnings.simplefilter('ignore')
                        if p is not None and step['bad'] % 3:
                            t.fail(p, step['bad'])
                        else:
                            f(*t.bad(args, step['bad']))
                    rec.label('other call')
                except Exception:
                    rec.label('failing call')
        want = wants[i]
        res = f(*args)
        got = snapshot(res)
        check(same(got, want), '{}: after an in-place change of the argument '
              'to {}, {} instead of {}', case['target'], now, got, want)
        check(all(equal_args(a, b) for a, b in zip(args, now)),
              '{}: an argument was modified', case['target'])
        if not t.view_ok:
            kept.append((res, got))
    for res, got in kept:
        check(same(snapshot(res), got), '{}: an earlier result changed to '
              '{} from {}', case['target'], res, got)
    rec.nt(changes > 0)


# Preemption: at an arbitrary point of one call, other calls of the same
# callable run to completion.

PACKAGE = os.path.join(os.path.realpath(REPO), 'paragami')
OURS = {}


class Preempt:
    """Runs action at the chosen line events of library code."""
    def __init__(self, at, action):
        self.at, self.action, self.count = set(at), action, 0

    def local(self, frame, event, arg):
        if event == 'line':
            k = self.count
            self.count += 1
            if k in self.at:
                self.action()
        return self.local

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if name not in OURS:
            OURS[name] = os.path.realpath(name).startswith(PACKAGE + os.sep)
        return self.local if OURS[name] else None

    def run(self, f, args):
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            return f(*args)
        finally:
            sys.settrace(old)


def run_preempted(case, rec):
    t = TARGETS[case['target']](case)
    rec.label(case['target'])
    if case['target'] == 'pattern':
        rec.label('pattern:' + t.op)
    a, b = copy_args(t.args(case['s'])), copy_args(t.args(case['s2']))
    if case['shuffle']:
        b = t.shuffle(copy_args(a), case['s2']) or b
    want_a = snapshot(t.fresh()(*copy_args(a)))
    want_b = snapshot(t.fresh()(*copy_args(b)))
    counter = Preempt((), None)
    counter.run(t.fresh(), copy_args(a))
    n = counter.count
    if n == 0:
        return
    rec.nt(n > 3)
    f = t.fresh()
    inner = []

    def action():
        inner.append(snapshot(f(*b)))
    at = {int(p * n) for p in case['points']}
    got_a = snapshot(Preempt(at, action).run(f, a))
    rec.label('preemptions:%d' % len(inner))
    for r in inner:
        check(same(r, want_b), '{}: a call with {} made during another with '
              '{} gives {} instead of {}', case['target'], b, a, r, want_b)
    check(same(got_a, want_a), '{}: a call with {}, interrupted by others '
          'with {}, gives {} instead of {}', case['target'], a, b, got_a,
          want_a)
    got = snapshot(f(*b))
    check(same(got, want_b), '{}: afterwards {} instead of {}',
          case['target'], got, want_b)


class Boom(Exception):
    pass


def run_recursive(case, rec):
    """The original function calls its own wrapper."""
    import autograd
    import autograd.numpy as np_
    import paragami
    spec = unvalidated(case['spec'])
    gen.spec_labels(rec, spec)
    free, depth = case['free'], case['depth']
    n = gen.flat_len(spec, free)
    if n == 0:
        return
    rec.nt(n > 1 and depth > 1)
    rec.label(case['how'], 'depth:%d' % depth)
    fun = smooth(spec, case['s'], gen.interior(spec, {'s': case['s']}))
    xs = []
    for i in range(depth + 1):
        fill = {'s': gen.subseed(case['s'], i), 'e': 0, 'i': False}
        xs.append(gen.free_vector(spec, fill) if free else np.array(
            gen.ref_flatten(spec, gen.interior(spec, fill)), dtype=float))
    p = gen.build(spec)
    hold = []
    fail = case['fail']

    def original(level, theta, scale):
        v = fun(theta) * scale
        if level == depth:
            if fail == 'inner':
                raise Boom()
            return v
        try:
            v = v + 0.5 * hold[0](level + 1, xs[level + 1], 1.0 + v)
        except Boom:
            if level > 0 and fail == 'inner':
                raise
            v = v + 0.125
        return v + 0.25 * fun(theta) ** 2

    def direct(level, x, scale):
        """The same without any wrapper."""
        q = gen.build(spec)
        return original(level, q.fold(x, free=free), scale)
    wrapped = paragami.FlattenFunctionInput(original, p, free, argnums=1)
    if case['how'] == 'preconditioned':
        # (Around it, a preconditioned function of its argument.)
        def inner(y):
            return wrapped(0, xs[0] + y, 1.0)
        pf = paragami.PreconditionedFunction(inner)
        a = matrix(case['s'], n, 'dominant')
        pf.set_preconditioner_matrix(a)

        def outer(y):
            return pf(y) + pf(0.5 * y) * 0.5

        def outer_direct(y):
            def g(z):
                return direct(0, xs[0] + np_.dot(a, z), 1.0)
            return g(y) + g(0.5 * y) * 0.5
        y0 = 0.01 * (2 * gen.uniform(case['s'], n) - 1)
        if not free:
            y0 = 0. * y0
    else:
        def outer(y):
            return wrapped(0, xs[0] * (1. + 0. * y), 1.0 + np_.sum(y))

        def outer_direct(y):
            return direct(0, xs[0] * (1. + 0. * y), 1.0 + np_.sum(y))
        y0 = np.zeros(n)
    hold.append(wrapped)
    got = float(outer(y0))
    g = np.asarray(autograd.grad(outer)(y0)) if case['grad'] else None
    hold[0] = direct
    want = float(outer_direct(y0))
    check(abs(got - want) <= 1e-8 * (1 + abs(want)),
          'recursive calls give {} instead of {}', got, want)
    if case['grad']:
        gw = np.asarray(autograd.grad(outer_direct)(y0))
        check((np.abs(g - gw) <= 1e-7 * (1 + np.abs(gw).max())).all(),
              'gradient of recursive calls is {} instead of {}', g, gw)


def spoiled(spec, seed, free):
    """A value with one leaf out of its domain, if there is one."""
    out = []

    def fn(path, s):
        out.append(path)
        return np.array(gen.at(val, path), dtype=float)
    val = gen.interior(spec, {'s': seed, 'e': 0, 'i': False})
    val = gen.map_leaves(spec, fn)
    if not out:
        return val
    bad = out[gen.subseed(seed, 1) % len(out)]

    def spoil(path, s):
        v = np.array(gen.at(val, path))
        if path == bad and v.size:
            how = gen.subseed(seed, 2) % 4
            if how == 0 and all(isinstance(k, str) for k in path):
                v = v[..., :-1]
            else:
                v[(gen.subseed(seed, 3) % v.shape[0],) + (0,) * (
                    v.ndim - 1)] = [-1e9, 1e9, np.nan, -1.][how - 1]
        return v
    return gen.map_leaves(spec, spoil)


def operation(p, spec, step):
    """One call on the pattern p: its result, or the type of its failure."""
    op, free, seed = step['op'], step['free'], step['s']
    fd = spec.get('fd') if free is None else free
    val = spoiled(spec, seed, free) if step['bad'] else \
        gen.interior(spec, {'s': seed, 'e': 0, 'i': False})
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            if op == 'fold':
                if fd:
                    x = np.array(gen.free_vector(
                        spec, {'s': seed, 'e': 0, 'i': False}), dtype=float)
                    if step['bad']:
                        x = x[:-1] if seed % 2 else np.append(x, 1.)
                else:
                    try:
                        x = np.array(gen.ref_flatten(spec, val), dtype=float)
                    except Exception:
                        x = np.zeros(1)
                return snapshot(p.fold(x, free=free))
            if op == 'flatten':
                return snapshot(p.flatten(val, free=free))
            if op == 'validate':
                return snapshot(np.array([p.validate_folded(
                    val, validate_value=v)[0] for v in (True, False, None)]))
            if op == 'jac':
                j = p.freeing_jacobian if seed % 2 else p.unfreeing_jacobian
                return snapshot(gen.dense(j(val, sparse=bool(seed // 2 % 2))))
            if op == 'length':
                return snapshot(np.array([p.flat_length(free=free)]))
            if op == 'indices':
                mask = gen.ref_fold(spec, gen.uniform(
                    seed, gen.flat_len(spec, False)) < 0.4)
                if step['bad']:
                    mask = spoiled(spec, seed, free)
                return snapshot(p.flat_indices(mask, free=free))
            if op == 'names':
                return [str(x) for x in p.flat_names(free=free)]
            if op == 'empty':
                v = p.empty(valid=not step['bad'])
                return snapshot(v) if not step['bad'] else None
            if op == 'json':
                return p.to_json()
            if op == 'defaults':
                return [repr(p.free_default), str(p)]
            raise KeyError(op)
    except Exception as e:
        return type(e).__name__


def same_outcome(a, b):
    if isinstance(b, str) or isinstance(a, str) or b is None:
        return type(a) is type(b) and a == b
    if isinstance(b, list) and b and isinstance(b[0], str):
        return a == b
    if isinstance(b, np.ndarray) and b.dtype == float and \
            isinstance(a, np.ndarray) and np.isnan(b).any():
        return a.shape == b.shape
    return same(a, b)


def run_history(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    failed = worked = 0
    for i, step in enumerate(case['steps']):
        if step['op'] == 'jac' and gen.flat_len(spec, False) > 30:
            continue
        want = operation(gen.build(spec), spec, step)
        got = operation(p, spec, step)
        rec.label(step['op'] + (' fails' if isinstance(want, str) and
                                step['op'] != 'json' else ''))
        if isinstance(want, str) and step['op'] != 'json':
            failed += 1
        else:
            worked += bool(failed)
        check(same_outcome(got, want), 'call {} of the history, {}, gives {} '
              'instead of {}', i + 1, step, got, want)
    rec.nt(failed > 0 and worked > 0)


ANY = st.one_of(gen.leaf_specs(psd_big=False),
                gen.parr_specs(max_total=20),
                gen.dict_specs(depth_left=2, max_items=4, max_total=30))
MODES = st.sampled_from(['value', 'value', 'grad', 'hessian', 'precondition',
                         'unprecondition'])
PATTERN_MODES = st.sampled_from(
    ['fold free', 'fold', 'flatten free', 'flatten', 'validate', 'indices',
     'indices free', 'jac', 'unjac', 'logdet', 'fold default',
     'flatten default', 'jac default'])


@st.composite
def targets(draw, extra):
    kind = draw(st.sampled_from(
        sorted(TARGETS) + ['pattern'] * 9 + ['flatten input', 'flatten input',
                           'objective', 'objective', 'preconditioned']))
    case = {'target': kind, 's': draw(gen.seeds), 'n': draw(
        st.integers(0, 5)), 'free': draw(st.booleans())}
    case['mode'] = draw(PATTERN_MODES if kind == 'pattern' else MODES)
    if kind in ('flatten input', 'fold output', 'flatten both', 'fold input',
                'flatten output'):
        if case['mode'] not in ('value', 'grad', 'hessian'):
            case['mode'] = 'value'
    if kind in ('pattern', 'flatten input', 'fold input', 'flatten output',
                'fold output', 'flatten both'):
        case['spec'] = draw(small(ANY, 24))
    case.update(draw(st.fixed_dictionaries(extra)))
    return case

STEPS = st.lists(st.fixed_dictionaries(
    {'how': st.sampled_from(['shuffle', 'shuffle', 'other']),
     's': gen.seeds, 'bad': st.one_of(st.none(), gen.seeds)}),
    min_size=2, max_size=6)


PROP = Prop(
    'C28',
    'A case is a callable of the library (a pattern operation, a wrapped or '
    'preconditioned function or its derivative, an objective, a product, a '
    'solver, ...) and a schedule of calls.  inplace: the same argument '
    'arrays with contents changed in place between calls, to the same '
    'entries in other places or to others, with other and failing calls in '
    'between.  history: calls of the operations of one pattern, some of '
    'which fail.  preempted: at generated lines of '
    'the library\'s code during one call, other calls run to completion.  '
    'recursive: wrapped functions that call their own wrapper, with and '
    'without failures.  Every result is compared with that of a newly built '
    'callable.  Non-trivial: the argument did change (inplace); a call '
    'succeeds after one that failed (history); more than '
    'three lines (preempted); more than one entry and level (recursive).',
    [Sub('inplace', targets({'steps': STEPS}), run_inplace, 3200),
     Sub('jacobians', st.fixed_dictionaries({
        'target': st.just('pattern'), 's': gen.seeds, 'n': st.just(0),
        'free': st.booleans(), 'mode': st.sampled_from(['unjac', 'unjac',
                                                        'jac', 'logdet']),
        'spec': small(st.one_of(
            gen.psd_specs(max_n=4, big=False), gen.sim_specs(),
            gen.num_specs(), gen.parr_specs(max_total=20),
            gen.dict_specs(depth_left=1, max_items=3, max_total=30)), 24),
        'steps': STEPS}), run_inplace, 960),
     Sub('history', st.fixed_dictionaries({
         'spec': small(ANY, 30), 'steps': st.lists(st.fixed_dictionaries({
             'op': st.sampled_from(
                 ['fold', 'fold', 'fold', 'flatten', 'flatten', 'validate',
                  'jac', 'length', 'indices', 'names', 'empty', 'json',
                  'defaults']),
             'free': st.sampled_from([None, True, False]),
             'bad': st.booleans(), 's': gen.seeds}),
             min_size=3, max_size=12)}), run_history, 1600),
     Sub('preempted', targets({
         's2': gen.seeds, 'shuffle': st.booleans(),
         'points': st.lists(st.floats(0, 0.999), min_size=1, max_size=4)}),
         run_preempted, 2400),
     Sub('recursive', st.fixed_dictionaries(
         {'spec': small(ANY, 10), 's': gen.seeds, 'free': st.booleans(),
          'depth': st.integers(1, 3), 'grad': st.booleans(),
          'how': st.sampled_from(['plain', 'preconditioned']),
          'fail': st.sampled_from(['', '', 'inner'])}), run_recursive, 800)],
    ['Non-free folding may return a view of its argument.',
     'Settings are not changed during a call.'])
