"""C25: the optimization objective reports, prints and logs every due
evaluation."""
import contextlib
import io
import re
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check, Violation


class Boom(Exception):
    pass


class Fun:
    """The wrapped function, with known derivatives; fails on demand."""
    def __init__(self, n, seed):
        u = 2 * gen.uniform(seed, n * n).reshape(n, n) - 1
        self.q = u + u.T
        self.w = 2 * gen.uniform(gen.subseed(seed, 1), n) - 1
        self.scale = 10. ** ((seed % 5) - 2)
        self.calls = 0
        self.fail = None
        self.last = None
        self.offset = 0.

    def __call__(self, x):
        import autograd.numpy as np_
        self.calls += 1
        if self.fail is not None:
            raise self.fail
        v = self.scale * (0.5 * np_.dot(x, np_.dot(self.q, x)) +
                          np_.sum(self.w * np_.sin(x)))
        v = v + self.offset
        self.last = v
        return v

    def value(self, x):
        return self.scale * float(0.5 * x @ self.q @ x +
                                  np.sum(self.w * np.sin(x))) + self.offset

    def grad(self, x):
        return self.scale * (self.q @ x + self.w * np.cos(x))

    def hess(self, x):
        return self.scale * (self.q - np.diag(self.w * np.sin(x)))


def build(case, fun, events):
    """An objective whose hooks are the defaults, overridden in a subclass,
    or replaced on the instance."""
    import paragami
    cls = paragami.OptimizationObjective
    kw = {}
    if case['print0'] != 1 or case['explicit']:
        kw['print_every'] = case['print0']
    if case['log0'] != 0 or case['explicit']:
        kw['log_every'] = case['log0']
    hooks = case['hooks']
    if hooks == 'subclass':
        class Sub_(cls):
            def print_value(self, num_f_evals, x, f_val):
                events.append(('print', num_f_evals, x, np.array(x), f_val))

            def log_value(self, num_f_evals, x, f_val):
                events.append(('log', num_f_evals, x, np.array(x), f_val))
        return Sub_(fun, **kw)
    if hooks == 'both':
        class Sub2(cls):
            def print_value(self, num_f_evals, x, f_val):
                events.append(('print', num_f_evals, x, np.array(x), f_val))
                super().print_value(num_f_evals, x, f_val)

            def log_value(self, num_f_evals, x, f_val):
                events.append(('log', num_f_evals, x, np.array(x), f_val))
                super().log_value(num_f_evals, x, f_val)
        return Sub2(objective_fun=fun, **kw)
    obj = cls(fun, **kw)
    if hooks == 'instance':
        obj.print_value = lambda n, x, f: events.append(
            ('print', n, x, np.array(x), f))
        obj.log_value = lambda n, x, f: events.append(
            ('log', n, x, np.array(x), f))
    return obj


def close(a, b, sc, what):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape, '{}: shape {} instead of {}', what, a.shape,
          b.shape)
    check(((np.abs(a - b) <= 1e-10 * sc) | (a == b) |
           (np.isnan(a) & np.isnan(b))).all(), '{}: {} instead of {}', what,
          a, b)


def same_float(a, b):
    return a == b or (a != a and b != b)


def check_log(log, want, what):
    check(isinstance(log, list) and len(log) == len(want),
          '{}: {} log entries instead of {}', what, len(log), len(want))
    for got, (n, x, f) in zip(log, want):
        check(len(got) == 3, '{}: log entry {}', what, got)
        check(got[0] == n, '{}: entry for count {} instead of {}', what,
              got[0], n)
        check(np.array_equal(np.asarray(got[1]), x),
              '{}: entry {} holds argument {} instead of {}', what, n, got[1],
              x)
        check(same_float(float(got[2]), f), '{}: entry {} holds value {} instead of {}',
              what, n, got[2], f)


NUMBER = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)')


def check_printed(text, want):
    lines = [l for l in text.split('\n') if l.strip()]
    check(len(lines) == len(want), 'printed {!r} instead of {} line(s)', text,
          len(want))
    for line, (n, x, f) in zip(lines, want):
        nums = NUMBER.findall(line)
        check(len(nums) >= 2, 'printed {!r}', line)
        check(int(float(nums[0])) == n and float(nums[0]) == n,
              'printed {!r} for count {}', line, n)
        check(same_float(float(nums[-1]), f) or
              abs(float(nums[-1]) - f) <= 1e-7 * (1 + abs(f)),
              'printed {!r} for value {}', line, f)


class Model:
    def __init__(self, case):
        self.count = 0
        self.print_every, self.log_every = case['print0'], case['log0']
        self.log = []


def run(case, rec):
    n = case['n']
    objs = []
    for k in range(case['objects']):
        fun = Fun(n, gen.subseed(case['s'], k))
        events = []
        c = case if k == 0 else dict(case, print0=case['print1'],
                                     log0=case['log1'],
                                     hooks=case['hooks1'])
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            obj = build(c, fun, events)
        check(out.getvalue() == '' and not events and fun.calls == 0,
              'construction evaluates, prints or logs')
        objs.append((obj, fun, events, Model(c), c))
    xs = [2 * gen.uniform(gen.subseed(case['s'], 20 + i), n) - 1
          for i in range(2)]
    rec.label('hooks:' + case['hooks'], 'objects:%d' % len(objs))
    due = 0
    evals = 0
    for i, op in enumerate(case['ops']):
        obj, fun, events, model, c = objs[op['obj'] % len(objs)]
        kind = op['op']
        x = xs[op['x'] % 2]
        x0 = np.array(x)
        events.clear()
        out = io.StringIO()
        printed, logged = [], []
        rec.label(kind)
        with contextlib.redirect_stdout(out):
            if kind == 'f':
                calls = fun.calls
                want = fun.value(x)
                got = obj.f(x)
                evals += 1
                check(fun.calls == calls + 1, 'evaluated {} times',
                      fun.calls - calls)
                check(got is fun.last, 'returned {} instead of {}', got,
                      fun.last)
                close(got, want, fun.scale * n * n * 4 +
                      1e-5 * (fun.offset == 1e9), 'value')
                item = (model.count, x0, float(got))
                if model.print_every > 0 and \
                        model.count % model.print_every == 0:
                    printed.append(item)
                    due += model.print_every > 1
                if model.log_every > 0 and \
                        model.count % model.log_every == 0:
                    logged.append(item)
                    due += 1
                model.count += 1
            elif kind == 'fail':
                fun.fail = Boom('x')
                try:
                    obj.f(x)
                except Boom as e:
                    check(e is fun.fail, 'another exception')
                else:
                    raise Violation('the exception was lost')
                finally:
                    fun.fail = None
            elif kind == 'fail derivative':
                fun.fail = Boom('x')
                try:
                    [lambda: obj.grad(x), lambda: obj.hessian(x),
                     lambda: obj.hessian_vector_product(x, x)][
                         op['pick'] % 3]()
                except Boom:
                    pass
                else:
                    raise Violation('the exception was lost')
                finally:
                    fun.fail = None
            elif kind == 'grad':
                close(obj.grad(x), fun.grad(x), fun.scale * n * 4, 'gradient')
            elif kind == 'hessian':
                close(obj.hessian(x), fun.hess(x), fun.scale * n * 4,
                      'Hessian')
            elif kind == 'hvp':
                v = 2 * gen.uniform(op['pick'], n) - 1
                close(obj.hessian_vector_product(x, v), fun.hess(x) @ v,
                      fun.scale * n * 8, 'Hessian vector product')
            elif kind == 'print every':
                obj.set_print_every(op['n'])
                model.print_every = op['n']
            elif kind == 'log every':
                obj.set_log_every(op['n'])
                model.log_every = op['n']
            elif kind == 'reset':
                obj.reset()
                model.count = 0
                model.log = []
            elif kind == 'reset count':
                obj.reset_iteration_count()
                model.count = 0
            elif kind == 'reset log':
                obj.reset_log()
                model.log = []
            elif kind == 'offset':
                # The domain of the function may end somewhere.
                fun.offset = [np.nan, np.inf, -np.inf, 1e9, 0., 0.][
                    op['pick'] % 6]
            elif kind == 'modify':
                # The caller reuses its argument.
                x[op['pick'] % n] += 1. + op['pick'] % 3
                x0 = np.array(x)
            elif kind == 'replace':
                xs[op['x'] % 2] = 2 * gen.uniform(op['pick'], n) - 1
        check(np.array_equal(x, x0), 'the argument was modified')
        # What this operation printed and logged.
        hooks = c['hooks']
        if hooks == 'default':
            check_printed(out.getvalue(), printed)
        else:
            want = [('print',) + p for p in printed] + \
                [('log',) + p for p in logged]
            got = [(e[0], e[1], e[3], float(e[4])) for e in events]
            check(sorted(e[0] for e in got) == sorted(w[0] for w in want),
                  'hooks called: {}, due: {}', [e[0] for e in got],
                  [w[0] for w in want])
            for kind_ in ('print', 'log'):
                for g, w in zip([g for g in got if g[0] == kind_],
                                [w for w in want if w[0] == kind_]):
                    check(g[1] == w[1], '{} of count {} instead of {}',
                          kind_, g[1], w[1])
                    check(np.array_equal(g[2], w[2]), '{} of argument {} '
                          'instead of {}', kind_, g[2], w[2])
                    check(same_float(g[3], w[3]), '{} of value {} instead of {}',
                          kind_, g[3], w[3])
            if hooks == 'both':
                check_printed(out.getvalue(), printed)
            else:
                check(out.getvalue() == '', 'printed {!r} all the same',
                      out.getvalue())
        if hooks in ('default', 'both'):
            model.log += logged
        for o, f, e, m, cc in objs:
            check(o.num_iterations() == m.count,
                  'count {} instead of {}', o.num_iterations(), m.count)
            check_log(o.optimization_log, m.log, kind)
    rec.nt(evals >= 3 and due >= 1)
    if due:
        rec.label('some due')
    if evals >= 8:
        rec.label('many evaluations')


def run_preconditioned(case, rec):
    """With a preconditioned function as the objective."""
    import paragami
    n = case['n']
    fun = Fun(n, case['s'])
    pf = paragami.PreconditionedFunction(fun)
    u = 2 * gen.uniform(gen.subseed(case['s'], 3), n * n).reshape(n, n) - 1
    a = u + (n + 1.) * np.eye(n)
    obj = paragami.OptimizationObjective(pf, print_every=0,
                                         log_every=case['log'])
    want = []
    x = 2 * gen.uniform(gen.subseed(case['s'], 4), n) - 1
    mat = np.eye(n)
    rec.nt(len(case['ops']) > 2)
    count = 0
    for op in case['ops']:
        rec.label(op)
        if op == 'set':
            # Later settings take effect in the objective.
            pf.set_preconditioner_matrix(a)
            mat = a
        elif op == 'unset':
            pf.set_identitity_preconditioner()
            mat = np.eye(n)
        else:
            sc = fun.scale * n ** 3 * 100
            v = obj.f(x)
            close(v, fun.value(mat @ x), sc, 'value')
            if case['log'] > 0 and count % case['log'] == 0:
                want.append((count, np.array(x), float(v)))
            count += 1
            close(obj.grad(x), mat.T @ fun.grad(mat @ x), sc, 'gradient')
            close(obj.hessian(x), mat.T @ fun.hess(mat @ x) @ mat, sc,
                  'Hessian')
            close(obj.hessian_vector_product(x, x),
                  mat.T @ fun.hess(mat @ x) @ mat @ x, sc * n,
                  'Hessian vector product')
            x *= 0.9
        check(obj.num_iterations() == count, 'count {} instead of {}',
              obj.num_iterations(), count)
        check_log(obj.optimization_log, want, op)


def entries(x):
    """The arrays of a structure, by path."""
    from autograd.builtins import isinstance
    if isinstance(x, dict):
        return [((k,) + p, a) for k in sorted(x) for p, a in entries(x[k])]
    if isinstance(x, (list, tuple)):
        return [((i,) + p, a) for i, y in enumerate(x)
                for p, a in entries(y)]
    return [((), x)]


def run_structured(case, rec):
    """Arguments that contain arrays."""
    import collections
    import autograd
    import autograd.numpy as np_
    import paragami
    s = case['s']
    a = 2 * gen.uniform(s, 3) - 1
    b = 2 * gen.uniform(gen.subseed(s, 1), 4).reshape(2, 2) - 1
    form = case['form']
    rec.label(form)
    if form == 'dict':
        x = {'a': a, 'b': b}
    elif form == 'ordered':
        x = collections.OrderedDict([('b', b), ('a', a)])
    elif form == 'nested':
        x = {'u': {'a': a}, 'v': [b, {'c': gen.uniform(s, 2)}]}
    elif form == 'list':
        x = [a, b]
    elif form == 'tuple':
        x = (a, b)
    else:
        x = (a, {'b': b})

    def fun(y):
        return sum(np_.sum((i + 1) * np_.sin(z))
                   for i, (_, z) in enumerate(entries(y)))

    def value():
        return float(sum(np.sum((i + 1) * np.sin(z))
                         for i, (_, z) in enumerate(entries(x))))
    hooked = []
    cls = paragami.OptimizationObjective
    if case['hook']:
        class Sub_(cls):
            def log_value(self, num_f_evals, x, f_val):
                hooked.append(num_f_evals)
                super().log_value(num_f_evals, x, f_val)
        cls = Sub_
    obj = cls(fun, print_every=0, log_every=case['log'])
    want = []
    count = 0
    for op in case['ops']:
        if op == 'f':
            v = obj.f(x)
            check(abs(float(v) - value()) <= 1e-12 * 30, 'value {}', v)
            if case['log'] > 0 and count % case['log'] == 0:
                want.append((count, [(p, np.array(z)) for p, z in entries(x)],
                             float(v)))
            count += 1
        elif op == 'grad':
            if form not in ('dict', 'list', 'tuple'):
                continue
            g = entries(obj.grad(x))
            for i, ((p, z), (q, y)) in enumerate(zip(entries(x), g)):
                check(p == q and np.all(np.abs(
                    np.asarray(y) - (i + 1) * np.cos(z)) <= 1e-12 * 8),
                    'gradient {}', g)
        else:
            # The caller reuses the arrays of its argument.
            z = entries(x)[op % len(entries(x))][1]
            z += 0.25
            if op >= 4 and isinstance(x, dict):
                k = sorted(x)[op % len(x)]
                x[k] = x[k] if not isinstance(x[k], np.ndarray) else x[k] * 2
        check(obj.num_iterations() == count, 'count')
        log = obj.optimization_log
        check(len(log) == len(want), '{} log entries instead of {}', len(log),
              len(want))
        for (n, y, f), (m, zs, g) in zip(log, want):
            ys = entries(y)
            check(n == m and float(f) == g and
                  [p for p, _ in ys] == [p for p, _ in zs] and
                  all(np.array_equal(np.asarray(u), w)
                      for (_, u), (_, w) in zip(ys, zs)),
                  'log entry {} instead of {}', (n, y, f), (m, zs, g))
    if case['hook']:
        check(hooked == [m for m in range(count) if case['log'] > 0 and
                         m % case['log'] == 0], 'hooks called: {}', hooked)
    rec.nt(len(want) >= 2)


def run_long(case, rec):
    """Hundreds of evaluations."""
    fun = Fun(2, case['s'])
    events = []
    c = dict(case, explicit=True)
    out = io.StringIO()
    log, printed, hooked = [], [], []
    count = 0
    x = np.array([0.3, -0.4])
    with contextlib.redirect_stdout(out):
        obj = build(c, fun, events)
        every = [case['print0'], case['log0']]
        for steps, change, n in case['segments']:
            for i in range(steps):
                x += 1e-3
                v = float(obj.f(x))
                item = (count, np.array(x), v)
                if every[0] > 0 and count % every[0] == 0:
                    printed.append(item)
                    hooked.append(('print', count, v))
                if every[1] > 0 and count % every[1] == 0:
                    log.append(item)
                    hooked.append(('log', count, v))
                count += 1
            if change == 'print':
                obj.set_print_every(n)
                every[0] = n
            elif change == 'log':
                obj.set_log_every(n)
                every[1] = n
            elif change == 'count':
                obj.reset_iteration_count()
                count = 0
            elif change == 'clear':
                obj.reset_log()
                log = []
    rec.nt(len(fun_calls(case)) > 0)
    rec.label('hooks:' + case['hooks'], 'evaluations:%d' % min(
        1000, fun.calls // 100 * 100))
    check(obj.num_iterations() == count, 'count {} instead of {}',
          obj.num_iterations(), count)
    if case['hooks'] in ('default', 'both'):
        check_log(obj.optimization_log, log, 'end')
        check_printed(out.getvalue(), printed)
    if case['hooks'] != 'default':
        got = sorted((e[0], e[1], float(e[4])) for e in events)
        check(got == sorted(hooked), 'hooks called {}, due {}', len(got),
              len(hooked))


def fun_calls(case):
    return [s for s in case['segments'] if s[0] > 20]


EVERY = st.sampled_from([1, 2, 0, 3, 5, 2, 3, 7, -1])
OP = st.fixed_dictionaries({
    'op': st.sampled_from(['f', 'f', 'f', 'f', 'f', 'f', 'grad', 'hessian',
                           'hvp', 'print every', 'log every', 'reset',
                           'reset count', 'reset log', 'modify', 'modify',
                           'replace', 'fail', 'fail derivative',
                           'offset']),
    'x': st.integers(0, 1), 'n': EVERY, 'pick': gen.picks(),
    'obj': st.sampled_from([0, 0, 1])})
HOOKS = st.sampled_from(['default', 'default', 'subclass', 'instance',
                         'both'])

PROP = Prop(
    'C25',
    'history: one or two objectives (default, subclassed or replaced hooks) '
    'and a history of evaluations, failures, derivative calls, interval '
    'changes, resets and in-place changes of the argument; after each '
    'operation the output, hook calls, count and whole log against a '
    'counting model.  preconditioned: the same of a preconditioned function '
    'with changing settings.  Non-trivial: at least three evaluations and '
    'one that is due for logging or for printing at an interval above one.',
    [Sub('history', st.fixed_dictionaries(
        {'n': st.integers(1, 4), 's': gen.seeds,
         'objects': st.sampled_from([1, 1, 2]), 'hooks': HOOKS,
         'hooks1': HOOKS, 'print0': EVERY, 'log0': EVERY, 'print1': EVERY,
         'log1': EVERY, 'explicit': st.booleans(),
         'ops': st.lists(OP, min_size=4, max_size=24)}), run, 4000),
     Sub('long', st.fixed_dictionaries(
         {'s': gen.seeds, 'hooks': HOOKS,
          'print0': st.sampled_from([0, 1, 7, 50, 100, 128, 256]),
          'log0': st.sampled_from([0, 1, 7, 50, 100, 128, 256]),
          'segments': st.lists(st.tuples(
              st.sampled_from([3, 40, 101, 130, 260]),
              st.sampled_from(['none', 'print', 'log', 'count', 'clear']),
              st.sampled_from([0, 1, 3, 10, 64, 100])).map(list),
              min_size=1, max_size=4)}), run_long, 960),
     Sub('structured', st.fixed_dictionaries(
         {'s': gen.seeds, 'log': st.sampled_from([1, 1, 2, 3, 0]),
          'hook': st.booleans(),
          'form': st.sampled_from(['dict', 'ordered', 'nested', 'list',
                                   'tuple', 'both']),
          'ops': st.lists(st.sampled_from(
              ['f', 'f', 'f', 'f', 'grad', 0, 1, 2, 3, 4, 5]),
              min_size=3, max_size=12)}),
         run_structured, 800),
     Sub('preconditioned', st.fixed_dictionaries(
         {'n': st.integers(1, 3), 's': gen.seeds,
          'log': st.sampled_from([1, 2, 0, 3]),
          'ops': st.lists(st.sampled_from(['f', 'f', 'set', 'unset']),
                          min_size=2, max_size=8)}),
         run_preconditioned, 800)],
    ['Arguments are arrays, or dictionaries, lists and tuples of them; '
     'intervals are integers, and those that are not positive switch the '
     'reports off.'])
