"""C16: input-transformed functions equal the original on transformed
arguments."""
import numpy as np
from hypothesis import strategies as st
from .. import gen, wrap
from ..core import Prop, Sub, check, Violation


class Recorder:
    """The original function: records its call and returns a token."""
    def __init__(self, form):
        self.calls = []
        self.form = form

    def __call__(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        self.token = [wrap.Opaque('return')]
        if self.form == 'tuple':
            self.token = (wrap.Opaque('r0'), wrap.Opaque('r1'))
        elif self.form == 'none':
            self.token = None
        return self.token


class Boom(Exception):
    pass


def make(case, fun, pats, nums, free):
    import paragami
    is_flat = case['original_is_flat']
    if case['cls'] == 'transform':
        kw = {} if nums is None else {'argnums': nums}
        return paragami.TransformFunctionInput(
            original_fun=fun, patterns=pats, free=free,
            original_is_flat=is_flat, **kw)
    cls = paragami.FoldFunctionInput if is_flat else \
        paragami.FlattenFunctionInput
    if case['cls'] == 'positional':
        return cls(fun, pats, free) if nums is None else \
            cls(fun, pats, free, nums)
    kw = {} if nums is None else {'argnums': nums}
    return cls(original_fun=fun, patterns=pats, free=free, **kw)


def run(case, rec):
    wrap.labels(rec, case)
    is_flat = case['original_is_flat']
    pats = wrap.build_patterns(case)
    fun = Recorder(case['ret'])
    nums = wrap.number_argument(case)
    f = make(case, fun, wrap.pattern_argument(case, pats), nums,
             wrap.free_argument(case))
    where = {pos: i for i, pos in enumerate(case['order'])}
    rec.nt(len(where) > 1 or case['n'] > 1)
    undetermined = wrap.undetermined(case)
    for c, call in enumerate(case['calls']):
        args, before = [], []
        for pos in range(case['n'] + call['extra']):
            if pos in where:
                # The wrapped function takes the opposite form.
                v = wrap.source_value(
                    case['pats'][where[pos]],
                    gen.subseed(call['s'], pos), flat=not is_flat)
                before.append(wrap.snapshot(v))
            else:
                v = wrap.passed(call['s'], pos)
                before.append(None)
            args.append(v)
        # Trailing untransformed arguments are optional.
        need = max(case['order']) + 1
        args = args[:max(need, len(args) - call['drop'])]
        kwargs = {k: wrap.passed(call['s'], k) for k in call['kw']}
        ncalls = len(fun.calls)
        if undetermined:
            try:
                f(*args, **kwargs)
            except ValueError:
                rec.label('no default')
                check(len(fun.calls) == ncalls, 'called all the same')
                continue
            raise Violation('no parameterization, but no error')
        out = f(*args, **kwargs)
        check(out is fun.token, 'the return value is not passed through')
        check(len(fun.calls) == ncalls + 1, 'original called {} times',
              len(fun.calls) - ncalls)
        got, gkw = fun.calls[-1]
        check(len(got) == len(args), '{} arguments instead of {}', len(got),
              len(args))
        check(list(gkw) == list(kwargs), 'keywords {} != {}', list(gkw),
              list(kwargs))
        for k in kwargs:
            check(gkw[k] is kwargs[k], 'keyword {} changed', k)
        for pos in range(len(args)):
            if pos not in where:
                check(got[pos] is args[pos], 'argument {} is {!r}', pos,
                      got[pos])
                continue
            pat = case['pats'][where[pos]]
            want = wrap.expected(pat, before[pos], to_folded=not is_flat)
            exact = not wrap.effective(pat)
            check(wrap.same_value(got[pos], want, exact),
                  'argument {} is {}, expected {}', pos, got[pos], want)
            if not is_flat:
                gen.same_structure(pat['spec'], got[pos])
            check(wrap.same_value(args[pos], before[pos], True),
                  'the caller\'s argument {} was changed', pos)


def run_nested(case, rec):
    """Wrapping position by position, in any order, is wrapping at once; and
    folding after flattening is the original."""
    wrap.labels(rec, case)
    if wrap.undetermined(case):
        return
    is_flat = case['original_is_flat']
    rec.nt(len(case['order']) > 1)
    fun = Recorder('token')
    f = fun
    for pos, pat in zip(case['order'], case['pats']):
        f = make(dict(case), f, gen.build(pat['spec']), pos, pat['free'])
    where = {pos: i for i, pos in enumerate(case['order'])}
    args, want = [], []
    for pos in range(case['n']):
        if pos in where:
            pat = case['pats'][where[pos]]
            v = wrap.source_value(pat, gen.subseed(case['s'], pos),
                                  flat=not is_flat)
            args.append(v)
            want.append(wrap.expected(pat, v, to_folded=not is_flat))
        else:
            args.append(wrap.Opaque(pos))
            want.append(None)
    f(*args)
    got = fun.calls[-1][0]
    check(len(got) == len(args), 'number of arguments')
    for pos in range(case['n']):
        if pos in where:
            check(wrap.same_value(got[pos], want[pos]),
                  'argument {} is {}, expected {}', pos, got[pos], want[pos])
        else:
            check(got[pos] is args[pos], 'argument {} changed', pos)
    # Transform back.
    back = f
    pats = [gen.build(p['spec']) for p in case['pats']]
    frees = [p['free'] for p in case['pats']]
    back = make(dict(case, original_is_flat=not is_flat), f, pats,
                list(case['order']), frees)
    args2 = [want[pos] if pos in where else args[pos]
             for pos in range(case['n'])]
    back(*args2)
    got = fun.calls[-1][0]
    for pos in range(case['n']):
        if pos in where:
            check(wrap.same_value(got[pos], args2[pos]) or
                  close(got[pos], args2[pos]),
                  'argument {} after a round trip is {}, expected {}', pos,
                  got[pos], args2[pos])
        else:
            check(got[pos] is args2[pos], 'argument {} changed', pos)


def close(a, b):
    if isinstance(b, dict):
        return list(a) == list(b) and all(close(a[k], b[k]) for k in b)
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(
        (np.abs(a - b) <= 1e-6 * (1 + np.abs(b))).all())


def reject(f, what):
    try:
        f()
    except ValueError:
        return
    raise Violation('{} was accepted'.format(what))


def object_array(objs, shape):
    a = np.empty(len(objs), dtype=object)
    for i, o in enumerate(objs):
        a[i] = o
    return a.reshape(shape)


def bad_setup(case):
    """(patterns, numbers, free, what) that must be rejected, or None."""
    pats = wrap.build_patterns(case)
    order = list(case['order'])
    frees = [p['free'] for p in case['pats']]
    k, kind, pick = len(order), case['bad'], case['pick']
    if kind == 'duplicate':
        i = pick % k
        j = (i + 1 + pick // k % max(1, k - 1)) % k
        if i == j:
            return [pats[0], gen.build(case['pats'][0]['spec'])], \
                [order[0], order[0]], frees[0], 'duplicated position'
        order[j] = order[i]
        return pats, order, frees, 'duplicated position'
    if kind == 'more numbers':
        extra = [i for i in range(case['n'] + 1) if i not in order]
        order.insert(pick % (k + 1), extra[pick % len(extra)])
        return pats, order, frees, 'more positions than patterns'
    if kind == 'fewer numbers':
        if k < 2:
            return None
        del order[pick % k]
        return pats, order, frees[0], 'fewer positions than patterns'
    if kind == '2d patterns':
        shapes = [(1, k), (k, 1), (1, 1, k)] + \
            ([(2, k // 2)] if k % 2 == 0 else [])
        return object_array(pats, shapes[pick % len(shapes)]), order, \
            True, 'multi-dimensional patterns'
    if kind == '2d numbers':
        shapes = [(1, k), (k, 1), (1, k, 1)]
        return pats, np.array(order).reshape(shapes[pick % 3]), frees, \
            'multi-dimensional positions'
    if kind == 'free length':
        if pick % 2 and k > 2:
            bad = frees[:-1]
        else:
            bad = frees + [True]
            if len(bad) < 2 or k == 1:
                bad = [True, False]
        return pats, order, bad, 'mismatched number of parameterizations'
    return pats, order, [frees, frees] if k > 1 else [[True], [False]], \
        'two-dimensional parameterizations'


def run_bad(case, rec):
    setup = bad_setup(case)
    if setup is None:
        return
    pats, nums, free, what = setup
    rec.label(what)
    rec.nt()
    reject(lambda: make(case, Recorder('token'), pats, nums, free), what)


def run_errors(case, rec):
    """Errors of the original, and rejected arguments, reach the caller and
    leave the wrapper usable."""
    if wrap.undetermined(case):
        return
    wrap.labels(rec, case)
    is_flat = case['original_is_flat']
    rec.nt()
    state = {'raise': True}
    seen = []
    boom = Boom('x')

    def fun(*args, **kwargs):
        if state['raise']:
            raise boom
        seen.append(args)
        return 7
    f = make(case, fun, wrap.pattern_argument(case, wrap.build_patterns(case)),
             wrap.number_argument(case), wrap.free_argument(case))
    where = {pos: i for i, pos in enumerate(case['order'])}
    args = [wrap.source_value(case['pats'][where[pos]],
                              gen.subseed(case['s'], pos), flat=not is_flat)
            if pos in where else wrap.Opaque(pos)
            for pos in range(case['n'])]
    try:
        f(*args)
    except Boom as e:
        check(e is boom, 'another exception')
    else:
        raise Violation('the exception of the original was lost')
    # A wrong length or shape at one position.
    pos = case['order'][case['pick'] % len(case['order'])]
    spec = case['pats'][where[pos]]['spec']
    if is_flat:
        if spec['k'] == 'dict' and not spec['items']:
            return
        bad = np.zeros((2, 3, 2, 3, 2, 3, 2)) if spec['k'] != 'dict' \
            else {'not a key': np.zeros(2)}
    else:
        bad = np.concatenate([args[pos], [0.5]])
    try:
        f(*[bad if i == pos else a for i, a in enumerate(args)])
    except ValueError:
        pass
    except Boom:
        raise Violation('an invalid argument {} reached the original'.format(
            pos))
    else:
        raise Violation('an invalid argument was accepted')
    state['raise'] = False
    check(f(*args) == 7 and len(seen) == 1, 'unusable after an error')
    for i in range(case['n']):
        if i in where:
            want = wrap.expected(case['pats'][where[i]], args[i],
                                 to_folded=not is_flat)
            check(wrap.same_value(seen[0][i], want), 'argument {} differs', i)
        else:
            check(seen[0][i] is args[i], 'argument {} changed', i)


KW = st.lists(st.sampled_from(['x', 'free', 'patterns', 'argnums', 'fun',
                               'original_fun', 'val', 'args', 'y0']),
              max_size=3, unique=True)
CALL = st.fixed_dictionaries({
    's': gen.seeds, 'extra': st.sampled_from([0, 0, 1, 3]),
    'drop': st.sampled_from([0, 0, 1, 2]), 'kw': KW})


@st.composite
def cases(draw, extra=None, slots=wrap.slots()):
    case = draw(slots)
    case['original_is_flat'] = draw(st.booleans())
    case['cls'] = draw(st.sampled_from(['transform', 'named', 'positional']))
    if extra:
        case.update(draw(st.fixed_dictionaries(extra)))
    return case


PROP = Prop(
    'C16',
    'A case is a wrapper over 1 to 6 arguments: positions in any order and '
    'form, a generated pattern and parameterization (or the default) for '
    'each, fold or flatten.  The original records its call: transformed '
    'arguments are compared with the reference layout (or a fresh pattern), '
    'every other argument and keyword by identity.  nested: one wrapper per '
    'position and the round trip.  bad: invalid set-ups.  errors: '
    'exceptions and rejected arguments.  Non-trivial: more than one '
    'argument (calls), more than one position (nested).',
    [Sub('calls', cases({'ret': st.sampled_from(['token', 'tuple', 'none']),
                         'calls': st.lists(CALL, min_size=1, max_size=3)}),
         run, 4000),
     Sub('many', cases({'ret': st.just('token'),
                        'calls': st.lists(CALL, min_size=1, max_size=2)},
                       wrap.many_slots()), run, 3200),
     Sub('nested', cases({'s': gen.seeds}), run_nested, 1600),
     Sub('bad', cases({'bad': st.sampled_from(
         ['duplicate', 'duplicate', 'more numbers', 'fewer numbers',
          '2d patterns', '2d numbers', 'free length', '2d free']),
         'pick': gen.picks()}), run_bad, 1600),
     Sub('errors', cases({'s': gen.seeds, 'pick': gen.picks()}),
         run_errors, 1200)],
    ['Negative positions, and calls with fewer arguments than positions, are '
     'outside of the domain.'])
