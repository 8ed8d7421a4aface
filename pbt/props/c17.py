"""C17: output-transformed functions equal the transformed original outputs."""
import collections
import functools
import numpy as np
from hypothesis import strategies as st
from .. import gen, wrap
from ..core import Prop, Sub, check, Violation


class Source:
    """The original function: returns what it is told to."""
    def __init__(self):
        self.calls = []
        self.ret = None

    def __call__(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        if isinstance(self.ret, Exception):
            raise self.ret
        return self.ret


class Values(tuple):
    pass


def as_tuple(rets, kind):
    """Functions return tuples, named tuples, and other kinds of tuple."""
    if kind == 'named':
        return collections.namedtuple(
            'Result', ['r%d' % i for i in range(len(rets))])(*rets)
    if kind == 'derived':
        return Values(rets)
    return rets


def one_value(rets, before, seed):
    """One value that is not a tuple, however many values it contains."""
    k = gen.subseed(seed, 31) % 6
    flat = [b for b in before if isinstance(b, np.ndarray) and b.ndim == 1]
    if k == 0:
        return list(rets)
    if k == 1:
        return dict(enumerate(rets))
    if k == 2:
        # As many rows as values.
        row = flat[0] if flat else np.ones(3)
        return np.array([row for _ in rets])
    if k == 3:
        out = np.empty(len(rets), dtype=object)
        for i, r in enumerate(rets):
            out[i] = r
        return out
    if k == 4:
        return np.arange(len(rets) + 1.)
    return rets[0]


def dress(src, how):
    """The same function as different kinds of callable."""
    if how == 'instance':
        return src
    if how == 'partial':
        return functools.partial(src)
    if how == 'method':
        return src.__call__
    if how == 'lambda':
        return lambda *a, **k: src(*a, **k)

    def fun(*args, **kwargs):
        return src(*args, **kwargs)
    return fun


def make(case, fun, pats, nums, free):
    import paragami
    is_flat = case['original_is_flat']
    kw = {} if nums is None else {'retnums': nums}
    if case['cls'] == 'transform':
        return paragami.TransformFunctionOutput(
            original_fun=fun, patterns=pats, free=free,
            original_is_flat=is_flat, **kw)
    cls = paragami.FoldFunctionOutput if is_flat else \
        paragami.FlattenFunctionOutput
    if case['cls'] == 'positional':
        return cls(fun, pats, free) if nums is None else \
            cls(fun, pats, free, nums)
    return cls(original_fun=fun, patterns=pats, free=free, **kw)


def reject(f, what):
    try:
        r = f()
    except ValueError:
        return
    raise Violation('{} was accepted (returned {})'.format(what, r))


def check_outputs(out, rets, before, case, where, to_folded, what):
    check(isinstance(out, tuple), '{}: returned a {}', what, type(out))
    check(len(out) == len(rets), '{}: {} values instead of {}', what,
          len(out), len(rets))
    for pos in range(len(rets)):
        if pos not in where:
            check(out[pos] is rets[pos], '{}: value {} is {!r}', what, pos,
                  out[pos])
        else:
            check_one(out[pos], before[pos], case['pats'][where[pos]],
                      to_folded, '{}: value {}'.format(what, pos))


def check_one(out, before, pat, to_folded, what):
    want = wrap.expected(pat, before, to_folded)
    check(wrap.same_value(out, want, exact=not wrap.effective(pat)),
          '{} is {}, expected {}', what, out, want)
    if to_folded:
        gen.same_structure(pat['spec'], out)


def run(case, rec):
    wrap.labels(rec, case)
    is_flat = case['original_is_flat']
    src = Source()
    f = make(case, dress(src, case['how']),
             wrap.pattern_argument(case, wrap.build_patterns(case)),
             wrap.number_argument(case), wrap.free_argument(case))
    where = {pos: i for i, pos in enumerate(case['order'])}
    undetermined = wrap.undetermined(case)
    need = max(where) + 1
    for call in case['calls']:
        args = tuple(wrap.passed(call['s'], i) for i in range(call['nargs']))
        kwargs = {k: wrap.passed(call['s'], k) for k in call['kw']}
        n = case['n'] + call['extra']
        n = max(0, min(n, n - call['drop']))
        rets, before = [], []
        for pos in range(n):
            if pos in where:
                v = wrap.source_value(case['pats'][where[pos]],
                                      gen.subseed(call['s'], pos),
                                      flat=is_flat)
                before.append(wrap.snapshot(v))
                if call.get('aslist') and \
                        (is_flat or gen.is_num(case['pats'][where[pos]]
                                               ['spec'])):
                    # Array-likes.
                    v = np.asarray(v).tolist() if np.asarray(v).size else v
                    rec.label('list')
            else:
                v = wrap.passed(call['s'], 'ret%d' % pos)
                before.append(None)
            rets.append(v)
        rets = tuple(rets)
        src.calls.clear()
        single = call['single'] and n > 0
        if single:
            # One value that is not a tuple is position zero.
            src.ret = rets[0]
            rec.label('single return')
            if set(where) != {0}:
                rec.label('single, but other positions')
                src.ret = one_value(rets, before, call['s'])
                rec.label('one ' + type(src.ret).__name__)
                reject(lambda: f(*args, **kwargs),
                       'a single return value for positions {}'.format(
                           case['order']))
            elif undetermined:
                reject(lambda: f(*args, **kwargs), 'no parameterization')
            else:
                out = f(*args, **kwargs)
                check(not isinstance(out, tuple), 'became a tuple')
                check_one(out, before[0], case['pats'][0], is_flat,
                          'single value')
        else:
            src.ret = as_tuple(rets, call['kind'])
            rec.label('kind:' + call['kind'])
            if n < need:
                rec.label('too few')
                reject(lambda: f(*args, **kwargs), 'too few return values')
            elif undetermined:
                rec.label('no default')
                reject(lambda: f(*args, **kwargs), 'no parameterization')
            else:
                out = f(*args, **kwargs)
                check_outputs(out, rets, before, case, where, is_flat, 'call')
                if n == 1:
                    rec.label('one-element tuple')
                rec.nt(n > 1)
                rec.label('tuple')
        check(len(src.calls) == 1, 'original called {} times', len(src.calls))
        got, gkw = src.calls[0]
        check(len(got) == len(args) and
              all(x is y for x, y in zip(got, args)), 'arguments changed')
        check(list(gkw) == list(kwargs) and
              all(gkw[k] is kwargs[k] for k in kwargs), 'keywords changed')
        for pos in range(n):
            if pos in where:
                check(wrap.same_value(np.asarray(rets[pos])
                                      if isinstance(rets[pos], list)
                                      else rets[pos], before[pos], True),
                      'the returned value {} was modified', pos)


def run_both(case, rec):
    """Input and output wrappers together."""
    import paragami
    ic, oc = case['inputs'], case['outputs']
    if wrap.undetermined(ic) or wrap.undetermined(oc):
        return
    wrap.labels(rec, ic)
    is_flat = case['original_is_flat']
    rec.nt(len(ic['order']) + len(oc['order']) > 2 or ic['n'] > 1)
    rec.label('flat original' if is_flat else 'folded original')
    src = Source()
    cls = paragami.FoldFunctionInputAndOutput if is_flat else \
        paragami.FlattenFunctionInputAndOutput
    innums, outnums = wrap.number_argument(ic), wrap.number_argument(oc)
    if innums is None:
        innums = list(ic['order'])
    # Reuse one pattern for input and output where they are equal.
    ipats, opats = wrap.build_patterns(ic), wrap.build_patterns(oc)
    if ic['pats'][0]['spec'] == oc['pats'][0]['spec']:
        opats[0] = ipats[0]
    iarg, oarg = wrap.pattern_argument(ic, ipats), \
        wrap.pattern_argument(oc, opats)
    ifree, ofree = wrap.free_argument(ic), wrap.free_argument(oc)
    fun = dress(src, case['how'])
    if case['positional']:
        args_ = (fun, iarg, ifree, innums, oarg, ofree)
        f = cls(*args_) if outnums is None else cls(*(args_ + (outnums,)))
    else:
        kw = {} if outnums is None else {'output_retnums': outnums}
        f = cls(original_fun=fun, input_patterns=iarg, input_free=ifree,
                input_argnums=innums, output_patterns=oarg,
                output_free=ofree, **kw)
    iw = {pos: i for i, pos in enumerate(ic['order'])}
    ow = {pos: i for i, pos in enumerate(oc['order'])}
    for seed in case['seeds']:
        args = [wrap.source_value(ic['pats'][iw[p]],
                                  gen.subseed(seed, p), flat=not is_flat)
                if p in iw else wrap.Opaque(('in', p))
                for p in range(ic['n'])]
        kwargs = {k: wrap.passed(seed, k) for k in case['kw']}
        rets = tuple(
            wrap.source_value(oc['pats'][ow[p]], gen.subseed(seed, 77, p),
                              flat=is_flat)
            if p in ow else wrap.Opaque(('out', p)) for p in range(oc['n']))
        before = [wrap.snapshot(r) if p in ow else None
                  for p, r in enumerate(rets)]
        abefore = [wrap.snapshot(a) if p in iw else None
                   for p, a in enumerate(args)]
        single = case['single'] and set(ow) == {0}
        src.ret = rets[0] if single else as_tuple(rets, case['kind'])
        src.calls.clear()
        out = f(*args, **kwargs)
        check(len(src.calls) == 1, 'called {} times', len(src.calls))
        got, gkw = src.calls[0]
        check(len(got) == len(args), 'number of arguments')
        check(list(gkw) == list(kwargs) and
              all(gkw[k] is kwargs[k] for k in kwargs), 'keywords changed')
        for p in range(len(args)):
            if p not in iw:
                check(got[p] is args[p], 'argument {} changed', p)
            else:
                check_one(got[p], abefore[p], ic['pats'][iw[p]],
                          not is_flat, 'argument {}'.format(p))
        if single:
            check(not isinstance(out, tuple), 'single became a tuple')
            check_one(out, before[0], oc['pats'][0], is_flat, 'single value')
        else:
            check_outputs(out, rets, before, oc, ow, is_flat, 'both')


def run_bad(case, rec):
    from . import c16
    setup = c16.bad_setup(case)
    if setup is None:
        return
    pats, nums, free, what = setup
    rec.label(what)
    rec.nt()
    reject(lambda: make(case, Source(), pats, nums, free), what)


KIND = st.sampled_from(['plain', 'plain', 'named', 'derived'])
CALL = st.fixed_dictionaries({
    's': gen.seeds, 'extra': st.sampled_from([0, 0, 1, 3]),
    'drop': st.sampled_from([0, 0, 0, 1, 2, 6]), 'nargs': st.integers(0, 3),
    'single': st.sampled_from([False, False, False, True]),
    'aslist': st.sampled_from([False, False, False, True]), 'kind': KIND,
    'kw': st.lists(st.sampled_from(['x', 'free', 'patterns', 'retnums',
                                    'rets', 'fun']),
                   max_size=3, unique=True)})
HOW = st.sampled_from(['instance', 'partial', 'method', 'lambda', 'function'])


@st.composite
def cases(draw, extra, slots=wrap.slots()):
    case = draw(slots)
    if draw(st.integers(0, 4)) == 0:
        case['order'] = [0]
        case['pats'] = case['pats'][:1]
        case['freeform'] = 'list'
    case['original_is_flat'] = draw(st.booleans())
    case['cls'] = draw(st.sampled_from(['transform', 'named', 'positional']))
    case.update(draw(st.fixed_dictionaries(extra)))
    return case


@st.composite
def both(draw):
    i = draw(wrap.slots(hi=4))
    o = draw(wrap.slots(hi=4))
    if draw(st.booleans()):
        # The same pattern on both sides, possibly with another choice.
        o['pats'][0]['spec'] = i['pats'][0]['spec']
        if wrap.effective(o['pats'][0]) is None:
            o['pats'][0]['free'] = True
            o['freeform'] = 'list'
    if draw(st.integers(0, 2)) == 0:
        o['order'] = [0]
        o['pats'] = o['pats'][:1]
        o['freeform'] = 'list'
    return {'inputs': i, 'outputs': o,
            'original_is_flat': draw(st.booleans()),
            'how': draw(HOW), 'positional': draw(st.booleans()),
            'seeds': draw(st.lists(gen.seeds, min_size=1, max_size=2)),
            'single': draw(st.booleans()), 'kind': draw(KIND),
            'kw': draw(st.lists(st.sampled_from(['a', 'b', 'free']),
                                max_size=2, unique=True))}


PROP = Prop(
    'C17',
    'A case is an output wrapper over 1 to 6 return values (positions in any '
    'order, patterns, parameterizations, kind of callable) and calls with '
    'tuples of varying length, one-element tuples and single values.  '
    'Transformed values are compared with the reference layout or a fresh '
    'pattern, all others and all arguments by identity.  both: the combined '
    'wrappers.  bad: invalid set-ups.  Non-trivial: a successful call with '
    'more than one return value (calls); more than one position on either '
    'side (both).',
    [Sub('calls', cases({'calls': st.lists(CALL, min_size=1, max_size=3),
                         'how': HOW}), run, 4000),
     Sub('many', cases({'calls': st.lists(CALL, min_size=1, max_size=2),
                        'how': HOW}, wrap.many_slots()), run, 3200),
     Sub('both', both(), run_both, 2400),
     Sub('bad', cases({'bad': st.sampled_from(
         ['duplicate', 'duplicate', 'more numbers', 'fewer numbers',
          '2d patterns', '2d numbers', 'free length', '2d free']),
         'pick': gen.picks()}), run_bad, 1600)],
    ['Negative positions are outside of the domain.'])
