"""C05: an unspecified parameterization uses the default or is an error."""
import numpy as np
from hypothesis import strategies as st
from .. import gen, wrap
from ..core import Prop, Sub, check, Violation


def nodes(spec, p):
    """(pattern, spec) for every pattern in the tree that is reachable."""
    out = [(p, spec)]
    if spec['k'] == 'dict':
        for name, s in spec['items']:
            out += nodes(s, p[name])
    if spec['k'] == 'parr':
        out += nodes(spec['base'], p.base_pattern())
    return out


def strip_defaults(spec):
    s = dict(spec, fd=None)
    if s['k'] == 'dict':
        s['items'] = [[n, strip_defaults(x)] for n, x in s['items']]
    if s['k'] == 'parr':
        s['base'] = strip_defaults(s['base'])
    return s


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and \
            all(same(a[k], b[k]) for k in a)
    return gen.nearly(a, b)


def mask_of(spec, seed):
    def fn(path, s):
        n = gen.flat_len(s, False)
        return (gen.uniform(gen.pathseed(seed, path), n) < 0.5).reshape(
            gen.shape_of(s))
    return gen.map_leaves(spec, fn)


def run(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    ref = gen.build(strip_defaults(spec))
    everything = nodes(spec, p)
    fills = case['fills']
    vals = [gen.interior(spec, f) for f in fills]
    frees = [gen.free_vector(spec, f) for f in fills]
    changes = 0
    used_default = set()
    current = [s.get('fd') for _, s in everything]
    for op in case['ops']:
        kind = op['op']
        if kind == 'set':
            i = op['node'] % len(everything) if op['node'] else 0
            everything[i][0].free_default = op['to']
            current[i] = op['to']
            changes += 1
            rec.label('set member default' if i else 'set default')
            continue
        for (q, s), fd in zip(everything, current):
            check(q.free_default is fd, 'free_default is {}, not {}',
                  q.free_default, fd)
        free = gen.npflag(op['free'], fills[0]['s'])
        resolved = current[0] if free is None else free
        k = op['fill'] % len(fills)
        val = vals[k]
        if kind == 'fold':
            x = frees[k] if resolved else gen.ref_flatten(spec, val)
            f = (lambda q, fr: q.fold(x, free=fr))
        elif kind == 'flatten':
            f = (lambda q, fr: q.flatten(val, free=fr))
        elif kind == 'length':
            f = (lambda q, fr: q.flat_length(free=fr))
        elif kind == 'indices':
            m = mask_of(spec, fills[k]['s'])
            f = (lambda q, fr: q.flat_indices(m, free=fr))
        else:
            f = (lambda q, fr: list(q.flat_names(free=fr)))
        if resolved is None:
            some = kind == 'indices' and bool(
                np.any(gen.ref_flatten(spec, m)))
            if kind in ('fold', 'flatten', 'length') or some:
                # Whether the argument is None or not passed.
                omitted = {'fold': lambda: p.fold(x),
                           'flatten': lambda: p.flatten(val),
                           'length': lambda: p.flat_length(),
                           'indices': lambda: p.flat_indices(m)}[kind]
                for g in (lambda: f(p, None), omitted):
                    try:
                        r = g()
                    except ValueError:
                        rec.label('rejected')
                        continue
                    raise Violation('{} without any choice returned {}'.format(
                        kind, r))
            continue
        want = f(ref, resolved)
        got = f(p, free)
        check(same(got, want), '{} with free={} and default {} differs from '
              'free={}: {} != {}', kind, free, current[0], resolved, got, want)
        if free is None:
            used_default.add(resolved)
            rec.label('default:' + kind)
            # Not passing the argument at all is the same.
            if kind == 'fold':
                got = p.fold(x)
            elif kind == 'flatten':
                got = p.flatten(val)
            elif kind == 'length':
                got = p.flat_length()
            elif kind == 'indices':
                got = p.flat_indices(m)
            check(same(got, want), '{} without free differs', kind)
        else:
            rec.label('explicit:' + kind)
    rec.nt(bool(used_default) and gen.flat_len(spec, False) > 0)
    if changes and used_default:
        rec.label('default after change')


def run_wrapped(case, rec):
    """Wrapped functions whose parameterization is left unspecified: the
    default in force at each call."""
    import paragami
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p, ref = gen.build(spec), gen.build(strip_defaults(spec))
    is_flat, side = case['original_is_flat'], case['side']
    rec.label(side, 'flat original' if is_flat else 'folded original')
    seen = []

    def original(*args):
        seen.append(args)
        return args[0] if len(args) == 1 else args
    free = None if case['scalar'] else [None]
    if side == 'input':
        cls = paragami.FoldFunctionInput if is_flat else \
            paragami.FlattenFunctionInput
        f = cls(original, p, free, 0 if case['numbers'] else None)
    elif side == 'output':
        cls = paragami.FoldFunctionOutput if is_flat else \
            paragami.FlattenFunctionOutput
        f = cls(original, p, free, 0 if case['numbers'] else None)
    else:
        cls = paragami.FoldFunctionInputAndOutput if is_flat else \
            paragami.FlattenFunctionInputAndOutput
        f = cls(original, p, free, 0, p, free, 0)
    # Whether the wrapper is given a flat value, and what it returns.
    takes_flat = is_flat if side == 'output' else not is_flat
    default = spec.get('fd')
    used = set()
    for call in case['calls']:
        if 'to' in call:
            p.free_default = default = call['to']
            continue
        val = gen.interior(spec, call['fill'])
        x = val
        if takes_flat:
            x = gen.free_vector(spec, call['fill']) if default else \
                gen.ref_flatten(spec, val)
        args = (x, 'other') if call['two'] else (x,)
        del seen[:]
        if default is None:
            rec.label('rejected')
            try:
                r = f(*args)
            except ValueError:
                continue
            raise Violation('a call without any choice returned {}'.format(r))
        used.add(default)
        change = (lambda v: ref.fold(v, free=default)) if takes_flat else \
            (lambda v: ref.flatten(v, free=default))
        got = f(*args)
        first = got[0] if call['two'] else got
        want = change(x)
        if side == 'input':
            check(same(seen[0][0], want), 'the default {} gives argument {} '
                  'instead of {}', default, seen[0][0], want)
        elif side == 'both':
            check(same(seen[0][0], want), 'the default {} gives argument {} '
                  'instead of {}', default, seen[0][0], want)
            want = ref.flatten(want, free=default) if takes_flat else \
                ref.fold(want, free=default)
        check(same(first, want), 'the default {} gives {} instead of {}',
              default, first, want)
    rec.nt(bool(used) and gen.flat_len(spec, False) > 0)
    if len(used) > 1:
        rec.label('both defaults')


CALLS = st.lists(st.one_of(
    st.fixed_dictionaries({'to': st.sampled_from([True, False, True, False,
                                                  None])}),
    st.fixed_dictionaries({'fill': gen.fills(), 'two': st.booleans()}),
    st.fixed_dictionaries({'fill': gen.fills(), 'two': st.booleans()})),
    min_size=2, max_size=6)


def ops():
    return st.lists(st.one_of(
        st.fixed_dictionaries({
            'op': st.just('set'), 'node': st.sampled_from([0, 0, 0, 1, 2, 3]),
            'to': st.sampled_from([True, False, None])}),
        st.fixed_dictionaries({
            'op': st.sampled_from(['fold', 'flatten', 'length', 'indices',
                                   'names']),
            'free': st.sampled_from([None, None, None, True, False]),
            'fill': st.integers(0, 1)}),
        st.fixed_dictionaries({
            'op': st.sampled_from(['fold', 'flatten', 'length', 'indices',
                                   'names']),
            'free': st.sampled_from([None, None, None, True, False]),
            'fill': st.integers(0, 1)})), min_size=2, max_size=9)


PROP = Prop(
    'C05',
    'A case is a generated pattern with defaults on it and its members, two '
    'values, and a history of default changes (on the pattern or a member) '
    'and calls with explicit or unspecified parameterization; the oracle is '
    'the same pattern built without defaults and called explicitly.  '
    'wrapped: the same for wrapped functions, each call using the default '
    'then in force.  '
    'Non-trivial: at least one call on a non-empty pattern used a default.',
    [Sub('history', st.fixed_dictionaries(
        {'spec': gen.specs(), 'fills': st.lists(gen.fills(), min_size=2,
                                                max_size=2),
         'ops': ops()}), run, 7200),
     Sub('wrapped', st.fixed_dictionaries(
         {'spec': wrap.small_specs(), 'original_is_flat': st.booleans(),
          'side': st.sampled_from(['input', 'output', 'both']),
          'scalar': st.booleans(), 'numbers': st.booleans(),
          'calls': CALLS}), run_wrapped, 2400)],
    ['Names of numeric arrays and indices of an empty mask do not depend on '
     'the choice and are not required to reject a missing one.'])
