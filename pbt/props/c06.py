"""C06: a pattern restored from JSON is identical to the original."""
import copy
import json
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check
from .c04 import CORR, corrupt


class Vec:
    __hash__ = None

    """A vector that compares up to rounding."""
    def __init__(self, x):
        self.x = np.asarray(x)

    def __eq__(self, other):
        return isinstance(other, Vec) and gen.nearly(self.x, other.x)

    def __repr__(self):
        return repr(self.x)


def behaviour(p, spec, fill, corr):
    """A list of observations that determine the pattern's behaviour."""
    obs = [('type', type(p).__module__ + '.' + type(p).__name__),
           ('free_default', p.free_default), ('str', str(p))]
    for free in (True, False):
        obs.append(('len', free, int(p.flat_length(free=free))))
        obs.append(('names', free, [str(n) for n in p.flat_names(free)]))
    k = spec['k']
    if k in ('arr', 'vec', 'sca', 'psd', 'sim'):
        obs.append(('dv', p.default_validate))
    if k != 'dict':
        obs.append(('shape', tuple(p.shape())))
    if gen.is_num(spec):
        obs.append(('bounds', tuple(float(b) for b in p.bounds())))
    if k == 'psd':
        obs.append(('size', p.size(), float(p.diag_lb())))
    if k == 'sim':
        obs.append(('sim', p.simplex_size(), tuple(p.array_shape())))
    if k == 'parr':
        obs.append(('array_shape', tuple(p.array_shape())))
        obs += [('base',) + o for o in
                behaviour(p.base_pattern(), spec['base'], fill, corr)]
    if k == 'dict':
        obs.append(('keys', list(p.keys())))
        for name, s in spec['items']:
            obs += [('member', name) + o
                    for o in behaviour(p[name], s, fill, corr)]
    val = gen.interior(spec, fill)
    for free in (True, False):
        flat = p.flatten(val, free=free)
        obs.append(('flatten', free, Vec(flat)))
        back = p.fold(flat, free=free)
        obs.append(('fold', free, Vec(gen.ref_flatten(spec, back))))
    obs.append(('empty', Vec(
        gen.ref_flatten(spec, p.empty(valid=True)))))
    bad = gen.map_leaves(
        spec, lambda path, s: np.array(gen.at(val, path), dtype=float))
    ls = gen.leaves(spec)
    if ls:
        path, s, _, _ = ls[corr['leaf'] % len(ls)]
        corrupt(s, gen.at(bad, path), corr)
        for vv in (None, True, False):
            obs.append(('valid', vv, bool(
                p.validate_folded(bad, validate_value=vv)[0])))
    return obs


def first_diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return x, y
    return len(a), len(b)


def run_round_trip(case, rec):
    import paragami
    spec = case['spec']
    gen.spec_labels(rec, spec)
    rec.nt(gen.flat_len(spec, False) > 0)
    p = gen.build(spec)
    js = p.to_json()
    check(isinstance(js, str), 'to_json returned a {}', type(js))
    json.loads(js)
    check(gen.build(spec).to_json() == js, 'serialization is not deterministic')
    check(p.to_json() == js, 'serializing twice differs')
    want = behaviour(p, spec, case['fill'], case['corr'])
    for q in (paragami.get_pattern_from_json(js), type(p).from_json(js)):
        check(type(q) is type(p), 'restored a {}', type(q))
        check((q == p) is True and (p == q) is True,
              'the restored pattern is not equal')
        check(not (q != p), 'the restored pattern is != the original')
        got = behaviour(q, spec, case['fill'], case['corr'])
        check(got == want, 'the restored pattern differs: {}',
              first_diff(got, want))
        check(q.to_json() == js, 'serializing the restored pattern differs')
    # The same JSON, reformatted: its objects have no order.
    tree = json.loads(js)
    for text in (json.dumps(tree, sort_keys=True),
                 json.dumps(dict(reversed(list(tree.items()))), indent=1),
                 json.dumps(tree, ensure_ascii=False,
                            separators=(',', ':'))):
        q = paragami.get_pattern_from_json(text)
        check((q == p) is True and q.to_json() == js and
              behaviour(q, spec, case['fill'], case['corr']) == want,
              'the pattern restored from reformatted JSON differs: {}', text)
    check(p == gen.build(spec), 'two identical patterns are not equal')
    check(p.to_json() == js, 'the JSON changed')


def run_forms(case, rec):
    """The same settings given in another form make an equal pattern."""
    import paragami
    spec = case['spec']
    gen.spec_labels(rec, spec)
    rec.nt(gen.flat_len(spec, False) > 0)
    rec.label(case['form'])
    cv = {'numpy': gen.numpy_scalars, 'number': gen.other_numbers}[
        case['form']]
    p, q = gen.build(spec), gen.build(spec, cv)
    check((p == q) is True and (q == p) is True and not p != q,
          'equal settings in another form give an unequal pattern')
    want = behaviour(p, spec, case['fill'], case['corr'])
    js = q.to_json()
    for r in (q, paragami.get_pattern_from_json(js), type(q).from_json(js)):
        check((r == p) is True and (p == r) is True and (r == q) is True,
              'the restored pattern is not equal')
        got = behaviour(r, spec, case['fill'], case['corr'])
        # (The string shows 0 and 0.0 as they are.)
        got = [o for o in got if o[-2] != 'str']
        exp = [o for o in want if o[-2] != 'str']
        check(got == exp, 'the pattern differs: {}', first_diff(got, exp))
    check(paragami.get_pattern_from_json(js).to_json() == js,
          'serializing the restored pattern differs')


def other_number(x, k):
    """A different number."""
    alts = [x + 1, x - 1, x * 2 + 0.5, x + 1e-9 * max(1, abs(x))]
    return alts[k % len(alts)]


def mutate(spec, m):
    """Change exactly one setting; returns (new spec, what) or None."""
    spec = copy.deepcopy(spec)
    allnodes = list(gen.walk(spec))
    s = allnodes[m['node'] % len(allnodes)]
    k = m['k']
    choices = ['fd', 'fd']
    kind = s['k']
    if kind in ('arr', 'vec', 'sca', 'psd', 'sim'):
        choices += ['dv', 'dv']
    if gen.is_num(s):
        choices += ['lb', 'ub', 'class']
    if kind == 'arr':
        choices += ['shape', 'shapeperm']
    if kind == 'vec':
        choices.append('length')
    if kind in ('psd', 'sim'):
        choices.append('size')
    if kind == 'psd':
        choices.append('diag_lb')
    if kind in ('sim', 'parr'):
        choices.append('ashape')
    if kind == 'dict':
        choices += ['addkey']
        if s['items']:
            choices += ['delkey', 'rename', 'member']
        if len(s['items']) > 1:
            choices += ['swap', 'swap', 'swapmembers']
    c = choices[m['what'] % len(choices)]
    if c == 'fd':
        opts = [x for x in (None, True, False) if x is not s.get('fd')]
        s['fd'] = opts[k % 2]
    elif c == 'dv':
        s['dv'] = not gen.dv_of(s)
    elif c == 'lb':
        if s.get('lb') is None or np.isinf(s['lb']):
            s['lb'] = (gen.ub_of(s) - 1.) if gen.ub_of(s) < gen.INF \
                else float(k)
        elif k % 3 == 0:
            s['lb'] = None
        else:
            new = s['lb'] - abs(other_number(s['lb'], k) - s['lb'])
            if not new < s['lb']:
                return None
            s['lb'] = new
    elif c == 'ub':
        if s.get('ub') is None or np.isinf(s['ub']):
            s['ub'] = (gen.lb_of(s) + 1.) if gen.lb_of(s) > -gen.INF \
                else float(k)
        elif k % 3 == 0:
            s['ub'] = None
        else:
            new = s['ub'] + abs(other_number(s['ub'], k) - s['ub'])
            if not new > s['ub']:
                return None
            s['ub'] = new
    elif c == 'class':
        sh = gen.shape_of(s)
        if kind == 'arr' and len(sh) == 1:
            s['k'] = 'vec'
            s['length'] = sh[0]
            del s['shape']
        elif kind == 'vec':
            s['k'] = 'arr'
            s['shape'] = [s.pop('length')]
        elif kind == 'sca':
            s['k'] = 'vec'
            s['length'] = 1
        else:
            return None
    elif c == 'shape':
        i = k % (len(s['shape']) + 1)
        if i == len(s['shape']):
            s['shape'] = s['shape'] + [1]
        else:
            s['shape'][i] += 1
    elif c == 'shapeperm':
        if s['shape'] == s['shape'][::-1]:
            return None
        s['shape'] = s['shape'][::-1]
    elif c == 'length':
        s['length'] += 1
    elif c == 'size':
        s['size'] += 1
    elif c == 'diag_lb':
        old = gen.diag_lb_of(s)
        s['diag_lb'] = abs(other_number(old, k))
        if s['diag_lb'] == old:
            return None
    elif c == 'ashape':
        i = k % (len(s['ashape']) + 1)
        if i == len(s['ashape']):
            s['ashape'] = s['ashape'] + [1]
        else:
            s['ashape'][i] += 1
    elif c == 'addkey':
        names = [n for n, _ in s['items']]
        new = [n for n in gen.KEYS if n not in names][k % 5]
        s['items'].insert(k % (len(names) + 1),
                          [new, {'k': 'vec', 'length': 0, 'lb': None,
                                 'ub': None, 'dv': None, 'fd': None}])
    elif c == 'delkey':
        del s['items'][k % len(s['items'])]
    elif c == 'rename':
        names = [n for n, _ in s['items']]
        new = [n for n in gen.KEYS if n not in names][k % 5]
        s['items'][k % len(names)][0] = new
    elif c == 'swap':
        i = k % (len(s['items']) - 1)
        s['items'][i], s['items'][i + 1] = s['items'][i + 1], s['items'][i]
    elif c == 'swapmembers':
        i = k % (len(s['items']) - 1)
        a, b = s['items'][i], s['items'][i + 1]
        if gen_key(a[1]) == gen_key(b[1]):
            return None
        a[1], b[1] = b[1], a[1]
    elif c == 'member':
        i = k % len(s['items'])
        old = s['items'][i][1]
        new = {'k': 'psd', 'size': 2, 'diag_lb': None, 'dv': None, 'fd': None}
        if gen_key(old) == gen_key(new):
            return None
        s['items'][i][1] = new
    # Patterns inside an array must have array values and a non-empty shape.
    for x in gen.walk(spec):
        if x['k'] == 'parr' and x['base']['k'] == 'dict':
            return None
    return spec, c


def gen_key(s):
    """The configuration that decides equality, from the spec."""
    k = s['k']
    fd = s.get('fd')
    if gen.is_num(s):
        return (k, gen.shape_of(s), float(gen.lb_of(s)), float(gen.ub_of(s)),
                gen.dv_of(s), fd)
    if k == 'psd':
        return (k, s['size'], float(gen.diag_lb_of(s)), gen.dv_of(s), fd)
    if k == 'sim':
        return (k, s['size'], tuple(s['ashape']), gen.dv_of(s), fd)
    if k == 'parr':
        return (k, tuple(s['ashape']), gen_key(s['base']), fd)
    return (k, tuple((n, gen_key(x)) for n, x in s['items']), fd)


def run_differ(case, rec):
    spec = case['spec']
    r = mutate(spec, case['m'])
    if r is None:
        rec.label('no mutation')
        return
    other, what = r
    assert gen_key(other) != gen_key(spec), (spec, other, what)
    rec.label('mutated:' + what)
    rec.label('mutated depth>0' if case['m']['node'] %
              len(list(gen.walk(spec))) else 'mutated top')
    rec.nt()
    p, q = gen.build(spec), gen.build(other)
    check(not (p == q) and not (q == p),
          'patterns that differ in {} compare equal', what)
    check(p != q and q != p, 'patterns that differ in {} are not !=', what)
    check(p.to_json() != q.to_json(),
          'patterns that differ in {} have the same JSON', what)
    check(not (p == spec['k']) and p != 3, 'equal to something else')


def run_pairs(case, rec):
    """Two independent draws compare equal exactly when their specifications
    agree."""
    a, b = case['a'], case['b']
    same = gen_key(a) == gen_key(b)
    rec.label('same' if same else 'different')
    rec.nt()
    p, q = gen.build(a), gen.build(b)
    check((p == q) == same and (q == p) == same and (p != q) == (not same),
          'equality is {}, expected {}', p == q, same)


TINY = st.one_of(
    st.fixed_dictionaries({'k': st.just('vec'),
                           'length': st.sampled_from([0, 1, 2]),
                           'lb': st.sampled_from([None, 0, 0.0]),
                           'ub': st.just(None), 'dv': st.just(None),
                           'fd': st.sampled_from([None, None, True])}),
    st.fixed_dictionaries({'k': st.just('psd'), 'size': st.just(2),
                           'diag_lb': st.sampled_from([None, 0, 1]),
                           'dv': st.just(None), 'fd': st.just(None)}))
TINY_DICT = st.fixed_dictionaries({
    'k': st.just('dict'), 'fd': st.sampled_from([None, None, False]),
    'items': st.lists(st.tuples(st.sampled_from(['a', 'b']), TINY).map(list),
                      max_size=2, unique_by=lambda x: x[0])})

PROP = Prop(
    'C06',
    'round_trip: a generated pattern is serialized, restored both ways and '
    'compared by == and by a list of behavioural observations (lengths, '
    'names, defaults, bounds, keys, folding, flattening, validity of a '
    'corrupted value).  forms: the same settings as numpy scalars or '
    'as numbers of another type.  differ: a generated pattern and a copy with exactly '
    'one setting changed at any nesting level must be unequal.  pairs: small '
    'patterns compared against equality of their specifications.  '
    'Non-trivial: non-empty pattern (round_trip), a mutation was applied '
    '(differ), always (pairs).',
    [Sub('big_differ', st.fixed_dictionaries(
        {'spec': gen.big_specs(['long', 'deep', 'parr', 'sim', 'num']),
         'm': st.fixed_dictionaries(
             {'node': gen.picks(), 'what': gen.picks(), 'k': gen.picks()})}), run_differ, 1600),
     Sub('big', st.fixed_dictionaries(
        {'spec': gen.big_specs(), 'fill': gen.fills(), 'corr': CORR}), run_round_trip, 640),
     Sub('round_trip', st.fixed_dictionaries(
        {'spec': gen.specs(), 'fill': gen.fills(), 'corr': CORR}),
        run_round_trip, 2400),
     Sub('forms', st.fixed_dictionaries(
         {'spec': gen.specs(), 'fill': gen.fills(), 'corr': CORR,
          'form': st.sampled_from(['numpy', 'number'])}), run_forms, 1600),
     Sub('differ', st.fixed_dictionaries(
         {'spec': gen.specs(), 'm': st.fixed_dictionaries(
             {'node': gen.picks(), 'what': gen.picks(), 'k': gen.picks()})}), run_differ, 4800),
     Sub('pairs', st.fixed_dictionaries(
         {'a': st.one_of(TINY, TINY_DICT), 'b': st.one_of(TINY, TINY_DICT)}),
         run_pairs, 1600)])
