"""Shared generation for the function wrappers (C16, C17)."""
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import check


class Opaque:
    """A value that must be passed through by identity."""
    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, other):
        raise AssertionError('an untransformed value was compared')

    __hash__ = None

    def __array__(self, *a, **k):
        raise AssertionError('an untransformed value was converted')

    def __repr__(self):
        return 'Opaque({})'.format(self.tag)


def passed(seed, tag):
    """A value that is passed through: opaque, or of an everyday type that
    is easily taken for a missing or a transformed value."""
    seed = gen.subseed(seed, 4242, str(tag))
    k = seed % 20
    if k >= 8:
        return Opaque(tag)
    return [None, False, 0.0, [], {}, 'text', np.zeros(2),
            [1.0, 2.0]][k]


def small_specs():
    return st.one_of(
        gen.num_specs(zero=False), gen.num_specs(), gen.psd_specs(max_n=3,
                                                                  big=False),
        gen.sim_specs(), gen.parr_specs(max_total=20),
        gen.dict_specs(depth_left=1, max_items=3, max_total=30))


def tiny_specs():
    return st.builds(
        lambda k, n, lb, fd: {'k': k, 'length': n, 'lb': lb, 'ub': None,
                              'dv': None, 'fd': fd} if k == 'vec' else
        {'k': 'sim', 'size': n + 1, 'ashape': [1], 'dv': None, 'fd': fd},
        st.sampled_from(['vec', 'vec', 'sim']), st.integers(1, 4),
        st.sampled_from([None, 0.0, -1.5]),
        st.sampled_from([None, True, False]))


def many_slots():
    """More than ten positions, or one in many."""
    return st.one_of(slots(lo=10, hi=14, min_on=8, pats=tiny_specs()),
                     slots(lo=10, hi=25, min_on=1, pats=tiny_specs()),
                     hundreds())


@st.composite
def hundreds(draw):
    """Hundreds of positions, of which a few that are far apart."""
    n = draw(st.integers(130, 300))
    order = draw(st.lists(st.one_of(st.integers(0, n - 1),
                                    st.integers(125, n - 1)),
                          min_size=2, max_size=5, unique=True))
    case = draw(slots(lo=len(order), hi=len(order), min_on=len(order),
                      pats=tiny_specs()))
    return dict(case, n=n, order=order)


@st.composite
def slots(draw, lo=1, hi=6, min_on=1, pats=None):
    """A list of positions; those in 'order' are transformed, with patterns
    given in that order."""
    n = draw(st.integers(lo, hi))
    order = draw(st.permutations(range(n)))
    k = draw(st.integers(min(min_on, n), n))
    if draw(st.integers(0, 3)) == 0:
        order = sorted(order[:k])
    else:
        order = list(order[:k])
    if draw(st.integers(0, 5)) == 0:
        order = list(range(k))
    style = draw(st.integers(0, 5))
    common = draw(st.booleans())
    same = draw(st.integers(0, 3)) == 0
    pats = pats if pats is not None else small_specs()
    small, pats = pats, []
    spec0 = draw(small)
    for i in range(k):
        spec = spec0 if same else draw(small)
        if style <= 1:
            free = common
        else:
            free = draw(st.sampled_from([True, False, True, False, None]))
        if free is None and spec.get('fd') is None and \
                draw(st.integers(0, 9)) > 0:
            spec = dict(spec, fd=draw(st.booleans()))
        pats.append({'spec': spec, 'free': free})
    if all(p['free'] == pats[0]['free'] for p in pats) and style <= 1:
        freeform = draw(st.sampled_from(['scalar', 'list', 'one']))
    else:
        freeform = draw(st.sampled_from(['list', 'tuple', 'array']))
    return {'n': n, 'order': order, 'pats': pats, 'freeform': freeform,
            'numform': draw(st.sampled_from(['list', 'tuple', 'array', 'int',
                                             'none', 'npints'])),
            'patform': draw(st.sampled_from(['list', 'tuple', 'array',
                                             'single']))}


def specs_of(case):
    """The specs, with a shared pattern object where equal."""
    return [p['spec'] for p in case['pats']]


def build_patterns(case):
    pats = [gen.build(p['spec']) for p in case['pats']]
    if len(pats) > 1 and case['pats'][0]['spec'] == case['pats'][1]['spec'] \
            and case['n'] % 2:
        # One pattern object used for several positions.
        pats = [pats[0] if case['pats'][i]['spec'] == case['pats'][0]['spec']
                else p for i, p in enumerate(pats)]
    return pats


def pattern_argument(case, pats):
    form = case['patform']
    if form == 'single' and len(pats) == 1:
        return pats[0]
    if form == 'tuple':
        return tuple(pats)
    if form == 'array':
        a = np.empty(len(pats), dtype=object)
        for i, p in enumerate(pats):
            a[i] = p
        return a
    return list(pats)


def number_argument(case):
    """The positions in the form in which they are given."""
    order, form = case['order'], case['numform']
    if form == 'none' and order == list(range(len(order))):
        return None
    if form == 'int' and len(order) == 1:
        return order[0]
    if form == 'tuple':
        return tuple(order)
    if form == 'array':
        return np.array(order)
    if form == 'npints':
        return [np.int64(i) for i in order]
    return list(order)


def free_argument(case):
    frees = [p['free'] for p in case['pats']]
    form = case['freeform']
    if form == 'scalar':
        return frees[0]
    if form == 'one':
        return [frees[0]]
    if form == 'tuple':
        return tuple(frees)
    if form == 'array':
        return np.array(frees, dtype=object)
    return list(frees)


def effective(pat):
    """The parameterization in force, or None where there is none."""
    return pat['free'] if pat['free'] is not None else pat['spec'].get('fd')


def undetermined(case):
    return any(effective(p) is None for p in case['pats'])


def source_value(pat, seed, flat):
    """A valid value of one transformed position, flat or folded."""
    spec = pat['spec']
    fill = {'s': int(seed) % (1 << 62), 'e': 0, 'i': False}
    free = effective(pat)
    if not flat:
        return gen.interior(spec, fill)
    if free:
        return gen.free_vector(spec, fill)
    return gen.ref_flatten(spec, gen.interior(spec, fill))


def snapshot(v):
    return gen.copy_val(v)


def same_value(a, b, exact=False):
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and \
            all(same_value(a[k], b[k], exact) for k in b)
    if not isinstance(a, np.ndarray) and not np.isscalar(a):
        return False
    a, b = np.asarray(a), np.asarray(b)
    if exact:
        return a.shape == b.shape and np.array_equal(a, b)
    return gen.nearly(a, b)


def expected(pat, v, to_folded):
    """What the pattern makes of a value: the reference layout where it is not
    free, a fresh stand-alone pattern otherwise."""
    spec, free = pat['spec'], effective(pat)
    if not free:
        return gen.ref_fold(spec, v) if to_folded else gen.ref_flatten(spec, v)
    p = gen.build(spec)
    return p.fold(v, free=True) if to_folded else p.flatten(v, free=True)


def labels(rec, case):
    rec.label('positions:%d' % len(case['order']), 'of:%d' % case['n'],
              'numbers:' + case['numform'], 'free:' + case['freeform'])
    if case['order'] != sorted(case['order']):
        rec.label('out of order')
    if len(case['order']) < case['n']:
        rec.label('some untouched')
    for p in case['pats']:
        rec.label('kind:' + p['spec']['k'], 'free=%s' % p['free'])
