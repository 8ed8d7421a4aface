"""C29: patterns a user derives from Pattern work like the built-in ones."""
import io
import itertools
import json
from collections import OrderedDict
import numpy as np
from hypothesis import strategies as st
from .. import fd, gen
from ..core import Prop, Sub, check, Violation


def plain(x):
    """The number behind a traced value."""
    from autograd.tracer import getval, isbox
    while isbox(x):
        x = getval(x)
    return np.asarray(x)


# Each kind: lengths, both maps between vectors, folding, validity, and a
# generated free vector is enough for a generated value.

class Kind:
    array = True
    shape = None

    def lengths(self, n):
        raise NotImplementedError

    def unfree(self, n, z):
        raise NotImplementedError

    def free(self, n, v):
        raise NotImplementedError

    def fold(self, n, v):
        return v

    def unfold(self, n, x):
        return x

    def shape_ok(self, n, x):
        return plain(x).shape == (self.lengths(n)[0],)

    def valid(self, n, v):
        return True


class Ordered(Kind):
    """Increasing vectors: the first entry and the logarithms of the steps."""
    def lengths(self, n):
        return n, n

    def unfree(self, n, z):
        import autograd.numpy as np_
        return np_.cumsum(np_.concatenate([z[:1], np_.exp(z[1:])]))

    def free(self, n, v):
        import autograd.numpy as np_
        return np_.concatenate([v[:1], np_.log(v[1:] - v[:-1])])

    def valid(self, n, v):
        return bool(np.all(np.diff(v) > 0))


class SumZero(Kind):
    def lengths(self, n):
        return n + 1, n

    def unfree(self, n, z):
        import autograd.numpy as np_
        return np_.concatenate([z, np_.array([-np_.sum(z)])])

    def free(self, n, v):
        return v[:-1]

    def valid(self, n, v):
        return bool(abs(np.sum(v)) < 1e-8)


class Circle(Kind):
    """Points on the unit circle."""
    def lengths(self, n):
        return 2 * n, n

    def unfree(self, n, z):
        import autograd.numpy as np_
        return np_.reshape(
            np_.stack([np_.cos(z), np_.sin(z)], axis=1), (-1,))

    def free(self, n, v):
        import autograd.numpy as np_
        p = np_.reshape(v, (n, 2))
        return np_.arctan2(p[:, 1], p[:, 0])

    def fold(self, n, v):
        import autograd.numpy as np_
        return np_.reshape(v, (n, 2))

    def unfold(self, n, x):
        import autograd.numpy as np_
        return np_.reshape(x, (-1,))

    def shape_ok(self, n, x):
        return plain(x).shape == (n, 2)

    def valid(self, n, v):
        return bool(np.all(np.abs(
            np.sum(v.reshape(n, 2) ** 2, axis=1) - 1) < 1e-8))


class Split(Kind):
    """More free entries than values."""
    def lengths(self, n):
        return n, 2 * n

    def unfree(self, n, z):
        return z[:n] + 2 * z[n:]

    def free(self, n, v):
        import autograd.numpy as np_
        return np_.concatenate([v / 3, v / 3])


class Pair(Kind):
    """A tuple of locations and positive scales; the free entries are in
    another order."""
    array = False

    def lengths(self, n):
        return 2 * n, 2 * n

    def unfree(self, n, z):
        import autograd.numpy as np_
        return np_.concatenate([z[n:], np_.exp(z[:n])])

    def free(self, n, v):
        import autograd.numpy as np_
        return np_.concatenate([np_.log(v[n:]), v[:n]])

    def fold(self, n, v):
        return (v[:n], v[n:])

    def unfold(self, n, x):
        import autograd.numpy as np_
        return np_.concatenate([x[0], x[1]])

    def shape_ok(self, n, x):
        return isinstance(x, tuple) and len(x) == 2 and \
            all(plain(y).shape == (n,) for y in x)

    def valid(self, n, v):
        return bool(np.all(v[n:] > 0))


class Record(Kind):
    """A dictionary that is not a PatternDict's."""
    array = False

    def lengths(self, n):
        return n * n + 1, n * n + 1

    def unfree(self, n, z):
        import autograd.numpy as np_
        return np_.concatenate([np_.sinh(z[:-1]), z[-1:]])

    def free(self, n, v):
        import autograd.numpy as np_
        return np_.concatenate([np_.arcsinh(v[:-1]), v[-1:]])

    def fold(self, n, v):
        import autograd.numpy as np_
        return {'v': v[-1], 'm': np_.reshape(v[:-1], (n, n))}

    def unfold(self, n, x):
        import autograd.numpy as np_
        return np_.concatenate(
            [np_.reshape(x['m'], (-1,)), np_.reshape(x['v'], (1,))])

    def shape_ok(self, n, x):
        return isinstance(x, dict) and set(x) == {'m', 'v'} and \
            plain(x['m']).shape == (n, n) and plain(x['v']).shape == ()


class Fixed(Kind):
    """Nothing is free."""
    def lengths(self, n):
        return n, 0

    def unfree(self, n, z):
        return np.arange(1., n + 1)

    def free(self, n, v):
        return np.zeros(0)

    def valid(self, n, v):
        return bool(np.array_equal(v, np.arange(1., n + 1)))


KINDS = OrderedDict((k.__name__, k()) for k in
                    (Ordered, SumZero, Circle, Split, Pair, Record, Fixed))
ARRAYS = [k for k in KINDS if KINDS[k].array]
_classes = {}


def methods(name):
    """What the user writes."""
    import paragami
    kind = KINDS[name]

    def __init__(self, n, tag='', free_default=None):
        flat, free = kind.lengths(n)
        paragami.base_patterns.Pattern.__init__(
            self, flat, free, free_default=free_default)
        self.n = n
        self.tag = tag

    def choice(self, free):
        free = self.free_default if free is None else free
        if free is None:
            raise ValueError('free or not?')
        return free

    def __str__(self):
        return '{} {}'.format(name, self.n)

    def as_dict(self):
        return {'pattern': self.json_typename(), 'n': self.n,
                'tag': self.tag, 'free_default': self.free_default}

    def validate_folded(self, folded_val, validate_value=None):
        if not kind.shape_ok(self.n, folded_val):
            return False, 'wrong shape'
        if validate_value is None or validate_value:
            if not kind.valid(self.n, plain(kind.unfold(
                    self.n, untrace(folded_val)))):
                return False, 'wrong value'
        return True, ''

    def fold(self, flat_val, free=None, validate_value=None):
        import autograd.numpy as np_
        free = choice(self, free)
        flat_val = np_.atleast_1d(flat_val)
        if flat_val.shape != (kind.lengths(self.n)[1 if free else 0],):
            raise ValueError('wrong length')
        if free:
            return kind.fold(self.n, kind.unfree(self.n, flat_val))
        val = kind.fold(self.n, flat_val)
        ok, msg = self.validate_folded(val, validate_value)
        if not ok:
            raise ValueError(msg)
        return val

    def flatten(self, folded_val, free=None, validate_value=None):
        free = choice(self, free)
        ok, msg = self.validate_folded(folded_val, validate_value)
        if not ok:
            raise ValueError(msg)
        flat = kind.unfold(self.n, folded_val)
        return kind.free(self.n, flat) if free else flat

    def empty(self, valid):
        n = self.n
        if valid:
            return kind.fold(n, np.asarray(kind.unfree(
                n, np.zeros(kind.lengths(n)[1]))))
        return kind.fold(n, np.full(kind.lengths(n)[0], np.nan))

    def flat_indices(self, folded_bool, free=None):
        free = choice(self, free)
        inds = np.flatnonzero(kind.unfold(self.n, folded_bool))
        if not free:
            return inds
        return np.arange(kind.lengths(self.n)[1] if len(inds) else 0)

    out = {'__init__': __init__, '__str__': __str__, 'as_dict': as_dict,
           'validate_folded': validate_folded, 'fold': fold,
           'flatten': flatten, 'empty': empty, 'flat_indices': flat_indices,
           '__module__': 'user_patterns'}
    # Some of the classes are sequences, or look like one.
    if name == 'Ordered':
        out['__len__'] = lambda self: self.n
        out['__getitem__'] = lambda self, i: (
            [self.tag] * self.n)[i]
    elif name == 'SumZero':
        out['__len__'] = lambda self: 0
    elif name == 'Pair':
        out['__iter__'] = lambda self: iter(['loc', 'scale'])
        out['__len__'] = lambda self: 2
        out['__getitem__'] = lambda self, k: {'loc': 0, 'scale': 1}[k]
    elif name == 'Split':
        out['__call__'] = lambda self, *a, **k: self.n
    if name in ('Split', 'Record'):
        # An encoding of its own.
        def to_json(self):
            return json.dumps({
                'pattern': self.json_typename(), 'version': 2,
                'what': [self.n, self.tag, {None: '-', True: 'f', False: 'n'}[
                    self.free_default]]})

        def from_json(cls, json_string):
            d = json.loads(json_string)
            if d['pattern'] != cls.json_typename():
                raise ValueError('another pattern')
            n, tag, f = d['what']
            return cls(n, tag, {'-': None, 'f': True, 'n': False}[f])
        out['to_json'] = to_json
        out['from_json'] = classmethod(from_json)
    if name == 'Fixed':
        from scipy.sparse import coo_matrix

        def freeing_jacobian(self, folded_val, sparse=True):
            m = np.zeros((0, self.n))
            return coo_matrix(m) if sparse else m

        def unfreeing_jacobian(self, folded_val, sparse=True):
            m = np.zeros((self.n, 0))
            return coo_matrix(m) if sparse else m
        out['freeing_jacobian'] = freeing_jacobian
        out['unfreeing_jacobian'] = unfreeing_jacobian
    return out


def untrace(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple(plain(v) for v in x)
    return plain(x)


def new_class(name, drop=None):
    import paragami
    body = methods(name)
    if drop is not None:
        del body[drop]
    return type(name, (paragami.base_patterns.Pattern,), body)


def cls_of(name):
    if name not in _classes:
        import paragami
        _classes[name] = new_class(name)
        paragami.register_pattern_json(_classes[name])
    return _classes[name]


# Nodes: {'t': 'c'(ustom) | 'b'(uilt in) | 'd'(ictionary) | 'a'(rray), ...}

def build(node):
    import paragami
    t = node['t']
    if t == 'c':
        return cls_of(node['kind'])(
            node['n'], node.get('tag', ''), free_default=node['fd'])
    if t == 'b':
        return gen.build(node['spec'])
    if t == 'a':
        return paragami.PatternArray(tuple(node['shape']), build(node['base']),
                                     free_default=node['fd'])
    d = paragami.PatternDict(free_default=node['fd'])
    for k, m in node['items']:
        d[k] = build(m)
    return d


def length(node, free):
    t = node['t']
    if t == 'c':
        return KINDS[node['kind']].lengths(node['n'])[1 if free else 0]
    if t == 'b':
        return gen.flat_len(node['spec'], free)
    if t == 'a':
        return gen.size(node['shape']) * length(node['base'], free)
    return sum(length(m, free) for _, m in node['items'])


def make(node, seed):
    """A value, as its (flat, free) vectors and folded."""
    t = node['t']
    if t == 'c':
        kind, n = KINDS[node['kind']], node['n']
        z = 2 * gen.uniform(seed, kind.lengths(n)[1]) - 1
        if node['kind'] == 'Split':
            # The representative that freeing returns.
            z = np.concatenate([z[:n], z[:n]])
        v = np.asarray(kind.unfree(n, z), dtype=float)
        return v, z, kind.fold(n, v)
    if t == 'b':
        val = gen.interior(node['spec'], {'s': seed, 'e': 0, 'int': False,
                                          'layout': 'C'})
        p = gen.build(node['spec'])
        return (np.asarray(p.flatten(val, free=False)),
                np.asarray(p.flatten(val, free=True)), val)
    if t == 'a':
        parts = [make(node['base'], gen.subseed(seed, i))
                 for i in range(gen.size(node['shape']))]
        folded = np.array([f for _, _, f in parts])
        folded = folded.reshape(tuple(node['shape']) + parts[0][2].shape)
    else:
        parts, folded = [], OrderedDict()
        for i, (k, m) in enumerate(node['items']):
            parts.append(make(m, gen.subseed(seed, i)))
            folded[k] = parts[-1][2]
    return (np.concatenate([np.zeros(0)] + [p[0] for p in parts]),
            np.concatenate([np.zeros(0)] + [p[1] for p in parts]), folded)


def same(node, got, want, exact, what):
    t = node['t']
    if t == 'd':
        check(isinstance(got, dict) and list(got) == [k for k, _ in
                                                      node['items']],
              '{}: keys {}', what, got)
        for k, m in node['items']:
            same(m, got[k], want[k], exact, what + '/' + k)
        return
    if t == 'c' and not KINDS[node['kind']].array:
        check(KINDS[node['kind']].shape_ok(node['n'], got),
              '{}: folded to {}', what, got)
        kind = KINDS[node['kind']]
        got, want = kind.unfold(node['n'], got), kind.unfold(node['n'], want)
    if t == 'b' and isinstance(want, dict):
        gen.same_structure(node['spec'], got, what)
        ok = gen.exactly_equal(node['spec'], got, want) if exact else \
            gen.max_err(node['spec'], got, want,
                        gen.free_round_trip_tol(node['spec'], want)) <= 0
        check(ok, '{}: {} instead of {}', what, got, want)
        return
    same_vec(got, want, exact, what)


def same_vec(got, want, exact, what):
    check(isinstance(got, np.ndarray), '{}: a {}', what, type(got))
    check(got.shape == np.shape(want), '{}: shape {} instead of {}', what,
          got.shape, np.shape(want))
    ok = np.array_equal(got, want) if exact else gen.nearly(got, want, 1e-7)
    check(ok, '{}: {} instead of {}', what, got, want)


def valid_parts(node, val):
    t = node['t']
    if t == 'c':
        kind = KINDS[node['kind']]
        return kind.shape_ok(node['n'], val) and \
            kind.valid(node['n'], np.asarray(kind.unfold(node['n'], val)))
    if t == 'b':
        return True
    if t == 'a':
        return all(valid_parts(node['base'], val[i]) for i in
                   itertools.product(*[range(k) for k in node['shape']]))
    return all(valid_parts(m, val[k]) for k, m in node['items'])


def jacobian(node, seed, freeing):
    """The reference, from the maps between the vectors."""
    t = node['t']
    flat, free, val = make(node, seed)
    if t == 'c':
        kind, n = KINDS[node['kind']], node['n']
        nf, nn = kind.lengths(n)[1], kind.lengths(n)[0]
        if nf == 0:
            return np.zeros((0, nn) if freeing else (nn, 0))
        if freeing:
            return fd.jacobian(lambda v: kind.free(n, v), flat, 0.002)
        return fd.jacobian(lambda z: kind.unfree(n, z), free, 0.002)
    if t == 'b':
        p = gen.build(node['spec'])
        return gen.dense(p.freeing_jacobian(val) if freeing else
                         p.unfreeing_jacobian(val))
    if t == 'a':
        blocks = [jacobian(node['base'], gen.subseed(seed, i), freeing)
                  for i in range(gen.size(node['shape']))]
    else:
        blocks = [jacobian(m, gen.subseed(seed, i), freeing)
                  for i, (_, m) in enumerate(node['items'])]
    out = np.zeros((sum(b.shape[0] for b in blocks),
                    sum(b.shape[1] for b in blocks)))
    r = c = 0
    for b in blocks:
        out[r:r + b.shape[0], c:c + b.shape[1]] = b
        r, c = r + b.shape[0], c + b.shape[1]
    return out


def customs(node):
    if node['t'] == 'c':
        return [node]
    if node['t'] == 'a':
        return customs(node['base'])
    if node['t'] == 'd':
        return [c for _, m in node['items'] for c in customs(m)]
    return []


def labels(rec, node):
    cs = customs(node)
    rec.label('top:' + node['t'], *['kind:' + c['kind'] for c in cs])
    rec.nt(len(cs) > 0 and length(node, False) > 1)


def default_of(node):
    return node['spec']['fd'] if node['t'] == 'b' else node['fd']


def reject(exc, f, what):
    try:
        r = f()
    except exc:
        return
    raise Violation('{} was accepted: {}'.format(what, r))


def run_values(case, rec):
    node, s = case['node'], case['s']
    labels(rec, node)
    p = build(node)
    flat, free, val = make(node, s)
    dflt = default_of(node)
    for f, vec in ((False, flat), (True, free)):
        check(p.flat_length(f) == vec.size, 'length {} instead of {}',
              p.flat_length(f), vec.size)
        how = [{}, {'free': f}][1 if f != dflt or case['named'] else 0]
        if f == dflt:
            check(p.flat_length() == vec.size, 'default length')
        same_vec(p.flatten(val, **how), vec, not f, 'flatten')
        same(node, p.fold(vec, **how), val, not f, 'fold')
        names = list(p.flat_names(f))
        check(len(names) == vec.size, 'names {}', names)
        for bad in (vec.size + 1, vec.size - 1):
            if bad >= 0:
                reject(ValueError, lambda: p.fold(np.ones(bad), free=f),
                       'a vector of the wrong length')
    if dflt is None:
        for g in (lambda: p.flatten(val), lambda: p.fold(flat),
                  lambda: p.flat_length()):
            reject(ValueError, g, 'no parameterization')
    ok, msg = p.validate_folded(val)
    check(ok, 'a valid value is rejected: {}', msg)
    r = p.random()
    ok, msg = p.validate_folded(r)
    check(ok and valid_parts(node, r), 'random is not valid: {}', msg)
    e = p.empty(valid=True)
    ok, msg = p.validate_folded(e)
    check(ok and valid_parts(node, e), 'empty is not valid: {}', msg)
    for b in (True, False):
        eb = p.empty_bool(b)
        v = p.flatten(eb, free=False, validate_value=False)
        check(v.shape == (flat.size,) and np.all(np.asarray(v) == b),
              'empty_bool({}) is {}', b, eb)
        inds = p.flat_indices(eb, free=False)
        check(list(inds) == (list(range(flat.size)) if b else []),
              'indices of {}: {}', b, inds)
        inds = p.flat_indices(eb, free=True)
        if not b:
            check(len(inds) == 0, 'free indices of nothing: {}', inds)


def run_indices(case, rec):
    """One custom member at a time."""
    node = case['node']
    labels(rec, node)
    p = build(node)

    def walk(m, mask, off, offree, parts):
        # Mask folded booleans of this part, offsets of its vectors.
        if m['t'] == 'd':
            for k, x in m['items']:
                walk(x, mask[k], off, offree, parts)
                off += length(x, False)
                offree += length(x, True)
        elif m['t'] == 'a':
            for i in itertools.product(*[range(k) for k in m['shape']]):
                walk(m['base'], mask[i], off, offree, parts)
                off += length(m['base'], False)
                offree += length(m['base'], True)
        elif m['t'] == 'c':
            parts.append((m, off, offree))
    parts = []
    bools = p.empty_bool(False)
    walk(node, bools, 0, 0, parts)
    if not parts:
        return
    n = length(node, False)
    m, off, offree = parts[case['pick'] % len(parts)]
    k = length(m, False)
    on = gen.uniform(case['s'], k) < 0.5
    mask = np.zeros(n, dtype=bool)
    mask[off:off + k] = on
    fb = p.fold(mask, free=False, validate_value=False)
    want = [off + int(i) for i in np.flatnonzero(on)]
    got = p.flat_indices(fb, free=False)
    check(sorted(got) == want, 'indices {} instead of {}', got, want)
    want = list(range(offree, offree + length(m, True))) if on.any() else []
    got = p.flat_indices(fb, free=True)
    check(sorted(got) == want, 'free indices {} instead of {}', got, want)
    # A bad value of this member.
    kind = KINDS[m['kind']]
    flat, _, _ = make(node, case['s'])
    bad = flat.copy()
    bad[off:off + k] = -1. - np.arange(k)
    if not kind.valid(m['n'], bad[off:off + k]):
        rec.label('bad member')
        v = p.fold(bad, free=False, validate_value=False)
        ok, _ = p.validate_folded(v)
        check(not ok, 'a bad member is accepted: {}', v)
        ok, _ = p.validate_folded(v, validate_value=False)
        check(ok, 'rejected without validation: {}', v)
        for g in (lambda: p.flatten(v, free=False),
                  lambda: p.flatten(v, free=True),
                  lambda: p.fold(bad, free=False)):
            reject(ValueError, g, 'a bad member')
        got = p.flatten(v, free=False, validate_value=False)
        same_vec(got, bad, True, 'flatten without validation')


def run_jacobians(case, rec):
    node, s = case['node'], case['s']
    labels(rec, node)
    if length(node, False) > 40:
        return
    p = build(node)
    _, _, val = make(node, s)
    for name, freeing in (('freeing_jacobian', True),
                          ('unfreeing_jacobian', False)):
        want = jacobian(node, s, freeing)
        f = getattr(p, name)
        import scipy.sparse
        for how in ({}, {'sparse': True}, {'sparse': False}):
            got = f(val, **how)
            check(scipy.sparse.issparse(got) == how.get('sparse', True),
                  '{}: a {}', name, type(got))
            got = gen.dense(got)
            check(got.shape == want.shape, '{}: shape {} instead of {}', name,
                  got.shape, want.shape)
            check(got.size == 0 or np.all(
                np.abs(got - want) <= 1e-6 * (1 + np.abs(want).max())),
                '{}: {} instead of {}', name, got, want)


def run_json(case, rec):
    import paragami
    node, s = case['node'], case['s']
    labels(rec, node)
    p, q = build(node), build(node)
    check(p == q and not p != q, 'two equal patterns differ')
    js = p.to_json()
    for r in (paragami.get_pattern_from_json(js), type(p).from_json(js)):
        check(type(r) is type(p) and r == p and p == r,
              'decoded {} from {}', r, js)
        check(r.free_default == p.free_default, 'free_default')
        for f in (False, True):
            check(r.flat_length(f) == length(node, f), 'length')
    flat, free, val = make(node, s)
    same(node, paragami.get_pattern_from_json(js).fold(flat, free=False), val,
         True, 'fold after decoding')
    buf = io.BytesIO()
    paragami.save_folded(buf, val, p, extra=flat[:1])
    buf.seek(0)
    v, r, data = paragami.load_folded(buf)
    check(r == p, 'loaded another pattern')
    same(node, v, val, True, 'loaded')
    check(np.array_equal(data['extra'], flat[:1]), 'loaded data')
    # Changing one member makes it another pattern.
    cs = customs(node)
    if not cs:
        return
    import copy
    other = copy.deepcopy(node)
    c = customs(other)[case['pick'] % len(cs)]
    how = case['pick'] // 7 % 4
    if how == 0:
        c['n'] += 1
    elif how == 1:
        c['fd'] = {None: True, True: False, False: None}[c['fd']]
    elif how == 2:
        # It shows nowhere else.
        c['tag'] = ['x', 'y', c['fd'], 1, [1, 2], {'a': None}][
            case['pick'] // 31 % 6] or 'z'
    else:
        kinds = ARRAYS if KINDS[c['kind']].array else ['Pair', 'Record']
        c['kind'] = kinds[(kinds.index(c['kind']) + 1) % len(kinds)]
    o = build(other)
    check(p != o and not p == o, 'equal to {}', other)
    r = paragami.get_pattern_from_json(o.to_json())
    check(r != p and r == o, 'decoded {}', r.to_json())


def run_wrappers(case, rec):
    import autograd
    import autograd.numpy as np_
    import paragami
    node, s = case['node'], case['s']
    labels(rec, node)
    p = build(node)
    free = case['free']
    flat, freevec, val = make(node, s)
    vec = freevec if free else flat
    dflt = default_of(node)
    arg = None if dflt == free and dflt is not None else free
    w = gen.uniform(gen.subseed(s, 3), flat.size) + 0.5
    got = []
    some = p
    if s % 4 == 1:
        some = [p]
    elif s % 4 == 2:
        some = (p,)
    rec.label('patterns as a ' + ('list' if s % 4 == 1 else 'tuple' if
                                  s % 4 == 2 else 'pattern'))

    def of_folded(a, x, b=None):
        got.append((a, x, b))
        y = p.flatten(x, free=False, validate_value=False)
        return np_.sum(np_.sin(w * y)) if flat.size else 0.
    f = paragami.FlattenFunctionInput(
        original_fun=of_folded, patterns=some, free=arg, argnums=1)
    token = object()
    r = f(token, vec, b=5)
    check(len(got) == 1 and got[0][0] is token and got[0][2] == 5,
          'arguments {}', got)
    same(node, got[0][1], val, not free, 'argument')
    want = float(np.sum(np.sin(w * flat)))
    check(abs(float(r) - want) <= 1e-7, 'value {} instead of {}', r, want)
    if vec.size and flat.size <= 40:
        g = autograd.grad(lambda z: f(token, z))(vec)
        if free:
            wantg = (w * np.cos(w * flat)) @ jacobian(node, s, False)
            check(np.all(np.abs(g - wantg) <= 1e-6 * (
                1 + np.abs(wantg).max())), 'gradient {} instead of {}', g,
                wantg)
        else:
            same_vec(np.asarray(g), w * np.cos(w * flat), False, 'gradient')
    got2 = []

    def of_flat(x):
        got2.append(x)
        return 3
    check(paragami.FoldFunctionInput(of_flat, some, arg)(val) == 3, 'returned')
    same_vec(np.asarray(got2[0]), vec, not free, 'flat argument')
    out = paragami.FoldFunctionOutput(
        lambda: (token, vec), some, arg, retnums=1)()
    check(out[0] is token and len(out) == 2, 'other return values')
    same(node, out[1], val, not free, 'folded output')
    out = paragami.FlattenFunctionOutput(
        lambda: (val, token), some, arg, retnums=0)()
    check(out[1] is token and len(out) == 2, 'other return values')
    same_vec(np.asarray(out[0]), vec, not free, 'flattened output')
    # Two patterns at once, the second a user's.
    fix = cls_of(('Ordered', 'SumZero', 'Pair')[s // 4 % 3])(2)
    other = {'t': 'c', 'kind': type(fix).__name__, 'n': 2, 'fd': None}
    flat2, free2, val2 = make(other, gen.subseed(s, 9))
    vec2 = free2 if free else flat2
    two = [fix, p] if s // 12 % 2 else (fix, p)
    got3 = []

    def of_two(a, b):
        got3.append((a, b))
        return a, b
    back = paragami.TransformFunctionOutput(
        paragami.TransformFunctionInput(of_two, two, free, False),
        two, free, False)(vec2, vec)
    check(len(got3) == 1 and len(back) == 2, 'calls {}', got3)
    same(other, got3[0][0], val2, not free, 'first argument')
    same(node, got3[0][1], val, not free, 'second argument')
    same_vec(np.asarray(back[0]), vec2, not free, 'first back')
    same_vec(np.asarray(back[1]), vec, not free, 'second back')


def run_class(case, rec):
    """What has to be implemented, and what cannot be used."""
    import paragami
    name = case['kind']
    rec.nt()
    drop = case['drop']
    rec.label('drop:%s' % drop)
    cls = new_class(name, drop)
    if drop is not None:
        reject(TypeError, lambda: cls(case['n']),
               'a class without {}'.format(drop))
        return
    p = cls(case['n'])
    check(p.free_default is None, 'free_default {}', p.free_default)
    # The same name in the same module: the registered one is decoded.
    reg = cls_of(name)
    check(type(paragami.get_pattern_from_json(p.to_json())) is reg, 'class')
    check(p != reg(case['n']) and reg(case['n']) != p,
          'equal to a pattern of another class')
    reject(ValueError, lambda: paragami.register_pattern_json(cls),
           'registering again')
    if not KINDS[name].array:
        rec.label('array of others')
        reject(NotImplementedError,
               lambda: paragami.PatternArray((2,), p),
               'an array of values that are not arrays')
    d = paragami.PatternDict()
    d['a'] = p
    for bad in (cls, methods(name), KINDS[name], p.to_json()):
        reject(ValueError, lambda: d.__setitem__('b', bad), 'not a pattern')
    check(list(d.keys()) == ['a'], 'keys')


FD = gen.fds()


def custom(kinds=None, hi=4):
    kinds = kinds or list(KINDS)

    def pick(k, fd):
        return {'t': 'c', 'kind': kinds[k % len(kinds)],
                'n': 1 + k // len(kinds) % hi, 'fd': fd}
    return st.builds(pick, gen.picks(), FD)


def array(hi=3):
    return st.fixed_dictionaries({
        't': st.just('a'), 'base': custom(ARRAYS, hi),
        'shape': st.sampled_from([[1], [2], [3], [2, 2], [1, 3], [2, 1, 2]]),
        'fd': FD})


BUILTIN = st.fixed_dictionaries({
    't': st.just('b'), 'spec': st.one_of(
        gen.num_specs(), gen.psd_specs(max_n=3, big=False), gen.sim_specs())})


def dictionary(leaf, hi=4):
    return st.fixed_dictionaries({
        't': st.just('d'), 'fd': FD,
        'items': st.lists(st.tuples(
            st.sampled_from(gen.KEYS), leaf).map(list), min_size=1,
            max_size=hi, unique_by=lambda kv: kv[0])})


LEAF = st.one_of(custom(), custom(), array(), BUILTIN)
NODES = st.one_of(
    custom(), array(), dictionary(LEAF), dictionary(LEAF),
    dictionary(st.one_of(LEAF, LEAF, dictionary(LEAF, 3))))
CASE = {'node': NODES, 's': gen.seeds}

PROP = Prop(
    'C29',
    'A case is a tree of patterns: classes derived from the abstract Pattern '
    '(increasing vectors, sums of zero, points on circles, more free than '
    'flat entries, none free, tuples, dictionaries), arrays of them, '
    'built-in ones and nested dictionaries.  Oracle: the maps between the '
    'vectors, member by member.  Non-trivial: at least one user-defined '
    'pattern and two entries.',
    [Sub('values', st.fixed_dictionaries(dict(CASE, named=st.booleans())),
         run_values, 4000),
     Sub('indices', st.fixed_dictionaries(dict(CASE, pick=gen.picks())),
         run_indices, 3200),
     Sub('jacobians', st.fixed_dictionaries(CASE), run_jacobians, 2400),
     Sub('json', st.fixed_dictionaries(dict(CASE, pick=gen.picks())),
         run_json, 3200),
     Sub('wrappers', st.fixed_dictionaries(dict(CASE, free=st.booleans())),
         run_wrappers, 3200),
     Sub('class', st.fixed_dictionaries({
         'kind': st.sampled_from(list(KINDS)), 'n': st.integers(1, 3),
         'drop': st.sampled_from([
             None, None, '__str__', 'as_dict', 'fold', 'flatten', 'empty',
             'validate_folded', 'flat_indices'])}), run_class, 400)],
    ['User-defined classes validate, fold and flatten as documented for '
     'Pattern and can be differentiated by autograd.'])
