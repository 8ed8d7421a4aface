"""C07: JSON patterns resolve only through the registry."""
import itertools
import json
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check, Violation

_counter = itertools.count()


def make_class(base, name, module):
    """A user-defined pattern class, with the documented default to_json and
    from_json of its base class."""
    return type(name, (base,), {'__module__': module})


def extended_class(base, name, module):
    """The same with its own decoder."""
    def from_json(cls, json_string):
        return super(new, cls).from_json(json_string)
    from_json.__qualname__ = name + '.from_json'
    new = type(name, (base,), {'__module__': module,
                               'from_json': classmethod(from_json)})
    return new


def named_class(base, name, module, typename):
    """The same with its own type name."""
    return type(name, (base,), {
        '__module__': module,
        'json_typename': classmethod(lambda cls: typename)})


def bases():
    import paragami
    return [paragami.NumericVectorPattern, paragami.NumericArrayPattern,
            paragami.PSDSymmetricMatrixPattern, paragami.SimplexArrayPattern,
            paragami.NumericScalarPattern, paragami.PatternArray]


def instance(cls, base_i, k):
    import paragami
    if base_i == 0:
        return cls(length=1 + k % 3, lb=-1.0 - k)
    if base_i == 1:
        return cls(shape=(1 + k % 2, 2), ub=2.0 + k)
    if base_i == 2:
        return cls(size=1 + k % 3, diag_lb=float(k))
    if base_i == 3:
        return cls(simplex_size=2 + k % 3, array_shape=(2,))
    if base_i == 4:
        return cls(lb=float(k))
    return cls(array_shape=(2,),
               base_pattern=paragami.NumericVectorPattern(length=1 + k % 3))


def expect(exc, f, what):
    try:
        r = f()
    except exc:
        return
    raise Violation('{}: expected {}, got {}'.format(what, exc.__name__, r))


def run(case, rec):
    import paragami
    reg, dec = paragami.register_pattern_json, paragami.get_pattern_from_json
    uid = next(_counter)
    bs = bases()
    # Each slot is a type name with two rival classes that share it.
    slots = []
    for i, b in enumerate(case['bases']):
        if b >= 4 * len(bs):
            b -= 4 * len(bs)
            rivals = [
                named_class(bs[b], 'Named{}_{}_{}'.format(uid, i, j),
                            'user_module{}'.format(j),
                            'own name {} {}'.format(uid, i))
                for j in range(2)]
            slots.append({'b': b, 'cls': rivals, 'builtin': False})
        elif b >= 3 * len(bs):
            # Derived from the previous slot's classes, with a longer name.
            if not slots or slots[-1]['builtin']:
                continue
            prev = slots[-1]
            rivals = [extended_class(c, c.__name__ + 'X', c.__module__)
                      for c in prev['cls']]
            slots.append({'b': prev['b'], 'cls': rivals, 'builtin': False})
        elif b >= 2 * len(bs):
            # The name of a built-in class, in another module.
            b -= 2 * len(bs)
            rivals = [make_class(bs[b], bs[b].__name__,
                                 'user_module{}'.format(uid))
                      for _ in range(2)]
            slots.append({'b': b, 'cls': rivals, 'builtin': False})
        elif b < len(bs):
            name, module = 'User{}_{}'.format(uid, i), 'user_module'
            rivals = [make_class(bs[b], name, module) for _ in range(2)]
            slots.append({'b': b, 'cls': rivals, 'builtin': False})
        else:
            b -= len(bs)
            base = bs[b]
            rivals = [base, make_class(base, base.__name__, base.__module__)]
            slots.append({'b': b, 'cls': rivals, 'builtin': True})
    if not slots:
        return
    for s in slots:
        check(s['cls'][0].json_typename() == s['cls'][1].json_typename(),
              'typename')
    model = {}
    for s in slots:
        if s['builtin']:
            model[s['cls'][0].json_typename()] = s['cls'][0]
    overwrote = set()
    vector = paragami.NumericVectorPattern

    def members_intact(cls):
        # The member of an array is decoded as whatever is registered for it.
        return not issubclass(cls, paragami.PatternArray) or \
            model.get(vector.json_typename(), vector) is vector
    try:
        for op in case['ops']:
            s = slots[op['slot'] % len(slots)]
            cls = s['cls'][op['rival']]
            tn = cls.json_typename()
            kind = op['op']
            rec.label(kind)
            if kind == 'register':
                allow = op['allow']
                if tn in model and not allow:
                    expect(ValueError, lambda: reg(cls), 'registering again')
                    expect(ValueError, lambda: reg(cls, allow_overwrite=False),
                           'registering again')
                    rec.label('rejected registration')
                    rec.nt()
                else:
                    if allow:
                        reg(cls, allow_overwrite=True)
                    else:
                        reg(cls)
                    if tn in model and model[tn] is not cls:
                        rec.label('overwritten')
                        rec.nt()
                    model[tn] = cls
                    if s['builtin']:
                        overwrote.add(s['cls'][0])
            elif kind == 'decode':
                inst = instance(cls, s['b'], op['k'])
                js = inst.to_json()
                check(json.loads(js)['pattern'] == tn, 'JSON type entry')
                if tn in model:
                    got = dec(js)
                    check(type(got) is model[tn],
                          'decoded a {} instead of the registered {}',
                          type(got), model[tn])
                    check(got.as_dict() == inst.as_dict(), 'decoded another')
                    if model[tn] is cls and members_intact(cls):
                        check(got == inst, 'decoded pattern is not equal')
                    rec.nt(not s['builtin'])
                else:
                    rec.label('unregistered')
                    rec.nt()
                    expect(KeyError, lambda: dec(js), 'unregistered pattern')
                # Through the class itself, the registry is not needed
                # (except for members).
                got = cls.from_json(js)
                check(type(got) is cls and got.as_dict() == inst.as_dict(),
                      'class from_json')
                check(got == inst or not members_intact(cls),
                      'class from_json: not equal')
            elif kind == 'container':
                inst = instance(cls, s['b'], op['k'])
                d = paragami.PatternDict()
                d['plain'] = paragami.NumericScalarPattern()
                d['user'] = paragami.PatternArray((2,), inst) \
                    if op['k'] % 2 else inst
                d['after'] = paragami.NumericVectorPattern(length=2)
                outer = paragami.PatternDict()
                outer['d'] = d
                js = outer.to_json()
                special = {c.json_typename() for c in overwrote}
                if tn in model:
                    got = dec(js)['d']['user']
                    if op['k'] % 2:
                        got = got.base_pattern()
                    check(type(got) is model[tn],
                          'member decoded as {} instead of {}', type(got),
                          model[tn])
                    check(got.as_dict() == inst.as_dict(), 'decoded another')
                    rec.nt(not s['builtin'])
                else:
                    rec.label('unregistered member')
                    rec.nt()
                    expect(KeyError, lambda: dec(js), 'unregistered member')
            elif kind == 'wrong_class':
                inst = instance(cls, s['b'], op['k'])
                o = slots[op['k'] % len(slots)]
                other = o['cls'][0] if op['k'] % 2 else \
                    bs[op['k'] // 2 % len(bs)]
                if op['k'] % 4 == 0:
                    # The class it was derived from.
                    other = bs[s['b']]
                if other.json_typename() == tn:
                    continue
                rec.nt()
                expect(ValueError, lambda: other.from_json(inst.to_json()),
                       'decoding a {} with {}'.format(tn, other))
                expect(ValueError,
                       lambda: paragami.PatternDict.from_json(inst.to_json()),
                       'decoding a {} with PatternDict'.format(tn))
            else:
                inst = instance(cls, s['b'], op['k'])
                d = json.loads(inst.to_json())
                which = op['k'] % 3
                if which == 0:
                    del d['pattern']
                elif which == 1:
                    d['pattern'] = d['pattern'] + '_'
                else:
                    d['pattern'] = d['pattern'].split('.')[-1]
                    if d['pattern'] == tn:
                        d['pattern'] = cls.__name__
                rec.nt()
                expect(KeyError, lambda: dec(json.dumps(d)),
                       'JSON with pattern entry {}'.format(d.get('pattern')))
    finally:
        for s in slots:
            if s['builtin']:
                reg(s['cls'][0], allow_overwrite=True)


OPS = st.fixed_dictionaries({
    'op': st.sampled_from(['register', 'register', 'decode', 'decode',
                           'container', 'wrong_class', 'mangled']),
    'slot': st.integers(0, 3), 'rival': st.integers(0, 1),
    'allow': st.sampled_from([False, False, True]), 'k': st.integers(0, 11)})

PROP = Prop(
    'C07',
    'A case is a history over up to four type names, each with two rival '
    'classes (user-defined subclasses of built-in patterns, or a built-in one '
    'and an impostor of the same type name, or of the same class name in '
    'another module, or a class derived from another slot, or classes with '
    'type names of their own): registrations with and without overwriting, '
    ' generic decoding alone and inside containers, decoding '
    'through another class, and JSON with a missing or mangled type entry.  '
    'The model is a dictionary from type names to classes.  Non-trivial: a '
    'rejected or overwriting registration, a rejected decoding, or a '
    'user-defined class decoded.',
    [Sub('history', st.fixed_dictionaries(
        {'bases': st.lists(st.integers(0, 29), min_size=1, max_size=4,
                           unique_by=lambda b: b if b >= 6 and b < 12 else (b, object())),
         'ops': st.lists(OPS, min_size=2, max_size=10)}), run, 8000)],
    ['Built-in registrations are restored after each case.'])
