"""C14: a pattern dictionary tracks every edit, and a locked one is fixed."""
import copy
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check, Violation


def expect(excs, f, what):
    try:
        r = f()
    except excs:
        return
    raise Violation('{}: no error (returned {})'.format(what, r))


def compare(p, model, fd, fill, deep):
    """p against a dictionary built directly from the model's contents."""
    import paragami
    spec = {'k': 'dict', 'items': [[n, s] for n, s in model], 'fd': fd}
    names = [n for n, _ in model]
    check(list(p.keys()) == names, 'keys {} != {}', list(p.keys()), names)
    for free in (True, False):
        n = p.flat_length(free=free)
        check(n == gen.flat_len(spec, free),
              'flat_length({}) = {}, contents have {}', free, n,
              gen.flat_len(spec, free))
    fresh = gen.build(spec)
    check(p == fresh and fresh == p, 'not equal to a fresh dictionary')
    check(p.to_json() == fresh.to_json(), 'JSON differs from a fresh one')
    val = gen.interior(spec, fill)
    flat = p.flatten(val, free=False)
    check(np.array_equal(flat, gen.ref_flatten(spec, val)), 'layout differs')
    gen.same_structure(spec, p.fold(flat, free=False))
    if not deep:
        return
    check(gen.nearly(p.flatten(val, free=True), fresh.flatten(val, free=True)),
          'free layout differs')
    x = gen.free_vector(spec, fill)
    got, want = p.fold(x, free=True), fresh.fold(x, free=True)
    gen.same_structure(spec, got)
    check(gen.nearly(gen.ref_flatten(spec, got), gen.ref_flatten(spec, want)),
          'free folding differs')
    for n, s in model:
        check(p[n] == gen.build(s), 'member {!r} differs', n)
    check(list(p.flat_names(False)) == list(fresh.flat_names(False)),
          'names differ')
    gen.same_structure(spec, p.empty(valid=True))
    gen.same_structure(spec, p.empty_bool(True))
    q = paragami.get_pattern_from_json(p.to_json())
    check(q == p and list(q.keys()) == names, 'JSON round trip differs')
    jac = p.unfreeing_jacobian(val)
    check(jac.shape == (gen.flat_len(spec, False), gen.flat_len(spec, True)),
          'Jacobian shape {}', jac.shape)
    ind = p.flat_indices(p.empty_bool(True), free=False)
    check(np.array_equal(ind, np.arange(gen.flat_len(spec, False))),
          'indices differ')


def find(model, key):
    for i, (n, _) in enumerate(model):
        if n == key:
            return i
    return None


def resolve(dicts, model):
    """A nested dictionary is shared with its parents: look it up."""
    out = []
    for n, s in model:
        if s['k'] == 'link':
            o = dicts[s['i']]
            s = {'k': 'dict', 'fd': o[3],
                 'items': [list(m) for m in resolve(dicts, o[1])]}
        out.append((n, s))
    return out


def run(case, rec):
    import paragami
    fill = case['fill']
    fd = case['fd']
    # Dictionaries under edit: [pattern, model, locked, free_default].
    dicts = [[gen.build({'k': 'dict', 'items': [], 'fd': fd}), [], False, fd]]
    edits = rejected = 0
    for op in case['ops']:
        d = dicts[op['d'] % len(dicts)]
        p, model, locked, dfd = d
        kind, key = op['op'], op['key']
        i = find(model, key)
        if kind == 'set':
            def act():
                p[key] = gen.build(op['spec'])
            if locked:
                expect(ValueError, act, 'insertion into a locked dictionary')
                rejected += 1
                rec.label('locked set')
            else:
                act()
                edits += 1
                if i is None:
                    model.append((key, op['spec']))
                    rec.label('insert')
                else:
                    model[i] = (key, op['spec'])
                    rec.label('replace')
        elif kind in ('del', 'del_any'):
            if kind == 'del_any' and model:
                key = model[op['pick'] % len(model)][0]
                i = find(model, key)

            def act():
                del p[key]
            if locked:
                expect(ValueError, act, 'deletion from a locked dictionary')
                rejected += 1
                rec.label('locked del')
            elif i is None:
                expect(KeyError, act, 'deletion of a missing key')
                rejected += 1
                rec.label('missing del')
            else:
                act()
                del model[i]
                edits += 1
                rec.label('delete')
                if not model:
                    rec.label('emptied')
        elif kind == 'replace_any':
            if not model or locked:
                continue
            key = model[op['pick'] % len(model)][0]
            i = find(model, key)
            p[key] = gen.build(op['spec'])
            model[i] = (key, op['spec'])
            edits += 1
            rec.label('replace')
        elif kind == 'bad':
            # Not a pattern: rejected (with ValueError if locked).
            bad = BAD[op['pick'] % len(BAD)]
            if op['old'] and model:
                key = model[op['pick'] % len(model)][0]

            def act():
                p[key] = bad
            expect(ValueError if locked else Exception, act,
                   'insertion of {!r}'.format(bad))
            rejected += 1
            rec.label('bad value')
        elif kind == 'lock':
            p.lock()
            d[2] = True
            rec.label('lock')
        elif kind == 'nest':
            # Insert this dictionary into a new or an existing other one.
            spec = {'k': 'dict', 'fd': dfd,
                    'items': [list(m) for m in resolve(dicts, model)]}
            if gen.depth(spec) > 3 or len(dicts) >= 3:
                continue
            o = [gen.build({'k': 'dict', 'items': [], 'fd': None}), [], False,
                 None]
            for name, s in case['outer']:
                o[0][name] = gen.build(s)
                o[1].append((name, s))
            o[0]['nested'] = p
            o[1].append(('nested', {'k': 'link', 'i': [x is d for x in dicts].index(True)}))
            check(o[0]['nested'] is p, 'another object was inserted')
            d[2] = True
            dicts.append(o)
            rec.label('nest')
        elif kind == 'deepcopy':
            q = copy.deepcopy(p)
            check(q == p, 'copy is not equal')
            compare(q, resolve(dicts, model), dfd, fill, True)
            if not locked:
                # Editing the copy leaves the original alone.
                q['copy_only'] = paragami.NumericScalarPattern()
                for n in [n for n, _ in model]:
                    del q[n]
                rec.label('copy edited')
        elif kind == 'json':
            q = paragami.PatternDict.from_json(p.to_json())
            compare(q, resolve(dicts, model), dfd, fill, False)
            q['new_key'] = paragami.NumericVectorPattern(length=3)
            rec.label('json copy edited')
        elif kind == 'default':
            p.free_default = op['to']
            d[3] = dfd = op['to']
            rec.label('default')
        for o in dicts:
            compare(o[0], resolve(dicts, o[1]), o[3], fill,
                    o is d and op['deep'])
    for o in dicts:
        compare(o[0], resolve(dicts, o[1]), o[3], fill, True)
    rec.nt(edits >= 2 or (edits and rejected))


def run_derived(case, rec):
    """A dictionary of a class derived from the pattern dictionary."""
    import paragami

    class Derived(paragami.PatternDict):
        """Keeps a note."""
        note = None

    class Twice(Derived):
        pass

    p = (Derived, Twice)[case['twice']](free_default=case['fd'])
    p.note = 'x'
    spec = {'k': 'dict', 'fd': case['fd'], 'items': case['items']}
    for n, s in case['items']:
        p[n] = gen.build(s)

    def same(q, spec, what):
        check(list(q.keys()) == [n for n, _ in spec['items']],
              '{}: keys {}', what, list(q.keys()))
        for free in (True, False):
            check(q.flat_length(free) == gen.flat_len(spec, free),
                  '{}: length {}', what, q.flat_length(free))
        val = gen.interior(spec, case['fill'])
        flat = q.flatten(val, free=False)
        check(np.array_equal(flat, gen.ref_flatten(spec, val)),
              '{}: layout differs', what)
        gen.same_structure(spec, q.fold(flat, free=False))
    same(p, spec, 'derived')
    # Still open.
    p['temporary'] = paragami.NumericVectorPattern(length=4)
    del p['temporary']
    same(p, spec, 'derived, edited')
    outer = paragami.PatternDict()
    ospec = {'k': 'dict', 'fd': None, 'items': [['m', spec]]}
    outer['m'] = p
    if case['other']:
        outer['z'] = gen.build(case['other'])
        ospec['items'].append(['z', case['other']])
    top, tspec = outer, ospec
    if case['deeper']:
        top = Derived()
        top['outer'] = outer
        tspec = {'k': 'dict', 'fd': None, 'items': [['outer', ospec]]}
    rec.nt(bool(case['items']))
    for what in case['edits']:
        q = outer if case['deeper'] and what.endswith('outer') else p
        kind = what.split()[0]
        rec.label(what)
        if kind == 'insert':
            expect(ValueError, lambda: q.__setitem__(
                'new', paragami.NumericVectorPattern(length=2)), what)
        elif q.keys():
            key = list(q.keys())[-1]
            if kind == 'replace':
                expect(ValueError, lambda: q.__setitem__(
                    key, paragami.NumericVectorPattern(length=2)), what)
            else:
                expect(ValueError, lambda: q.__delitem__(key), what)
        same(p, spec, what)
        same(outer, ospec, what)
        same(top, tspec, what)


BAD = [None, 5, 'a', {}, [], np.zeros(2), float]
SMALL_KEYS = ['a', 'b', 'c', 'ab', '', 'a b', 'nested', 'z1', 'z10']
MEMBER = st.one_of(
    gen.leaf_specs(psd_big=False), gen.leaf_specs(psd_big=False),
    gen.parr_specs(max_total=24),
    gen.dict_specs(depth_left=1, max_items=3, max_total=24))
OPS = st.fixed_dictionaries({
    'op': st.sampled_from(['set', 'set', 'set', 'set', 'del', 'del_any',
                           'del_any', 'replace_any', 'replace_any', 'lock',
                           'nest', 'deepcopy', 'json', 'default', 'bad']),
    'old': st.booleans(),
    'd': st.integers(0, 2), 'key': st.sampled_from(SMALL_KEYS),
    'pick': gen.picks(), 'spec': MEMBER, 'deep': st.booleans(),
    'to': st.sampled_from([None, True, False])})

PROP = Prop(
    'C14',
    'A case is a history of insertions, replacements, deletions, locks, '
    'nestings, copies, JSON round trips and default changes on up to three '
    'dictionaries; after every operation each dictionary is compared with '
    'one built directly from an ordered model (keys, lengths, equality, '
    'JSON, layout).  Non-trivial: at least two edits, or an edit and a '
    'rejected operation.  derived: the same locking for dictionaries of a '
    'derived class.',
    [Sub('history', st.fixed_dictionaries(
        {'fd': st.sampled_from([None, None, True, False]),
         'fill': gen.fills(),
         'outer': st.lists(st.tuples(st.sampled_from(['o1', 'o2']),
                                     gen.leaf_specs(psd_big=False)).map(list),
                           max_size=2, unique_by=lambda x: x[0]),
         'ops': st.lists(OPS, min_size=2, max_size=9)}), run, 3200),
     Sub('derived', st.fixed_dictionaries(
         {'fd': gen.fds(), 'fill': gen.fills(), 'twice': st.booleans(),
          'items': st.lists(st.tuples(st.sampled_from(SMALL_KEYS),
                                      MEMBER).map(list), max_size=3,
                            unique_by=lambda x: x[0]),
          'other': st.one_of(st.none(), gen.num_specs()),
          'deeper': st.booleans(),
          'edits': st.lists(st.sampled_from(
              ['insert', 'replace', 'delete', 'insert outer',
               'delete outer']), min_size=1, max_size=3)}),
         run_derived, 800)],
    ['Something that is not a pattern must be rejected (by whatever '
     'exception) and change nothing.'])
