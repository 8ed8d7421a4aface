"""C03: flat vectors concatenate their members in a fixed order."""
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check


def close(a, b, rel=1e-11):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    sc = rel * (1 + np.maximum(np.abs(a), np.abs(b)))
    return bool((np.abs(a - b) <= sc).all())


def check_lengths(p, spec):
    for free in (False, True):
        n = gen.flat_len(spec, free)
        got = p.flat_length(free=free)
        check(got == n, 'flat_length({}) = {}, expected {}', free, got, n)
    if spec['k'] == 'dict':
        for name, s in spec['items']:
            check_lengths(p[name], s)
    if spec['k'] == 'parr':
        check_lengths(p.base_pattern(), spec['base'])


def run_nonfree(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    ls = gen.leaves(spec)
    rec.nt(len(ls) > 1 or gen.flat_len(spec, False) > 1)
    p = gen.build(spec)
    check_lengths(p, spec)
    make = gen.boundary if case['boundary'] else gen.interior
    val = make(spec, case['fill'])
    ref = gen.ref_flatten(spec, val)
    flat = p.flatten(val, free=False)
    check(flat.shape == ref.shape and np.array_equal(flat, ref),
          'flat vector {} is not the concatenation {}', flat, ref)
    # Folding, with distinct markers so that any displacement is visible.
    marks = np.arange(1., 1. + ref.size)
    want = gen.ref_fold(spec, marks)
    got = p.fold(marks, free=False, validate_value=False)
    gen.same_structure(spec, got)
    check(gen.exactly_equal(spec, got, want), 'fold uses another layout')
    for mode in range(5):
        v = gen.relayout(spec, want, {'o': mode})
        flat = p.flatten(v, free=False, validate_value=False)
        check(np.array_equal(flat, marks), 'flatten uses another layout')
    v = gen.lay_out(marks, 2 + case['fill']['s'] % 2)
    got = p.fold(v, free=False, validate_value=False)
    check(gen.exactly_equal(spec, got, want),
          'fold of a strided vector uses another layout')
    got = p.fold(ref, free=False)
    check(gen.exactly_equal(spec, got, val), 'fold uses another layout')


def run_free(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    ls = gen.leaves(spec)
    rec.nt(len(ls) > 1)
    rec.label('leaves>=%d' % min(len(ls), 4))
    p = gen.build(spec)
    val = gen.interior(spec, case['fill'])
    flat = p.flatten(val, free=True)
    check(flat.shape == (gen.flat_len(spec, True),), 'length {}', flat.shape)
    free = gen.free_vector(spec, case['fill'])
    folded = p.fold(free, free=True)
    gen.same_structure(spec, folded)
    members = {}
    for path, s, _, off in ls:
        key = str(s)
        if key not in members:
            members[key] = gen.build(s)
        m = members[key]
        n = gen.flat_len(s, True)
        v = np.array(gen.at(val, path))
        want = m.flatten(v, free=True)
        check(close(flat[off:off + n], want),
              'free entries {}:{} are not those of member {}', off, off + n,
              path)
        want = m.fold(free[off:off + n], free=True)
        check(close(gen.at(folded, path), want),
              'free folding reads other entries for member {}', path)


CONT = st.one_of(gen.parr_specs(), gen.dict_specs(depth_left=3),
                 gen.dict_specs(depth_left=3), gen.dict_specs(depth_left=2))

PROP = Prop(
    'C03',
    'A case is a generated pattern (mostly nested dictionaries and arrays) '
    'and value; the layout oracle is an independent reference flattening '
    'computed from the specification.  Non-trivial: more than one member '
    '(free), or more than one flat entry (nonfree).',
    [Sub('big_free', st.fixed_dictionaries(
        {'spec': gen.big_specs(['parr', 'dict', 'long', 'deep']),
         'fill': gen.fills()}), run_free, 960),
     Sub('big_nonfree', st.fixed_dictionaries(
        {'spec': gen.big_specs(), 'fill': gen.fills(), 'boundary': st.booleans()}), run_nonfree, 1280),
     Sub('huge_free', st.fixed_dictionaries(
         {'spec': gen.huge_specs(['dict', 'parr']), 'fill': gen.fills()}),
         run_free, 48),
     Sub('huge_nonfree', st.fixed_dictionaries(
         {'spec': gen.huge_specs(), 'fill': gen.fills(),
          'boundary': st.booleans()}), run_nonfree, 48),
     Sub('nonfree', st.fixed_dictionaries(
        {'spec': st.one_of(gen.specs(), CONT), 'fill': gen.fills(),
         'boundary': st.booleans()}), run_nonfree, 4000),
     Sub('free', st.fixed_dictionaries(
         {'spec': CONT, 'fill': gen.fills()}), run_free, 4800)])
