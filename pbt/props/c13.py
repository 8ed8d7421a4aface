"""C13: flat names label each flat entry once and in order."""
import itertools
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check


def listed(names, n, what):
    names = list(names)
    check(all(isinstance(x, str) for x in names), '{}: not strings: {}', what,
          [type(x) for x in names][:3])
    check(len(names) == n, '{}: {} names for {} entries', what, len(names), n)
    return [str(x) for x in names]


def num_names(s):
    return ['[' + ','.join(str(i) for i in item) + ']'
            for item in itertools.product(*[range(k)
                                            for k in gen.shape_of(s)])]


def run(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    for free in (True, False):
        n = gen.flat_len(spec, free)
        rec.nt(n > 1)
        names = listed(p.flat_names(free), n, spec['k'])
        if gen.is_num(spec):
            check(names == num_names(spec), 'names {} != {}', names,
                  num_names(spec))
        if spec['k'] != 'dict':
            check(len(set(names)) == n, 'repeated names: {}', names)
            continue
        delim = case['delim']
        rec.label('delim:' + repr(delim))
        got = names if delim is None else \
            listed(p.flat_names(free, delim=delim), n, 'dict')
        d = '_' if delim is None else delim
        want = []
        for name, s in spec['items']:
            own = listed(gen.build(s).flat_names(free),
                         gen.flat_len(s, free), 'member')
            if gen.is_num(s):
                own = num_names(s)
            want += [name + d + o for o in own]
        check(got == want, 'names {} != {}', got, want)
        if len(set(want)) == len(want):
            rec.label('distinct')


PROP = Prop(
    'C13',
    'A case is a generated pattern (dictionaries with unusual, prefix-sharing '
    'and non-ASCII keys) and a delimiter; names are checked in both '
    'parameterizations against bracketed indices (numeric arrays) and key, '
    'delimiter and member name (dictionaries), and for count, type and '
    'distinctness otherwise.  Non-trivial: more than one entry.',
    [Sub('big', st.fixed_dictionaries(
        {'spec': gen.big_specs(['parr', 'dict', 'long', 'deep', 'num']),
         'delim': st.sampled_from([None, '/', ''])}), run, 1280),
     Sub('huge', st.fixed_dictionaries(
         {'spec': gen.huge_specs(), 'delim': st.sampled_from([None, '/'])}),
         run, 48),
     Sub('names', st.fixed_dictionaries(
        {'spec': st.one_of(gen.specs(depth_left=3),
                           gen.dict_specs(depth_left=2)),
         'delim': st.sampled_from([None, None, '_', '', '/', '.', '__',
                                   ' | ', '\u00b7'])}), run, 6400)])
