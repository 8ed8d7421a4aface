"""C27: invalid configurations and requests are refused, valid ones are not,
and settings that are changed later take effect."""
import json
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check, Violation
from .c04 import (array_nodes, dict_nodes, wrong_shapes, corrupt,
                  raises_value_error, check_verdict, CORR)
from .c05 import nodes
from .c12 import check_reported

INF = gen.INF


def must_refuse(f, what, kinds=(Exception,)):
    try:
        r = f()
    except kinds:
        return
    except Exception as e:
        raise Violation('{} raised {!r}'.format(what, e))
    raise Violation('{} was accepted: {}'.format(what, r))


# -- constructors ------------------------------------------------------------

def number(c):
    """A limit from its JSON form."""
    return {'inf': INF, '-inf': -INF, 'nan': float('nan'),
            None: None}.get(c, c) if not isinstance(c, (int, float)) else c


def configuration(case):
    """(spec, 'ok' / 'value error' / 'error')"""
    what = case['what']
    if what in ('arr', 'vec', 'sca'):
        lb, ub = number(case['lb']), number(case['ub'])
        rel = case['rel']
        if rel != 'free' and lb is not None and not np.isnan(lb) and \
                not np.isinf(lb):
            # The upper bound in relation to the lower one.
            ub = {'equal': lb, 'ulp above': float(np.nextafter(lb, INF)),
                  'ulp below': float(np.nextafter(lb, -INF)),
                  'one above': lb + 1, 'one below': lb - 1}[rel]
            if case['as_int'] and rel == 'equal' and \
                    abs(lb) < 1e9 and float(lb).is_integer():
                ub = int(lb)
        s = {'k': what, 'lb': lb, 'ub': ub, 'dv': case['dv'],
             'fd': case['fd']}
        if what == 'arr':
            s['shape'] = case['shape']
        if what == 'vec':
            s['length'] = case['shape'][0]
        l, u = gen.lb_of(s), gen.ub_of(s)
        if np.isnan(l) or np.isnan(u):
            return s, 'error'
        return s, 'ok' if l < u else 'value error'
    if what == 'psd':
        d = case['diag_lb']
        s = {'k': 'psd', 'size': case['shape'][0], 'diag_lb': d,
             'dv': case['dv'], 'fd': case['fd']}
        return s, 'ok' if d >= 0 else 'value error'
    n = case['size']
    s = {'k': 'sim', 'size': n, 'ashape': case['shape'][1:],
         'dv': case['dv'], 'fd': case['fd']}
    return s, 'ok' if n >= 2 else 'value error'


def huge(spec):
    """Width overflows, or adding one makes no difference."""
    return gen.is_num(spec) and not gen.ub_of(spec) - gen.lb_of(spec) < 1e9 \
        and any(np.isfinite(x) and abs(x) > 1e9
                for x in (gen.ub_of(spec), gen.lb_of(spec)))


def as_json(spec):
    """The JSON of a configuration, from the JSON of a harmless one."""
    s = dict(spec)
    if gen.is_num(s):
        s['lb'], s['ub'] = 0, 1
    elif s['k'] == 'psd':
        s['diag_lb'] = 0
    else:
        s['size'] = 2
    d = json.loads(gen.build(s).to_json())
    if gen.is_num(s):
        d['lb'], d['ub'] = gen.lb_of(spec), gen.ub_of(spec)
    elif s['k'] == 'psd':
        d['diag_lb'] = spec['diag_lb']
    else:
        d['simplex_size'] = spec['size']
    return json.dumps(d)


def run_construct(case, rec):
    import paragami
    spec, verdict = configuration(case)
    rec.label(case['what'], verdict, case['how'])
    rec.nt()
    cls = {'arr': paragami.NumericArrayPattern,
           'vec': paragami.NumericVectorPattern,
           'sca': paragami.NumericScalarPattern,
           'psd': paragami.PSDSymmetricMatrixPattern,
           'sim': paragami.SimplexArrayPattern}[spec['k']]
    if case['how'] == 'json':
        js = as_json(spec)
        make = lambda: cls.from_json(js)
    elif case['how'] == 'registered':
        js = as_json(spec)
        make = lambda: paragami.get_pattern_from_json(js)
    elif case['how'] == 'numpy':
        make = lambda: gen.build(spec, gen.numpy_scalars)
        if verdict == 'ok':
            make = lambda: gen.build(spec)
    else:
        make = lambda: gen.build(spec)
    if verdict != 'ok':
        must_refuse(make, 'configuration {}'.format(spec),
                    (ValueError,) if verdict == 'value error'
                    else (Exception,))
        return
    p = make()
    check_reported(p, spec)
    if gen.flat_len(spec, False):
        e = p.empty(valid=True)
        gen.same_structure(spec, e, 'empty value')
        if not huge(spec):
            check(p.validate_folded(e, validate_value=True)[0],
                  'empty value {} is refused', e)


# -- containers --------------------------------------------------------------

def run_containers(case, rec):
    import paragami
    spec = case['spec']
    gen.spec_labels(rec, spec)
    rec.nt(spec['k'] == 'dict')
    p = gen.build(spec)
    shape = tuple(case['shape'])
    how = case['how']
    rec.label(how)
    if how == 'array':
        make = lambda b: paragami.PatternArray(array_shape=shape,
                                               base_pattern=b)
    elif how == 'nested':
        def make(b):
            return paragami.PatternArray(
                shape, paragami.PatternArray((2,), base_pattern=b))
    else:
        small = paragami.PatternArray(shape, paragami.NumericScalarPattern())
        d = json.loads(small.to_json())

        def make(b):
            d['base_pattern'] = b.to_json()
            return paragami.PatternArray.from_json(json.dumps(d))
    if spec['k'] == 'dict':
        # Its folded values are not arrays.
        must_refuse(lambda: make(p), 'an array of dictionaries',
                    (NotImplementedError,))
    else:
        q = make(p)
        extra = (2,) if how == 'nested' else ()
        want = shape + extra + gen.shape_of(spec)
        check(q.shape() == want, 'shape {} != {}', q.shape(), want)


# -- requests ----------------------------------------------------------------

def run_masks(case, rec):
    """Masks whose structure is not the pattern's."""
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    mask = gen.map_leaves(
        spec, lambda path, s: np.ones(gen.shape_of(s), dtype=bool))
    arrays, dicts = array_nodes(spec), dict_nodes(spec)
    if case['drop'] and dicts:
        path, s = dicts[case['which'] % len(dicts)]
        name = s['items'][case['pos'] % len(s['items'])][0]
        del gen.at(mask, path)[name]
        what = 'missing key {!r} at {}'.format(name, path)
        rec.label('missing key')
    elif arrays:
        path, s = arrays[case['which'] % len(arrays)]
        shape = gen.shape_of(s)
        cands = [c for c in wrong_shapes(shape) if gen.size(c)]
        if gen.is_num(s) and shape == (1,):
            cands = [c for c in cands if c != ()]
        if not cands:
            return
        bad = np.ones(cands[case['pos'] % len(cands)], dtype=bool)
        if case['few'] and bad.size > 1:
            bad[...] = False
            bad.flat[case['pos'] % bad.size] = True
        if path:
            gen.at(mask, path[:-1])[path[-1]] = bad
        else:
            mask = bad
        what = 'mask of shape {} for {} at {}'.format(bad.shape, shape, path)
        rec.label('wrong shape:' + s['k'])
    else:
        return
    rec.nt()
    for free in (True, False):
        raises_value_error(lambda: p.flat_indices(mask, free=free), what)


# -- settings that are changed later -----------------------------------------

def changed(spec, path_specs, to):
    """The spec with default_validate of the node at path_specs changed."""
    if spec is path_specs:
        return dict(spec, dv=to)
    s = dict(spec)
    if s['k'] == 'dict':
        s['items'] = [[n, changed(x, path_specs, to)] for n, x in s['items']]
    if s['k'] == 'parr':
        s['base'] = changed(s['base'], path_specs, to)
    return s


def run_live(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    val = gen.map_leaves(
        spec, lambda path, s, v=gen.interior(spec, case['fill']):
        np.array(gen.at(v, path), dtype=float))
    ls = gen.leaves(spec)
    if not ls:
        return
    c = case['corr']
    path, s, _, _ = ls[c['leaf'] % len(ls)]
    corrupt(s, gen.at(val, path), c)
    flat = gen.ref_flatten(spec, val)
    for step in case['steps']:
        every = [(q, s) for q, s in nodes(spec, p)
                 if s['k'] not in ('dict', 'parr')]
        q, s = every[step['node'] % len(every)]
        if step['op'] == 'dv':
            q.default_validate = step['to']
            spec = changed(spec, s, step['to'])
            rec.label('changed validation')
        else:
            every = nodes(spec, p)
            q, s = every[step['node'] % len(every)]
            q.free_default = step['to']
            t = dict(s, fd=step['to'])

            def put(x):
                if x is s:
                    return t
                x = dict(x)
                if x['k'] == 'dict':
                    x['items'] = [[n, put(y)] for n, y in x['items']]
                if x['k'] == 'parr':
                    x['base'] = put(x['base'])
                return x
            spec = put(spec)
            rec.label('changed default')
        ref = gen.build(spec)
        check(p == ref and ref == p and not p != ref,
              'differs from a pattern built with the changed settings')
        check(p.to_json() == ref.to_json(), 'its JSON {} is not {}',
              p.to_json(), ref.to_json())
        verdicts = [(gen.leaf_valid(x, gen.at(val, pa)), x)
                    for pa, x, _, _ in gen.leaves(spec)]
        if any(r == 'unsure' for r, _ in verdicts):
            continue
        want = not any(r == 'bad' and gen.dv_of(x) for r, x in verdicts)
        rec.label('accepted' if want else 'rejected')
        rec.nt(any(r == 'bad' for r, _ in verdicts))
        check_verdict(p.validate_folded(val), want, 'value')
        if want:
            check(np.array_equal(p.flatten(val, free=False), flat),
                  'flattened another value')
            check(gen.exactly_equal(spec, p.fold(flat, free=False), val),
                  'folded another value')
        else:
            raises_value_error(lambda: p.flatten(val, free=False),
                               'flattening an invalid value')
            raises_value_error(lambda: p.fold(flat, free=False),
                               'folding an invalid value')
        back = type(p).from_json(p.to_json())
        check_verdict(back.validate_folded(val), want,
                      'value, after JSON')
        check(back.free_default is spec.get('fd'), 'free_default after JSON')


LIMITS = st.sampled_from([None, 'inf', '-inf', 'nan', 0, 0.0, -0.0, 1, -1,
                          2.5, -2.5, 1e-300, -1e-300, 1e300, -1e300, 7, 10,
                          5e-324, 1e-9, 3, -1000])

PROP = Prop(
    'C27',
    'A case is a configuration at or around the limits of what is allowed '
    '(given to a constructor, as numpy scalars, or through JSON), an array '
    'of a generated pattern, a mask with the wrong structure at one member, '
    'or a value with one corrupted entry and a history of settings changed '
    'on the pattern and its members, compared with a pattern built with '
    'them.  Non-trivial: every configuration and wrong mask, every history '
    'on an invalid value.',
    [Sub('construct', st.fixed_dictionaries(
        {'what': st.sampled_from(['arr', 'arr', 'vec', 'sca', 'psd', 'sim']),
         'how': st.sampled_from(['plain', 'plain', 'json', 'registered',
                                 'numpy']),
         'lb': LIMITS, 'ub': LIMITS,
         'rel': st.sampled_from(['free', 'free', 'free', 'equal',
                                 'ulp above', 'ulp below', 'one above',
                                 'one below']),
         'as_int': st.booleans(), 'dv': gen.dvs(), 'fd': gen.fds(),
         'shape': st.lists(st.integers(1, 3), min_size=1, max_size=3),
         'diag_lb': st.sampled_from([0, 0.0, -1, -1e-300, -5e-324, -0.5, 1,
                                     1e-300, 2.5, -1000, 100]),
         'size': st.integers(-2, 5)}), run_construct, 4000),
     Sub('containers', st.fixed_dictionaries(
         {'spec': gen.specs(zero=False, depth_left=1),
          'shape': st.lists(st.integers(1, 3), min_size=1, max_size=2),
          'how': st.sampled_from(['array', 'nested', 'json'])}),
         run_containers, 1200),
     Sub('masks', st.fixed_dictionaries(
         {'spec': gen.specs(zero=False), 'drop': st.booleans(),
          'few': st.booleans(), 'which': gen.picks(), 'pos': gen.picks()}),
         run_masks, 2400),
     Sub('live', st.fixed_dictionaries(
         {'spec': gen.specs(zero=False), 'fill': gen.fills(), 'corr': CORR,
          'steps': st.lists(st.fixed_dictionaries(
              {'op': st.sampled_from(['dv', 'dv', 'fd']),
               'node': gen.picks(), 'to': st.booleans()}),
              min_size=1, max_size=4)}), run_live, 2400)],
    ['Array shapes of arrays of patterns are not empty.',
     'A mask that selects nothing need not be refused.'])
