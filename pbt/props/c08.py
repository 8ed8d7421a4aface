"""C08: saving and loading preserves value, pattern and extra data."""
import io
import os
import pathlib
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check, Violation
from .c04 import CORR, corrupt

EXTRA_NAMES = ['x', 'extra', 'arr_0', 'data', 'flat', 'value', 'Pattern',
               'free', 'a_b', 'fname', 'args', 'kwds', 'key', 'names', 'f',
               'x_', '_x', '__x__', 'X', 'x 1', 'x1', 'a-b', 'a/b', '\u00e9',
               'flat_val_', 'Flat_val', 'default']


def extra_value(e):
    kind, s = e['kind'], e['s']
    u = gen.uniform(s, 6)
    if kind == 'float':
        return u
    if kind == 'matrix':
        return (u * 100).reshape(2, 3)
    if kind == 'int':
        return gen.ints(s, 4, -5, 5)
    if kind == 'scalar':
        return float(u[0])
    if kind == 'str':
        return 'text %d' % (s % 97)
    if kind == 'bool':
        return u < 0.5
    if kind == 'empty':
        return np.zeros((0, 3))
    return (u * 10).astype('float32')


def sparse_values(spec, seed, tiny):
    """Unbounded entries mostly zero or whole, the others of any magnitude or
    one rounding away."""
    def fn(path, s):
        ps = gen.pathseed(seed, path)
        if not gen.is_num(s):
            return np.array(gen.at(val, path))
        if gen.lb_of(s) > -gen.INF or gen.ub_of(s) < gen.INF:
            return np.array(gen.at(val, path))
        n = gen.size(gen.shape_of(s))
        v = gen.ints(ps, n, -2, 3).astype(float)
        u = gen.uniform(gen.subseed(ps, 1), n)
        w = gen.uniform(gen.subseed(ps, 2), n)
        v = np.where(u < 0.08, 10.0 ** (600 * w - 300) if tiny else
                     np.nextafter(v, 9.), v)
        return v.reshape(gen.shape_of(s))
    val = gen.interior(spec, {'s': seed})
    return gen.map_leaves(spec, fn)


def run(case, rec):
    import paragami
    tmp = tempfile.mkdtemp(prefix='verif_c08_')
    try:
        saved = {}
        for i, item in enumerate(case['items']):
            spec = item['spec']
            gen.spec_labels(rec, spec)
            rec.label('file:' + item['file'])
            p = gen.build(spec)
            make = gen.boundary if item['boundary'] else gen.interior
            val = make(spec, item['fill'])
            other = gen.subseed(item['fill']['s'], 11) % 8
            if other == 0:
                val, _ = gen.integers(
                    spec, item['fill']['s'], gen.SMALL_TYPES[
                        gen.subseed(item['fill']['s'], 12) % 7], True)
            elif other <= 2:
                val = sparse_values(spec, item['fill']['s'], other == 1)
            if item['corr'] is not None:
                val = gen.map_leaves(spec, lambda path, s, v=val: np.array(
                    gen.at(v, path), dtype=float))
                ls = gen.leaves(spec)
                if ls:
                    path, s, _, _ = ls[item['corr']['leaf'] % len(ls)]
                    corrupt(s, gen.at(val, path), item['corr'])
            verdicts = [(gen.leaf_valid(s, gen.at(val, path)), s)
                        for path, s, _, _ in gen.leaves(spec)]
            if any(r == 'unsure' for r, _ in verdicts):
                continue
            want = not any(r == 'bad' and gen.dv_of(s) for r, s in verdicts)
            base = os.path.join(tmp, ['file', 'file', 'another file \u00e9.x'][
                item['name']] + ('' if item['over'] else str(i)))
            if item['file'] == 'bare':
                f, path = base, base + '.npz'
            elif item['file'] == 'ext':
                f, path = base + '.npz', base + '.npz'
            elif item['file'] == 'dotted':
                f, path = base + '.v1', base + '.v1.npz'
            elif item['file'] == 'path':
                f = pathlib.Path(base + '.npz')
                path = base + '.npz'
            elif item['file'] == 'open':
                path = base + '.dat'
                saved.pop(path, None)
                f = open(path, 'w+b')
            else:
                f = io.BytesIO()
                path = None
            there = path in saved
            if there:
                rec.label('overwriting')
            extras = {e['name']: extra_value(e) for e in item['extra']}
            before = {k: np.array(v) for k, v in extras.items()}
            vcopy = gen.copy_val(val)
            js = p.to_json()
            if not want:
                rec.label('rejected')
                rec.nt()
                try:
                    paragami.save_folded(f, val, p, **extras)
                except ValueError:
                    if item['file'] in ('bare', 'ext', 'dotted', 'path'):
                        check(os.path.exists(path) == there,
                              'a rejected value was written, or its '
                              'predecessor removed')
                    continue
                finally:
                    if item['file'] == 'open':
                        f.close()
                raise Violation('an invalid value was saved')
            paragami.save_folded(f, val, p, **extras)
            if item['file'] == 'open':
                f.close()
            check(gen.exactly_equal(spec, val, vcopy),
                  'saving changed the value')
            check(p.to_json() == js, 'saving changed the pattern')
            for k, v in before.items():
                check(np.array_equal(np.asarray(extras[k]), v),
                      'saving changed extra {}', k)
            if path is not None:
                check(os.path.exists(path), 'no file {}', path)
            saved[path or i] = (item, spec, p, vcopy, before, f, path)
            rec.nt(gen.flat_len(spec, False) > 0)
            if extras:
                rec.label('extras')
            if any(r == 'bad' for r, _ in verdicts):
                rec.label('invalid but allowed')
        if len(saved) > 1:
            rec.label('several files')
        order = list(saved.values())
        if case['reverse']:
            order = order[::-1]
        for _ in range(2 if case['twice'] else 1):
            for item, spec, p, val, extras, f, path in order:
                if path is None:
                    f.seek(0)
                    src = f
                elif item['file'] == 'path':
                    src = pathlib.Path(path)
                else:
                    src = path
                got, q, data = paragami.load_folded(src)
                gen.same_structure(spec, got)
                check(gen.exactly_equal(spec, got, val),
                      'loaded another value')
                check(type(q) is type(p) and q == p and p == q,
                      'loaded another pattern')
                stale = set(EXTRA_NAMES) & set(data.keys()) - set(extras)
                check(not stale, 'extras {} were not saved', stale)
                for k, v in extras.items():
                    check(k in data, 'extra {} is missing', k)
                    w = data[k]
                    check(w.dtype == v.dtype and w.shape == v.shape and
                          np.array_equal(w, v), 'extra {} changed', k)
                if path is not None:
                    data.close()
    finally:
        shutil.rmtree(tmp)


ITEM = st.fixed_dictionaries({
    'spec': st.one_of(gen.specs(), gen.specs(), gen.specs(), gen.big_specs(['num', 'parr', 'dict'], 300)), 'fill': gen.fills(), 'boundary': st.booleans(),
    'corr': st.one_of(st.none(), st.none(), CORR),
    'file': st.sampled_from(['bare', 'ext', 'dotted', 'path', 'open',
                             'bytes', 'bare']),
    'over': st.sampled_from([True, False]), 'name': st.sampled_from([0, 1, 2]),
    'extra': st.lists(st.fixed_dictionaries(
        {'name': st.sampled_from(EXTRA_NAMES), 's': gen.small_seeds,
         'kind': st.sampled_from(['float', 'matrix', 'int', 'scalar', 'str',
                                  'bool', 'empty', 'f32'])}),
        max_size=3, unique_by=lambda e: e['name'])})

PROP = Prop(
    'C08',
    'A case saves one to three generated values (interior, boundary, or '
    'corrupted) with their generated patterns and extra arrays, to names with '
    'and without extension, paths, open files and in-memory files in a '
    'scratch directory, some of them over an earlier file, and loads them '
    'back in either order, once or twice.  '
    'Non-trivial: a non-empty value was saved, or an invalid one rejected.',
    [Sub('files', st.fixed_dictionaries(
        {'items': st.lists(ITEM, min_size=1, max_size=3),
         'reverse': st.booleans(), 'twice': st.booleans()}), run, 2800)],
    ['Extra names are those numpy.savez itself accepts, other than the two '
     'entries used for the value and the pattern.'])
