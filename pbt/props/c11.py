"""C11: flat indices identify exactly the selected entries."""
import itertools
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..core import Prop, Sub, check
from . import c04


def make_mask(spec, m):
    """A folded boolean value."""
    ls = gen.leaves(spec)
    total = gen.flat_len(spec, False)
    u = gen.uniform(m['s'], total + 1)
    how = m['how']
    if how == 'none':
        flat = np.zeros(total, dtype=bool)
    elif how == 'all':
        flat = np.ones(total, dtype=bool)
    elif how == 'one':
        flat = np.zeros(total, dtype=bool)
        if total:
            flat[m['s'] % total] = True
    elif how == 'two':
        flat = np.zeros(total, dtype=bool)
        if total:
            flat[m['s'] % total] = True
            flat[m['s'] // 7 % total] = True
    elif how == 'leaf':
        flat = np.zeros(total, dtype=bool)
        if ls:
            path, s, off, _ = ls[m['s'] % len(ls)]
            flat[off:off + gen.flat_len(s, False)] = True
    else:
        flat = u[:total] < {'sparse': 0.1, 'half': 0.5, 'dense': 0.9}[how]
    # Also masks in other memory layouts or with their keys in another order.
    mode = gen.subseed(m['s'], 3) % 8
    return flat, gen.relayout(spec, gen.ref_fold(spec, flat),
                              {'o': mode if mode < 5 else 0})


def check_index_array(ind, n, what):
    check(isinstance(ind, np.ndarray) and ind.ndim == 1,
          '{} indices are {}', what, repr(ind)[:80])
    check(ind.dtype.kind in 'iu', '{} indices have dtype {}', what, ind.dtype)
    check(len(set(ind.tolist())) == ind.size, '{} indices repeat: {}', what,
          ind)
    check(ind.size == 0 or (ind.min() >= 0 and ind.max() < n),
          '{} indices out of range {}: {}', what, n, ind)


def run(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    flat, mask = make_mask(spec, case['mask'])
    rec.label('mask:' + case['mask']['how'])
    n, nf = gen.flat_len(spec, False), gen.flat_len(spec, True)
    rec.nt(flat.any() and not flat.all())
    # Non-free: exactly the selected positions, in order.
    ind = p.flat_indices(mask, free=False)
    check_index_array(ind, n, 'non-free')
    want = np.flatnonzero(flat)
    check(np.array_equal(ind, want), 'non-free indices {} != {}', ind, want)

    # Free.
    find = p.flat_indices(mask, free=True)
    check_index_array(find, nf, 'free')
    if not flat.any():
        check(find.size == 0, 'empty mask gives {}', find)
        return
    chosen = np.zeros(nf, dtype=bool)
    chosen[find] = True
    for path, s, off, foff in gen.leaves(spec):
        m, k = gen.flat_len(s, False), gen.flat_len(s, True)
        sel = flat[off:off + m]
        got = chosen[foff:foff + k]
        if gen.is_num(s):
            check(np.array_equal(sel, got), 'free indices of numeric member '
                  '{}: {} for selection {}', path, got, sel)
        elif s['k'] == 'sim':
            c = s['size']
            sel = sel.reshape(-1, c).any(axis=1)
            want = np.repeat(sel, c - 1)
            check(np.array_equal(want, got), 'free indices of simplexes {}: '
                  '{} for selection {}', path, got, want)
        elif not sel.any():
            check(not got.any(), 'free indices of unselected matrix {}: {}',
                  path, got)
    # Dependence: moving the free entries that were not returned moves no
    # selected entry.
    free = gen.free_vector(spec, case['fill'])
    base = gen.ref_flatten(spec, p.fold(free, free=True))
    moved = free + np.where(
        chosen, 0., 0.3 + gen.uniform(case['mask']['s'] + 1, nf))
    after = gen.ref_flatten(spec, p.fold(moved, free=True))
    a, b = base[flat].astype(float), after[flat].astype(float)
    check((np.abs(a - b) <= 1e-9 * np.abs(a) + 1e-13).all(),
          'selected entries depend on free entries outside of {}', find)


def any_selected(mask):
    if isinstance(mask, dict):
        return any(any_selected(v) for v in mask.values())
    return bool(np.any(mask))


def run_wrong(case, rec):
    spec = case['spec']
    gen.spec_labels(rec, spec)
    p = gen.build(spec)
    _, mask = make_mask(spec, case['mask'])
    arrays, dicts = c04.array_nodes(spec), c04.dict_nodes(spec)
    if case['drop'] and dicts:
        path, s = dicts[case['which'] % len(dicts)]
        name = s['items'][case['pos'] % len(s['items'])][0]
        del gen.at(mask, path)[name]
        if not any_selected(mask):
            return
        what = 'missing key {!r} at {}'.format(name, path)
        rec.label('missing key')
    elif arrays:
        path, s = arrays[case['which'] % len(arrays)]
        shape = gen.shape_of(s)
        cands = c04.wrong_shapes(shape)
        if gen.is_num(s) and shape == (1,):
            cands = [c for c in cands if c != ()]
        bad = cands[case['pos'] % len(cands)]
        v = np.asarray(gen.at(mask, path))
        v = np.resize(v, bad) if v.size else np.zeros(bad, dtype=bool)
        if not v.any():
            # Selects nothing: may be answered without looking further.
            v = np.ones(bad, dtype=bool)
        if not v.any():
            return
        if path:
            gen.at(mask, path[:-1])[path[-1]] = v
        else:
            mask = v
        what = 'mask of shape {} instead of {}'.format(bad, shape)
        rec.label('wrong shape:' + s['k'])
    else:
        return
    rec.nt()
    for free in (False, True):
        c04.raises_value_error(lambda: p.flat_indices(mask, free=free), what)


MASK = st.fixed_dictionaries({
    's': gen.seeds, 'how': st.sampled_from(
        ['none', 'all', 'one', 'one', 'two', 'leaf', 'sparse', 'half', 'half',
         'dense'])})

PROP = Prop(
    'C11',
    'A case is a generated pattern, a folded boolean mask (empty, full, one '
    'or two entries, one member, random of several densities) and a free '
    'point.  Non-free indices against the reference positions; free indices '
    'exactly (numeric, simplex), by member (matrices), and by perturbing '
    'everything outside of them.  wrong: masks of the wrong shape at any '
    'member, or lacking one.  Non-trivial: the mask selects some but not '
    'all entries; every wrong mask.',
    [Sub('wrong', st.fixed_dictionaries(
        {'spec': gen.specs(), 'mask': MASK, 'drop': st.booleans(),
         'which': gen.picks(), 'pos': gen.picks()}), run_wrong, 2400),
     Sub('big', st.fixed_dictionaries(
        {'spec': gen.big_specs(), 'mask': MASK, 'fill': gen.fills()}), run, 1920),
     Sub('huge', st.fixed_dictionaries(
         {'spec': gen.huge_specs(), 'mask': MASK, 'fill': gen.fills()}),
         run, 80),
     Sub('masks', st.fixed_dictionaries(
        {'spec': gen.specs(depth_left=3), 'mask': MASK,
         'fill': gen.fills()}), run, 8000)])
