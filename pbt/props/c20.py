"""C20: grouped sums and element replacement compute and differentiate
exactly."""
import numpy as np
from hypothesis import strategies as st
from .. import ad, gen
from ..core import Prop, Sub, check, Violation


def reject(f, what):
    try:
        r = f()
    except ValueError:
        return
    raise Violation('{} was accepted (returned {})'.format(what, r))


def make_x(case, n):
    shape = (n,) + tuple(case['tail'])
    u = gen.uniform(case['s'], gen.size(shape)).reshape(shape)
    if case['values'] == 'int':
        return np.floor(200 * u - 100).astype(int)
    if case['values'] == 'float32':
        # Sums of these do not fit in single precision.
        return np.floor(2.0 ** 25 * (u - 0.3)).astype(np.float32)
    if case['values'] in ('int8', 'uint8', 'int16', 'int32'):
        info = np.iinfo(case['values'])
        return np.floor(
            info.min + u * (info.max - info.min)).astype(case['values'])
    if case['values'] == 'exact':
        return np.floor(2000 * u - 1000) / 8
    if case['values'] == 'graded':
        w = gen.uniform(gen.subseed(case['s'], 21), gen.size(shape))
        return (2 * u - 1) * 10.0 ** (560 * w.reshape(shape) - 280)
    if case['values'] == 'special':
        # Missing data stay where they are.
        w = gen.ints(gen.subseed(case['s'], 22), gen.size(shape), 0, 12)
        x = np.floor(2000 * u - 1000) / 8
        for i, z in enumerate((np.nan, np.inf, -np.inf)):
            x[w.reshape(shape) == i] = z
        return x
    return (2 * u - 1) * 10.0 ** case['e']


def group_argument(groups, form):
    if form == 'list':
        return [int(g) for g in groups]
    if form == 'tuple':
        return tuple(int(g) for g in groups)
    if form == 'int32':
        return np.array(groups, dtype=np.int32)
    if form == 'uint8' and max(groups, default=0) < 256:
        return np.array(groups, dtype=np.uint8)
    if form == 'float':
        return np.array(groups, dtype=float)
    if form == 'strided':
        return np.array([g for g in groups for _ in range(2)])[::2]
    return np.array(groups, dtype=int)


def call(fun, x, g, num, how):
    if num is None:
        return fun(x, g) if how % 2 else fun(x, g, num_groups=None)
    return fun(x, g, num) if how % 2 else fun(x, g, num_groups=num)


def run_grouped(case, rec):
    import paragami
    from paragami.autograd_supplement_lib import grouped_sum
    groups = case['groups']
    n = len(groups)
    x = make_x(case, n)
    rows = max(groups, default=-1) + 1
    num = None if case['extra'] is None else rows + case['extra']
    rows = rows if num is None else num
    rec.label('dims:%d' % x.ndim, 'values:' + case['values'],
              'groups:' + case['form'],
              'declared' if num is not None else 'undeclared',
              'no rows' if n == 0 else 'rows')
    if case['extra']:
        rec.label('more groups declared')
    present = set(groups)
    if len(present) < rows:
        rec.label('missing groups')
    if any(a > b for a, b in zip(groups, groups[1:])):
        rec.label('unsorted')
    if len(present) < n:
        rec.label('repeated')
    if any(a == b for a, b in zip(groups, groups[1:])) and \
            any(groups[i] == groups[j] and any(
                groups[k] != groups[i] for k in range(i, j))
                for i in range(n) for j in range(i + 1, n)):
        rec.label('interleaved')
    rec.nt(len(present) > 1 and n > len(present) or x.ndim > 1)
    g = group_argument(groups, case['form'])
    arg = x
    if case['aslist'] and n:
        arg = x.tolist()
    elif case['order'] == 'F':
        arg = np.asfortranarray(x)
    elif case['order'] == 'strided':
        arg = np.repeat(x, 2, axis=0)[::2]
    before = np.array(arg, copy=True)
    gbefore = np.array(g, copy=True)
    out = call(grouped_sum, arg, g, num, case['how'])
    check(np.array_equal(np.asarray(arg), before, equal_nan=True),
          'x was modified')
    check(np.array_equal(np.asarray(g), gbefore), 'groups were modified')
    x = x.astype(float)
    want = np.zeros((rows,) + x.shape[1:])
    size = np.zeros(want.shape)
    for i in range(n):
        want[groups[i]] = want[groups[i]] + x[i]
        size[groups[i]] = size[groups[i]] + np.abs(x[i])
    check(isinstance(out, np.ndarray) and out.shape == want.shape,
          'shape {} instead of {}', np.shape(out), want.shape)
    if case['values'] in ('float', 'graded'):
        ok = np.abs(out - want) <= 1e-14 * n * size
    else:
        ok = (out == want) | (np.isnan(out) & np.isnan(want))
    check(np.all(ok), 'sums {} instead of {}', out, want)
    check(not np.shares_memory(out, before), 'shared memory')
    if case['derivatives'] and x.size <= 40:
        rec.label('derivatives')
        import autograd.numpy as np_
        ind = np.zeros((rows, n))
        ind[np.array(groups, dtype=int), np.arange(n)] = 1.
        xf = ad.rnd(case['s'], 11, x.shape)
        a = ad.rnd(case['s'], 12, x.shape) + 1.3

        def f(z):
            return call(grouped_sum, z * a + 0.3 * z ** 2, g, num,
                        case['how'])

        def ref(z):
            y = z * a + 0.3 * z ** 2
            return np_.reshape(
                np_.dot(ind, np_.reshape(y, (n, gen.size(x.shape[1:])))),
                want.shape)
        ad.same_derivatives(f, ref, xf, case['s'], 'grouped sum',
                            third=case['third'])
        # Linear in x: the derivative is exact.
        from autograd.differential_operators import make_jvp, make_vjp
        v = np.floor(8 * ad.rnd(case['s'], 13, x.shape))
        lin = make_jvp(lambda z: call(grouped_sum, z, g, num, case['how']))(
            xf)(v)[1]
        wantl = np.zeros(want.shape)
        for i in range(n):
            wantl[groups[i]] = wantl[groups[i]] + v[i]
        check(np.array_equal(lin, wantl), 'directional derivative')
        c = np.floor(8 * ad.rnd(case['s'], 14, want.shape))
        vjp = make_vjp(lambda z: call(grouped_sum, z, g, num, case['how']))(
            xf)[0](c)
        check(np.array_equal(vjp, c[np.array(groups, dtype=int)]),
              'reverse derivative {} instead of {}', vjp,
              c[np.array(groups, dtype=int)])


def run_bad(case, rec):
    from paragami.autograd_supplement_lib import grouped_sum
    groups = case['groups']
    n = len(groups)
    x = make_x(case, n)
    g = group_argument(groups, case['form'])
    kind, pick, how = case['bad'], case['pick'], case['how']
    rec.nt()
    rec.label(kind)
    num = None if case['extra'] is None else max(groups) + 1 + case['extra']
    if kind == 'long x':
        x = np.concatenate([x] + [x[:1]] * (1 + pick % 3))
    elif kind == 'short x':
        if n == 1:
            return
        x = x[:1 + pick % (n - 1)]
    elif kind == '2d groups':
        g = np.array(groups)
        g = [g[:, None], g[None, :], g[:, None, None],
             np.stack([g, g], axis=1)][pick % 4]
    else:
        m = max(groups)
        num = [m, 0, m // 2, max(0, m - 1)][pick % 4]
        if kind == 'num_groups at the edge':
            num = m
    reject(lambda: call(grouped_sum, x, g, num, how), kind)


def run_replace(case, rec):
    from paragami.autograd_supplement_lib import replace
    n = case['n']
    k = min(case['k'], n)
    inds = np.argsort(gen.uniform(gen.subseed(case['s'], 1), n))[:k]
    if case['sorted']:
        inds = np.sort(inds)
    x = make_x(dict(case, tail=[]), n)
    xs = make_x(dict(case, tail=[], s=case['s'] + 1, values=case['values2']),
                k)
    rec.label('n:%d' % min(n, 10), 'k:%d' % min(k, 10), case['values'],
              'sub ' + case['values2'],
              'all' if k == n else 'none' if k == 0 else 'some')
    if list(inds) != sorted(inds):
        rec.label('unsorted')
    rec.nt(0 < k < n)
    form = case['form']
    if form == 'mask':
        inds = np.sort(inds)
    given = np.array(inds)
    if case['negative']:
        # Some or all are counted from the end.
        which = gen.uniform(gen.subseed(case['s'], 2), k) < (
            2 if case['negative'] == 2 else 0.5)
        given = np.where(which, given - n, given)
        if which.any() and form != 'mask':
            rec.label('negative')
    ind = [int(i) for i in given] if form == 'list' else \
        given.astype(np.int32) if form == 'int32' else np.array(given)
    if form == 'mask':
        rec.label('mask')
        ind = np.zeros(n, dtype=bool)
        ind[inds] = True
    args = (np.array(xs), np.array(x))
    before = [np.array(a) for a in args]
    ib = list(ind)
    out = replace(args[0], args[1], ind)
    check(np.array_equal(args[0], before[0], equal_nan=True) and
          np.array_equal(args[1], before[1], equal_nan=True) and
          list(ind) == ib,
          'an argument was modified')
    want = [float(a) for a in x]
    for i, j in enumerate(inds):
        want[j] = float(xs[i])
    check(isinstance(out, np.ndarray) and out.shape == (n,), 'shape {}',
          np.shape(out))
    same = np.array_equal(out, np.array(want), equal_nan=True)
    if case['values'] == 'float32' and not same:
        # The precision of the vector is enough.
        same = np.array_equal(np.asarray(out, dtype=np.float32),
                              np.array(want, dtype=np.float32),
                              equal_nan=True)
    check(same, '{} instead of {}', out, want)
    check(not np.shares_memory(out, args[1]) and
          not np.shares_memory(out, args[0]), 'shared memory')
    if not case['derivatives'] or n == 0:
        return
    rec.label('derivatives')
    import autograd.numpy as np_
    # Constant matrices put the elements in place.
    put = np.zeros((n, k))
    put[inds, np.arange(k)] = 1.
    keep = np.ones(n)
    keep[inds] = 0.
    xf, sf = ad.rnd(case['s'], 3, (n,)), ad.rnd(case['s'], 4, (k,))
    s = case['s']

    def ref(a, b):
        return np_.dot(put, a) + keep * b
    if k:
        ad.same_derivatives(
            lambda z: replace(z ** 2 + z, xf, ind),
            lambda z: ref(z ** 2 + z, xf), sf, s,
            'replacement, new elements', third=case['third'])
    ad.same_derivatives(
        lambda z: replace(sf, z ** 2 + z, ind),
        lambda z: ref(sf, z ** 2 + z), xf, s, 'replacement, vector',
        third=case['third'])
    # Both arguments, depending on each other.
    both = np.concatenate([sf, xf])
    ad.same_derivatives(
        lambda z: replace(z[:k] * np_.sum(z[k:]), z[k:] ** 2, ind),
        lambda z: ref(z[:k] * np_.sum(z[k:]), z[k:] ** 2), both, s,
        'replacement, both', third=case['third'])


GROUPS = st.one_of(
    st.lists(st.integers(0, 5), min_size=1, max_size=9),
    st.lists(st.integers(0, 2), min_size=1, max_size=12),
    st.lists(st.integers(0, 30), min_size=1, max_size=6))
MANY = st.builds(
    lambda s, n, m: gen.ints(s, n, 0, m).tolist(), gen.seeds,
    st.sampled_from([60, 129, 257, 300]),
    st.sampled_from([3, 20, 127, 128, 130, 255, 256, 300, 70000]))
TYPES = st.sampled_from(['float', 'float', 'exact', 'exact', 'int', 'int32',
                         'int16', 'int8', 'uint8', 'float32', 'graded'])
# Sums leave it open whether missing data spread to other groups' rows (they
# do in a product with an indicator matrix); copied elements do not.
COPIED = st.one_of([TYPES] * 9 + [st.just('special')])
BASE = {'s': gen.seeds, 'values': TYPES,
        'e': st.sampled_from([0, 0, 1, -2, 5]),
        'tail': st.sampled_from([[], [], [1], [2], [3], [2, 2], [1, 3],
                                 [2, 1, 2], [0]])}
GS = dict(BASE, groups=GROUPS,
          extra=st.sampled_from([None, None, 0, 0, 1, 4]),
          form=st.sampled_from(['array', 'list', 'tuple', 'int32', 'uint8',
                                'float', 'strided']),
          how=st.integers(0, 1))

PROP = Prop(
    'C20',
    'grouped: generated arrays (1 to 4 dimensions), assignments of rows to '
    'groups and forms of the arguments, against a loop over rows; first to '
    'third derivatives in every mix of modes against the same function '
    'through a dense indicator matrix.  replace: the same with a selection '
    'matrix.  bad: invalid shapes and group numbers.  Non-trivial: several '
    'groups with repetitions or several dimensions; some but not all '
    'elements replaced.',
    [Sub('grouped', st.fixed_dictionaries(dict(
        GS, groups=st.one_of([GROUPS] * 19 + [st.just([])]),
        aslist=st.sampled_from([False, False, True]),
        order=st.sampled_from(['C', 'F', 'strided']),
        derivatives=st.booleans(), third=st.booleans())),
        run_grouped, 3000),
     Sub('grouped_many', st.fixed_dictionaries(dict(
         GS, groups=MANY, tail=st.sampled_from([[], [], [2], [1, 2]]),
         aslist=st.booleans(), order=st.sampled_from(['C', 'F', 'strided']),
         derivatives=st.just(False), third=st.just(False))),
         run_grouped, 1600),
     Sub('replace_many', st.fixed_dictionaries(dict(
         BASE, values=COPIED, values2=COPIED,
         n=st.sampled_from([40, 129, 257, 300, 600]),
         k=st.sampled_from([1, 3, 30, 130, 260]),
         sorted=st.booleans(), derivatives=st.just(False),
         negative=st.sampled_from([0, 0, 1, 2]),
         form=st.sampled_from(['array', 'list', 'int32', 'mask']),
         third=st.just(False))), run_replace, 1600),
     Sub('replace', st.fixed_dictionaries(dict(
         BASE, values=COPIED, values2=COPIED,
         n=st.sampled_from([1, 2, 3, 4, 5, 7, 12]), k=st.integers(0, 8),
         sorted=st.booleans(), derivatives=st.booleans(),
         negative=st.sampled_from([0, 0, 1, 2]),
         form=st.sampled_from(['array', 'list', 'int32', 'mask']),
         third=st.booleans())), run_replace, 1600),
     Sub('bad', st.fixed_dictionaries(dict(
         GS, bad=st.sampled_from(['long x', 'short x', '2d groups',
                                  'too few groups',
                                  'num_groups at the edge']),
         pick=gen.picks())), run_bad, 2000)],
    ['Group indices are not negative; replaced indices are '
     'distinct.'])
