"""C21: user functions applied per column/row/window/group/bucket/reduction receive exactly the values and
indices of their unit and the results land in that unit's cell (weighted sums as a fingerprint)."""
import math
import numpy as np
import pandas as pd
from symx.harness import isnan, ite

PROPERTY = 'C21'
BOUNDS = dict(rows='up to 4', columns='up to 4', groups='all contiguous and non-contiguous-label groupings listed', order='C and F',
              values='all reals (NaN in any position for the NaN-skipping operations)', window='1..4')
ASSUMPTIONS = ['rolling/expanding functions on matrices are decided on NaN-free input (how NaNs count towards minp is not specified there)']
VALIDATE_S = dict(quick=14)


# fingerprints: distinct weight per position, plus the indices passed
def fp1(a):
    s = 0.0
    for k in range(len(a)):
        s = s + a[k] * 2.0 ** k
    return s + len(a) * 0.5


def fp2(rows):
    s = 0.0
    w = 1.0
    for r in rows:
        for x in r:
            s = s + x * w
            w = w * 2.0
    return s + w * 0.5


def fns(h):
    nj = h.njit

    @nj
    def sum1(a):
        s = 0.0
        w = 1.0
        for k in range(a.shape[0]):
            s = s + a[k] * w
            w = w * 2.0
        return s + a.shape[0] * 0.5

    @nj
    def sum2(a):
        s = 0.0
        w = 1.0
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                s = s + a[i, j] * w
                w = w * 2.0
        return s + w * 0.5
    return sum1, sum2


def fr(h, n, m, nan=False):
    a = h.floats2('x', (n, m), nan=nan)
    return a, h.df(a, columns=['c%d' % i for i in range(m)])


def ok(h, exc):
    h.check(exc is None, 'raises %s' % exc)
    return exc is None


def nd(r, rows, cols):
    """result as a 2-dim array; a single column or group may have been squeezed"""
    a = h_arr(r)
    return a.reshape(rows, cols) if a.size == rows * cols else a


def h_arr(r):
    if isinstance(r, (pd.Series, pd.DataFrame)):
        return r.to_numpy()
    out = np.empty(1, dtype=object)
    out[0] = r
    return out


def grid(h, r, f, n, m, lab):
    r = nd(r, n, m)
    h.check(r.shape == (n, m), lab + ' shape %s' % (r.shape,))
    if r.shape != (n, m):
        return
    for i in range(n):
        for j in range(m):
            h.eq(r[i, j], f(i, j), '%s cell %d,%d' % (lab, i, j))


def along_axis(h, n, m, axis, arr):
    a, df = fr(h, n, m)
    sum1, sum2 = fns(h)
    if arr:
        f = h.njit(lambda i, x: x * 2.0 + 100.0 * i)
    else:
        f = h.njit(lambda i, x: sum1(x) + 100.0 * i)
    r, exc = h.call(df.vbt.apply_along_axis, f, axis=axis)
    if not ok(h, exc):
        return
    if arr:
        grid(h, r, lambda i, j: a[i, j] * 2.0 + 100.0 * (j if axis == 0 else i), n, m, 'applied')
    elif axis == 0:
        grid(h, r, lambda i, j: fp1([a[k, j] for k in range(n)]) + 100.0 * j, n, m, 'applied')
    else:
        grid(h, r, lambda i, j: fp1([a[i, k] for k in range(m)]) + 100.0 * i, n, m, 'applied')


def rolling(h, n, m, window, minp, on_matrix, expanding=False, nan=False):
    a, df = fr(h, n, m, nan)
    sum1, sum2 = fns(h)
    if on_matrix:
        f = h.njit(lambda i, x: sum2(x) + 100.0 * i)
    elif nan:
        f = h.njit(lambda i, c, x: x.shape[0] + 100.0 * i + 1000.0 * c)
    else:
        f = h.njit(lambda i, c, x: sum1(x) + 100.0 * i + 1000.0 * c)
    if expanding:
        r, exc = h.call(df.vbt.expanding_apply, f, minp=minp, on_matrix=on_matrix)
    else:
        r, exc = h.call(df.vbt.rolling_apply, window, f, minp=minp, on_matrix=on_matrix)
    if not ok(h, exc):
        return
    w = n if expanding else window
    mp = w if minp is None else minp

    def want(i, j):
        lo = max(0, i + 1 - w)
        if on_matrix:
            return math.nan if i + 1 - lo < mp else fp2([[a[k, c] for c in range(m)] for k in range(lo, i + 1)]) + 100.0 * i
        cnt = sum(1 for k in range(lo, i + 1) if not isnan(a[k, j]))
        if cnt < mp:
            return math.nan
        if nan:
            return i + 1 - lo + 100.0 * i + 1000.0 * j
        return fp1([a[k, j] for k in range(lo, i + 1)]) + 100.0 * i + 1000.0 * j
    grid(h, r, want, n, m, 'window function')


def groupby(h, m, by, on_matrix):
    n = len(by)
    a, df = fr(h, n, m)
    sum1, sum2 = fns(h)
    if on_matrix:
        f = h.njit(lambda idxs, x: sum2(x) + 100.0 * idxs[0] + 1000.0 * idxs[-1])
    else:
        f = h.njit(lambda idxs, c, x: sum1(x) + 100.0 * idxs[0] + 1000.0 * idxs[-1] + 10000.0 * c)
    r, exc = h.call(df.vbt.groupby_apply, np.array(by), f, on_matrix=on_matrix)
    if not ok(h, exc):
        return
    keys = sorted(set(by))
    h.eq(sorted(r.index.tolist()), keys, 'groups')
    for k in keys:
        ix = [i for i in range(n) if by[i] == k]
        for j in range(m):
            if on_matrix:
                w = fp2([[a[i, c] for c in range(m)] for i in ix])
            else:
                w = fp1([a[i, j] for i in ix]) + 10000.0 * j
            h.eq(r.loc[k].iloc[j], w + 100.0 * ix[0] + 1000.0 * ix[-1], 'group %s col %d' % (k, j))


def resample(h, m, days, freq, on_matrix):
    n = len(days)
    a = h.floats2('x', (n, m))
    ix = pd.DatetimeIndex([pd.Timestamp('2020-01-01') + pd.Timedelta(days=d) for d in days])
    df = h.df(a, index=ix)
    sum1, sum2 = fns(h)
    if on_matrix:
        f = h.njit(lambda idxs, x: sum2(x) + 100.0 * idxs[0])
    else:
        f = h.njit(lambda idxs, c, x: sum1(x) + 100.0 * idxs[0] + 10000.0 * c)
    r, exc = h.call(df.vbt.resample_apply, '%dD' % freq, f, on_matrix=on_matrix)
    if not ok(h, exc):
        return
    nb = (days[-1] - days[0]) // freq + 1
    h.eq(len(r), nb, 'number of buckets')
    for b in range(nb):
        ids = [i for i in range(n) if (days[i] - days[0]) // freq == b]
        for j in range(m):
            if not ids:
                w = math.nan
            elif on_matrix:
                w = fp2([[a[i, c] for c in range(m)] for i in ids]) + 100.0 * ids[0]
            else:
                w = fp1([a[i, j] for i in ids]) + 100.0 * ids[0] + 10000.0 * j
            h.eq(r.iloc[b, j], w, 'bucket %d col %d' % (b, j))
        h.check(r.index[b] == ix[0] + pd.Timedelta(days=b * freq), 'label of bucket %d' % b)


def elem(h, n, m, what):
    a, df = fr(h, n, m, True)
    if what == 'map':
        r, exc = h.call(df.vbt.applymap, h.njit(lambda i, c, x: x * 2.0 + 100.0 * i + 1000.0 * c))
        f = lambda i, j: a[i, j] * 2.0 + 100.0 * i + 1000.0 * j
    else:
        r, exc = h.call(df.vbt.filter, h.njit(lambda i, c, x: x > i + 10.0 * c))
        f = lambda i, j: ite(a[i, j] > i + 10.0 * j, a[i, j], math.nan)
    if ok(h, exc):
        grid(h, r, f, n, m, what)


def apply_reduce(h, n, m, args):
    a, df = fr(h, n, m)
    sum1, sum2 = fns(h)
    f = h.njit(lambda c, x, y: x + y * c)
    g = h.njit(lambda c, x, z: sum1(x) + z * c)
    r, exc = h.call(df.vbt.apply_and_reduce, f, g, (3.0,), (7.0,))
    if ok(h, exc):
        h.eq(list(r.to_numpy()), [fp1([a[i, j] + 3.0 * j for i in range(n)]) + 7.0 * j for j in range(m)], 'apply and reduce')


def groups_of(gb):
    """group key -> column numbers, groups in order of first appearance"""
    keys = list(dict.fromkeys(gb))
    return [(k, [j for j, x in enumerate(gb) if x == k]) for k in keys]


def reduce(h, n, m, arr, gb=None, flatten=False, order='C'):
    a, df = fr(h, n, m)
    sum1, sum2 = fns(h)
    base = (lambda g, x: sum2(x) + 1000.0 * g) if gb is not None and not flatten else (lambda g, x: sum1(x) + 1000.0 * g)
    if arr:
        if gb is not None and not flatten:
            @h.njit
            def f(g, x):
                out = np.empty(2)
                out[0] = sum2(x) + 1000.0 * g
                out[1] = x[0, 0]
                return out
        else:
            @h.njit
            def f(g, x):
                out = np.empty(2)
                out[0] = sum1(x) + 1000.0 * g
                out[1] = x[0]
                return out
        if h.sym:
            f0 = f
            emp = h.vbt._symx_np.empty

            def f(g, x):
                out = emp(2)
                out[0] = (sum2(x) if gb is not None and not flatten else sum1(x)) + 1000.0 * g
                out[1] = x[0, 0] if gb is not None and not flatten else x[0]
                return out
    else:
        f = h.njit(base)
    r, exc = h.call(df.vbt.reduce, f, returns_array=arr, flatten=flatten, order=order,
                    group_by=None if gb is None else np.array(gb))
    if not ok(h, exc):
        return
    R = nd(r, 2 if arr else 1, m if gb is None else len(groups_of(gb)))
    units = [(j, [j]) for j in range(m)] if gb is None else groups_of(gb)
    for g, (k, cols) in enumerate(units):
        if gb is None:
            w = fp1([a[i, g] for i in range(n)])
        elif not flatten:
            w = fp2([[a[i, c] for c in cols] for i in range(n)])
        elif order == 'C':
            w = fp1([a[i, c] for i in range(n) for c in cols])
        else:
            w = fp1([a[i, c] for c in cols for i in range(n)])
        if arr:
            h.eq(R[0, g], w + 1000.0 * g, 'reduced %d' % g)
            h.eq(R[1, g], a[0, cols[0]], 'reduced second row %d' % g)
        else:
            h.eq(R[0, g], w + 1000.0 * g, 'reduced %d' % g)
        if gb is not None and len(units) > 1:
            h.check((r.columns if arr else r.index)[g] == k, 'group label %d' % g)


def grouped_stat(h, n, gb, name, order='C'):
    """built-in reductions over column groups use every value of the group once"""
    from checks.c16 import spec_red
    m = len(gb)
    a, df = fr(h, n, m, name not in ('idxmin', 'idxmax'))
    kw = dict(order=order) if name.startswith('idx') else {}
    r, exc = h.call(getattr(df.vbt, name), group_by=np.array(gb), **kw)
    if not ok(h, exc):
        return
    for g, (k, cols) in enumerate(groups_of(gb)):
        if name.startswith('idx'):
            seq = [(i, a[i, c]) for i in range(n) for c in cols] if order == 'C' else [(i, a[i, c]) for c in cols for i in range(n)]
            best = seq[0]
            for s in seq[1:]:
                if (s[1] < best[1]) if name == 'idxmin' else (s[1] > best[1]):
                    best = s
            h.eq(r.iloc[g], best[0], name)
        elif name == 'describe':
            v = [a[i, c] for i in range(n) for c in cols]
            col = r.to_numpy()[:, g]
            for q, nm in enumerate(('count', 'mean', 'std', 'min')):
                spec_red(h, nm, v, col[q], nm, 1)
            spec_red(h, 'max', v, col[-1], 'max')
        else:
            spec_red(h, name, [a[i, c] for i in range(n) for c in cols], r.iloc[g], name + ' of group %s' % k, 1)


def squeeze(h, n, gb):
    m = len(gb)
    a, df = fr(h, n, m)
    sum1, sum2 = fns(h)
    f = h.njit(lambda i, g, x: sum1(x) + 100.0 * i + 1000.0 * g)
    r, exc = h.call(df.vbt.squeeze_grouped, f, group_by=np.array(gb))
    if not ok(h, exc):
        return
    gs = groups_of(gb)
    grid(h, r, lambda i, g: fp1([a[i, c] for c in gs[g][1]]) + 100.0 * i + 1000.0 * g, n, len(gs), 'squeezed')


def flat(h, n, gb, order):
    m = len(gb)
    a = h.floats2('x', (n, m))
    df = h.df(a, index=[10 + i for i in range(n)])
    r, exc = h.call(df.vbt.flatten_grouped, group_by=np.array(gb), order=order)
    if not ok(h, exc):
        return
    gs = groups_of(gb)
    L = max(len(c) for _, c in gs)

    def want(q, g):
        i, c = (q // L, q % L) if order == 'C' else (q % n, q // n)
        return a[i, gs[g][1][c]] if c < len(gs[g][1]) else math.nan
    grid(h, r, want, n * L, len(gs), 'flattened')
    h.eq([int(x) for x in r.index], [10 + (q // L if order == 'C' else q % n) for q in range(n * L)], 'row labels')


def counts(h, n, m, gb, normalize, dropna, sort):
    a = h.ints('x', (n, m), 0, 2)
    v = a.astype(float)
    v[v == 2] = math.nan
    df = pd.DataFrame(v)
    r, exc = h.call(df.vbt.value_counts, normalize=normalize, dropna=dropna, sort=sort, group_by=None if gb is None else np.array(gb))
    if not ok(h, exc):
        return
    gs = [(j, [j]) for j in range(m)] if gb is None else groups_of(gb)
    vals = [x for x in (0.0, 1.0) if (v == x).any()] + ([math.nan] if np.isnan(v).any() and not dropna else [])
    tot = sum(1 for x in v.reshape(-1) if not (dropna and x != x))
    h.eq(len(r), len(vals), 'number of distinct values')
    lab = [float(x) for x in r.index]
    for x in vals:
        k = [q for q, y in enumerate(lab) if y == x or (y != y and x != x)]
        h.check(len(k) == 1, 'value %s listed once' % x)
        for g, (_, cols) in enumerate(gs):
            cnt = sum(1 for i in range(n) for c in cols if v[i, c] == x or (v[i, c] != v[i, c] and x != x))
            h.eq(float(r.to_numpy().reshape(len(r), -1)[k[0], g]), cnt / tot if normalize else cnt, 'count of %s in %d' % (x, g))
    if sort:
        s = r.to_numpy().reshape(len(r), -1).sum(axis=1)
        h.check(all(s[i] >= s[i + 1] for i in range(len(s) - 1)), 'sorted by frequency')
    else:
        srt = [x for x in lab if x == x]
        h.check(srt == sorted(srt), 'sorted by value')


def mapped(h, n, m, dropna):
    a, df = fr(h, n, m, True)
    r, exc = h.call(df.vbt.to_mapped, dropna=dropna)
    if not ok(h, exc):
        return
    want = [(a[i, j], j, i) for j in range(m) for i in range(n) if not dropna or not isnan(a[i, j])]
    h.eq(list(r.values), [w[0] for w in want], 'mapped values')
    h.eq([int(x) for x in r.col_arr], [w[1] for w in want], 'mapped columns')
    h.eq([int(x) for x in r.idx_arr], [w[2] for w in want], 'mapped rows')


def tasks(tier):
    q = tier == 'quick'
    out = []
    t = lambda fn, **c: out.append(dict(fn=fn, cfg=c))
    for axis in (0, 1):
        for arr in (False, True):
            t('along_axis', n=2, m=3, axis=axis, arr=arr)
    t('along_axis', n=4, m=1, axis=0, arr=False)
    for om in (False, True):
        for w in (1, 2, 3, 4):
            for minp in (None, 1):
                t('rolling', n=4, m=2, window=w, minp=minp, on_matrix=om)
        t('rolling', n=3, m=2, window=0, minp=1, on_matrix=om, expanding=True)
        t('rolling', n=3, m=2, window=0, minp=None, on_matrix=om, expanding=True)
        for by in ((0, 0, 1, 1), (1, 0, 1, 0), (2, 2, 0, 1), (0, 0, 0, 0)):
            t('groupby', m=2, by=by, on_matrix=om)
        for days in ((0, 1, 2, 3), (0, 1, 5), (0, 3, 4)):
            t('resample', m=2, days=days, freq=2, on_matrix=om)
    for w in (1, 2, 3):
        t('rolling', n=3 if q else 4, m=2, window=w, minp=1, on_matrix=False, nan=True)
        t('rolling', n=4, m=1, window=w, minp=None, on_matrix=False, nan=True)
    t('rolling', n=3, m=2, window=0, minp=2, on_matrix=False, nan=True, expanding=True)
    for what in ('map', 'filter'):
        t('elem', n=3, m=2, what=what)
        t('elem', n=2, m=3, what=what)
    t('apply_reduce', n=3, m=3, args=1)
    GB = [(0, 0, 1), (0, 1, 1), (0, 0, 0), (0, 1, 2), (1, 1, 0), (0, 0, 1, 1)]
    for arr in (False, True):
        t('reduce', n=3, m=3, arr=arr)
        for gb in GB:
            t('reduce', n=2, m=len(gb), arr=arr, gb=gb)
            for order in ('C', 'F'):
                t('reduce', n=2, m=len(gb), arr=arr, gb=gb, flatten=True, order=order)
    for gb in GB:
        t('squeeze', n=2, gb=gb)
        for order in ('C', 'F'):
            t('flat', n=3, gb=gb, order=order)
    for name in ('min', 'max', 'mean', 'median', 'std', 'sum', 'count'):
        t('grouped_stat', n=2, gb=(0, 0, 1), name=name)
    t('grouped_stat', n=2, gb=(0, 1, 1), name='describe')
    for name in ('idxmin', 'idxmax'):
        for order in ('C', 'F'):
            t('grouped_stat', n=2, gb=(0, 0, 1), name=name, order=order)
            t('grouped_stat', n=3, gb=(0, 1, 1), name=name, order=order)
    for gb in (None, (0, 0), (0, 1)):
        for norm in (False, True):
            for dn in (False, True):
                t('counts', n=2, m=2, gb=gb, normalize=norm, dropna=dn, sort=False)
        t('counts', n=2, m=2, gb=gb, normalize=False, dropna=False, sort=True)
    t('counts', n=2, m=3, gb=(0, 0, 1), normalize=False, dropna=False, sort=False)
    for dn in (False, True):
        t('mapped', n=3, m=2, dropna=dn)
    return out
