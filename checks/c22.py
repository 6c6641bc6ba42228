"""C22: records and mapped arrays: selection, sorting, masking, expansion and reduction against lists of records."""
import math
import numpy as np
import pandas as pd
from symx.harness import isnan, sqrt, or_, and_

PROPERTY = 'C22'
BOUNDS = dict(records='up to 4', columns='1 to 3, every assignment of records to columns (sorted or not, empty columns included)',
              rows='3', ids='arbitrary in 0..2 (thorough 0..3)', values='all reals and NaN',
              selections='single columns, permutations, duplicates, slices, groups; n of top/bottom-n from 0 to len+1')
ASSUMPTIONS = ['ties of top-n keep the last ones, ties of bottom-n the first ones (documented order of the sort they replace)',
               'describe is required on rows without positional conflicts or without row indices as well']
VALIDATE_S = dict(quick=20, thorough=60)

DT = [('id', np.int64), ('col', np.int64), ('idx', np.int64), ('val', np.float64)]
COLS = ['a', 'b', 'c']


def mk(h, n, ncol, sort=None, ids='sym', idxs=0, nan=True, group_by=None, rows=3, cols=None, valk=None):
    """-> (Records, list of (id, col, idx, val)); symbolic columns (and ids / rows)"""
    npx = h.vbt._symx_np if h.sym else np
    r = npx.empty(n, dtype=np.dtype(DT))
    spec = []
    for k in range(n):
        c = cols[k] if cols is not None else h.int('c%d' % k, 0, ncol - 1)
        if sort and spec:
            h.assume(c >= spec[-1][1])
        i = h.int('id%d' % k, 0, 2) if ids == 'sym' else k
        x = h.int('ix%d' % k, 0, rows - 1) if idxs == 'sym' else (k % rows if idxs == 0 else k % 2)
        v = h.real('v%d' % k, nan=nan) if valk is None else valk[k]
        r['id'][k] = i
        r['col'][k] = c
        r['idx'][k] = x
        r['val'][k] = v
        spec.append((i, c, x, v))
    w = h.vbt.ArrayWrapper(pd.Index(['r%d' % i for i in range(rows)]), pd.Index(COLS[:ncol]), 2 if ncol > 1 else 1, freq='D',
                           **({} if group_by is None else dict(group_by=np.array(group_by))))
    return h.vbt.Records(w, r), spec


def same(h, got, want, label):
    h.eq([list(got.values['id']), list(got.values['col']), list(got.values['idx'])],
         [[s[k] for s in want] for k in (0, 1, 2)], label + ': id, column, row')
    h.eq(list(got.values['val']), [s[3] for s in want], label + ': values')


def same_m(h, m, want, label):
    h.eq(list(m.id_arr), [s[0] for s in want], label + ': mapped ids')
    h.eq(list(m.col_arr), [s[1] for s in want], label + ': mapped columns')
    h.eq(list(m.idx_arr), [s[2] for s in want], label + ': mapped rows')
    h.eq(list(m.values), [s[3] for s in want], label + ': mapped values')


SEL = {'one': ('iloc', 1, [1]), 'perm': ('iloc', [2, 0, 1], [2, 0, 1]), 'dup': ('iloc', [0, 2, 2, 0], [0, 2, 2, 0]),
       'slice': ('iloc', slice(1, 3), [1, 2]), 'name': ('item', 'c', [2]), 'names': ('item', ['c', 'a'], [2, 0]),
       'loc': ('loc', ['b', 'c', 'b'], [1, 2, 1]), 'mask': ('iloc', [True, False, True], [0, 2])}


def pick(o, kind, key):
    return o[key] if kind == 'item' else getattr(o, kind)[key]


def select(h, n, ncol, sel, sort=None):
    r, spec = mk(h, n, ncol, sort=sort, ids='k')
    kind, key, cols = SEL[sel]
    want = [(s[0], j, s[2], s[3]) for j, c in enumerate(cols) for s in spec if s[1] == c]
    got, exc = h.call(pick, r, kind, key)
    h.check(exc is None, 'records selection raises %s' % exc)
    if not exc:
        same(h, got, want, 'selected records')
        h.eq(list(got.wrapper.columns), [COLS[c] for c in cols], 'selected columns')
        h.eq(np.asarray(got.count()).reshape(-1).tolist(), [len([s for s in want if s[1] == j]) for j in range(len(cols))], 'count of the selection')
    m, exc = h.call(pick, r.map_field('val'), kind, key)
    h.check(exc is None, 'mapped selection raises %s' % exc)
    if not exc:
        same_m(h, m, want, 'selected mapped array')


def grouped(h, n, group_by, g):
    """selecting a group keeps the records of its columns"""
    r, spec = mk(h, n, 3, ids='k', group_by=group_by)
    cols = [c for c in range(3) if group_by[c] == g]
    want = [(s[0], j, s[2], s[3]) for j, c in enumerate(cols) for s in spec if s[1] == c]
    got, exc = h.call(lambda: r[g])
    h.check(exc is None, 'group selection raises %s' % exc)
    if not exc:
        same(h, got, want, 'records of a group')
    gs = sorted(set(group_by))
    cnt = [len([s for s in spec if group_by[s[1]] == k]) for k in gs]
    h.eq(np.asarray(r.count()).tolist(), cnt, 'count per group')
    h.eq(np.asarray(r.count(group_by=False)).tolist(), [len([s for s in spec if s[1] == c]) for c in range(3)], 'count per column')
    m = r.map_field('val')
    h.eq(np.asarray(m.count()).tolist(), cnt, 'mapped count per group')
    for kk, gk in enumerate(gs):
        pass
    tot = np.asarray(m.sum()).reshape(-1)
    for k, gk in enumerate(gs):
        h.eq(tot[k], nansum([s[3] for s in spec if group_by[s[1]] == gk]), 'sum per group')


def nansum(xs):
    t = 0.0
    for x in xs:
        if not isnan(x):
            t = t + x
    return t


def sorting(h, n, ncol, incl_id):
    r, spec = mk(h, n, ncol)
    want = sorted(spec, key=(lambda s: (s[1], s[0])) if incl_id else (lambda s: s[1]))
    h.eq(bool(r.is_sorted(incl_id=incl_id)), [(s[1], s[0] if incl_id else 0) for s in spec]
         == sorted([(s[1], s[0] if incl_id else 0) for s in spec]), 'records is_sorted')
    same(h, r.sort(incl_id=incl_id), want, 'sorted records')
    m = r.map_field('val')
    h.eq(bool(m.is_sorted(incl_id=incl_id)), bool(r.is_sorted(incl_id=incl_id)), 'mapped is_sorted')
    same_m(h, m.sort(incl_id=incl_id), want, 'sorted mapped array')


def masks(h, n, ncol):
    r, spec = mk(h, n, ncol, ids='k')
    b = h.bools('m', (n,))
    want = [s for k, s in enumerate(spec) if b[k]]
    same(h, r.apply_mask(b), want, 'masked records')
    same_m(h, r.map_field('val').apply_mask(b), want, 'masked mapped array')


def topn(h, n, ncol, top, group_by=None, nan=True, cols=None):
    r, spec = mk(h, n, ncol, ids='k', group_by=group_by, nan=nan, cols=cols)
    m = r.map_field('val')
    k = h.int('n', 0, n + 1)
    f = m.top_n_mask if top else m.bottom_n_mask
    mask, exc = h.call(f, k)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    mask = [bool(x) for x in mask]
    key = (lambda s: group_by[s[1]]) if group_by else (lambda s: s[1])
    for g in sorted({key(s) for s in spec}):
        ix = [i for i, s in enumerate(spec) if key(s) == g]
        h.eq(sum(mask[i] for i in ix), min(k, len(ix)), 'number kept per column/group')
        for i in ix:
            for j in ix:
                if mask[i] and not mask[j]:
                    x, y = spec[i][3], spec[j][3]
                    if isnan(x):
                        h.check(isnan(y), 'a missing value is kept only if no number is dropped')
                    elif not isnan(y):
                        h.check(x >= y if top else x <= y, 'a kept value is never beaten by a dropped one')
    got = m.top_n(k) if top else m.bottom_n(k)
    same_m(h, got, [s for i, s in enumerate(spec) if mask[i]], 'kept elements')


def expand(h, n, ncol, ignore, fill, group_by=None):
    r, spec = mk(h, n, ncol, ids='k', idxs='sym' if not ignore else 0, group_by=group_by, rows=2)
    m = r.map_field('val')
    ng = len(set(group_by)) if group_by else ncol
    key = (lambda s: group_by[s[1]]) if group_by else (lambda s: s[1])
    kw = {} if fill is None else dict(fill_value=fill)
    fv = math.nan if fill is None else fill
    out, exc = h.call(m.to_pd, ignore_index=ignore, **kw)
    if ignore:
        h.check(exc is None, 'raises %s' % exc)
        if exc:
            return
        per = [[s[3] for s in spec if key(s) == g] for g in range(ng)]
        top = max(len(p) for p in per)
        a = out.to_numpy().reshape(-1, ng)
        h.eq(a.shape, (top, ng), 'stacked shape')
        if a.shape == (top, ng):
            for g in range(ng):
                h.eq(list(a[:, g]), per[g] + [fv] * (top - len(per[g])), 'stacked values')
        return
    cells = [(s[2], key(s)) for s in spec]
    if len(set(cells)) < len(cells):
        h.eq(exc, 'ValueError', 'conflicting positions are refused')
        return
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    a = out.to_numpy().reshape(-1, ng)
    for i in range(2):
        for g in range(ng):
            w = [s[3] for s in spec if (s[2], key(s)) == (i, g)]
            h.eq(a[i, g], w[0] if w else fv, 'value at its own row and column')


def stat(xs, name):
    v = [x for x in xs if not isnan(x)]
    if name == 'sum':
        return nansum(xs)
    if not v:
        return math.nan
    if name == 'mean':
        return nansum(v) / len(v)
    b = v[0]
    for x in v[1:]:
        if (x < b) if name == 'min' else (x > b):
            b = x
    return b


def median(xs):
    v = [x for x in xs if not isnan(x)]
    if not v:
        return math.nan
    out = []
    for x in v:
        k = len(out)
        while k > 0 and x < out[k - 1]:
            k -= 1
        out.insert(k, x)
    n = len(out)
    return out[n // 2] if n % 2 else (out[n // 2 - 1] + out[n // 2]) / 2


def reduces(h, n, ncol, group_by=None, sort=None, what='basic'):
    r, spec = mk(h, n, ncol, ids='k', group_by=group_by, sort=sort, rows=4)
    m = r.map_field('val')
    key = (lambda s: group_by[s[1]]) if group_by else (lambda s: s[1])
    ng = len(set(group_by)) if group_by else ncol
    per = [[s for s in spec if key(s) == g] for g in range(ng)]

    def arr(x):
        return list(np.asarray(x).reshape(-1))
    if what == 'basic':
        for name in ('min', 'max', 'mean', 'sum'):
            got = arr(getattr(m, name)())
            h.eq(len(got), ng, 'length of ' + name)
            for g in range(ng):
                h.eq(got[g], (stat([s[3] for s in per[g]], name)) if per[g] or name == 'sum' else math.nan, name)
        h.eq(arr(m.count()), [len(p) for p in per], 'count')
        h.eq(arr(m.min(fill_value=7.0)), [stat([s[3] for s in p], 'min') if p else 7.0 for p in per], 'fill value of absent columns')
    elif what == 'order':
        got = arr(m.median())
        for g in range(ng):
            h.eq(got[g], median([s[3] for s in per[g]]), 'median')
        for ddof in (0, 1):
            got = arr(m.std(ddof=ddof))
            for g in range(ng):
                v = [s[3] for s in per[g] if not isnan(s[3])]
                if len(v) <= ddof:
                    h.check(isnan(got[g]), 'std of too few values')
                else:
                    mu = nansum(v) / len(v)
                    h.eq_root(got[g], sum([(x - mu) * (x - mu) for x in v], 0.0) / (len(v) - ddof), 'std')
    elif what == 'idx':
        for name in ('idxmin', 'idxmax'):
            for to_index in (False, True):
                got, exc = h.call(getattr(m, name), to_index=to_index)
                if any(p and all(isnan(s[3]) for s in p) for p in per):
                    continue   # all-NaN columns have no extremum
                h.check(exc is None, '%s raises %s' % (name, exc))
                if exc:
                    continue
                got = arr(got)
                for g in range(ng):
                    b = None
                    for s in per[g]:
                        if not isnan(s[3]) and (b is None or ((s[3] < b[3]) if name == 'idxmin' else (s[3] > b[3]))):
                            b = s
                    if to_index:
                        h.eq('-' if pd.isnull(got[g]) else str(got[g]), '-' if b is None else 'r%d' % b[2], name + ' label')
                    else:
                        h.eq(int(got[g]), -1 if b is None else b[2], name + ' row')
        for k in (0, 1, -1):
            if all(len(p) == 0 or len(p) > k for p in per):
                h.eq(arr(m.nth(k)), [p[k][3] if p else math.nan for p in per], 'nth')
                h.eq([int(x) for x in arr(m.nth_index(k, to_index=False))], [p[k][2] if p else -1 for p in per], 'nth index')


def describe(h, n, ncol, idx, group_by=None, ddof=1, plain=True):
    """idx: 'own' rows, 'same' (conflicting rows), None (no rows)"""
    r, spec = mk(h, n, ncol, ids='k', idxs=1 if idx == 'same' else 0, group_by=group_by, rows=4)
    m = r.map_field('val')
    if idx is None:
        m = m.replace(idx_arr=None)
    key = (lambda s: group_by[s[1]]) if group_by else (lambda s: s[1])
    ng = len(set(group_by)) if group_by else ncol
    out, exc = h.call(m.describe, **({} if plain else dict(ddof=ddof)))
    if not spec:
        return
    h.check(exc is None, 'describe raises %s' % exc)
    if exc:
        return
    for g in range(ng):
        xs = [s[3] for s in spec if key(s) == g]
        v = [x for x in xs if not isnan(x)]
        d = out.iloc[:, g] if ng > 1 else out
        h.eq(d.loc['count'], len(v), 'describe count')
        for name in ('mean', 'min', 'max'):
            h.eq(d.loc[name], stat(xs, name), 'describe ' + name)
        h.eq(d.loc['50%'], median(xs), 'describe median')


def mapping(h, n, ncol, group_by=None):
    """user functions see the records of their unit, in order, and results land on the same records"""
    r, spec = mk(h, n, ncol, ids='k', group_by=group_by)
    m = r.map_field('val')

    @h.njit
    def f(idxs, col, a):
        return a * 2 + col
    got = m.apply(f)
    h.eq(list(got.values), [s[3] * 2 + s[1] for s in spec], 'apply per column')
    if group_by:
        got = m.apply(f, apply_per_group=True)
        h.eq(list(got.values), [s[3] * 2 + group_by[s[1]] for s in spec], 'apply per group')

    @h.njit
    def cum(idxs, col, a):
        out = np.empty(a.shape[0], np.float64) if False else a * 1.0
        for i in range(1, a.shape[0]):
            out[i] = out[i - 1] + a[i]
        return out
    got = m.apply(cum)
    for k, s in enumerate(spec):
        t = 0.0
        for q in spec[:k + 1]:
            if q[1] == s[1]:
                t = t + q[3]
        h.eq(got.values[k], t, 'apply sees the elements of the column in order')

    @h.njit
    def rf(rec):
        return rec['val'] + 10 * rec['col'] + rec['idx']
    h.eq(list(r.map(rf).values), [s[3] + 10 * s[1] + s[2] for s in spec], 'map per record')
    same_m(h, m, spec, 'mapped field')

    @h.njit
    def af(recs):
        return recs['val'] + recs['id'][0]
    got = r.apply(af)
    first = {}
    for s in spec:
        first.setdefault(s[1], s[0])
    h.eq(list(got.values), [s[3] + first[s[1]] for s in spec], 'apply on records per column')
    if group_by:
        first = {}
        for q in spec:
            first.setdefault(group_by[q[1]], q[0])
        h.eq(list(r.apply(af, apply_per_group=True).values), [q[3] + first[group_by[q[1]]] for q in spec], 'apply on records per group')
    h.eq(list((m + m).values), [s[3] + s[3] for s in spec], 'arithmetic')
    h.eq([bool(x) for x in (m > 0).values], [(not isnan(s[3])) and bool(s[3] > 0) for s in spec], 'comparison')
    if n > 1:
        other = r.apply_mask(np.array([True] * (n - 1) + [False])).map_field('val')
        _, exc = h.call(lambda: m + other)
        h.check(exc is not None, 'arrays of different records are not combined')


def reducers(h, n, ncol, group_by=None):
    """user reductions to a value, an array, a row and an array of rows, as labels or positions, absent units filled"""
    r, spec = mk(h, n, ncol, ids='k', idxs='sym', group_by=group_by, nan=False)
    m = r.map_field('val')
    key = (lambda s: group_by[s[1]]) if group_by else (lambda s: s[1])
    ng = len(set(group_by)) if group_by else ncol
    per = [[s for s in spec if key(s) == g] for g in range(ng)]

    def arr(x):
        return list(np.asarray(x).reshape(-1))

    @h.njit
    def val(col, a, k):
        return a[0] * k + a[-1] + col

    @h.njit
    def last(col, a):
        return a.shape[0] - 1

    h.eq(arr(m.reduce(val, 3)), [p[0][3] * 3 + p[-1][3] + g if p else math.nan for g, p in enumerate(per)], 'reduce to a value')
    h.eq(arr(m.reduce(val, 3, fill_value=5.0)), [p[0][3] * 3 + p[-1][3] + g if p else 5.0 for g, p in enumerate(per)], 'fill value')
    if group_by:
        pc = [[s for s in spec if s[1] == c] for c in range(ncol)]
        h.eq(arr(m.reduce(val, 3, group_by=False)), [p[0][3] * 3 + p[-1][3] + c if p else math.nan for c, p in enumerate(pc)], 'group_by=False')
    got, exc = h.call(m.reduce, last, returns_idx=True, to_index=False)
    h.check(exc is None, 'reduce to a row raises %s' % exc)
    if not exc:
        h.eq([int(x) for x in arr(got)], [p[-1][2] if p else -1 for p in per], 'reduce to a row position')
    got, exc = h.call(m.reduce, last, returns_idx=True)
    h.check(exc is None, 'reduce to a label raises %s' % exc)
    if not exc:
        h.eq(['-' if pd.isnull(x) else x for x in arr(got)], ['r%d' % p[-1][2] if p else '-' for p in per], 'reduce to a label')
    own = np.array([2 - s[2] for s in spec], dtype=np.int64)
    got, exc = h.call(m.reduce, last, idx_arr=own, returns_idx=True, to_index=False)
    h.check(exc is None, 'reduce with own rows raises %s' % exc)
    if not exc:
        h.eq([int(x) for x in arr(got)], [2 - p[-1][2] if p else -1 for p in per], 'rows passed explicitly')
    if all([len(p) for p in per]):
        npx = h.vbt._symx_np if h.sym else np

        def two(col, a):
            out = npx.empty(2, dtype=np.float64)
            out[0] = a[0]
            out[1] = a[-1] + col
            return out

        def twoi(col, a):
            out = npx.empty(2, dtype=np.int64)
            out[0] = 0
            out[1] = a.shape[0] - 1
            return out
        if not h.sym:
            @h.njit
            def two(col, a):
                out = np.empty(2, dtype=np.float64)
                out[0] = a[0]
                out[1] = a[-1] + col
                return out

            @h.njit
            def twoi(col, a):
                out = np.empty(2, dtype=np.int64)
                out[0] = 0
                out[1] = a.shape[0] - 1
                return out
        got = np.asarray(m.reduce(two, returns_array=True)).reshape(2, ng)
        for g, p in enumerate(per):
            h.eq([got[0, g], got[1, g]], [p[0][3], p[-1][3] + g], 'reduce to an array')
        got = np.asarray(m.reduce(twoi, returns_array=True, returns_idx=True, to_index=False)).reshape(2, ng)
        for g, p in enumerate(per):
            h.eq([int(got[0, g]), int(got[1, g])], [p[0][2], p[-1][2]], 'reduce to an array of rows')
        got = np.asarray(m.reduce(twoi, returns_array=True, returns_idx=True)).reshape(2, ng)
        for g, p in enumerate(per):
            h.eq([got[0, g], got[1, g]], ['r%d' % p[0][2], 'r%d' % p[-1][2]], 'reduce to an array of labels')


def replacing(h, n, ncol):
    """replacing an attribute keeps the others; mappings and index labels land on the same elements"""
    r, spec = mk(h, n, ncol, ids='k', idxs='sym', nan=False)
    m = r.map_field('val')
    m.col_mapper
    m.count()
    newc = np.array([ncol - 1 - s[1] for s in spec], dtype=np.int64)
    got, exc = h.call(lambda: m.replace(col_arr=newc))
    h.check(exc is None, 'replace raises %s' % exc)
    if not exc:
        same_m(h, got, [(s[0], ncol - 1 - s[1], s[2], s[3]) for s in spec], 'replaced columns')
        h.eq([int(x) for x in np.asarray(got.count()).reshape(-1)], [len([s for s in spec if ncol - 1 - s[1] == c]) for c in range(ncol)], 'count after replacing columns')
        tot = np.asarray(got.sum()).reshape(-1)
        for c in range(ncol):
            h.eq(tot[c], nansum([s[3] for s in spec if ncol - 1 - s[1] == c]), 'sum after replacing columns')
    newi = np.array([2 - s[2] for s in spec], dtype=np.int64)
    same_m(h, m.replace(idx_arr=newi), [(s[0], s[1], 2 - s[2], s[3]) for s in spec], 'replaced rows')
    rows = r.map_field('idx')
    h.eq([str(x) for x in rows.to_index()], ['r%d' % s[2] for s in spec], 'to_index')
    h.eq([str(x) for x in r.map_field('idx', mapping='index').apply_mapping().values], ['r%d' % s[2] for s in spec], 'mapping to the index')
    h.eq([str(x) for x in r.map_field('col', mapping='columns').apply_mapping().values], [COLS[s[1]] for s in spec], 'mapping to the columns')
    got = r.map_field('idx').apply_mapping({0: 'u', 1: 'v', 2: 'w'})
    h.eq([str(x) for x in got.values], ['uvw'[s[2]] for s in spec], 'explicit mapping')
    h.eq([int(x) for x in got.col_arr], [s[1] for s in spec], 'mapping keeps the columns')
    mm = r.map_field('idx')

    @h.njit
    def first(inout, idxs, col, a):
        inout[idxs[0]] = True
    got = [bool(x) for x in mm.map_to_mask(first)]
    h.eq(got, [not any(q[1] == s[1] for q in spec[:k]) for k, s in enumerate(spec)], 'map to mask')
    df = r.records_readable if False else r.records
    h.eq([int(x) for x in df['col']], [s[1] for s in spec], 'records frame')


def counts(h, n, ncol, group_by=None):
    vals = [float(h.int('w%d' % k, 0, 2)) for k in range(n)]
    vals = [math.nan if v == 2 else v for v in vals]
    r, spec = mk(h, n, ncol, ids='k', group_by=group_by, valk=vals, sort=True)
    m = h.vbt.MappedArray(r.wrapper, np.array(vals), np.array([s[1] for s in spec]), id_arr=np.array([s[0] for s in spec]))
    key = (lambda s: group_by[s[1]]) if group_by else (lambda s: s[1])
    ng = len(set(group_by)) if group_by else ncol

    def cnt(v, g):
        return len([s for s in spec if key(s) == g and (s[3] == v or (v != v and s[3] != s[3]))])

    def keys(o):
        return ['nan' if k != k else float(k) for k in o.index]
    uniq = sorted({v for v in vals if v == v}) + ([math.nan] if any(v != v for v in vals) else [])
    for dropna in (False, True):
        o = m.value_counts(dropna=dropna)
        u = [v for v in uniq if not (dropna and v != v)]
        h.eq(keys(o), ['nan' if v != v else v for v in u], 'unique values')
        a = o.to_numpy().reshape(len(u), ng)
        h.eq(a.tolist(), [[cnt(v, g) for g in range(ng)] for v in u], 'value counts')
        if u:
            o = m.value_counts(dropna=dropna, normalize=True)
            tot = sum(cnt(v, g) for v in u for g in range(ng))
            h.eq(o.to_numpy().reshape(len(u), ng).tolist(), [[cnt(v, g) / tot for g in range(ng)] for v in u], 'normalised counts')
    o = m.value_counts(sort=True)
    tots = [sum(cnt(v, g) for g in range(ng)) for v in uniq]
    got = [int(x) for x in o.to_numpy().reshape(len(uniq), ng).sum(axis=1)]
    h.eq(got, sorted(tots, reverse=True), 'sorted by count')
    for asc in (False, True):
        for su in (True, False):
            base = uniq if su else list(dict.fromkeys('nan' if v != v else v for v in vals))
            u = sorted(base, key=lambda v: (1 if asc else -1) * sum(cnt(math.nan if v == 'nan' else v, g) for g in range(ng)))
            o = m.value_counts(sort=True, ascending=asc, sort_uniques=su)
            h.eq(keys(o), ['nan' if v != v else v for v in u], 'order of equal counts is kept')
            h.eq(o.to_numpy().reshape(len(u), ng).tolist(), [[cnt(math.nan if v == 'nan' else v, g) for g in range(ng)] for v in u], 'sorted counts')
    mp = {0: 'x', 1: 'y', 2: 'z', math.nan: '?'}
    nn = [v for v in vals]
    o = m.value_counts(mapping=mp)
    h.eq([str(k) for k in o.index], ['?' if v != v else mp[int(v)] for v in uniq], 'mapped unique values')
    o = m.value_counts(mapping=mp, incl_all_keys=True)
    al = [0.0, 1.0, 2.0, math.nan]
    h.eq([str(k) for k in o.index], [('?' if v != v else mp[int(v)]) for v in al], 'all keys of the mapping')
    h.eq(o.to_numpy().reshape(len(al), ng).tolist(), [[cnt(v, g) for g in range(ng)] for v in al], 'counts of all keys')


TRADE = dict(col='Column', size='Size', entry_idx='Entry Timestamp', entry_price='Avg Entry Price', entry_fees='Entry Fees', exit_idx='Exit Timestamp',
             exit_price='Avg Exit Price', exit_fees='Exit Fees', pnl='PnL', direction='Direction', status='Status')
TITLES = {
    'orders': dict(id='Order Id', col='Column', idx='Timestamp', size='Size', price='Price', fees='Fees', side='Side'),
    'entry_trades': dict(TRADE, id='Entry Trade Id', parent_id='Position Id', **{'return': 'Return'}),
    'exit_trades': dict(TRADE, id='Exit Trade Id', parent_id='Position Id', **{'return': 'Return'}),
    'positions': dict(TRADE, id='Position Id', parent_id=None, **{'return': 'Return'}),
    'drawdowns': dict(id='Drawdown Id', col='Column', peak_idx='Peak Timestamp', start_idx='Start Timestamp', valley_idx='Valley Timestamp',
                      end_idx='End Timestamp', peak_val='Peak Value', valley_val='Valley Value', end_val='End Value', status='Status'),
    'ranges': dict(id='Range Id', col='Column', start_idx='Start Timestamp', end_idx='End Timestamp', status='Status'),
}
ENUM = dict(side=('Buy', 'Sell'), direction=('Long', 'Short'))
STATUS = dict(drawdowns=('Active', 'Recovered'))


def readable(h, what):
    """readable records name the column, row and state of every record and keep its numbers"""
    from checks import c08
    c08.LAY['read'] = [(0, 0, 1), (0, 2, 0), (1, 1, 0)]
    n, ncol = 3, 2
    if what in ('drawdowns', 'ranges'):
        v = h.floats2('v', (2, 2), gt=0, nan=what == 'ranges')
        d = h.df(v, columns=['a', 'b'], index=pd.Index(['x', 'y'], name='t'))
        r = d.vbt.drawdowns if what == 'drawdowns' else d.vbt.ranges
        rows, cols = ['x', 'y'], ['a', 'b']
    else:
        pf, recs, close = c08.build(h, 'read', n, ncol, None, False, h.array([100.0] * ncol), False, True, lim=10, conc='size' if what != 'orders' else False)
        r = getattr(pf, what)
        rows, cols = list(range(n)), ['a', 'b']
    raw = r.values
    df, exc = h.call(lambda: r.records_readable)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    T = TITLES[what]
    h.eq(list(df.columns), [T[f] for f in raw.dtype.names if T[f] is not None], 'titles')
    h.eq(len(df), len(raw), 'one row per record')
    for f in raw.dtype.names:
        if T[f] is None:
            continue
        got, x = list(df[T[f]]), raw[f]
        if f == 'col':
            want = [cols[int(k)] for k in x]
        elif f == 'idx' or f.endswith('_idx'):
            want = [rows[int(k)] for k in x]
        elif f in ENUM:
            want = [ENUM[f][int(k)] for k in x]
        elif f == 'status':
            want = [STATUS.get(what, ('Open', 'Closed'))[int(k)] for k in x]
        else:
            want = [x[k] for k in range(len(raw))]
        h.eq(got, want, T[f])


def maps(h, n, ncol):
    """column map / column range of any column assignment"""
    from vectorbt.records import nb
    col = np.array([h.int('c%d' % k, 0, ncol - 1) for k in range(n)], dtype=np.int64)
    ix, ln = nb.col_map_nb(col, ncol)
    h.eq([int(x) for x in ln], [int((col == c).sum()) for c in range(ncol)], 'column lengths')
    h.eq([int(x) for x in ix], [k for c in range(ncol) for k in range(n) if col[k] == c], 'column map')
    srt = all(col[k] <= col[k + 1] for k in range(n - 1))
    h.eq(bool(nb.is_col_sorted_nb(col)), srt, 'is_col_sorted')
    rng, exc = h.call(nb.col_range_nb, col, ncol)
    if not srt:
        h.eq(exc, 'ValueError', 'a column range needs sorted columns')
        return
    h.check(exc is None, 'raises %s' % exc)
    if not exc:
        want = []
        for c in range(ncol):
            w = [k for k in range(n) if col[k] == c]
            want.append([w[0], w[-1] + 1] if w else [-1, -1])
        h.eq([[int(x) for x in y] for y in rng], want, 'column range')


def tasks(tier):
    q = tier == 'quick'
    n3 = 3 if q else 4
    out = []
    for s in SEL:
        out.append(dict(fn='select', cfg=dict(n=n3, ncol=3, sel=s)))
        out.append(dict(fn='select', cfg=dict(n=n3, ncol=3, sel=s, sort=True)))
    for gb in ((0, 0, 1), (0, 1, 1), (0, 1, 0)):
        for g in (0, 1):
            if gb != (0, 1, 0):
                out.append(dict(fn='grouped', cfg=dict(n=2 if q else 3, group_by=gb, g=g)))
    for ii in (False, True):
        out.append(dict(fn='sorting', cfg=dict(n=2, ncol=3, incl_id=ii)))
        out.append(dict(fn='sorting', cfg=dict(n=3, ncol=2, incl_id=ii), weight=3))
    out += [dict(fn='masks', cfg=dict(n=n3, ncol=2)), dict(fn='masks', cfg=dict(n=2, ncol=3))]
    for top in (False, True):
        out.append(dict(fn='topn', cfg=dict(n=3 if q else 4, ncol=1, top=top), weight=3))
        out.append(dict(fn='topn', cfg=dict(n=4, ncol=1, top=top, nan=False), weight=6))
        out.append(dict(fn='topn', cfg=dict(n=3, ncol=2, top=top, cols=(0, 1, 0)), weight=3))
        out.append(dict(fn='topn', cfg=dict(n=3, ncol=2, top=top, cols=(1, 0, 1), nan=False)))
        out.append(dict(fn='topn', cfg=dict(n=3, ncol=3, top=top, cols=(2, 0, 1), group_by=(0, 1, 1), nan=False)))
    for ig in (False, True):
        for fill in (None, 0.0, -1):
            out.append(dict(fn='expand', cfg=dict(n=2 if not ig else n3, ncol=3 if ig else 2, ignore=ig, fill=fill)))
        out.append(dict(fn='expand', cfg=dict(n=2, ncol=1, ignore=ig, fill=None)))
        out.append(dict(fn='expand', cfg=dict(n=2, ncol=3, ignore=ig, fill=None, group_by=(0, 0, 1))))
    for what in ('basic', 'order', 'idx'):
        out.append(dict(fn='reduces', cfg=dict(n=2 if what != 'idx' else 2, ncol=3, what=what), weight=2))
        out.append(dict(fn='reduces', cfg=dict(n=3, ncol=1, what=what), weight=2))
        out.append(dict(fn='reduces', cfg=dict(n=2, ncol=3, what=what, group_by=(0, 0, 1)), weight=2))
        if not q:
            out.append(dict(fn='reduces', cfg=dict(n=3, ncol=2, what=what), weight=9))
    for idx in ('own', 'same', None):
        for ncol in (1, 2):
            out.append(dict(fn='describe', cfg=dict(n=2, ncol=ncol, idx=idx)))
    out.append(dict(fn='describe', cfg=dict(n=3, ncol=1, idx='same'), weight=2))
    out.append(dict(fn='describe', cfg=dict(n=2, ncol=2, idx='own', plain=False, ddof=0)))
    out.append(dict(fn='describe', cfg=dict(n=2, ncol=3, idx='own', group_by=(0, 0, 1))))
    out += [dict(fn='mapping', cfg=dict(n=n3, ncol=2)), dict(fn='mapping', cfg=dict(n=2, ncol=3)),
            dict(fn='mapping', cfg=dict(n=2, ncol=3, group_by=(0, 0, 1)))]
    out += [dict(fn='counts', cfg=dict(n=2, ncol=3)), dict(fn='counts', cfg=dict(n=3, ncol=2)),
            dict(fn='counts', cfg=dict(n=2, ncol=3, group_by=(0, 0, 1)))]
    out += [dict(fn='maps', cfg=dict(n=n, ncol=3)) for n in range(0, 5 if q else 6)] + [dict(fn='maps', cfg=dict(n=3, ncol=1))]
    out += [dict(fn='reducers', cfg=dict(n=2, ncol=2)), dict(fn='reducers', cfg=dict(n=3, ncol=1)),
            dict(fn='reducers', cfg=dict(n=2, ncol=3, group_by=(0, 0, 1)))]
    out += [dict(fn='readable', cfg=dict(what=w)) for w in TITLES]
    out += [dict(fn='replacing', cfg=dict(n=2, ncol=2)), dict(fn='replacing', cfg=dict(n=3, ncol=1))]
    return out
