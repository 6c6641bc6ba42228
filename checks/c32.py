"""C32: reshaping and combining put every element where its labels say, losing and duplicating none."""
import itertools
import numpy as np
import pandas as pd
from symx.harness import isnan
from checks.c31 import levels_of

PROPERTY = 'C32'
BOUNDS = dict(shapes='up to 3 x 3 (thorough 4 x 4)', labels='label values over 2-3 letters in every arrangement (sorted or not, complete or with holes)',
              cells='all reals, NaN where the operation treats it specially', copies='1-3', operands='2-4')
ASSUMPTIONS = ['the combined function is uninterpreted up to the listed ones (sum, difference, product, max): order-sensitive ones are included']
VALIDATE_S = dict(quick=12)
LET = 'abc'


def vals(o):
    return np.asarray(o.values if hasattr(o, 'values') else o)


def lab(i):
    return [tuple(v[k] for _, v in levels_of(i)) for k in range(len(i))]


def rep(h, n, m, k, axis, what, series=False):
    """tile / repeat with and without keys"""
    from vectorbt.base import reshape_fns as r
    a = h.floats2('a', (n, m), nan=False)
    rows, cols = pd.Index(['r%d' % i for i in range(n)], name='R'), pd.Index(['c%d' % j for j in range(m)], name='C')
    o = h.sr(a[:, 0], index=rows, name='c0') if series else h.df(a, index=rows, columns=cols)
    src = (lambda q, size: q % size) if what == 'tile' else (lambda q, size: q // k)
    f = getattr(r, what)
    shape = (n * k, m) if axis == 0 else (n, m * k)
    keys = pd.Index(['k%d' % i for i in range(k)], name='K')
    outs = [f(o, k, axis=axis), f(np.asarray(o) if not h.sym else (a[:, 0] if series else a), k, axis=axis), getattr(o.vbt, what)(k, axis=axis),
            getattr(o.vbt, what)(k, keys=keys, axis=axis)]
    for q, out in enumerate(outs):
        v = vals(out)
        if v.ndim == 1:
            v = v[:, None]
        h.eq(v.shape, shape, 'shape')
        for i in range(shape[0]):
            for j in range(shape[1]):
                h.eq(v[i, j], a[src(i, n) if axis == 0 else i, src(j, m) if axis == 1 else j], what)
        if q == 1:
            continue
        ix, cx = out.index, out.columns if isinstance(out, pd.DataFrame) else None
        along, size, old = (ix, n, rows) if axis == 0 else (cx, m, cols)
        if along is None:
            continue
        want = [old[src(t, size)] for t in range(size * k)]
        if q < 3:
            h.eq(list(along), want, 'labels')
        else:
            key = [keys[t // size if what == 'tile' else t % k] for t in range(size * k)]
            h.eq(lab(along), [((b, x) if what == 'tile' else (x, b)) for x, b in zip(want, key)], 'labels with keys')


def labels2(h, n, tag, k):
    return [LET[h.int('%s%d' % (tag, i), 0, k - 1)] for i in range(n)]


def unstack(h, n, ka=2, kb=2, how='df', mid=False):
    """every cell of a multi-indexed series is found at its labels, every other cell is NaN"""
    from vectorbt.base import reshape_fns as r
    A, B = labels2(h, n, 'p', ka), labels2(h, n, 'q', kb)
    v = h.floats('v', n, nan=False)
    arrs = [A, B]
    names = ['p', 'q']
    if mid:
        M = labels2(h, n, 'm', 2)
        arrs, names = [A, M, B], ['p', 'm', 'q']
    sr = h.sr(v, index=pd.MultiIndex.from_arrays(arrs, names=names))
    keys = list(zip(*arrs))
    dup = len(set(keys)) < n
    if how == 'array':
        out, exc = h.call(lambda: sr.vbt.unstack_to_array())
    elif how == 'frame':
        out, exc = h.call(lambda: r.unstack_to_df(sr.to_frame() if n > 1 and h.bool('col') else sr.to_frame().T, **(dict(index_levels=(0, 1), column_levels=2)
                                                                                                           if mid else {})))
    elif mid:
        lv = h.choice('lv', [((0, 1), 2), ((1, 0), 2), (2, ('p', 'm')), ('q', (1, 0))])
        out, exc = h.call(lambda: sr.vbt.unstack_to_df(index_levels=lv[0], column_levels=lv[1]))
    else:
        lv = h.choice('lv', [None, (0, 1), (1, 0), ('q', 'p')])
        kw = {} if lv is None else dict(index_levels=lv[0], column_levels=lv[1])
        out, exc = h.call(lambda: sr.vbt.unstack_to_df(**kw))
    if dup:
        h.eq(exc, 'ValueError', 'duplicate labels are refused')
        return
    h.check(exc is None, 'raises %s' % exc)
    if exc is not None:
        return
    if how == 'array':
        axes = [sorted(set(x)) for x in arrs]
        h.eq(tuple(out.shape), tuple(map(len, axes)), 'one axis per level')
        for pos in itertools.product(*[range(len(x)) for x in axes]):
            k = tuple(ax[p] for ax, p in zip(axes, pos))
            want = v[keys.index(k)] if k in keys else np.nan
            h.eq(out[pos], want, 'cell')
        return
    if how == 'frame':
        lv = ((0, 1), 2) if mid else (0, 1)
    elif lv is None:
        lv = (0, 1)

    def part(key, l):
        if isinstance(l, tuple):
            return tuple(part(key, x)[0] for x in l)
        return (key[names.index(l) if isinstance(l, str) else l],)
    rl, cl = lab(out.index), lab(out.columns)
    h.eq(sorted(rl), sorted({part(k, lv[0]) for k in keys}), 'row labels')
    h.eq(sorted(cl), sorted({part(k, lv[1]) for k in keys}), 'column labels')
    for i, x in enumerate(rl):
        for j, y in enumerate(cl):
            hit = [t for t, k in enumerate(keys) if part(k, lv[0]) == x and part(k, lv[1]) == y]
            h.eq(vals(out)[i, j], v[hit[0]] if hit else np.nan, 'cell at its labels')


def symmetric(h, n, m, ka, sort=True, nan=False, how='direct'):
    """cell (x, y) and (y, x) hold the value given for either"""
    from vectorbt.base import reshape_fns as r
    R = labels2(h, n, 'r', ka)
    C = labels2(h, m, 'c', ka)
    h.assume(len(set(R)) == n and len(set(C)) == m)
    v = h.floats2('v', (n, m), nan=nan)
    df = h.df(v, index=R, columns=C)
    out = r.make_symmetric(df, sort=sort) if how == 'direct' else r.unstack_to_df(df.stack(), symmetric=True, sort=sort)
    allk = sorted(set(R + C)) if sort else list(dict.fromkeys(R + C))
    h.eq(list(out.index), allk, 'index')
    h.eq(list(out.columns), allk, 'columns')
    V = vals(out)
    for i, x in enumerate(allk):
        for j, y in enumerate(allk):
            a = v[R.index(x), C.index(y)] if x in R and y in C else np.nan
            b = v[R.index(y), C.index(x)] if y in R and x in C else np.nan
            h.eq(V[i, j], b if isnan(a) else a, 'cell')


def align_to(h, n, m):
    """align_to copies the row/column of the same label for every label of the other frame"""
    from vectorbt.base.index_fns import align_index_to  # noqa: F401
    A = h.floats2('a', (2, n), nan=False)
    L1 = labels2(h, n, 'x', 3)
    L2 = labels2(h, m, 'y', 3)
    top = ['t%d' % j for j in range(m)]
    two = bool(h.bool('two'))
    df = h.df(A, index=['i', 'j'], columns=pd.Index(L1, name='L'))
    oc = pd.MultiIndex.from_arrays([top, L2], names=['T', 'L']) if two else pd.Index(L2, name='L')
    ri = ['i', 'j'] if bool(h.bool('ri')) else ['j', 'i']
    other = pd.DataFrame(np.zeros((2, m)), index=ri, columns=oc)
    out, exc = h.call(lambda: df.vbt.align_to(other))
    if exc is not None:
        h.check(len(set(L1)) < n or not set(L2) <= set(L1), 'refused only if labels are missing or ambiguous')
        return
    h.eq(list(out.index), ri, 'index of the other')
    h.eq(lab(out.columns), lab(oc), 'columns of the other')
    if len(set(L1)) == n:
        for i, x in enumerate(ri):
            for j, y in enumerate(L2):
                h.eq(vals(out)[i, j], A['ij'.index(x), L1.index(y)], 'cell at its labels')


FN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b * 2, 'mul': lambda a, b: a * b + a}


def combine(h, k, op, mode='frames', concat=False, loop=False, raw=False):
    """combine folds from the left over equal positions; concat keeps one block per operand"""
    n, m = 2, 2
    f = FN[op]
    rows, cols = ['i', 'j'], pd.Index(['a', 'b'], name='c')
    base = h.floats2('a', (n, m), nan=False)
    others, tabs = [], []
    for q in range(k):
        kind = mode if mode != 'mixed' else ('frames', 'scalar', 'row')[q % 3]
        if kind == 'scalar':
            s = h.real('s%d' % q)
            others.append(s)
            tabs.append([[s] * m] * n)
        elif kind == 'row':
            s = h.floats('w%d_' % q, m, nan=False)
            others.append(s)
            tabs.append([list(s)] * n)
        elif kind == 'series':
            s = h.floats('w%d_' % q, n, nan=False)
            others.append(h.sr(s, index=rows))
            tabs.append([[s[i]] * m for i in range(n)])
        else:
            s = h.floats2('w%d_' % q, (n, m), nan=False)
            others.append(h.df(s, index=rows, columns=cols))
            tabs.append([[s[i, j] for j in range(m)] for i in range(n)])
    df = h.df(base, index=rows, columns=cols)
    g = h.njit(f) if loop else f
    kw = dict(numba_loop=True) if loop else {}
    if concat:
        kw['concat'] = True
        kw['keys'] = pd.Index(['k%d' % q for q in range(k)], name='K')
    out = df.vbt.combine(others if k > 1 or concat else others[0], combine_func=g, keep_pd=raw, **kw)
    V = vals(out)
    if concat and k > 1:
        h.eq(V.shape, (n, m * k), 'shape')
        for q in range(k):
            for i in range(n):
                for j in range(m):
                    h.eq(V[i, q * m + j], f(base[i, j], tabs[q][i][j]), 'block of operand %d' % q)
        h.eq(lab(out.columns), [('k%d' % q, c) for q in range(k) for c in 'ab'], 'labels of the blocks')
        return
    h.eq(V.shape, (n, m), 'shape')
    for i in range(n):
        for j in range(m):
            x = base[i, j]
            for q in range(k):
                x = f(x, tabs[q][i][j])
            h.eq(V[i, j], x, 'left fold')
    h.eq(list(out.index), rows, 'index')
    h.eq(list(out.columns), ['a', 'b'], 'columns')


def apply_concat(h, k, loop, multiple=False):
    from vectorbt.base import combine_fns as c
    n, m = 2, 2
    a = h.floats2('a', (n, m), nan=False)
    p = h.floats('p', k, nan=False)
    df = h.df(a, index=['i', 'j'], columns=pd.Index(['a', 'b'], name='c'))
    if multiple:
        def f(i, x, p):
            return x * p[i], x + p[i]
        fn = c.apply_and_concat_multiple_nb if loop else c.apply_and_concat_multiple
        outs = fn(k, h.njit(f) if loop else f, a, p)
        h.eq(len(outs), 2, 'two outputs')
        for t in range(k):
            for i in range(n):
                for j in range(m):
                    h.eq(outs[0][i, t * m + j], a[i, j] * p[t], 'first output')
                    h.eq(outs[1][i, t * m + j], a[i, j] + p[t], 'second output')
        return

    def g(i, x, p):
        return x * p[i] + i
    out = df.vbt.apply_and_concat(k, p, apply_func=h.njit(g) if loop else g, numba_loop=loop)
    V = vals(out)
    h.eq(V.shape, (n, m * k), 'shape')
    for t in range(k):
        for i in range(n):
            for j in range(m):
                h.eq(V[i, t * m + j], a[i, j] * p[t] + t, 'block')
    h.eq(lab(out.columns), [(t, x) for t in range(k) for x in 'ab'], 'labels')
    one = (c.apply_and_concat_one_nb if loop else c.apply_and_concat_one)(k, h.njit(g) if loop else g, a[:, 0], p)
    h.eq(np.shape(one), (n, k), 'one-dimensional results become columns')
    for t in range(k):
        for i in range(n):
            h.eq(one[i, t], a[i, 0] * p[t] + t, 'column')


def concat(h, kind):
    n = 2
    a = h.floats2('a', (n, 2), nan=False)
    s = h.floats('s', n, nan=False)
    x = h.real('x')
    df = h.df(a, index=['i', 'j'], columns=['a', 'b'])
    sr = h.sr(s, index=['i', 'j'], name='z')
    objs = dict(ff=[df, df], fs=[df, sr], sf=[sr, df], fx=[df, x], ss=[sr, sr], fsf=[df, sr, df])[kind]
    keys = ['k%d' % q for q in range(len(objs))]
    out = objs[0].vbt.concat(*objs[1:], keys=keys)
    V = vals(out)
    m = 1 if kind == 'ss' else 2
    h.eq(V.shape, (n, m * len(objs)), 'shape')
    for q, o in enumerate(objs):
        for i in range(n):
            for j in range(m):
                want = a[i, j] if o is df else s[i] if o is sr else x
                h.eq(V[i, q * m + j], want, 'block %d' % q)
    h.eq([t[0] for t in lab(out.columns)], [kk for kk in keys for _ in range(m)], 'keys')


def to_dict(h):
    from vectorbt.base import reshape_fns as r
    a = h.floats2('a', (2, 3), nan=False)
    df = h.df(a, index=['i', 'j'], columns=['a', 'b', 'c'])
    d = df.vbt.to_dict(orient='index_series')
    h.eq(sorted(d), ['i', 'j'], 'keys')
    for q, k in enumerate('ij'):
        h.eq(list(d[k]), list(a[q]), 'row')
    d = r.to_dict(df)
    for j, k in enumerate('abc'):
        for i, x in enumerate('ij'):
            h.eq(d[k][x], a[i, j], 'cell')


def dims(h):
    """changes of dimension keep every element"""
    from vectorbt.base import reshape_fns as r
    a = h.floats('a', 3, nan=False)
    sr = h.sr(a, index=list('ijk'), name='n')
    for o in (r.to_2d(sr), r.to_2d(a), r.to_2d(sr, raw=True)):
        h.eq(np.shape(o), (3, 1), 'column')
        h.eq(list(vals(o)[:, 0]), list(a), 'column')
    for o in (r.to_2d(a, expand_axis=0), r.to_2d(sr, expand_axis=0)):
        h.eq(np.shape(o), (1, 3), 'row')
        h.eq(list(vals(o)[0]), list(a), 'row')
    df = r.to_2d(sr)
    h.eq(list(df.columns), ['n'], 'name')
    for o in (r.to_1d(df), r.to_1d(df, raw=True), r.soft_to_ndim(df, 1), r.soft_to_ndim(a[:, None], 1)):
        h.eq(np.shape(o), (3,), 'back to one dimension')
        h.eq(list(vals(o)), list(a), 'back to one dimension')
    h.eq(np.shape(r.soft_to_ndim(sr, 2)), (3, 1), 'soft')
    b = h.floats2('b', (2, 2), nan=False)
    h.eq(np.shape(r.soft_to_ndim(b, 1)), (2, 2), 'soft keeps what cannot be reduced')
    _, exc = h.call(lambda: r.to_1d(b))
    h.eq(exc, 'ValueError', 'hard refuses')
    x = h.real('x')
    e = r.to_2d_array(x)
    h.eq(np.shape(e), (1, 1), 'scalar')
    h.eq(e[0, 0], x, 'scalar')


def grouped(h, n):
    """accessor columns split by groups and stacked or squeezed in order"""
    a = h.floats2('a', (2, n), nan=False)
    G = [h.int('g%d' % j, 0, 1) for j in range(n)]
    h.assume(all(G[j] <= G[j + 1] for j in range(n - 1)))
    df = h.df(a, index=['i', 'j'], columns=list('abcd')[:n])
    groups = sorted(set(G))
    sizes = [G.count(g) for g in groups]
    for order in ('C', 'F'):
        out, exc = h.call(lambda: df.vbt(group_by=np.array(G)).flatten_grouped(order=order))
        h.check(exc is None, 'raises %s' % exc)
        if exc is not None:
            return
        V = vals(out)
        if V.ndim == 1:
            V = V[:, None]
        k = max(sizes)
        h.eq(V.shape, (2 * k, len(groups)), 'shape')
        for gi, g in enumerate(groups):
            cols = [j for j in range(n) if G[j] == g]
            want = [np.nan] * (2 * k)
            for p, j in enumerate(cols):
                for i in range(2):
                    want[i * k + p if order == 'C' else p * 2 + i] = a[i, j]
            h.eq(list(V[:, gi]), want, 'flattened group, order ' + order)
    out = df.vbt(group_by=np.array(G)).squeeze_grouped(h.njit(lambda i, g, x: x[0] * 2 + x[-1]))
    V = vals(out)
    if V.ndim == 1:
        V = V[:, None]
    for gi, g in enumerate(groups):
        cols = [j for j in range(n) if G[j] == g]
        for i in range(2):
            h.eq(V[i, gi], a[i, cols[0]] * 2 + a[i, cols[-1]], 'squeezed group')


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    for what in ('tile', 'repeat'):
        for axis in (0, 1):
            for n, m, k in ((2, 2, 2), (2, 3, 2), (3, 2, 3), (2, 2, 1), (1, 2, 2)):
                t('rep', n=n, m=m, k=k, axis=axis, what=what)
        t('rep', n=3, m=1, k=2, axis=0, what=what, series=True)
    for n in (1, 2, 3):
        t('unstack', n=n, how='df', w=3)
        t('unstack', n=n, how='array')
        t('unstack', n=n, how='frame')
    t('unstack', n=3, ka=3, kb=3 if not q else 2, how='df', w=5)
    t('unstack', n=2, how='df', mid=True, w=3)
    t('unstack', n=2, how='array', mid=True)
    t('unstack', n=2, how='frame', mid=True)
    if not q:
        t('unstack', n=4, how='df', w=5)
        t('unstack', n=3, how='df', mid=True, w=5)
    for n, m, ka in ((2, 2, 2), (2, 2, 3), (1, 2, 3)):
        for sort in (True, False):
            t('symmetric', n=n, m=m, ka=ka, sort=sort, nan=n * m < 4 or ka == 2)
    t('symmetric', n=2, m=2, ka=2, how='stacked')
    for n, m in ((2, 2), (2, 3)) + (() if q else ((3, 3),)):
        t('align_to', n=n, m=m, w=3)
    for op in FN:
        for mode in ('frames', 'scalar', 'row', 'series', 'mixed'):
            t('combine', k=1, op=op, mode=mode)
            t('combine', k=3, op=op, mode=mode)
        t('combine', k=2, op=op, raw=True)
        t('combine', k=3, op=op, concat=True)
        t('combine', k=2, op=op, mode='mixed', concat=True)
    t('combine', k=1, op='sub', loop=True)
    t('combine', k=3, op='sub', loop=True)
    t('combine', k=3, op='sub', loop=True, concat=True)
    for k in (1, 2, 3):
        for loop in (False, True):
            t('apply_concat', k=k, loop=loop)
            t('apply_concat', k=k, loop=loop, multiple=True)
    for kind in ('ff', 'fs', 'sf', 'fx', 'ss', 'fsf'):
        t('concat', kind=kind)
    t('to_dict')
    t('dims')
    for n in (1, 2, 3, 4):
        t('grouped', n=n)
    return out
