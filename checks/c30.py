"""C30: broadcasting gives every cell the element the alignment rules assign to it; flexible selection agrees with it."""
import itertools
import numpy as np
import pandas as pd
from checks.sim import close_setup
from checks.c31 import levels_of, dedup, redundant

PROPERTY = 'C30'
sym_setup = close_setup
BOUNDS = dict(operands='2 and 3 (thorough 3 everywhere)', shapes='scalars, arrays, Series and frames with 1-3 rows and 1-3 columns, in every '
              'combination listed, including combinations that must be refused', cells='all reals (every cell is its own variable)',
              labels='plain, named, default and two-level indexes and columns', rules="index/columns 'keep', 'stack', 'strict', 'reset', a position, "
              'explicit labels; align_index / align_columns; to_pd, to_frame, keep_raw, to_shape')
VALIDATE_S = dict(quick=12)
ASSUMPTIONS = ['pandas and numpy containers run natively on the concrete shapes and labels; cell contents stay symbolic']


def cell_table(h, name, shape):
    return h.floats2(name, shape, nan=False) if len(shape) == 2 else h.floats(name, shape[0], nan=False) if shape else h.real(name)


IDX = {
    'def': lambda n: pd.RangeIndex(n),
    'x': lambda n: pd.Index(['x%d' % i for i in range(n)], name='ix'),
    'y': lambda n: pd.Index(['y%d' % i for i in range(n)], name='iy'),
    'u': lambda n: pd.Index(['u%d' % i for i in range(n)]),
    'w': lambda n: pd.Index(['w%d' % i for i in range(n)]),
    'xu': lambda n: pd.MultiIndex.from_arrays([['x%d' % i for i in range(n)], ['u%d' % (i % 2) for i in range(n)]], names=['ix', 'iu']),
}


def operand(h, k, spec):
    """spec: ('s',) | ('a', n) | ('A', n, m) | ('S', n, index[, name]) | ('F', n, m, index, columns)"""
    t = spec[0]
    nm = 'v%d_' % k
    if t == 's':
        return h.real(nm), [[None]]
    if t == 'a':
        a = cell_table(h, nm, (spec[1],))
        return a, a
    if t == 'A':
        a = cell_table(h, nm, (spec[1], spec[2]))
        return a, a
    if t == 'S':
        a = cell_table(h, nm, (spec[1],))
        return h.sr(a, index=IDX[spec[2]](spec[1]), name=spec[3] if len(spec) > 3 else None), a
    a = cell_table(h, nm, (spec[1], spec[2]))
    return h.df(a, index=IDX[spec[3]](spec[1]), columns=IDX[spec[4]](spec[2])), a


def shape_of(spec, is2d):
    t = spec[0]
    if t == 's':
        return ()
    if t == 'a':
        return (spec[1],)
    if t == 'S':
        return (spec[1], 1) if is2d else (spec[1],)
    return (spec[1], spec[2])


def bshape(shapes):
    nd = max(map(len, shapes))
    out = []
    for d in range(nd):
        ds = {s[len(s) - nd + d] for s in shapes if len(s) - nd + d >= 0} - {1}
        if len(ds) > 1:
            return None
        out.append(ds.pop() if ds else 1)
    return tuple(out)


def source(spec, a, obj, shape, ix):
    """element of the operand that cell ix of the broadcast shape takes"""
    if spec[0] == 's':
        return obj
    s = shape_of(spec, len(shape) == 2)
    pos = ix[len(ix) - len(s):]
    pos = tuple(0 if d == 1 else p for p, d in zip(pos, s))
    return a[pos] if spec[0] != 'S' else a[pos[0]]


def get(o, ix):
    v = np.asarray(o.values if hasattr(o, 'values') else o)
    return v[ix] if v.ndim else v.item()


def labels(index):
    return [(k, list(v)) for k, v in levels_of(index)]


def idx_of(spec, axis):
    """labels of a pandas operand along an axis"""
    if spec[0] == 'S':
        if axis == 0:
            return IDX[spec[2]](spec[1])
        return pd.Index([spec[3]]) if len(spec) > 3 else pd.Index([0])
    return IDX[spec[3]](spec[1]) if axis == 0 else IDX[spec[4]](spec[2])


def isdef(ix):
    return ix.name is None and not isinstance(ix, pd.MultiIndex) and list(ix) == list(range(len(ix)))


def repeated(lv, n):
    """labels of one level stretched to n"""
    k, v = lv
    return (k, v if len(v) == n else [v[0]] * n)


def expected_index(specs, axis, rule, maxlen):
    """'no' (must raise) | None (unspecified: keep) | list of levels"""
    pds = [s for s in specs if s[0] in 'SF']
    if rule == 'keep':
        return None
    if rule == 'reset':
        return [(None, list(range(maxlen)))]
    if isinstance(rule, int):
        cand = idx_of(specs[rule], axis)
    elif isinstance(rule, (list, pd.Index)):
        cand = pd.Index(rule)
    else:
        ixs = [idx_of(s, axis) for s in pds]
        if all(labels(a) == labels(ixs[0]) for a in ixs):
            cand = ixs[0]
        else:
            use = [a for s, a in zip(pds, ixs) if not isdef(a) and not (axis == 1 and s[0] == 'S')]
            seen = use
            if not seen:
                return [(None, list(range(maxlen)))]
            if any(labels(a) != labels(seen[0]) for a in seen):
                if rule == 'strict':
                    return 'no'
                n = max(len(a) for a in seen)
                if any(len(a) not in (1, n) for a in seen):
                    return 'no'
                lv = [repeated(l, n) for a in seen for l in labels(a)]
                lv = redundant(dedup(lv, 'last'))
                if n < maxlen:
                    if n > 1:
                        return 'no'
                    return [repeated(l, maxlen) for l in lv]
                return lv
            cand = seen[0]
    if len(cand) < maxlen:
        if rule == 'strict':
            return 'no'
        if len(cand) > 1:
            return 'no'
        if isdef(cand):
            return [(None, list(range(maxlen)))]
        return [repeated(l, maxlen) for l in labels(cand)]
    return labels(cand)


def bc(h, specs, rows=None, cols=None, **kw):
    """broadcast(*operands): shapes, cells, index and columns"""
    from vectorbt.base import reshape_fns as r
    objs, cells = zip(*[operand(h, k, s) for k, s in enumerate(specs)])
    if rows is not None:
        kw['index_from'] = rows
    if cols is not None:
        kw['columns_from'] = cols
    out, exc = h.call(lambda: r.broadcast(*objs, return_meta=True, **kw))
    is2d = any(s[0] in 'AF' for s in specs)
    to_shape = kw.get('to_shape')
    if to_shape is not None:
        to_shape = (to_shape,) if isinstance(to_shape, int) else to_shape
        is2d = is2d or len(to_shape) > 1
    if kw.get('to_frame') is not None:
        is2d = kw['to_frame']
    sh = [shape_of(s, is2d) for s in specs]
    shape = bshape(sh + ([to_shape] if to_shape is not None else []))
    if to_shape is not None and shape != to_shape:
        shape = None
    if shape is None:
        h.check(exc is not None, 'incompatible shapes are refused')
        return
    is_pd = any(s[0] in 'SF' for s in specs)
    to_pd = kw.get('to_pd')
    if to_pd is not None:
        is_pd = any(to_pd) if isinstance(to_pd, list) else to_pd
    shape2 = shape if len(shape) == 2 else (shape[0] if shape else 1, 1)
    ix = cx = None
    if is_pd:
        ix = expected_index(specs, 0, rows or 'strict', shape2[0])
        cx = expected_index(specs, 1, cols or 'stack', shape2[1])
        if 'no' in (ix if isinstance(ix, str) else '', cx if isinstance(cx, str) else ''):
            h.check(exc is not None, 'conflicting labels are refused')
            return
    h.check(exc is None, 'raises %s' % exc)
    if exc is not None:
        return
    res, got_shape, gi, gc = out
    if len(specs) == 1:
        res = (res,)
    h.eq(tuple(got_shape), shape, 'shape')
    raw = kw.get('keep_raw', False)
    for k, (s, o) in enumerate(zip(specs, res)):
        keep = raw[k] if isinstance(raw, list) else raw
        if keep:
            flex(h, s, cells[k], objs[k], o, shape)
            continue
        h.eq(tuple(np.shape(o)), shape, 'operand %d: shape' % k)
        for p in itertools.product(*map(range, shape)):
            h.eq(get(o, p), source(s, cells[k], objs[k], shape, p), 'operand %d: cell' % k)
        pdk = to_pd[k] if isinstance(to_pd, list) else is_pd
        h.eq(isinstance(o, (pd.Series, pd.DataFrame)), bool(pdk), 'operand %d: pandas or array' % k)
        if not pdk:
            continue
        own = s[0] in 'SF'
        if ix is not None:
            h.eq(labels(o.index), ix, 'operand %d: index' % k)
        elif own:
            a = idx_of(s, 0)
            h.eq(labels(o.index), labels(a) if len(a) == shape2[0] else [repeated(l, shape2[0]) for l in labels(a)] if not isdef(a) else
                 [(None, list(range(shape2[0])))], 'operand %d: own index' % k)
        if isinstance(o, pd.DataFrame):
            if cx is not None:
                h.eq(labels(o.columns), cx, 'operand %d: columns' % k)
            elif own:
                a = idx_of(s, 1)
                h.eq(labels(o.columns), labels(a) if len(a) == shape2[1] else [repeated(l, shape2[1]) for l in labels(a)] if not isdef(a) else
                     [(None, list(range(shape2[1])))], 'operand %d: own columns' % k)
        elif cx is not None:
            h.eq(o.name, None if cx[0][1][0] == 0 else cx[0][1][0], 'operand %d: name' % k)
    if is_pd:
        for got, want in ((gi, ix), (gc, cx)):
            h.eq(None if got is None else labels(got if isinstance(got, pd.Index) else pd.Index(got)), want, 'labels reported')


def flex(h, s, cells, obj, raw, shape):
    """the raw operand selected flexibly at (i, col) is the broadcast cell"""
    from vectorbt.base import reshape_fns as r
    a = raw.values if hasattr(raw, 'values') else raw
    a = np.asarray(a) if not h.sym else a
    two = len(shape) == 2
    sh2 = shape if two else (shape[0] if shape else 1, 1)
    if np.ndim(a) == 0 and not isinstance(a, np.ndarray):
        a = np.asarray(a)
    fi, fc = r.flex_choose_i_and_col_nb(a, two)
    for p in itertools.product(*map(range, sh2)):
        want = source(s, cells, obj, shape, p if two else p[:len(shape)])
        h.eq(r.flex_select_nb(a, p[0], p[1], fi, fc, two), want, 'flexible selection')
        h.eq(r.flex_select_auto_nb(a, p[0], p[1], two), want, 'automatic flexible selection')


def to(h, a, b, pdflag=None):
    """broadcast_to: the second operand's shape and labels"""
    from vectorbt.base import reshape_fns as r
    A, ca = operand(h, 0, a)
    B, cb = operand(h, 1, b)
    out, exc = h.call(lambda: r.broadcast_to(A, B, to_pd=pdflag))
    is2d = b[0] in 'AF' or a[0] in 'AF'
    sb = shape_of(b, False)
    sa = shape_of(a, is2d)
    if bshape([sa, sb]) != sb:
        h.check(exc is not None, 'cannot be broadcast')
        return
    h.check(exc is None, 'raises %s' % exc)
    if exc is not None:
        return
    h.eq(tuple(np.shape(out)), sb, 'shape')
    for p in itertools.product(*map(range, sb)):
        h.eq(get(out, p), source(a, ca, A, sb, p), 'cell')
    ispd = pdflag if pdflag is not None else b[0] in 'SF'
    h.eq(isinstance(out, (pd.Series, pd.DataFrame)), ispd, 'pandas like the target')
    if b[0] in 'SF' and ispd:
        h.eq(labels(out.index), labels(idx_of(b, 0)), 'index of the target')
        if b[0] == 'F':
            h.eq(labels(out.columns), labels(idx_of(b, 1)), 'columns of the target')
    if b[0] in 'SF' and h.sym is not None and a[0] in 'SF':
        o2 = A.vbt.broadcast_to(B)
        h.eq([x for x in np.asarray(o2.values).flat], [x for x in np.asarray(np.broadcast_to(np.asarray(out), sb)).flat], 'accessor')


def axis_of(h, n, m):
    from vectorbt.base import reshape_fns as r
    B = cell_table(h, 'b', (n, m))
    for ax, k in ((0, n), (1, m)):
        v = h.floats('v%d' % ax, k, nan=False)
        h.eq(list(r.broadcast_to_axis_of(v, B, ax)), list(v), 'array along the axis')
        s = h.real('s%d' % ax)
        h.eq(list(r.broadcast_to_axis_of(s, B, ax)), [s] * k, 'scalar along the axis')
        h.eq(r.broadcast_to_axis_of(s, B[0], 1), s, 'missing axis gives a number')
    v = h.floats('w', 2, nan=False)
    out = r.broadcast_to_array_of(v, B)
    h.eq(tuple(np.shape(out)), (2, n, m), 'array of arrays')
    for p in itertools.product(range(2), range(n), range(m)):
        h.eq(out[p], v[p[0]], 'constant arrays')


def aligned(h, kind, n):
    """align_index / align_columns: shorter labels are matched to the longest multi-level ones by label, then broadcast"""
    from vectorbt.base import reshape_fns as r
    perm = h.choice('perm', list(itertools.permutations(range(n))))
    lab = ['x%d' % i for i in range(n)]
    reps = 2
    pos = [h.int('p%d' % k, 0, n - 1) for k in range(n * reps)] if kind == 'free' else [perm[k % n] if kind == 'tile' else perm[k // reps]
                                                                                         for k in range(n * reps)]
    big = pd.MultiIndex.from_arrays([['t%d' % (k // n) for k in range(n * reps)], [lab[p] for p in pos]], names=['top', 'ix'])
    small = pd.Index(lab, name='ix')
    a, b = cell_table(h, 'a', (n, n)), cell_table(h, 'b', (n * reps, n))
    A = h.df(a, index=small, columns=IDX['x'](n))
    B = h.df(b, index=big, columns=IDX['x'](n))
    out, exc = h.call(lambda: r.broadcast(A, B, align_index=True, index_from='stack'))
    h.check(exc is None, 'raises %s' % exc)
    if exc is None:
        for k in range(n * reps):
            h.eq(list(out[0].values[k]), list(a[pos[k]]), 'row with the same label')
            h.eq(list(out[1].values[k]), list(b[k]), 'the longest is kept')
    C, D = h.df(a, columns=small), h.df(b.T, columns=big)
    out, exc = h.call(lambda: r.broadcast(C, D, align_columns=True))
    h.check(exc is None, 'raises %s' % exc)
    if exc is None:
        for k in range(n * reps):
            h.eq([x for x in out[0].values[:, k]], [a[i, pos[k]] for i in range(n)], 'column with the same label')
            h.eq([x for x in out[1].values[:, k]], list(b[k]), 'the longest is kept')
        h.eq(labels(out[0].columns), labels(out[1].columns), 'same columns')


RNG = dict(size=(1, 5), price=(1, 10), fees=(0.01, 0.5), fixed_fees=(0.1, 2), slippage=(0.01, 0.5), max_size=(1, 5), size_granularity=(0.5, 1))
PARTS = dict(size_type=[0, 1, 3, 4], direction=[0, 2], lock_cash=[False, True], allow_partial=[True, False], log=[True, False])


def sim(h, which, par='size', engine='orders'):
    """a simulation fed an unbroadcast input equals the one fed the same input broadcast in full"""
    n, m = 2, 3
    close = h.floats2('close', (n, m), lo=1, hi=10, nan=False)
    shape = dict(scalar=(), row=(1, m), col=(n, 1), one=(1, 1), vec=(m,))[which]
    if par in RNG:
        lo, hi = RNG[par]
        kw = dict(lo=lo, hi=hi, nan=False)
        if par == 'size_granularity':
            v = {(): 0.5, (1, m): np.array([[0.5, 1.0, 0.25]]), (n, 1): np.array([[0.5], [1.0]]), (1, 1): np.array([[1.0]]),
                 (m,): np.array([1.0, 0.5, 0.25])}[shape]
        else:
            v = h.real('v', lo=lo, hi=hi) if shape == () else h.floats2('v', shape, **kw) if len(shape) == 2 else h.floats('v', m, **kw)
    else:
        opts = PARTS[par]
        a = np.empty(shape, dtype=np.bool_ if isinstance(opts[0], bool) else np.int64)
        for k, ix in enumerate(np.ndindex(*shape)):
            a[ix] = opts[k % len(opts)]
        v = a if shape else opts[1]
    full = np.empty((n, m), dtype=object if h.sym else np.float64) if par in RNG else np.empty((n, m), dtype=np.asarray(v).dtype)
    for i in range(n):
        for j in range(m):
            full[i, j] = v if shape == () else v[j] if len(shape) == 1 else v[i if shape[0] > 1 else 0, j if shape[1] > 1 else 0]
    if par in RNG and h.sym:
        full = h.array([list(r) for r in full])
    F = h.df(close, index=pd.RangeIndex(n), columns=['a', 'b', 'c'])
    cash = h.real('cash', gt=1000)
    P = dict(log=True) if par != 'log' else {}
    if par != 'size' and engine == 'orders':
        P['size'] = np.array([[2.0], [-1.0]])

    def run(x):
        k = dict(P)
        k[par] = x
        if engine == 'orders':
            return h.vbt.Portfolio.from_orders(F, init_cash=cash, **k)
        return h.vbt.Portfolio.from_signals(F, np.array([[True], [False]]), np.array([[False], [True]]), init_cash=cash,
                                            **(dict(k, size=k.get('size', 2.0))))
    p1, e1 = h.call(lambda: run(v))
    p2, e2 = h.call(lambda: run(full))
    h.eq(e1, e2, 'raises alike')
    if e1 or e2:
        return
    a, b = p1.order_records, p2.order_records
    h.eq(len(a), len(b), 'number of orders')
    if len(a) == len(b):
        for f in ('col', 'idx', 'size', 'price', 'fees', 'side'):
            h.eq(list(a[f]), list(b[f]), 'orders: ' + f)
    h.eq(len(p1.log_records), len(p2.log_records), 'number of logs')


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    S = [('s',), ('a', 1), ('a', 2), ('a', 3), ('A', 1, 3), ('A', 2, 1), ('A', 2, 3), ('S', 2, 'x', 'nm'), ('S', 2, 'def'), ('S', 1, 'u'),
         ('F', 2, 3, 'x', 'y'), ('F', 2, 1, 'x', 'u'), ('F', 1, 3, 'def', 'y'), ('F', 2, 3, 'def', 'def'), ('F', 2, 3, 'x', 'u')]
    for a, b in itertools.combinations_with_replacement(S, 2):
        t('bc', specs=[a, b])
    for a, b in ((S[10], S[7]), (S[7], S[10]), (S[10], S[14]), (S[4], S[10]), (S[0], S[11]), (S[12], S[13]), (S[5], S[12]), (S[7], S[8])):
        for rows, cols in (('keep', 'keep'), ('stack', 'stack'), ('reset', 'reset'), ('strict', 'strict'), ('reset', 'keep'), ('keep', 'reset')):
            t('bc', specs=[a, b], rows=rows, cols=cols)
        if b[0] in 'SF':
            t('bc', specs=[a, b], rows=1, cols=1)
        for kw in (dict(to_pd=False), dict(to_pd=[True, False]), dict(to_frame=True), dict(keep_raw=True), dict(keep_raw=[False, True])):
            t('bc', specs=[a, b], **kw)
    for kw in (dict(to_shape=(2, 3)), dict(to_shape=(3, 2)), dict(to_shape=(4, 3))):
        for a, b in ((S[0], S[4]), (S[5], S[0]), (S[7], S[11]), (S[12], S[0])):
            t('bc', specs=[a, b], rows='reset', cols='reset', **kw)
    for a, b in itertools.product([s for s in S if s[0] in 'saA'], repeat=2):
        t('bc', specs=[a, b], keep_raw=True)
    T = [(('F', 2, 2, 'x', 'y'), ('F', 2, 2, 'x', 'u'), ('F', 2, 2, 'x', 'w')), (('F', 2, 1, 'x', 'u'), ('F', 2, 2, 'x', 'y'), ('S', 2, 'x', 'nm')),
         (('s',), ('S', 2, 'x', 'nm'), ('F', 1, 2, 'def', 'y')), (('F', 2, 2, 'x', 'y'), ('F', 2, 2, 'y', 'y'), ('a', 2)),
         (('F', 2, 2, 'x', 'y'), ('F', 2, 2, 'u', 'w'), ('F', 2, 2, 'x', 'y')), (('F', 2, 2, 'xu', 'y'), ('F', 2, 2, 'x', 'xu'), ('s',)),
         (('F', 1, 2, 'u', 'y'), ('F', 3, 1, 'x', 'u'), ('A', 3, 2)), (('S', 3, 'x', 'n1'), ('S', 3, 'x', 'n2'), ('S', 3, 'x')),
         (('S', 3, 'x', 'n1'), ('S', 3, 'y', 'n1'), ('s',)), (('F', 2, 3, 'x', 'y'), ('F', 2, 3, 'x', 'w'), ('F', 2, 1, 'x', 'u'))]
    for sp in T:
        for rows, cols in (('stack', 'stack'), ('keep', 'stack'), ('strict', 'stack'), ('stack', 'keep')):
            t('bc', specs=list(sp), rows=rows, cols=cols)
    for sp in ([S[10], S[0]], [S[7], S[0]], [S[11], S[4]]):
        n = 2
        m = 3 if sp is not None and (sp[0][0] == 'F' or sp[1][0] == 'A') else 1
        t('bc', specs=sp, rows=['r%d' % i for i in range(n)], cols=['c%d' % i for i in range(m)])
    for a in S:
        for b in (S[6], S[10], S[7], S[3], S[11], S[13]):
            t('to', a=a, b=b)
    t('to', a=S[4], b=S[10], pdflag=False)
    t('axis_of', n=2, m=3)
    t('axis_of', n=3, m=1)
    for kind in ('tile', 'repeat', 'free'):
        t('aligned', kind=kind, n=2)
    t('aligned', kind='tile', n=3)
    t('aligned', kind='repeat', n=3)
    for w in ('scalar', 'row', 'col', 'one', 'vec'):
        for par in list(RNG) + list(PARTS):
            t('sim', which=w, par=par, w=3)
            if par not in ('size_type', 'direction') and (not q or w in ('row', 'col', 'vec')):
                t('sim', which=w, par=par, engine='signals', w=3)
    return out
