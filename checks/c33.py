"""C33: selecting columns, rows or groups of an object and computing equals computing and then selecting."""
import itertools
import math
import numpy as np
import pandas as pd
from symx.harness import isnan
from checks import c08, c09
from checks.c04 import GROUPS as G4

sym_setup = c08.sym_setup
PROPERTY = 'C33'
BOUNDS = dict(columns='3 and 4', rows='3', groups='none, or every listed grouping of 3-4 columns into 1 to 4 groups', selections='single positions, permutations, '
              'repetitions, slices, labels, masks; at the level of the wrapper: every list of up to 3 rows and columns / groups (thorough 4)',
              contents='sizes, prices, fees, close, cash, returns, record values: all reals (close and returns also NaN)', metrics='listed per object')
ASSUMPTIONS = ['a group is selected at most once (two copies of one group share their label)', 'comparison tolerance idealised to 0']
BUDGET = {'quick': 300, 'thorough': 800}
VALIDATE_S = dict(quick=14, thorough=60)
GR = {'a|b|c': (0, 1, 2), 'ab|c': (0, 0, 1), 'a|bc': (0, 1, 1), 
      'a|bc|d': (0, 1, 1, 2), 'ab|c|d': (0, 0, 1, 2), 'a|b|cd': (0, 1, 2, 2), 'ab|cd': (0, 0, 1, 1), 'a|b|c|d': (0, 1, 2, 3)}
LAB = ['g0', 'g1', 'g2', 'g3']
c08.LAY['four'] = [(0, 0, 1), (1, 1, 0), (2, 0, 1), (3, 1, 1)]
c08.LAY['dense'] = [(0, 0, 1), (0, 2, 0), (1, 0, 0), (2, 1, 1)]
c08.LAY['sparse'] = [(1, 0, 1), (1, 1, 0), (3, 0, 0), (3, 2, 1)]
# name -> (kind, key, positions); labels are put in from the axis
SEL3 = {'first': ('iloc', 0), 'last': ('iloc', 2), 'neg': ('iloc', -2), 'perm': ('iloc', [2, 0, 1]), 'two': ('iloc', [2, 0]), 'slice': ('iloc', slice(1, 3)),
        'step': ('iloc', slice(None, None, 2)), 'rev': ('iloc', slice(None, None, -1)), 'all': ('iloc', slice(None)), 'list1': ('iloc', [1]),
        'mask': ('iloc', [True, False, True]), 'item': ('item', 1), 'items': ('item', [2, 1]), 'loc': ('loc', [1, 2]), 'loc1': ('loc', 2), 'locs': ('loc', 'from1')}
DUP = {'dup': ('iloc', [1, 1, 0]), 'duploc': ('loc', [2, 0, 2])}


def resolve(sel, labels):
    """-> (function of an object, positions or one position)"""
    kind, key = {**SEL3, **DUP}[sel]
    n = len(labels)
    if kind == 'iloc':
        if isinstance(key, list) and key and isinstance(key[0], bool):
            key = (key + [True] * n)[:n]
            pos = [i for i in range(n) if key[i]]
        elif isinstance(key, slice):
            pos = list(range(n))[key]
        elif isinstance(key, list):
            pos = [k for k in key if k < n]
            key = pos
        else:
            key = key if -n <= key < n else 0
            pos = range(n)[key]
        return lambda o: o.iloc[key], pos
    if key == 'from1':
        return lambda o: o.loc[labels[1 % n]:], list(range(1 % n, n))
    pos = [k for k in key if k < n] if isinstance(key, list) else (key if key < n else 0)
    lab = [labels[k] for k in pos] if isinstance(pos, list) else labels[pos]
    return (lambda o: o[lab]) if kind == 'item' else (lambda o: o.loc[lab]), pos


def mat(x, n):
    x = x.to_numpy() if hasattr(x, 'to_numpy') else np.asarray(x)
    return [list(r) for r in x.reshape(n, -1)]


def row(x):
    return list(x.to_numpy()) if isinstance(x, pd.Series) else [x]


def cols_of(x):
    return list(x.columns) if isinstance(x, pd.DataFrame) else None


def commute(h, name, whole, part, pos, n=None):
    """whole / part: results of the metric; n rows (None: reduced to one value per column)"""
    P = pos if isinstance(pos, list) else [pos]
    if n is None:
        a, b = row(whole), row(part)
        h.eq(b, [a[p] for p in P], name)
        if isinstance(part, pd.Series) and isinstance(whole, pd.Series):
            h.eq(list(part.index), [whole.index[p] for p in P], name + ': labels')
        return
    a, b = mat(whole, n), mat(part, n)
    h.eq(b, [[r[p] for p in P] for r in a], name)
    if isinstance(part, pd.DataFrame) and isinstance(whole, pd.DataFrame):
        h.eq(list(part.columns), [whole.columns[p] for p in P], name + ': labels')
    elif isinstance(part, pd.Series) and isinstance(whole, pd.DataFrame):
        h.eq(part.name, whole.columns[P[0]], name + ': label')
    h.eq(list(part.index), list(whole.index), name + ': index')


def recs_of(r, pos, drop=('id',)):
    """records of the selected columns, as value tuples column by column"""
    v = r.values
    P = pos if isinstance(pos, list) else [pos]
    out = []
    for newc, c in enumerate(P):
        for k in range(len(v)):
            if int(v['col'][k]) == c:
                out.append([newc] + [v[f][k] for f in v.dtype.names if f not in ('col',) + tuple(drop)])
    return out


def same_recs(h, name, whole, part, pos, drop=('id', 'parent_id')):
    """the whole's records of the selected columns, in their order, with remapped column"""
    v = part.values
    got = [[int(v['col'][k])] + [v[f][k] for f in v.dtype.names if f not in ('col',) + tuple(drop)] for k in range(len(v))]
    want = recs_of(whole, pos, drop)
    h.eq(len(got), len(want), name + ': number of records')
    if len(got) == len(want):
        h.eq(got, want, name + ': records')


WIDE = {
    'assets': lambda p, k: p.assets(), 'asset_flow': lambda p, k: p.asset_flow(direction='shortonly'),
    'cash_flow': lambda p, k: p.cash_flow(**k), 'free': lambda p, k: p.cash(free=True, **k), 'cash': lambda p, k: p.cash(**k),
    'value': lambda p, k: p.value(**k), 'asset_value': lambda p, k: p.asset_value(**k), 'returns': lambda p, k: p.returns(**k),
    'benchmark': lambda p, k: p.benchmark_value(**k), 'exposure': lambda p, k: p.gross_exposure(**k), 'mask': lambda p, k: p.position_mask(**k),
}
WIDE_SETS = {'flows': ('assets', 'asset_flow', 'cash_flow', 'free', 'cash', 'mask'), 'value': ('value', 'asset_value', 'benchmark'), 'returns': ('returns',),
             'exposure': ('exposure',)}
NARROW = {
    'init': lambda p, k: p.get_init_cash(**k), 'total_return': lambda p, k: p.total_return(**k), 'profit': lambda p, k: p.total_profit(**k),
    'coverage': lambda p, k: p.position_coverage(**k), 'bench': lambda p, k: p.total_benchmark_return(**k),
    'orders': lambda p, k: p.get_orders(**k).count(), 'trades': lambda p, k: p.get_trades(**k).count(),
    'pnl': lambda p, k: p.get_trades(**k).pnl.sum(), 'open': lambda p, k: p.get_positions(**k).open.count(),
    'fees': lambda p, k: p.get_orders(**k).fees.sum(),
}
NARROW_SETS = {'narrow': ('init', 'total_return', 'profit', 'coverage', 'bench', 'orders', 'fees'), 'trades': ('trades', 'pnl', 'open')}
PERCOL = ('assets', 'asset_flow')


def portfolio(h, lay, ncol=3, groups=None, sharing=False, sel='perm', by=False, mode='num', what='wide', nanclose=False):
    """by: also compute ungrouped"""
    n = 3
    gb = GR[groups] if groups else None
    own = c08.glist(gb, ncol) if gb else [[c] for c in range(ncol)]
    nc = len(own) if sharing else ncol
    lim = 10 if what in ('returns', 'exposure', 'narrow', 'trades') else None
    if mode == 'num':
        icash = h.array([h.real('cash%d' % k, **(dict(gt=0) if lim is None else dict(lo=1000))) for k in range(nc)])
    else:
        from vectorbt.portfolio.enums import InitCashMode
        icash = InitCashMode.Auto
    labels = [LAB[g] for g in gb] if gb else None
    pf, recs, close = c08.build(h, lay, n, ncol, labels, sharing, icash, nanclose, True, lim=lim)
    axis = [LAB[k] for k in range(len(own))] if gb else list('abcd')[:ncol]
    f, pos = resolve(sel, axis)
    part = f(pf)
    h.check(isinstance(part, type(pf)), 'the selection is a portfolio')
    P = pos if isinstance(pos, list) else [pos]
    colpos = [c for p in P for c in own[p]]
    if not gb and not isinstance(pos, list):
        colpos = pos
    kw = dict(group_by=False) if by else {}
    upos = colpos if by else pos
    if what in WIDE_SETS:
        for name, m in [(k, WIDE[k]) for k in WIDE_SETS[what]]:
            q = colpos if name in PERCOL else upos
            commute(h, name, m(pf, kw), m(part, kw), q, n)
    elif what in NARROW_SETS:
        for name, m in [(k, NARROW[k]) for k in NARROW_SETS[what]]:
            if sharing and by and name == 'init':
                continue
            commute(h, name, m(pf, kw), m(part, kw), upos)
    else:
        same_recs(h, 'orders', pf.orders, part.orders, colpos, drop=())
        same_recs(h, 'entry trades', pf.entry_trades, part.entry_trades, colpos)
        same_recs(h, 'exit trades', pf.exit_trades, part.exit_trades, colpos)
        same_recs(h, 'positions', pf.positions, part.positions, colpos)
        same_recs(h, 'logs', pf.logs, part.logs, colpos, drop=())
        same_recs(h, 'selected orders', pf.orders, f(pf.orders), colpos, drop=())
        same_recs(h, 'selected trades', pf.trades, f(pf.trades), colpos, drop=())
        commute(h, 'close', pf.close, f(pf.trades).close, colpos, n)
        h.eq([x for x in part.close.to_numpy().reshape(-1)], [close[i, c] for i in range(n) for c in (colpos if isinstance(colpos, list) else [colpos])], 'close')
        h.eq(list(part.wrapper.columns), ['abcd'[c] for c in (colpos if isinstance(colpos, list) else [colpos])], 'columns')
        if gb:
            h.eq(list(part.wrapper.grouper.get_columns()), [axis[p] for p in P], 'groups')
            h.eq(list(part.wrapper.grouper.get_group_lens()), [len(own[p]) for p in P], 'group sizes')


def simulated(h, groups, sel, log=True):
    """simulated with shared cash: the selected groups are the simulation of these groups alone"""
    gb = GR[groups]
    n, ncol = 2, len(gb)
    own = c08.glist(gb, ncol)
    size = h.floats2('size', (n, ncol), lo=1, hi=3)
    price = h.floats2('price', (n, ncol), lo=1, hi=10)
    cash = h.floats('cash', len(own), lo=1000)
    cols = list('abcd')[:ncol]
    labels = np.array([LAB[g] for g in gb])
    F = lambda a, c: h.df(np.asarray(a)[:, c], columns=[cols[k] for k in c])  # noqa: E731

    def sim(c, gs):
        return h.vbt.Portfolio.from_orders(F(price, c), F(size, c), group_by=labels[c], cash_sharing=True, init_cash=h.array([cash[g] for g in gs]), log=log,
                                           call_seq='reversed', attach_call_seq=True, freq='D', fees=0.01)
    whole = sim(list(range(ncol)), list(range(len(own))))
    f, pos = resolve(sel, [LAB[k] for k in range(len(own))])
    P = pos if isinstance(pos, list) else [pos]
    colpos = [c for p in P for c in own[p]]
    part = f(whole)
    for name in ('value', 'cash', 'returns'):
        commute(h, name, getattr(whole, name)(), getattr(part, name)(), pos, n)
        kw = dict(group_by=False, in_sim_order=True)
        commute(h, name + ' in simulation order', getattr(whole, name)(**kw), getattr(part, name)(**kw), colpos, n)
    if P == sorted(P):
        alone = sim(colpos, P)
        h.eq(mat(part.value(), n), mat(alone.value(), n), 'value of the groups alone')
        h.eq(mat(part.call_seq, n), mat(alone.call_seq, n), 'call sequence of the groups alone')
    same_recs(h, 'logs', whole.logs, part.logs, colpos, drop=())


def wrapper(h, n, ncol, groups=None, rows=True, kr=2, kc=2, select=True):
    """every list of rows and columns (or groups): meta, labels, grouping"""
    gb = GR[groups] if groups else None
    labels = [LAB[g] for g in gb] if gb else None
    own = c08.glist(gb, ncol) if gb else [[c] for c in range(ncol)]
    byg = gb is not None and select
    units = len(own) if byg else ncol
    # 1..kc positions; one position may also be given as a scalar
    m = h.int('m', 0, kc)
    C = [h.int('c%d' % i, 0, units - 1) for i in range(max(m, 1))]
    if byg:
        h.assume(len(set(C)) == len(C))
    w = h.vbt.ArrayWrapper(pd.Index(['r%d' % i for i in range(n)]), pd.Index(list('abcd')[:ncol]), 2, group_select=select,
                           **(dict(group_by=pd.Index(labels, name='G')) if gb else {}))
    ck = C if m else C[0]
    if rows:
        k = h.int('k', 1, kr)
        R = [h.int('r%d' % i, 0, n - 1) for i in range(k)]
        h.assume(m > 0 or len(set(R)) > 1)  # documented: a single row of a single column is refused
        new, ri, gi, ci = w.indexing_func_meta(lambda o: o.iloc[R, ck])
        h.eq(list(ri), R, 'row positions')
    else:
        R = list(range(n))
        new, ri, gi, ci = w.indexing_func_meta(lambda o: o.iloc[ck], column_only_select=True)
    want = [c for u in C for c in own[u]] if byg else C
    h.eq(list(np.atleast_1d(gi)), C, 'group positions')
    h.eq(list(np.atleast_1d(ci)), want, 'column positions')
    h.eq(list(new.index), ['r%d' % i for i in R], 'index')
    h.eq(list(new.columns), ['abcd'[c] for c in want], 'columns')
    h.eq(new.ndim, 2 if m or len(want) > 1 else 1, 'dimensions')
    if gb:
        h.eq([str(x) for x in new.grouper.group_by], [labels[c] for c in want], 'group of every column')
        if byg:
            h.eq(list(new.grouper.get_columns()), [LAB[u] for u in C], 'groups')
            h.eq(new.get_ndim(), 2 if m else 1, 'dimensions when grouped')
    # wrapping: values at their labels
    a = h.floats2('a', (len(R), len(want)), nan=True)
    out = new.wrap(a if new.ndim == 2 else h.array([a[i, 0] for i in range(len(R))]), group_by=False)
    h.eq(mat(out, len(R)), [list(r) for r in a], 'wrapped values')


def accessor(h, groups=None, sel='perm', rowsel=None, kind='generic', nan=True):
    n, ncol = 3, 3
    gb = GR[groups] if groups else None
    x = h.floats2('x', (n, ncol), nan=nan, **({} if kind == 'generic' else dict(lo=-0.5, hi=1)))
    df = h.df(x, index=list('uvw'), columns=list('abc'))
    kw = dict(group_by=np.array([LAB[g] for g in gb])) if gb else {}
    own = c08.glist(gb, ncol) if gb else [[c] for c in range(ncol)]
    if kind == 'generic':
        acc = df.vbt(freq='D', **kw)
    else:
        b = h.floats2('b', (n, ncol), nan=False, lo=-0.5, hi=1)
        bdf = h.df(b, index=list('uvw'), columns=list('abc'))
        acc = df.vbt.returns(freq='D', benchmark_rets=bdf, **kw)
    axis = LAB[:len(own)] if gb else list('abc')
    f, pos = resolve(sel, axis)
    R = list(range(n)) if rowsel is None else rowsel
    P = pos if isinstance(pos, list) else [pos]
    if rowsel is None:
        key = (slice(None), pos)
    else:
        key = (rowsel, pos)
    part = acc.iloc[key]
    want = [c for p in P for c in own[p]]
    h.eq(mat(part.obj, len(R)), [[x[i, c] for c in want] for i in R], 'values')
    sub = h.df(h.array([[x[i, c] for c in want] for i in R]), index=['uvw'[i] for i in R], columns=['abc'[c] for c in want])
    gkw = dict(group_by=np.array([LAB[gb[c]] for c in want])) if gb else {}
    if kind == 'generic':
        ref = sub.vbt(freq='D', **gkw)
        for name in ('min', 'max', 'sum', 'count', 'mean'):
            h.eq(row(getattr(part, name)()), row(getattr(ref, name)()), name)
    else:
        h.eq(mat(part.benchmark_rets, len(R)), [[b[i, c] for c in want] for i in R], 'benchmark')
        ref = sub.vbt.returns(freq='D', benchmark_rets=h.df(h.array([[b[i, c] for c in want] for i in R]), index=['uvw'[i] for i in R],
                                                            columns=['abc'[c] for c in want]), **gkw)
        h.eq(row(part.total()), row(ref.total()), 'total')
        h.eq(mat(part.cumulative(), len(R)), mat(ref.cumulative(), len(R)), 'cumulative')
        if sel == 'first':
            h.eq(row(part.max_drawdown()), row(ref.max_drawdown()), 'drawdown')
        h.eq(row(part.beta()), row(ref.beta()), 'beta')


def series_records(h, what, sel='perm', groups=None):
    """drawdowns and ranges built from a series"""
    n, ncol = 3, 3
    gb = GR[groups] if groups else None
    x = h.floats2('x', (n, ncol), nan=what == 'ranges', gt=0)
    df = h.df(x, index=pd.date_range('2020-01-01', periods=n), columns=list('abc'))
    kw = dict(wrapper_kwargs=dict(group_by=np.array([LAB[g] for g in gb]))) if gb else {}
    own = c08.glist(gb, ncol) if gb else [[c] for c in range(ncol)]
    cls = h.vbt.Drawdowns if what == 'drawdowns' else h.vbt.Ranges
    o = cls.from_ts(df, **kw)
    f, pos = resolve(sel, LAB[:len(own)] if gb else list('abc'))
    P = pos if isinstance(pos, list) else [pos]
    want = [c for p in P for c in own[p]] if gb or isinstance(pos, list) else pos
    part = f(o)
    same_recs(h, what, o, part, want, drop=())
    h.eq(mat(part.ts, n), [[x[i, c] for c in (want if isinstance(want, list) else [want])] for i in range(n)], 'series')
    W = want if isinstance(want, list) else [want]
    fresh = cls.from_ts(df.iloc[:, W], **(dict(wrapper_kwargs=dict(group_by=np.array([LAB[gb[c]] for c in W]))) if gb else {}))
    commute(h, 'count', o.count(), part.count(), pos)
    h.eq(row(part.count()), row(fresh.count()), 'count of the selected series')
    h.eq(row(part.duration.sum()), row(fresh.duration.sum()), 'durations')
    if what == 'drawdowns':
        h.eq(row(part.max_drawdown()), row(fresh.max_drawdown()), 'max drawdown')
        h.eq(row(part.active_drawdown() if not gb else part.avg_drawdown()), row(fresh.active_drawdown() if not gb else fresh.avg_drawdown()), 'drawdown')


def mapped(h, sel='perm', groups='ab|c', m=3):
    """mapped arrays and records with symbolic columns under grouping"""
    from checks import c22
    gb = GR[groups] if groups else None
    ncol = 3
    r, spec = c22.mk(h, m, ncol, sort=False, ids='pos', idxs=0, nan=True, group_by=[LAB[g] for g in gb] if gb else None)
    own = c08.glist(gb, ncol) if gb else [[c] for c in range(ncol)]
    f, pos = resolve(sel, LAB[:len(own)] if gb else list('abc'))
    P = pos if isinstance(pos, list) else [pos]
    want = [c for p in P for c in own[p]]
    mp = r.map_field('val')
    part = f(mp)
    exp = [(k, s[3]) for k, c in enumerate(want) for s in spec if s[1] == c]
    h.eq(list(part.col_arr), [e[0] for e in exp], 'columns of the mapped values')
    h.eq(list(part.values), [e[1] for e in exp], 'mapped values')
    for name in ('count', 'sum', 'min', 'max'):
        commute(h, name, getattr(mp, name)(), getattr(part, name)(), pos)
    pr = f(r)
    same_recs(h, 'records', r, pr, want, drop=())
    commute(h, 'count of records', r.count(), pr.count(), pos)
    commute(h, 'count ungrouped', r.count(group_by=False), pr.count(group_by=False), want if isinstance(pos, list) or len(want) > 1 else want[0])


def indicator(h, kind='ma', sel='perm', rowsel=None, twocol=True):
    n = 3
    ncol = 2 if twocol else 1
    x = h.floats2('x', (n, ncol), nan=False)
    obj = h.df(x, index=list('uvw'), columns=list('ab')[:ncol]) if twocol else h.sr(h.array([x[i, 0] for i in range(n)]), index=list('uvw'), name='a')
    if kind == 'ma':
        ind = h.vbt.MA.run(obj, [1, 2], hide_params=['ewm'])
        outs, loc, vals = ('ma', 'close'), 'window_loc', [1, 2]
    else:
        def f(x, p, q):
            return x * p + q, x - q
        F = h.vbt.IndicatorFactory(class_name='T', short_name='t', input_names=['x'], param_names=['p', 'q'], output_names=['o1', 'o2']).from_apply_func(
            f, numba_loop=False, use_numba=False) if False else None
        F = h.vbt.IndicatorFactory(class_name='T', short_name='t', input_names=['x'], param_names=['p', 'q'], output_names=['o1', 'o2']).from_apply_func(h.njit(f))
        ind = F.run(obj, p=[2, 3], q=[5, 7])
        outs, loc, vals = ('o1', 'o2', 'x'), 'p_loc', [2, 3]
    tot = 2 * ncol
    axis = list(ind.wrapper.columns)
    base = {o: getattr(ind, o) for o in outs}
    if sel == 'param':
        for k, v in enumerate(vals):
            part = getattr(ind, loc)[v]
            pos = list(range(k * ncol, (k + 1) * ncol))
            for o in outs:
                h.eq(mat(getattr(part, o), n), [[r[p] for p in pos] for r in mat(base[o], n)], '%s of one parameter' % o)
            part = getattr(ind, loc)[vals[::-1]]
            pos = [p for q in (1, 0) for p in range(q * ncol, (q + 1) * ncol)]
            for o in outs:
                h.eq(mat(getattr(part, o), n), [[r[p] for p in pos] for r in mat(base[o], n)], '%s of both parameters' % o)
                h.eq(cols_of(getattr(part, o)), [cols_of(base['ma' if kind == 'ma' else 'o1'])[p] for p in pos], 'labels')
        if kind != 'ma':
            part = ind.tuple_loc[(2, 5)]
            for o in outs:
                h.eq(mat(getattr(part, o), n), [[r[p] for p in range(ncol)] for r in mat(base[o], n)], '%s of one tuple' % o)
        return
    f, pos = resolve(sel, axis)
    if isinstance(pos, list):
        pos = [p for p in pos]
    R = list(range(n)) if rowsel is None else rowsel
    part = ind.iloc[R, pos] if rowsel is not None else ind.iloc[:, pos]
    P = pos if isinstance(pos, list) else [pos]
    for o in outs:
        h.eq(mat(getattr(part, o), len(R)), [[mat(base[o], n)[i][p] for p in P] for i in R], o)
    if isinstance(pos, list):
        again = part.iloc[:, [len(P) - 1]]
        for o in outs:
            h.eq(mat(getattr(again, o), len(R)), [[mat(base[o], n)[i][P[-1]]] for i in R], o + ' selected twice')
        h.eq(cols_of(getattr(part, outs[0])), [axis[p] for p in P], 'labels')
    a = part.ma_above(1.5) if kind == 'ma' else part.o1_above(1.5)
    b = ind.ma_above(1.5) if kind == 'ma' else ind.o1_above(1.5)
    h.eq(mat(a, len(R)), [[mat(b, n)[i][p] for p in P] for i in R], 'comparison')


def chain(h, groups=None, lay='four', sharing=False):
    """selecting twice equals selecting once by the composed positions"""
    ncol = 4 if lay in ('four', 'sparse') else 3
    gb = GR[groups] if groups else None
    own = c08.glist(gb, ncol) if gb else [[c] for c in range(ncol)]
    u = len(own)
    icash = h.array([h.real('cash%d' % k, gt=0) for k in range(u if sharing else ncol)])
    pf, recs, close = c08.build(h, lay, 3, ncol, [LAB[g] for g in gb] if gb else None, sharing, icash, False, True)
    perm = h.choice('perm', list(itertools.permutations(range(u), min(u, 3))))
    sub = h.choice('sub', list(itertools.permutations(range(len(perm)), min(len(perm), 2))))
    a = pf.iloc[list(perm)].iloc[list(sub)]
    b = [perm[k] for k in sub]
    commute(h, 'value', pf.value(), a.value(), b, 3)
    commute(h, 'init cash', pf.init_cash, a.init_cash, b)
    commute(h, 'orders', pf.orders.count(), a.orders.count(), b)
    one = a.iloc[1] if len(b) > 1 else a.iloc[0]
    commute(h, 'value of one', pf.value(), one.value(), b[1] if len(b) > 1 else b[0], 3)


def regrouped(h, old, new, sharing=False):
    """regrouping an object gives the object with the new groups: every metric is the metric of these groups (and refused under shared cash)"""
    n, ncol = 3, 3
    gb = GR[old] if old else None
    own = c08.glist(gb, ncol) if gb else [[c] for c in range(ncol)]
    icash = h.array([h.real('cash%d' % k, lo=1000) for k in range(len(own) if sharing else ncol)])
    pf, recs, close = c08.build(h, 'dense', n, ncol, [LAB[g] for g in gb] if gb else None, sharing, icash, False, True, lim=10)
    key = np.array([LAB[g] for g in GR[new]]) if new else False
    if sharing:
        same = new == old
        p, exc = h.call(lambda: pf.regroup(key))
        h.eq(exc, None if same else 'ValueError', 'regrouping under shared cash')
        return
    p, exc = h.call(lambda: pf.regroup(key))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    groups = c08.glist(GR[new], ncol) if new else [[c] for c in range(ncol)]
    pos = list(range(len(groups)))
    h.eq(list(p.wrapper.get_columns()), [LAB[g] for g in range(len(groups))] if new else list('abc'), 'groups')
    for name in ('cash', 'value', 'cash_flow', 'asset_value'):
        commute(h, name, getattr(pf, name)(group_by=key), getattr(p, name)(), pos, n)
    for name in ('init', 'profit', 'fees', 'orders'):
        commute(h, name, NARROW[name](pf, dict(group_by=key)), NARROW[name](p, {}), pos)
    o, a = pf.orders.regroup(key), pf.orders
    commute(h, 'fees of the regrouped orders', a.fees.sum(group_by=key), o.fees.sum(), pos)
    commute(h, 'mapped array', a.fees.sum(group_by=key), a.fees.regroup(key).sum(), pos)
    fees = [a.fees.sum(group_by=False).to_numpy()[c] for c in range(ncol)]
    h.eq(list(np.asarray(o.fees.sum()).reshape(-1)), [sum([fees[c] for c in g], 0.0) for g in groups], 'fees add up')
    v = pf.value(group_by=False).to_numpy()
    h.eq(mat(p.value(), n), [[sum([v[i, c] for c in g], 0.0) for g in groups] for i in range(n)], 'values add up')
    one = p.select_one(LAB[1] if new else 'b')
    commute(h, 'one', p.value(), one.value(), 1, n)
    r, exc = h.call(lambda: p.select_one('zz'))
    h.eq(exc, 'KeyError', 'an unknown one is refused')
    r, exc = h.call(lambda: p.select_one())
    h.eq(exc, 'TypeError', 'more than one is refused')


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))

    def wide(sets=tuple(WIDE_SETS), **cfg):
        for s in sets:
            t('portfolio', what=s, w=4, **cfg)
    for sel in list(SEL3) + list(DUP):
        t('portfolio', lay='dense', sel=sel, what='recs')
        if sel in ('first', 'perm', 'slice', 'items', 'loc1', 'dup', 'mask') or not q:
            wide(lay='dense', sel=sel)
            t('portfolio', lay='dense', sel=sel, what='narrow', w=3)
            if sel in ('first', 'perm', 'dup') or not q:
                t('portfolio', lay='dense', sel=sel, what='trades', w=3)
    wide(lay='dense', sel='two', mode='auto', sets=('flows', 'value'))
    for gi, (g, gb) in enumerate(GR.items()):
        ncol = len(gb)
        lay = 'dense' if ncol == 3 else ('four', 'sparse')[gi % 2]
        ng = len(set(gb))
        for sel in ('first', 'two', 'all', 'rev', 'loc1') if ng < 3 else ('first', 'last', 'perm', 'rev', 'all', 'two', 'slice', 'mask', 'items', 'loc1', 'step'):
            if not q or lay != 'sparse' or sel == ('last', 'mask')[gi % 4 // 2]:
                t('portfolio', lay=lay, ncol=ncol, groups=g, sel=sel, what='recs', w=9 if lay == 'sparse' else 1)
            few = (('first', 'rev') if ng < 3 else ('perm', 'all', 'last'))
            if sel in few or not q:
                for sharing in (False, True):
                    wide(lay=lay, ncol=ncol, groups=g, sharing=sharing, sel=sel)
                    t('portfolio', lay=lay, ncol=ncol, groups=g, sharing=sharing, sel=sel, what='narrow', w=3)
                    if not q or (sel in ('perm', 'rev') and not sharing and lay == 'four'):
                        t('portfolio', lay=lay, ncol=ncol, groups=g, sharing=sharing, sel=sel, what='trades', w=8)
            if not q or (sel in ('perm', 'rev') and gi % 2):
                wide(lay=lay, ncol=ncol, groups=g, sel=sel, by=True)
                t('portfolio', lay=lay, ncol=ncol, groups=g, sel=sel, what='narrow', by=True, w=3)
    wide(sets=('value',), lay='bs' if q else 'dense', ncol=2 if q else 3, sel='rev', nanclose=True)
    for g in ('a|bc|d', 'ab|c', 'a|b|c') if q else GR:
        for sel in ('first', 'all', 'perm') if g != 'ab|c' else ('first', 'rev'):
            t('simulated', groups=g, sel=sel, w=5)
    for g in (None, 'ab|c', 'a|b|c'):
        t('wrapper', n=2, ncol=3, groups=g, w=3)
        t('wrapper', n=2, ncol=3, groups=g, rows=False, kc=3, w=3)
    for g in ('a|bc|d', 'ab|c|d', 'a|b|cd', 'a|b|c|d'):
        t('wrapper', n=2, ncol=4, groups=g, rows=False, kc=3 if q else 4, w=3)
        t('wrapper', n=2, ncol=4, groups=g, kr=1, kc=3, w=4)
    t('wrapper', n=2, ncol=3, groups='ab|c', rows=False, kc=3, select=False, w=3)
    t('wrapper', n=3 if not q else 2, ncol=3, groups='a|bc', select=False, w=3)
    for kind in ('generic', 'returns'):
        nan = kind == 'generic'
        for sel in ('first', 'perm', 'dup', 'slice'):
            t('accessor', sel=sel, kind=kind, nan=nan and sel != 'dup', w=2)
            t('accessor', sel=sel, rowsel=[2, 0], kind=kind, nan=nan, w=2)
        for g in ('ab|c', 'a|b|c'):
            if kind == 'generic':
                for sel in ('first', 'perm' if g == 'a|b|c' else 'rev'):
                    t('accessor', groups=g, sel=sel, kind=kind, nan=False, w=2)
                    t('accessor', groups=g, sel=sel, rowsel=[1, 2], kind=kind, nan=False, w=2)
    for what in ('drawdowns', 'ranges'):
        for sel in ('first', 'perm', 'dup', 'loc1'):
            t('series_records', what=what, sel=sel, w=5)
        t('series_records', what=what, sel='rev', groups='ab|c', w=5)
        t('series_records', what=what, sel='perm', groups='a|b|c', w=5)
    for g in (None, 'ab|c', 'a|bc', 'a|b|c'):
        for sel in ('first', 'last', 'rev', 'all', 'two'):
            t('mapped', sel=sel, groups=g, m=3, w=3)
    for kind in ('ma', 'custom'):
        for sel in ('first', 'perm', 'dup', 'slice', 'param'):
            t('indicator', kind=kind, sel=sel, w=2)
            if sel not in ('param',):
                t('indicator', kind=kind, sel=sel, rowsel=[0, 2], w=2)
        t('indicator', kind=kind, sel='param', twocol=False, w=2)
        t('indicator', kind=kind, sel='first', twocol=False, w=2)
    for old in (None, 'a|bc', 'ab|c'):
        for new in (None, 'a|bc', 'ab|c'):
            if old != new:
                t('regrouped', old=old, new=new)
    for new in (None, 'a|bc', 'ab|c'):
        t('regrouped', old='ab|c', new=new, sharing=True)
    t('chain')
    for g in ('a|bc|d', 'ab|c|d', 'a|b|c|d'):
        t('chain', groups=g)
        t('chain', groups=g, sharing=True)
    t('chain', groups='a|b|c', lay='dense', sharing=True)
    return out
