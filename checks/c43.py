"""C43: figures show exactly the data they are drawn from: traces, markers, hover values, zones and labels of the real plotly figures."""
import math
import re
import numpy as np
import pandas as pd
from symx.harness import isnan, and_, not_
from checks import c08

PROPERTY = 'C43'
BUDGET = {'quick': 200, 'thorough': 700}
VALIDATE = dict(quick=12, thorough=40)
VALIDATE_S = dict(quick=40, thorough=120)
BOUNDS = dict(rows='2-4', columns='up to 3', records='up to 3 per figure in listed arrangements of columns, rows, sides, directions and states',
              numbers='all reals of their range (prices, sizes, fees, PnL, returns, labels of cells are concrete); also NaN for plain series, '
              'histograms, heatmaps and indicators')
ASSUMPTIONS = ['what a browser makes of a figure is plotly\'s; colours, sizes, opacities, widths and layout beyond axis labels are not judged '
               '(colours that carry meaning, as of volume bars and MACD histograms, are)']


def sym_setup(vbt):
    """plotly takes numbers only; it must let symbolic ones pass unchanged"""
    from symx.core import is_sym
    import _plotly_utils.basevalidators as bv
    c08.sym_setup(vbt)
    for cls in (bv.NumberValidator, bv.AngleValidator, bv.ColorValidator, bv.DataArrayValidator, bv.AnyValidator):
        def coerce(self, v, *args, _old=cls.validate_coerce, **kwargs):
            if is_sym(v):
                return v
            if isinstance(v, np.ndarray) and v.dtype == object and any(is_sym(x) or isinstance(x, float) for x in v.ravel()):
                return v
            return _old(self, v, *args, **kwargs)
        cls.validate_coerce = coerce


# ---- reading figures ----

def lab(v):
    if isinstance(v, (np.datetime64, pd.Timestamp)) or type(v).__name__ == 'datetime':
        return str(pd.Timestamp(v))
    if isinstance(v, (np.integer, np.floating, np.str_)):
        v = v.item()
    return v


def seq(v):
    if v is None:
        return None
    if hasattr(v, 'dtype') and not isinstance(v, np.ndarray):
        v = np.asarray(v, dtype=object) if v.dtype == object else np.asarray(v)
    return [v[i] for i in range(len(v))]


def labs(v):
    return [lab(x) for x in seq(v)]


def num(v):
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            return v
    return v


ITEM = re.compile(r'^(.*?): %\{(x|y|z|customdata)(?:\[(\d+)\])?(?::[^}]*)?\}')


def points(t):
    """one dict title -> value per point of a trace, as its hover text names them; x and y as well"""
    xs, ys, cd = labs(t.x), seq(t.y), t.customdata
    items = []
    for part in (t.hovertemplate or '').split('<br>'):
        m = ITEM.match(part)
        if m:
            items.append(m.groups())
    out = []
    for i in range(len(xs)):
        d = {'x': xs[i], 'y': ys[i]}
        for title, src, k in items:
            d[title] = xs[i] if src == 'x' else ys[i] if src == 'y' else num(cd[i] if k is None else cd[i][int(k)])
        out.append(d)
    return out


def named(fig, name):
    return [t for t in fig.data if t.name == name]


def markers(h, fig, name, key, want, label, have=True):
    """the trace `name` shows exactly the records `want` (dicts title -> value), identified by `key`"""
    ts = named(fig, name)
    h.eq(len(ts), 1 if want else 0, '%s: one set of %s markers' % (label, name))
    if len(ts) != 1 or not want:
        return
    got = points(ts[0])
    h.eq(sorted(int(g[key]) for g in got), sorted(int(w[key]) for w in want), '%s: records under %s' % (label, name))
    by = {int(g[key]): g for g in got}
    for w in want:
        g = by.get(int(w[key]))
        if g is None:
            continue
        for k, v in w.items():
            h.check(k in g, '%s: %s shows %s' % (label, name, k))
            if k not in g:
                continue
            if isinstance(v, pd.Timedelta):
                h.eq(str(pd.Timedelta(g[k])), str(v), '%s: %s: %s' % (label, name, k))
            else:
                h.eq(g[k], v, '%s: %s: %s' % (label, name, k))


def line(h, fig, name, xs, ys, label, k=0, n=1):
    ts = named(fig, name)
    h.eq(len(ts), n, '%s: trace %s' % (label, name))
    if len(ts) != n:
        return
    h.eq(labs(ts[k].x), [lab(x) for x in xs], '%s: x of %s' % (label, name))
    h.eq(seq(ts[k].y), list(ys), '%s: y of %s' % (label, name))


def zones(h, fig, want, label, typ='rect'):
    """the shapes are the wanted ones (kind, x0, x1, y0, y1), in any order; kinds told apart by their fill colour"""
    got = [s for s in fig.layout.shapes if s.type == typ]
    h.eq(len(got), len(want), '%s: number of zones' % label)
    if len(got) != len(want):
        return
    kinds = {}
    for s in got:
        kinds.setdefault(s.fillcolor, []).append(s)
    wk = {}
    for w in want:
        wk.setdefault(w[0], []).append(w)
    for k, ws in wk.items():
        gs = kinds.get(k, [])
        h.eq(len(gs), len(ws), '%s: %s zones' % (label, k))
        if len(gs) != len(ws):
            continue
        gs = sorted(gs, key=lambda s: (str(lab(s.x0)), str(lab(s.x1))))
        ws = sorted(ws, key=lambda w: (str(lab(w[1])), str(lab(w[2]))))
        for s, w in zip(gs, ws):
            h.eq([lab(s.x0), lab(s.x1)], [lab(w[1]), lab(w[2])], '%s: extent of %s zone' % (label, k))
            if w[3] is not None:
                h.eq([s.y0, s.y1], [w[3], w[4]], '%s: heights of %s zone' % (label, k))


def hline(h, fig, y, label):
    got = [s for s in fig.layout.shapes if s.type == 'line']
    h.eq(len(got), 1, '%s: reference line' % label)
    if got:
        h.eq([got[0].y0, got[0].y1], [y, y], '%s: level of the reference line' % label)


def index(n, dt=True):
    return pd.date_range('2020', periods=n, freq='D') if dt else pd.Index([10 * i for i in range(n)])


def wrap(h, n, cols, dt=True):
    return h.vbt.ArrayWrapper(index(n, dt), pd.Index(cols), 2 if len(cols) > 1 else 1, **(dict(freq='D') if dt else {}))


def td(k, dt):
    return pd.Timedelta(days=k) if dt else k


def recarr(h, m, dtype):
    npx = h.vbt._symx_np if h.sym else np
    return npx.empty(m, dtype=dtype)


def frame(h, name, n, cols, **kw):
    v = h.floats2(name, (n, len(cols)), **kw)
    return v


def mkdf(h, v, n, cols, dt=True):
    return h.df(v, columns=cols, index=index(n, dt))


# ---- records ----

OL = {'mix': [(0, 0, 1), (0, 2, 0), (1, 1, 0)], 'buys': [(0, 0, 1), (1, 0, 0), (0, 1, 1)], 'row': [(0, 1, 1), (0, 1, 0), (1, 2, 1)],
      'other': [(1, 0, 1)], 'sells': [(1, 2, 1), (0, 0, 0), (0, 2, 0)]}


def orders(h, lay, dt=True, close=True, portfolio=False):
    from vectorbt.portfolio.enums import order_dt
    L = OL[lay]
    n, cols = 3, ['a', 'b']
    r = recarr(h, len(L), order_dt)
    recs = []
    for k, (c, i, buy) in enumerate(L):
        s, p, f = h.real('s%d' % k, gt=0), h.real('p%d' % k), h.real('f%d' % k)
        for key, v in zip(('id', 'col', 'idx', 'size', 'price', 'fees', 'side'), (7 + 3 * k, c, i, s, p, f, 0 if buy else 1)):
            r[key][k] = v
        recs.append((7 + 3 * k, c, i, s, p, f, buy))
    cv = frame(h, 'close', n, cols, nan=True) if close else None
    cl = mkdf(h, cv, n, cols, dt) if close else None
    o = h.vbt.Orders(wrap(h, n, cols, dt), r, close=cl)
    for c, name in enumerate(cols):
        fig, exc = h.call(lambda: o.plot(column=name))
        h.check(exc is None, 'raises %s' % exc)
        if exc:
            return
        ix = index(n, dt)
        for side, buy in (('Buy', 1), ('Sell', 0)):
            markers(h, fig, side, 'Order Id', [{'Order Id': x[0], 'x': lab(ix[x[2]]), 'Timestamp': lab(ix[x[2]]), 'y': x[4], 'Price': x[4],
                                                'Size': x[3], 'Fees': x[5]} for x in recs if x[1] == c and x[6] == buy], 'orders of ' + name)
        if close:
            line(h, fig, 'Close', ix, [cv[i][c] for i in range(n)], 'orders of ' + name)
        h.eq(len(fig.data), (1 if close else 0) + len({x[6] for x in recs if x[1] == c}), 'no other traces')


# (col, entry row, exit row, direction, status)
TL = {'two': [(0, 0, 1, 0, 1), (0, 1, 2, 0, 0), (1, 0, 2, 1, 1)], 'short': [(0, 0, 2, 1, 1), (1, 1, 1, 0, 1), (0, 2, 2, 1, 0)],
      'open': [(1, 1, 2, 0, 0), (0, 0, 2, 1, 0)], 'closed': [(0, 0, 1, 0, 1), (0, 0, 2, 0, 1)], 'other': [(1, 0, 2, 0, 1)]}
ID = dict(Trades='Trade Id', ExitTrades='Exit Trade Id', EntryTrades='Entry Trade Id', Positions='Position Id')


def mktrades(h, lay, kind, dt, close):
    from vectorbt.portfolio.enums import trade_dt
    L = TL[lay]
    n, cols = 3, ['a', 'b']
    r = recarr(h, len(L), trade_dt)
    recs = []
    for k, (c, e, x, d, st) in enumerate(L):
        t = dict(id=7 + 3 * k, col=c, size=h.real('s%d' % k, gt=0), entry_idx=e, entry_price=h.real('ep%d' % k), entry_fees=h.real('ef%d' % k),
                 exit_idx=x, exit_price=h.real('xp%d' % k), exit_fees=h.real('xf%d' % k), pnl=h.real('pnl%d' % k),
                 direction=d, status=st, parent_id=40 + 2 * k)
        t['return'] = h.real('ret%d' % k, lo=-10, hi=10)
        for key, v in t.items():
            r[key][k] = v
        recs.append(t)
    cv = frame(h, 'close', n, cols, nan=True) if close else None
    cl = mkdf(h, cv, n, cols, dt) if close else None
    import vectorbt.portfolio.trades as T
    return getattr(T, kind)(wrap(h, n, cols, dt), r, cl), recs, cv, n, cols


def trow(t, kind, ix, dt, entry):
    p = 'entry' if entry else 'exit'
    P = 'Entry' if entry else 'Exit'
    avg = '' if kind == 'Trades' else 'Avg '
    d = {ID[kind]: t['id'], 'x': lab(ix[t[p + '_idx']]), P + ' Timestamp': lab(ix[t[p + '_idx']]), 'y': t[p + '_price'],
         'Avg %s Price' % P: t[p + '_price'], P + ' Fees': t[p + '_fees'], 'Size': t['size'], 'Direction': ('Long', 'Short')[t['direction']]}
    if kind != 'Positions':
        d['Position Id'] = t['parent_id']
    if not entry:
        d['PnL'] = t['pnl']
        d['Return'] = t['return']
        d['Duration'] = td(t['exit_idx'] - t['entry_idx'] + (1 if t['status'] == 0 else 0), dt)
    return d


def trades(h, lay, kind, dt=True, close=True, plot_zones=True, col=0):
    o, recs, cv, n, cols = mktrades(h, lay, kind, dt, close)
    name = cols[col]
    fig, exc = h.call(lambda: o.plot(column=name, plot_zones=plot_zones))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    ix = index(n, dt)
    mine = [t for t in recs if t['col'] == col]
    what = '%s of %s' % (kind, name)
    markers(h, fig, 'Entry', ID[kind], [trow(t, kind, ix, dt, True) for t in mine], what)
    sets = {'Exit': [], 'Exit - Profit': [], 'Exit - Loss': [], 'Active': []}
    want = []
    for t in mine:
        k = 'Active' if t['status'] == 0 else 'Exit - Profit' if t['pnl'] > 0 else 'Exit - Loss' if t['pnl'] < 0 else 'Exit'
        sets[k].append(trow(t, kind, ix, dt, False))
        if t['pnl'] > 0 or t['pnl'] < 0:
            want.append(('green' if t['pnl'] > 0 else 'red', ix[t['entry_idx']], ix[t['exit_idx']], t['entry_price'], t['exit_price']))
    for k, w in sets.items():
        markers(h, fig, k, ID[kind], w, what)
    if close:
        line(h, fig, 'Close', ix, [cv[i][col] for i in range(n)], what)
    zones(h, fig, want if plot_zones else [], what)


def pnl(h, lay, kind, dt=True, pct=False, col=0):
    o, recs, cv, n, cols = mktrades(h, lay, kind, dt, False)
    name = cols[col]
    fig, exc = h.call(lambda: o.plot_pnl(column=name, pct_scale=pct))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    ix = index(n, dt)
    sets = {'Closed - Profit': [], 'Closed - Loss': [], 'Open': []}
    for t in recs:
        if t['col'] != col or t['pnl'] == 0:
            continue
        k = 'Open' if t['status'] == 0 else 'Closed - Profit' if t['pnl'] > 0 else 'Closed - Loss'
        d = {ID[kind]: t['id'], 'x': lab(ix[t['exit_idx']]), 'Exit Timestamp': lab(ix[t['exit_idx']]), 'y': t['return'] if pct else t['pnl'],
             'PnL': t['pnl'], 'Return': t['return']}
        if kind != 'Positions':
            d['Position Id'] = t['parent_id']
        sets[k].append(d)
    for k, w in sets.items():
        markers(h, fig, k, ID[kind], w, 'PnL of ' + name)
    hline(h, fig, 0, 'PnL of ' + name)


def drawdowns(h, n=3, dt=True, ts=True, top_n=None, plot_zones=True):
    v = h.floats('v', n, gt=0)
    cols = ['a', 'b']
    df = mkdf(h, h.array([[v[i], [3.0, 1.0, 4.0, 2.0][i]] for i in range(n)]), n, cols, dt)
    from vectorbt.generic.drawdowns import Drawdowns
    o = Drawdowns.from_ts(df, attach_ts=ts, wrapper_kwargs=dict(freq='D') if dt else {})
    fig, exc = h.call(lambda: o.plot(column='a', top_n=top_n, plot_zones=plot_zones))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    R = o.values
    recs = [{f: R[f][k] for f in R.dtype.names} for k in range(len(R)) if int(R['col'][k]) == 0]
    for t in recs:
        t['dd'] = (t['valley_val'] - t['peak_val']) / t['peak_val']
    if top_n is not None:
        # the deepest ones; the first of equals is kept
        keep = []
        for k, t in enumerate(recs):
            rank = sum(1 for j, u in enumerate(recs) if u['dd'] < t['dd'] or (j < k and u['dd'] == t['dd']))
            if rank < top_n:
                keep.append(t)
        recs = keep
    ix = index(n, dt)
    peaks, valleys, recov, act, want = [], [], [], [], []
    K = 'Drawdown Id'
    prev = recs[-1]['end_idx'] if recs else None
    for t in recs:
        if int(t['peak_idx']) != int(prev):
            peaks.append({K: t['id'], 'x': lab(ix[t['peak_idx']]), 'Peak Timestamp': lab(ix[t['peak_idx']]), 'y': t['peak_val'],
                          'Peak Value': t['peak_val']})
        prev = t['end_idx']
        P, S, V, E = [int(t[f]) for f in ('peak_idx', 'start_idx', 'valley_idx', 'end_idx')]
        if int(t['status']) == 1:
            valleys.append({K: t['id'], 'x': lab(ix[V]), 'Valley Timestamp': lab(ix[V]), 'y': t['valley_val'], 'Valley Value': t['valley_val'],
                            'Drawdown': t['dd'], 'Duration': td(V - S + 1, dt)})
            recov.append({K: t['id'], 'x': lab(ix[E]), 'End Timestamp': lab(ix[E]), 'y': t['end_val'], 'End Value': t['end_val'],
                          'Return': (t['end_val'] - t['valley_val']) / t['valley_val'], 'Duration': td(E - V, dt)})
            want += [('red', ix[P], ix[V], None, None), ('green', ix[V], ix[E], None, None)]
        else:
            act.append({K: t['id'], 'x': lab(ix[E]), 'End Timestamp': lab(ix[E]), 'y': t['end_val'], 'End Value': t['end_val'],
                        'Return': t['dd'], 'Duration': td(E - S + 1, dt)})
            want.append(('orange', ix[P], ix[E], None, None))
    for k, w in (('Peak', peaks), ('Valley', valleys), ('Recovery/Peak', recov), ('Active', act)):
        markers(h, fig, k, K, w, 'drawdowns')
    zones(h, fig, want if plot_zones else [], 'drawdowns')
    if ts:
        line(h, fig, 'a', ix, v, 'drawdowns')
    else:
        h.eq(len(named(fig, 'a')), 0, 'no series to draw')


def ranges(h, n=3, dt=True, ts=True, top_n=None, plot_zones=True):
    m = h.bools('m', n)
    v = [h.real('v%d' % i) for i in range(n)] if ts else None
    from vectorbt.generic.enums import range_dt
    # maximal runs of the mask
    runs, i = [], 0
    while i < n:
        if m[i]:
            j = i
            while j < n and m[j]:
                j += 1
            runs.append((i, j if j < n else n - 1, 1 if j < n else 0))
            i = j
        else:
            i += 1
    runs = [(0,) + x for x in runs] + [(1, 0, 1, 1)]
    r = recarr(h, len(runs), range_dt)
    for k, (c, s, e, st) in enumerate(runs):
        for key, x in zip(('id', 'col', 'start_idx', 'end_idx', 'status'), (5 + 2 * k, c, s, e, st)):
            r[key][k] = x
    cols = ['a', 'b']
    df = mkdf(h, h.array([[v[i], 1.0] for i in range(n)]), n, cols, dt) if ts else None
    from vectorbt.generic.ranges import Ranges
    o = Ranges(wrap(h, n, cols, dt), r, ts=df)
    fig, exc = h.call(lambda: o.plot(column='a', top_n=top_n, plot_zones=plot_zones))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    dur = lambda t: t[2] - t[1] + (0 if t[3] else 1)
    recs = [(5 + 2 * k,) + x for k, x in enumerate(runs) if x[0] == 0]
    recs = [(t[0], t[2], t[3], t[4]) for t in recs]
    if top_n is not None:
        recs = [t for k, t in enumerate(recs) if sum(1 for j, u in enumerate(recs) if dur(u) > dur(t) or (j > k and dur(u) == dur(t))) < top_n]
    ix = index(n, dt)
    K = 'Range Id'
    y = lambda i: v[i] if ts else 0
    markers(h, fig, 'Start', K, [{K: t[0], 'x': lab(ix[t[1]]), 'Start Timestamp': lab(ix[t[1]]), 'y': y(t[1])} for t in recs], 'ranges')
    for name, st in (('Closed', 1), ('Open', 0)):
        markers(h, fig, name, K, [{K: t[0], 'x': lab(ix[t[2]]), 'End Timestamp': lab(ix[t[2]]), 'y': y(t[2]), 'Duration': td(dur(t), dt)}
                                  for t in recs if t[3] == st], 'ranges')
    zones(h, fig, [('teal' if t[3] else 'orange', ix[t[1]], ix[t[2]], None, None) for t in recs] if plot_zones else [], 'ranges')
    if ts:
        line(h, fig, 'a', ix, v, 'ranges')


# ---- plain series ----

def cells(h, n, m, **kw):
    return h.floats2('v', (n, m), **kw)


def plain(h, kind, n, m, series=None, dt=True, names=None, x=None, multi=False):
    """one trace per column: x are the index labels, y its values"""
    v = cells(h, n, m, nan=True)
    cols = ['a', 'b', 'c'][:m]
    lbl = list(cols)
    ix = index(n, dt)
    if series is not None:
        o = h.sr(h.array([v[i, 0] for i in range(n)]), name=series or None, index=ix)
        lbl = [series or None]
    else:
        o = h.df(v, columns=cols, index=ix)
        if multi:
            o.columns = pd.MultiIndex.from_tuples([(1, c) for c in cols])
            lbl = [str((1, c)) for c in cols]
            o.index = pd.MultiIndex.from_tuples([(i, 'r%d' % i) for i in range(n)])
            ix = [str((i, 'r%d' % i)) for i in range(n)]
    kw = {}
    if names:
        kw['trace_names'] = lbl = ['n%d' % k for k in range(m)]
    if x:
        kw['x_labels'] = ix = ['x%d' % i for i in range(n)]
    w, exc = h.call(lambda: getattr(o.vbt, kind)(return_fig=False, **kw))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    h.eq([t.name for t in w.fig.data], lbl, kind + ': traces')
    h.eq([type(t).__name__ for t in w.fig.data], ['Bar' if kind == 'barplot' else 'Scatter'] * m, kind + ': type')
    modes = dict(lineplot='lines', scatterplot='markers')
    for c, t in enumerate(w.fig.data):
        h.eq(labs(t.x), [lab(i) for i in ix], kind + ': x')
        h.eq(seq(t.y), [v[i, c] for i in range(n)], kind + ': y')
        if kind in modes:
            h.eq(t.mode, modes[kind], kind + ': mode')
    v2 = h.floats2('u', (n, m))
    r, exc = h.call(lambda: w.update(v2))
    h.check(exc is None, 'update raises %s' % exc)
    if exc is None:
        for c, t in enumerate(w.fig.data):
            h.eq(labs(t.x), [lab(i) for i in ix], kind + ': x after update')
            h.eq(seq(t.y), [v2[i, c] for i in range(n)], kind + ': y after update')


def hist(h, kind, n, m, horizontal=False, nan=True, remove=True, group_by=None, q=None):
    """histograms and boxes are over all the values of a column (of a group) that are numbers"""
    v = cells(h, n, m, nan=nan)
    cols = ['a', 'b', 'c'][:m]
    o = h.df(v, columns=cols)
    kw = dict(horizontal=horizontal, remove_nan=remove)
    if q:
        kw.update(q)
    if group_by is not None:
        kw['group_by'] = np.array(group_by)
    fig, exc = h.call(lambda: getattr(o.vbt, kind)(**kw))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    groups = [[c] for c in range(m)] if group_by is None else [[c for c in range(m) if group_by[c] == g] for g in sorted(set(group_by))]
    names = cols if group_by is None else [str(g) for g in sorted(set(group_by))]
    h.eq([t.name for t in fig.data], names, kind + ': traces')
    for t, g in zip(fig.data, groups):
        want = [v[i, c] for i in range(n) for c in g]
        if remove:
            want = [x for x in want if not isnan(x)]
        if q:
            # bounds given by linear interpolation between the sorted values
            z = sort(want)
            lo = quant(z, q['from_quantile']) if z and 'from_quantile' in q else None
            hi = quant(z, q['to_quantile']) if z and 'to_quantile' in q else None
            want = [x for x in want if (lo is None or x >= lo) and (hi is None or x <= hi)]
        a, b = (t.y, t.x) if (kind == 'histplot') == horizontal else (t.x, t.y)
        got = seq(a) or []
        h.check(b is None, kind + ': orientation')
        h.eq(len(got), len(want), kind + ': number of values')
        if len(got) == len(want):
            if group_by is None:
                h.eq(got, want, kind + ': values')
            else:
                h.eq(sort([x for x in got if not isnan(x)]), sort([x for x in want if not isnan(x)]), kind + ': values of the group')


def sort(xs):
    out = []
    for x in xs:
        k = len(out)
        while k and x < out[k - 1]:
            k -= 1
        out.insert(k, x)
    return out


def quant(z, q):
    p = q * (len(z) - 1)
    k = int(math.floor(p))
    return z[k] if k + 1 >= len(z) else z[k] + (z[k + 1] - z[k]) * (p - k)


def fills(h, fig, x, other, ix, label, pos='pos', neg='neg', hid='hid', names=None):
    """area between two lines: above where x > other, below where x < other, nothing elsewhere"""
    n = len(x)
    for name, f in ((pos, lambda a, b: a > b), (neg, lambda a, b: a < b)):
        sel = [bool(f(x[i], other[i])) for i in range(n)]
        ts = named(fig, name)
        h.eq(len(ts), 1 if any(sel) else 0, '%s: %s area' % (label, name))
        if len(ts) == 1 and any(sel):
            h.eq(labs(ts[0].x), [lab(i) for i in ix], '%s: x of the %s area' % (label, name))
            h.eq(seq(ts[0].y), [x[i] if sel[i] else other[i] for i in range(n)], '%s: edge of the %s area' % (label, name))
            h.eq(ts[0].fill, 'tonexty', '%s: %s area is filled to the trace before' % (label, name))
            k = [j for j, t in enumerate(fig.data) if t is ts[0] or t.uid is not None and t.uid == ts[0].uid or t == ts[0]]
            j = [j for j, t in enumerate(fig.data) if t.name == name][0]
            h.eq(seq(fig.data[j - 1].y), list(other), '%s: base of the %s area' % (label, name))


def against(h, n, other='series', hidden=False):
    x = h.floats('x', n, nan=False)
    ix = index(n)
    if other == 'series':
        y = list(h.floats('y', n, nan=False))
        oth = h.sr(h.array(y), name='b', index=ix)
    else:
        oth = h.real('y')
        y = [oth] * n
    o = h.sr(x, name='a', index=ix)
    kw = dict(pos_trace_kwargs=dict(name='pos'), neg_trace_kwargs=dict(name='neg'), hidden_trace_kwargs=dict(name='hid'),
              trace_kwargs=dict(name='main'), other_trace_kwargs='hidden' if hidden else dict(name='other'))
    fig, exc = h.call(lambda: o.vbt.plot_against(oth, **kw))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    line(h, fig, 'main', ix, x, 'plot_against')
    if hidden:
        h.eq(seq(fig.data[-1].y), y, 'the hidden line')
        h.eq(fig.data[-1].opacity, 0.0, 'the hidden line is invisible')
    else:
        line(h, fig, 'other', ix, y, 'plot_against')
    fills(h, fig, x, y, ix, 'plot_against')


def cellmap(t):
    xs, ys = labs(t.x), labs(t.y)
    return xs, ys, {(xs[j], ys[i]): t.z[i][j] for i in range(len(ys)) for j in range(len(xs))}


def heat(h, what, n=2, m=3):
    v = cells(h, n, m, nan=True)
    cols = ['a', 'b', 'c'][:m]
    ix = index(n)
    o = h.df(v, columns=cols, index=ix)
    if what == 'series':
        s = h.sr(h.array([v[i, 0] for i in range(n)]), name='a', index=ix)
        fig, exc = h.call(lambda: s.vbt.heatmap())
        m, cols = 1, ['a']
    elif what == 'ts_series':
        s = h.sr(h.array([v[i, 0] for i in range(n)]), name='a', index=ix)
        fig, exc = h.call(lambda: s.vbt.ts_heatmap())
        m, cols = 1, ['a']
    elif what == 'ts':
        fig, exc = h.call(lambda: o.vbt.ts_heatmap())
    elif what == 'labels':
        fig, exc = h.call(lambda: o.vbt.heatmap(x_labels=['p', 'q', 'r'][:m], y_labels=['s', 't', 'u'][:n]))
    else:
        fig, exc = h.call(lambda: o.vbt.heatmap())
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    if what == 'labels':
        cols, ix = ['p', 'q', 'r'][:m], ['s', 't', 'u'][:n]
    h.eq(len(fig.data), 1, 'one heatmap')
    xs, ys, z = cellmap(fig.data[0])
    X, Y = (ix, cols) if what.startswith('ts') else (cols, ix)
    h.eq(sorted(xs, key=str), sorted((lab(x) for x in X), key=str), 'x labels')
    h.eq(sorted(ys, key=str), sorted((lab(x) for x in Y), key=str), 'y labels')
    for i in range(n):
        for c in range(m):
            k = (lab(ix[i]), cols[c]) if what.startswith('ts') else (cols[c], lab(ix[i]))
            h.eq(z.get(k), v[i, c], 'cell of row %d, column %s' % (i, cols[c]))


HM = {'full': [(1, 'p', 5), (1, 'q', 5), (2, 'p', 5), (2, 'q', 5)], 'gaps': [(1, 'p', 5), (2, 'q', 5), (3, 'p', 5)],
      'unsorted': [(2, 'q', 5), (1, 'q', 5), (2, 'p', 5)], 'same': [('r', 'p', 5), ('s', 'q', 5), ('p', 's', 5)], 'groups': [(1, 'p', 5), (2, 'q', 5), (1, 'q', 6), (2, 'p', 6)],
      'other': [(1, 'p', 5), (2, 'q', 5), (3, 'r', 6), (4, 's', 6)], 'fewer': [(1, 'p', 5), (2, 'q', 5), (2, 'q', 6)]}


def heatmulti(h, lay, symmetric=False, sort_=True, swap=False, by='name', slider=False, active=0):
    """a series with a two-level index: every value lies at the cell its labels name, once (mirrored if symmetric)"""
    L = HM[lay]
    v = [h.real('v%d' % k) for k in range(len(L))]
    ix = pd.MultiIndex.from_tuples(L if slider else [t[:2] for t in L], names=['f', 'g', 'k'][:3 if slider else 2])
    o = h.sr(h.array(v), name='s', index=ix)
    xl, yl = ('f', 'g') if by == 'name' else (0, 1)
    xi, yi = 0, 1
    if swap:
        xl, yl, xi, yi = yl, xl, 1, 0
    kw = dict(slider_level='k' if by == 'name' else 2, active=active) if slider else {}
    fig, exc = h.call(lambda: o.vbt.heatmap(x_level=xl, y_level=yl, symmetric=symmetric, sort=sort_, **kw))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    groups = sorted({t[2] for t in L}) if slider else [None]
    h.eq(len(fig.data), len(groups), 'heatmaps')
    if slider:
        h.eq([t.name for t in fig.data], [str(g) for g in groups], 'names of the groups')
        h.eq([bool(t.visible) for t in fig.data], [k == active for k in range(len(groups))], 'visible group')
        st = fig.layout.sliders[0].steps
        h.eq([s.label for s in st], [str(g) for g in groups], 'labels of the slider')
        for k, s in enumerate(st):
            h.eq(list(s.args[0]['visible']), [j == k for j in range(len(groups))], 'a step of the slider shows its group')
        h.eq(fig.layout.sliders[0].active, active, 'active step')
    for t, g in zip(fig.data, groups):
        xs, ys, z = cellmap(t)
        want = {}
        for k, row in enumerate(L):
            if g is None or row[2] == g:
                want[(row[xi], row[yi])] = v[k]
                if symmetric:
                    want[(row[yi], row[xi])] = v[k]
        X = {k[0] for k in want} | ({k[1] for k in want} if symmetric else set())
        Y = {k[1] for k in want} | ({k[0] for k in want} if symmetric else set())
        h.eq([sorted(xs, key=str), sorted(ys, key=str)], [sorted(X, key=str), sorted(Y, key=str)], 'labels of the axes')
        if sort_ and not symmetric:
            h.eq([xs, ys], [sorted(X), sorted(Y)], 'sorted labels')
        for k in [(a, b) for a in X for b in Y]:
            if k in want:
                h.eq(z.get(k), want[k], 'cell %s of %s' % (k, g))
            else:
                h.check(k in z and isnan(z[k]), 'empty cell %s of %s' % (k, g))


VL = {'num': [(1, 3, 5), (1, 4, 6), (2, 3, 6)], 'str': [('p', 3, 'u'), ('q', 4, 'v'), ('p', 4, 'v')], 'allstr': [('q', 's', 'u'), ('p', 't', 'v'), ('p', 's', 'v')],
      'xy': [('p', 's', 1), ('q', 't', 2)], 'one': [(1, 2, 3)]}
VG = {'same': [(1, 3, 5, 0), (1, 3, 5, 1)], 'cross': [('p', 3, 5, 0), ('q', 4, 6, 0), ('p', 4, 6, 1), ('q', 3, 5, 1)],
      'other': [('p', 3, 5, 0), ('q', 4, 6, 0), ('r', 7, 8, 1)]}


def volume(h, lay, order=(0, 1, 2), slider=False):
    """a series with a three-level index: every value lies at the point its labels name"""
    L = VG[lay] if slider else VL[lay]
    v = [h.real('v%d' % k) for k in range(len(L))]
    o = h.sr(h.array(v), name='s', index=pd.MultiIndex.from_tuples(L, names=['f', 'g', 'k', 'w'][:4 if slider else 3]))
    nm = ['f', 'g', 'k']
    kw = dict(slider_level='w') if slider else {}
    import warnings
    def f():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return o.vbt.volume(x_level=nm[order[0]], y_level=nm[order[1]], z_level=nm[order[2]], **kw)
    fig, exc = h.call(f)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    groups = sorted({t[3] for t in L}) if slider else [None]
    h.eq(len(fig.data), len(groups), 'volumes')
    sc = fig.layout.scene
    for t, g in zip(fig.data, groups):
        P = []
        for ax, arr in (('x', t.x), ('y', t.y), ('z', t.z)):
            a = sc[ax + 'axis']
            tick = dict(zip(labs(a.tickvals), labs(a.ticktext))) if a.ticktext is not None and a.tickvals is not None else None
            P.append([lab(q) if tick is None else tick.get(lab(q)) for q in seq(arr)])
        got = {}
        for q in range(len(P[0])):
            k = tuple(p[q] for p in P)
            h.check(k not in got, 'every point once')
            got[k] = t.value[q]
        want = {tuple(row[order[j]] for j in range(3)): v[k] for k, row in enumerate(L) if g is None or row[3] == g}
        for k, x in want.items():
            h.check(k in got, 'point %s of %s' % (k, g))
            if k in got:
                h.eq(got[k], x, 'value at %s of %s' % (k, g))
        for k, x in got.items():
            if k not in want:
                h.check(isnan(x), 'nothing at %s of %s' % (k, g))


def overlay(h, n):
    x, y = h.floats('x', n, nan=True), h.floats('y', n, nan=True)
    ix = index(n)
    o = h.sr(x, name='a', index=ix)
    fig, exc = h.call(lambda: o.vbt.overlay_with_heatmap(h.sr(y, name='b', index=ix)))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    both(h, fig, ix, 'a', x, y, 'overlay')


def both(h, fig, ix, name, x, y, label):
    line(h, fig, name, ix, x, label)
    t = [t for t in fig.data if type(t).__name__ == 'Heatmap']
    h.eq(len(t), 1, label + ': one heatmap')
    if len(t) == 1:
        xs = labs(t[0].x)
        h.eq(xs, [lab(i) for i in ix], label + ': x of the heatmap')
        h.eq([len(t[0].z), list(t[0].z[0])], [1, list(y)], label + ': cells')


# ---- signals ----

def marks(h, n, which, y=True):
    m = h.bools('m', n)
    ix = index(n)
    v = h.floats('v', n) if y else None
    s = h.sr(m, name='s', index=ix)
    f = dict(plain='plot_as_markers', entry='plot_as_entry_markers', exit='plot_as_exit_markers')[which]
    kw = dict(y=h.sr(v, index=ix, name='t')) if y else {}
    fig, exc = h.call(lambda: getattr(s.vbt.signals, f)(**kw))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    h.eq(len(fig.data), 1, 'one trace')
    t = fig.data[0]
    if which != 'plain':
        h.eq(t.name, dict(entry='Entry', exit='Exit')[which], 'name')
    h.eq(t.mode, 'markers', 'markers')
    h.eq(labs(t.x), [lab(ix[i]) for i in range(n) if m[i]], 'rows of the signals')
    h.eq([q for q in seq(t.y)], [v[i] if y else 1 for i in range(n) if m[i]], 'heights of the signals')


def stops(h, n, chain=False):
    """the stop indicator: entries at their price, exits at their stop price with the kind of the stop"""
    e = h.bools('e', n)
    V = {k: h.floats(k, n, lo=1, hi=100) for k in ('open', 'high', 'low', 'close')}
    for i in range(n):
        h.assume(and_(V['low'][i] <= V['open'][i], V['open'][i] <= V['high'][i], V['low'][i] <= V['close'][i], V['close'][i] <= V['high'][i]))
    ix = index(n)
    ind = h.vbt.OHLCSTCX if chain else h.vbt.OHLCSTX
    r, exc = h.call(lambda: ind.run(h.sr(e, index=ix), *[h.sr(V[k], index=ix) for k in ('open', 'high', 'low', 'close')], sl_stop=0.1, tp_stop=0.2))
    h.check(exc is None, 'run raises %s' % exc)
    if exc:
        return
    fig, exc = h.call(lambda: r.plot())
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    en = [bool(q) for q in (r.new_entries if chain else r.entries).to_numpy()]
    ex = [bool(q) for q in r.exits.to_numpy()]
    P, T = r.stop_price.to_numpy(), r.stop_type.to_numpy()
    t = [t for t in fig.data if type(t).__name__ in ('Ohlc', 'Candlestick')]
    h.eq(len(t), 1, 'one price trace')
    if len(t) == 1:
        h.eq(labs(t[0].x), [lab(i) for i in ix], 'x of the prices')
        for k in V:
            h.eq(seq(t[0][k]), list(V[k]), k)
    name = 'New Entry' if chain else 'Entry'
    line(h, fig, name, [ix[i] for i in range(n) if en[i]], [V['open'][i] for i in range(n) if en[i]], 'stops')
    line(h, fig, 'Exit', [ix[i] for i in range(n) if ex[i]], [P[i] for i in range(n) if ex[i]], 'stops')
    te = named(fig, 'Exit')
    if len(te) == 1:
        got = [p.get('Type') for p in points(te[0])]
        h.eq(got, [('StopLoss', 'TrailStop', 'TakeProfit')[int(T[i])] for i in range(n) if ex[i]], 'kinds of the stops')


# ---- returns, portfolio ----

def cumulative(h, n, bench=True, fill=False, start=1):
    r, b = h.floats('r', n, lo=-1, hi=3, nan=False), h.floats('b', n, lo=-1, hi=3)
    ix = index(n)
    o = h.sr(r, name='a', index=ix)
    kw = dict(benchmark_rets=h.sr(b, name='b', index=ix)) if bench else {}
    kw['main_kwargs'] = dict(trace_kwargs=dict(name='main'), pos_trace_kwargs=dict(name='pos'), neg_trace_kwargs=dict(name='neg'))
    fig, exc = h.call(lambda: o.vbt.returns(freq='D').plot_cumulative(start_value=start, fill_to_benchmark=fill, **kw))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return

    def cum(x):
        out, p = [], float(start)
        for q in x:
            p = p * (q + 1)
            out.append(p)
        return out
    line(h, fig, 'main', ix, cum(r), 'cumulative returns')
    if bench:
        line(h, fig, 'Benchmark', ix, cum(b), 'cumulative returns')
    fills(h, fig, cum(r), cum(b) if fill and bench else [start] * n, ix, 'cumulative returns')
    hline(h, fig, start, 'cumulative returns')


SER = dict(asset_flow='Assets', cash_flow='Cash', assets='Assets', cash='Cash', asset_value='Asset Value', value='Value', underwater='Drawdown',
           gross_exposure='Exposure', net_exposure='Exposure', cum_returns='Value')


def folio(h, what, lay='two', ncol=2, groups=None, sharing=False, by=None, column=None, opts=None):
    """every series of a portfolio is drawn as the portfolio reports it (C08 and C11 decide those series), for the chosen column or group"""
    from checks.c04 import GROUPS
    from checks.c08 import glist
    opts = opts or {}
    n = 3
    gb = GROUPS[groups] if groups else None
    own = glist(gb, ncol) if gb else [[c] for c in range(ncol)]
    icash = h.array([h.real('cash%d' % k, lo=100, hi=300) for k in range(len(own) if sharing else ncol)])
    pf, recs, close = c08.build(h, lay, n, ncol, gb, sharing, icash, False, True, lim=10, conc='size')
    kw = dict(opts)
    if by is not None:
        kw['group_by'] = by
    want, exc = h.call(lambda: getattr(pf, dict(underwater='drawdown', cum_returns='returns').get(what, what))(**kw))
    h.check(exc is None, 'series raises %s' % exc)
    fig, exc = h.call(lambda: getattr(pf, 'plot_' + what)(column=column, **kw))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    if want.ndim == 2:
        want = want[column]
    ix = list(range(n))
    vals = [want.iloc[i] for i in range(n)]
    if what == 'cum_returns':
        p = 1.0
        for i in range(n):
            p = p * (vals[i] + 1)
            vals[i] = p
    tr = named(fig, SER[what])
    h.eq(len(tr), 1, 'one trace named ' + SER[what])
    if len(tr) != 1:
        return
    h.eq(labs(tr[0].x), ix, 'x')
    h.eq(seq(tr[0].y), vals, 'y')
    kg = {k: v for k, v in kw.items() if k == 'group_by'}
    init = pf.get_init_cash(**kg) if what in ('value', 'cash') else None
    if init is not None and getattr(init, 'ndim', 0) == 1:
        init = init[column]
    base = dict(gross_exposure=1, cum_returns=1).get(what, 0) if init is None else init
    hline(h, fig, base, what)
    if what == 'cum_returns':
        b = pf.benchmark_returns(**kg)
        b = b[column] if b.ndim == 2 else b
        out, p = [], 1.0
        for i in range(n):
            p = p * (b.iloc[i] + 1)
            out.append(p)
        line(h, fig, 'Benchmark', ix, out, what)
    if what == 'underwater':
        h.eq(tr[0].fill, 'tozeroy', 'filled to zero')


def folio_records(h, what, lay='two', column='a'):
    """the portfolio's own record figures are those of its records"""
    pf, recs, close = c08.build(h, lay, 3, 2, None, False, h.array([100.0] * 2), False, True, lim=10, conc='size')
    direct = dict(orders=lambda: pf.orders.plot(column=column), trades=lambda: pf.trades.plot(column=column),
                  trade_pnl=lambda: pf.trades.plot_pnl(column=column), positions=lambda: pf.positions.plot(column=column),
                  position_pnl=lambda: pf.positions.plot_pnl(column=column), drawdowns=lambda: pf.drawdowns.plot(column=column))[what]
    a, exc = h.call(direct)
    h.check(exc is None, 'raises %s' % exc)
    b, exc = h.call(lambda: getattr(pf, 'plot_' + what)(column=column))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    same_traces(h, list(b.data), list(a.data), what, names=what != 'drawdowns')
    h.eq(len(b.layout.shapes), len(a.layout.shapes), 'zones')


def same_traces(h, got, want, label, names=True):
    h.eq(len(got), len(want), label + ': number of traces')
    if len(got) != len(want):
        return
    for g, w in zip(got, want):
        if names:
            h.eq(g.name, w.name, label + ': names')
        h.eq(labs(g.x), labs(w.x), label + ': x')
        h.eq(seq(g.y), seq(w.y), label + ': y')


SUB = {'pf': ['orders', 'trade_pnl', 'cum_returns', 'value', 'net_exposure'], 'pf2': ['underwater', 'asset_flow', 'cash_flow', 'drawdowns', 'assets'],
       'pf3': ['trades', 'cash', 'asset_value', 'gross_exposure']}


def panels(h, which, column='a', lay='two'):
    """plots(): every requested part is drawn in its own panel, under its title, with the same data as on its own"""
    subs = SUB[which]
    pf, recs, close = c08.build(h, lay, 3, 2, None, False, h.array([100.0] * 2), False, True, lim=10, conc='size')
    fig, exc = h.call(lambda: pf.plots(subplots=subs, column=column))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    h.eq(len(fig.layout.annotations), len(subs), 'titles')
    lo = []
    for k, s in enumerate(subs):
        one, exc = h.call(lambda: getattr(pf, 'plot_' + s)(column=column))
        h.check(exc is None, '%s raises %s' % (s, exc))
        if exc:
            return
        ax = '' if k == 0 else str(k + 1)
        mine = [t for t in fig.data if (t.xaxis or 'x') == 'x' + ax and (t.yaxis or 'y') == 'y' + ax]
        same_traces(h, mine, list(one.data), s)
        sh = [q for q in fig.layout.shapes if (q.yref or 'y') == 'y' + ax or str(q.xref) == 'x' + ax]
        h.eq(len(sh), len(one.layout.shapes), s + ': zones and lines')
        lo.append(fig.layout['yaxis' + ax].domain)
    for k in range(len(subs) - 1):
        h.check(lo[k][0] >= lo[k + 1][1], 'panels from top to bottom in the order asked for')
    T = [str(a.text) for a in fig.layout.annotations]
    h.eq(T, [pf.subplots[s]['title'] for s in subs], 'titles in order')


# ---- prices, data, indicators, labels, mapped arrays ----

def ohlcv(h, n, vol=True, ptype=None, upper=False):
    V = {k: h.floats(k, n) for k in ('open', 'high', 'low', 'close') + (('volume',) if vol else ())}
    ix = index(n)
    cols = list(V)
    order = cols[::-1]
    df = h.df(h.array([[V[k][i] for k in order] for i in range(n)]), columns=[k.capitalize() if upper else k for k in order], index=ix)
    fig, exc = h.call(lambda: df.vbt.ohlcv.plot(plot_type=ptype))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    t = [t for t in fig.data if type(t).__name__ == ('Candlestick' if ptype == 'Candlestick' else 'Ohlc')]
    h.eq([len(t), len(fig.data)], [1, 2 if vol else 1], 'traces')
    if len(t) != 1:
        return
    h.eq(labs(t[0].x), [lab(i) for i in ix], 'x')
    for k in ('open', 'high', 'low', 'close'):
        h.eq(seq(t[0][k]), list(V[k]), k)
    if vol:
        b = [t for t in fig.data if type(t).__name__ == 'Bar'][0]
        h.eq(labs(b.x), [lab(i) for i in ix], 'x of the volume')
        h.eq(seq(b.y), list(V['volume']), 'volume')
        cs = h.vbt.settings['plotting']['color_schema']
        h.eq([str(c) for c in b.marker.color], [cs['increasing'] if V['close'][i] > V['open'][i] else cs['decreasing'] if V['close'][i] < V['open'][i]
                                                else cs['gray'] for i in range(n)], 'colours of the volume')


def data_plot(h, n, base=None, syms=('p', 'q'), column='Close'):
    V = {s: h.floats2(s, (n, 2), lo=1, hi=100) for s in syms}
    ix = index(n)
    D = {s: h.df(V[s], columns=['Open', 'Close'], index=ix) for s in syms}
    d = h.vbt.Data.from_data(D, tz_localize=None, tz_convert=None, download_kwargs={})
    fig, exc = h.call(lambda: d.plot(column=column, base=base))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    c = ['Open', 'Close'].index(column)
    h.eq([t.name for t in fig.data], list(syms) if len(syms) > 1 else [column], 'traces')
    for s, t in zip(syms, fig.data):
        y = [V[s][i, c] for i in range(n)]
        if base is not None:
            y = [q / y[0] * base for q in y]
        h.eq([q.replace('+00:00', '') for q in labs(t.x)], [lab(i) for i in ix], 'x')
        h.eq(seq(t.y), y, 'prices of ' + s)


def indicator(h, name, n=4, m=2):
    ix = index(n)
    ins = dict(STOCH=('high', 'low', 'close'), ATR=('high', 'low', 'close'), OBV=('close', 'volume')).get(name, ('close',))
    V = {k: h.floats2(k, (n, m), lo=1, hi=9) for k in ins}
    if 'high' in V:
        for i in range(n):
            for c in range(m):
                h.assume(and_(V['low'][i, c] < V['high'][i, c], V['low'][i, c] <= V['close'][i, c], V['close'][i, c] <= V['high'][i, c]))
    F = [h.df(V[k], columns=['a', 'b'][:m], index=ix) for k in ins]
    par = dict(MA=([1, 2],), MSTD=([2, 3],), BBANDS=([2, 3],), RSI=([2, 3],), STOCH=([2, 3], [1, 2]), MACD=([1, 2], [2, 3], [1, 2]), ATR=([1, 2],), OBV=())[name]
    r, exc = h.call(lambda: getattr(h.vbt, name).run(*F, *par))
    h.check(exc is None, 'run raises %s' % exc)
    if exc:
        return
    outs = dict(MA=dict(close='Close', ma='MA'), MSTD=dict(mstd='MSTD'), BBANDS=dict(close='Close', middle='Middle Band', upper='Upper Band', lower='Lower Band'),
                RSI=dict(rsi='RSI'), STOCH=dict(percent_k='%K', percent_d='%D'), MACD=dict(macd='MACD', signal='Signal', hist='Histogram'),
                ATR=dict(tr='TR', atr='ATR'), OBV=dict(obv='OBV'))[name]
    for col in (r.wrapper.columns[1], r.wrapper.columns[-1]):
        fig, exc = h.call(lambda: r.plot(column=col))
        h.check(exc is None, 'raises %s' % exc)
        if exc:
            return
        h.eq(len(fig.data), len(outs), '%s: traces' % name)
        k = list(r.wrapper.columns).index(col)
        for o, t in outs.items():
            x = getattr(r, o).to_numpy()
            line(h, fig, t, ix, [x[i, k] for i in range(n)], name)
        if name in ('RSI', 'STOCH'):
            s = [s for s in fig.layout.shapes]
            h.eq([[lab(q.x0), lab(q.x1), q.y0, q.y1] for q in s], [[lab(ix[0]), lab(ix[-1]), 30, 70]], 'band between the levels')
        if name == 'MACD' and col == r.wrapper.columns[-1]:
            from vectorbt.utils.colors import adjust_opacity
            x = [r.hist.to_numpy()[i, k] for i in range(n)]
            b = named(fig, 'Histogram')[0]
            want = []
            for i in range(n):
                c = 'silver'
                if i and not isnan(x[i]) and not isnan(x[i - 1]):
                    up = x[i] > x[i - 1]
                    down = x[i] < x[i - 1]
                    if x[i] > 0:
                        c = 'green' if up else 'lightgreen'
                    elif x[i] < 0:
                        c = 'red' if down else 'lightcoral'
                want.append(adjust_opacity(c, 0.75))
            h.eq([str(c) for c in b.marker.color], want, 'colours of the histogram')


def label_plot(h, n, ind='FIXLB'):
    x = h.floats2('x', (n, 2), lo=1, hi=9)
    ix = index(n)
    r = getattr(h.vbt, ind).run(h.df(x, columns=['a', 'b'], index=ix), 1)
    col = r.wrapper.columns[1]
    fig, exc = h.call(lambda: r.plot(column=col))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    y = r.labels.to_numpy()
    both(h, fig, ix, 'close', [x[i, 1] for i in range(n)], [y[i, 1] for i in range(n)], ind)


def mapped(h, kind, group_by=None):
    cols, idx = [0, 0, 1, 2], [0, 2, 1, 0]
    v = [h.real('v%d' % k) for k in range(4)]
    w = h.vbt.ArrayWrapper(index(3), pd.Index(['a', 'b', 'c']), 2, freq='D')
    o = h.vbt.MappedArray(w, h.array(v), np.array(cols), idx_arr=np.array(idx))
    kw = dict(group_by=np.array(group_by)) if group_by else {}
    fig, exc = h.call(lambda: getattr(o, kind)(**kw))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    groups = [[c] for c in range(3)] if not group_by else [[c for c in range(3) if group_by[c] == g] for g in sorted(set(group_by))]
    h.eq([t.name for t in fig.data], ['a', 'b', 'c'] if not group_by else [str(g) for g in sorted(set(group_by))], 'traces')
    for t, g in zip(fig.data, groups):
        a = t.x if kind == 'histplot' else t.y
        h.eq(seq(a), [v[k] for k in range(4) if cols[k] in g], 'values of %s' % t.name)


def gauge(h, n, given=True):
    v = [h.real('v%d' % k) for k in range(n)]
    rng = (h.real('lo'), h.real('hi')) if given else None
    if given:
        h.assume(rng[0] <= rng[1])
    g, exc = h.call(lambda: h.vbt.plotting.Gauge(value=v[0], value_range=rng, label='L', cmap_name=None))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    lo, hi = rng if given else (v[0], v[0])
    for k in range(n):
        if k:
            r, exc = h.call(lambda: g.update(v[k]))
            h.check(exc is None, 'update raises %s' % exc)
            if exc:
                return
        lo, hi = (v[k] if v[k] < lo else lo), (v[k] if v[k] > hi else hi)
        t = g.fig.data[0]
        h.eq(t.value, v[k], 'value')
        if k:
            h.eq(t.delta.reference, v[k - 1], 'the difference is to the value before')
        h.eq(list(t.gauge.axis.range), [lo, hi], 'the range covers every value shown')


def tasks(tier):
    q = tier == 'quick'
    out = []
    for lay in OL:
        out.append(dict(fn='orders', cfg=dict(lay=lay)))
    out.append(dict(fn='orders', cfg=dict(lay='mix', dt=False, close=False)))
    for lay in TL:
        for kind in ('ExitTrades', 'EntryTrades', 'Positions'):
            out.append(dict(fn='trades', cfg=dict(lay=lay, kind=kind, dt=kind != 'EntryTrades')))
            out.append(dict(fn='pnl', cfg=dict(lay=lay, kind=kind, dt=kind != 'EntryTrades', pct=kind == 'Positions')))
    out.append(dict(fn='trades', cfg=dict(lay='two', kind='ExitTrades', close=False, plot_zones=False, col=1)))
    out.append(dict(fn='pnl', cfg=dict(lay='two', kind='ExitTrades', pct=True, col=1)))
    for n in (2, 3) if q else (2, 3, 4):
        for ts in (True, False):
            out.append(dict(fn='drawdowns', cfg=dict(n=n, ts=ts, dt=ts)))
    out.append(dict(fn='drawdowns', cfg=dict(n=4, plot_zones=False, top_n=1), weight=4))
    for ts in (True, False):
        out.append(dict(fn='ranges', cfg=dict(n=4, ts=ts, dt=ts)))
    out.append(dict(fn='ranges', cfg=dict(n=5, top_n=1, plot_zones=False)))
    for kind in ('plot', 'lineplot', 'scatterplot', 'barplot'):
        out.append(dict(fn='plain', cfg=dict(kind=kind, n=2, m=3)))
    out += [dict(fn='plain', cfg=dict(kind=k, n=3, m=1, series=s, dt=False)) for k in ('plot', 'barplot') for s in ('s', '')]
    out += [dict(fn='plain', cfg=dict(kind=k, n=2, m=2, names=True, x=True)) for k in ('plot', 'barplot')]
    out += [dict(fn='plain', cfg=dict(kind='plot', n=2, m=2, multi=True))]
    for kind in ('histplot', 'boxplot'):
        for hz in (False, True):
            out.append(dict(fn='hist', cfg=dict(kind=kind, n=2, m=2, horizontal=hz)))
        out.append(dict(fn='hist', cfg=dict(kind=kind, n=2, m=2, remove=False)))
        out.append(dict(fn='hist', cfg=dict(kind=kind, n=1, m=3, group_by=(0, 0, 1))))
        for qq in (dict(from_quantile=0.5), dict(to_quantile=0.4), dict(from_quantile=0.25, to_quantile=0.75)):
            out.append(dict(fn='hist', cfg=dict(kind=kind, n=3, m=1, q=qq, nan=False)))
    for ot in ('series', 'scalar'):
        for hd in (False, True):
            out.append(dict(fn='against', cfg=dict(n=2 if q else 3, other=ot, hidden=hd)))
    for w in ('df', 'series', 'ts', 'ts_series', 'labels'):
        out.append(dict(fn='heat', cfg=dict(what=w)))
    for lay in ('full', 'gaps', 'unsorted'):
        out += [dict(fn='heatmulti', cfg=dict(lay=lay)), dict(fn='heatmulti', cfg=dict(lay=lay, swap=True, by='pos')),
                dict(fn='heatmulti', cfg=dict(lay=lay, sort_=False))]
    out.append(dict(fn='heatmulti', cfg=dict(lay='same', symmetric=True)))
    for lay in ('groups', 'other', 'fewer'):
        out += [dict(fn='heatmulti', cfg=dict(lay=lay, slider=True)), dict(fn='heatmulti', cfg=dict(lay=lay, slider=True, swap=True, by='pos', active=1))]
    for lay in VL:
        out.append(dict(fn='volume', cfg=dict(lay=lay)))
    out.append(dict(fn='volume', cfg=dict(lay='str', order=(2, 0, 1))))
    for lay in VG:
        out.append(dict(fn='volume', cfg=dict(lay=lay, slider=True)))
    out.append(dict(fn='overlay', cfg=dict(n=3)))
    for w in ('plain', 'entry', 'exit'):
        out.append(dict(fn='marks', cfg=dict(n=3, which=w, y=True)))
    out.append(dict(fn='marks', cfg=dict(n=3, which='exit', y=False)))
    for ch in (False, True):
        out.append(dict(fn='stops', cfg=dict(n=3, chain=ch), weight=5))
    out += [dict(fn='cumulative', cfg=dict(n=2)), dict(fn='cumulative', cfg=dict(n=2, fill=True, start=100)), dict(fn='cumulative', cfg=dict(n=2, bench=False, fill=True))]
    for w in SER:
        out.append(dict(fn='folio', cfg=dict(what=w, column='b'), weight=3))
        if w not in ('asset_flow', 'assets'):
            out.append(dict(fn='folio', cfg=dict(what=w, lay='three', ncol=3, groups='ab|c', sharing=True, column=0), weight=3))
            out.append(dict(fn='folio', cfg=dict(what=w, lay='three', ncol=3, groups='ab|c', column='c', by=False), weight=3))
    for w in ('asset_flow', 'assets', 'asset_value', 'gross_exposure'):
        for d in ('longonly', 'shortonly'):
            out.append(dict(fn='folio', cfg=dict(what=w, column='b', opts=dict(direction=d)), weight=3))
    for w in ('cash_flow', 'cash'):
        out.append(dict(fn='folio', cfg=dict(what=w, column='b', opts=dict(free=True)), weight=3))
    for w in ('orders', 'trades', 'trade_pnl', 'positions', 'position_pnl', 'drawdowns'):
        for c in 'ab':
            out.append(dict(fn='folio_records', cfg=dict(what=w, column=c), weight=3))
    for w in SUB:
        out.append(dict(fn='panels', cfg=dict(which=w, lay='buys' if w != 'pf' else 'two'), weight=5))
    out += [dict(fn='ohlcv', cfg=dict(n=2)), dict(fn='ohlcv', cfg=dict(n=2, vol=False, ptype='Candlestick', upper=True)),
            dict(fn='ohlcv', cfg=dict(n=2, ptype='Candlestick', upper=True))]
    out += [dict(fn='data_plot', cfg=dict(n=2, base=b)) for b in (None, 1, 100.0)] + [dict(fn='data_plot', cfg=dict(n=2, syms=('p',), column='Open'))]
    for ind in ('MA', 'MSTD', 'BBANDS', 'RSI', 'STOCH', 'MACD', 'ATR', 'OBV'):
        out.append(dict(fn='indicator', cfg=dict(name=ind, n=4 if ind in ('MACD',) else 3, m=1 if ind in ('RSI', 'STOCH', 'ATR', 'MACD') else 2), weight=3))
    out += [dict(fn='label_plot', cfg=dict(n=3, ind=i)) for i in ('FIXLB', 'MEANLB')]
    for kind in ('histplot', 'boxplot'):
        out += [dict(fn='mapped', cfg=dict(kind=kind)), dict(fn='mapped', cfg=dict(kind=kind, group_by=(0, 0, 1)))]
    out += [dict(fn='gauge', cfg=dict(n=2)), dict(fn='gauge', cfg=dict(n=2, given=False))]
    return out


def used_functions():
    return []
