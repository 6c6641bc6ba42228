"""C41: stats() reports under every title the metric the title names: same columns or groups, same settings, same selection and aggregation."""
import math
import warnings
import numpy as np
import pandas as pd
from symx.harness import isnan, ite, div, or_, not_
from checks import c08
from checks.c04 import GROUPS

PROPERTY = 'C41'
BUDGET = {'quick': 240, 'thorough': 800}
VALIDATE_S = dict(quick=14, thorough=90)
BOUNDS = dict(rows='3', columns='up to 3', records='up to 4, in every listed arrangement', groups='none, {a,b}|{c} and regrouping per call',
              settings='incl_open, incl_active, trades_type, use_asset_returns, required_return, risk_free, year_freq, freq, to_timedelta, '
              'ddof, mapping, other, from_other, tags, filters, titles, column, agg_func, group_by',
              numbers='all values that enter a metric: all reals in their range; returns and generic values also NaN')
ASSUMPTIONS = ['the metrics themselves (total_return(), win_rate(), max_drawdown(), ...) are decided by the checks of their own properties; this '
               'one takes them, computed on a fresh object, as the meaning of the titles',
               'skew and kurtosis of pandas are replaced by distinguishable functions of all values']


def sym_setup(vbt):
    import operator
    from pandas.core.computation import expressions
    from symx.core import is_sym
    c08.sym_setup(vbt)
    for nm in ('_evaluate', '_evaluate_standard'):
        def ev(op, op_str, a, b, _old=getattr(expressions, nm)):
            # a column of Python numbers divides as floats do
            if op in (operator.truediv, operator.itruediv) and any(getattr(x, 'dtype', None) == object for x in (a, b)):
                x, y = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
                out = np.empty(x.shape, dtype=object)
                for ix in np.ndindex(x.shape):
                    out[ix] = div(x[ix], y[ix])
                return out
            return _old(op, op_str, a, b)
        setattr(expressions, nm, ev)

    def moment(k):
        def f(self, *args, **kwargs):
            return add((k + 1 + i * i) * v for i, v in enumerate(np.asarray(self, dtype=object).ravel()))
        return f

    def mean(self, *args, **kwargs):
        xs = [v for v in np.asarray(self, dtype=object).ravel() if not isnan(v)]
        return add(xs) / len(xs) if xs else math.nan
    for name, fn in (('mean', mean), ('skew', moment(2)), ('kurtosis', moment(7))):
        for cls in (pd.Series, pd.DataFrame):
            def f(self, *args, _old=getattr(cls, name), _fn=fn, **kwargs):
                if not any(is_sym(v) for v in np.asarray(self, dtype=object).ravel()):
                    return _old(self, *args, **kwargs)
                if self.ndim == 1:
                    return _fn(self)
                return pd.Series([_fn(self.iloc[:, i]) for i in range(self.shape[1])], index=self.columns, dtype=object)
            setattr(cls, name, f)


def add(xs):
    xs = list(xs)
    return sum(xs[1:], xs[0]) if xs else 0.0


def quiet(f, *args, **kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*args, **kwargs)


def per(x, m):
    """value per column or group"""
    if isinstance(x, pd.Series):
        assert len(x) == m, (len(x), m)
        return list(x)
    assert m == 1
    return [x]


def avg(xs):
    if isinstance(xs[0], (pd.Timestamp, pd.Timedelta)) or xs[0] is pd.NaT:
        return pd.Series(xs).mean()
    ok = [x for x in xs if not isnan(x)]
    return add(ok) / len(ok) if ok else math.nan


def day(x):
    return x * pd.Timedelta(days=1) if not isnan(x) else pd.NaT


def norm(x):
    """comparable form: time values as numbers of days"""
    if x is pd.NaT:
        return math.nan
    if isinstance(x, (pd.Timedelta, np.timedelta64)):
        return pd.Timedelta(x) / pd.Timedelta(days=1)
    if isinstance(x, pd.Timestamp):
        return (x.tz_localize(None) - pd.Timestamp('2020-01-01')) / pd.Timedelta(days=1)
    if x is pd.NA:
        return math.nan
    return x


def verify(h, got, names, want, mode, labels, label, aggname='agg_func_mean', keep=()):
    """want: title -> value per column (list), or ('all', value) for values of the whole object;
    mode: 'one' (object has one column), ('column', k), 'agg' (default aggregation) or 'none' (one row per column)"""
    h.check(got is not None, label + ': something is reported')
    if got is None:
        return
    titles = list(names)
    if mode == 'none':
        h.check(isinstance(got, pd.DataFrame), label + ': a frame per column')
        h.eq(list(got.columns), titles, label + ': titles')
        h.eq(list(got.index), list(labels), label + ': columns')
    else:
        h.check(isinstance(got, pd.Series), label + ': a series')
        h.eq(list(got.index), titles, label + ': titles')
        h.eq(got.name or 0 if labels[0] == 0 else got.name, {'one': labels[0], 'agg': aggname}.get(mode) if isinstance(mode, str) else labels[mode[1]], label + ': name')
    for t in titles:
        w = want[t]
        whole = isinstance(w, tuple)
        if mode == 'none':
            g, x = list(got[t]), [w[1]] * len(labels) if whole else list(w)
        else:
            g = [got[t]]
            x = [w[1] if whole else w[0] if mode == 'one' else avg(w) if mode == 'agg' else w[mode[1]]]
        same(h, g, x, label + ': ' + t)


def same(h, got, want, label):
    """durations are reported to the second"""
    g, w = [], []
    for a, b in zip(got, want):
        if isinstance(a, (pd.Timedelta, np.timedelta64)) and isinstance(b, (pd.Timedelta, np.timedelta64)) and a is not pd.NaT and b is not pd.NaT:
            h.check(abs(pd.Timedelta(a) - pd.Timedelta(b)) <= pd.Timedelta(seconds=2), '%s: %s vs %s' % (label, a, b))
        else:
            h.eq(isinstance(a, (pd.Timedelta, np.timedelta64)), isinstance(b, (pd.Timedelta, np.timedelta64)), label + ': kind')
            g.append(norm(a))
            w.append(norm(b))
    h.eq(g, w, label)


def start(n, freq='D'):
    if not freq:
        return {'Start': ('all', 0), 'End': ('all', n - 1), 'Period': ('all', n)}
    return {'Start': ('all', pd.Timestamp('2020-01-01')), 'End': ('all', pd.Timestamp('2020-01-01') + pd.Timedelta(days=n - 1)),
            'Period': ('all', pd.Timedelta(days=n))}


def modes_of(m):
    return ['one'] if m == 1 else ['agg', 'none'] + [('column', k) for k in range(m)]


# ------------------------------------------------------------------------------------------------------------------- portfolio
PF = ['Start', 'End', 'Period', 'Start Value', 'End Value', 'Total Return [%]', 'Benchmark Return [%]', 'Max Gross Exposure [%]', 'Total Fees Paid',
      'Max Drawdown [%]', 'Max Drawdown Duration', 'Total Trades', 'Total Closed Trades', 'Total Open Trades', 'Open Trade PnL', 'Win Rate [%]',
      'Best Trade [%]', 'Worst Trade [%]', 'Avg Winning Trade [%]', 'Avg Losing Trade [%]', 'Avg Winning Trade Duration',
      'Avg Losing Trade Duration', 'Profit Factor', 'Expectancy', 'Sharpe Ratio', 'Calmar Ratio', 'Omega Ratio', 'Sortino Ratio']


def pf_ref(q, m, gb, tt, incl, asset, extra, only):
    """q: fresh portfolio"""
    kw = {} if gb is None else dict(group_by=gb)
    tr = {'entrytrades': q.get_entry_trades, 'exittrades': q.get_exit_trades, 'positions': q.get_positions}[tt](**kw)
    use = tr if incl else tr.closed
    dd = q.get_drawdowns(**kw)
    P = lambda x: [v * 100 for v in per(x, m)]
    out = {
        'Start Value': lambda: per(q.get_init_cash(**kw), m),
        'End Value': lambda: per(q.final_value(**kw), m),
        'Total Return [%]': lambda: P(q.total_return(**kw)),
        'Benchmark Return [%]': lambda: P(q.total_benchmark_return(**kw)),
        'Max Gross Exposure [%]': lambda: [100 * mx(c) for c in colsof(q.gross_exposure(**kw))],
        'Total Fees Paid': lambda: per(q.get_orders(**kw).fees.sum(), m),
        'Max Drawdown [%]': lambda: [-v * 100 for v in per(dd.max_drawdown(), m)],
        'Max Drawdown Duration': lambda: per(dd.max_duration(), m),
        'Total Trades': lambda: per(tr.count(), m),
        'Total Closed Trades': lambda: per(tr.closed.count(), m),
        'Total Open Trades': lambda: per(tr.open.count(), m),
        'Open Trade PnL': lambda: per(tr.open.pnl.sum(), m),
        'Win Rate [%]': lambda: P(use.win_rate()),
        'Best Trade [%]': lambda: P(use.returns.max()),
        'Worst Trade [%]': lambda: P(use.returns.min()),
        'Avg Winning Trade [%]': lambda: P(use.winning.returns.mean()),
        'Avg Losing Trade [%]': lambda: P(use.losing.returns.mean()),
        'Avg Winning Trade Duration': lambda: [day(x) for x in per(use.winning.duration.mean(), m)],
        'Avg Losing Trade Duration': lambda: [day(x) for x in per(use.losing.duration.mean(), m)],
        'Profit Factor': lambda: per(use.profit_factor(), m),
        'Expectancy': lambda: per(use.expectancy(), m),
    }
    if any(t.endswith('Ratio') for t in only):
        rets = q.asset_returns(**kw) if asset else q.returns(**kw)
        ra = rets.vbt.returns(freq='D', year_freq=extra.get('year_freq', '365 days'))
        a = {k: v for k, v in extra.items() if k == 'risk_free'}
        b = {k: v for k, v in extra.items() if k == 'required_return'}
        out.update({
            'Sharpe Ratio': lambda: per(ra.sharpe_ratio(**a), m),
            'Calmar Ratio': lambda: per(ra.calmar_ratio(), m),
            'Omega Ratio': lambda: per(ra.omega_ratio(**a, **b), m),
            'Sortino Ratio': lambda: per(ra.sortino_ratio(**b), m),
        })
    return {t: out[t]() for t in only if t in out}


def mx(xs):
    best = math.nan
    for x in xs:
        if not isnan(x) and (isnan(best) or x > best):
            best = x
    return best


def colsof(x):
    return [list(x)] if isinstance(x, pd.Series) else [list(x.iloc[:, i]) for i in range(x.shape[1])]


KEYS = dict(zip(PF, ['start', 'end', 'period', 'start_value', 'end_value', 'total_return', 'benchmark_return', 'max_gross_exposure', 'total_fees_paid',
                     'max_dd', 'max_dd_duration', 'total_trades', 'total_closed_trades', 'total_open_trades', 'open_trade_pnl', 'win_rate',
                     'best_trade', 'worst_trade', 'avg_winning_trade', 'avg_losing_trade', 'avg_winning_trade_duration',
                     'avg_losing_trade_duration', 'profit_factor', 'expectancy', 'sharpe_ratio', 'calmar_ratio', 'omega_ratio', 'sortino_ratio']))
PARTS = dict(value=PF[:11], trades=PF[11:24], ratios=PF[24:], all=PF)


def index(n, freq='D'):
    return pd.date_range('2020-01-01', periods=n) if freq else pd.RangeIndex(n)


def frame(h, close, n, ncol, freq='D'):
    idx = index(n, freq)
    return pd.DataFrame(close, index=idx, columns=list('abcd'[:ncol])) if ncol > 1 else pd.Series([close[i, 0] for i in range(n)], index=idx, name='a')


def wrapper(h, n, ncol, gb=None, freq='D'):
    kw = {} if gb is None else dict(group_by=np.array(gb))
    return h.vbt.ArrayWrapper(index(n, freq), pd.Index(list('abcd'[:ncol])), 2 if ncol > 1 else 1, freq=freq, **kw)


CONC = dict(size=(1.0, 2.5, 1.5, 0.5), price=(10.0, 8.0, 12.0, 9.0), fee=(0.25, 0.5, 0.0, 1.0))


def book(h, lay, n, ncol, free):
    """order records and closes; `free`: what is symbolic"""
    from vectorbt.portfolio.enums import order_dt
    npx = h.vbt._symx_np if h.sym else np
    L = c08.LAY[lay]
    arr = npx.empty(len(L), dtype=order_dt)
    val = lambda what, k, **kw: h.real('%s%d' % (what, k), **kw) if what in free else CONC[what][k % 4]
    for k, (c, i, buy) in enumerate(L):
        for f, v in (('id', k), ('col', c), ('idx', i), ('size', val('size', k, lo=1, hi=10)), ('price', val('price', k, lo=1, hi=20)),
                     ('fees', val('fee', k, lo=0, hi=1)), ('side', 0 if buy else 1)):
            arr[f][k] = v
    if 'close' in free:
        close = h.floats2('close', (n, ncol), nan=False, lo=1, hi=20)
    else:
        close = h.array([[h.real('close%d' % c, lo=5, hi=20) if i == n - 1 else float((7 * i + 5 * c) % 11 + 4) for c in range(ncol)] for i in range(n)])
    return arr, close


def labels_of(ncol, gb, by):
    """columns or groups of the report"""
    if by is not None and by is not False:
        return sorted(set(GROUPS[by]))
    if gb is not None and by is None:
        return sorted(set(gb))
    return list('abcd'[:ncol])


TT = dict(entrytrades='EntryTrades', exittrades='ExitTrades', positions='Positions')


def portfolio(h, lay, part, free=('close',), ncol=1, groups=None, sharing=False, by=None, own='exittrades', settings=None, sym=(), n=3, modes=None,
              upper=False):
    """own: the portfolio's trades_type; settings passed to stats (names listed in `sym` get symbolic numbers)"""
    from vectorbt.portfolio.enums import log_dt, TradesType
    gb = GROUPS[groups] if groups else None
    settings = dict(settings or {})
    for name in sym:
        settings[name] = h.real(name, lo=-0.5, hi=0.5)
    k0 = len(set(gb)) if gb and sharing else ncol
    icash = h.array([h.real('cash%d' % k, lo=1000) if 'cash' in free else 1000.0 + 500 * k for k in range(k0)])
    arr, close = book(h, lay, n, ncol, free)

    def mk():
        return h.vbt.Portfolio(wrapper(h, n, ncol, gb), frame(h, close, n, ncol), arr, np.empty(0, dtype=log_dt), icash, sharing,
                               trades_type=getattr(TradesType, TT[own]))
    pf, q = mk(), mk()
    labels = labels_of(ncol, gb, by)
    m = len(labels)
    arg = None if by is None else (False if by is False else np.array(GROUPS[by]))
    kw = {} if by is None else dict(group_by=arg)
    names = PARTS[part] if part in PARTS else [part]
    tt = settings.get('trades_type', own)
    if not isinstance(tt, str):
        tt = list(TT)[tt]
    want = dict(start(n), **quiet(pf_ref, q, m, arg, tt.lower(), settings.get('incl_open', False), settings.get('use_asset_returns', False),
                                  settings, names))
    metrics = [KEYS[t] for t in names]
    for mode in [mo for mo in modes_of(m) if modes is None or mo in modes or list(mo) in modes]:
        a = dict(kw)
        if mode == 'none':
            a['agg_func'] = None
        elif isinstance(mode, tuple):
            a['column'] = labels[mode[1]]
        got, exc = h.call(quiet, pf.stats, metrics, settings=dict(settings), silence_warnings=True, **a)
        h.check(exc is None, 'stats raises %s' % exc)
        if exc is None:
            verify(h, got, names, want, mode, labels, 'portfolio %s' % (mode,))
    if part == 'all':
        got = quiet(pf.stats, settings=dict(settings), silence_warnings=True, **kw)
        verify(h, got, names, want, 'one' if m == 1 else 'agg', labels, 'portfolio, all metrics')


def trades_choice(h, own, type):
    """the setting trades_type selects the kind of trades the metrics are about"""
    from vectorbt.portfolio.enums import log_dt, TradesType
    arr, close = book(h, 'bbs', 3, 1, ('price',))
    pf = h.vbt.Portfolio(wrapper(h, 3, 1), frame(h, close, 3, 1), arr, np.empty(0, dtype=log_dt), h.array([1000.0]), False,
                         trades_type=getattr(TradesType, TT[own]))
    want = {'entrytrades': pf.get_entry_trades, 'exittrades': pf.get_exit_trades, 'positions': pf.get_positions}[type]()
    got = quiet(pf.stats, ['total_trades', 'best_trade'], settings=dict(trades_type=type))
    h.eq([got['Total Trades'], got['Best Trade [%]']], [want.count(), want.closed.returns.max() * 100], 'metrics of %s on request' % type)


# ------------------------------------------------------------------------------------------------------------------- records
def mult(xs, k):
    return [x * k for x in xs]


def trades_ref(x, m, incl, pos):
    c = x.closed
    u = x if incl else c
    w, l = u.winning, u.losing
    name = dict(zip(KTR, KTR))

    def ends(first):
        out = []
        for k in range(m):
            rows = [r for r in range(len(x.values)) if x.wrapper.grouper.get_groups()[int(x.values['col'][r])] == k]
            if not rows:
                out.append(pd.NaT)
            else:
                out.append(x.wrapper.index[int(x.values['entry_idx'][rows[0]] if first else x.values['exit_idx'][rows[-1]])])
        return out
    return {
        'First Trade Start': ends(True), 'Last Trade End': ends(False),
        'Coverage': [day(v) for v in per(x.coverage(overlapping=False, normalize=False), m)],
        'Overlap Coverage': [day(v) for v in per(x.coverage(overlapping=True, normalize=False), m)],
        'Total Records': per(x.count(), m), 'Total Long Trades': per(x.long.count(), m), 'Total Short Trades': per(x.short.count(), m),
        'Total Closed Trades': per(c.count(), m), 'Total Open Trades': per(x.open.count(), m), 'Open Trade PnL': per(x.open.pnl.sum(), m),
        'Win Rate [%]': mult(per(c.win_rate(), m), 100),
        'Max Win Streak': per(u.winning_streak.max(), m), 'Max Loss Streak': per(u.losing_streak.max(), m),
        'Best Trade [%]': mult(per(u.returns.max(), m), 100), 'Worst Trade [%]': mult(per(u.returns.min(), m), 100),
        'Avg Winning Trade [%]': mult(per(w.returns.mean(), m), 100), 'Avg Losing Trade [%]': mult(per(l.returns.mean(), m), 100),
        'Avg Winning Trade Duration': [day(v) for v in per(w.duration.mean(), m)],
        'Avg Losing Trade Duration': [day(v) for v in per(l.duration.mean(), m)],
        'Profit Factor': per(u.profit_factor(), m), 'Expectancy': per(u.expectancy(), m), 'SQN': per(u.sqn(), m)}


KTR = ['First Trade Start', 'Last Trade End', 'Coverage', 'Overlap Coverage', 'Total Records', 'Total Long Trades', 'Total Short Trades',
       'Total Closed Trades', 'Total Open Trades', 'Open Trade PnL', 'Win Rate [%]', 'Max Win Streak', 'Max Loss Streak', 'Best Trade [%]',
       'Worst Trade [%]', 'Avg Winning Trade [%]', 'Avg Losing Trade [%]', 'Avg Winning Trade Duration', 'Avg Losing Trade Duration',
       'Profit Factor', 'Expectancy', 'SQN']


def dd_ref(x, m, incl, grouped):
    rec = x.recovered
    use = x if incl else rec
    raw = dict(wrap_kwargs=dict(to_timedelta=False))
    out = {'Coverage [%]': mult(per(x.coverage(), m), 100), 'Total Records': per(x.count(), m), 'Total Recovered Drawdowns': per(rec.count(), m),
           'Total Active Drawdowns': per(x.active.count(), m)}
    if not grouped:
        out.update({'Active Drawdown [%]': mult(per(x.active_drawdown(), m), -100), 'Active Duration': [day(v) for v in per(x.active_duration(**raw), m)],
                    'Active Recovery [%]': mult(per(x.active_recovery(), m), 100),
                    'Active Recovery Return [%]': mult(per(x.active_recovery_return(), m), 100),
                    'Active Recovery Duration': [day(v) for v in per(x.active_recovery_duration(**raw), m)]})
    out.update({'Max Drawdown [%]': mult(per(use.drawdown.min(), m), -100), 'Avg Drawdown [%]': mult(per(use.drawdown.mean(), m), -100),
                'Max Drawdown Duration': [day(v) for v in per(use.duration.max(), m)],
                'Avg Drawdown Duration': [day(v) for v in per(use.duration.mean(), m)],
                'Max Recovery Return [%]': mult(per(rec.recovery_return.max(), m), 100),
                'Avg Recovery Return [%]': mult(per(rec.recovery_return.mean(), m), 100),
                'Max Recovery Duration': [day(v) for v in per(rec.recovery_duration.max(), m)],
                'Avg Recovery Duration': [day(v) for v in per(rec.recovery_duration.mean(), m)],
                'Avg Recovery Duration Ratio': per(rec.recovery_duration_ratio.mean(), m)})
    return out


def orders_ref(x, m):
    b, s = x.buy, x.sell
    return {'Total Records': per(x.count(), m), 'Total Buy Orders': per(b.count(), m), 'Total Sell Orders': per(s.count(), m),
            'Min Size': per(x.size.min(), m), 'Max Size': per(x.size.max(), m), 'Avg Size': per(x.size.mean(), m),
            'Avg Buy Size': per(b.size.mean(), m), 'Avg Sell Size': per(s.size.mean(), m),
            'Avg Buy Price': per(b.price.mean(), m), 'Avg Sell Price': per(s.price.mean(), m), 'Total Fees': per(x.fees.sum(), m),
            'Min Fees': per(x.fees.min(), m), 'Max Fees': per(x.fees.max(), m), 'Avg Fees': per(x.fees.mean(), m),
            'Avg Buy Fees': per(b.fees.mean(), m), 'Avg Sell Fees': per(s.fees.mean(), m)}


def each(h, obj, kw, names, want, labels, label, modes=None, settings=None, metrics=None, **extra):
    """stats of one object in every way of selecting and aggregating columns"""
    for mode in [mo for mo in modes_of(len(labels)) if modes is None or mo in modes or list(mo) in modes]:
        a = dict(kw)
        if mode == 'none':
            a['agg_func'] = None
        elif isinstance(mode, tuple):
            a['column'] = labels[mode[1]]
        got, exc = h.call(quiet, obj.stats, metrics, settings=None if settings is None else dict(settings), silence_warnings=True, **a, **extra)
        h.check(exc is None, label + ' stats raises %s' % exc)
        if exc is None:
            verify(h, got, names, want, mode, labels, label + ' %s' % (mode,))


def records(h, what, lay, free=('price',), ncol=1, groups=None, by=None, incl=None, n=3, modes=None):
    """order records and everything derived from them: orders, entry trades, exit trades, positions"""
    from vectorbt.portfolio.enums import log_dt
    gb = GROUPS[groups] if groups else None
    arr, close = book(h, lay, n, ncol, free)

    def mk():
        pf = h.vbt.Portfolio(wrapper(h, n, ncol, gb), frame(h, close, n, ncol), arr, np.empty(0, dtype=log_dt), h.array([1000.0] * ncol), False)
        return getattr(pf, what)
    obj, q = mk(), mk()
    labels = labels_of(ncol, gb, by)
    m = len(labels)
    kw = {} if by is None else dict(group_by=False if by is False else np.array(GROUPS[by]))
    if by is not None:
        q = q.regroup(kw['group_by'])
    want = start(n)
    want.update(quiet(orders_ref, q, m) if what == 'orders' else quiet(trades_ref, q, m, bool(incl), what == 'positions'))
    each(h, obj, kw, list(want), want, labels, what, modes, None if incl is None else dict(incl_open=incl))


def drawdowns(h, n, ncol=1, groups=None, by=None, incl=None, modes=None, lo=1):
    gb = GROUPS[groups] if groups else None
    x = h.floats2('x', (n, ncol), nan=False, lo=lo, hi=20)
    def mk():
        return h.vbt.Drawdowns.from_ts(frame(h, x, n, ncol), wrapper_kwargs=dict(freq='D', **({} if gb is None else dict(group_by=np.array(gb)))))
    obj, q = mk(), mk()
    labels = labels_of(ncol, gb, by)
    kw = {} if by is None else dict(group_by=False if by is False else np.array(GROUPS[by]))
    if by is not None:
        q = q.regroup(kw['group_by'])
    grouped = (gb is not None and by is None) or (by not in (None, False))
    want = dict(start(n), **quiet(dd_ref, q, len(labels), bool(incl), grouped))
    each(h, obj, kw, list(want), want, labels, 'drawdowns', modes, None if incl is None else dict(incl_active=incl))


def stat(xs, name, ddof=1):
    from checks import c22
    v = [x for x in xs if not isnan(x)]
    if name == 'median':
        return c22.median(xs)
    if name == 'std':
        if len(v) <= ddof:
            return math.nan
        mu = add(v) / len(v)
        from symx.harness import sqrt
        return sqrt(add((x - mu) * (x - mu) for x in v) / (len(v) - ddof))
    return c22.stat(xs, name)


def ranges(h, n, ncol=1, groups=None, by=None, modes=None, recs=(0, 0), freq='D'):
    """range records with symbolic starts and ends, in the columns `recs`"""
    from vectorbt.generic.enums import range_dt
    gb = GROUPS[groups] if groups else None
    npx = h.vbt._symx_np if h.sym else np
    arr = npx.empty(len(recs), dtype=range_dt)
    spec = []
    for k, c in enumerate(recs):
        s = h.choice('s%d' % k, list(range(n)))
        e = h.choice('e%d' % k, list(range(n)))
        o = h.choice('o%d' % k, [0, 1])
        h.assume(e >= s and (o == 1 or e == n - 1))
        spec.append((c, s, e, o))
        for f, v in (('id', k), ('col', c), ('start_idx', s), ('end_idx', e), ('status', o)):
            arr[f][k] = v
    obj = h.vbt.Ranges(wrapper(h, n, ncol, gb, freq=freq), arr)
    labels = labels_of(ncol, gb, by)
    kw = {} if by is None else dict(group_by=False if by is False else np.array(GROUPS[by]))
    eff = [c for c in range(ncol)] if by is False or (by is None and gb is None) else list(GROUPS[by] if by is not None else gb)
    cols = [[c for c in range(ncol) if eff[c] == g] for g in sorted(set(eff))]
    dur = [[e - s + (1 - o) for (c, s, e, o) in spec if c in g] for g in cols]
    cov, over = [], []
    for g in cols:
        if not any(c in g for (c, s, e, o) in spec):
            cov.append(math.nan)
            over.append(math.nan)
            continue
        a = b = 0
        for i in range(n):
            # an open range covers its last row too
            cnt = sum(1 for (c, s, e, o) in spec if c in g and s <= i and (i < e or (o == 0 and i == e)))
            a += cnt >= 1
            b += cnt >= 2
        cov.append(a)
        over.append(b)
    td = day if freq else (lambda v: v)
    want = start(n, freq)
    want.update({'Coverage': [td(v) for v in cov], 'Overlap Coverage': [td(v) for v in over], 'Total Records': [len(d) for d in dur]})
    for t, nm in (('Min', 'min'), ('Median', 'median'), ('Max', 'max'), ('Mean', 'mean'), ('Std', 'std')):
        want['Duration: ' + t] = [td(stat([float(x) for x in d], nm)) for d in dur]
    each(h, obj, kw, list(want), want, labels, 'ranges', modes)


def grid(x, cols):
    """values of a group, row by row"""
    return [x[i, c] for c in cols for i in range(x.shape[0])]


def split(ncol, groups, by):
    gb = GROUPS[by] if by not in (None, False) else (GROUPS[groups] if groups and by is None else None)
    return [[c for c in range(ncol) if gb[c] == g] for g in sorted(set(gb))] if gb else [[c] for c in range(ncol)]


BASIC = (('Mean', 'mean'), ('Std', 'std'), ('Min', 'min'), ('Median', 'median'), ('Max', 'max'))


def generic(h, n, ncol=1, groups=None, by=None, nan=True, modes=None, mapping=None, incl=None, late=False, freq='D'):
    """mapping: value counts; late: mapping passed through settings"""
    gb = GROUPS[groups] if groups else None
    if mapping is None:
        x = h.floats2('x', (n, ncol), nan=nan)
    else:
        x = h.array([[h.choice('x%d_%d' % (i, c), [0, 1, 2] if i < 2 and c == 0 else [0, 1]) for c in range(ncol)] for i in range(n)], int) if False else \
            np.array([[h.choice('x%d_%d' % (i, c), [0, 1, 2] if i < 2 and c == 0 else [0, 1]) for c in range(ncol)] for i in range(n)])
    kw0 = dict(freq=freq)
    if gb is not None:
        kw0['group_by'] = np.array(gb)
    M = None if mapping is None else {0: 'zero', 1: 'one', 2: 'two', 3: 'three'}
    if M and not late:
        kw0['mapping'] = M
    obj = frame(h, x, n, ncol, freq).vbt(**kw0)
    labels = labels_of(ncol, gb, by)
    kw = {} if by is None else dict(group_by=False if by is False else np.array(GROUPS[by]))
    cols = split(ncol, groups, by)
    want = start(n, freq)
    idx = index(n, freq)
    settings = {}
    if M is None:
        xs = [grid(x, g) for g in cols]
        want['Count'] = [len([v for v in q if not isnan(v)]) for q in xs]
        for t, nm in BASIC:
            want[t] = [stat(q, nm) for q in xs]
        if len(cols) == ncol:
            for t, better in (('Min Index', lambda a, b: a < b), ('Max Index', lambda a, b: a > b)):
                out = []
                for q in xs:
                    best = None
                    for i, v in enumerate(q):
                        if not isnan(v) and (best is None or better(v, q[best])):
                            best = i
                    out.append(pd.NaT if best is None else idx[best])
                want[t] = out
        names = [t for t in want if t not in ('Min Index', 'Max Index')] if len(cols) > 1 else list(want)
    else:
        xs = [[int(v) for v in grid(x, g)] for g in cols]
        allv = set(v for q in xs for v in q)
        if late:
            settings['mapping'] = M
        if incl:
            settings['incl_all_keys'] = True
            allv |= set(M)
        for v in allv:
            want['Value Counts: ' + M[v]] = [q.count(v) for q in xs]
        names = list(want)
    mets = None
    for mode in [mo for mo in modes_of(len(labels)) if modes is None or mo in modes or list(mo) in modes]:
        a = dict(kw)
        if mode == 'none':
            a['agg_func'] = None
        elif isinstance(mode, tuple):
            a['column'] = labels[mode[1]]
        got, exc = h.call(quiet, obj.stats, mets, settings=dict(settings), silence_warnings=True, **a)
        h.check(exc is None, 'generic stats raises %s' % exc)
        if exc is None:
            nm = list(want) if mode != 'agg' else names
            if M is not None:
                # counts appear in any order
                have = list(got.columns if isinstance(got, pd.DataFrame) else got.index)
                h.eq(sorted(have), sorted(nm), 'value counts: titles')
                nm = have
            if mode != 'agg' and len(cols) != ncol and M is None:
                nm = [t for t in (got.columns if mode == 'none' else got.index) if t not in ('Min Index', 'Max Index')]
                got = got[nm]
                h.eq(nm, list(names), 'titles without rows')
            verify(h, got, nm, want, mode, labels, 'generic %s' % (mode,))


def mapped(h, n, cols, ncol=1, groups=None, by=None, nan=True, modes=None, mapping=False):
    gb = GROUPS[groups] if groups else None
    m = len(cols)
    w = wrapper(h, n, ncol, gb)
    if mapping:
        v = np.array([h.choice('v%d' % k, [0, 1]) for k in range(m)])
    else:
        v = h.floats('v', m, nan=nan)
    if not mapping:
        for g in split(ncol, groups, by):
            # the position of the lowest of no values is refused
            h.assume(or_(*[not_(isnan(v[k])) for k in range(m) if cols[k] in g]) if any(cols[k] in g for k in range(m)) else True)
    obj = h.vbt.MappedArray(w, v, np.array(cols), id_arr=np.arange(m), idx_arr=np.array([k % n for k in range(m)]),
                            **(dict(mapping={0: 'zero', 1: 'one'}) if mapping else {}))
    labels = labels_of(ncol, gb, by)
    kw = {} if by is None else dict(group_by=False if by is False else np.array(GROUPS[by]))
    gl = split(ncol, groups, by)
    want = start(n)
    xs = [[v[k] for k in range(m) if cols[k] in g] for g in gl]
    ks = [[k for k in range(m) if cols[k] in g] for g in gl]
    want['Count'] = [len(q) for q in xs]
    if mapping:
        for val, t in ((0, 'zero'), (1, 'one')):
            c = [[int(y) for y in q].count(val) for q in xs]
            if sum(c):
                want['Value Counts: ' + t] = c
    else:
        for t, nm in BASIC:
            want[t] = [stat(q, nm) for q in xs]
        idx = pd.date_range('2020-01-01', periods=n)
        for t, better in (('Min Index', lambda a, b: a < b), ('Max Index', lambda a, b: a > b)):
            out = []
            for q, kk in zip(xs, ks):
                best = None
                for i, y in enumerate(q):
                    if not isnan(y) and (best is None or better(y, q[best])):
                        best = i
                out.append(pd.NaT if best is None else idx[kk[best] % n])
            want[t] = out
    for mode in [mo for mo in modes_of(len(labels)) if modes is None or mo in modes or list(mo) in modes]:
        names = [t for t in want if not (mode == 'agg' and t in ('Min Index', 'Max Index'))]
        each(h, obj, kw, names, want, labels, 'mapped array', [mode])


def signals(h, n, ncol=1, groups=None, by=None, other=False, from_other=False, modes=None, part='all', freq='D'):
    gb = GROUPS[groups] if groups else None
    a = np.array([[bool(h.choice('a%d_%d' % (i, c), [0, 1])) for c in range(ncol)] for i in range(n)])
    b = np.array([[bool(h.choice('b%d_%d' % (i, c), [0, 1])) for c in range(ncol)] for i in range(n)]) if other else None
    kw0 = dict(freq=freq)
    if gb is not None:
        kw0['group_by'] = np.array(gb)

    def mk(g=None):
        k = dict(kw0)
        if by is not None:
            k['group_by'] = None if by is False else np.array(GROUPS[by])
        return frame(h, a, n, ncol, freq).vbt.signals(**k)
    obj, q = frame(h, a, n, ncol, freq).vbt.signals(**kw0), mk()
    labels = labels_of(ncol, gb, by)
    m = len(labels)
    kw = {} if by is None else dict(group_by=False if by is False else np.array(GROUPS[by]))
    gl = split(ncol, groups, by)
    td = day if freq else (lambda v: v)
    want = start(n, freq)
    tot = [int(sum(a[:, c].sum() for c in g)) for g in gl]
    want['Total'] = tot
    want['Rate [%]'] = [100.0 * t / (n * len(g)) for t, g in zip(tot, gl)]
    settings = {}
    if other:
        settings = dict(other=frame(h, b, n, ncol, freq), from_other=from_other, other_name='B')
        both = [int(sum((a[:, c] & b[:, c]).sum() for c in g)) for g in gl]
        anyx = [int(sum((a[:, c] | b[:, c]).sum() for c in g)) for g in gl]
        want['Total Overlapping'] = both
        want['Overlapping Rate [%]'] = [100.0 * x / y if y else math.nan for x, y in zip(both, anyx)]
    idx = index(n, freq)
    rows = [[i for i in range(n) if any(a[i, c] for c in g)] for g in gl]
    want['First Index'] = [idx[r[0]] if r else pd.NaT for r in rows]
    want['Last Index'] = [idx[r[-1]] if r else pd.NaT for r in rows]
    pos = [[i for c in g for i in range(n) if a[i, c]] for g in gl]
    want['Norm Avg Index [-1, 1]'] = [-1 + 2 * (sum(p) / len(p)) / (n - 1) if p else math.nan for p in pos]
    from checks.c25 import expect

    def dist(kind, title, fo=False):
        d = [[float(e - s + (1 - o)) for c in g for (s, e, o) in expect(kind, list(a[:, c]), list(b[:, c]) if b is not None else None, fo)] for g in gl]
        for t, nm in (('Min', 'min'), ('Max', 'max'), ('Mean', 'mean'), ('Std', 'std')):
            want['%s: %s' % (title, t)] = [td(stat(x, nm)) for x in d]
    if other:
        dist('two', 'Distance %s B' % ('<-' if from_other else '->'), from_other)
    else:
        dist('between', 'Distance')
    parts = [sum(len(expect('partition', list(a[:, c]))) for c in g) for g in gl]
    want['Total Partitions'] = parts
    want['Partition Rate [%]'] = [100.0 * p / t if t else math.nan for p, t in zip(parts, tot)]
    dist('partition', 'Partition Length')
    dist('between_partition', 'Partition Distance')
    each(h, obj, kw, list(want), want, labels, 'signals', modes, settings)


RT = ['Total Return [%]', 'Benchmark Return [%]', 'Annualized Return [%]', 'Annualized Volatility [%]', 'Max Drawdown [%]', 'Max Drawdown Duration',
      'Sharpe Ratio', 'Calmar Ratio', 'Omega Ratio', 'Sortino Ratio', 'Skew', 'Kurtosis', 'Tail Ratio', 'Common Sense Ratio', 'Value at Risk',
      'Alpha', 'Beta']
RK = ['total_return', 'benchmark_return', 'ann_return', 'ann_volatility', 'max_dd', 'max_dd_duration', 'sharpe_ratio', 'calmar_ratio', 'omega_ratio',
      'sortino_ratio', 'skew', 'kurtosis', 'tail_ratio', 'common_sense_ratio', 'value_at_risk', 'alpha', 'beta']


def returns(h, n, which, ncol=1, bench=True, freq='D', defaults=None, settings=None, sym=(), symset=(), modes=None, free=None, via='acc'):
    """sym: names of parameters given at construction; symset: of parameters given to stats()"""
    r = h.floats2('r', (n, ncol), nan=False, lo=-0.5, hi=0.5) if free is None else \
        h.array([[h.real('r%d_%d' % (i, c), lo=-0.5, hi=0.5) if i * ncol + c in free else (0.02, -0.01, 0.03, 0.015, -0.02)[(i + 2 * c) % 5]
                  for c in range(ncol)] for i in range(n)])
    b = h.array([[(0.01, 0.02, -0.015, 0.005)[(i + c) % 4] if (i, c) != (0, 0) else h.real('b', lo=-0.5, hi=0.5) for c in range(ncol)] for i in range(n)])
    D = dict(defaults or {})
    S = dict(settings or {})
    for k in sym:
        D[k] = h.real(k, lo=-0.1, hi=0.1)
    for k in symset:
        S[k] = h.real('s_' + k, lo=-0.1, hi=0.1)
    yf = S.get('year_freq', '252 days')

    def mk(rets, d, y):
        kw = dict(freq=freq, year_freq=y)
        if bench:
            kw['benchmark_rets'] = frame(h, b, n, ncol, freq)
        if d:
            kw['defaults'] = dict(d)
        return rets.vbt.returns(**kw)
    obj = mk(frame(h, r, n, ncol, freq), D, '252 days')
    eff = dict(D, **{k: v for k, v in S.items() if k not in ('year_freq', 'benchmark_rets')})
    q = mk(frame(h, r, n, ncol, freq), eff, yf)
    names = [t for t in RT if which == 'all' or t in which]
    m = ncol
    P = lambda x: mult(per(x, m), 100)
    f = {'Total Return [%]': lambda: P(q.total()), 'Benchmark Return [%]': lambda: P(frame(h, b, n, ncol, freq).vbt.returns(freq=freq).total()),
         'Annualized Return [%]': lambda: P(q.annualized()), 'Annualized Volatility [%]': lambda: P(q.annualized_volatility()),
         'Max Drawdown [%]': lambda: mult(per(q.drawdowns.max_drawdown(), m), -100), 'Max Drawdown Duration': lambda: per(q.drawdowns.max_duration(), m),
         'Sharpe Ratio': lambda: per(q.sharpe_ratio(), m), 'Calmar Ratio': lambda: per(q.calmar_ratio(), m),
         'Omega Ratio': lambda: per(q.omega_ratio(), m), 'Sortino Ratio': lambda: per(q.sortino_ratio(), m),
         'Skew': lambda: per(q.obj.skew(), m), 'Kurtosis': lambda: per(q.obj.kurtosis(), m), 'Tail Ratio': lambda: per(q.tail_ratio(), m),
         'Common Sense Ratio': lambda: per(q.common_sense_ratio(), m), 'Value at Risk': lambda: per(q.value_at_risk(), m),
         'Alpha': lambda: per(q.alpha(), m), 'Beta': lambda: per(q.beta(), m)}
    need_freq = ('Annualized Return [%]', 'Annualized Volatility [%]', 'Sharpe Ratio', 'Calmar Ratio', 'Omega Ratio', 'Sortino Ratio',
                 'Common Sense Ratio', 'Alpha')
    if not freq:
        names = [t for t in names if t not in need_freq]
    if not bench:
        names = [t for t in names if t not in ('Benchmark Return [%]', 'Alpha', 'Beta')]
    want = {t: quiet(f[t]) for t in names}
    mets = None if which == 'all' else [k for t, k in zip(RT, RK) if t in which]
    if which == 'all':
        want = dict(start(n, freq), **want)
        names = list(want)
    each(h, obj, {}, names, want, list('abcd'[:ncol]), 'returns', modes, S, metrics=mets)


def ohlcv(h, n, nan=False, cols=('Open', 'High', 'Low', 'Close', 'Volume'), names=None, fix=()):
    if fix:
        x = h.array([[h.real('x%d_%d' % (i, c), lo=1, hi=20) if (i, c) not in [tuple(f) for f in fix] else 5.0 + i + c for c in range(len(cols))] for i in range(n)])
    else:
        x = h.floats2('x', (n, len(cols)), nan=False, lo=1, hi=20) if not nan else \
        h.array([[math.nan if h.choice('m%d_%d' % (i, c), [0, 1]) else h.real('x%d_%d' % (i, c), lo=1, hi=20) for c in range(len(cols))] for i in range(n)])
    df = pd.DataFrame(x, index=pd.date_range('2020-01-01', periods=n), columns=list(cols))
    acc = df.vbt.ohlcv(freq='D', **({} if names is None else dict(column_names=names)))
    mp = {k: k for k in ('open', 'high', 'low', 'close', 'volume')}
    mp.update({k: v.lower() for k, v in (names or {}).items()})
    low = [c.lower() for c in cols]
    pr = [low.index(mp[k]) for k in ('open', 'high', 'low', 'close') if mp[k] in low]
    vol = low.index(mp['volume']) if mp['volume'] in low else None
    for k in ('open', 'high', 'low', 'close', 'volume'):
        s = getattr(acc, k)
        if mp[k] in low:
            h.eq(list(s), [x[i, low.index(mp[k])] for i in range(n)], 'column ' + k)
        else:
            h.check(s is None, 'no column ' + k)
    mets = []
    want = {}
    flat = [x[i, c] for i in range(n) for c in pr]
    ok = [v for v in flat if not isnan(v)]
    want['First Price'] = ('all', ok[0] if ok else math.nan)
    want['Last Price'] = ('all', ok[-1] if ok else math.nan)
    mets = ['first_price', 'last_price']
    if not nan:
        want['Lowest Price'] = ('all', -mx([-v for v in flat]))
        want['Highest Price'] = ('all', mx(flat))
        mets += ['lowest_price', 'highest_price']
    if vol is not None:
        vs = [x[i, vol] for i in range(n)]
        okv = [v for v in vs if not isnan(v)]
        want['First Volume'] = ('all', okv[0] if okv else math.nan)
        want['Last Volume'] = ('all', okv[-1] if okv else math.nan)
        mets += ['first_volume', 'last_volume']
        if not nan:
            want['Lowest Volume'] = ('all', -mx([-v for v in vs]))
            want['Highest Volume'] = ('all', mx(vs))
            mets += ['lowest_volume', 'highest_volume']
    got, exc = h.call(quiet, acc.stats, mets, silence_warnings=True)
    h.check(exc is None, 'ohlcv stats raises %s' % exc)
    if exc is None:
        h.eq([norm(got[t]) for t in want], [norm(want[t][1]) for t in want], 'ohlcv: ' + ', '.join(want))


def data(h, n, syms, series=False, by=None):
    cols = ['Close'] if series else ['Open', 'Close']
    D, miss = {}, {}
    for s in syms:
        a = [[bool(h.choice('m%s%d%s' % (s, i, c), [0, 1])) for c in cols] for i in range(n)]
        miss[s] = a
        df = pd.DataFrame([[math.nan if y else 1.5 for y in r] for r in a], index=pd.date_range('2020-01-01', periods=n), columns=cols)
        D[s] = df['Close'] if series else df
    d = h.vbt.Data.from_data(D, tz_localize=None, tz_convert=None, download_kwargs={})
    w = dict(start(n), **{'Total Symbols': ('all', len(syms))})
    for s in syms:
        w['Null Counts: ' + s] = [sum(r[c] for r in miss[s]) for c in range(len(cols))]
    each(h, d, {}, list(w), w, cols, 'data', None, dict(freq='D'))


# ------------------------------------------------------------------------------------------------------------------- custom metrics
def acc2(h, x, n, ncol, **kw):
    return frame(h, x, n, ncol).vbt(freq='D', **kw)


def custom_tags(h, exprs, single=False):
    """only metrics whose tags satisfy one of the expressions, in their order"""
    x = h.floats2('x', (2, 1), nan=False)
    T = {m: [t for t in 'abc' if h.choice('%s_%s' % (m, t), [0, 1])] for m in ('p', 'q')}
    none = bool(h.choice('none', [0, 1]))  # a metric without tags
    mets = [(m, dict(title='T' + m, calc_func=lambda self, k=k: self.obj.iloc[0] + k, tags=T[m])) for k, m in enumerate(T)]
    if none:
        mets.append(('r', dict(title='Tr', calc_func=lambda self: self.obj.iloc[1])))
    got, exc = h.call(quiet, acc2(h, x, 2, 1).stats, mets, tags=exprs[0] if single or exprs == ['all'] else exprs)
    h.check(exc is None, 'raises %s' % exc)
    if exc is not None:
        return
    want = {}
    for k, m in enumerate(T):
        if exprs == ['all'] or any(bool(eval(e, {}, {t: t in T[m] for t in 'abc'})) for e in exprs):
            want['T' + m] = x[0, 0] + k
    if none and exprs == ['all']:
        want['Tr'] = x[1, 0]
    if not want:
        h.check(got is None, 'no metric left')
    else:
        h.check(got is not None, 'metrics are left')
        if got is not None:
            h.eq(list(got.index), list(want), 'tags ' + ' | '.join(exprs))
            h.eq(list(got), list(want.values()), 'values')


def custom_filters(h):
    """a metric is kept only if its checks hold; a check is asked only when the metric asks for it"""
    x = h.floats2('x', (2, 1), nan=False)
    res = {f: bool(h.choice('res_' + f, [0, 1])) for f in 'uv'}
    flags = {}
    mets, want = [], {}
    seen = []
    for k, m in enumerate('pq'):
        d = dict(calc_func=lambda self, k=k: self.obj.iloc[0] * (k + 1))
        keep = True
        for f in ('u', 'v') if m == 'p' else ('v',):
            for pre in ('check_', 'inv_check_') if m == 'p' else ('check_',):
                v = h.choice(m + pre + f, ['no', False, True])
                if v != 'no':
                    d[pre + f] = v
                    if v and res[f] == (pre == 'inv_check_'):
                        keep = False
        mets.append((m, d))
        if keep:
            want[m] = x[0, 0] * (k + 1)

    def ff(f):
        def func(self, metric_settings):
            seen.append((f, self, dict(metric_settings)))
            return res[f]
        return func
    obj = acc2(h, x, 2, 1)
    got, exc = h.call(quiet, obj.stats, mets, filters={f: dict(filter_func=ff(f)) for f in 'uv'}, settings=dict(mark=7))
    h.check(exc is None, 'raises %s' % exc)
    if exc is None:
        h.eq(list(got.index) if got is not None else [], list(want), 'kept')
        if got is not None:
            h.eq(list(got), list(want.values()), 'values')
        for f, o, ms in seen:
            h.check(o is obj and ms.get('mark') == 7, 'a filter sees the object and the settings of the metric')
    asked = any(k.startswith(('check_', 'inv_check_')) for _, d in mets for k in d)
    got, exc = h.call(quiet, obj.stats, mets, filters={})
    # without the definition of a filter the request is refused
    h.eq(exc, 'ValueError' if asked else None, 'unknown filter')


def custom_values(h, n=2, gb=None, by=None):
    """scalars, columns and dictionaries; own aggregation, own selection"""
    x = h.floats2('x', (n, 3), nan=False)
    g = GROUPS[gb] if gb else None
    kw0 = {} if g is None else dict(group_by=np.array(g))
    obj = acc2(h, x, n, 3, **kw0)
    kw = {} if by is None else dict(group_by=False if by is False else np.array(GROUPS[by]))
    labels = labels_of(3, g, by)
    m = len(labels)

    def series(self, group_by=None, f=1, factor=1):
        cols = self.wrapper.get_columns(group_by=group_by)
        return pd.Series([x[0, i] * f + i for i in range(len(cols))], index=cols)

    def last(sr):
        return sr.iloc[len(sr) - 1]

    def first(sr):
        return sr.iloc[0]
    s = [x[0, i] + i for i in range(m)]
    mets = [('scalar', dict(calc_func=lambda self: x[1, 1])),
            ('dup', dict(title='One', calc_func=lambda self: x[0, 0])),
            ('dup', dict(title='Two', calc_func=lambda self: x[0, 1])),
            ('series', dict(title='Series', calc_func=series)),
            ('own', dict(title='Own', calc_func=series, agg_func=last)),
            ('noagg', dict(title='No Agg', calc_func=series, agg_func=None)),
            ('dic', dict(title='Dict', calc_func=lambda self, group_by=None: {'k': series(self, group_by), 3: x[1, 0]})),
            ('dic0', dict(title=None, calc_func=lambda self, group_by=None: dict(bare=series(self, group_by, 2)))),
            ('post', dict(title='Post', calc_func=series, post_calc_func=lambda self, out, ms: out * ms['factor'], factor=3)),
            ('two', dict(title='Own Column', calc_func=series, column=labels[m - 1]))]
    if m == 1:
        mets = mets[:-1]

    def want(mode):
        k = mode[1] if isinstance(mode, tuple) else None

        def red(v, agg=None):
            if mode == 'none':
                return list(v)
            if k is not None:
                return [v[k]]
            return [agg(v) if agg else v[0]]
        w = {'scalar': [x[1, 1]], 'One': [x[0, 0]], 'Two': [x[0, 1]]}
        w['Series'] = red(s, lambda v: v[0])
        w['Own'] = red(s, lambda v: v[-1])
        if mode != 'agg':
            w['No Agg'] = red(s)
        w['Dict: k'] = red(s, lambda v: v[0])
        w['Dict: 3'] = [x[1, 0]]
        w['bare'] = red([x[0, i] * 2 + i for i in range(m)], lambda v: v[0])
        w['Post'] = red([v * 3 for v in s], lambda v: v[0])
        if m > 1:
            w['Own Column'] = [s[m - 1]]
        return w
    for mode in modes_of(m):
        a = dict(kw, agg_func=first)
        if mode == 'none':
            a['agg_func'] = None
        elif isinstance(mode, tuple):
            a['column'] = labels[mode[1]]
        # one column: the series holds one value and is reduced by the aggregation all the same
        mm = mets if mode != 'one' else [t for t in mets if t[0] != 'noagg']
        got, exc = h.call(quiet, obj.stats, mm, silence_warnings=True, **a)
        h.check(exc is None, 'raises %s' % exc)
        if exc is not None:
            continue
        w = want(mode)
        if mode == 'one':
            w.pop('No Agg', None)
        h.eq(list(got.columns if mode == 'none' else got.index), list(w), 'titles %s' % (mode,))
        if mode == 'none':
            h.eq(list(got.index), labels, 'columns')
            for t in w:
                h.eq(list(got[t]), w[t] if len(w[t]) == m else w[t] * m, t)
        else:
            h.eq(list(got), [w[t][0] for t in w], 'values %s' % (mode,))
            if isinstance(mode, tuple):
                h.eq(got.name, labels[mode[1]], 'name')
            elif mode == 'agg':
                h.eq(got.name, 'agg_func_first', 'name')


def custom_args(h):
    """which value of a parameter reaches the calculation"""
    x = h.floats2('x', (2, 1), nan=False)
    v = {k: h.real(k) for k in ('glob', 'own', 'passed')}
    has = {k: bool(h.choice('has_' + k, [0, 1])) for k in v}
    seen = {}

    def f(self, p=0.0):
        seen['f'] = p
        return p

    def g(**kw):
        seen['g'] = dict(kw)
        return 1.0
    d = dict(calc_func=f)
    if has['own']:
        d['p'] = v['own']
    e = dict(calc_func=g)
    pas = h.choice('pass', ['no', False, True])
    if pas != 'no':
        e['pass_p'] = pas
    if has['own']:
        e['p'] = v['own']
    obj = acc2(h, x, 2, 1)
    S = dict(p=v['glob']) if has['glob'] else {}
    MS = dict(f=dict(p=v['passed']), g=dict(p=v['passed'])) if has['passed'] else {}
    S0, d0, e0 = dict(S), dict(d), dict(e)
    got = quiet(obj.stats, [('f', d), ('g', e)], settings=S, metric_settings=MS)
    eff = v['passed'] if has['passed'] else v['own'] if has['own'] else v['glob'] if has['glob'] else 0.0
    h.eq(got['f'], eff, 'the most specific setting counts')
    h.eq(seen['f'], eff, 'argument')
    kw = seen['g']
    if not any(has.values()):
        h.check('p' not in kw, 'no p')
    elif pas is True or (pas == 'no' and not has['glob']):
        # a parameter of the metric itself is passed on; one of the settings only where the function names it
        h.check('p' in kw, 'p passed')
        if 'p' in kw:
            h.eq(kw['p'], eff, 'p passed')
    elif has['glob']:
        h.check('p' not in kw, 'p not passed')
    h.check(not any(k.startswith(('pass_', 'resolve_', 'check_')) or k in ('tags', 'title', 'calc_func') for k in kw), 'options of the machinery stay out: %s' % sorted(kw))
    h.check(set(S) == set(S0) and set(d) == set(d0) and set(e) == set(e0), 'the arguments of the caller are left alone')
    # templates see the settings; overriding any part of a metric
    R = h.vbt.Rep
    got = quiet(obj.stats, [('t', dict(title=R('name_of'), calc_func=lambda self, q, name_of: q, q=R('p'), name_of='N'))], settings=dict(p=v['glob']))
    h.eq(list(got.index), ['N'], 'title by template')
    h.eq(got['N'], v['glob'], 'argument by template')
    got = quiet(obj.stats, [('t', dict(title='A', calc_func=f))], metric_settings=dict(t=dict(title='B', calc_func=lambda self: v['passed'])))
    h.eq(list(got.index), ['B'], 'title replaced')
    h.eq(got['B'], v['passed'], 'calculation replaced')
    for bad, err in ((dict(metrics=[('f', d)], metric_settings=dict(nope={})), 'ValueError'), (dict(metrics=[1]), 'TypeError'),
                     (dict(metrics=['no_such_metric']), 'KeyError'), (dict(metrics=[('f', dict(calc_func=lambda self: np.array([1.0, 2.0])))]), 'TypeError')):
        h.eq(h.call(quiet, obj.stats, **bad)[1], err, 'refused')


def custom_paths(h, ncol=1):
    """calculations by path, resolved arguments, cached attributes, time units"""
    from vectorbt.portfolio.enums import log_dt
    arr, close = book(h, 'bsb' if ncol == 1 else 'mix', 3, ncol, ('price',))

    def mk():
        return h.vbt.Portfolio(wrapper(h, 3, ncol), frame(h, close, 3, ncol), arr, np.empty(0, dtype=log_dt), h.array([1000.0] * ncol), False)
    pf, q = mk(), mk()
    res = {}

    def note(name, f):
        def func(**kw):
            res[name] = kw
            return f(**kw)
        return func

    def tot(returns):
        return returns.sum() if ncol == 1 else returns.iloc[:, 0].sum()
    ret, ast = q.returns(), q.asset_returns()
    one = lambda r: list(r)[-1] if ncol == 1 else r.iloc[-1, 0]
    last = lambda returns: one(returns)
    use = [bool(h.choice('use%d' % k, [0, 1])) for k in range(3 if ncol == 1 else 2)]
    mets = [('r%d' % k, dict(calc_func=last, resolve_returns=True, **(dict(use_asset_returns=True) if u else {}))) for k, u in enumerate(use)]
    got = quiet(pf.stats, mets, silence_warnings=True)
    if got is None:
        return h.check(False, 'nothing')
    h.eq(list(got), [one(ast) if u else one(ret) for u in use], 'returns of the kind each metric asks for')
    # incl_open per metric
    op = [bool(h.choice('open%d' % k, [0, 1])) for k in range(2)]
    mets = [('c%d' % k, dict(calc_func='trades.count', incl_open=o)) for k, o in enumerate(op)]
    got = quiet(pf.stats, mets, agg_func=None, silence_warnings=True)
    tr = q.trades
    cnt = [per(tr.count() if o else tr.closed.count(), ncol) for o in op]
    if ncol == 1:
        h.eq(list(got), [c[0] for c in cnt], 'trades each metric asks for')
    else:
        h.eq(got.values.tolist(), [[c[i] for c in cnt] for i in range(ncol)], 'trades each metric asks for')
    # paths
    paths = [('a', dict(calc_func='trades.pnl.max', incl_open=True), per(tr.pnl.max(), ncol)),
             ('b', dict(calc_func=[('trades', ), ('pnl',), ('nth', (0,))], incl_open=True), per(tr.pnl.nth(0), ncol)),
             ('c', dict(calc_func='trades.closed.pnl.sum', incl_open=True), per(tr.closed.pnl.sum(), ncol)),
             ('d', dict(calc_func='total_profit'), per(q.total_profit(), ncol)),
             ('e', dict(calc_func='init_cash'), per(q.init_cash, ncol)),
             ('f', dict(calc_func=lambda portfolio, group_by: portfolio.final_value(group_by=group_by)), per(q.final_value(), ncol)),
             ('g', dict(calc_func='trades.closed.duration.sum', incl_open=True, apply_to_timedelta=True), [day(v) for v in per(tr.closed.duration.sum(), ncol)]),
             ('i', dict(calc_func='trades.closed.duration.sum', incl_open=True, apply_to_timedelta=True, to_timedelta=False), per(tr.closed.duration.sum(), ncol)),
             ('k', dict(calc_func=lambda self, ms: 7.0, resolve_calc_func=False), [7.0] * ncol)]
    for k in range(2):
        got = quiet(pf.stats, [(a, b) for a, b, _ in paths], agg_func=None, silence_warnings=True)
        for a, _, w in paths:
            same(h, list(got[a]) if ncol > 1 else [got[a]], w, 'path ' + a)


def tasks(tier):
    out = []
    deep = tier != 'quick'

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    for lay in ('none', 'bs', 'sbs', 'bsb'):
        t('portfolio', lay=lay, part='value')
        t('portfolio', lay=lay, part='trades', free=('price', 'fee'))
        t('portfolio', lay=lay, part='ratios')
    t('portfolio', lay='bsb', part='trades', free=('size',), settings=dict(incl_open=True))
    t('portfolio', lay='bsb', part='all')
    for tt in ('entrytrades', 'exittrades', 'positions'):
        t('portfolio', lay='bbs', part='trades', free=('price',), own=tt)
        t('portfolio', lay='bbs', part='trades', free=('price',), own=tt, settings=dict(trades_type=tt, incl_open=tt != 'positions'))
    t('trades_choice', own='exittrades', type='positions')
    t('trades_choice', own='positions', type='entrytrades')
    t('portfolio', lay='bsb', part='Sharpe Ratio', settings=dict(use_asset_returns=True))
    t('portfolio', lay='bs', part='Omega Ratio', settings=dict(use_asset_returns=True))
    t('portfolio', lay='sbs', part='ratios', settings=dict(year_freq='50 days'))
    t('portfolio', lay='hold', part='ratios', sym=('required_return',), n=2)
    t('portfolio', lay='hold', part='ratios', sym=('risk_free',), n=2)
    for part in ('value', 'trades', 'ratios'):
        f, n, two = dict(value=(('close',), 2, 'mix'), trades=(('price',), 3, 'two'), ratios=((), 3, 'two'))[part]
        t('portfolio', lay=two, part=part, free=f, ncol=2, n=n, modes=['agg', 'none', ('column', 1)] if part == 'trades' else None)
        t('portfolio', lay='mix', part=part, free=f, ncol=3, groups='ab|c', n=n)
        t('portfolio', lay='mix', part=part, free=f, ncol=3, groups='ab|c', sharing=True, n=n)
        t('portfolio', lay=two, part=part, free=f, ncol=2, by='ab', n=n)
        t('portfolio', lay='mix', part=part, free=f, ncol=3, groups='ab|c', by=False, n=n)
    for what in ('orders', 'entry_trades', 'exit_trades', 'positions'):
        f = ('price', 'fee') if what != 'orders' else ('size', 'price', 'fee')
        for lay in ('none', 'bsb', 'ssb'):
            t('records', what=what, lay=lay, free=f)
        if what != 'orders':
            t('records', what=what, lay='sbs', free=('price',), incl=True)
        t('records', what=what, lay='two', free=('price',), ncol=2)
        t('records', what=what, lay='mix', free=('price',), ncol=3, groups='ab|c')
        t('records', what=what, lay='two', free=('price',), ncol=2, by='ab')
    for incl in (None, True):
        t('drawdowns', n=4, incl=incl)
        t('drawdowns', n=2, ncol=2, incl=incl)
        t('drawdowns', n=2, ncol=3, groups='ab|c', incl=incl)
    t('drawdowns', n=2, ncol=2, by='ab')
    t('ranges', n=3, recs=(0, 0))
    t('ranges', n=3, recs=(0,), freq=None)
    t('ranges', n=2, recs=(0, 1, 1), ncol=2)
    t('ranges', n=2, recs=(0, 1, 2), ncol=3, groups='ab|c')
    t('generic', n=3)
    t('generic', n=2, freq=None)
    t('generic', n=2, ncol=2)
    t('generic', n=2, ncol=2, by='ab', nan=False)
    t('generic', n=2, ncol=3, groups='ab|c', nan=False)
    for kw in (dict(), dict(late=True), dict(incl=True), dict(late=True, incl=True)):
        t('generic', n=3, mapping=True, **kw)
        t('generic', n=2, ncol=2, mapping=True, **kw)
    t('mapped', n=3, cols=(0, 0, 0))
    t('mapped', n=3, cols=(0, 0, 1), ncol=2)
    t('mapped', n=3, cols=(0, 1, 2), ncol=3, groups='ab|c', nan=False)
    t('mapped', n=3, cols=(0, 1, 1), ncol=2, by='ab', nan=False)
    t('mapped', n=3, cols=(0, 0, 1), ncol=2, mapping=True)
    for kw in (dict(), dict(other=True), dict(other=True, from_other=True)):
        t('signals', n=4 if not kw else 3, **kw)
        t('signals', n=3 if not kw else 2, ncol=2, **kw)
    t('signals', n=2, ncol=3, groups='ab|c')
    t('signals', n=2, ncol=2, by='ab', other=True)
    t('signals', n=3, freq=None)
    t('returns', n=2, which='all')
    t('returns', n=2, which='all', bench=False)
    t('returns', n=2, which='all', freq=None)
    t('returns', n=3, which='all', ncol=2, free=(0,))
    for k, which in (('risk_free', ['Sharpe Ratio', 'Omega Ratio', 'Alpha']), ('required_return', ['Omega Ratio', 'Sortino Ratio'])):
        t('returns', n=3, which=which, sym=(k,), free=(0,))
        t('returns', n=3, which=which, symset=(k,), free=(0,))
    t('returns', n=3, which=['Annualized Volatility [%]', 'Sharpe Ratio'], settings=dict(ddof=0), free=(0, 1))
    t('returns', n=3, which=['Annualized Volatility [%]', 'Sharpe Ratio'], defaults=dict(ddof=0), free=(0, 1))
    t('returns', n=3, which=['Value at Risk'], settings=dict(cutoff=0.5), free=(0, 1))
    t('returns', n=3, which=['Sharpe Ratio', 'Annualized Return [%]', 'Sortino Ratio'], settings=dict(year_freq='30 days'), free=(0,))
    t('ohlcv', n=2, fix=[(0, 0), (1, 2), (0, 1), (1, 4)])
    t('ohlcv', n=2, cols=('High', 'Close', 'Volume'))
    t('ohlcv', n=2, nan=True, cols=('open', 'Close', 'volume'))
    t('ohlcv', n=2, cols=('Volume', 'C', 'low'), names=dict(close='c'))
    for e in (['all'], ['a'], ['a', 'b'], ['a and b'], ['a and not b'], ['not a'], ['a or (b and not c)', 'c']):
        t('custom_tags', exprs=e)
    t('custom_tags', exprs=['a'], single=True)
    t('custom_filters')
    for kw in (dict(), dict(gb='ab|c'), dict(by='abc'), dict(gb='ab|c', by=False), dict(gb='abc'), dict(gb='abc', by='a|bc')):
        t('custom_values', **kw)
    t('custom_args')
    t('custom_paths')
    t('custom_paths', ncol=2)
    t('data', n=3, syms=['A'], series=True)
    if deep:
        t('portfolio', lay='two', part='value', free=('close',), ncol=2)
        t('portfolio', lay='bsbs' if 'bsbs' in c08.LAY else 'bsb', part='trades', free=('price', 'size'))
        t('portfolio', lay='mix', part='ratios', free=('close',), ncol=2, n=2)
        t('drawdowns', n=5)
        t('drawdowns', n=3, ncol=2)
        t('ranges', n=4, recs=(0, 0, 0))
        t('ranges', n=3, recs=(0, 1, 1), ncol=2, by='ab')
        t('generic', n=4)
        t('generic', n=3, ncol=2)
        t('mapped', n=4, cols=(0, 0, 0, 0))
        t('signals', n=6)
        t('signals', n=4, other=True)
        t('signals', n=3, ncol=2, by='ab', other=True)
        t('returns', n=3, which='all', free=(0, 1))
        t('ohlcv', n=2)
    t('data', n=2, syms=['A', 'B'])
    return out
