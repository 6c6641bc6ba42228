"""C36: downloaded data is aligned, updated, concatenated and selected without losing or altering a value."""
import warnings
import numpy as np
import pandas as pd

PROPERTY = 'C36'
BOUNDS = dict(symbols='1 to 3', rows='every subset of 3 row labels per symbol (sorted or not), integer or datetime index with time zones',
              columns='Series or frames with every subset of 2 columns', updates='one or two updates, every subset of 3 rows per symbol, known and new', values='all reals and NaN', modes="missing index and columns: 'nan', 'drop', 'raise'")
ASSUMPTIONS = ['labels of an index are unique', 'pandas itself (reindex, concat) is trusted, values pass through it as objects']
VALIDATE_S = dict(quick=10)
NAN = float('nan')


def subset(h, tag, labels, minlen=0):
    """an arbitrary subset of the labels"""
    out = [l for i, l in enumerate(labels) if h.choice('%s%d' % (tag, i), (True, False))]
    h.assume(len(out) >= minlen)
    return out


def labels_of(n, kind):
    if kind == 'int':
        return list(range(1, n + 1))
    if kind == 'str':
        return list('abcdefgh'[:n])
    return list(pd.date_range('2020-01-01', periods=n, freq='D', tz='UTC' if kind == 'utc' else None))


def mk_index(labels, kind):
    if kind in ('dt', 'utc'):
        return pd.DatetimeIndex(labels) if len(labels) else pd.DatetimeIndex([], tz='UTC' if kind == 'utc' else None)
    return pd.Index(labels, dtype='int64' if kind == 'int' else object)


class Sym:
    """values of one symbol by (row, column)"""

    def __init__(self, h, tag, rows, cols, kind, series, nan=True, name=None):
        self.rows, self.cols, self.series, self.name, self.kind = list(rows), list(cols), series, name, kind
        self.v = {(r, c): h.real('%s_%d%s' % (tag, i, c), nan=nan) for i, r in enumerate(rows) for c in cols}

    def obj(self, h):
        ix = mk_index(self.rows, self.kind)
        if self.series:
            return pd.Series(arr(h, [self.v[r, self.cols[0]] for r in self.rows]), index=ix, name=self.name)
        a = arr(h, [[self.v[r, c] for c in self.cols] for r in self.rows])
        a = a.reshape((len(self.rows), len(self.cols)))
        return pd.DataFrame(a, index=ix, columns=self.cols)


def arr(h, data):
    a = h.array(data)
    return np.asarray(a, dtype=object) if a.dtype == object else np.asarray(a, dtype=float)


def klass(h, up=None):
    class D(h.vbt.Data):
        @classmethod
        def download_symbol(cls, symbol, obj=None, **kw):
            assert not kw, kw
            return obj

        def update_symbol(self, symbol, obj=None, **kw):
            assert not kw, kw
            return obj
    return D


def cells(o):
    """(rows, columns, value by position) of a result"""
    if isinstance(o, pd.Series):
        return list(o.index), None, np.asarray(o.values, dtype=object).reshape(-1, 1)
    return list(o.index), list(o.columns), np.asarray(o.values, dtype=object)


def merged(sets, how, order=None):
    """labels of all / labels in each; None if they differ and that raises"""
    u = [l for l in sorted(set(sum(sets, [])))]
    if all(set(s) == set(u) for s in sets):
        return list(sets[0])
    if how == 'raise':
        return None
    if how == 'nan':
        return u
    return [l for l in sets[0] if all(l in s for s in sets)]


def quiet(f):
    def g():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return f()
    return g


def compare(h, data, syms, rows, cols, val, label):
    """every symbol's object has these labels and these values"""
    for s in syms:
        r, c, v = cells(data[s])
        h.check(sorted(map(str, r)) == sorted(map(str, rows)) and len(r) == len(rows), '%s of %s: rows %s vs %s' % (label, s, r, rows))
        h.check([str(x) for x in r] == [str(x) for x in rows], '%s of %s: order of rows %s vs %s' % (label, s, r, rows))
        if c is not None:
            h.check(c == list(cols), '%s of %s: columns %s vs %s' % (label, s, c, cols))
        else:
            h.check(len(cols) == 1, '%s of %s is a series of %d columns' % (label, s, len(cols)))
        if len(r) != len(rows) or v.shape[1] != len(cols):
            return False
        for i, rr in enumerate(rows):
            for j, cc in enumerate(cols):
                h.eq(v[i, j], val(s, rr, cc), '%s of %s at %s %s' % (label, s, rr, cc))
    return True


def views(h, D, syms, rows, cols, val, series):
    """concat, get and indexing return the symbols' own values"""
    con, exc = h.call(quiet(lambda: D.concat()))
    h.check(exc is None, 'concat raises %s' % exc)
    if exc:
        return
    h.check(len(con) == len(cols), 'one object per column')
    for j, (c, o) in enumerate(con.items()):
        if not series:
            h.check(c == cols[j], 'key')
        r, cc, v = cells(o)
        if len(syms) > 1:
            h.check(cc == list(syms), 'symbols as columns')
        h.check([str(x) for x in r] == [str(x) for x in rows], 'rows of concat')
        for i, rr in enumerate(rows):
            for k, s in enumerate(syms):
                h.eq(v[i, k], val(s, rr, cols[j]), 'concat %s %s %s' % (c, rr, s))
    got, exc = h.call(quiet(lambda: D.get()))
    h.check(exc is None, 'get raises %s' % exc)
    if exc:
        return
    if len(syms) == 1:
        compare(h, {syms[0]: got}, syms, rows, cols, val, 'get')
    else:
        objs = got if isinstance(got, tuple) else (got,)
        h.check(len(objs) == len(cols), 'get: one object per column')
        for j, o in enumerate(objs):
            _, _, v = cells(o)
            for i, rr in enumerate(rows):
                for k, s in enumerate(syms):
                    h.eq(v[i, k], val(s, rr, cols[j]), 'get %s %s %s' % (cols[j], rr, s))
    if not series and len(cols) > 1 and len(rows) > 1:
        for c in cols:
            o, exc = h.call(quiet(lambda: D.get(c)))
            h.check(exc is None, 'get(column) raises %s' % exc)
            if not exc:
                _, _, v = cells(o)
                for i, rr in enumerate(rows):
                    for k, s in enumerate(syms):
                        h.eq(v[i, k], val(s, rr, c), 'get(%s) %s %s' % (c, rr, s))
            S, exc = h.call(quiet(lambda: D[c]))
            h.check(exc is None, 'indexing raises %s' % exc)
            if not exc:
                compare(h, S.data, syms, rows, [c], val, 'indexed by column')
    if len(rows) > 1:
        S, exc = h.call(quiet(lambda: D.iloc[1:]))
        h.check(exc is None, 'iloc raises %s' % exc)
        if not exc:
            compare(h, S.data, syms, rows[1:], cols, val, 'iloc')
    S, exc = h.call(quiet(lambda: D.loc[rows[0]:rows[0]])) if len(rows) else (None, 'no rows')
    if not exc:
        compare(h, S.data, syms, rows[:1], cols, val, 'loc')


def align(h, ns, n, how='nan', kind='int', series=True, colhow='raise', free='rows', rev=False, download=False, ncol=2, nan=True):
    """symbols with arbitrary rows (columns) are brought to the same labels, with every value at its own"""
    L = labels_of(n, kind)
    C = ['x', 'y', 'z'][:1 if series else ncol]
    syms = ['A', 'B', 'C'][:ns]
    S = {}
    for s in syms:
        rows = subset(h, 'r' + s, L, 1) if free in ('rows', 'both') else list(L)
        if rev and h.choice('rev' + s, (False, True)):
            rows = rows[::-1]
        cols = subset(h, 'c' + s, C, 1) if free in ('cols', 'both') else list(C)
        name = None
        if series == 'named':
            name = h.choice('name' + s, ('p', 'q'))
            cols = [name]
        elif series:
            cols = [0]
        S[s] = Sym(h, s, rows, cols, kind, bool(series), name=name, nan=nan)
    objs = {s: S[s].obj(h) for s in syms}
    before = {s: (list(o.index), np.array(o.values, dtype=object)) for s, o in objs.items()}
    Dc = klass(h)
    if download:
        D, exc = h.call(quiet(lambda: Dc.download(syms if ns > 1 else syms[0], missing_index=how, missing_columns=colhow, obj=h.vbt.symbol_dict(objs))))
    else:
        D, exc = h.call(quiet(lambda: Dc.from_data(objs, missing_index=how, missing_columns=colhow, download_kwargs={})))
    rows = merged([S[s].rows for s in syms], how)
    cols = merged([S[s].cols for s in syms], colhow)
    if rows is None or cols is None:
        h.check(exc is not None and exc.startswith('ValueError'), 'mismatching labels raise ValueError: %s' % exc)
        return
    if not rows or not cols:
        return
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    val = lambda s, r, c: S[s].v.get((r, c), NAN)
    h.check(D.symbols == syms, 'symbols')
    if compare(h, D.data, syms, rows, cols, val, 'aligned'):
        h.check([str(x) for x in D.wrapper.index] == [str(x) for x in rows], 'index of the wrapper')
        views(h, D, syms, rows, cols, val, bool(series))
    for s, o in objs.items():
        h.check(list(o.index) == before[s][0], 'the index of the input')
        h.eq(np.array(o.values, dtype=object), before[s][1], 'the input')


def update(h, ns, n, m, how='nan', kind='int', series=True, times=1, updater=False, free=True, colhow='raise', nan=True):
    """an update appends new rows and replaces the overlap, per symbol; all else stays"""
    L = labels_of(n + m, kind)
    C = [0] if series else ['x', 'y']
    syms = ['A', 'B', 'C'][:ns]
    S = {s: Sym(h, s, L[:n], C, kind, series, nan=nan) for s in syms}
    Dc = klass(h)
    D = quiet(lambda: Dc.from_data({s: S[s].obj(h) for s in syms}, missing_index=how, missing_columns=colhow, download_kwargs={}))()
    cur = {s: dict(S[s].v) for s in syms}
    rows = list(L[:n])
    U = h.vbt.DataUpdater(D) if updater else None
    for t in range(times):
        new = {}
        for s in syms:
            r = subset(h, 'u%d%s' % (t, s), L[1:], 1) if free else L[n - 1:]
            new[s] = Sym(h, 'w%d%s' % (t, s), r, C, kind, series, nan=nan)
        ups = {s: new[s].obj(h) for s in syms}
        prev = D
        prevsnap = {s: (list(o.index), np.array(o.values, dtype=object)) for s, o in prev.data.items()}
        if updater:
            _, exc = h.call(quiet(lambda: U.update(obj=h.vbt.symbol_dict(ups))))
        else:
            D2, exc = h.call(quiet(lambda: D.update(obj=h.vbt.symbol_dict(ups))))
        # the rows of the update, as configured: of any symbol, only of all symbols, or an error
        added = merged([new[s].rows for s in syms], how)
        if added is None:
            h.check(exc is not None and exc.startswith('ValueError'), 'mismatching labels raise ValueError: %s' % exc)
            return
        want = rows + [r for r in added if r not in rows]
        h.check(exc is None, 'raises %s' % exc)
        if exc:
            return
        D = U.data if updater else D2
        for s in syms:
            for k, v in new[s].v.items():
                if k[0] in added:
                    cur[s][k] = v
        rows = want
        val = lambda s, r, c: cur[s].get((r, c), NAN)
        compare(h, D.data, syms, rows, C, val, 'update %d' % t)
        h.check([str(x) for x in D.wrapper.index] == [str(x) for x in rows], 'index of the wrapper')
        for s, o in prev.data.items():
            h.check(list(o.index) == prevsnap[s][0], 'index before the update')
            h.eq(np.array(o.values, dtype=object), prevsnap[s][1], 'data before the update')
    if updater:
        h.check(U.config['data'] is D, 'config of the updater')


def arrays(h, ns, n, m, ncol):
    """plain arrays: an update starts at the last row"""
    syms = ['A', 'B'][:ns]
    shape = (n,) if ncol == 0 else (n, ncol)
    k = max(ncol, 1)
    old = {s: h.floats2(s, (n, k), nan=True) for s in syms}
    new = {s: h.floats2('w' + s, (m, k), nan=True) for s in syms}
    ob = lambda a: arr(h, [x for x in a.reshape(-1)]).reshape(a.shape if ncol else (a.shape[0],))
    Dc = klass(h)
    D = Dc.from_data({s: ob(old[s]) for s in syms}, download_kwargs={})
    val0 = lambda s, r, c: old[s][r, c]
    compare(h, D.data, syms, list(range(n)), list(range(k)), val0, 'arrays')
    D2, exc = h.call(quiet(lambda: D.update(obj=h.vbt.symbol_dict({s: ob(new[s]) for s in syms}))))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    val = lambda s, r, c: new[s][r - n + 1, c] if r >= n - 1 else old[s][r, c]
    compare(h, D2.data, syms, list(range(n - 1 + m)), list(range(k)), val, 'updated arrays')


def zones(h, loc, conv, naive):
    """the index is localised and converted, the values stay with their instants"""
    n = 3
    dconv = conv if conv is not None else h.vbt.settings['data']['tz_convert']
    L = labels_of(4, 'dt' if naive else 'utc')
    syms = ['A', 'B']
    S = {}
    for s in syms:
        S[s] = Sym(h, s, subset(h, 'r' + s, L[:n], 1), [0], 'dt' if naive else 'utc', True)
    Dc = klass(h)
    D, exc = h.call(quiet(lambda: Dc.from_data({s: S[s].obj(h) for s in syms}, tz_localize=loc, tz_convert=conv, missing_index='nan', download_kwargs={})))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return

    def inst(l):
        l = l if not naive else l.tz_localize(loc)
        return l.tz_convert(dconv) if dconv else l
    rows = [inst(l) for l in merged([S[s].rows for s in syms], 'nan')]
    back = {inst(l): l for l in L}
    compare(h, D.data, syms, rows, [0], lambda s, r, c: S[s].v.get((back[r], c), NAN), 'aligned')
    if True:
        new = {s: Sym(h, 'w' + s, [rows_last(S, L), L[3]], [0], 'dt' if naive else 'utc', True) for s in syms}
        D2, exc = h.call(quiet(lambda: D.update(obj=h.vbt.symbol_dict({s: new[s].obj(h) for s in syms}))))
        h.check(exc is None, 'update raises %s' % exc)
        if exc:
            return
        rows2 = rows + [inst(L[3])]
        compare(h, D2.data, syms, rows2, [0], lambda s, r, c: new[s].v.get((back[r], c), S[s].v.get((back[r], c), NAN)), 'updated')


def rows_last(S, L):
    return max(r for s in S.values() for r in s.rows)


def kwargs(h, upd):
    """every symbol gets its own arguments (and the common ones)"""
    got = {}
    seen = []

    class D(h.vbt.Data):
        @classmethod
        def download_symbol(cls, symbol, **kw):
            seen.append((symbol, kw))
            return pd.Series(arr(h, [1.0, 2.0]))

        def update_symbol(self, symbol, **kw):
            seen.append((symbol, kw))
            return pd.Series(arr(h, [3.0]), index=[1])
    syms = ['A', 'B']
    v = {s: h.real('v' + s) for s in syms}
    common = h.real('c')
    given = [s for s in syms if h.choice('g' + s, (True, False))]
    kw = dict(p=h.vbt.symbol_dict({s: v[s] for s in given}), q=common)
    if upd:
        o = D.from_data({s: pd.Series(arr(h, [1.0, 2.0])) for s in syms}, download_kwargs={})
        o.update(**kw)
    else:
        o = D.download(syms, **kw)
    h.check([s for s, _ in seen] == syms, 'every symbol once, in order')
    for s, k in seen:
        h.check(set(k) == {'q'} | ({'p'} if s in given else set()), 'arguments of %s: %s' % (s, sorted(k)))
        h.eq(k['q'], common, 'common')
        if s in given and 'p' in k:
            h.eq(k['p'], v[s], 'own')


def typed(h, ns, n=2):
    """columns of flags and of numbers keep their values through concat and get"""
    syms = ['A', 'B'][:ns]
    v = {(s, c): [h.bool('%s%s%d' % (s, c, i)) if c == 'f' else h.real('%s%s%d' % (s, c, i)) for i in range(n)] for s in syms for c in 'fx'}
    objs = {}
    for s in syms:
        fl = v[s, 'f']
        sym = any(not isinstance(x, (bool, np.bool_)) for x in fl)
        a = np.empty(n, dtype=object if sym else bool)
        for i, x in enumerate(fl):
            a[i] = x
        objs[s] = pd.DataFrame({'f': a, 'x': arr(h, v[s, 'x'])})
    D = klass(h).from_data(objs, download_kwargs={})
    con, exc = h.call(quiet(lambda: D.concat()))
    h.check(exc is None, 'concat raises %s' % exc)
    if exc:
        return
    for c in 'fx':
        vals = np.asarray(con[c].values, dtype=object).reshape(n, ns)
        for k, s in enumerate(syms):
            for i in range(n):
                h.eq(vals[i, k], v[s, c][i], '%s of %s' % (c, s))


DAY = 86400000


class Market:
    """an exchange: rows from a start time on, at most so many at a time; requests may fail"""

    def __init__(self, times, row, fails, cap=1000):
        self.times, self.row, self.fails, self.cap, self.calls = times, row, fails, cap, [0]
        self.has = {'fetchOHLCV': True}
        self.timeframes = {'1d': '1d'}

    def page(self, since, limit, end=None):
        i = self.calls[0]
        self.calls[0] += 1
        if i in self.fails:
            import ccxt
            raise ccxt.NetworkError('no answer')
        rows = [t for t in self.times if t >= (since or 0) and (end is None or t <= end)]
        return [self.row(t) for t in rows[:min(limit or self.cap, self.cap)]]

    def get_klines(self, symbol, interval, limit, startTime, endTime):
        return self.page(startTime, limit, endTime)

    def fetch_ohlcv(self, symbol, timeframe, since, limit, params):
        return self.page(since, limit)


def pages(h, src, n, limit, faults=0, retries=3, upd=False):
    """a download by pages returns every row between start and end once, in order"""
    grid = [DAY * (i + 10) for i in range(n)]
    times = [t for i, t in enumerate(grid) if h.choice('t%d' % i, (True, False))]
    start = h.choice('start', (0, grid[0], grid[n // 2]))
    end = h.choice('end', (grid[n - 1] + DAY, grid[n - 1], grid[n // 2] + 1))
    v = {t: [h.real('v%d_%d' % (grid.index(t), k)) for k in range(5)] for t in times}
    nf = 0
    fails = set()
    if faults:
        # every schedule of failing requests among the first ones
        fails = {i for i in range(faults) if h.choice('f%d' % i, (False, True))}

    def row(t):
        r = [t] + v[t]
        return r if src == 'ccxt' else r + [t + DAY - 1, v[t][0], 7, v[t][1], v[t][2], 0]
    m = Market(times, row, fails)
    from datetime import datetime, timezone
    dt = lambda t: datetime.fromtimestamp(t / 1000, timezone.utc)
    want = [t for t in times if start <= t < end]
    if src == 'ccxt':
        get = lambda: h.vbt.CCXTData.download('S', exchange=m, timeframe='1d', start=dt(start), end=dt(end), limit=limit, retries=retries, show_progress=False)
    else:
        get = lambda: h.vbt.BinanceData.download('S', client=m, start=dt(start), end=dt(end), limit=limit, delay=None, show_progress=False)
    # a run of failing requests as long as the number of retries ends the download (the very first request only probes)
    D, exc = h.call(quiet(get))
    if faults:
        probe = 0
        while probe < retries and probe in fails:
            probe += 1
        first = probe + (1 if probe < retries else 0)
        dead = any(all(i + k in fails for k in range(retries)) for i in range(first, faults))
        if exc is not None:
            h.check(dead and exc.startswith('NetworkError'), 'raises %s' % exc)
            return
        h.check(len(want) == 0 or True, 'answer')
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return

    def check(D, want, label):
        r, c, val = cells(D.data['S'])
        got = [int(x.timestamp() * 1000) for x in r]
        h.check(got == want, '%s: rows %s vs %s' % (label, got, want))
        if got != want:
            return
        for i, t in enumerate(want):
            for k, name in enumerate(['Open', 'High', 'Low', 'Close', 'Volume']):
                h.eq(val[i, c.index(name)], v[t][k], '%s: %s at %d' % (label, name, i))
            if src == 'binance':
                for k, name in enumerate(['Quote volume', 'Taker base volume', 'Taker quote volume']):
                    h.eq(val[i, c.index(name)], v[t][k], '%s: %s at %d' % (label, name, i))
    check(D, want, 'downloaded')
    if upd and want:
        # later: the last row has changed and new rows have come
        for k in range(5):
            v[want[-1]][k] = h.real('new%d' % k)
        for j in range(2):
            t = grid[-1] + DAY * (j + 2)
            if h.choice('more%d' % j, (True, False)):
                times.append(t)
                v[t] = [h.real('w%d_%d' % (j, k)) for k in range(5)]
        E, exc = h.call(quiet(lambda: D.update(end=dt(grid[-1] + DAY * 9))))
        h.check(exc is None, 'update raises %s' % exc)
        if not exc:
            check(E, want + [t for t in times if t > want[-1]], 'updated')


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    for how in ('nan', 'drop', 'raise'):
        for kind in ('int', 'utc'):
            t('align', w=3, ns=2, n=3, how=how, kind=kind)
        t('align', w=2, ns=2, n=2, how=how, kind='str', rev=True)
        t('align', w=4, ns=3, n=2 if q else 3, how=how)
        t('align', w=3, ns=2, n=2, how=how, series=False)
        t('align', ns=2, n=2, how=how, series=True, download=True)
        for colhow in ('nan', 'drop', 'raise'):
            t('align', w=2, ns=2, n=1, how=how, series=False, free='both', colhow=colhow, ncol=2 if q else 3)
            t('align', w=2, ns=2, n=2, how=how, series='named', free='rows', colhow=colhow)
        t('update', w=6, ns=2, n=2, m=1, how=how)
        t('update', w=6, ns=2, n=3, m=1, how=how, nan=False)
        t('update', w=3, ns=1, n=2, m=2, how=how)
        t('update', w=4, ns=2, n=2, m=1, how=how, kind='utc')
        t('update', w=2, ns=2, n=2, m=1, how=how, series=False)
        if not q:
            t('update', w=9, ns=3, n=2, m=1, how=how, nan=False)
            t('update', w=9, ns=2, n=2, m=2, how=how, nan=False)
    t('align', w=3, ns=3, n=2, how='nan', series=False, free='cols', colhow='nan')
    t('align', w=3, ns=3, n=2, how='nan', series=False, free='cols', colhow='drop')
    t('align', ns=1, n=2, how='nan', download=True)
    t('align', ns=1, n=2, how='nan', series=False)
    t('update', w=5, ns=1, n=2, m=2, times=2, nan=False)
    t('update', w=9, ns=2, n=1, m=2, times=2, nan=False)
    t('update', w=2, ns=2, n=2, m=1, updater=True, nan=False)
    t('update', w=3, ns=1, n=2, m=1, updater=True, times=2)
    for ncol in (0, 1, 2):
        for ns in (1, 2):
            for m in (1, 2):
                t('arrays', ns=ns, n=2, m=m, ncol=ncol)
    for loc, conv, naive in (('UTC', None, True), ('UTC', 'Europe/Berlin', True), (None, 'Europe/Berlin', False), ('America/New_York', None, True)):
        t('zones', w=2, loc=loc, conv=conv, naive=naive)
    for src in ('binance', 'ccxt'):
        for limit in (1, 2, 3, None) if src == 'ccxt' else (1, 2, 3):
            t('pages', w=3, src=src, n=3 if q else 5, limit=limit)
        t('pages', w=3, src=src, n=2, limit=2, upd=True)
    t('pages', w=3, src='ccxt', n=3, limit=2, faults=5, retries=2)
    t('pages', w=3, src='ccxt', n=3, limit=3, faults=5, retries=3)
    t('typed', ns=1)
    t('typed', ns=2)
    t('kwargs', upd=False)
    t('kwargs', upd=True)
    return out
