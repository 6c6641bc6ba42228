"""C28: built-in indicators equal their formulas at every row; parameter products, caching and shortcuts change nothing."""
import math
from symx.harness import isnan, ite, div, sqrt, and_

PROPERTY = 'C28'
BOUNDS = dict(rows='up to 5', columns='1 and 2', windows='1..3', params='lists of up to 3 combinations incl. repeats',
              values='all positive reals (OHLC ordered), NaN gaps for MA/OBV')
VALIDATE_S = dict(quick=15)
ASSUMPTIONS = ['rounding is not modelled', 'ewm windows use alpha = 2/(window+1), adjust False (default) and True']


def ma(x, w, ewm=False, adjust=False):
    """NaN-aware simple / exponential mean with min_periods = window"""
    out = []
    n = len(x)
    if not ewm:
        for i in range(n):
            win = [v for v in x[max(0, i + 1 - w):i + 1] if not isnan(v)]
            out.append(sum(win[1:], win[0]) / w if len(win) == w else math.nan)
        return out
    al = 2.0 / (w + 1)
    mean, wt, cnt = None, 1.0, 0
    for i in range(n):
        v = x[i]
        if mean is not None:
            wt = wt * (1 - al)
        if not isnan(v):
            cnt += 1
            if mean is None:
                mean = v
            else:
                nw = 1.0 if adjust else al
                mean = (mean * wt + v * nw) / (wt + nw)
                wt = wt + 1.0 if adjust else 1.0
        out.append(mean if cnt >= w else math.nan)
    return out


def var(x, w, ddof):
    out = []
    for i in range(len(x)):
        win = [v for v in x[max(0, i + 1 - w):i + 1] if not isnan(v)]
        if len(win) < w or w <= ddof:
            out.append(math.nan)
            continue
        m = sum(win[1:], win[0]) / w
        out.append(sum([(v - m) * (v - m) for v in win[1:]], (win[0] - m) * (win[0] - m)) / (w - ddof))
    return out


def evar(x, w, adjust):
    """exponentially weighted variance with the reliability-weights correction (pandas' bias=False), min_periods = window"""
    al = 2.0 / (w + 1)
    out, ws, seen = [], [], []
    for i in range(len(x)):
        ws = [u * (1 - al) for u in ws]
        if not isnan(x[i]):
            ws.append(1.0 if adjust or not ws else al)
            seen.append(x[i])
            if not adjust:
                t = sum(ws)
                ws = [u / t for u in ws]
        t, t2 = sum(ws), sum(u * u for u in ws)
        if len(seen) < max(w, 2) or t * t - t2 <= 1e-12:
            out.append(math.nan)
            continue
        m = sum(u * v for u, v in zip(ws, seen)) / t
        q = 0.0
        for u, v in zip(ws, seen):
            q = q + u * (v - m) * (v - m)
        out.append(q / t * (t * t / (t * t - t2)))
    return out


def col(r, k=0):
    a = r.to_numpy()
    return list(a) if a.ndim == 1 else [a[i, k] for i in range(a.shape[0])]


def run(h, ind, *a, **k):
    r, exc = h.call(getattr(h.vbt, ind).run, *a, **k)
    h.check(exc is None, '%s raises %s' % (ind, exc))
    return r


def MA(h, n, window, ewm=False, adjust=False, nan=False):
    x = h.floats('x', n, nan=nan)
    r = run(h, 'MA', h.sr(x), window, ewm=ewm, adjust=adjust)
    if r is not None:
        h.eq(col(r.ma), ma(list(x), window, ewm, adjust), 'MA')


def eqroot(h, got, sq, lab):
    for i, (g, s) in enumerate(zip(got, sq)):
        h.eq_root(g, s, '%s row %d' % (lab, i))


def MSTD(h, n, window, ddof, ewm=False, adjust=False):
    x = h.floats('x', n)
    r = run(h, 'MSTD', h.sr(x), window, ewm=ewm, ddof=ddof, adjust=adjust)
    if r is not None:
        eqroot(h, col(r.mstd), evar(list(x), window, adjust) if ewm else var(list(x), window, ddof), 'MSTD')


def BB(h, n, window, alpha, ddof=0, ewm=False, adjust=False):
    x = h.floats('x', n)
    r = run(h, 'BBANDS', h.sr(x), window, ewm=ewm, alpha=alpha, ddof=ddof, adjust=adjust)
    if r is None:
        return
    m, v = ma(list(x), window, ewm, adjust), evar(list(x), window, adjust) if ewm else var(list(x), window, ddof)
    up, mid, lo = col(r.upper), col(r.middle), col(r.lower)
    h.eq(mid, m, 'middle band')
    for i in range(n):
        if i + 1 < window:
            h.eq([up[i], lo[i]], [math.nan] * 2, 'warm-up')
            continue
        h.check(up[i] >= m[i], 'upper band above')
        h.eq(up[i] - m[i], m[i] - lo[i], 'bands symmetric')
        h.eq((up[i] - m[i]) * (up[i] - m[i]), v[i] * (alpha * alpha), 'band width')
    pb, bw = col(r.percent_b), col(r.bandwidth)
    for i in range(window - 1, n):
        h.eq(pb[i], div(x[i] - lo[i], up[i] - lo[i]), 'percent b')
        h.eq(bw[i], div(up[i] - lo[i], mid[i]), 'bandwidth')


def RSI(h, n, window, ewm=False, adjust=False):
    x = h.floats('x', n, gt=0)
    r = run(h, 'RSI', h.sr(x), window, ewm=ewm, adjust=adjust)
    if r is None:
        return
    up = [math.nan] + [ite(x[i] > x[i - 1], x[i] - x[i - 1], 0.0) for i in range(1, n)]
    dn = [math.nan] + [ite(x[i] < x[i - 1], x[i - 1] - x[i], 0.0) for i in range(1, n)]
    u, d = ma(up, window, ewm, adjust), ma(dn, window, ewm, adjust)
    got = col(r.rsi)
    for i in range(n):
        if i < window:
            h.eq(got[i], math.nan, 'warm-up')
        elif u[i] + d[i] == 0:
            h.eq(got[i], math.nan, 'flat')
        else:
            h.eq(got[i], 100.0 * u[i] / (u[i] + d[i]), 'RSI row %d' % i)


def ohlc(h, n):
    hi, lo, cl = h.floats('h', n, gt=0), h.floats('l', n, gt=0), h.floats('c', n, gt=0)
    for i in range(n):
        h.assume(and_(hi[i] >= cl[i], cl[i] >= lo[i]))
    return hi, lo, cl


def rmin(xs, mx=False):
    b = xs[0]
    for x in xs[1:]:
        b = ite(x > b if mx else x < b, x, b)
    return b


def STOCH(h, n, k, d, d_ewm=False, adjust=False):
    hi, lo, cl = ohlc(h, n)
    r = run(h, 'STOCH', h.sr(hi), h.sr(lo), h.sr(cl), k, d, d_ewm=d_ewm, adjust=adjust)
    if r is None:
        return
    kk = []
    for i in range(n):
        if i + 1 < k:
            kk.append(math.nan)
            continue
        a = rmin(list(lo[i + 1 - k:i + 1]))
        b = rmin(list(hi[i + 1 - k:i + 1]), True)
        kk.append(ite(b == a, math.nan, div(100.0 * (cl[i] - a), b - a)))
    h.eq(col(r.percent_k), kk, '%K')
    h.eq(col(r.percent_d), ma(kk, d, d_ewm, adjust), '%D')


def MACD(h, n, f, s, g, me=False, se=False, adjust=False):
    x = h.floats('x', n)
    r = run(h, 'MACD', h.sr(x), f, s, g, macd_ewm=me, signal_ewm=se, adjust=adjust)
    if r is None:
        return
    a, b = ma(list(x), f, me, adjust), ma(list(x), s, me, adjust)
    m = [u - v for u, v in zip(a, b)]
    sg = ma(m, g, se, adjust)
    h.eq(col(r.macd), m, 'MACD')
    h.eq(col(r.signal), sg, 'signal')
    h.eq(col(r.hist), [u - v for u, v in zip(m, sg)], 'histogram')


def ATR(h, n, window, ewm=False, free=False, adjust=False):
    if free:
        hi, lo, cl = h.floats('h', n), h.floats('l', n), h.floats('c', n)
    else:
        hi, lo, cl = ohlc(h, n)
    r = run(h, 'ATR', h.sr(hi), h.sr(lo), h.sr(cl), window, ewm=ewm, adjust=adjust)
    if r is None:
        return
    tr = []
    for i in range(n):
        c = [hi[i] - lo[i]]
        if i:
            c += [ite(v >= 0, v, -v) for v in (hi[i] - cl[i - 1], lo[i] - cl[i - 1])]
        tr.append(rmin(c, True))
    h.eq(col(r.tr), tr, 'true range')
    h.eq(col(r.atr), ma(tr, window, ewm, adjust), 'ATR')


def OBV(h, n, ncol=1):
    x = h.floats2('x', (n, ncol), nan=True)
    v = h.floats2('v', (n, ncol), nan=True)
    r = run(h, 'OBV', h.df(x), h.df(v))
    if r is None:
        return
    for c in range(ncol):
        acc, out = 0.0, []
        for i in range(n):
            s = v[i, c]
            if i and x[i, c] < x[i - 1, c]:
                s = -s
            acc = acc + ite(isnan(s), 0.0, s)
            out.append(acc)
        h.eq(col(r.obv, c), out, 'OBV column %d' % c)


PARAMS = {
    'MA': (1, dict(window=[2, 1, 2], ewm=[False, True, False]), ('ma',)),
    'MSTD': (1, dict(window=[2, 3, 2], ewm=False), ('mstd',)),
    'BBANDS': (1, dict(window=[2, 2, 1], alpha=[2.0, 1.0, 2.0]), ('middle', 'upper', 'lower')),
    'RSI': (1, dict(window=[2, 1, 2], ewm=[False, False, True]), ('rsi',)),
    'STOCH': (3, dict(k_window=[2, 3, 2], d_window=[1, 2, 2]), ('percent_k', 'percent_d')),
    'MACD': (1, dict(fast_window=[1, 2, 1], slow_window=[2, 3, 2], signal_window=[1, 2, 2], macd_ewm=[False, True, False]), ('macd', 'signal')),
    'ATR': (3, dict(window=[2, 1, 2], ewm=[False, True, True]), ('tr', 'atr')),
}


def params(h, ind, n, ncol=1, **kw):
    """many parameter combinations at once = each alone; per-column selection; run_unique / speedup flags"""
    nin, prm, outs = PARAMS[ind]
    if nin == 3:
        ins = [ohlc(h, n) for _ in range(1)][0]
        ins = [h.df(a.reshape(-1, 1)) for a in ins]
        ncol = 1
    else:
        ins = [h.df(h.floats2('x', (n, ncol), gt=0))]
    many = run(h, ind, *ins, **prm, **kw)
    if many is None:
        return
    for k in range(3):
        p = {a: (b[k] if isinstance(b, list) else b) for a, b in prm.items()}
        one = run(h, ind, *ins, **p)
        if one is None:
            return
        for o in outs:
            A = getattr(many, o).to_numpy()
            B = getattr(one, o).to_numpy().reshape(n, ncol)
            h.check(A.shape == (n, 3 * ncol), 'columns = combinations x input columns')
            for c in range(ncol):
                for i in range(n):
                    h.eq(A[i, k * ncol + c], B[i, c], '%s.%s combination %d' % (ind, o, k))


def product(h, n):
    """param_product pairs every window with every flag, first parameter slowest"""
    x = h.floats('x', n)
    r = run(h, 'MA', h.sr(x), window=[1, 2], ewm=[False, True], param_product=True)
    if r is None:
        return
    A = r.ma.to_numpy()
    k = 0
    for w in (1, 2):
        for e in (False, True):
            h.eq([A[i, k] for i in range(n)], ma(list(x), w, e), 'product %d %s' % (w, e))
            h.eq([v for v in r.ma.columns[k]], [w, e], 'column labels')
            k += 1


def combs(h, n):
    x = h.floats('x', n)
    r, exc = h.call(h.vbt.MA.run_combs, h.sr(x), window=[1, 2, 3], r=2)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    a, b = (q.ma.to_numpy() for q in r)
    for k, (u, v) in enumerate(((1, 2), (1, 3), (2, 3))):
        h.eq([a[i, k] for i in range(n)], ma(list(x), u), 'first of pair')
        h.eq([b[i, k] for i in range(n)], ma(list(x), v), 'second of pair')


def tasks(tier):
    q = tier == 'quick'
    n = 4 if q else 5
    out = []
    t = lambda fn, **c: out.append(dict(fn=fn, cfg=c))
    for w in (1, 2, 3):
        t('MA', n=n, window=w, nan=True)
        t('MA', n=n, window=w, ewm=True, nan=False)
        t('MA', n=n, window=w, ewm=True, adjust=True, nan=False)
        for ddof in (0, 1):
            t('MSTD', n=n, window=w, ddof=ddof)
        t('RSI', n=n if w > 1 else 3, window=w)
        t('ATR', n=n, window=w)
        t('BB', n=n, window=w, alpha=2.0)
    t('MA', n=3, window=2, ewm=True, nan=True)
    t('MA', n=3, window=2, ewm=True, adjust=True, nan=True)
    t('BB', n=3, window=2, alpha=1.5, ddof=1)
    t('RSI', n=4, window=2, ewm=True)
    t('ATR', n=3, window=2, ewm=True)
    t('ATR', n=2, window=1, free=True)
    for adj in (False, True):
        for w in (1, 3) if q else (1, 3, 7):
            t('MSTD', n=min(n, 4), window=w, ddof=1, ewm=True, adjust=adj)
        t('MSTD', n=3, window=3, ddof=0, ewm=True, adjust=adj)
        t('BB', n=4, window=3, alpha=2.0, ewm=True, adjust=adj)
    t('RSI', n=4, window=2, ewm=True, adjust=True)
    t('ATR', n=3, window=2, ewm=True, adjust=True)
    t('STOCH', n=3, k=1, d=2, d_ewm=True)
    t('STOCH', n=3, k=1, d=2, d_ewm=True, adjust=True)
    t('MACD', n=4, f=1, s=2, g=2, me=True, se=True, adjust=True)
    for k, d in ((1, 1), (2, 1), (2, 2)):
        t('STOCH', n=3, k=k, d=d)
    t('STOCH', n=3, k=2, d=1, d_ewm=True)
    for f, s, g in ((1, 2, 1), (1, 2, 2), (2, 1, 2), (2, 3, 1)):
        t('MACD', n=n, f=f, s=s, g=g)
    t('MACD', n=3, f=1, s=2, g=2, me=True)
    t('MACD', n=3, f=1, s=2, g=2, me=True, se=True)
    t('OBV', n=3)
    t('OBV', n=2, ncol=2)
    for ind in PARAMS:
        t('params', ind=ind, n=3)
    for ind in ('MA', 'BBANDS'):
        t('params', ind=ind, n=2, ncol=2)
    for ind in ('MA', 'RSI'):
        t('params', ind=ind, n=2, run_unique=True)
        t('params', ind=ind, n=2, run_unique=False)
    t('product', n=3)
    t('combs', n=3)
    return out
