"""C14: rolling and expanding statistics equal the statistic of their window."""
import math
from symx.harness import isnan, and_

PROPERTY = 'C14'
BOUNDS = dict(rows='up to 5 (std: up to 4)', values='all reals and NaN in any position', windows='1..rows+1', minp='None and 0..window',
              columns='1 and 2')
ASSUMPTIONS = ['rolling mean/std of fewer than one observation (minp=0 on an empty window) is NaN']


def stat(kind, vals, ddof=0):
    if not vals:
        return math.nan
    if kind == 'min':
        m = vals[0]
        for v in vals[1:]:
            if v < m:
                m = v
        return m
    if kind == 'max':
        m = vals[0]
        for v in vals[1:]:
            if v > m:
                m = v
        return m
    s = sum(vals[1:], vals[0])
    if kind == 'sum':
        return s
    if kind == 'mean':
        return s / len(vals)
    if len(vals) - ddof <= 0:
        return math.nan
    mean = s / len(vals)
    q = 0.0
    for v in vals:
        q = q + (v - mean) * (v - mean)
    return q / (len(vals) - ddof)


def spec(kind, col, window, minp, ddof=0):
    out = []
    if minp is None:
        minp = window
    for i in range(len(col)):
        w = [x for x in col[max(0, i - window + 1):i + 1] if not isnan(x)]
        out.append(stat(kind, w, ddof) if len(w) >= minp else math.nan)
    return out


def roll(h, kind, n, window, minp, ncol=1, ddof=1):
    a = h.floats2('x', (n, ncol), nan=True)
    acc = h.df(a).vbt
    kw = dict(ddof=ddof) if kind == 'std' else {}
    if window is None:
        r, exc = h.call(getattr(acc, 'expanding_' + kind), minp=minp, **kw)
    else:
        r, exc = h.call(getattr(acc, 'rolling_' + kind), window, minp=minp, **kw)
    if window is not None and minp is not None and minp > window:
        h.check(exc == 'ValueError', 'minp > window is refused: %s' % exc)
        return
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    r = r.to_numpy()
    for c in range(ncol):
        col = [a[i, c] for i in range(n)]
        want = spec(kind, col, n if window is None else window, minp, ddof)
        for i in range(n):
            if kind == 'std':
                h.eq_root(r[i, c], want[i], 'row %d col %d' % (i, c))
            else:
                h.eq(r[i, c], want[i], 'row %d col %d' % (i, c))


def apply(h, n, window, minp, ncol=1, matrix=False):
    """user functions see exactly the window"""
    a = h.floats2('x', (n, ncol), nan=True)
    acc = h.df(a).vbt
    if matrix:
        def f_nb(i, w):
            return w[0, :] + 100 * w.shape[0]
    else:
        def f_nb(i, col, w):
            return w[0] + 10 * w[-1] + 100 * w.shape[0] + 1000 * i + 10000 * col
    f = h.njit(f_nb)
    if window is None:
        r, exc = h.call(acc.expanding_apply, f, minp=minp, on_matrix=matrix)
    else:
        r, exc = h.call(acc.rolling_apply, window, f, minp=minp, on_matrix=matrix)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    r = r.to_numpy()
    w = n if window is None else window
    mp = w if minp is None else minp
    for c in range(ncol):
        for i in range(n):
            win = [a[k, c] for k in range(max(0, i - w + 1), i + 1)]
            cnt = sum(1 for x in win if not isnan(x))
            if cnt < mp:
                h.eq(r[i, c], math.nan, 'row %d' % i)
            else:
                h.eq(r[i, c], win[0] + 10 * win[-1] + 100 * len(win) + 1000 * i + 10000 * c, 'row %d' % i)


def apply_matrix(h, n, window, ncol):
    """on_matrix without missing values: the function sees all columns of the window"""
    a = h.floats2('x', (n, ncol))

    def f_nb(i, w):
        return w[0, :] + 10 * w[-1, :] + 100 * w.shape[0] + 1000 * i
    r = h.df(a).vbt.rolling_apply(window, h.njit(f_nb), on_matrix=True, minp=1).to_numpy()
    for c in range(ncol):
        for i in range(n):
            win = [a[k, c] for k in range(max(0, i - window + 1), i + 1)]
            h.eq(r[i, c], win[0] + 10 * win[-1] + 100 * len(win) + 1000 * i, 'row %d col %d' % (i, c))


def tasks(tier):
    out = []
    N = 5 if tier == 'quick' else 6
    for kind in ('min', 'max', 'mean'):
        for w in list(range(1, N + 2)) + [None]:
            for mp in [None] + list(range(0, (w or N) + 1)) + ([w + 1] if w == 2 else []):
                if w is None and mp is None:
                    continue
                if tier == 'quick' and w is not None and w > 3 and mp not in (None, 1):
                    continue
                out.append(dict(fn='roll', cfg=dict(kind=kind, n=N, window=w, minp=mp)))
        out.append(dict(fn='roll', cfg=dict(kind=kind, n=3, window=2, minp=1, ncol=2)))
    M = 4 if tier == "quick" else 5
    for w in list(range(1, M + 1)) + [None]:
        for mp in ([None] if w else []) + [0, 1, 2]:
            for ddof in (0, 1):
                if mp is None or mp <= (w or M):
                    out.append(dict(fn='roll', cfg=dict(kind='std', n=M, window=w, minp=mp, ddof=ddof), weight=4))
    out.append(dict(fn='roll', cfg=dict(kind='std', n=2, window=2, minp=1, ncol=2)))
    if tier == 'quick':
        out.append(dict(fn='roll', cfg=dict(kind='std', n=4, window=2, minp=1, ddof=1), weight=9))
    for w in (1, 2, 3, None):
        for mp in (1, 2) + ((None,) if w else ()):
            if mp is None or w is None or mp <= w:
                out.append(dict(fn='apply', cfg=dict(n=4, window=w, minp=mp)))
    out.append(dict(fn='apply', cfg=dict(n=3, window=2, minp=1, ncol=2)))
    for w in (1, 2, 3):
        out.append(dict(fn='apply_matrix', cfg=dict(n=3, window=w, ncol=2)))
    return out
