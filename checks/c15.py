"""C15: exponentially weighted mean and standard deviation equal the weighted definition."""
import math
from symx.harness import isnan

PROPERTY = 'C15'
BOUNDS = dict(rows='mean up to 5, std up to 4 (thorough 6 and 5)', values='all reals and NaN in any position', span='1, 2, 3, 7', minp='None, 0, 1, 2, 3', adjust='both')


def weights(obs, i, alpha, adjust):
    """weights of the observations among obs[0..i] (row numbers), decaying per row"""
    f = 1 - alpha
    w, rows = [], []
    for k in range(i + 1):
        if not w:
            if obs[k]:
                w, rows = [1.0], [k]
            continue
        w = [x * f for x in w]
        if obs[k]:
            w.append(1.0 if adjust else alpha)
            rows.append(k)
            if not adjust:
                t = sum(w)
                w = [x / t for x in w]
    return rows, w


def ewm(h, kind, n, span, minp, adjust, ncol=1):
    a = h.floats2('x', (n, ncol), nan=True)
    acc = h.df(a).vbt
    r, exc = h.call(getattr(acc, 'ewm_' + kind), span, minp=minp, adjust=adjust, wrap_kwargs={}, **(dict(ddof=1) if kind == 'std' else {}))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    r = r.to_numpy()
    mp = span if minp is None else minp
    alpha = 2.0 / (span + 1)
    for c in range(ncol):
        obs = [not isnan(a[i, c]) for i in range(n)]
        for i in range(n):
            rows, w = weights(obs, i, alpha, adjust)
            lab = 'row %d col %d' % (i, c)
            if len(rows) < mp or not rows:
                h.eq(r[i, c], math.nan, lab)
                continue
            t = sum(w)
            if t == 0:
                continue
            mean = sum(x * a[k, c] for x, k in zip(w, rows)) / t
            if kind == 'mean':
                h.eq(r[i, c], mean, lab)
                continue
            t2 = sum(x * x for x in w)
            if i == 0 or t * t - t2 <= 1e-12:
                h.eq(r[i, c], math.nan, lab)
                continue
            q = 0.0
            for x, k in zip(w, rows):
                q = q + x * (a[k, c] - mean) * (a[k, c] - mean)
            h.eq_root(r[i, c], q / t * (t * t / (t * t - t2)), lab)


def tasks(tier):
    out = []
    n = 5 if tier == 'quick' else 6
    for span in (1, 2, 3, 7):
        for adjust in (False, True):
            for mp in (None, 0, 1, 2, 3):
                if mp is not None and mp > span:  # delegated to pandas
                    continue
                if tier == 'quick' and mp in (0, 2) and span != 3:
                    continue
                out.append(dict(fn='ewm', cfg=dict(kind='mean', n=n, span=span, minp=mp, adjust=adjust)))
                if span != 2:  # weights that are exact in binary, so that rounding cannot decide 'one observation'
                    out.append(dict(fn='ewm', cfg=dict(kind='std', n=n - 1, span=span, minp=mp, adjust=adjust), weight=3))
            out.append(dict(fn='ewm', cfg=dict(kind='mean', n=2, span=span, minp=1, adjust=adjust, ncol=2)))
            out.append(dict(fn='ewm', cfg=dict(kind='std', n=2, span=span, minp=1, adjust=adjust, ncol=2)))
    return out
