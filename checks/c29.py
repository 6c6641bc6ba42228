"""C29: look-ahead labels equal their definition over exactly the future window they name."""
import math
import numpy as np
from symx.harness import isnan, ite, div, or_
from checks.c28 import ma, var, evar, rmin, eqroot, col

PROPERTY = 'C29'
BOUNDS = dict(rows='up to 5 (breakout/extrema) or 5 (windows)', windows='1..3', wait='0..3', thresholds='all positive reals (negative side < 1), scalars, per-row and per-column arrays',
              values='all positive reals; NaN gaps for the window labels')
ASSUMPTIONS = ['the first local extremum is the first row (anchor of the zig-zag)', 'trend labels are decided on NaN-free prices']
VALIDATE_S = dict(quick=15)


def sym_setup(vbt):
    sym_labels()


def sym_labels():
    # column labels made from symbolic thresholds: any label does (`multi` uses concrete ones and the original function)
    from vectorbt.base import index_fns
    import pandas as pd
    orig = index_fns.index_from_values

    def label(values, name=None):
        flat = [v for x in values for v in np.asarray(x, dtype=object).reshape(-1)]
        if all([isinstance(v, (int, float, str, type(None))) for v in flat]):
            return orig(values, name=name)
        return pd.Index(['array_%d' % i for i in range(len(values))], name=name)
    index_fns.index_from_values = label


def run(h, ind, *a, **k):
    r, exc = h.call(getattr(h.vbt, ind).run, *a, **k)
    h.check(exc is None, '%s raises %s' % (ind, exc))
    return r


def future(h, ind, n, window, wait, ewm=False, ddof=0, nan=False, adjust=False):
    x = h.floats('x', n, nan=nan, **(dict(gt=0) if ind == 'MEANLB' else {}))
    kw = dict(wait=wait)
    if ind in ('FMEAN', 'FSTD', 'MEANLB'):
        kw['ewm'] = ewm
        kw['adjust'] = adjust
    if ind == 'FSTD':
        kw['ddof'] = ddof
    r = run(h, ind, h.sr(x), window, **kw)
    if r is None:
        return
    got = col(getattr(r, 'labels' if ind == 'MEANLB' else ind.lower()))
    out = []
    if ewm:
        rev = list(x)[::-1]
        f = (evar(rev, window, adjust) if ind == 'FSTD' else ma(rev, window, True, adjust))[::-1]
        out = [f[i + wait] if i + wait < n else math.nan for i in range(n)]
    else:
        for i in range(n):
            w = list(x[i + wait:i + wait + window])
            if len(w) < window or any([bool(isnan(v)) for v in w]):
                out.append(math.nan)
            elif ind in ('FMEAN', 'MEANLB'):
                out.append(sum(w[1:], w[0]) / window)
            elif ind == 'FMIN':
                out.append(rmin(w))
            elif ind == 'FMAX':
                out.append(rmin(w, True))
            else:
                out.append(var(w, window, ddof)[-1])
    if ind == 'MEANLB':
        out = [div(o - v, v) for o, v in zip(out, x)]
    if ind == 'FSTD':
        eqroot(h, got, out, ind)
    else:
        h.eq(got, out, ind)


def fixlb(h, n, k):
    x = h.floats('x', n, nan=True, gt=0)
    r = run(h, 'FIXLB', h.sr(x), k)
    if r is not None:
        h.eq(col(r.labels), [div(x[i + k] - x[i], x[i]) if i + k < n else math.nan for i in range(n)], 'FIXLB')


def thresholds(h, n, kind):
    """-> (pos, neg as passed, pos(i), neg(i))"""
    if kind == 'scalar':
        p, m = h.real('p', gt=0, hi=2), h.real('m', gt=0, lt=1)
        return p, m, (lambda i: p), (lambda i: m)
    ps = h.floats('p', n, gt=0, hi=2)
    ms = h.floats('m', n, gt=0, lt=1)
    return ps, ms, (lambda i: ps[i]), (lambda i: ms[i])


def zigzag(x, p, m):
    n = len(x)
    out = [0] * n
    s = None
    for j in range(1, n):
        if x[j] >= x[0] * (1 + p(0)):
            s, want = j, 1
            break
        if x[j] <= x[0] * (1 - m(0)):
            s, want = j, -1
            break
    if s is None:
        return out
    out[0] = -want
    j = s + 1
    e = s
    while j < n:
        if (x[j] > x[e]) if want == 1 else (x[j] < x[e]):
            e = j
        elif (x[j] <= x[e] * (1 - m(e))) if want == 1 else (x[j] >= x[e] * (1 + p(e))):
            out[e] = want
            want = -want
            e = j
        j += 1
    out[e] = want
    return out


def extrema(h, n, kind):
    x = h.floats('x', n, gt=0)
    P, M, p, m = thresholds(h, n, kind)
    r = run(h, 'LEXLB', h.sr(x), P, M)
    if r is None:
        return
    got = [int(v) for v in col(r.labels)]
    h.eq(got, zigzag(list(x), p, m), 'local extrema')
    ex = [i for i in range(n) if got[i] != 0]
    for a, b in zip(ex, ex[1:]):
        h.check(got[a] == -got[b], 'extrema alternate')
        h.check(x[b] >= x[a] * (1 + p(a)) if got[a] == -1 else x[b] <= x[a] * (1 - m(a)), 'move of at least the threshold')
    for k in range(1, len(ex)):
        lo, hi = ex[k - 1], ex[k + 1] if k + 1 < len(ex) else n - 1
        for i in range(lo, hi + 1):
            h.check(x[i] <= x[ex[k]] if got[ex[k]] == 1 else x[i] >= x[ex[k]], 'peak/trough of its leg')


def trend(h, n, mode, kind='scalar'):
    x = h.floats('x', n, gt=0)
    P, M, p, m = thresholds(h, n, kind)
    r = run(h, 'TRENDLB', h.sr(x), P, M, mode)
    if r is None:
        return
    z = zigzag(list(x), p, m)
    ex = [i for i in range(n) if z[i] != 0]
    out = [math.nan] * n
    for a, b in zip(ex, ex[1:]):
        up = z[b] == 1
        w = list(x[a:b + 1])
        lo, hi = rmin(w), rmin(w, True)
        for i in range(a, b):
            v = x[i]
            if mode == 0:
                out[i] = 1.0 if up else 0.0
            elif mode == 1:
                out[i] = 1 - (v - lo) / (hi - lo)
            elif mode == 2:
                if up:
                    st = hi / (1 + p(a))
                    out[i] = 1.0 if v <= st else 1 - (v - st) / (hi - st)
                else:
                    st = lo / (1 - m(a))
                    out[i] = 0.0 if v >= st else 1 - (v - lo) / (st - lo)
            else:
                out[i] = (x[b] - v) / (x[b] if up and mode == 4 else v)
    h.eq(col(r.labels), out, 'trend labels mode %s' % mode)


def breakout(h, n, window, wait, kind='scalar', sides='both'):
    x = h.floats('x', n, gt=0)
    P, M, p, m = thresholds(h, n, kind)
    if sides == 'pos':
        M, m = 0.0, lambda i: 0.0
    if sides == 'neg':
        P, p = 0.0, lambda i: 0.0
    r = run(h, 'BOLB', h.sr(x), window, P, M, wait=wait)
    if r is None:
        return
    out = []
    for i in range(n):
        lab = 0.0
        for j in range(i + wait, i + wait + window):
            if j >= n:
                break
            if sides != 'neg' and x[j] >= x[i] * (1 + p(i)):
                lab = 1.0
                break
            if sides != 'pos' and x[j] <= x[i] * (1 - m(i)):
                lab = -1.0
                break
        out.append(lab)
    h.eq([float(v) for v in col(r.labels)], out, 'breakout labels')


def multi(h, n):
    """several thresholds at once = each alone, columns in order"""
    x = h.floats2('x', (n, 2), gt=0)
    r = run(h, 'BOLB', h.df(x), [1, 2], [0.25, 0.5], [0.5, 0.25])
    if r is None:
        return
    A = r.labels.to_numpy()
    for k, (w, p, m) in enumerate(((1, 0.25, 0.5), (2, 0.5, 0.25))):
        for c in range(2):
            for i in range(n):
                lab = 0.0
                for j in range(i + 1, min(i + 1 + w, n)):
                    if x[j, c] >= x[i, c] * (1 + p):
                        lab = 1.0
                        break
                    if x[j, c] <= x[i, c] * (1 - m):
                        lab = -1.0
                        break
                h.eq(float(A[i, k * 2 + c]), lab, 'label')


def symmetric(h):
    import vectorbt.labels.nb as nb
    t = h.real('t', gt=0, lt=1)
    p = nb.get_symmetric_pos_th_nb(t)
    h.eq((1 - t) * (1 + p), 1.0, 'symmetric positive threshold')
    h.eq(nb.get_symmetric_neg_th_nb(p), t, 'round trip')


def tasks(tier):
    q = tier == 'quick'
    n = 4 if q else 5
    out = []
    t = lambda fn, **c: out.append(dict(fn=fn, cfg=c))
    for ind in ('FMEAN', 'FMIN', 'FMAX', 'MEANLB'):
        for w in (1, 2, 3):
            t('future', ind=ind, n=n, window=w, wait=1, nan=w == 2)
        for wait in (0, 2, 3):
            t('future', ind=ind, n=n, window=2, wait=wait)
    for w, wait in ((2, 1), (2, 0), (3, 1), (2, 2)):
        for ddof in (0, 1):
            t('future', ind='FSTD', n=n, window=w, wait=wait, ddof=ddof)
    for ind in ('FMEAN', 'MEANLB'):
        t('future', ind=ind, n=3, window=2, wait=1, ewm=True)
        t('future', ind=ind, n=3, window=2, wait=0, ewm=True)
        t('future', ind=ind, n=3, window=2, wait=1, ewm=True, adjust=True)
    for wait, adj in ((1, False), (1, True), (0, False)):
        t('future', ind='FSTD', n=4, window=3, wait=wait, ewm=True, adjust=adj, ddof=1)
    for k in (0, 1, 2, 4):
        t('fixlb', n=n, k=k)
    for kind in ('scalar', 'rows'):
        t('extrema', n=n, kind=kind)
        t('extrema', n=2, kind=kind)
        for mode in range(5):
            t('trend', n=3 if q else 4, mode=mode, kind=kind)
        t('breakout', n=3, window=2, wait=1, kind=kind)
    for mode in (0, 3):
        t('trend', n=4, mode=mode)
    t('extrema', n=1, kind='scalar')
    for w in (1, 2, 3):
        for wait in (0, 1, 2):
            t('breakout', n=3 if q else 4, window=w, wait=wait)
    for sides in ('pos', 'neg'):
        t('breakout', n=4, window=2, wait=1, sides=sides)
    t('multi', n=2 if q else 3)
    t('symmetric')
    return out
