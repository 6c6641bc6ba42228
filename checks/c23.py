"""C23: cleaned signals strictly alternate, rows with both are dropped, and nothing that could be kept is dropped."""
PROPERTY = 'C23'
BOUNDS = dict(rows='up to 5 (thorough 6)', columns='1 and 2', entry_first='both')
VALIDATE_S = dict(quick=8)


def lst(r, c=0):
    a = r.to_numpy()
    return [bool(x) for x in (a if a.ndim == 1 else a[:, c])]


def judge(h, e, x, E, X, first):
    n = len(e)
    last = None
    for i in range(n):
        a, b = bool(e[i]), bool(x[i])
        h.check(not (E[i] and not a) and not (X[i] and not b), 'row %d: only existing signals are kept' % i)
        h.check(not (E[i] and X[i]), 'row %d: not both' % i)
        if a and b:
            h.check(not E[i] and not X[i], 'row %d has both signals, none is kept' % i)
            continue
        if E[i] or X[i]:
            k = 'entry' if E[i] else 'exit'
            h.check(last != k, 'row %d: alternation' % i)
            h.check(not (first and last is None and k == 'exit'), 'entry comes first')
            last = k
        else:
            h.check(not (a and last != 'entry'), 'row %d: entry could have been kept' % i)
            h.check(not (b and (last == 'entry' or (last is None and not first))), 'row %d: exit could have been kept' % i)


def clean(h, n, ncol, first=True, how='method', kw=True):
    shape = (n, ncol) if ncol > 1 else (n,)
    e, x = h.masks('e', shape), h.masks('x', shape)
    mk = h.df if ncol > 1 else h.sr
    de, dx = mk(e), mk(x)
    k = dict(entry_first=first) if kw else {}
    if how == 'method':
        r, exc = h.call(lambda: de.vbt.signals.clean(dx, **k))
    else:
        r, exc = h.call(lambda: type(de.vbt.signals).clean(de, dx, **k))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    h.check(r[0].shape == de.shape and r[1].shape == de.shape, 'shape kept')
    for c in range(ncol):
        ce = e if ncol == 1 else e[:, c]
        cx = x if ncol == 1 else x[:, c]
        judge(h, list(ce), list(cx), lst(r[0], c), lst(r[1], c), first)


def broadcast(h, n):
    """one exit series against a frame of entries"""
    e, x = h.masks('e', (n, 2)), h.masks('x', (n,))
    r, exc = h.call(lambda: h.df(e).vbt.signals.clean(h.sr(x)))
    h.check(exc is None, 'raises %s' % exc)
    if exc is None:
        for c in range(2):
            judge(h, list(e[:, c]), list(x), lst(r[0], c), lst(r[1], c), True)


def single(h, n):
    """one array: the first signal of each run"""
    e = h.masks('e', (n,))
    r, exc = h.call(lambda: h.sr(e).vbt.signals.clean())
    h.check(exc is None, 'raises %s' % exc)
    if exc is None:
        E = lst(r)
        for i in range(n):
            h.check(E[i] == (bool(e[i]) and (i == 0 or not bool(e[i - 1]))), 'row %d' % i)


def tasks(tier):
    n = 5 if tier == 'quick' else 6
    out = []
    for first in (True, False):
        for m in range(1, n + 1):
            out.append(dict(fn='clean', cfg=dict(n=m, ncol=1, first=first)))
        out.append(dict(fn='clean', cfg=dict(n=2, ncol=2, first=first, how='class')))
    out.append(dict(fn='clean', cfg=dict(n=3, ncol=1, kw=False)))
    out.append(dict(fn='broadcast', cfg=dict(n=2)))
    out.append(dict(fn='single', cfg=dict(n=n)))
    return out
