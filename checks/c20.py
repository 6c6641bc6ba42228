"""C20: crossings fire exactly on the wait-th bar of a streak above that is preceded by a bar below."""
from symx.harness import isnan

PROPERTY = 'C20'
BOUNDS = dict(rows='up to 5 (thorough 7)', columns='1 and 2', wait='0..3', values='all reals and NaN in any position')
ASSUMPTIONS = ['a touch (equality) ends a streak and the next bar above starts a new one as long as no NaN intervened']


def spec(a, b, wait, sign=1):
    n = len(a)
    st = []
    for x, y in zip(a, b):
        if isnan(x) or isnan(y):
            st.append('n')
        elif x > y:
            st.append('+' if sign > 0 else '-')
        elif x < y:
            st.append('-' if sign > 0 else '+')
        else:
            st.append('0')
    out = []
    for i in range(n):
        ok = False
        s = i - wait
        if s >= 1 and all(st[k] == '+' for k in range(s, i + 1)) and st[s - 1] in '-0':
            k = s - 1
            while k >= 0 and st[k] != 'n':
                if st[k] == '-':
                    ok = True
                k -= 1
        out.append(ok)
    return out


def crossed(h, n, wait, below=False, ncol=1):
    a = h.floats2('a', (n, ncol), nan=True)
    b = h.floats2('b', (n, ncol), nan=True)
    f = h.df(a).vbt.crossed_below if below else h.df(a).vbt.crossed_above
    r, exc = h.call(f, h.df(b), wait=wait)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    r = r.to_numpy()
    for c in range(ncol):
        w = spec([a[i, c] for i in range(n)], [b[i, c] for i in range(n)], wait, -1 if below else 1)
        h.eq([bool(x) for x in r[:, c]], w, 'crossings column %d' % c)


def scalar(h, n, wait, below, series):
    a = h.floats('a', n, nan=True)
    b = h.real('b', nan=True)
    obj = h.sr(a) if series else h.df(a.reshape(-1, 1))
    r, exc = h.call(obj.vbt.crossed_below if below else obj.vbt.crossed_above, b, wait=wait)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    h.eq([bool(x) for x in r.to_numpy().reshape(-1)], spec(list(a), [b] * n, wait, -1 if below else 1), 'against a scalar')


def series_vs_frame(h, n, below):
    a = h.floats2('a', (n, 2), nan=True)
    b = h.floats('b', n)
    f = h.df(a).vbt.crossed_below if below else h.df(a).vbt.crossed_above
    r, exc = h.call(f, h.sr(b))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    r = r.to_numpy()
    for c in range(2):
        h.eq([bool(x) for x in r[:, c]], spec([a[i, c] for i in range(n)], list(b), 0, -1 if below else 1), 'column %d' % c)


def kernel(h, n, below, wait):
    """crossings of indicator outputs go through the same automaton"""
    a = h.floats('a', n)
    b = h.floats('b', n, nan=True)
    from vectorbt.generic import nb
    f = nb.crossed_above_1d_nb
    r, exc = h.call(f, b, a, wait) if below else h.call(f, a, b, wait)
    h.check(exc is None, 'raises %s' % exc)
    if exc is None:
        h.eq([bool(x) for x in r], spec(list(a), list(b), wait, -1 if below else 1), '1d kernel')


def tasks(tier):
    q = tier == 'quick'
    out = []
    for below in (False, True):
        for wait in range(4):
            out.append(dict(fn='crossed', cfg=dict(n=4 if q else 6, wait=wait, below=below), weight=3))
        for n in (1, 2):
            out.append(dict(fn='crossed', cfg=dict(n=n, wait=0, below=below)))
        out.append(dict(fn='crossed', cfg=dict(n=2 if q else 3, wait=0, below=below, ncol=2), weight=3))
        for series in (True, False):
            for wait in (0, 1):
                out.append(dict(fn='scalar', cfg=dict(n=4, wait=wait, below=below, series=series)))
        out.append(dict(fn='series_vs_frame', cfg=dict(n=2 if q else 3, below=below)))
        for wait in (0, 1, 2):
            out.append(dict(fn='kernel', cfg=dict(n=5 if q else 7, below=below, wait=wait), weight=4))
    return out
