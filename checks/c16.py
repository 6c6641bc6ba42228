"""C16: element-wise transforms, fills and NaN-aware reductions equal their definition."""
import math
from symx.harness import isnan, ite, and_, or_, div

PROPERTY = 'C16'
BOUNDS = dict(rows='up to 4 (thorough 5)', columns='1 and 2', values='all reals and NaN in any position',
              shift='-5..5', diff='1..5', percentiles='0, 0.25, 0.5, 0.75, 1')
ASSUMPTIONS = ['pct_change: division by zero gives NaN/inf as in NumPy']


def kleene(vals):
    return [v for v in vals if not isnan(v)]


def spec_ew(name, col, n, fv):
    N = len(col)
    nan = math.nan
    if name == 'fshift':
        return [col[i - n] if 0 <= i - n < N else fv for i in range(N)]
    if name == 'bshift':
        return [col[i + n] if 0 <= i + n < N else fv for i in range(N)]
    if name == 'diff':
        return [col[i] - col[i - n] if i >= n else nan for i in range(N)]
    if name == 'pct_change':
        return [div(col[i], col[i - n]) - 1 if i >= n else nan for i in range(N)]
    if name == 'fillna':
        return [ite(isnan(x), fv, x) for x in col]
    if name == 'ffill':
        out, last = [], nan
        for x in col:
            if not isnan(x):
                last = x
            out.append(last)
        return out
    if name == 'bfill':
        return spec_ew('ffill', col[::-1], n, fv)[::-1]
    out, acc = [], None
    for x in col:
        if acc is None:
            acc = 0.0 if name == 'cumsum' else 1.0
        if not isnan(x):
            acc = acc + x if name == 'cumsum' else acc * x
        out.append(acc)
    return out


def elementwise(h, name, n, ncol=1, k=1, filled=False):
    a = h.floats2('x', (n, ncol), nan=True)
    acc = h.df(a).vbt
    fv = math.nan
    args = ()
    if name in ('fshift', 'bshift'):
        args = (k,)
        if filled:
            fv = h.real('fill', nan=True)
            args = (k, fv)
    elif name in ('diff', 'pct_change'):
        args = (k,)
    elif name == 'fillna':
        fv = h.real('fill', nan=True)
        args = (fv,)
    r, exc = h.call(getattr(acc, name), *args)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    r = r.to_numpy()
    for c in range(ncol):
        h.eq([r[i, c] for i in range(n)], spec_ew(name, [a[i, c] for i in range(n)], k, fv), '%s col %d' % (name, c))


def spec_red(h, name, vals, res, lab, ddof=1, p=None):
    v = kleene(vals)
    if name == 'count':
        h.eq(res, len(v), lab)
        return
    if name == 'sum':
        h.eq(res, sum(v, 0.0), lab)
        return
    if name == 'product':
        q = 1.0
        for x in v:
            q = q * x
        h.eq(res, q, lab)
        return
    if not v:
        h.eq(res, math.nan, lab + ' of nothing')
        return
    if name == 'mean':
        h.eq(res, sum(v[1:], v[0]) / len(v), lab)
    elif name == 'std':
        if len(v) <= ddof:
            h.eq(res, math.nan, lab)
            return
        m = sum(v[1:], v[0]) / len(v)
        q = 0.0
        for x in v:
            q = q + (x - m) * (x - m)
        h.eq_root(res, q / (len(v) - ddof), lab)
    elif name in ('min', 'max'):
        h.check(or_(*[res == x for x in v]), lab + ' is one of the values')
        for x in v:
            h.check(res <= x if name == 'min' else res >= x, lab + ' bounds the values')
    elif name in ('median', 'percentile'):
        q = 0.5 if p is None else p
        s = ssort(v)
        pos = q * (len(s) - 1)
        lo = int(pos)
        hi = min(lo + 1, len(s) - 1)
        fr = pos - lo
        h.eq(res, s[lo] + (s[hi] - s[lo]) * fr, lab)
    elif name in ('idxmin', 'idxmax'):
        k = [i for i, x in enumerate(vals) if not isnan(x)]
        best = k[0]
        for i in k[1:]:
            if (vals[i] < vals[best]) if name == 'idxmin' else (vals[i] > vals[best]):
                best = i
        h.eq(res, best, lab)


def ssort(v):
    """sorted list through min/max comparator network (no forks)"""
    s = list(v)
    for i in range(len(s)):
        for j in range(len(s) - 1 - i):
            c = s[j] <= s[j + 1]
            s[j], s[j + 1] = ite(c, s[j], s[j + 1]), ite(c, s[j + 1], s[j])
    return s


def reduce(h, name, n, ncol=1, ddof=1, nb=False):
    a = h.floats2('x', (n, ncol), nan=True)
    if nb:
        import vectorbt.generic.nb as g
        f = {'idxmin': g.argmin_reduce_nb, 'idxmax': g.argmax_reduce_nb, 'mean': g.nanmean_nb, 'min': g.nanmin_nb, 'max': g.nanmax_nb,
             'sum': g.nansum_nb, 'median': g.nanmedian_nb, 'count': g.nancnt_nb, 'std': g.nanstd_nb, 'product': g.nanprod_nb}[name]
        if name.startswith('idx'):
            vals = [a[i, 0] for i in range(n)]
            r, exc = h.call(f, 0, a[:, 0])
            if not kleene(vals):
                h.check(exc == 'ValueError', 'all-NaN column is refused: %s' % exc)
                return
            h.check(exc is None, 'raises %s' % exc)
            if exc is None:
                spec_red(h, name, vals, r, name)
            return
        r, exc = h.call(f, a, **(dict(ddof=ddof) if name == 'std' else {}))
    else:
        r, exc = h.call(getattr(h.df(a).vbt, name), **(dict(ddof=ddof) if name == 'std' else {}))
        if exc is None:
            r = r.to_numpy()
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    for c in range(ncol):
        spec_red(h, name, [a[i, c] for i in range(n)], r[c], '%s col %d' % (name, c), ddof)


def describe(h, n, perc, ddof=1):
    a = h.floats2('x', (n, 1), nan=True)
    r, exc = h.call(h.df(a).vbt.describe, perc, ddof, wrap_kwargs={})
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    v = [a[i, 0] for i in range(n)]
    r = r.to_numpy()[:, 0]
    ps = sorted(set([0.25, 0.5, 0.75] if perc is None else list(perc) + [0.5]))
    h.eq(len(r), 5 + len(ps), 'rows of describe')
    for k, name in enumerate(('count', 'mean', 'std', 'min')):
        spec_red(h, name, v, r[k], name, ddof)
    for k, p in enumerate(ps):
        spec_red(h, 'percentile', v, r[4 + k], 'percentile %s' % p, p=p)
    spec_red(h, 'max', v, r[-1], 'max')


def nth(h, n, k):
    import vectorbt.generic.nb as g
    a = h.floats('x', n, nan=True)
    v, e1 = h.call(g.nth_reduce_nb, 0, a, k)
    i, e2 = h.call(g.nth_index_reduce_nb, 0, a, k)
    ok = -n <= k < n
    h.check(e1 == e2 == (None if ok else 'ValueError'), 'out-of-range positions are refused: %s %s' % (e1, e2))
    if ok:
        h.eq(v, a[k % n], 'n-th element')
        h.eq(i, k % n, 'index of the n-th element')


def mask(h, n, ncol, mult):
    import vectorbt.generic.nb as g
    a = h.floats2('x', (n, ncol), nan=True)
    m = h.bools('m', (n, ncol))
    v = h.floats2('v', (n, ncol), nan=True) if mult else h.real('v', nan=True)
    r = g.set_by_mask_mult_nb(a, m, v) if mult else g.set_by_mask_nb(a, m, v)
    want = [[(v[i, c] if mult else v) if m[i, c] else a[i, c] for c in range(ncol)] for i in range(n)]
    h.eq(r, want, 'masked cells are replaced, others kept')
    r1 = g.set_by_mask_mult_1d_nb(a[:, 0], m[:, 0], v[:, 0]) if mult else g.set_by_mask_1d_nb(a[:, 0], m[:, 0], v)
    h.eq(list(r1), [row[0] for row in want], '1d version')


def tasks(tier):
    out = []
    n = 4 if tier == 'quick' else 5
    for name in ('fshift', 'bshift'):
        for k in range(-5, 6):
            out.append(dict(fn='elementwise', cfg=dict(name=name, n=n, k=k)))
        out.append(dict(fn='elementwise', cfg=dict(name=name, n=3, k=1, filled=True)))
        out.append(dict(fn='elementwise', cfg=dict(name=name, n=3, k=2, ncol=2)))
    for name in ('diff', 'pct_change'):
        for k in range(1, 6):
            out.append(dict(fn='elementwise', cfg=dict(name=name, n=n, k=k)))
        out.append(dict(fn='elementwise', cfg=dict(name=name, n=3, k=2, ncol=2)))
    for name in ('fillna', 'ffill', 'bfill', 'cumsum', 'cumprod'):
        out.append(dict(fn='elementwise', cfg=dict(name=name, n=n)))
        out.append(dict(fn='elementwise', cfg=dict(name=name, n=3, ncol=2)))
    for name in ('min', 'max', 'mean', 'median', 'sum', 'count', 'product', 'idxmin', 'idxmax'):
        out.append(dict(fn='reduce', cfg=dict(name=name, n=n)))
        out.append(dict(fn='reduce', cfg=dict(name=name, n=2, ncol=2)))
        out.append(dict(fn='reduce', cfg=dict(name=name, n=n, nb=True)))
    for ddof in (0, 1, 2):
        for nbk in (False, True):
            out.append(dict(fn='reduce', cfg=dict(name='std', n=n - 1, ddof=ddof, nb=nbk)))
    out.append(dict(fn='describe', cfg=dict(n=3, perc=None), weight=3))
    out.append(dict(fn='describe', cfg=dict(n=n, perc=[0.0, 0.75, 1.0], ddof=0), weight=9))
    for k in range(-4, 4):
        out.append(dict(fn='nth', cfg=dict(n=3, k=k)))
    for mult in (False, True):
        out.append(dict(fn='mask', cfg=dict(n=2, ncol=2, mult=mult)))
    return out
