"""C11: return metrics equal their definitions."""
import math
import numpy as np
from symx.harness import isnan, sqrt, pow_, or_, and_
from checks import retdefs as D

PROPERTY = 'C11'
BOUNDS = dict(rows='1..4 (quick up to 3 for most metrics)', columns='1 and 2', values='all real returns (above -1 where a drawdown or an annualization is involved), NaN gaps',
              annualization='1, 2, 3, 4 and 252 periods per year', parameters='risk free rate, required return, start value, Levy alpha, ddof, cutoff: symbolic or a grid')
ASSUMPTIONS = ['rounding is not modelled', 'non-integer powers are an uninterpreted function (same arguments, same value)',
               'conditional value at risk is decided on NaN-free returns', 'drawdown is measured against the highest cumulative return so far, not against the start value']
VALIDATE_S = dict(quick=12)


def sym_setup(vbt):
    from symx import load
    load.NATIVE_FRAMES = False


def inputs(h, n, m=1, nan=False, gt=None, name='r'):
    return h.floats2(name, (n, m), nan=nan, gt=gt)


def acc(h, r, af=None, bench=None, defaults=None):
    m = r.shape[1]
    obj = h.df(r) if m > 1 else h.sr(r[:, 0])
    kw = {}
    if af is not None:
        kw.update(freq='1D', year_freq='%d days' % af)
    if bench is not None:
        kw['benchmark_rets'] = h.df(bench) if bench.shape[1] > 1 else h.sr(bench[:, 0])
    if defaults is not None:
        kw['defaults'] = defaults
    return obj.vbt.returns(**kw)


def out(r, m):
    if m == 1:
        return [r]
    a = r.to_numpy()
    return [a[c] for c in range(m)]


def cols(r):
    return [[r[i, c] for i in range(r.shape[0])] for c in range(r.shape[1])]


def go(h, f):
    r, exc = h.call(f)
    h.check(exc is None, 'raises %s' % exc)
    return r if exc is None else None


def from_value(h, n, m=1, init='nan', nan=False, pos=True):
    """value -> returns -> value"""
    v = h.floats2('v', (n, m), nan=nan, gt=0 if pos else None)
    if init == 'nan':
        kw, v0 = {}, [math.nan] * m
    elif init == 'scalar':
        x = h.real('v0', gt=0 if pos else None)
        kw, v0 = dict(init_value=x), [x] * m
    else:
        x = h.floats('v0', m, gt=0 if pos else None)
        kw, v0 = dict(init_value=x), list(x)
    A = h.vbt.returns.accessors
    cls = A.ReturnsDFAccessor if m > 1 else A.ReturnsSRAccessor
    r = go(h, lambda: cls.from_value(h.df(v) if m > 1 else h.sr(v[:, 0]), **kw).obj)
    if r is None:
        return
    R = r.to_numpy().reshape(n, m)
    for c in range(m):
        prev = v0[c]
        for i in range(n):
            x = v[i, c]
            if isnan(prev) or isnan(x):
                if pos or isnan(prev) or not prev == 0:
                    h.check(isnan(R[i, c]), 'no return without both values')
            elif prev == 0:
                h.eq(R[i, c], 0.0 if x == 0 else math.inf if x > 0 else -math.inf, 'return on nothing')
            else:
                h.eq(R[i, c], (x - prev) / (prev if prev > 0 else -prev), 'return')
            prev = x
        if pos and not nan:
            # compounding brings the value back
            s = v0[c] if init != 'nan' else v[0, c]
            rr = [R[i, c] for i in range(0 if init != 'nan' else 1, n)]
            for k in range(len(rr)):
                s = s * (1 + rr[k])
            h.eq(s, v[n - 1, c], 'compounds back')


def cumulative(h, n, m=1, nan=False, start=0.0):
    r = inputs(h, n, m, nan)
    s = h.real('s') if start == 'sym' else start
    a = acc(h, r)
    R = go(h, lambda: a.cumulative(start_value=s))
    if R is None:
        return
    X = R.to_numpy().reshape(n, m)
    for c, x in enumerate(cols(r)):
        p = [D.prod1(D.valid(x[:i + 1])) for i in range(n)]
        for i in range(n):
            h.eq(X[i, c], p[i] - 1 if s == 0 else p[i] * s, 'cumulative')
    t = go(h, lambda: a.total())
    if t is not None:
        for c, x in enumerate(cols(r)):
            h.eq(out(t, m)[c], D.compound(x), 'total')


def annualized(h, n, m=1, nan=False, af=2):
    r = inputs(h, n, m, nan, gt=-1)
    t = go(h, lambda: acc(h, r, af).annualized())
    if t is not None:
        for c, x in enumerate(cols(r)):
            h.eq(out(t, m)[c], D.annual(x, af), 'annualized')


def volatility(h, n, m=1, nan=False, af=4, ddof=1, levy=2.0):
    r = inputs(h, n, m, nan)
    t = go(h, lambda: acc(h, r, af).annualized_volatility(ddof=ddof, levy_alpha=levy))
    if t is not None:
        for c, x in enumerate(cols(r)):
            v = D.varp(D.valid(x), ddof) if n > 1 else math.nan
            h.eq_root(out(t, m)[c], v * (af ** (2.0 / levy)), 'volatility')


def drawdown(h, n, m=1, nan=False):
    r = inputs(h, n, m, nan, gt=-1)
    a = acc(h, r)
    R = go(h, lambda: a.drawdown())
    M = go(h, lambda: a.max_drawdown())
    if R is None or M is None:
        return
    X = R.to_numpy().reshape(n, m)
    for c, x in enumerate(cols(r)):
        h.eq([X[i, c] for i in range(n)], D.drawdowns(x), 'drawdown')
        h.eq(out(M, m)[c], D.max_dd(x), 'max drawdown')


def calmar(h, n, m=1, nan=False, af=2):
    r = inputs(h, n, m, nan, gt=-1)
    t = go(h, lambda: acc(h, r, af).calmar_ratio())
    if t is not None:
        for c, x in enumerate(cols(r)):
            h.eq(out(t, m)[c], D.calmar(x, af), 'calmar')


def omega(h, n, m=1, nan=False, af=1, rf=False, rr=False):
    r = inputs(h, n, m, nan)
    f = h.real('rf') if rf else 0.0
    q = h.real('rr', gt=-1) if rr else 0.0
    t = go(h, lambda: acc(h, r, af).omega_ratio(risk_free=f, required_return=q))
    if t is not None:
        for c, x in enumerate(cols(r)):
            h.eq(out(t, m)[c], D.omega(x, af, f, q), 'omega')


def ratio(h, got, mean, s2, deg, k, lab):
    """got == mean / sqrt(s2) * sqrt(k)"""
    if deg is not None:
        h.eq(got, deg, lab)
        return
    h.eq(got * got * s2, mean * mean * k, lab + ' squared')
    h.check(or_(and_(mean > 0, got > 0), and_(mean < 0, got < 0), and_(mean == 0, got == 0)), lab + ' sign')


def sharpe(h, n, m=1, nan=False, af=4, rf=False, ddof=1):
    r = inputs(h, n, m, nan)
    f = h.real('rf') if rf else 0.0
    t = go(h, lambda: acc(h, r, af).sharpe_ratio(risk_free=f, ddof=ddof))
    if t is not None:
        for c, x in enumerate(cols(r)):
            ratio(h, out(t, m)[c], *D.sharpe2(x, af, f, ddof), af, 'sharpe')


def downside(h, n, m=1, nan=False, af=4, rr=False):
    r = inputs(h, n, m, nan)
    q = h.real('rr') if rr else 0.0
    t = go(h, lambda: acc(h, r, af).downside_risk(required_return=q))
    if t is not None:
        for c, x in enumerate(cols(r)):
            h.eq_root(out(t, m)[c], D.down2(x, af, q), 'downside risk')


def sortino(h, n, m=1, nan=False, af=4, rr=False):
    r = inputs(h, n, m, nan)
    q = h.real('rr') if rr else 0.0
    t = go(h, lambda: acc(h, r, af).sortino_ratio(required_return=q))
    if t is None:
        return
    for c, x in enumerate(cols(r)):
        g = out(t, m)[c]
        v = [y - q for y in D.valid(x)]
        if n < 2 or not v:
            h.check(isnan(g), 'sortino of too few')
            continue
        d2 = D.down2(x, af, q)
        if d2 == 0:
            h.eq(g, math.inf, 'sortino without downside')
        else:
            mu = D.mean(v) * af
            ratio(h, g, mu, d2, None, 1.0, 'sortino')


def bench(h, n, m, nan, gt=None, bm=None):
    return h.floats2('b', (n, m if bm is None else bm), nan=nan, gt=gt)


def bcol(b, c):
    k = c if b.shape[1] > 1 else 0
    return [b[i, k] for i in range(b.shape[0])]


def information(h, n, m=1, nan=False, ddof=1, how='init', bm=None):
    r, b = inputs(h, n, m, nan), bench(h, n, m, nan, bm=bm)
    if how == 'init':
        t = go(h, lambda: acc(h, r, None, b).information_ratio(ddof=ddof))
    else:
        t = go(h, lambda: acc(h, r).information_ratio(h.df(b) if b.shape[1] > 1 else h.sr(b[:, 0]), ddof=ddof))
    if t is not None:
        for c, x in enumerate(cols(r)):
            d = [p - q for p, q in zip(x, bcol(b, c))]
            ratio(h, out(t, m)[c], *D.sharpe2(d, 1, 0.0, ddof), 1.0, 'information ratio')


def beta(h, n, m=1, nan=False, bm=None):
    r, b = inputs(h, n, m, nan), bench(h, n, m, nan, bm=bm)
    t = go(h, lambda: acc(h, r, None, b).beta())
    if t is not None:
        for c, x in enumerate(cols(r)):
            h.eq(out(t, m)[c], D.beta(x, bcol(b, c)), 'beta')


def alpha(h, n, m=1, nan=False, af=1, rf=False, bm=None):
    r, b = inputs(h, n, m, nan), bench(h, n, m, nan, bm=bm)
    f = h.real('rf') if rf else 0.0
    t = go(h, lambda: acc(h, r, af, b).alpha(risk_free=f))
    if t is None:
        return
    for c, x in enumerate(cols(r)):
        bb = bcol(b, c)
        be = D.beta(x, bb)
        if isnan(be):
            h.check(isnan(out(t, m)[c]), 'no alpha without beta')
            continue
        d = [(p - f) - be * (q - f) for p, q in zip(x, bb)]
        h.eq(out(t, m)[c], pow_(D.mean(D.valid(d)) + 1, af) - 1, 'alpha')


def tail(h, n, m=1, nan=False, af=1, csr=False):
    r = inputs(h, n, m, nan, gt=-1 if csr else None)
    a = acc(h, r, af)
    t = go(h, lambda: a.common_sense_ratio() if csr else a.tail_ratio())
    if t is None:
        return
    for c, x in enumerate(cols(r)):
        v = D.valid(x)
        g = out(t, m)[c]
        if not v:
            h.check(isnan(g), 'tail ratio of nothing')
            continue
        hi, lo = D.percentile(v, 0.95), D.percentile(v, 0.05)
        hi = hi if hi >= 0 else -hi
        lo = lo if lo >= 0 else -lo
        k = 1 + D.annual(x, af) if csr else 1.0
        if lo == 0:
            h.eq(g, math.inf * k if not csr else math.inf, 'tail ratio without a lower tail')
        else:
            h.eq(g, hi / lo * k, 'tail ratio')


def var_(h, n, m=1, nan=False, q=0.05, cond=False):
    r = inputs(h, n, m, nan)
    a = acc(h, r)
    t = go(h, lambda: a.cond_value_at_risk(cutoff=q) if cond else a.value_at_risk(cutoff=q))
    if t is None:
        return
    for c, x in enumerate(cols(r)):
        v = D.valid(x)
        g = out(t, m)[c]
        if not v:
            h.check(isnan(g), 'value at risk of nothing')
        elif cond:
            h.eq(g, D.mean(D.smallest(v, int((len(v) - 1) * q) + 1)), 'cvar')
        else:
            h.eq(g, D.percentile(v, q), 'var')


def capture(h, n, m=1, nan=False, af=2, side='both', bm=None):
    r, b = inputs(h, n, m, nan, gt=-1), bench(h, n, m, nan, gt=-1, bm=bm)
    a = acc(h, r, af, b)
    t = go(h, lambda: dict(both=a.capture, up=a.up_capture, down=a.down_capture)[side]())
    if t is None:
        return
    for c, x in enumerate(cols(r)):
        bb = bcol(b, c)
        if side == 'up':
            k = [i for i in range(n) if bb[i] > 0]
        elif side == 'down':
            k = [i for i in range(n) if bb[i] < 0]
        else:
            k = list(range(n))
        g = out(t, m)[c]
        if not k:
            h.check(isnan(g), 'capture of nothing')
            continue
        p, q = D.annual([x[i] for i in k], af), D.annual([bb[i] for i in k], af)
        if q == 0:
            h.eq(g, math.inf, 'capture of a flat benchmark')
        else:
            h.eq(g, p / q, 'capture')


def resample(h, kind):
    """total return of the calendar periods; empty periods have no return"""
    import pandas as pd
    idx = pd.DatetimeIndex(dict(daily=['2020-01-01 00:00', '2020-01-01 12:00', '2020-01-02 00:00', '2020-01-02 12:00'],
                                gap=['2020-01-01 00:00', '2020-01-01 12:00', '2020-01-03 00:00', '2020-01-03 18:00'],
                                annual=['2020-01-01', '2020-05-01', '2020-12-31', '2021-01-05'])[kind])
    r = h.floats('r', 4, nan=True)
    a = h.sr(r, index=idx).vbt.returns(freq='1D' if kind == 'annual' else '12h', year_freq='366 days')
    t = go(h, lambda: a.annual() if kind == 'annual' else a.daily())
    if t is None:
        return
    R = t.to_numpy()
    groups = dict(daily=[[0, 1], [2, 3]], gap=[[0, 1], [], [2, 3]], annual=[[0, 1, 2], [3]])[kind]
    h.check(len(R) == len(groups), 'number of periods')
    if len(R) == len(groups):
        for i, g in enumerate(groups):
            if g:
                h.eq(R[i], D.compound([r[k] for k in g]), 'period %d' % i)
            else:
                h.check(isnan(R[i]), 'empty period')


def defaults(h, n, names):
    """defaults of the accessor (and its benchmark) are used where no argument is given, and only there"""
    import inspect
    need = set(x for k in names for x in inspect.signature(getattr(h.vbt.returns.accessors.ReturnsAccessor, k)).parameters)
    r = inputs(h, n, 1, gt=-1)
    bm = bench(h, n, 1, False, gt=-1) if 'benchmark_rets' in need else None
    f = h.real('rf') if 'risk_free' in need else 0.0
    q = h.real('rr', gt=-1) if 'required_return' in need else 0.0
    s = h.real('sv') if 'start_value' in need else 2.0
    d = dict(risk_free=f, required_return=q, ddof=0, start_value=s, cutoff=0.5, levy_alpha=1.0, window=2, minp=1)
    other = dict(risk_free=0.25, required_return=0.125, ddof=1, start_value=3.0, cutoff=0.125, levy_alpha=2.0, window=1, minp=None)
    a = acc(h, r, 1, bm, d)
    b = acc(h, r, 1, None, other)
    for name in names:
        par = inspect.signature(getattr(a, name)).parameters
        kw = {k: v for k, v in d.items() if k in par}
        if 'benchmark_rets' in par:
            kw['benchmark_rets'] = h.sr(bm[:, 0])
        x = go(h, lambda: getattr(a, name)())
        y = go(h, lambda: getattr(b, name)(**kw))
        if x is not None and y is not None:
            x, y = (z.to_numpy() if hasattr(z, 'to_numpy') else z for z in (x, y))
            h.eq(x, y, name)


def factor(h, af):
    h.eq(float(acc(h, h.floats2('r', (2, 1)), af).ann_factor), float(af), 'annualization factor')


def tasks(tier):
    q = tier == 'quick'
    o = []
    t = lambda fn, **c: o.append(dict(fn=fn, cfg=c))
    for init in ('nan', 'scalar', 'array'):
        t('from_value', n=3, m=2, init=init)
        t('from_value', n=2, m=1, init=init, nan=True)
        t('from_value', n=3, m=1, init=init, pos=False)
    for s in (0.0, 1.0, 'sym'):
        t('cumulative', n=3, m=1, nan=True, start=s)
        t('cumulative', n=2, m=2, start=s)
    N = (1, 2, 3) if q else (1, 2, 3, 4)
    for n in N:
        for nan in (False, True):
            for af in (2, 4, 3, 252):
                t('annualized', n=n, nan=nan, af=af)
            for ddof in (0, 1):
                t('volatility', n=n, nan=nan, ddof=ddof)
                t('sharpe', n=n, nan=nan, ddof=ddof, rf=ddof == 0)
            t('drawdown', n=n, nan=nan)
            t('calmar', n=n, nan=nan, af=2)
            for af in (1, 4):
                t('omega', n=n, nan=nan, af=af, rf=True, rr=True)
            t('omega', n=n, nan=nan)
            for rr in (False, True):
                t('downside', n=n, nan=nan, rr=rr)
                t('sortino', n=n, nan=nan, rr=rr)
            t('tail', n=n, nan=nan)
            t('tail', n=n, nan=nan, csr=True)
            for c in (0.05, 0.5, 0.9):
                t('var_', n=n, nan=nan, q=c)
                if not nan:
                    t('var_', n=n, q=c, cond=True)
            if n < 3 or not nan:
                t('information', n=n, nan=nan)
                t('beta', n=n, nan=nan)
                t('alpha', n=n, nan=nan, rf=True)
                for side in ('both', 'up', 'down'):
                    if n < 3 or not q:
                        t('capture', n=n, nan=nan, side=side)
                    else:
                        t('capture', n=n, nan=nan, side=side, af=3)
    for fn in ('annualized', 'volatility', 'drawdown', 'calmar', 'omega', 'sharpe', 'downside', 'sortino', 'tail', 'var_', 'information',
               'beta', 'alpha', 'capture'):
        t(fn, n=2, m=2)
    t('volatility', n=3, levy=1.0)
    t('volatility', n=3, levy=0.5)
    t('alpha', n=2, af=2)
    t('alpha', n=2, af=3, rf=True)
    t('beta', n=2, m=2, bm=1)
    t('information', n=2, m=2, bm=1, how='arg')
    t('capture', n=2, m=2, bm=1)
    for k in ('daily', 'gap', 'annual'):
        t('resample', kind=k)
    for names in (('cumulative', 'value_at_risk', 'cond_value_at_risk', 'annualized_volatility'), ('omega_ratio',), ('sharpe_ratio',), ('downside_risk', 'sortino_ratio'),
                  ('information_ratio',), ('alpha',), ('beta',), ('capture', 'up_capture', 'down_capture'),
                  ('rolling_total', 'rolling_annualized', 'rolling_annualized_volatility', 'rolling_max_drawdown'), ('rolling_calmar_ratio',),
                  ('rolling_omega_ratio',), ('rolling_sharpe_ratio',), ('rolling_downside_risk',), ('rolling_sortino_ratio',), ('rolling_information_ratio',),
                  ('rolling_beta',), ('rolling_alpha',), ('rolling_tail_ratio', 'rolling_value_at_risk', 'rolling_cond_value_at_risk'), ('rolling_common_sense_ratio',),
                  ('rolling_capture',), ('rolling_up_capture',), ('rolling_down_capture',)):
        t('defaults', n=2 if 'rolling' not in names[0] else 3, names=names)
    for af in (1, 252, 365):
        t('factor', af=af)
    return o
