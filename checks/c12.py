"""C12: a rolling return metric is the metric of its window."""
import math
from symx.harness import isnan
from checks.c11 import acc, inputs, cols, go, out

PROPERTY = 'C12'
BOUNDS = dict(rows='3 and 4', columns='1 and 2', windows='1..5', minp='none, 0..window', values='all real returns (above -1), NaN gaps in returns and benchmark')
ASSUMPTIONS = ['the plain metrics are decided by C11', 'conditional value at risk is decided on NaN-free returns']
VALIDATE_S = dict(quick=10)

M = dict(rolling_total='total', rolling_annualized='annualized', rolling_annualized_volatility='annualized_volatility', rolling_calmar_ratio='calmar_ratio',
         rolling_omega_ratio='omega_ratio', rolling_sharpe_ratio='sharpe_ratio', rolling_downside_risk='downside_risk', rolling_sortino_ratio='sortino_ratio',
         rolling_information_ratio='information_ratio', rolling_beta='beta', rolling_alpha='alpha', rolling_tail_ratio='tail_ratio',
         rolling_common_sense_ratio='common_sense_ratio', rolling_value_at_risk='value_at_risk', rolling_cond_value_at_risk='cond_value_at_risk',
         rolling_capture='capture', rolling_up_capture='up_capture', rolling_down_capture='down_capture', rolling_max_drawdown='max_drawdown')
BENCH = ('rolling_information_ratio', 'rolling_beta', 'rolling_alpha', 'rolling_capture', 'rolling_up_capture', 'rolling_down_capture')
HEAVY = ('rolling_up_capture', 'rolling_down_capture', 'rolling_omega_ratio', 'rolling_tail_ratio', 'rolling_common_sense_ratio', 'rolling_calmar_ratio',
         'rolling_sortino_ratio', 'rolling_downside_risk', 'rolling_max_drawdown', 'rolling_value_at_risk', 'rolling_cond_value_at_risk')
PARAMS = dict(rolling_annualized_volatility=dict(ddof=0, levy_alpha=1.0), rolling_omega_ratio=dict(risk_free='rf', required_return='rr'),
              rolling_sharpe_ratio=dict(risk_free='rf', ddof=0), rolling_downside_risk=dict(required_return='rr'), rolling_sortino_ratio=dict(required_return='rr'),
              rolling_information_ratio=dict(ddof=0), rolling_alpha=dict(risk_free='rf'), rolling_value_at_risk=dict(cutoff=0.5),
              rolling_cond_value_at_risk=dict(cutoff=0.5))


def rolling(h, name, n, w, minp=None, m=1, nan=False, af=1, params=False, bm=None, defaults=False):
    r = inputs(h, n, m, nan, gt=-1)
    b = None
    if name in BENCH:
        b = inputs(h, n, bm or m, nan and m == 1, gt=-1, name='b')
    kw = {}
    if params:
        kw = {k: (h.real(v, gt=-1) if isinstance(v, str) else v) for k, v in PARAMS[name].items()}
    if defaults:
        d = dict(window=w, minp=minp, **kw)
        R = go(h, lambda: getattr(acc(h, r, af, b, d), name)())
    else:
        R = go(h, lambda: getattr(acc(h, r, af, b), name)(window=w, minp=minp, **kw))
    if R is None:
        return
    X = R.to_numpy().reshape(n, m)
    need = w if minp is None else minp
    for i in range(n):
        lo = max(0, i + 1 - w)
        y = None
        for c in range(m):
            cnt = len([k for k in range(lo, i + 1) if not isnan(r[k, c])])
            if cnt < need:
                h.check(isnan(X[i, c]), 'row %d: fewer than %d observations' % (i, need))
                continue
            if y is None:
                y = go(h, lambda: getattr(acc(h, r[lo:i + 1], af, None if b is None else b[lo:i + 1]), M[name])(**kw))
                if y is None:
                    return
            h.eq(X[i, c], out(y, m)[c], 'row %d' % i)


def tasks(tier):
    q = tier == 'quick'
    o = []
    t = lambda **c: o.append(dict(fn='rolling', cfg=c))
    for name in M:
        heavy = name in HEAVY
        n = 3 if q or heavy else 4
        cv = name == 'rolling_cond_value_at_risk'
        for w in ((1, 2, 4) if q else (1, 2, 3, 4, 5)):
            t(name=name, n=n, w=w)
        t(name=name, n=n, w=2, minp=1)
        t(name=name, n=n, w=4, minp=2, nan=not cv and (not heavy or 'capture' not in name))
        t(name=name, n=2, w=2, minp=1, nan=not cv)
        if not cv:
            t(name=name, n=2, w=3, minp=0, nan=True)
            t(name=name, n=3 if name not in BENCH else 2, w=2, nan=True)
        if name in PARAMS:
            t(name=name, n=n, w=2, params=True)
            t(name=name, n=2, w=2, minp=1, params=True, defaults=True)
        else:
            t(name=name, n=2, w=2, minp=1, defaults=True)
        t(name=name, n=2, w=2, minp=1, m=2)
        if name in BENCH:
            t(name=name, n=3, w=2, m=2, bm=1)
        if 'annual' in name or name in ('rolling_calmar_ratio', 'rolling_alpha', 'rolling_capture', 'rolling_sharpe_ratio', 'rolling_sortino_ratio'):
            t(name=name, n=3, w=2, minp=1, af=4)
    return o
