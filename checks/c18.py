"""C18: drawdown records equal the maximal below-peak periods of the series, and measures their definition."""
import math
import numpy as np
from symx.harness import isnan, div

PROPERTY = 'C18'
BOUNDS = dict(rows='up to 5 (thorough 6)', columns='1 and 2', values='all positive reals and NaN in any position')
ASSUMPTIONS = ['an unrecovered drawdown ends at the last valid value of its column']


def spec(col):
    """records (peak, start, valley, end, peak_val, valley_val, end_val, status) by definition"""
    rows = [i for i, x in enumerate(col) if not isnan(x)]
    below = []
    top = None
    for i in rows:
        if top is None or col[i] >= top:
            top = col[i]
            below.append(False)
        else:
            below.append(True)
    out = []
    k = 0
    while k < len(rows):
        if not below[k]:
            k += 1
            continue
        j = k
        while j < len(rows) and below[j]:
            j += 1
        run = rows[k:j]
        v = run[0]
        for r in run[1:]:
            if col[r] < col[v]:
                v = r
        p = rows[k - 1]
        e = rows[j] if j < len(rows) else rows[-1]
        out.append((p, p + 1, v, e, col[p], col[v], col[e], 1 if j < len(rows) else 0))
        k = j
    return out


F = ('peak_idx', 'start_idx', 'valley_idx', 'end_idx', 'peak_val', 'valley_val', 'end_val', 'status')


def records(h, n, ncol):
    a = h.floats2('x', (n, ncol), nan=True, gt=0)
    dd, exc = h.call(h.vbt.Drawdowns.from_ts, h.df(a))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    r = dd.values
    want = [(c,) + w for c in range(ncol) for w in spec([a[i, c] for i in range(n)])]
    h.eq(len(r), len(want), 'number of records')
    if len(r) != len(want):
        return
    for k, w in enumerate(want):
        h.eq(int(r['id'][k]), k, 'id')
        h.eq(int(r['col'][k]), w[0], 'col')
        for f, v in zip(F, w[1:]):
            h.eq(r[f][k], v, 'record %d %s' % (k, f))


def measures(h, n):
    a = h.floats('x', n, nan=True, gt=0)
    dd, exc = h.call(lambda: h.sr(a).vbt.drawdowns)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    w = spec(list(a))
    h.eq(dd.drawdown.values, [div(x[5] - x[4], x[4]) for x in w], 'drawdown')
    h.eq(dd.recovery_return.values, [div(x[6] - x[5], x[5]) for x in w], 'recovery return')
    h.eq(dd.duration.values, [x[3] - x[1] + (1 if x[7] == 0 else 0) for x in w], 'duration')
    h.eq(dd.decline_duration.values, [x[2] - x[1] + 1 for x in w], 'decline duration')
    h.eq(dd.recovery_duration.values, [x[3] - x[2] for x in w], 'recovery duration')
    h.eq(dd.recovery_duration_ratio.values, [(x[3] - x[2]) / (x[2] - x[1] + 1) for x in w], 'recovery duration ratio')
    d = [div(x[5] - x[4], x[4]) for x in w]
    if d:
        m = d[0]
        for x in d[1:]:
            if x < m:
                m = x
        h.eq(dd.max_drawdown(), m, 'max drawdown')
        h.eq(dd.avg_drawdown(), sum(d[1:], d[0]) / len(d), 'average drawdown')
    else:
        h.eq(dd.max_drawdown(), math.nan, 'max drawdown of nothing')
    h.eq(dd.count(), len(w), 'count')
    h.eq(dd.active.count(), sum(1 for x in w if x[7] == 0), 'active count')
    h.eq(dd.recovered.count(), sum(1 for x in w if x[7] == 1), 'recovered count')
    act = [x for x in w if x[7] == 0]
    h.eq(dd.active_drawdown(), div(act[-1][6] - act[-1][4], act[-1][4]) if act else math.nan, 'active drawdown')
    h.eq(dd.active_recovery(), div(act[-1][6] - act[-1][5], act[-1][4] - act[-1][5]) if act else math.nan, 'active recovery')
    h.eq(dd.active_recovery_return(), div(act[-1][6] - act[-1][5], act[-1][5]) if act else math.nan, 'active recovery return')
    raw = dict(to_timedelta=False)
    h.eq(dd.active_duration(wrap_kwargs=raw), act[-1][3] - act[-1][1] + 1 if act else math.nan, 'active duration')
    h.eq(dd.active_recovery_duration(wrap_kwargs=raw), act[-1][3] - act[-1][2] if act else math.nan, 'active recovery duration')


def mx(xs, lo=False):
    if not xs:
        return math.nan
    m = xs[0]
    for x in xs[1:]:
        if (x < m) if lo else (x > m):
            m = x
    return m


def mean(xs):
    return sum(xs[1:], xs[0]) / len(xs) if xs else math.nan


def arr(x):
    return list(np.asarray(x).reshape(-1))


ACTIVE = ('active_drawdown', 'active_duration', 'active_recovery', 'active_recovery_return', 'active_recovery_duration')


def columns(h, n, ncol, group=None, nan=False):
    """aggregates per column and per group, the attached series, selections, and the refusal of grouped active measures"""
    a = h.floats2('x', (n, ncol), nan=nan, gt=0)
    d = h.df(a)
    dd, exc = h.call(h.vbt.Drawdowns.from_ts, d, wrapper_kwargs=dict(freq='1D', **({} if group is None else dict(group_by=list(group)))))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    bare, exc = h.call(h.vbt.Drawdowns.from_ts, d, attach_ts=False)
    h.check(exc is None and bare.ts is None, 'attach_ts=False')
    h.eq(dd.ts.to_numpy(), a, 'attached series')
    w = [spec([a[i, c] for i in range(n)]) for c in range(ncol)]
    raw = dict(to_timedelta=False)
    units = [[c] for c in range(ncol)] if group is None else [[c for c in range(ncol) if group[c] == g] for g in sorted(set(group))]

    def vals(name, us, f, agg, **kw):
        got, exc = h.call(getattr(dd, name), **kw)
        h.check(exc is None, '%s raises %s' % (name, exc))
        if not exc:
            h.eq(arr(got), [agg([f(x) for c in u for x in w[c]]) for u in us], name)
    draw = lambda x: div(x[5] - x[4], x[4])
    rec = lambda x: div(x[6] - x[5], x[5])
    dur = lambda x: x[3] - x[1] + (1 if x[7] == 0 else 0)
    for us, kw in ((units, {}), ([[c] for c in range(ncol)], dict(group_by=False))):
        vals('avg_drawdown', us, draw, mean, **kw)
        vals('max_drawdown', us, draw, lambda xs: mx(xs, True), **kw)
        vals('avg_recovery_return', us, rec, mean, **kw)
        vals('max_recovery_return', us, rec, mx, **kw)
        vals('avg_duration', us, dur, mean, wrap_kwargs=raw, **kw)
        vals('max_duration', us, dur, mx, wrap_kwargs=raw, **kw)
        vals('count', us, lambda x: 1, lambda xs: len(xs), **kw)
    if not any(w):
        pass
    elif group is None:
        h.eq(arr(dd.coverage()), [sum([dur(x) for x in w[c]]) / n if w[c] else math.nan for c in range(ncol)], 'coverage')
    for name in ACTIVE:
        got, exc = h.call(getattr(dd, name), **(dict(wrap_kwargs=raw) if 'duration' in name else {}))
        if group is not None:
            h.check(exc == 'ValueError', '%s of groups is refused' % name)
            got, exc = h.call(getattr(dd, name), group_by=False, **(dict(wrap_kwargs=raw) if 'duration' in name else {}))
        h.check(exc is None, '%s raises %s' % (name, exc))
        if exc:
            continue
        act = [[x for x in w[c] if x[7] == 0] for c in range(ncol)]
        want = {'active_drawdown': lambda x: div(x[6] - x[4], x[4]), 'active_recovery': lambda x: div(x[6] - x[5], x[4] - x[5]),
                'active_recovery_return': rec, 'active_duration': dur, 'active_recovery_duration': lambda x: x[3] - x[2]}[name]
        h.eq(arr(got), [want(x[-1]) if x else math.nan for x in act], name)
    if group is None:
        for cs in ([1, 0], [1]):
            key = [d.columns[c] for c in cs]
            sub, exc = h.call(lambda: dd[key])
            h.check(exc is None, 'selection raises %s' % exc)
            if exc:
                continue
            r = sub.values
            want = [(j,) + x for j, c in enumerate(cs) for x in w[c]]
            h.eq(len(r), len(want), 'records of the selection')
            for k, x in enumerate(want):
                h.eq([int(r['col'][k])] + [r[f][k] for f in F], list(x), 'record of the selection')
            h.eq(sub.ts.to_numpy(), a[:, cs], 'series of the selection')


def tasks(tier):
    q = tier == 'quick'
    out = [dict(fn='records', cfg=dict(n=n, ncol=1)) for n in range(1, 6 if q else 7)]
    out += [dict(fn='records', cfg=dict(n=3, ncol=2))]
    out += [dict(fn='measures', cfg=dict(n=n), weight=5) for n in range(1, 5 if q else 6)]
    out += [dict(fn='columns', cfg=dict(n=4, ncol=2)), dict(fn='columns', cfg=dict(n=2, ncol=2, nan=True)),
            dict(fn='columns', cfg=dict(n=2, ncol=3, group=(0, 0, 1))), dict(fn='columns', cfg=dict(n=3, ncol=2, group=(0, 0)))]
    if not q:
        out += [dict(fn='columns', cfg=dict(n=5, ncol=2)), dict(fn='columns', cfg=dict(n=3, ncol=3, group=(0, 0, 1)))]
    return out
