"""C19: range records equal the maximal runs of valid values; durations, coverage and masks equal counting rows."""
import math
import numpy as np
from symx.harness import isnan

PROPERTY = 'C19'
BOUNDS = dict(rows='up to 5 (thorough 6)', columns='1..3', records='up to 3 arbitrary ranges over up to 2 columns',
              values='all reals and NaN / all booleans / integers -1..1')
ASSUMPTIONS = ['a closed range covers [start, end), an open one [start, end]']


def spec(valid):
    out, s = [], None
    for i, v in enumerate(valid):
        if v and s is None:
            s = i
        if not v and s is not None:
            out.append((s, i, 1))
            s = None
    if s is not None:
        out.append((s, len(valid) - 1, 0))
    return out


def cover(recs, n):
    return [sum(1 for s, e, st in recs if s <= i < e + (st == 0)) for i in range(n)]


def compare(h, rg, want, n, ncol):
    r = rg.values
    flat = [(c,) + w for c in range(ncol) for w in want[c]]
    h.eq(len(r), len(flat), 'number of ranges')
    if len(r) != len(flat):
        return
    for k, w in enumerate(flat):
        h.eq([int(r[f][k]) for f in ('id', 'col', 'start_idx', 'end_idx', 'status')], [k] + list(w), 'range %d' % k)


def derived(h, rg, want, n, ncol):
    flat = [w for c in range(ncol) for w in want[c]]
    h.eq([int(x) for x in rg.duration.values], [e - s + (st == 0) for s, e, st in flat], 'durations')
    m = rg.to_mask().to_numpy().reshape(n, ncol)
    h.eq(m.tolist(), [[cover(want[c], n)[i] > 0 for c in range(ncol)] for i in range(n)], 'mask')
    for ov in (False, True):
        for norm in (False, True):
            got = np.asarray(rg.coverage(overlapping=ov, normalize=norm)).reshape(-1)
            w = []
            for c in range(ncol):
                cv = cover(want[c], n)
                if not want[c]:
                    w.append(math.nan)
                    continue
                num = sum(1 for x in cv if x > (1 if ov else 0))
                den = (sum(1 for x in cv if x > 0) if ov else n) if norm else 1
                w.append(num / den if den else math.nan)
            h.eq([float(x) for x in got], w, 'coverage overlapping=%s normalize=%s' % (ov, norm))
    h.eq([float(x) for x in np.asarray(rg.count()).reshape(-1)], [len(want[c]) for c in range(ncol)], 'count')
    mean = np.asarray(rg.avg_duration(wrap_kwargs=dict(to_timedelta=False))).reshape(-1)
    mx = np.asarray(rg.max_duration(wrap_kwargs=dict(to_timedelta=False))).reshape(-1)
    for c in range(ncol):
        d = [e - s + (st == 0) for s, e, st in want[c]]
        h.eq(float(mean[c]), sum(d) / len(d) if d else math.nan, 'average duration')
        h.eq(float(mx[c]), max(d) if d else math.nan, 'maximum duration')


def from_floats(h, n, ncol, gap=None):
    a = h.floats2('x', (n, ncol), nan=True)
    g = math.nan if gap is None else gap
    if gap == 'sym':
        g = h.real('gap')
    rg, exc = h.call(h.vbt.Ranges.from_ts, h.df(a), **({} if gap is None else dict(gap_value=g)))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    want = [spec([not (isnan(a[i, c]) if gap is None else bool(a[i, c] == g)) for i in range(n)]) for c in range(ncol)]
    compare(h, rg, want, n, ncol)
    derived(h, rg, want, n, ncol)


def from_ints(h, n, ncol):
    a = h.ints('x', (n, ncol), -1, 1)
    rg, exc = h.call(lambda: h.vbt.Ranges.from_ts(h.df(a)))
    h.check(exc is None, 'raises %s' % exc)
    want = [spec([a[i, c] != -1 for i in range(n)]) for c in range(ncol)]
    compare(h, rg, want, n, ncol)


def from_bools(h, n, ncol, acc):
    a = h.bools('x', (n, ncol))
    if acc:
        rg, exc = h.call(lambda: h.df(a).vbt.ranges)
    else:
        rg, exc = h.call(h.vbt.Ranges.from_ts, h.df(a))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    want = [spec([bool(a[i, c]) for i in range(n)]) for c in range(ncol)]
    compare(h, rg, want, n, ncol)
    derived(h, rg, want, n, ncol)
    if n:
        m = rg.to_mask().to_numpy().reshape(n, ncol)
        h.eq(m.tolist(), a.tolist(), 'ranges of a mask convert back to the mask')


def arbitrary(h, n, cols, ncol, group_by=None):
    """user-made (possibly overlapping) range records"""
    import pandas as pd
    from vectorbt.generic.enums import range_dt
    r = np.empty(len(cols), dtype=range_dt)
    want = [[] for _ in range(ncol)]
    for k, c in enumerate(cols):
        s = h.int('s%d' % k, 0, n - 1)
        st = h.int('st%d' % k, 0, 1)
        e = h.int('e%d' % k, 0, n - 1)
        h.assume(e >= s)
        r[k] = (k, c, s, e, st)
        want[c].append((s, e, st))
    w = h.vbt.ArrayWrapper(pd.RangeIndex(n), pd.Index(['c%d' % i for i in range(ncol)]), 2,
                           **({} if group_by is None else dict(group_by=np.array(group_by))))
    rg, exc = h.call(h.vbt.Ranges, w, r)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    if group_by is None:
        derived(h, rg, want, n, ncol)
        return
    gs = sorted(set(group_by))
    m = rg.to_mask().to_numpy().reshape(n, len(gs))
    for g in gs:
        recs = [x for c in range(ncol) if group_by[c] == g for x in want[c]]
        cv = cover(recs, n)
        h.eq(m[:, g].tolist(), [x > 0 for x in cv], 'mask of group')
        got = np.asarray(rg.coverage(normalize=False)).reshape(-1)[g]
        h.eq(float(got), sum(1 for x in cv if x) if recs else math.nan, 'coverage of group')


def tasks(tier):
    q = tier == 'quick'
    out = [dict(fn='from_floats', cfg=dict(n=n, ncol=1)) for n in range(1, 6 if q else 7)]
    out += [dict(fn='from_floats', cfg=dict(n=3, ncol=2)), dict(fn='from_floats', cfg=dict(n=4, ncol=1, gap='sym')),
            dict(fn='from_floats', cfg=dict(n=3, ncol=1, gap=0.0))]
    out += [dict(fn='from_ints', cfg=dict(n=4, ncol=1)), dict(fn='from_ints', cfg=dict(n=2, ncol=2))]
    for acc in (False, True):
        out += [dict(fn='from_bools', cfg=dict(n=n, ncol=1, acc=acc)) for n in (1, 4 if q else 6)]
        out += [dict(fn='from_bools', cfg=dict(n=3, ncol=2, acc=acc)), dict(fn='from_bools', cfg=dict(n=2, ncol=3, acc=acc))]
    for cols, ncol in (((0, 0), 1), ((0, 0), 2), ((0, 1), 2), ((1, 1), 2), ((1,), 3)):
        out.append(dict(fn='arbitrary', cfg=dict(n=3 if len(cols) > 1 else 4, cols=cols, ncol=ncol)))
    out.append(dict(fn='arbitrary', cfg=dict(n=2, cols=(0, 0, 1), ncol=2)))
    out.append(dict(fn='arbitrary', cfg=dict(n=3, cols=(0, 1), ncol=3, group_by=(0, 0, 1))))
    out.append(dict(fn='arbitrary', cfg=dict(n=3, cols=(0, 2), ncol=3, group_by=(0, 1, 1))))
    return out
