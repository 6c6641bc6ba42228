"""C17: an operation on a frame equals the operation on each of its columns alone."""
import numpy as np
from checks import ops

PROPERTY = 'C17'
BOUNDS = dict(rows='2..4', columns='2 and 3, in both orders', operations='%d accessor, return, signal, record, indicator and label operations' % len(ops.OPS),
              values='all reals (positive where prices), NaN patterns where the operation takes them')
VALIDATE_S = dict(quick=10)


def sel(h, a, idx):
    out = a[:, idx]
    return h.df(out, columns=['c%d' % j for j in idx])


def column(h, name, n, order, single='frame'):
    ins, fn, _, _, _ = ops.OPS[name]
    k = len(order)
    A = [ops.mk(h, kd, 'abc'[i], (n, k)) for i, kd in enumerate(ins)]
    full, exc = h.call(lambda: ops.cols(fn(h, *[sel(h, a, order) for a in A]), k, n))
    h.check(exc is None, 'frame raises %s' % exc)
    if exc:
        return
    h.check(len(full) == k, 'one result per column')
    for j, c in enumerate(order):
        if single == 'frame':
            xs = [sel(h, a, [c]) for a in A]
        else:
            xs = [h.sr(a[:, c], name='c%d' % c) for a in A]
        one, exc = h.call(lambda: ops.cols(fn(h, *xs), 1, n))
        h.check(exc is None, 'column raises %s' % exc)
        if exc is None:
            h.eq(full[j], one[0], 'column %d' % c)


def tasks(tier):
    q = tier == 'quick'
    out = []
    for name, (ins, fn, causal, heavy, n) in ops.OPS.items():
        big = name in ('LEXLB', 'TRENDLB', 'BOLB', 'MACD', 'RSI')
        if not (heavy and q):
            out.append(dict(fn='column', cfg=dict(name=name, n=3 if q or heavy or big else n, order=[0, 1])))
        out.append(dict(fn='column', cfg=dict(name=name, n=3 if big else 2, order=[1, 0], single='series')))
        if not q and not heavy:
            out.append(dict(fn='column', cfg=dict(name=name, n=2, order=[2, 0, 1])))
    return out
