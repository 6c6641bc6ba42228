"""C25: ranges between signals, partitions, ranks and signal positions are those of the pattern."""
import math
from symx.harness import flatten

PROPERTY = 'C25'
BOUNDS = dict(rows='up to 6 (one array), 4 (two arrays); thorough 8 and 5', columns='1 and 2', n='-3..3', options='from_other, allow_gaps, after_false, reset_by, group_by')
VALIDATE_S = dict(quick=8)


def sym_setup(vbt):
    from symx import load
    load.NATIVE_FRAMES = True


def recs(r):
    a = r.records_arr
    return [(int(a['id'][i]), int(a['col'][i]), int(a['start_idx'][i]), int(a['end_idx'][i]), int(a['status'][i])) for i in range(len(a))]


def idx(a):
    return [i for i, x in enumerate(a) if bool(x)]


def runs(a):
    out = []
    for i in idx(a):
        if out and out[-1][1] == i - 1:
            out[-1] = (out[-1][0], i)
        else:
            out.append((i, i))
    return out


def expect(kind, a, b=None, from_other=False):
    n = len(a)
    if kind == 'between':
        s = idx(a)
        return [(p, q, 1) for p, q in zip(s, s[1:])]
    if kind == 'partition':
        return [(p, q + 1, 1) if q < n - 1 else (p, n - 1, 0) for p, q in runs(a)]
    if kind == 'between_partition':
        r = runs(a)
        return [(p[1], q[0], 1) for p, q in zip(r, r[1:])]
    s, t = idx(a), idx(b)
    if from_other:
        return [(max([p for p in s if p <= q]), q, 1) for q in t if [p for p in s if p <= q]]
    return [(p, min([q for q in t if q >= p]), 1) for p in s if [q for q in t if q >= p]]


def ranges(h, kind, n, ncol=1, from_other=False):
    from vectorbt.generic.enums import RangeStatus
    a = h.masks('a', (n, ncol))
    b = h.masks('b', (n, ncol)) if kind == 'two' else None
    d = h.df(a) if ncol > 1 else h.sr(a[:, 0])
    s = d.vbt.signals
    f = dict(between=s.between_ranges, partition=s.partition_ranges, between_partition=s.between_partition_ranges, two=s.between_ranges)[kind]
    kw = {}
    if kind == 'two':
        kw = dict(other=h.df(b) if ncol > 1 else h.sr(b[:, 0]), from_other=from_other)
    r, exc = h.call(lambda: f(**kw))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    want, k = [], 0
    st = {1: int(RangeStatus.Closed), 0: int(RangeStatus.Open)}
    for c in range(ncol):
        for p, q, o in expect(kind, list(a[:, c]), list(b[:, c]) if b is not None else None, from_other):
            want.append((k, c, p, q, st[o]))
            k += 1
    got = recs(r)
    h.check(got == want, '%s ranges: %s, expected %s' % (kind, got, want))
    if n <= 3:
        def cells(x):
            x = x.to_numpy().reshape(n, -1)
            return [[bool(x[i, c]) for c in range(ncol)] for i in range(n)]
        own = [[bool(a[i, c]) for c in range(ncol)] for i in range(n)]
        h.check(r.ts is not None and cells(r.ts) == own, 'attached series')
        h.check(f(attach_ts=False, **kw).ts is None, 'no series attached')
        if kind == 'two':
            h.check(cells(f(attach_other=True, **kw).ts) == [[bool(b[i, c]) for c in range(ncol)] for i in range(n)], 'attached other')


def part_start(a, i):
    while i > 0 and bool(a[i - 1]):
        i -= 1
    return i


def ranks(h, which, n, ncol=1, gaps=False, reset=False, after=False):
    a = h.masks('a', (n, ncol))
    rs = h.masks('r', (n, ncol)) if reset else None
    mk = (lambda m: h.df(m)) if ncol > 1 else (lambda m: h.sr(m[:, 0]))
    kw = dict(after_false=after)
    if reset:
        kw['reset_by'] = mk(rs)
    if which == 'pos' and gaps:
        kw['allow_gaps'] = True
    s = mk(a).vbt.signals
    r, exc = h.call(lambda: (s.pos_rank if which == 'pos' else s.partition_pos_rank)(**kw))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    R = r.to_numpy().reshape(n, -1)
    for c in range(ncol):
        sig = [bool(x) for x in a[:, c]]
        if after:
            i = 0
            while i < n and sig[i]:
                sig[i] = False
                i += 1
        for i in range(n):
            if not sig[i]:
                h.check(int(R[i, c]) == -1, 'row %d unset: -1' % i)
                continue
            last = max([j for j in range(i + 1) if j == 0 or (reset and bool(rs[j, c]))])
            if which == 'pos':
                lo = last if gaps else max(last, part_start(sig, i))
                want = sum(sig[lo:i])
            else:
                first = min([j for j in range(last, i + 1) if sig[j]])
                want = sum([1 for j in range(first + 1, i + 1) if sig[j] and not sig[j - 1]])
            h.check(int(R[i, c]) == want, 'row %d: rank %s, expected %d' % (i, R[i, c], want))


def custom(h, n, ncol, reset=False, after=False, mapped=False):
    """a user's rank function gets the row, the column, the last reset, the end of the previous and the start of the current partition"""
    a = h.masks('a', (n, ncol))
    rs = h.masks('r', (n, ncol)) if reset else None

    @h.njit
    def rank(i, col, reset_i, prev_end, start, k, m):
        if (i + col) % m == 0:
            return -1
        return i + 10 * reset_i + 100 * (prev_end + 1) + 1000 * start + 10000 * col + k
    kw = dict(reset_by=h.df(rs)) if reset else {}
    r, exc = h.call(lambda: h.df(a).vbt.signals.rank(rank, 3, prepare_func=lambda o, q: (5,) if (q is None) != reset else (0,), after_false=after, as_mapped=mapped, **kw))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    want = {}
    for c in range(ncol):
        sig = [bool(x) for x in a[:, c]]
        i = 0
        while after and i < n and sig[i]:
            sig[i] = False
            i += 1
        for i in range(n):
            if sig[i] and (i + c) % 3:
                st = part_start(sig, i)
                last = max([j for j in range(i + 1) if j == 0 or (reset and bool(rs[j, c]))])
                pe = max([j for j in range(st) if sig[j]], default=-1)
                want[(c, i)] = i + 10 * last + 100 * (pe + 1) + 1000 * st + 10000 * c + 5
    if mapped:
        got = {(int(c), int(i)): int(v) for c, i, v in zip(r.col_arr, r.idx_arr, r.values)}
        h.check(len(r.values) == len(want) and got == want, 'mapped ranks %s, expected %s' % (got, want))
        return
    R = r.to_numpy().reshape(n, ncol)
    for c in range(ncol):
        for i in range(n):
            h.check(int(R[i, c]) == want.get((c, i), -1), 'row %d column %d: %s, expected %s' % (i, c, R[i, c], want.get((c, i), -1)))


def select(h, n, k):
    a = h.masks('a', (n,))
    s = h.sr(a).vbt.signals
    r, exc = h.call(lambda: (s.first(), s.nth(k), s.from_nth(k)))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    F, N, M = [x.to_numpy() for x in r]
    for i in range(n):
        p = i - part_start(a, i) if bool(a[i]) else -1
        h.check(bool(F[i]) == (p == 0) and bool(N[i]) == (p == k) and bool(M[i]) == (p >= k), 'row %d' % i)


def mapped(h, n, which):
    """ranks / indices as mapped arrays: one value per signal, at its own row"""
    a = h.masks('a', (n, 2))
    s = h.df(a).vbt.signals
    f = dict(pos=s.pos_rank_mapped, part=s.partition_pos_rank_mapped, index=s.index_mapped)[which]
    if which == 'index':
        a = h.bools('a', (n, 2))
        f = h.df(a).vbt.signals.index_mapped
    r, exc = h.call(f)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    want = []
    for c in range(2):
        for i in idx(a[:, c]):
            v = i if which == 'index' else i - part_start(a[:, c], i) if which == 'pos' else \
                sum([1 for j in range(i + 1) if bool(a[j, c]) and (j == 0 or not bool(a[j - 1, c]))]) - 1
            want.append((c, i, v))
    got = [(int(c), int(i), int(v)) for c, i, v in zip(r.col_arr, r.idx_arr, r.values)]
    h.check(got == want, '%s vs %s' % (got, want))


def nth_index(h, n, k, grouped=False):
    a = h.masks('a', (n, 2))
    s = h.df(a, index=[10 * i for i in range(n)]).vbt.signals
    r, exc = h.call(lambda: s.nth_index(k, group_by=True if grouped else None))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    got = [r] if grouped else list(r.to_numpy())
    for c, g in enumerate(got):
        s = [i for i in range(n) if (bool(a[i, 0]) or bool(a[i, 1]) if grouped else bool(a[i, c]))]
        want = 10 * s[k] if -len(s) <= k < len(s) else math.nan
        h.eq(g, want, 'nth index')


def avg_index(h, n, grouped=False):
    a = h.bools('a', (n, 2)) if grouped else h.masks('a', (n, 2))
    s = h.df(a).vbt.signals
    r, exc = h.call(lambda: s.norm_avg_index(group_by=True if grouped else None))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    got = list(flatten(r.to_numpy())[1]) if hasattr(r, 'to_numpy') else [r]
    for c, g in enumerate(got):
        s = idx(a[:, 0]) + idx(a[:, 1]) if grouped else idx(a[:, c])
        want = -1 + 2 * (sum(s) / len(s)) / (n - 1) if s and n > 1 else math.nan
        h.eq(float(g), want, 'average index')


def totals(h, n, grouped):
    a = h.bools('a', (n, 2))
    s = h.df(a).vbt.signals
    g = True if grouped else None
    r, exc = h.call(lambda: (s.total(group_by=g), s.rate(group_by=g), s.total_partitions(group_by=g), s.partition_rate(group_by=g)))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    R = [[x] if grouped else list(x.to_numpy()) for x in r]
    cnt = [len(idx(a[:, c])) for c in range(2)]
    prt = [len(runs(a[:, c])) for c in range(2)]
    if grouped:
        cnt, prt = [sum(cnt)], [sum(prt)]
    for c in range(len(cnt)):
        h.eq(float(R[0][c]), float(cnt[c]), 'total')
        h.eq(float(R[1][c]), cnt[c] / (n * (2 if grouped else 1)), 'rate')
        h.eq(float(R[2][c]), float(prt[c]), 'partitions')
        h.eq(float(R[3][c]), prt[c] / cnt[c] if cnt[c] else math.nan, 'partition rate')


def logic(h, n):
    a, b = h.masks('a', (n,)), h.masks('b', (n,))
    s, o = h.sr(a).vbt.signals, h.sr(b)
    r, exc = h.call(lambda: (s.AND(o), s.OR(o), s.XOR(o)))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    A, O, X = [x.to_numpy() for x in r]
    for i in range(n):
        p, q = bool(a[i]), bool(b[i])
        h.check(bool(A[i]) == (p and q) and bool(O[i]) == (p or q) and bool(X[i]) == (p != q), 'row %d' % i)


def tasks(tier):
    q = tier == 'quick'
    n1, n2 = (6, 4) if q else (8, 5)
    out = []
    t = lambda fn, **c: out.append(dict(fn=fn, cfg=c))
    for kind in ('between', 'partition', 'between_partition'):
        t('ranges', kind=kind, n=n1)
        t('ranges', kind=kind, n=1)
        t('ranges', kind=kind, n=3, ncol=2)
    for fo in (False, True):
        t('ranges', kind='two', n=n2, from_other=fo)
        t('ranges', kind='two', n=2, ncol=2, from_other=fo)
    for which in ('pos', 'part'):
        for gaps in ((False, True) if which == 'pos' else (False,)):
            for after in (False, True):
                t('ranks', which=which, n=n1, gaps=gaps, after=after)
                t('ranks', which=which, n=n2, gaps=gaps, after=after, reset=True)
            t('ranks', which=which, n=3, ncol=2, gaps=gaps)
        t('mapped', n=3, which=which)
    t('mapped', n=3, which='index')
    for mp in (False, True):
        for rs in (False, True):
            t('custom', n=4, ncol=1, reset=rs, mapped=mp)
            t('custom', n=2, ncol=2, reset=rs, mapped=mp)
        t('custom', n=5, ncol=1, after=True, mapped=mp)
    for k in (0, 1, 2):
        t('select', n=n1, k=k)
    for k in (-3, -2, -1, 0, 1, 2):
        t('nth_index', n=3, k=k)
        t('nth_index', n=3, k=k, grouped=True)
    for g in (False, True):
        t('avg_index', n=3, grouped=g)
        t('totals', n=3, grouped=g)
    t('avg_index', n=1)
    t('logic', n=3)
    return out
