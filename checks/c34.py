"""C34: splitters produce ordered, in-range, complete sets of consecutive rows; split data are the source rows."""
import math
import numpy as np
import pandas as pd

PROPERTY = 'C34'
BOUNDS = dict(length='1 to 7 rows (thorough 10)', splits='n from 1 to length + 1, or every possible one', windows='every integer length and every real '
              'fraction in (0, 1)', sets='0 to 3 set lengths, integers or real fractions, both directions, per range or shared',
              ranges='up to 3 ranges with arbitrary bounds, by position or label (labels repeat in any pattern)', data='all reals and NaN in 1-2 columns')
ASSUMPTIONS = ['fractions of a length are exact reals (floor of the product)', 'a set length given as a float is a fraction below 1']
VALIDATE_S = dict(quick=10)


def sym_setup(vbt):
    """math.floor of a symbolic fraction of a length: fork on the integer"""
    import types
    import vectorbt.generic.splitters as sp
    from symx.core import SymFloat, f_floor
    m = types.SimpleNamespace(**{k: getattr(math, k) for k in dir(math) if not k.startswith('_')})

    def floor(x):
        if not isinstance(x, SymFloat):
            return math.floor(x)
        r = f_floor(x)
        for v in range(0, 16):
            if bool(r == v):
                return v
        raise AssertionError('fraction of a length out of range')
    m.floor = floor
    sp.math = m


def fl(x, L):
    """floor(x * L) for a fraction, by comparison"""
    for v in range(L, -1, -1):
        if bool(x * L >= v):
            return v
    return 0


def even(h, chosen, total, n, label):
    """n candidates evenly spread over 0..total-1"""
    h.eq(len(chosen), n, label + ': number')
    h.check(all(a < b for a, b in zip(chosen, chosen[1:])), label + ': strictly increasing')
    if n == 1:
        h.eq(chosen, [0], label + ': first')
        return
    for k, c in enumerate(chosen):
        # within half a step of k * (total - 1) / (n - 1)
        h.check(abs(2 * c * (n - 1) - 2 * k * (total - 1)) <= n - 1, label + ': evenly spread')


def check_sets(h, out, starts, ends, lens, ltr, label):
    """out: tuple of arrays per range"""
    h.eq(len(out), len(starts), label + ': number of ranges')
    for i, sets in enumerate(out):
        L = ends[i] - starts[i] + 1
        ls = lens[i]
        want = [L] if not ls else (ls + [L - sum(ls)] if ltr[i] else [L - sum(ls)] + ls)
        h.eq([len(s) for s in sets], want, label + ': set lengths')
        rows = [int(r) for s in sets for r in s]
        h.eq(rows, list(range(starts[i], ends[i] + 1)), label + ': consecutive rows in order')


def set_lens(h, m, frac, tag='s', hi=3):
    """m set lengths; frac: bit mask of which are fractions"""
    return [h.real('%s%d' % (tag, j), gt=0, lt=1) if frac >> j & 1 else h.int('%s%d' % (tag, j), 0, hi) for j in range(m)]


def resolve_lens(h, raw, L, frac):
    return [fl(x, L) if frac >> j & 1 else x for j, x in enumerate(raw)]


def sets_ok(ls, L):
    return all(x != 0 for x in ls) and (not ls or sum(ls) < L)


def ranges(h, k, m, frac=0, per=False, hi=6):
    """split_ranges_into_sets on arbitrary ranges"""
    from vectorbt.generic.splitters import split_ranges_into_sets
    S = [h.int('a%d' % i, 0, 2) for i in range(k)]
    E = [h.int('b%d' % i, 0, hi) for i in range(k)]
    h.assume(all(a <= b for a, b in zip(S, E)))
    raws = [set_lens(h, m, frac, 's%d_' % i if per else 's') for i in range(k if per else 1)]
    if m and per:
        arg = tuple(tuple(r) for r in raws)
    else:
        arg = tuple(raws[0])
    ltr = [bool(h.bool('ltr%d' % i)) for i in range(k if per else 1)]
    lens = [resolve_lens(h, raws[i if per else 0], E[i] - S[i] + 1, frac) for i in range(k)]
    ok = all(sets_ok(lens[i], E[i] - S[i] + 1) for i in range(k))
    out, exc = h.call(lambda: list(split_ranges_into_sets(np.array(S), np.array(E), set_lens=arg, left_to_right=ltr if per else ltr[0])))
    h.eq(exc, None if ok else 'ValueError', 'raises exactly for empty or too long sets')
    if exc is None and ok:
        check_sets(h, out, S, E, lens, [ltr[i if per else 0] for i in range(k)], 'sets')


def window(h, N, kind, use, m=0, frac=0, wfrac=False, minlen=False, array=False):
    """rolling / range splitter with a window length (and n)"""
    from vectorbt.generic import splitters as sp
    X = np.arange(N) if array else pd.Series(np.zeros(N))
    kw = {}
    n = w = None
    if 'n' in use:
        n = kw['n'] = h.int('n', 1, N + 1)
    if 'w' in use:
        w = h.real('w', gt=0, lt=1) if wfrac else h.int('w', 1, N + 1)
        kw['window_len' if kind == 'rolling' else 'range_len'] = w
    ml = 1
    if minlen:
        ml = kw['min_len'] = h.int('ml', 1, N)
    raw = set_lens(h, m, frac)
    if m:
        kw['set_lens'] = tuple(raw)
        ltr = kw['left_to_right'] = bool(h.bool('ltr'))
    else:
        ltr = True
    W = N // n if w is None else (fl(w, N) if wfrac else w)
    total = N - W + 1 if W <= N else 0
    ok = total > 0 and W >= ml and W >= 1 and (n is None or n <= total)
    lens = resolve_lens(h, raw, W, frac) if ok else []
    ok = ok and sets_ok(lens, W)
    S = sp.RollingSplitter() if kind == 'rolling' else sp.RangeSplitter()
    out, exc = h.call(lambda: list(S.split(X, **kw)))
    h.eq(exc, None if ok else 'ValueError', 'raises exactly when there is no such split')
    if exc is not None or not ok:
        return
    starts = [int(s[0][0]) for s in out]
    if n is None:
        h.eq(starts, list(range(total)), 'every window')
    else:
        even(h, starts, total, n, 'windows')
        if n > 1:
            h.eq(starts[-1] + W, N, 'last window ends at the last row')
    check_sets(h, out, starts, [s + W - 1 for s in starts], [lens] * len(starts), [ltr] * len(starts), 'sets')


def expanding(h, N, use_n, m=0, frac=0, minlen=False):
    from vectorbt.generic import splitters as sp
    kw = {}
    n = None
    if use_n:
        n = kw['n'] = h.int('n', 1, N + 1)
    ml = kw['min_len'] = h.int('ml', 1, N + 1) if minlen else 1
    raw = set_lens(h, m, frac, hi=2)
    ltr = True
    if m:
        kw['set_lens'] = tuple(raw)
        ltr = kw['left_to_right'] = bool(h.bool('ltr'))
    total = N - ml + 1
    out, exc = h.call(lambda: list(sp.ExpandingSplitter().split(pd.Series(np.zeros(N)), **kw)))
    if total <= 0 or (n is not None and n > total):
        h.eq(exc, 'ValueError', 'too few windows')
        return
    if n is None:
        ends = list(range(ml - 1, N))
    else:
        ends = None
    if exc is not None:
        h.check(m > 0, 'raises %s' % exc)
        # some selected window cannot be split: the smallest one is too short or has an empty set
        cand = range(ml, N + 1)
        h.check(any(not sets_ok(resolve_lens(h, raw, L, frac), L) for L in cand), 'raises only if some window cannot be split')
        return
    got = [int(s[-1][-1]) for s in out]
    if ends is None:
        even(h, [e - (ml - 1) for e in got], total, n, 'windows')
        ends = got
        if n > 1:
            h.eq(ends[-1], N - 1, 'last window ends at the last row')
    for e in ends:
        h.check(sets_ok(resolve_lens(h, raw, e + 1, frac), e + 1), 'every window could be split')
    check_sets(h, out, [0] * len(ends), ends, [resolve_lens(h, raw, e + 1, frac) for e in ends], [ltr] * len(ends), 'sets')


def bounds(h, N, k, labels=None, minlen=False, scalar=False, usen=False):
    """range splitter with start and end given by position or label"""
    from vectorbt.generic import splitters as sp
    if labels is None:
        index = list(range(N))
    elif labels == 'dup':
        index = [h.int('i%d' % i, 0, 2) for i in range(N)]
    else:
        index = ['r%d' % i for i in range(N)]
    A = [h.int('a%d' % i, 0, N - 1) for i in range(1 if scalar else k)]
    B = [h.int('b%d' % i, 0, N - 1) for i in range(k)]
    kw = {}
    ml = 1
    if minlen:
        ml = kw['min_len'] = h.int('ml', 1, N)
    n = None
    if usen:
        n = kw['n'] = h.int('n', 1, k + 1)
    X = pd.Series(np.zeros(N), index=pd.Index(index))
    if labels:
        kw['start_idxs'], kw['end_idxs'] = pd.Index([index[a] for a in A]), pd.Index([index[b] for b in B])
        A = [index.index(index[a]) for a in A]
        B = [index.index(index[b]) for b in B]
    else:
        kw['start_idxs'], kw['end_idxs'] = A, B
    A = A * k if scalar else A
    good = [(a, b) for a, b in zip(A, B) if b - a + 1 >= ml]
    out, exc = h.call(lambda: list(sp.RangeSplitter().split(X, **kw)))
    if not good or (n is not None and n > len(good)):
        h.eq(exc, 'ValueError', 'no ranges')
        return
    h.check(exc is None, 'raises %s' % exc)
    if exc is not None:
        return
    if n is not None:
        pos = [round(q * (len(good) - 1) / (n - 1)) if n > 1 else 0 for q in range(n)]
        good = [good[p] for p in pos]
    check_sets(h, out, [g[0] for g in good], [g[1] for g in good], [[]] * len(good), [True] * len(good), 'ranges')


def data(h, N, ncol, how, keys=False, nan=True):
    """values of the split frames"""
    x = h.floats2('x', (N, ncol), nan=nan)
    index = pd.date_range('2020-01-01', periods=N)
    obj = h.df(x, index=index, columns=list('ab')[:ncol]) if ncol > 1 else h.sr(h.array([x[i, 0] for i in range(N)]), index=index, name='a')
    kw = {}
    if how == 'custom':
        k = 2
        sets = []
        for i in range(k):
            m1, m2 = h.int('m%d' % i, 1, 2), h.int('q%d' % i, 1, 2)
            sets.append((np.array([h.int('t%d_%d' % (i, j), 0, N - 1) for j in range(m1)]), np.array([h.int('u%d_%d' % (i, j), 0, N - 1) for j in range(m2)])))

        class S:
            def split(self, X, **kwargs):
                return iter(sets)
        f = lambda: obj.vbt.split(S(), **kw)  # noqa: E731
    elif how == 'rolling':
        w = h.int('w', 2, N)
        f = lambda: obj.vbt.rolling_split(window_len=w, set_lens=(1,), **kw)  # noqa: E731
        sets = [(np.array([s]), np.arange(s + 1, s + w)) for s in range(N - w + 1)]
    elif how == 'expanding':
        ml = h.int('ml', 2, N)
        f = lambda: obj.vbt.expanding_split(min_len=ml, set_lens=(1,), left_to_right=False, **kw)  # noqa: E731
        sets = [(np.arange(0, e), np.array([e])) for e in range(ml - 1, N)]
    else:
        A = [h.int('a%d' % i, 0, N - 1) for i in range(2)]
        B = [h.int('b%d' % i, 0, N - 1) for i in range(2)]
        h.assume(all(a <= b for a, b in zip(A, B)))
        f = lambda: obj.vbt.range_split(start_idxs=A, end_idxs=B, **kw)  # noqa: E731
        sets = [(np.arange(a, b + 1),) for a, b in zip(A, B)]
    k = len(sets)
    if keys:
        kw['keys'] = pd.Index(['k%d' % i for i in range(k)], name='K')
    out = f()
    if len(sets[0]) == 1 and not isinstance(out[0], tuple):
        out = [out]
    h.eq(len(out), len(sets[0]), 'one result per set')
    for q, (df, idxs) in enumerate(out):
        L = max(len(s[q]) for s in sets)
        V = np.asarray(df.values)
        h.eq(V.shape, (L, k * ncol), 'shape')
        for i in range(k):
            rows = sets[i][q]
            for j in range(ncol):
                want = [x[r, j] for r in rows] + [np.nan] * (L - len(rows))
                h.eq(list(V[:, i * ncol + j]), want, 'values of split %d' % i)
            h.eq(list(idxs[i]), [index[r] for r in rows], 'index of split %d' % i)
            h.eq(idxs[i].name, 'k%d' % i if keys else 'split_%d' % i, 'name of split')
        lev = df.columns.get_level_values(0)
        h.eq(list(lev), [('k%d' % i if keys else i) for i in range(k) for _ in range(ncol)], 'labels of the splits')
        if ncol > 1:
            h.eq(list(df.columns.get_level_values(1)), ['a', 'b'] * k, 'columns')


def incomplete(h, N, cls):
    """a request that does not determine the ranges is refused"""
    sp = h.vbt.RangeSplitter() if cls == 'range' else h.vbt.RollingSplitter() if cls == 'rolling' else h.vbt.ExpandingSplitter()
    p = [h.int('a', 0, N - 1)]
    k = h.int('k', 1, 2)
    X = pd.Series(np.zeros(N))
    bad = [{}]
    if cls == 'range':
        bad += [dict(start_idxs=np.array(p)), dict(end_idxs=np.array(p)), dict(start_idxs=np.array(p), n=k), dict(end_idxs=np.array(p), range_len=k)]
    if cls == 'expanding':
        bad = [dict(n=N + k), dict(n=N + 1, min_len=1), dict(min_len=N + k)]
    for kw in bad:
        _, exc = h.call(lambda: list(sp.split(X, **kw)))
        h.eq(exc, 'ValueError', 'refused: %s' % sorted(kw))


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    for k, m, frac in ((1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 2, 0), (1, 2, 3), (1, 2, 1), (1, 3, 0), (2, 1, 0), (2, 1, 1), (3, 0, 0)):
        t('ranges', k=k, m=m, frac=frac, hi=6 if k == 1 else 3 if q else 4, w=1 + 3 * k * m)
    t('ranges', k=2, m=1, per=True, hi=3 if q else 4, w=5)
    t('ranges', k=2, m=1, frac=1, per=True, hi=3, w=5)
    if not q:
        t('ranges', k=2, m=2, per=True, hi=3, w=9)
    top = 7 if q else 10
    for kind in ('rolling', 'range'):
        for N in range(1, top + 1):
            t('window', N=N, kind=kind, use='n')
            t('window', N=N, kind=kind, use='w')
            t('window', N=N, kind=kind, use='nw', array=N % 2 == 0)
            t('window', N=N, kind=kind, use='w', wfrac=True)
        for N in (3, 5):
            t('window', N=N, kind=kind, use='nw', minlen=True, w=2)
            t('window', N=N, kind=kind, use='nw', m=1, w=3)
            t('window', N=N, kind=kind, use='nw', m=1, frac=1, w=5)
            t('window', N=N, kind=kind, use='w', m=2, w=3)
            t('window', N=N, kind=kind, use='w', m=2, frac=3, w=5)
            t('window', N=N, kind=kind, use='n', m=1, frac=1, w=3)
            t('window', N=N, kind=kind, use='nw', wfrac=True, m=1, frac=1, w=9)
    for N in range(1, top + 1):
        t('expanding', N=N, use_n=False)
        t('expanding', N=N, use_n=True, minlen=True)
    for N in (3, 5):
        for m, frac in ((1, 0), (1, 1), (2, 0), (2, 1)):
            t('expanding', N=N, use_n=True, m=m, frac=frac, minlen=N == 3, w=5)
            t('expanding', N=N, use_n=False, m=m, frac=frac, minlen=True, w=5)
    for N, k in ((3, 1), (3, 2), (4, 2)) + (() if q else ((3, 3),)):
        t('bounds', N=N, k=k, w=3)
        t('bounds', N=N, k=k, labels='str', w=3)
    t('bounds', N=3, k=1, labels='dup', w=3)
    t('bounds', N=3, k=2, labels='dup', w=6)
    t('bounds', N=4, k=2, minlen=True, w=5)
    t('bounds', N=4, k=2, scalar=True, w=2)
    t('bounds', N=3, k=2, usen=True, w=3)
    t('bounds', N=3, k=3, scalar=True, usen=True, w=3)
    for N, ncol in ((3, 1), (3, 2), (4, 2)):
        for how in ('rolling', 'expanding', 'range'):
            t('data', N=N, ncol=ncol, how=how, w=3)
            t('data', N=N, ncol=ncol, how=how, keys=True, w=3)
    t('data', N=2 if q else 3, ncol=1, how='custom', w=5)
    if not q:
        t('data', N=2, ncol=2, how='custom', keys=True, w=5)
    out += [dict(fn='incomplete', cfg=dict(N=3, cls=c)) for c in ('range', 'rolling', 'expanding')]
    return out
