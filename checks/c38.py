"""C38: contracts of the tolerance helpers (the real 1e-9 / 1e-12 tolerances) and of the array helpers."""
import math
import numpy as np
from symx.harness import isnan, ite, and_, or_, not_

PROPERTY = 'C38'
BOUNDS = dict(numbers='all reals, plus NaN and both infinities for the comparison helpers (default and arbitrary non-negative tolerances); '
              'the two values of a pair range over the whole plane, so every distance to the tolerance is covered',
              arrays='up to 5 elements (sorting), 4 (rescaling, sortedness)', ranges='up to 3 non-empty ranges inside 0..4',
              random='every outcome of the random source')
ASSUMPTIONS = ['real arithmetic instead of floating point: rounding inside a - b is not modelled']
REL, ABS = 1e-9, 1e-12


def mx(a, b):
    return ite(a >= b, a, b)


def ref_close(a, b, rel, ab):
    return or_(a == b, abs(a - b) <= mx(rel * mx(abs(a), abs(b)), ab))


def kinds(h, ka, kb):
    f = dict(fin=None, nan=math.nan, inf=math.inf)
    f['-inf'] = -math.inf
    a = h.real('a') if ka == 'fin' else f[ka]
    b = h.real('b') if kb == 'fin' else f[kb]
    return a, b


def compare(h, ka, kb, tol=False):
    from vectorbt.utils import math_ as m
    a, b = kinds(h, ka, kb)
    rel, ab = (h.real('rel', lo=0, lt=1), h.real('abs', lo=0)) if tol else (REL, ABS)
    kw = dict(rel_tol=rel, abs_tol=ab) if tol else {}
    c = bool(m.is_close_nb(a, b, **kw))
    lt = bool(m.is_less_nb(a, b, **kw))
    gt = bool(m.is_less_nb(b, a, **kw))
    le = bool(m.is_close_or_less_nb(a, b, **kw))
    h.eq(bool(m.is_close_nb(b, a, **kw)), c, 'closeness is symmetric')
    if ka == 'fin' and kb == 'fin':
        want = ref_close(a, b, rel, ab)
        h.check(want if c else not_(want), 'close within the tolerance only')
        h.check(c + lt + gt == 1, 'exactly one of close, less, greater')
        h.check(le == (c or lt), 'close-or-less is close or less')
        if c:
            h.check(abs(a - b) <= mx(rel * mx(abs(a), abs(b)), ab), 'close values differ by at most the tolerance')
        if lt:
            h.check(a < b, 'less implies exactly less')
        if not le:
            h.check(a > b, 'neither close nor less implies exactly greater')
    else:
        h.check(not c, 'NaN and infinity are close to nothing')
        h.eq(lt, bool(a < b), 'strict comparison of special values is exact')
        h.eq(gt, bool(b < a), 'strict comparison of special values is exact')
        h.eq(le, bool(a < b), 'comparison of special values is exact')


def addition(h, tol=False):
    from vectorbt.utils import math_ as m
    a, b = h.real('a'), h.real('b')
    rel, ab = (h.real('rel', lo=0, lt=1), h.real('abs', lo=0)) if tol else (REL, ABS)
    kw = dict(rel_tol=rel, abs_tol=ab) if tol else {}
    z = bool(m.is_addition_zero_nb(a, b, **kw))
    h.eq(bool(m.is_addition_zero_nb(b, a, **kw)), z, 'symmetric')
    s = m.add_nb(a, b, **kw)
    h.eq(m.add_nb(b, a, **kw), s, 'addition commutes')
    slack = mx(rel * mx(abs(a), abs(b)), ab)
    if z:
        h.eq(s, 0.0, 'zero when the addition is zero')
        h.check(abs(a + b) <= mx(slack, mx(rel * abs(a + b), ab)), 'a zero addition is within the tolerance')
    else:
        h.eq(s, a + b, 'exact otherwise')
        h.check(a + b != 0, 'exact cancellation is zero')
        if a > 0 and b < 0 or a < 0 and b > 0:
            h.check(abs(a + b) > slack, 'opposite values closer than the tolerance cancel')


def argsort(h, n, nan):
    from vectorbt.utils.array_ import insert_argsort_nb
    a = h.floats('a', n, nan=nan, inf='')
    A = h.array(np.zeros(n)) if n else h.array([])
    for i in range(n):
        A[i] = a[i]
    idx = np.arange(n)
    insert_argsort_nb(A, idx)
    I = [int(x) for x in idx]
    h.eq(sorted(I), list(range(n)), 'indices are a permutation')
    h.eq(list(A), [a[i] for i in I], 'values follow their indices')
    for k in range(n - 1):
        x, y = A[k], A[k + 1]
        if isnan(x):
            h.check(isnan(y), 'NaN last')
        elif not isnan(y):
            h.check(x <= y, 'ascending')
            h.check(or_(x < y, I[k] < I[k + 1]), 'equal values keep their order')


def sortedness(h, n):
    from vectorbt.utils import array_ as m
    a = h.floats('a', n, nan=False)
    want = all(bool(a[i] <= a[j]) for i in range(n) for j in range(i + 1, n))
    h.eq(bool(m.is_sorted(a)), want, 'is_sorted')
    h.eq(bool(m.is_sorted_nb(a)), want, 'is_sorted_nb')


def ranges(h, n):
    from vectorbt.utils.array_ import get_ranges_arr
    st = [h.int('s%d' % k, 0, 3) for k in range(n)]
    en = [h.int('e%d' % k, 1, 4) for k in range(n)]
    for s, e in zip(st, en):
        h.assume(s < e)
    h.eq([int(x) for x in get_ranges_arr(st, en)], [x for s, e in zip(st, en) for x in range(s, e)], 'concatenated ranges')
    if n == 1:
        h.eq([int(x) for x in get_ranges_arr(st[0], en[0])], list(range(st[0], en[0])), 'one range from scalars')
    else:
        e = en[0]
        if all(s < e for s in st):
            h.eq([int(x) for x in get_ranges_arr(st, e)], [x for s in st for x in range(s, e)], 'one end for every range')
        s = st[0]
        if all(s < e for e in en):
            h.eq([int(x) for x in get_ranges_arr(s, en)], [x for e in en for x in range(s, e)], 'one start for every range')


def renorm(h, jit):
    from vectorbt.utils import array_ as m
    f = m.renormalize_nb if jit else m.renormalize
    lo, hi, to, t1 = h.real('lo'), h.real('hi'), h.real('to'), h.real('t1')
    h.assume(lo != hi)
    x, y = h.real('x'), h.real('y')
    rx, ry = f(x, (lo, hi), (to, t1)), f(y, (lo, hi), (to, t1))
    h.eq(f(lo, (lo, hi), (to, t1)), to, 'lower end')
    h.eq(f(hi, (lo, hi), (to, t1)), t1, 'upper end')
    h.eq((rx - ry) * (hi - lo), (x - y) * (t1 - to), 'affine')
    a = h.array([x, y, lo, hi])
    h.eq(list(f(a, (lo, hi), (to, t1))), [rx, ry, to, t1], 'arrays element by element')


def rel_rescale(h, n, which, zero=False):
    from vectorbt.utils import array_ as m
    a = h.floats('a', n, nan=False, **(dict(lo=0) if zero else dict(gt=0)))
    lo, hi = h.real('lo', gt=0), h.real('hi', gt=0)
    h.assume(lo < hi)
    out = (m.min_rel_rescale if which == 'min' else m.max_rel_rescale)(a, (lo, hi))
    amin, amax = a[0], a[0]
    for x in a[1:]:
        amin, amax = ite(x < amin, x, amin), ite(x > amax, x, amax)
    h.eq(len(out), n, 'length')
    for i in range(n):
        h.check(and_(out[i] >= lo, out[i] <= hi), 'inside the range')
        for j in range(n):
            h.eq((out[i] - out[j]) * (amax - amin), (a[i] - a[j]) * (out_of(out, a, amax) - out_of(out, a, amin)), 'affine')
            if a[i] <= a[j]:
                h.check(out[i] <= out[j], 'keeps the order')
        if a[i] == (amin if which == 'min' else amax):
            h.eq(out[i], lo if which == 'min' else hi, 'the reference end is hit')
    if amax == amin:
        return
    for i in range(n):
        if a[i] == (amax if which == 'min' else amin):
            if amin == 0 or amax * lo >= hi * amin:
                h.eq(out[i], hi if which == 'min' else lo, 'the other end is hit when the data spread at least as wide')
            else:
                h.eq(out[i] * (amin if which == 'min' else amax), a[i] * (lo if which == 'min' else hi), 'proportional otherwise')


def out_of(out, a, v):
    for o, x in zip(out, a):
        if x == v:
            return o


def to_int(h, n, lo, hi):
    from vectorbt.utils.array_ import rescale_float_to_int_nb
    if h.sym:
        h.rng()
    f = h.floats('f', n, nan=False, lo=0, hi=1)
    total = h.int('total', n * lo, n * lo + 3)
    ints = rescale_float_to_int_nb(f, (lo, hi), total)
    base = h.array(np.zeros(n))
    s = 0.0
    for i in range(n):
        v = lo + (hi - lo) * f[i]
        h.check(ints[i] == int(ints[i]), 'integers')
        h.check(ints[i] > v - 1, 'never below the rescaled value rounded down')
        h.check(ints[i] >= lo, 'never below the range')
        s = s + ints[i]
        k = lo
        for q in range(lo + 1, hi + 1):
            if v >= q:
                k = q
        base[i] = float(k)
    b = sum(base[1:], base[0])
    if b <= total:
        h.eq(s, float(total), 'the total is reached')
    else:
        h.eq(list(ints), list(base), 'nothing is added beyond the total')


def ones(h, n):
    from vectorbt.utils.array_ import uniform_summing_to_one_nb
    if h.sym:
        h.rng()
    out = uniform_summing_to_one_nb(n)
    h.eq(len(out), n, 'length')
    s = 0.0
    for x in out:
        h.check(x >= 0, 'non-negative')
        s = s + x
    h.eq(s, 1.0, 'sums to one')


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, **cfg):
        out.append(dict(fn=fn, cfg=cfg))
    for tol in (False, True):
        t('compare', ka='fin', kb='fin', tol=tol)
        t('addition', tol=tol)
    for ka in ('fin', 'nan', 'inf', '-inf'):
        for kb in ('nan', 'inf', '-inf'):
            t('compare', ka=ka, kb=kb)
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        t('argsort', n=n, nan=n < 4 or not q)
        if n:
            t('sortedness', n=n)
    for n in (1, 2, 3):
        t('ranges', n=n)
    for jit in (True, False):
        t('renorm', jit=jit)
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for w in ('min', 'max'):
            t('rel_rescale', n=n, which=w)
            t('rel_rescale', n=n, which=w, zero=True)
        for lo, hi in ((0, 2), (1, 3), (0, 3)):
            if not q or n < 3:
                t('to_int', n=n, lo=lo, hi=hi)
    for n in (1, 2, 3, 4):
        t('ones', n=n)
    return out
