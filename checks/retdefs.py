"""Textbook definitions of the return metrics on plain lists (NaN: missing observation)."""
import math
from symx.harness import isnan, sqrt, pow_, or_


def valid(r):
    return [x for x in r if not isnan(x)]


def add(xs):
    return sum(xs[1:], xs[0]) if xs else 0.0


def mean(xs):
    return add(xs) / len(xs) if xs else math.nan


def prod1(xs):
    out = 1.0
    for x in xs:
        out = out * (x + 1)
    return out


def compound(r, start=0.0):
    p = prod1(valid(r))
    return p - 1 if start == 0 else p * start


def cumulative(r, start=0.0):
    return [compound(r[:i + 1], start) for i in range(len(r))]


def annual(r, af):
    if not r:
        return math.nan
    return pow_(prod1(valid(r)), af / len(r)) - 1


def varp(xs, ddof):
    if len(xs) - ddof <= 0:
        return math.nan
    m = mean(xs)
    return add([(x - m) * (x - m) for x in xs]) / (len(xs) - ddof)


def drawdowns(r):
    c = cumulative(r, 1.0)
    out, top = [], None
    for v in c:
        top = v if top is None or v > top else top
        out.append(v / top - 1)
    return out


def max_dd(r):
    out = None
    for d in drawdowns(r):
        out = d if out is None or d < out else out
    return out


def calmar(r, af):
    m = max_dd(r)
    if m == 0:
        return math.nan
    return annual(r, af) / (-m)


def omega(r, af, rf=0.0, rr=0.0):
    thr = rr if af == 1 else pow_(1 + rr, 1.0 / af) - 1
    up, down = [], []
    for x in valid(r):
        d = x - rf - thr
        if d > 0:
            up.append(d)
        elif d < 0:
            down.append(d)
    den = -add(down)
    if not down:
        return math.inf
    return add(up) / den


def sharpe2(r, af, rf=0.0, ddof=1):
    """(mean, variance, degenerate value or None) of the sharpe ratio"""
    if len(r) < 2:
        return None, None, math.nan
    v = [x - rf for x in valid(r)]
    s2 = varp(v, ddof)
    if isnan(s2):
        return None, None, math.nan
    if s2 == 0:
        return None, None, math.inf
    return mean(v), s2, None


def down2(r, af, rr=0.0):
    """square of the downside risk"""
    v = [x - rr for x in valid(r)]
    v = [x if x < 0 else 0.0 for x in v]
    return add([x * x for x in v]) / len(v) * af if v else math.nan


def percentile(xs, q):
    """linear interpolation, q in [0, 1]"""
    s = []
    for x in xs:
        k = 0
        while k < len(s) and s[k] <= x:
            k += 1
        s.insert(k, x)
    pos = q * (len(s) - 1)
    k = int(math.floor(pos + 1e-12))
    f = pos - k
    if k + 1 >= len(s) or f < 1e-12:
        return s[k]
    return s[k] + (s[k + 1] - s[k]) * f


def smallest(xs, k):
    s = []
    for x in xs:
        j = 0
        while j < len(s) and s[j] <= x:
            j += 1
        s.insert(j, x)
    return s[:k]


def beta(r, b):
    if len(r) < 2:
        return math.nan
    ps = [(x, y) for x, y in zip(r, b) if not isnan(x) and not isnan(y)]
    if not ps:
        return math.nan
    mb = mean([y for _, y in ps])
    v = mean([(y - mb) * (y - mb) for _, y in ps])
    if v < 1e-30:
        return math.nan
    return mean([(y - mb) * x for x, y in ps]) / v
