"""Reference fold of the order simulation (C04, C07, C10, C13, C40): written from the documentation; a single order is executed
by the real execute_order_nb, whose own meaning C01-C03 decide."""
import math
import numpy as np
import pandas as pd
from symx.harness import isnan, isinf

DEF = dict(size=math.inf, price=math.inf, size_type=0, direction=2, fees=0.0, fixed_fees=0.0, slippage=0.0, min_size=1e-8,
           max_size=math.inf, size_granularity=math.nan, reject_prob=0.0, lock_cash=False, allow_partial=True,
           raise_reject=False, log=False, val_price=math.inf)
ORDER = ('size', 'price', 'size_type', 'direction', 'fees', 'fixed_fees', 'slippage', 'min_size', 'max_size',
         'size_granularity', 'reject_prob', 'lock_cash', 'allow_partial', 'raise_reject', 'log')


def el(x, i, c):
    """element of a scalar, a per-row vector given as (n, 1), a per-column vector (1, m) / 1-D, or a full matrix"""
    if isinstance(x, (pd.Series, pd.DataFrame)):
        x = x.to_numpy()
        if x.ndim == 1:
            return x[i]
    if not isinstance(x, np.ndarray) or x.ndim == 0:
        return x
    if x.ndim == 1:
        return x[c] if x.shape[0] > 1 else x[0]
    return x[i if x.shape[0] > 1 else 0, c if x.shape[1] > 1 else 0]


class Fold:
    pass


def mul(position, price):
    return 0.0 if not is_s(position) and position == 0 else position * price


def is_s(x):
    from symx.core import is_sym
    return is_sym(x)


def fold(h, n, groups, cash, P, close, sharing, seq=None, ffill=True, update=False, auto=None):
    """groups: lists of columns. cash: per group if sharing, per column otherwise. seq(i, g) -> order of positions in the group.
    auto(i, cols, state) -> positions sorted by order value."""
    import vectorbt.portfolio.nb as nb
    import vectorbt.portfolio.enums as e
    P = dict(DEF, **P)
    ncol = sum(len(g) for g in groups)
    out = Fold()
    out.orders, out.logs, out.seqs, out.states = [], [], {}, {}
    units = [(g, gi) for gi, g in enumerate(groups)] if sharing else [([c], c) for g in groups for c in g]
    pos = [0.0] * ncol
    debt = [0.0] * ncol
    val = [math.nan] * ncol
    for cols, u in units:
        c_now = cash[u]
        f_now = cash[u]
        for i in range(n):
            price = {}
            for c in cols:
                p = el(P['price'], i, c)
                if isinf(p):
                    p = el(close, i, c) if p > 0 else (el(close, i - 1, c) if i > 0 else math.nan)
                price[c] = p
                v = el(P['val_price'], i, c)
                if isinf(v):
                    v = p if v > 0 else (el(close, i - 1, c) if i > 0 else math.nan)
                if not ffill or not isnan(v):
                    val[c] = v
            value = c_now
            for c in cols:
                if pos[c] != 0:
                    value = value + pos[c] * val[c]
            order_of = list(range(len(cols)))
            if auto is not None:
                order_of = auto(i, cols, c_now, f_now, value, pos, val, P)
            elif seq is not None and len(cols) > 1:
                order_of = seq(i, u)
            out.seqs[(i, u)] = order_of
            for k in order_of:
                c = cols[k]
                o = e.Order(**{k2: (price[c] if k2 == 'price' else el(P[k2], i, c)) for k2 in ORDER})
                st = e.ProcessOrderState(cash=c_now, position=pos[c], debt=debt[c], free_cash=f_now, val_price=val[c],
                                         value=value, oidx=0, lidx=0)
                ns, r = nb.execute_order_nb(st, o)
                filled = r.status == e.OrderStatus.Filled
                if r.status == e.OrderStatus.Rejected and o.raise_reject:
                    raise RuntimeError('rejected')
                v2, val2 = value, val[c]
                if filled and update:
                    val2 = r.price
                    v2 = value + (ns.cash - c_now) + mul(ns.position, r.price) - mul(pos[c], val[c])
                oid = -1
                if filled:
                    oid = len(out.orders)
                    out.orders.append((c, i, r.size, r.price, r.fees, r.side))
                if o.log:
                    out.logs.append(dict(idx=i, col=c, group=u if sharing else c, cash=c_now, position=pos[c], debt=debt[c],
                                         free_cash=f_now, val_price=val[c], value=value, order=o, new_cash=ns.cash,
                                         new_position=ns.position, new_debt=ns.debt, new_free_cash=ns.free_cash,
                                         new_val_price=val2, new_value=v2, res=r, order_id=oid))
                c_now, pos[c], debt[c], f_now, val[c], value = ns.cash, ns.position, ns.debt, ns.free_cash, val2, v2
            out.states[(i, u)] = (c_now, f_now, [pos[c] for c in cols], [debt[c] for c in cols])
    out.cash = {u: out.states[(n - 1, u)][0] for _, u in units}
    return out


def same_orders(h, recs, orders, label='orders'):
    got = recs if isinstance(recs, np.ndarray) else recs.values
    h.eq(len(got), len(orders), label + ': number of records')
    if len(got) != len(orders):
        return
    h.eq([int(x) for x in got['id']], list(range(len(orders))), label + ': ids')
    h.eq([int(x) for x in got['col']], [o[0] for o in orders], label + ': columns')
    h.eq([int(x) for x in got['idx']], [o[1] for o in orders], label + ': rows')
    h.eq([int(x) for x in got['side']], [int(o[5]) for o in orders], label + ': sides')
    for k, f in ((2, 'size'), (3, 'price'), (4, 'fees')):
        h.eq(list(got[f]), [o[k] for o in orders], label + ': ' + f)


LOGF = (('idx', None), ('col', None), ('group', None), ('cash', None), ('position', None), ('debt', None), ('free_cash', None),
        ('val_price', None), ('value', None), ('new_cash', None), ('new_position', None), ('new_debt', None),
        ('new_free_cash', None), ('new_val_price', None), ('new_value', None), ('order_id', None))


def same_logs(h, got, logs, label='logs'):
    h.eq(len(got), len(logs), label + ': number of records')
    if len(got) != len(logs):
        return
    h.eq([int(x) for x in got['id']], list(range(len(logs))), label + ': ids')
    for f, _ in LOGF:
        h.eq(list(got[f]), [l[f] for l in logs], label + ': ' + f)
    for f in ORDER:
        g = {'size': 'req_size', 'price': 'req_price', 'size_type': 'req_size_type', 'direction': 'req_direction',
             'fees': 'req_fees', 'fixed_fees': 'req_fixed_fees', 'slippage': 'req_slippage', 'min_size': 'req_min_size',
             'max_size': 'req_max_size', 'size_granularity': 'req_size_granularity', 'reject_prob': 'req_reject_prob',
             'lock_cash': 'req_lock_cash', 'allow_partial': 'req_allow_partial', 'raise_reject': 'req_raise_reject',
             'log': 'req_log'}.get(f, f)
        if f == 'log':
            h.check(all(bool(x) for x in got[g]), label + ': request logged')
            continue
        h.eq(list(got[g]), [getattr(l['order'], f) for l in logs], label + ': ' + g)
    for f, a in (('res_size', 'size'), ('res_price', 'price'), ('res_fees', 'fees'), ('res_side', 'side'),
                 ('res_status', 'status'), ('res_status_info', 'status_info')):
        h.eq(list(got[f]), [getattr(l['res'], a) for l in logs], label + ': ' + f)


def frame(h, x, ncol):
    return h.df(x, columns=list('abcd')[:ncol])


def close_setup(vbt):
    from symx.load import idealize_close
    idealize_close(vbt)
    import vectorbt.portfolio.base as b
    from symx.arr import has_sym
    orig = b.map_enum_fields

    def map_enum_fields(field, *a, **k):
        # symbolic enumeration values are numbers already
        return field if isinstance(field, np.ndarray) and has_sym(field) else orig(field, *a, **k)
    b.map_enum_fields = map_enum_fields


# ---------------------------------------------------------------- signals

SIGDEF = dict(size=math.inf, price=math.inf, size_type=0, direction=0, fees=0.0, fixed_fees=0.0, slippage=0.0, min_size=1e-8,
              max_size=math.inf, size_granularity=math.nan, reject_prob=0.0, lock_cash=False, allow_partial=True, raise_reject=False,
              log=False, val_price=math.inf, accumulate=0, upon_long_conflict=0, upon_short_conflict=0, upon_dir_conflict=0,
              upon_opposite_entry=4, entries=False, exits=False, short_entries=False, short_exits=False, open=math.nan, high=math.nan,
              low=math.nan, sl_stop=math.nan, sl_trail=False, tp_stop=math.nan, stop_entry_price=3, stop_exit_price=0,
              upon_stop_exit=0, upon_stop_update=1)
DISABLED, BOTH, ADD, REMOVE = range(4)


def tru(x):
    return bool(x)


def decide(pos, le, lx, se, sx, S, acc):
    """which of the four signals remain after the documented conflict rules; -> (le, lx, se, sx, accumulate)"""
    inpos = pos != 0
    if le and lx:
        m = S['upon_long_conflict']
        le, lx = pick(m, inpos)
    if se and sx:
        m = S['upon_short_conflict']
        se, sx = pick(m, inpos)
    if le and se:
        m = S['upon_dir_conflict']
        if m == 1:
            se = False
        elif m == 2:
            le = False
        elif (m == 3 or m == 4) and inpos:
            keep_long = (pos > 0) if m == 3 else (pos < 0)
            le, se = bool(keep_long), not keep_long
        else:
            le = se = False
    if (pos > 0 and se) or (pos < 0 and le):
        m = S['upon_opposite_entry']
        if m == 0:
            le, se = (le, False) if pos > 0 else (False, se)
        elif m == 1 or m == 2:
            if pos > 0:
                se, lx = False, True
            else:
                le, sx = False, True
            if m == 1:
                acc = DISABLED
        elif m == 3:
            acc = DISABLED
    return le, lx, se, sx, acc


def pick(m, inpos):
    """entry and exit of the same direction at once: ignore / entry / exit / adjacent (entry) / opposite (exit)"""
    if m == 1:
        return True, False
    if m == 2:
        return False, True
    if m == 3 and inpos:
        return True, False
    if m == 4 and inpos:
        return False, True
    return False, False


def sized(pos, le, lx, se, sx, size, st, acc, val):
    """-> None or (signed size, size type, direction)"""
    if pos == 0:
        if le:
            return size, st, 2
        if se:
            return -size, st, 2
        return None
    own, opp, ext = (le, se, lx) if pos > 0 else (se, le, sx)
    sgn = 1 if pos > 0 else -1
    if opp:
        if acc == BOTH or acc == REMOVE:
            return -sgn * size, st, 2
        total = abs(pos)
        if not isnan(size):
            if st == 2:
                raise ValueError('reversal by percent')
            total = total + (size / val if st == 1 else size)
        return -sgn * total, 0, 2
    d = 0 if pos > 0 else 1
    if ext:
        if acc == BOTH or acc == REMOVE:
            return -sgn * size, st, d
        return -pos, 0, d
    if own and (acc == BOTH or acc == ADD):
        return sgn * size, st, d
    return None


def mn(a, b):
    return a if a <= b else b


def mx(a, b):
    return a if a >= b else b


def stop_hit(pos, s, o, lo, hi):
    """-> fill level of the stop or None; bars are consistent (low <= open <= high)"""
    sides = []
    if s.get('sl') is not None and not isnan(s['sl']):
        sides.append((s['sl_price'], s['sl'], True))
    if s.get('tp') is not None and not isnan(s['tp']):
        sides.append((s['tp_price'], s['tp'], False))
    for base, frac, loss in sides:
        if (pos > 0) == loss:
            level = base * (1 - frac)
            if lo <= level:
                return mn(o, level)
        else:
            level = base * (1 + frac)
            if hi >= level:
                return mx(o, level)
    return None


def sigfold(h, n, groups, cash, P, close, sharing, seq=None, ffill=True, update=False, auto=None, stops=False, adjust=None, flags=None):
    """the documented processing of signals, bar by bar; flags(i, c) overrides the signal arrays"""
    import vectorbt.portfolio.nb as nb
    import vectorbt.portfolio.enums as e
    P = dict(SIGDEF, **P)
    ncol = sum(len(g) for g in groups)
    out = Fold()
    out.orders, out.logs, out.seqs, out.values = [], [], {}, {}
    out.stops = []
    units = [(g, gi) for gi, g in enumerate(groups)] if sharing else [([c], c) for g in groups for c in g]
    pos = [0.0] * ncol
    debt = [0.0] * ncol
    val = [math.nan] * ncol
    stop = [{} for _ in range(ncol)]
    for cols, u in units:
        c_now = f_now = cash[u]
        for i in range(n):
            req, approx = {}, {}
            prices = {}
            for c in cols:
                p = el(P['price'], i, c)
                if isinf(p):
                    if p > 0:
                        p = el(close, i, c)
                    else:
                        p = el(P['open'], i, c)
                        if isnan(p):
                            p = el(close, i - 1, c) if i > 0 else math.nan
                prices[c] = p
                v = el(P['val_price'], i, c)
                if isinf(v):
                    v = p if v > 0 else (el(close, i - 1, c) if i > 0 else math.nan)
                if not ffill or not isnan(v):
                    val[c] = v
            for c in cols:
                S = {k: el(P[k], i, c) for k in P if k not in ('val_price', 'price')}
                price, slip = prices[c], S['slippage']
                acc = S['accumulate']
                hit = None
                if stops and adjust is not None:
                    adjust(i, c, pos[c], val[c], stop[c])
                st_ = stop[c]
                if stops and pos[c] != 0 and st_ and not (isnan(st_['sl']) and isnan(st_['tp'])):
                    cl = el(close, i, c)
                    o = S['open'] if not isnan(S['open']) else cl
                    lo = S['low'] if not isnan(S['low']) else mn(o, cl)
                    hi = S['high'] if not isnan(S['high']) else mx(o, cl)
                    hit = stop_hit(pos[c], st_, o, lo, hi)
                    if not isnan(st_['sl']) and tru(st_['trail']):
                        st_['sl_price'] = mx(st_['sl_price'], hi) if pos[c] > 0 else mn(st_['sl_price'], lo)
                if hit is not None:
                    out.stops.append((i, c))
                    m = S['upon_stop_exit']
                    if m == 0 or m == 2:
                        acc = DISABLED
                    ext = m == 0 or m == 1
                    long = pos[c] > 0
                    le, lx, se, sx = (not ext and not long, ext and long, not ext and long, ext and not long)
                    x = S['stop_exit_price']
                    if x == 0:
                        price, slip = hit, 0.0
                    elif x == 1:
                        price = hit
                    elif x == 3:
                        price = el(close, i, c)
                else:
                    if flags is not None:
                        le, lx, se, sx = flags(i, c)
                    else:
                        en, ex = tru(S['entries']), tru(S['exits'])
                        le, lx, se, sx = tru(S.get('long_entries', False)), tru(S.get('long_exits', False)), tru(S['short_entries']), tru(S['short_exits'])
                        if en or ex:
                            d = S['direction']
                            if d == 0:
                                le, lx = le or en, lx or ex
                            elif d == 1:
                                se, sx = se or en, sx or ex
                            else:
                                le, se = le or en, se or ex
                    le, lx, se, sx, acc = decide(pos[c], le, lx, se, sx, S, acc)
                if S['size'] < 0:
                    raise ValueError('negative size')
                r = sized(pos[c], le, lx, se, sx, S['size'], S['size_type'], acc, val[c])
                if r is not None and not isnan(r[0]) and r[0] == 0:
                    r = None
                req[c] = None if r is None else (r, price, slip, S)
                approx[c] = 0.0
                if r is not None and sharing:
                    sz, t, d = r
                    if t == 0:
                        approx[c] = sz * val[c]
                    elif t == 1:
                        approx[c] = sz
                    elif sz >= 0:
                        approx[c] = sz * c_now
                    elif d == 0:
                        approx[c] = sz * (pos[c] * val[c])
                    else:
                        approx[c] = sz * (2 * mx(pos[c] * val[c], 0.0) + mx(f_now, 0.0))
            order_of = list(range(len(cols)))
            if auto is not None:
                order_of = auto(i, u, [approx[c] for c in cols])
            elif seq is not None and len(cols) > 1:
                order_of = seq(i, u)
            value = c_now
            for c in cols:
                if pos[c] != 0:
                    value = value + pos[c] * val[c]
            for k in order_of:
                c = cols[k]
                if req[c] is None:
                    continue
                (sz, t, d), price, slip, S = req[c]
                # the order function understands a positive size as entry and a negative one as exit of a short-only order
                kw = {k2: S[k2] for k2 in ORDER if k2 not in ('price', 'size', 'size_type', 'direction', 'slippage')}
                o = e.Order(size=-sz if d == 1 else sz, price=price, size_type=t, direction=d, slippage=slip, **kw)
                st = e.ProcessOrderState(cash=c_now, position=pos[c], debt=debt[c], free_cash=f_now, val_price=val[c], value=value,
                                         oidx=0, lidx=0)
                ns, r = nb.execute_order_nb(st, o)
                filled = r.status == e.OrderStatus.Filled
                if r.status == e.OrderStatus.Rejected and o.raise_reject:
                    raise RuntimeError('rejected')
                v2, val2 = value, val[c]
                if filled and update:
                    val2 = r.price
                    v2 = value + (ns.cash - c_now) + mul(ns.position, r.price) - mul(pos[c], val[c])
                oid = -1
                if filled:
                    oid = len(out.orders)
                    out.orders.append((c, i, r.size, r.price, r.fees, r.side))
                if o.log:
                    out.logs.append(dict(idx=i, col=c, group=u if sharing else c, cash=c_now, position=pos[c], debt=debt[c],
                                         free_cash=f_now, val_price=val[c], value=value, order=o, new_cash=ns.cash,
                                         new_position=ns.position, new_debt=ns.debt, new_free_cash=ns.free_cash,
                                         new_val_price=val2, new_value=v2, res=r, order_id=oid))
                old = pos[c]
                c_now, pos[c], debt[c], f_now, val[c], value = ns.cash, ns.position, ns.debt, ns.free_cash, val2, v2
                if filled and stops:
                    now = pos[c]
                    if now == 0:
                        stop[c].clear()
                    else:
                        m = S['stop_entry_price']
                        base = val[c] if m == 0 else o.price if m == 1 else r.price if m == 2 else el(close, i, c)
                        crossed = old == 0 or (old > 0) != (now > 0)
                        bigger = not crossed and abs(now) > abs(old)
                        um = S['upon_stop_update']
                        for kind in ('sl', 'tp'):
                            new = S[kind + '_stop']
                            if crossed or bigger and (um == 2 or um == 1 and not isnan(new)):
                                stop[c][kind] = new
                                stop[c][kind + '_price'] = base
                                stop[c][kind + '_init'] = (i, base)
                                if kind == 'sl':
                                    stop[c]['trail'] = S['sl_trail']
    return out
