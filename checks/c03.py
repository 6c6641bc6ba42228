"""C03: size types mean what they say (a run with a size type against the same order in amount terms, and direct meaning)."""
import math
from checks.order_common import enums, close_setup, account, order, POS
from symx.harness import isnan, and_, or_, not_, ite

PROPERTY = 'C03'
sym_setup = close_setup
BOUNDS = dict(step='one order from an arbitrary account state (two executions of the real code are compared)',
              numbers='cash, position, debt, size, price, fees, slippage, limits, valuation price and value: all reals; '
                      'size, valuation price and value also NaN')
ASSUMPTIONS = ['comparison tolerance (1e-9 relative) idealised to 0 in is_close_nb/is_less_nb/add_nb; see C38 for those helpers',
               'account invariant before the order: cash >= 0, debt > 0 iff position < 0, free cash = cash - 2*debt']


def run(h, st, o):
    import vectorbt.portfolio.nb as nb
    return h.call(nb.execute_order_nb, st, o)


def flat(r):
    ns, res = r
    return [ns.cash, ns.position, ns.debt, ns.free_cash, res.size, res.price, res.fees, res.side, res.status, res.status_info]


def resolve(h, direction, size_type, pos, lock, partial, gran=None):
    """Value / Target* orders act as the Amount order that moves the position to the requested target"""
    e = enums()
    st = account(h, pos, other=lock)
    size = h.real('size', nan=True)
    vp = h.real('val_price', gt=0)
    if size_type in (1, 4, 5):
        vp = h.real('val_price_n', gt=0, nan=True)
    value = h.real('value_n', nan=True)
    st = st._replace(val_price=vp, value=value)
    o = order(h, direction, size_type, lock, partial, gran, size=size)
    r, exc = run(h, st, o)
    sgn = -1 if direction == 1 else 1
    unchanged = [st.cash, st.position, st.debt, st.free_cash]
    if isnan(size):
        h.check(exc is None, 'NaN size raises')
        h.eq(flat(r)[:4], unchanged, 'NaN size changes nothing')
        h.check(r[1].status == e.OrderStatus.Ignored, 'NaN size is ignored')
        return
    if size_type == 5:
        if isnan(value):
            h.eq(flat(r)[:4], unchanged, 'unknown value changes nothing')
            h.check(r[1].status == e.OrderStatus.Ignored, 'unknown value: ignored')
            return
        if value <= 0:
            h.eq(flat(r)[:4], unchanged, 'zero or negative value changes nothing')
            h.check(r[1].status == e.OrderStatus.Rejected, 'zero or negative value: rejected')
            return
    if size_type in (1, 4, 5) and isnan(vp):
        h.check(exc is None, 'NaN valuation price raises')
        h.eq(flat(r)[:4], unchanged, 'unknown valuation price changes nothing')
        h.check(r[1].status == e.OrderStatus.Ignored, 'unknown valuation price: ignored')
        return
    if size_type == 1:
        amount = size / vp
    else:
        target = size if size_type == 3 else (size / vp if size_type == 4 else size * value / vp)
        amount = target - sgn * st.position
    r2, exc2 = run(h, st, o._replace(size=amount, size_type=0))
    h.check(exc == exc2, 'same exception as the amount order: %s vs %s' % (exc, exc2))
    if exc is None and exc2 is None:
        h.eq(flat(r), flat(r2), 'same outcome as the amount order')


def reach(h, direction, size_type, pos):
    """an unconstrained, free-of-charge target order reaches its target exactly"""
    e = enums()
    st = account(h, pos)
    size = h.real('size')
    o = order(h, direction, size_type, False, False, None, size=size, limits=False, costs=False)
    if size_type == 5:
        h.assume(st.value > 0)
    sgn = -1 if direction == 1 else 1
    r, exc = run(h, st, o)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    ns, res = r
    target = sgn * (size if size_type == 3 else (size / st.val_price if size_type == 4 else size * st.value / st.val_price))
    if res.status == e.OrderStatus.Filled:
        h.eq(ns.position, target, 'position after the order is the target')
    elif res.status == e.OrderStatus.Ignored:
        h.eq(st.position, target, 'ignored only when already at the target')
    else:
        delta = target - st.position
        infeasible = or_(delta * o.price > st.cash, and_(direction == 0, target < 0), and_(direction == 1, target > 0),
                         and_(direction != 2, st.position == 0))
        h.check(infeasible, 'rejected although the target is reachable')


def percent(h, direction, pos, lock, gran=None):
    """Percent orders use the stated fraction of the resource"""
    e = enums()
    st = account(h, pos)
    if lock:
        h.assume(st.free_cash >= 0)
    p = h.real('size')
    o = order(h, direction, 2, lock, True, None, size=p, limits=False)
    r, exc = run(h, st, o)
    if p == 0:
        h.check(exc is None and r[1].status != e.OrderStatus.Filled, 'zero percent is not filled')
        h.eq(flat(r)[:4], [st.cash, st.position, st.debt, st.free_cash], 'zero percent changes nothing')
        return
    if exc:
        h.check(False, 'raises %s' % exc)
        return
    ns, res = r
    want = -p if direction == 1 else p
    if res.status != e.OrderStatus.Filled:
        return
    if want > 0:
        h.check(res.side == e.OrderSide.Buy, 'side')
        frac = ite(want > 1, 1.0, want)
        spent = st.cash - ns.cash
        if not lock:
            if direction == 1 and ns.position == 0:
                h.check(spent <= frac * st.cash, 'covering spends at most the fraction of cash')
            else:
                h.eq(spent, frac * st.cash, 'buying spends the stated fraction of cash')
        else:
            h.check(spent <= frac * st.cash, 'buying spends at most the stated fraction of cash')
            if pos != 'short':
                h.eq(spent, frac * st.free_cash, 'buying spends the stated fraction of free cash')
    else:
        h.check(res.side == e.OrderSide.Sell, 'side')
        q = -want
        long = st.position if st.position > 0 else 0.0
        if direction == 0:
            h.eq(res.size, ite(q > 1, 1.0, q) * long, 'selling the stated fraction of the position')
            return
        adj = o.price * (1 - o.slippage)
        free = st.free_cash + long * adj * (1 - o.fees)
        short = (free - o.fixed_fees) / (adj * (1 + o.fees))
        cap = ite(free > 0, long + short, long)
        if lock:
            q = ite(q > 1, 1.0, q)
        h.eq(res.size, q * cap, 'selling the stated fraction of position plus shortable size')


def infinite(h, direction, pos, lock, sign):
    """infinite amounts use everything: identical to 100% where the resource is bounded"""
    st = account(h, pos, other=lock)
    if lock:
        h.assume(st.free_cash >= 0)
    o = order(h, direction, 0, lock, True, None, size=sign * math.inf)
    r, exc = run(h, st, o)
    r2, exc2 = run(h, st, o._replace(size=float(sign), size_type=2))
    if direction == 1 and sign < 0:
        # covering for all cash: bounded by the position
        if exc is None:
            h.check(r[0].position <= 0, 'covering never flips a short-only position')
        h.check(exc is None, 'raises %s' % exc)
        return
    h.check(exc == exc2, 'same exception: %s vs %s' % (exc, exc2))
    if exc is None and exc2 is None:
        h.eq(flat(r), flat(r2), 'infinite amount = 100 percent')


def tasks(tier):
    out = []
    for d in range(3):
        for pos in POS[d]:
            for st in (1, 3, 4, 5):
                for lock in (False, True):
                    for partial in (True, False):
                        if tier == 'quick' and (not partial and (lock or d) or lock and (d != 2 or pos == 'short' and st != 5)):
                            continue
                        out.append(dict(fn='resolve', cfg=dict(direction=d, size_type=st, pos=pos, lock=lock, partial=partial),
                                        weight=3 if lock else 2))
                if st in (3, 4, 5):
                    out.append(dict(fn='reach', cfg=dict(direction=d, size_type=st, pos=pos)))
            for lock in (False, True):
                out.append(dict(fn='percent', cfg=dict(direction=d, pos=pos, lock=lock)))
                for sign in (1, -1):
                    out.append(dict(fn='infinite', cfg=dict(direction=d, pos=pos, lock=lock, sign=sign)))
    return out
