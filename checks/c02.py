"""C02: order limits and solvency; fills are maximal and rejections are justified."""
import math
from checks.order_common import enums, close_setup, account, order, grid, SIZES
from symx.harness import and_, or_, not_

PROPERTY = 'C02'
sym_setup = close_setup
BUDGET = {'quick': 240, 'thorough': 800}
BOUNDS = dict(step='one order from an arbitrary state satisfying the account invariant (histories of any length by induction)',
              numbers='cash, position, debt, size, price, fees, fixed fees, slippage, limits: all reals',
              fees='0 <= fees < 1, fixed_fees >= 0, 0 <= slippage < 1', size_granularity='unset; 0.5 and 2 (thorough)',
              maximality='compared with an arbitrary alternative fill size (a universally quantified real)')
ASSUMPTIONS = ['comparison tolerance (1e-9 relative) idealised to 0 in is_close_nb/is_less_nb/add_nb; see C38 for those helpers',
               'account invariant before the order: cash >= 0, debt > 0 iff position < 0, free cash = cash - 2*debt; '
               'with lock_cash also free cash >= 0']


def bounds(h, direction, size_type, pos, lock, partial, gran, size):
    import vectorbt.portfolio.nb as nb
    e = enums()
    st = account(h, pos, other=lock)
    o = order(h, direction, size_type, lock, partial, gran, SIZES[size])
    if lock:
        h.assume(st.free_cash >= 0)
    r, exc = h.call(nb.execute_order_nb, st, o)
    if exc:
        h.check(exc == 'ValueError', 'only ValueError may be raised: %s' % exc)
        if exc == 'ValueError':
            # fees, prices, limits and state are all valid: only an infinite or unpriceable order may be refused this way
            short_inf = size == 'inf' and direction == 1 or size == '-inf' and direction == 2
            h.check(size != 'fin' and lock is False and (short_inf or direction == 1), 'ValueError for a valid order')
        return
    ns, res = r
    h.check(ns.cash >= 0, 'cash stays non-negative')
    if direction == 0:
        h.check(ns.position >= 0, 'long-only position stays non-negative')
    if direction == 1:
        h.check(ns.position <= 0, 'short-only position stays non-positive')
    if lock:
        h.check(ns.free_cash >= 0, 'locked cash: free cash stays non-negative')
    filled = res.status == e.OrderStatus.Filled
    if filled:
        h.check(res.size > 0, 'filled size is positive')
        h.check(res.size >= o.min_size, 'filled size respects min_size')
        h.check(res.size <= o.max_size, 'filled size respects max_size')
        if gran is not None:
            k = res.size / gran
            h.eq(k // 1, k, 'filled size is a multiple of the granularity')
    if size_type != 0 or size != 'fin':
        return
    # requested signed amount in position terms
    want = o.size if direction != 1 else -o.size
    if want == 0:
        h.check(not filled, 'a zero order is not filled')
        return
    buy = want > 0
    req = want if buy else -want
    if filled:
        h.check((res.side == e.OrderSide.Buy) == buy, 'side follows the sign of the size')
        h.check(res.size <= req, 'never more than requested')
        if not partial:
            if gran is None:
                h.eq(res.size, req, 'no partial fill unless allowed')
            else:
                h.check(req - res.size < gran, 'no partial fill unless allowed')
    if gran is not None or not partial:
        if not partial and not filled and gran is None:
            # a rejection means the requested size itself is infeasible
            h.check(not_(feasible(st, o, direction, lock, buy, req)), 'rejection is justified')
        return
    s = h.real('alt', gt=0)
    ok = and_(feasible(st, o, direction, lock, buy, s), s <= req)
    if filled:
        h.check(not_(and_(ok, s > res.size)), 'partial fill is maximal')
    else:
        h.check(not_(ok), 'rejection is justified')


def feasible(st, o, direction, lock, buy, s):
    c = and_(s >= o.min_size, s <= o.max_size)
    if buy:
        p = o.price * (1 + o.slippage)
        cost = s * p * (1 + o.fees) + o.fixed_fees
        c = and_(c, cost <= st.cash)
        if direction == 1:
            c = and_(c, s <= -st.position)
        if lock:
            if st.position < 0:
                # covering releases twice the average entry value
                part = and_(s < -st.position, (st.free_cash - cost) * -st.position + 2 * s * st.debt >= 0)
                full = and_(s >= -st.position, st.free_cash - cost + 2 * st.debt >= 0)
                c = and_(c, or_(part, full))
            else:
                c = and_(c, st.free_cash - cost >= 0)
    else:
        p = o.price * (1 - o.slippage)
        gain = s * p * (1 - o.fees) - o.fixed_fees
        c = and_(c, gain >= 0)
        if direction == 0:
            c = and_(c, s <= st.position)
        elif lock:
            short = and_(s > st.position, st.free_cash + gain - 2 * p * (s - (st.position if st.position > 0 else 0)) >= 0)
            c = and_(c, or_(s <= st.position, short))
    return c


def tasks(tier):
    out = grid('bounds', tier, size_types=(0,)) + grid('bounds', tier, size_types=(2,), sizes=('fin',))
    out += grid('bounds', tier, sizes=('fin',), grans=(0.5,), size_types=(0,), partials=(True, False))
    if tier == 'thorough':
        out += grid('bounds', tier, size_types=(1, 3, 4, 5), sizes=('fin',))
        out += grid('bounds', tier, sizes=('fin',), grans=(2.0,), size_types=(0, 2), partials=(True, False))
    return out
