"""C01: one order from an arbitrary account state (inductive step: the invariant is assumed before and shown after)."""
import math
from checks.order_common import enums, close_setup, account, order, grid, SIZES

PROPERTY = 'C01'
sym_setup = close_setup
BOUNDS = dict(step='one order from an arbitrary state satisfying the account invariant (histories of any length by induction)',
              numbers='cash, position, debt, size, price, fees, fixed fees, slippage, limits, valuation: all reals',
              fees='0 <= fees < 1, fixed_fees >= 0, 0 <= slippage < 1', size_granularity='unset, 0.5')
ASSUMPTIONS = ['comparison tolerance (1e-9 relative) idealised to 0 in is_close_nb/is_less_nb/add_nb; see C38 for those helpers',
               'account invariant before the order: cash >= 0, debt > 0 iff position < 0, free cash = cash - 2*(debt + debt of other columns)']


def step(h, direction, size_type, pos, lock, partial, gran, size):
    import vectorbt.portfolio.nb as nb
    e = enums()
    st = account(h, pos, other=True)
    o = order(h, direction, size_type, lock, partial, gran, SIZES[size])
    r, exc = h.call(nb.execute_order_nb, st, o)
    if exc:
        h.check(exc == 'ValueError', 'only ValueError may be raised: %s' % exc)
        return
    ns, res = r
    if res.status != e.OrderStatus.Filled:
        h.eq([ns.cash, ns.position, ns.debt, ns.free_cash], [st.cash, st.position, st.debt, st.free_cash],
             'unfilled order changes nothing')
        h.eq([res.size, res.price, res.fees, res.side], [math.nan, math.nan, math.nan, -1], 'unfilled result is empty')
        return
    buy = res.side == e.OrderSide.Buy
    sgn = 1 if buy else -1
    h.eq(res.price, o.price * (1 + sgn * o.slippage), 'fill price = price moved against the trader')
    h.eq(res.fees, res.size * res.price * o.fees + o.fixed_fees, 'fees')
    h.eq(ns.position, st.position + sgn * res.size, 'position moves by the filled size')
    h.eq(ns.cash, st.cash - sgn * res.size * res.price - res.fees, 'cash moves by value and fees')
    # short bookkeeping
    h.eq(ns.free_cash - st.free_cash, (ns.cash - st.cash) - 2 * (ns.debt - st.debt), 'free cash = cash - 2*debt')
    if ns.position < 0:
        opened = res.size if st.position <= 0 else -ns.position
        if buy:
            h.eq(ns.debt * st.position, st.debt * ns.position, 'covering keeps the average entry value')
        else:
            h.eq(ns.debt, st.debt + opened * res.price, 'shorting adds the value sold short to the debt')
        h.check(ns.debt > 0, 'short position has debt')
    else:
        h.eq(ns.debt, 0.0, 'no debt without a short position')


def tasks(tier):
    if tier == 'thorough':
        out = grid('step', tier)
    else:
        out = grid('step', tier, size_types=(0, 2))
        out += [t for t in grid('step', tier, size_types=(1, 3, 4, 5), sizes=('fin',), partials=(True,), locks=(False,))
                if t['cfg']['direction'] == 2 or t['cfg']['pos']]
    out += grid('step', tier, sizes=('fin',), grans=(0.5,), size_types=(0,), partials=(True,))
    return out
