"""Shared set-up of the single-order harnesses (C01, C02, C03)."""
import math


def enums():
    import vectorbt.portfolio.enums as e
    return e


def close_setup(vbt):
    from symx.load import idealize_close
    idealize_close(vbt)


def account(h, pos, other=False, val=True):
    """An arbitrary account state satisfying the representation invariant:
    cash >= 0, debt > 0 iff the position is short, free cash = cash - 2*(own debt + other columns' debt)."""
    e = enums()
    cash = h.real('cash', lo=0)
    position, debt = 0.0, 0.0
    if pos == 'long':
        position = h.real('position', gt=0)
    elif pos == 'short':
        position = h.real('position', lt=0)
        debt = h.real('debt', gt=0)
    free = cash - 2 * debt
    if other:
        free = free - 2 * h.real('other_debt', lo=0)
    return e.ProcessOrderState(cash=cash, position=position, debt=debt, free_cash=free,
                               val_price=h.real('val_price', gt=0) if val else math.nan,
                               value=h.real('value') if val else math.nan, oidx=0, lidx=0)


def order(h, direction, size_type, lock=False, partial=True, gran=None, size=None, limits=True, costs=True, price=None):
    e = enums()
    return e.Order(
        size=size if size is not None else h.real('size'),
        price=price if price is not None else h.real('price', gt=0),
        size_type=size_type, direction=direction,
        fees=h.real('fees', lo=0, lt=1) if costs else 0.0,
        fixed_fees=h.real('fixed_fees', lo=0) if costs else 0.0,
        slippage=h.real('slippage', lo=0, lt=1) if costs else 0.0,
        min_size=h.real('min_size', lo=0) if limits else 0.0,
        max_size=h.real('max_size', gt=0, inf='+') if limits else math.inf,
        size_granularity=math.nan if gran is None else gran,
        reject_prob=0.0, lock_cash=lock, allow_partial=partial, raise_reject=False, log=False)


POS = {0: ('long', None), 1: ('short', None), 2: ('long', 'short', None)}
SIZES = {'fin': None, 'inf': math.inf, '-inf': -math.inf}


def grid(fn, tier, sizes=('fin', 'inf', '-inf'), locks=(False, True), partials=(False, True), grans=(None,), size_types=range(6), **extra):
    out = []
    for d in range(3):
        for s in size_types:
            for pos in POS[d]:
                for lock in locks:
                    for partial in partials:
                        for gran in grans:
                            for sz in sizes:
                                if sz != 'fin' and (s in (1, 4, 5) or not partial):
                                    continue
                                out.append(dict(fn=fn, cfg=dict(direction=d, size_type=s, pos=pos, lock=lock, partial=partial,
                                                                gran=gran, size=sz, **extra),
                                                weight=5 if lock and pos == 'short' else 1))
    return out
