"""C10: log records describe every processed order: request, state before and after, result, order reference."""
import itertools
import math
import numpy as np
from checks.sim import fold, same_orders, same_logs, frame, close_setup
from checks.c04 import GROUPS

PROPERTY = 'C10'
sym_setup = close_setup
BUDGET = {'quick': 240, 'thorough': 800}
VALIDATE_S = dict(quick=14, thorough=60)
BOUNDS = dict(rows='up to 3', columns='up to 3', groups='none, {a,b}, {a}|{b,c}, {a,b}|{c}', engines='from_orders, from_order_func '
              '(column-wise, row-wise, flexible)', numbers='prices, sizes, cash, costs: all reals within their documented range; '
              'sizes and prices also NaN or infinite', log='every pattern of logged and unlogged orders')
ASSUMPTIONS = ['a single order is executed by the real execute_order_nb (C01-C03 decide what it does)',
               'comparison tolerance (1e-9 relative) idealised to 0 (C38 decides those helpers)']


def setup(h, n, ncol, groups, P, cash, sharing, seq='default', close=None):
    gb = GROUPS[groups] if groups else None
    glist = [[c for c in range(ncol) if (gb[c] if gb else c) == g] for g in sorted(set(gb) if gb else range(ncol))]
    nu = len(glist) if sharing else ncol
    return gb, glist, [cash] * nu


def chain(h, logs, units):
    """states chain within everything that touches one account"""
    for u in units:
        rows = [k for k in range(len(logs)) if int(logs['col'][k]) in u]
        for a, b in zip(rows, rows[1:]):
            h.eq(logs['cash'][b], logs['new_cash'][a], 'cash chains')
            h.eq(logs['free_cash'][b], logs['new_free_cash'][a], 'free cash chains')
            same = [k for k in rows if k < b and int(logs['col'][k]) == int(logs['col'][b])]
            if same:
                h.eq(logs['position'][b], logs['new_position'][same[-1]], 'position chains')
                h.eq(logs['debt'][b], logs['new_debt'][same[-1]], 'debt chains')
        seen = set()
        for k in rows:
            c = int(logs['col'][k])
            if c not in seen:
                h.eq(logs['position'][k], 0.0, 'starts without position')
                h.eq(logs['debt'][k], 0.0, 'starts without debt')
                seen.add(c)


def orders(h, n, ncol, st, d, groups=None, sharing=False, update=False, vp=math.inf, costs=False, lock=False, flags=False,
           seqtype=None, size='any', nanp=False, minmax=False):
    close = h.floats2('close', (n, ncol), gt=0, nan=nanp)
    if size == 'any':
        sz = h.floats2('size', (n, ncol))
    else:
        sz = h.floats2('size', (n, ncol), gt=0, hi=2)
        sz = h.array([[sz[i, c] * (1 if (i + c) % 2 == 0 else -1) for c in range(ncol)] for i in range(n)])
    cash = h.real('cash', gt=0)
    P = dict(size=sz, size_type=st, direction=d, val_price=vp, log=h.bools('log', (n, ncol)) if flags else True)
    if costs:
        P.update(fees=h.real('fees', lo=0, lt=1), fixed_fees=h.real('ff', lo=0), slippage=h.real('slip', lo=0, lt=1))
    if minmax:
        P.update(min_size=h.real('min', lo=0), max_size=h.real('max', gt=0), allow_partial=h.bool('ap'))
    if lock:
        P['lock_cash'] = True
    gb, glist, cs = setup(h, n, ncol, groups, P, cash, sharing)
    kw = dict(P)
    if gb is not None:
        kw['group_by'] = np.array(gb)
    seq = None
    if seqtype == 'reversed':
        kw['call_seq'] = 'reversed'
        seq = lambda i, g: list(reversed(range(len(glist[g]))))
    pf, exc = h.call(lambda: h.vbt.Portfolio.from_orders(frame(h, close, ncol), init_cash=cash, cash_sharing=sharing,
                                                         update_value=update, **kw))
    try:
        f = fold(h, n, glist, cs, P, close, sharing, seq=seq, update=update)
    except (ValueError, RuntimeError):
        h.check(exc is not None, 'an invalid order raises')
        return
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    same_orders(h, pf.order_records, f.orders)
    logs = pf.log_records
    same_logs(h, logs, f.logs)
    h.eq(len(logs), int(sum(1 for _ in f.logs)) if flags else n * ncol, 'one record per request')
    h.eq(list(pf.logs.values['order_id']), [l['order_id'] for l in f.logs], 'wrapped records')
    h.eq(int(np.sum(np.asarray(pf.logs.count()))), len(f.logs), 'count')
    if not flags:
        chain(h, logs, glist if sharing else [[c] for c in range(ncol)])
        for k in range(len(logs)):
            h.eq(int(logs['order_id'][k]) >= 0, int(logs['res_status'][k]) == 0, 'an order is referenced exactly if it was filled')


def engine(h, eng, n, ncol, groups, sharing, flags=True, update=False, st=0):
    """the same for order functions"""
    close = h.floats2('close', (n, ncol), gt=0)
    sz = h.floats2('size', (n, ncol), gt=0, hi=2)
    sz = h.array([[sz[i, c] * (1 if (i + c) % 2 == 0 else -1) for c in range(ncol)] for i in range(n)])
    cash = h.real('cash', gt=0)
    log = h.bools('log', (n, ncol)) if flags else np.ones((n, ncol), dtype=bool)
    P = dict(size=sz, size_type=st, log=log, price=close, val_price=-math.inf, min_size=0.0)
    gb, glist, cs = setup(h, n, ncol, groups, P, cash, sharing)
    import vectorbt as vbt
    from vectorbt.portfolio import nb
    flex = eng.startswith('flex')
    if flex:
        def fn(c, size, price, log, st):
            if c.call_idx < c.group_len:
                col = c.from_col + c.call_idx
                return col, nb.order_nb(size=size[c.i, col], price=price[c.i, col], size_type=st, log=log[c.i, col])
            return -1, nb.order_nothing_nb()
    else:
        def fn(c, size, price, log, st):
            return nb.order_nb(size=size[c.i, c.col], price=price[c.i, c.col], size_type=st, log=log[c.i, c.col])
    kw = dict(init_cash=cash, cash_sharing=sharing, row_wise=eng.endswith('row'), flexible=flex, update_value=update,
              max_logs=n * ncol)
    if gb is not None:
        kw['group_by'] = np.array(gb)
    pf, exc = h.call(lambda: vbt.Portfolio.from_order_func(frame(h, close, ncol), h.njit(fn), sz, close, log, st, **kw))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    f = fold(h, n, glist, cs, P, close, sharing, update=update)
    key = (lambda l: (l['idx'], l['group'], )) if eng.endswith('row') else None
    if key is None:
        same_logs(h, pf.log_records, f.logs)
        return
    gr = {c: k for k, g in enumerate(glist) for c in g}
    logs = sorted(f.logs, key=lambda l: (l['idx'], gr[l['col']]))
    ids = sorted(range(len(f.orders)), key=lambda k: (f.orders[k][1], gr[f.orders[k][0]]))
    back = {k: j for j, k in enumerate(ids)}
    logs = [dict(l, order_id=back.get(l['order_id'], -1)) for l in logs]
    same_logs(h, pf.log_records, logs)


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    for st in range(6):
        t('orders', w=4, n=2, ncol=1, st=st, d=2)
        t('orders', w=3, n=1, ncol=1, st=st, d=0, nanp=True, update=True)
        t('orders', w=3, n=1, ncol=1, st=st, d=1, minmax=True)
        if not q:
            t('orders', w=9, n=3, ncol=1, st=st, d=2)
            t('orders', w=9, n=2, ncol=2, st=st, d=2, groups='ab', sharing=True)
    for st in (0, 1):
        t('orders', w=3, n=1, ncol=1, st=st, d=2, costs=True)
        t('orders', w=3, n=2, ncol=1, st=st, d=2, lock=True)
        t('orders', w=3, n=2, ncol=1, st=st, d=2, vp=-math.inf, size='sgn')
        t('orders', w=3, n=2, ncol=1, st=st, d=2, update=True, costs=True, size='sgn')
    t('orders', w=3, n=2 if q else 3, ncol=1, st=0, d=2, flags=True, size='sgn')
    t('orders', w=3, n=1 if q else 2, ncol=2, st=0, d=2, flags=True, size='sgn')
    for g, nc in (('ab', 2), ('a|b', 2), ('a|bc', 3), ('ab|c', 3)):
        for sh in (False, True):
            t('orders', w=3, n=2 if g == 'ab' and sh or not q else 1, ncol=nc, st=0, d=2, groups=g, sharing=sh, size='sgn')
        t('orders', w=3, n=1, ncol=nc, st=0, d=2, groups=g, sharing=True, size='sgn', seqtype='reversed', update=True)
    for eng in ('col', 'row', 'flex', 'flexrow'):
        t('engine', w=3, eng=eng, n=2, ncol=1, groups=None, sharing=False)
        t('engine', w=3, eng=eng, n=2 if eng in ('row', 'flex') or not q else 1, ncol=2, groups=None, sharing=False, flags=False)
        t('engine', w=3, eng=eng, n=2 if eng in ('col', 'flexrow') or not q else 1, ncol=2, groups='ab', sharing=True, flags=False, update=True)
        t('engine', w=3, eng=eng, n=1, ncol=3, groups='a|bc', sharing=True, flags=True)
    return out
