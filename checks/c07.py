"""C07: all simulation engines agree on the same order stream."""
import itertools
import math
import numpy as np
from symx.harness import isnan
from checks.sim import frame, close_setup, ORDER, el
from checks.c04 import GROUPS
from checks.c05 import mix

PROPERTY = 'C07'
sym_setup = close_setup
BUDGET = {'quick': 240, 'thorough': 800}
VALIDATE_S = dict(quick=25, thorough=90)
BOUNDS = dict(rows='2 (3 with one column)', columns='up to 3', groups='none, {a,b}, {a}|{b,c}, {a,b}|{c}; with and without shared cash',
              engines='from_orders; order functions column-wise, row-wise, flexible column-wise, flexible row-wise; from_signals static, '
              'with a signal function, with callbacks', numbers='all reals; sizes and prices also NaN and infinite')
ASSUMPTIONS = ['comparison tolerance (1e-9 relative) idealised to 0 (C38 decides those helpers)']
ENGINES = ('col', 'row', 'flex', 'flexrow')
ARGS = ('size', 'price', 'size_type', 'direction', 'fees', 'fixed_fees', 'slippage', 'min_size', 'max_size', 'lock_cash', 'allow_partial', 'log')


def same_records(h, a, b, row, glist, label, sharing=True):
    """records of from_orders/from_signals (account by account, then row by row) and of another engine, which visits group by group
    (row-wise: row by row), rows within the group, columns within the row"""
    h.eq(len(a), len(b), label + ': number of records')
    if len(a) != len(b):
        return
    g = {c: k for k, cols in enumerate(glist) for c in cols}
    perm = list(range(len(a)))
    if row:
        perm = sorted(perm, key=lambda k: (int(a['idx'][k]), g[int(a['col'][k])]))
    elif not sharing:
        perm = sorted(perm, key=lambda k: (g[int(a['col'][k])], int(a['idx'][k]), int(a['col'][k])))
    h.eq([int(x) for x in b['id']], list(range(len(b))), label + ': ids')
    for f in a.dtype.names:
        if f in ('id', 'order_id'):
            continue
        want = [a[f][k] for k in perm]
        if f == 'group' and not sharing:
            want = [g[int(a['col'][k])] for k in perm]
        h.eq(list(b[f]), want, label + ': ' + f)


def funcs(h, flex, seq, mask=None):
    from vectorbt.portfolio import nb
    if flex:
        def fn(c, size, price, st, d, fees, ff, slip, mins, maxs, lock, part, log, seq):
            if c.call_idx < c.group_len:
                col = c.from_col + seq[c.i, c.from_col + c.call_idx]
                return col, nb.order_nb(size[c.i, col], price[c.i, col], st[c.i, col], d[c.i, col], fees[c.i, col], ff[c.i, col],
                                        slip[c.i, col], mins[c.i, col], maxs[c.i, col], np.nan, 0.0, lock[c.i, col], part[c.i, col],
                                        False, log[c.i, col])
            return -1, nb.order_nothing_nb()
    else:
        def fn(c, size, price, st, d, fees, ff, slip, mins, maxs, lock, part, log, seq):
            col = c.col
            return nb.order_nb(size[c.i, col], price[c.i, col], st[c.i, col], d[c.i, col], fees[c.i, col], ff[c.i, col],
                               slip[c.i, col], mins[c.i, col], maxs[c.i, col], np.nan, 0.0, lock[c.i, col], part[c.i, col],
                               False, log[c.i, col])
    return fn


def full(h, x, n, ncol):
    if isinstance(x, np.ndarray) and x.shape == (n, ncol):
        return x
    vals = [[el(x, i, c) for c in range(ncol)] for i in range(n)]
    if any(isinstance(v, float) or not isinstance(v, (bool, int, np.integer, np.bool_)) for r in vals for v in r):
        return h.array(vals)
    return np.array(vals)


def orders(h, eng, n, ncol, groups=None, sharing=False, st=0, d=2, names=(), size='any', perm=False, update=False, pinf=None,
           nanclose=False, mask=False, ctx=False, df=True):
    close = h.floats2('close', (n, ncol), gt=0, nan=nanclose)
    if size == 'any':
        sz = h.floats2('size', (n, ncol))
    else:
        sz = h.floats2('size', (n, ncol), gt=0, hi=2, nan=size == 'sgn')
        sz = h.array([[sz[i, c] * (1 if (i + c) % 2 == 0 or d == 0 and i == 0 else -1) for c in range(ncol)] for i in range(n)])
    if size == 'row1':
        # first row concrete and small against the cash: the second row is decided for every outcome
        sz = h.array([[1.0] * ncol] + [[sz[i, c] for c in range(ncol)] for i in range(1, n)])
        close = h.array([[10.0 + c for c in range(ncol)]] + [[close[i, c] for c in range(ncol)] for i in range(1, n)])
    if pinf:
        price = np.full((n, ncol), math.inf if pinf == '+' else -math.inf)
    elif size == 'row1':
        price = h.array([[5.0 + i + 2 * c for c in range(ncol)] for i in range(n)])
    else:
        price = h.floats2('price', (n, ncol), gt=0, nan=False) if not nanclose else close
    A = dict(size=sz, price=price, size_type=st, direction=d, fees=0.0, fixed_fees=0.0, slippage=0.0, min_size=0.0, max_size=math.inf,
             lock_cash=False, allow_partial=True, log=True)
    if 'costs' in names:
        A['fees'] = h.floats2('fees', (n, ncol), lo=0, lt=1)
        A['fixed_fees'] = h.floats2('ff', (n, ncol), lo=0)
        A['slippage'] = h.floats2('slip', (n, ncol), lo=0, lt=1)
    if 'limits' in names:
        A['min_size'] = h.floats2('min', (n, ncol), lo=0)
        A['max_size'] = h.floats2('max', (n, ncol), gt=0)
        A['allow_partial'] = h.bools('ap', (n, ncol))
    if 'lock' in names:
        A['lock_cash'] = True
    if 'log' in names:
        A['log'] = h.bools('log', (n, ncol))
    cash = h.real('cash', gt=20 * ncol if size == 'row1' else 0)
    gb = GROUPS[groups] if groups else None
    glist = [[c for c in range(ncol) if (gb[c] if gb else c) == g] for g in sorted(set(gb) if gb else range(ncol))]
    kw = dict(init_cash=cash, cash_sharing=sharing, update_value=update)
    if gb:
        kw['group_by'] = np.array(gb)
    if names and 'ffill' in names:
        kw['ffill_val_price'] = False
    seq = np.zeros((n, ncol), dtype=np.int64)
    for i in range(n):
        for g, cols in enumerate(glist):
            p = h.choice('p%d_%d' % (i, g), list(itertools.permutations(range(len(cols))))) if perm else range(len(cols))
            for k, c in enumerate(cols):
                seq[i, c] = p[k]
    row, flex = eng.endswith('row'), eng.startswith('flex')
    A1 = dict(A)
    seg = True
    if mask:
        seg = h.bools('mask', (n, len(glist)))
        A1['size'] = h.array([[sz[i, c] if seg[i, [k for k, g in enumerate(glist) if c in g][0]] else math.nan for c in range(ncol)]
                              for i in range(n)])
        A1['log'] = np.array([[bool(seg[i, [k for k, g in enumerate(glist) if c in g][0]]) for c in range(ncol)] for i in range(n)])
    cl = frame(h, close, ncol) if df else h.sr(close.reshape(-1))
    k1 = dict(kw)
    if sharing:
        k1['call_seq'] = seq
    k2 = dict(kw)
    if not flex:
        k2['call_seq'] = seq
    if mask:
        k2['segment_mask'] = seg
    seen = h.empty((n, ncol, 4))
    if ctx:
        def post(c, seen):
            for col in range(c.from_col, c.to_col):
                j = c.group if c.cash_sharing else col
                seen[c.i, col, 0] = c.last_cash[j]
                seen[c.i, col, 1] = c.last_position[col]
                seen[c.i, col, 2] = c.last_value[j]
                seen[c.i, col, 3] = c.last_return[j]
        k2['post_segment_func_nb'] = h.njit(post)
        k2['post_segment_args'] = (seen,)
        k2['call_post_segment'] = True
    pf1, e1 = h.call(lambda: h.vbt.Portfolio.from_orders(cl, val_price=-math.inf, **A1, **k1))
    args = [full(h, A[k], n, ncol) for k in ARGS]
    pf2, e2 = h.call(lambda: h.vbt.Portfolio.from_order_func(cl, h.njit(funcs(h, flex, seq)), *args, seq, row_wise=row, flexible=flex,
                                                             max_logs=n * ncol, **k2))
    h.eq(e1 is None, e2 is None, 'both raise or neither')
    if e1 or e2:
        return
    same_records(h, pf1.order_records, pf2.order_records, row, glist, 'orders', sharing)
    same_records(h, pf1.log_records, pf2.log_records, row, glist, 'logs', sharing)
    if ctx:
        per = pf1.cash().to_numpy().reshape(n, -1)
        val = pf1.value().to_numpy().reshape(n, -1)
        ret = pf1.returns().to_numpy().reshape(n, -1)
        ass = pf1.assets().to_numpy().reshape(n, -1)
        if not sharing and gb:
            per = pf1.cash(group_by=False).to_numpy().reshape(n, -1)
            val = pf1.value(group_by=False).to_numpy().reshape(n, -1)
            ret = pf1.returns(group_by=False).to_numpy().reshape(n, -1)
        for c in range(ncol):
            j = c if not sharing else [k for k, g in enumerate(glist) if c in g][0]
            for i in range(n):
                h.eq(seen[i, c, 0], per[i, j], 'context: cash')
                h.eq(seen[i, c, 1], ass[i, c], 'context: position')
                h.eq(seen[i, c, 2], val[i, j], 'context: value')
                h.eq(seen[i, c, 3], ret[i, j], 'context: return')


SETTINGS = dict(accumulate=3, upon_long_conflict=4, upon_short_conflict=4, upon_dir_conflict=4, upon_opposite_entry=4)


def sigfunc(h, ls):
    if ls:
        def fn(c, le, lx, se, sx):
            return le[c.i, c.col], lx[c.i, c.col], se[c.i, c.col], sx[c.i, c.col]
    else:
        def fn(c, en, ex, d):
            k = d[c.i, c.col]
            if k == 0:
                return en[c.i, c.col], ex[c.i, c.col], False, False
            if k == 1:
                return False, False, en[c.i, c.col], ex[c.i, c.col]
            return en[c.i, c.col], False, ex[c.i, c.col], False
    return fn


def signals(h, mode, n, ncol, groups=None, sharing=False, stops=False, settings=(), seqtype='default', st=0, big=False, via='func',
            update=False):
    """from_signals: static engine versus signal function versus callbacks engine"""
    close = h.floats2('close', (n, ncol), gt=0, hi=100)
    kw = dict(log=True, call_seq=seqtype, update_value=update, size_type=st)
    gb = GROUPS[groups] if groups else None
    if gb:
        kw['group_by'] = np.array(gb)
        kw['cash_sharing'] = sharing
    glist = [[c for c in range(ncol) if (gb[c] if gb else c) == g] for g in sorted(set(gb) if gb else range(ncol))]
    z = np.zeros((n, ncol), dtype=bool)
    if mode == 'ls':
        fl = [mix(h, c0, h.masks(k, (n - 1, ncol)), n, ncol) for k, c0 in (('le', True), ('lx', False), ('se', False), ('sx', False))]
        a1 = dict(entries=fl[0], exits=fl[1], short_entries=fl[2], short_exits=fl[3])
        a2 = fl
    else:
        d = h.ints('d', (1, ncol), 0, 2)
        en = mix(h, True, h.masks('en', (n - 1, ncol)), n, ncol)
        ex = mix(h, False, h.masks('ex', (n - 1, ncol)), n, ncol)
        a1 = dict(entries=en, exits=ex, direction=d)
        a2 = [en, ex, np.array(np.broadcast_to(d, (n, ncol)))]
    kw['size'] = {0: h.real('size', lo=0, hi=5), 1: 20.0, 2: 0.5}[st]
    for s in settings:
        kw[s] = h.modes(s, (1, 1), 0, SETTINGS[s])
    if stops:
        kw['sl_stop'] = h.real('sl', lo=0, hi=1)
        kw['tp_stop'] = h.real('tp', lo=0, hi=1)
        kw['sl_trail'] = True
        kw['upon_stop_exit'] = h.modes('use', (1, 1), 0, 3)
        kw['stop_exit_price'] = h.modes('sep', (1, 1), 0, 3)
    cash = 1000.0 if big else h.real('cash', gt=0)
    kw['init_cash'] = cash
    pf1, e1 = h.call(lambda: h.vbt.Portfolio.from_signals(frame(h, close, ncol), **a1, **kw))
    if via == 'func':
        pf2, e2 = h.call(lambda: h.vbt.Portfolio.from_signals(frame(h, close, ncol), signal_func_nb=h.njit(sigfunc(h, mode == 'ls')),
                                                              signal_args=tuple(a2), **kw))
    else:
        def sl(c):
            return c.curr_stop, c.curr_trail
        pf2, e2 = h.call(lambda: h.vbt.Portfolio.from_signals(frame(h, close, ncol), adjust_sl_func_nb=h.njit(sl), **a1, **kw))
    h.eq(e1, e2, 'both raise or neither')
    if e1 or e2:
        return
    same_records(h, pf1.order_records, pf2.order_records, False, glist, 'orders')
    same_records(h, pf1.log_records, pf2.log_records, False, glist, 'logs')


def prices(h, which, via, nanopen):
    """infinite prices and valuation prices in both signal engines"""
    n = 2
    close = h.floats2('close', (n, 1), gt=0, nan=True)
    kw = dict(price=math.inf if which[0] == '+' else -math.inf, val_price=math.inf if which[1] == '+' else -math.inf, log=True,
              size=h.real('size', gt=0), size_type=int(which[2]), init_cash=h.real('cash', gt=0),
              open=h.floats2('open', (n, 1), gt=0, nan=nanopen), ffill_val_price=which[3] == 'f', slippage=h.real('slip', lo=0, lt=1))
    fl = [h.masks('le', (n, 1)), h.masks('lx', (n, 1)), h.masks('se', (n, 1)), np.zeros((n, 1), dtype=bool)]
    pf1, e1 = h.call(lambda: h.vbt.Portfolio.from_signals(frame(h, close, 1), entries=fl[0], exits=fl[1], short_entries=fl[2], **kw))
    if via == 'func':
        pf2, e2 = h.call(lambda: h.vbt.Portfolio.from_signals(frame(h, close, 1), signal_func_nb=h.njit(sigfunc(h, True)),
                                                              signal_args=tuple(fl), **kw))
    else:
        def sl(c):
            return c.curr_stop, c.curr_trail
        pf2, e2 = h.call(lambda: h.vbt.Portfolio.from_signals(frame(h, close, 1), entries=fl[0], exits=fl[1], short_entries=fl[2],
                                                              adjust_sl_func_nb=h.njit(sl), **kw))
    h.eq(e1, e2, 'both raise or neither')
    if e1 or e2:
        return
    same_records(h, pf1.order_records, pf2.order_records, False, [[0]], 'orders')
    same_records(h, pf1.log_records, pf2.log_records, False, [[0]], 'logs')


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    for k, eng in enumerate(ENGINES):
        for st in range(6):
            t('orders', w=3, eng=eng, n=2 if st % 4 == k or not q else 1, ncol=1, st=st, d=2 if st not in (2,) else 0)
        t('orders', w=3, eng=eng, n=2, ncol=1, st=(0, 1, 4, 5)[k], d=0, size='sgn', nanclose=True)
        t('orders', w=3, eng=eng, n=2, ncol=1, st=(1, 4, 5, 0)[k], d=0, size='sgn', nanclose=True, names=('ffill',))
        for names in (('costs',), ('limits',), ('lock',), ('log',)):
            t('orders', w=2, eng=eng, n=1 if names[0] in ('costs', 'limits') else 2, ncol=1, st=0, names=names, size='sgn')
        for pinf in '+-':
            t('orders', w=2, eng=eng, n=2, ncol=1, st=0, pinf=pinf, size='sgn')
        t('orders', w=4, eng=eng, n=2, ncol=2, st=0, size='row1', ctx=True, d=0)
        t('orders', w=4, eng=eng, n=2, ncol=1, st=0, ctx=True)
        t('orders', w=4, eng=eng, n=2, ncol=1, st=0, mask=True, size='sgn', ctx=True)
        t('orders', w=4, eng=eng, n=2, ncol=2, st=(0, 1, 0, 5)[k], mask=True, size='row1', groups='ab', sharing=True, d=0)
        for g in ('ab', 'a|b'):
            for sh in (False, True):
                t('orders', w=3, eng=eng, n=1, ncol=2, st=0, groups=g, sharing=sh, perm=sh, size='any' if sh else 'sgn')
        t('orders', w=6, eng=eng, n=2, ncol=2, st=(0, 5, 1, 4)[k], groups='ab', sharing=True, size='row1', d=0, ctx=True, update=k % 2 == 0)
        t('orders', w=6, eng=eng, n=2, ncol=2, st=0, groups='ab', sharing=False, size='row1', d=0, ctx=True)
        for g in ('a|bc', 'ab|c'):
            t('orders', w=3, eng=eng, n=1, ncol=3, groups=g, sharing=True, perm=True, size='sgn', d=0)
        t('orders', w=6, eng=eng, n=2, ncol=3, groups='a|bc', sharing=True, size='row1', d=0, mask=k > 1)
        t('orders', w=2, eng=eng, n=2, ncol=1, st=0, df=False, size='sgn')
    for via in ('func', 'adjust'):
        for st in (0, 1, 2):
            t('signals', w=3, mode='ls', n=2, ncol=1, settings=('accumulate', 'upon_opposite_entry'), st=st, big=st != 0, via=via)
        t('signals', w=3, mode='ls', n=2, ncol=1, settings=('upon_long_conflict', 'upon_dir_conflict'), big=True, via=via)
        t('signals', w=3, mode='ls', n=2, ncol=1, settings=('upon_short_conflict', 'upon_opposite_entry'), big=True, via=via)
        t('signals', w=3, mode='dir', n=2, ncol=1, settings=('accumulate', 'upon_opposite_entry'), via=via)
        t('signals', w=3, mode='dir', n=2, ncol=2, via=via, big=True)
        t('signals', w=5, mode='ls', n=2, ncol=1, stops=True, via=via, big=True, settings=('accumulate',))
        for seq in ('default', 'reversed', 'auto'):
            t('signals', w=5, mode='ls', n=2, ncol=2, groups='ab', sharing=True, seqtype=seq, via=via, big=True, update=seq == 'reversed')
            t('signals', w=5, mode='dir', n=2, ncol=2, groups='ab', sharing=True, seqtype=seq, via=via, big=True, st=1)
        for k, which in enumerate(('++0f', '--0f', '+-1f', '-+1f', '+-1n', '++1n', '--1f')):
            t('prices', which=which, via=via, nanopen=which[0] == '-')
    return out
