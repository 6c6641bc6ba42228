"""C40: call sequences are permutations per group; automatic sequencing orders by approximated value, so sells precede buys."""
import itertools
import math
import numpy as np
from symx.harness import isnan, isinf, or_, and_, not_
from checks.sim import fold, same_orders, same_logs, frame, el
from checks.order_common import account, order, close_setup, enums, POS

PROPERTY = 'C40'
sym_setup = close_setup
BUDGET = {'quick': 240, 'thorough': 800}
VALIDATE_S = dict(quick=14, thorough=60)
BOUNDS = dict(columns='up to 5 (built sequences), up to 3 per group (sorting)', rows='up to 2', numbers='all reals; sizes also NaN and '
              'infinite', shuffles='every outcome of the random source')
ASSUMPTIONS = ['comparison tolerance (1e-9 relative) idealised to 0 (C38 decides those helpers)',
               'target-percent allocation: no costs, valued at the order price, long only, no minimum size']
LAYOUTS = [(1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (1, 3), (1, 1, 1), (1, 2, 1), (2, 1, 2), (4,), (5,), (1, 1, 1, 2)]


def is_perm(h, seq, lens, label):
    for i in range(seq.shape[0]):
        f = 0
        for k in lens:
            h.eq(sorted(int(x) for x in seq[i, f:f + k]), list(range(k)), label + ': a permutation of each group')
            f += k


def built(h, jit, kind, rows):
    from vectorbt.portfolio import nb
    e = enums()
    lens = h.choice('lens', LAYOUTS if kind != 'Random' else [l for l in LAYOUTS if sum(l) <= 3])
    if kind == 'Random':
        h.rng()
    f = nb.build_call_seq_nb if jit else nb.build_call_seq
    out, exc = h.call(lambda: f((rows, sum(lens)), np.array(lens), getattr(e.CallSeqType, kind)))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    h.eq(out.shape, (rows, sum(lens)), 'shape')
    is_perm(h, out, lens, kind)
    if kind != 'Random':
        exp = [x for k in lens for x in (range(k) if kind == 'Default' else reversed(range(k)))]
        for i in range(rows):
            h.eq([int(x) for x in out[i]], exp, kind)


def shuffled(h, rows):
    """shuffling permutes within groups whatever the random source returns and whatever permutation it starts from"""
    from vectorbt.portfolio import nb
    lens = h.choice('lens', [(2,), (3,), (1, 2), (2, 1), (2, 2)] if rows == 1 else [(2,), (1, 2), (2, 1)])
    a = np.array([[x for g, k in enumerate(lens) for x in h.choice('p%d_%d' % (i, g), list(itertools.permutations(range(k))))]
                  for i in range(rows)], dtype=np.int64)
    h.rng()
    a = np.asfortranarray(a)
    nb.shuffle_call_seq_nb(a, np.array(lens))
    is_perm(h, a, lens, 'shuffled')


def approx(h, direction, size_type, pos, size='fin'):
    """the approximated value has the sign of the trade, and is its value when it fills completely at the valuation price"""
    from vectorbt.portfolio import nb
    e = enums()
    st = account(h, pos, other=size_type == 2)
    st = st._replace(val_price=h.real('val_price', gt=0), value=h.real('value', gt=0))
    o = order(h, direction, size_type, limits=False, costs=False, partial=False,
              size={'fin': None, 'inf': math.inf, '-inf': -math.inf}[size])
    v = nb.approx_order_value_nb(o.size, o.size_type, o.direction, st.cash, st.position, st.free_cash, st.val_price, st.value)
    res, exc = h.call(lambda: nb.execute_order_nb(st, o))
    if exc:
        h.check(exc == 'ValueError' and size != 'fin', 'raises %s' % exc)
        return
    ns, r = res
    if r.status == e.OrderStatus.Filled:
        if r.side == e.OrderSide.Buy:
            h.check(v > 0 if size_type != 2 else v >= 0, 'a buy has a positive approximated value')
        else:
            h.check(v < 0 if size_type != 2 else v <= 0, 'a sell has a negative approximated value')
    if size != 'fin':
        return
    o2 = o._replace(price=st.val_price)
    ns, r = nb.execute_order_nb(st, o2)
    if r.status == e.OrderStatus.Filled:
        got = r.size * st.val_price * (1 if r.side == e.OrderSide.Buy else -1)
        if size_type == 2 and (pos == 'short' or st.free_cash != st.cash or o.size > 1 or o.size < -1):
            return
        h.eq(v, got, 'value of a completely filled order')


def value_of(P, i, c, cash, pos, free, val, value):
    s, t, d = el(P['size'], i, c), el(P['size_type'], i, c), el(P['direction'], i, c)
    if d == 1:
        s = -s
    held = pos * val
    if t == 0:
        return s * val
    if t == 1:
        return s
    if t == 3:
        return s * val - held
    if t == 4:
        return s - held
    if t == 5:
        return s * value - held
    raise ValueError


def check_sorted(h, seq, vals, label):
    for a, b in zip(seq, seq[1:]):
        x, y = vals[a], vals[b]
        if isnan(x):
            h.check(isnan(y), label + ': unknown values come last')
        elif not isnan(y):
            h.check(x <= y, label + ': ascending order value')


def auto(h, n, ncol, groups, st, d, vp=math.inf, nan=False, size='any', update=False, mixed=False):
    """from_orders(call_seq='auto'): the sequence used is a permutation sorted by order value, and the simulation follows it"""
    close = h.floats2('close', (n, ncol), gt=0, nan=False)
    if size == 'any':
        sz = h.floats2('size', (n, ncol)) if nan else h.floats2('size', (n, ncol), nan=False, inf='')
    elif size == 'unit':
        sz = h.floats2('size', (n, ncol), lo=0, hi=1)
    elif size == 'last':
        sz = start(h, n, ncol, st)
    if mixed:
        st = np.array([[(0, 1, 5)[c % 3] for c in range(ncol)]] * n)
        d = np.array([[(2, 1, 0)[c % 3] for c in range(ncol)]] * n)
    cash = h.real('cash', gt=0)
    lens = groups
    gb = np.repeat(np.arange(len(lens)), lens)
    glist = [[c for c in range(ncol) if gb[c] == g] for g in range(len(lens))]
    P = dict(size=sz, size_type=st, direction=d, val_price=vp, log=True)
    pf, exc = h.call(lambda: h.vbt.Portfolio.from_orders(frame(h, close, ncol), init_cash=cash, cash_sharing=True, group_by=gb,
                                                         call_seq='auto', attach_call_seq=True, update_value=update, **P))
    if exc:
        seq = None
    else:
        seq = np.asarray(pf.call_seq)
        h.eq(seq.shape, (n, ncol), 'shape of the sequence')
        is_perm(h, seq, lens, 'auto')

    def order_of(i, cols, c_now, f_now, value, pos, val, PP):
        vals = [value_of(PP, i, c, c_now, pos[c], f_now, val[c], value) for c in cols]
        if seq is None:
            return sorted(range(len(cols)), key=lambda k: 0)
        s = [int(x) for x in seq[i, cols]]
        check_sorted(h, s, vals, 'auto')
        return s
    try:
        f = fold(h, n, glist, [cash] * len(lens), P, close, True, auto=order_of, update=update)
    except (ValueError, RuntimeError):
        h.check(exc is not None, 'an invalid order raises')
        return
    h.check(exc is None, 'raises %s' % exc)
    if exc is None:
        same_orders(h, pf.order_records, f.orders)


def start(h, n, ncol, st):
    """a fixed first row that opens positions, arbitrary later rows"""
    b = h.floats2('size', (n - 1, ncol), lo=-2, hi=2)
    k = {0: 3.0, 1: 5.0, 3: 3.0, 4: 5.0, 5: 0.3}[st]
    return h.array([[k / (c + 1) for c in range(ncol)]] + [[b[i, c] for c in range(ncol)] for i in range(n - 1)])


def callback(h, flex, row, ncol, st, d, select=True):
    """order functions sorting their call sequence in the segment"""
    import vectorbt as vbt
    from vectorbt.portfolio import nb
    n = 2
    sz = start(h, n, ncol, st)
    close = h.floats2('close', (n, ncol), gt=0, nan=False)
    cash = h.real('cash', gt=0)
    seen = np.full((n, ncol), -1, dtype=np.int64)
    cnt = np.zeros(n, dtype=np.int64)
    vals = h.array(np.zeros((n, ncol))) if h.sym else np.zeros((n, ncol))

    if flex:
        def seg(c, size, close, st, d, vals):
            for col in range(c.from_col, c.to_col):
                c.last_val_price[col] = close[c.i, col]
            seq = np.arange(c.group_len)
            out = np.empty(c.group_len, dtype=np.float64)
            nb.sort_call_seq_out_nb(c, size, st, d, out, seq)
            for k in range(c.group_len):
                vals[c.i, c.from_col + k] = out[k]
            return (seq,)

        def fn(c, seq, size, close, st, d, seen):
            if c.call_idx < c.group_len:
                col = c.from_col + seq[c.call_idx]
                seen[c.i, c.from_col + c.call_idx] = col
                return col, nb.order_nb(size=size[c.i, col], price=close[c.i, col], size_type=st, direction=d)
            return -1, nb.order_nothing_nb()
    else:
        def seg(c, size, close, st, d, vals):
            for col in range(c.from_col, c.to_col):
                c.last_val_price[col] = close[c.i, col]
            out = np.empty(c.group_len, dtype=np.float64)
            nb.sort_call_seq_nb(c, size, st, d, out)
            for k in range(c.group_len):
                vals[c.i, c.from_col + k] = out[k]
            return ()

        def fn(c, size, close, st, d, seen):
            seen[c.i, c.from_col + c.call_idx] = c.col
            return nb.order_nb(size=size[c.i, c.col], price=close[c.i, c.col], size_type=st, direction=d)
    gb = np.array([0] * (ncol - 1) + [1]) if ncol > 2 else np.array([0] * ncol)
    lens = [ncol - 1, 1] if ncol > 2 else [ncol]
    glist = [list(range(lens[0]))] + ([[ncol - 1]] if ncol > 2 else [])
    if h.sym:
        seg0 = seg
        np_ = h.vbt._symx_np

        def seg(c, *a):
            g = dict(seg0.__globals__)
            return types_fn(seg0, np_)(c, *a)
    pf, exc = h.call(lambda: vbt.Portfolio.from_order_func(
        frame(h, close, ncol), h.njit(fn), sz, close, st, d, seen, init_cash=cash, cash_sharing=True, group_by=gb, row_wise=row,
        flexible=flex, pre_segment_func_nb=h.njit(seg), pre_segment_args=(sz, close, np.asarray(st), np.asarray(d), vals)))
    e = enums()
    bad = [False]

    def order_of(i, cols, c_now, f_now, value, pos, val, PP):
        if exc:
            return list(range(len(cols)))
        v = [value_of(PP, i, c, c_now, pos[c], f_now, val[c], value) for c in cols]
        s = [int(x) - cols[0] for x in seen[i, cols]]
        h.eq(sorted(s), list(range(len(cols))), 'callback: permutation')
        check_sorted(h, s, v, 'callback')
        h.eq(list(vals[i, cols]), [v[k] for k in s], 'sorted order values')
        return s
    try:
        f = fold(h, n, glist, [cash] * len(lens), dict(size=sz, size_type=st, direction=d, price=close, min_size=0.0), close, True,
                 auto=order_of)
    except (ValueError, RuntimeError):
        h.check(exc is not None, 'an invalid order raises')
        return
    h.check(exc is None, 'raises %s' % exc)
    if exc is None:
        orders = f.orders
        if row:
            g = {c: k for k, gl in enumerate(glist) for c in gl}
            orders = sorted(orders, key=lambda o: (o[1], g[o[0]]))
        same_orders(h, pf.order_records, orders)


def types_fn(f, np_):
    import types
    return types.FunctionType(f.__code__, dict(f.__globals__, np=np_), f.__name__, f.__defaults__, f.__closure__)


def affordable(h, ncol, n, ones=False):
    """a target-percent allocation adding up to at most 100 % is filled completely on every row"""
    close = h.floats2('close', (n, ncol), gt=0, nan=False)
    w = h.floats2('w', (n, ncol), lo=0, hi=1)
    for i in range(n):
        s = 0.0
        for c in range(ncol):
            s = s + w[i, c]
        h.assume(s <= 1)
        if ones:
            h.assume(s == 1)
    cash = h.real('cash', gt=0)
    pf, exc = h.call(lambda: h.vbt.Portfolio.from_orders(
        frame(h, close, ncol), size=w, size_type='targetpercent', direction='longonly', init_cash=cash, cash_sharing=True,
        group_by=True, call_seq='auto', min_size=0.0, log=True))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    logs = pf.log_records
    pos = [0.0] * ncol
    now = cash
    k = 0
    for i in range(n):
        value = now
        for c in range(ncol):
            value = value + pos[c] * close[i, c]
        total = 0.0
        for _ in range(ncol):
            c = int(logs['col'][k])
            h.eq(logs['new_position'][k] * close[i, c], w[i, c] * value, 'the target is reached')
            pos[c] = logs['new_position'][k]
            now = logs['new_cash'][k]
            k += 1


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    for jit in (False, True):
        for kind in ('Default', 'Reversed', 'Random'):
            for rows in (1, 2):
                if kind != 'Random' or rows == 1:
                    t('built', jit=jit, kind=kind, rows=rows)
    t('shuffled', rows=1)
    t('shuffled', rows=2)
    for d in range(3):
        for st in range(6):
            for pos in POS[d]:
                for s in ('fin', 'inf', '-inf'):
                    if s == 'fin' or st == 0 and (d == 2 or pos or s == 'inf'):
                        t('approx', direction=d, size_type=st, pos=pos, size=s)
    for st in (0, 1, 3, 4, 5):
        t('auto', w=3, n=1, ncol=2, groups=(2,), st=st, d=2, nan=True)
        if st not in (3, 4) or not q:
            t('auto', w=12, n=2, ncol=2, groups=(2,), st=st, d=2 if st not in (4, 5) else 0, size='last')
        t('auto', w=3, n=1, ncol=2, groups=(2,), st=st, d=1)
    for g in ((3,), (1, 2), (2, 1)):
        t('auto', w=3, n=1, ncol=3, groups=g, st=0, d=2, size='unit')
        t('auto', w=3, n=1, ncol=3, groups=g, st=5, d=0, size='unit')
        t('auto', w=3, n=1, ncol=3, groups=g, st=None, d=None, mixed=True, size='unit')
    t('auto', w=3, n=2, ncol=2, groups=(2,), st=5, d=0, size='unit', vp=-math.inf)
    t('auto', w=3, n=2, ncol=2, groups=(2,), st=5, d=0, size='last', update=True)
    for flex in (False, True):
        for row in (False, True):
            t('callback', w=15, flex=flex, row=row, ncol=2, st=5, d=0)
            if not q or flex != row:
                t('callback', w=15, flex=flex, row=row, ncol=2, st=0, d=2)
            if not q:
                t('callback', w=15, flex=flex, row=row, ncol=3, st=5, d=0)
    t('affordable', ncol=2, n=1, w=2)
    t('affordable', ncol=3, n=1, w=3)
    t('affordable', ncol=2, n=2, w=7)
    t('affordable', ncol=2, n=2, w=7, ones=True)
    if not q:
        t('affordable', ncol=3, n=2, w=15)
        t('affordable', ncol=2, n=3, w=15)
    return out
