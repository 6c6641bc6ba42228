"""C13: causal operations never look ahead: same data up to row t, arbitrary different data after it, same results up to t."""
import math
import numpy as np
from checks import ops
from checks.sim import close_setup, frame

CAUSAL = [k for k, v in ops.OPS.items() if v[2]]
PROPERTY = 'C13'
sym_setup = close_setup
BUDGET = {'quick': 240, 'thorough': 800}
BOUNDS = dict(rows='3 and 4, cut after the first 1..3 rows; simulations: 2 and 3 rows, cut after 1 and 2', columns='1, simulations also 2',
              simulations='orders of every size type and price mode, shared cash with automatic call sequence, signals with stops, order '
              'functions, flexible order functions; the run over all rows against the run that ends at the cut', operations='%d causal operations (accessors, returns, signals, indicators)' % len(CAUSAL),
              values='all reals (positive where prices), NaN patterns where the operation takes them; the two suffixes are independent')
VALIDATE_S = dict(quick=25, thorough=90)


def prefix(h, name, n, cut):
    ins, fn, _, _, _ = ops.OPS[name]
    A = [ops.mk(h, kd, 'abc'[i], (n, 1)) for i, kd in enumerate(ins)]
    B = []
    for i, kd in enumerate(ins):
        b = ops.mk(h, kd, 'xyz'[i], (n, 1))
        b[:cut] = A[i][:cut]
        B.append(b)
    r1, e1 = h.call(lambda: ops.cols(fn(h, *[h.sr(a[:, 0]) for a in A]), 1, n))
    r2, e2 = h.call(lambda: ops.cols(fn(h, *[h.sr(b[:, 0]) for b in B]), 1, n))
    h.check(e1 is None and e2 is None, 'raises %s/%s' % (e1, e2))
    if e1 or e2:
        return
    x, y = r1[0], r2[0]
    h.check(len(x) % n == 0 and len(x) == len(y), 'one value per row')
    for k in range(len(x) // n):
        h.eq(x[k * n:k * n + cut], y[k * n:k * n + cut], 'rows before %d, output %d' % (cut, k))


def cutp(P, n, cut):
    return {k: v[:cut] if isinstance(v, np.ndarray) and v.ndim == 2 and v.shape[0] == n else v for k, v in P.items()}


def before(h, make, n, ncol, cut, logs=True, stats=('cash', 'assets', 'value', 'returns')):
    """make(k): the simulation over the first k rows. The run over all rows must agree with the run that ends at the cut."""
    full, e1 = h.call(lambda: make(n))
    part, e2 = h.call(lambda: make(cut))
    h.check(e2 is None, 'the run that ends at the cut raises %s' % e2)
    h.check(e1 is None, 'the full run raises %s' % e1)
    if e1 or e2:
        return
    for nm in ('order_records',) + (('log_records',) if logs else ()):
        a, b = getattr(full, nm), getattr(part, nm)
        a = [r for r in a if int(r['idx']) < cut]
        h.eq(len(a), len(b), '%s before the cut' % nm)
        if len(a) != len(b):
            return
        for i, (x, y) in enumerate(zip(a, b)):
            for f in b.dtype.names:
                if f not in ('id', 'order_id'):     # numbered through all columns
                    h.eq(x[f], y[f], '%s %d %s' % (nm, i, f))
    for nm in stats:
        x = np.asarray(getattr(full, nm)().to_numpy(), dtype=object).reshape(n, -1)[:cut]
        y = np.asarray(getattr(part, nm)().to_numpy(), dtype=object).reshape(cut, -1)
        for i in range(x.shape[0]):
            for j in range(x.shape[1]):
                h.eq(x[i, j], y[i, j], '%s row %d' % (nm, i))


def orders(h, n, cut, st, d=2, price=None, vp=None, nan=False, fees=False, lock=False):
    close = h.floats2('close', (n, 1), gt=0)
    P = dict(size=h.floats2('size', (n, 1), lo=None if d == 2 else 0, nan=nan), size_type=st, direction=d, log=True)
    if price == 'own':
        P['price'] = h.floats2('price', (n, 1), gt=0)
    elif price is not None:
        P['price'] = price
    if vp is not None:
        P['val_price'] = vp
    if fees:
        P.update(fees=h.floats2('fees', (n, 1), lo=0, hi=0.5), slippage=h.floats2('slip', (n, 1), lo=0, hi=0.5))
    if lock:
        P['lock_cash'] = True
    cash = h.real('cash', gt=0)
    before(h, lambda k: h.vbt.Portfolio.from_orders(frame(h, close[:k], 1), init_cash=cash, **cutp(P, n, k)), n, 1, cut)


def group(h, n, cut, st, seq, d=2, update=False):
    close = h.floats2('close', (n, 2), gt=0)
    sizes = {0: [[2.0, 1.0], [-1.0, 3.0]], 1: [[20.0, -10.0], [-15.0, 30.0]], 2: [[0.5, 0.25], [-0.5, 0.75]],
             3: [[2.0, -1.0], [-1.0, 3.0]], 4: [[20.0, -10.0], [-15.0, 30.0]], 5: [[0.5, -0.25], [-0.5, 0.75]]}[st]
    size = np.array([sizes[i % 2] for i in range(n)])
    if h.sym:
        size = h.array(size)
    cash = h.real('cash', lo=10)
    P = dict(size=size, size_type=st, direction=d, log=True, update_value=update)

    def make(k):
        return h.vbt.Portfolio.from_orders(frame(h, close[:k], 2), init_cash=cash, group_by=np.array([0, 0]), cash_sharing=True,
                                           call_seq=seq, **cutp(P, n, k))
    before(h, make, n, 2, cut, stats=('cash', 'value'))


def sigs(h, n, cut, acc, opp, mode, st=0, free=True):
    close = h.floats2('close', (n, 1), gt=0)
    names = ('entries', 'exits', 'short_entries', 'short_exits')
    P = {k: h.masks(k, (n, 1)) for k in names}
    if not free:
        z = np.zeros((n, 1), dtype=bool)
        P['exits'], P['short_exits'] = z, z
    P.update(size={0: 2.0, 1: 5.0, 2: 0.4}[st], size_type=st, accumulate=acc, upon_long_conflict=mode, upon_short_conflict=mode,
             upon_dir_conflict=mode, upon_opposite_entry=opp, log=True)
    cash = h.real('cash', gt=0)
    before(h, lambda k: h.vbt.Portfolio.from_signals(frame(h, close[:k], 1), init_cash=cash, **cutp(P, n, k)), n, 1, cut)


def stops(h, n, cut, pos, kinds, exit_price=0, entry_price=0, engine='static', close_only=False):
    """an entry on the first bar, then stops at levels that differ bar by bar"""
    P = {}
    close = h.floats2('close', (n, 1), gt=0)
    if not close_only:
        lo, hi = h.floats2('low', (n, 1), gt=0), h.floats2('high', (n, 1), gt=0)
        op = h.floats2('open', (n, 1), gt=0)
        for i in range(n):
            for x in (close, op):
                h.assume(lo[i, 0] <= x[i, 0])
                h.assume(x[i, 0] <= hi[i, 0])
        P.update(open=op, high=hi, low=lo)
    first = np.zeros((n, 1), dtype=bool)
    first[0] = True
    z = np.zeros((n, 1), dtype=bool)
    P.update(entries=first if pos == 'long' else z, exits=z, short_entries=first if pos == 'short' else z, short_exits=z, size=1.0,
             stop_entry_price=entry_price, stop_exit_price=exit_price)
    if 'sl' in kinds:
        P['sl_stop'] = h.floats2('sl', (n, 1), lo=0, hi=0.9)
    if 'trail' in kinds:
        P['sl_stop'] = h.floats2('sl', (n, 1), lo=0, hi=0.9)
        P['sl_trail'] = True
    if 'tp' in kinds:
        P['tp_stop'] = h.floats2('tp', (n, 1), lo=0, hi=0.9)
    kk = {}
    if engine == 'callback':
        def sl(c):
            return c.curr_stop, c.curr_trail

        def tp(c):
            return c.curr_stop
        kk = dict(adjust_sl_func_nb=h.njit(sl), adjust_tp_func_nb=h.njit(tp))
    cash = 10 * close[0, 0]
    before(h, lambda k: h.vbt.Portfolio.from_signals(frame(h, close[:k], 1), init_cash=cash, **kk, **cutp(P, n, k)), n, 1, cut, logs=False)


def funcs(h, n, cut, mode, what):
    """order functions that see their context: everything in it is known at that bar"""
    nbp = h.vbt.portfolio.nb
    close = h.floats2('close', (n, 1), gt=0)
    size = h.floats2('size', (n, 1), lo=-10, hi=10)
    cash = h.real('cash', lo=1)

    def value(c, size):
        return nbp.order_nb(size[c.i, c.col], math.inf, 4)

    def last(c, size):
        return nbp.order_nb(c.position_now - size[c.i, c.col] if c.i > 0 else 1.0, -math.inf if c.i > 0 else math.inf, 0)

    def returns(c, size):
        x = c.value_now / c.cash_now if c.cash_now > 0 else 1.0
        return nbp.order_nb(x * 1.0, math.inf, 0)

    def limit(c, size):
        return nbp.order_nb(c.cash_now * 0.5, math.inf, 1)
    if h.sym:
        f = dict(value=value, last=last, returns=returns, limit=limit)[what]
    else:
        order_nb = nbp.order_nb

        def value(c, size):
            return order_nb(size[c.i, c.col], math.inf, 4)

        def last(c, size):
            return order_nb(c.position_now - size[c.i, c.col] if c.i > 0 else 1.0, -math.inf if c.i > 0 else math.inf, 0)

        def returns(c, size):
            x = c.value_now / c.cash_now if c.cash_now > 0 else 1.0
            return order_nb(x * 1.0, math.inf, 0)

        def limit(c, size):
            return order_nb(c.cash_now * 0.5, math.inf, 1)
        f = dict(value=value, last=last, returns=returns, limit=limit)[what]
    fn = h.njit(f)

    def make(k):
        return h.vbt.Portfolio.from_order_func(frame(h, close[:k], 1), fn, size[:k], init_cash=cash, row_wise=mode == 'row',
                                               ffill_val_price=True)
    before(h, make, n, 1, cut, logs=False)


def flex(h, n, cut, row):
    """a flexible function that rebalances the two columns of a group from the values it sees, in an order that depends on them"""
    nbp = h.vbt.portfolio.nb
    order_nb, nothing = (nbp.order_nb, nbp.order_nothing_nb) if not h.sym else (lambda *a: nbp.order_nb(*a), lambda: nbp.order_nothing_nb())
    close = h.floats2('close', (n, 2), gt=0)
    size = h.floats2('size', (n, 2), lo=0, hi=1)
    cash = h.real('cash', lo=1)

    def f(c, size):
        k = c.call_idx
        if k >= 2:
            return -1, nothing()
        col = k if c.last_value[c.group] > 100.0 else 1 - k
        return col, order_nb(size[c.i, col], math.inf, 0)
    fn = h.njit(f)

    def make(k):
        return h.vbt.Portfolio.from_order_func(frame(h, close[:k], 2), fn, size[:k], init_cash=cash, row_wise=row, flexible=True,
                                               group_by=np.array([0, 0]), cash_sharing=True)
    before(h, make, n, 2, cut, logs=False, stats=('cash', 'value'))


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=2, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    sizes = [(2, 1)] if q else [(2, 1), (3, 1), (3, 2)]
    for n, cut in sizes:
        for st in range(6):
            t('orders', n=n, cut=cut, st=st, d=2)
            t('orders', n=n, cut=cut, st=st, d=1, fees=True)
            t('group', n=n, cut=cut, st=st, seq='auto', w=4)
        for st in (0, 1, 4):
            t('orders', n=n, cut=cut, st=st, price='own', nan=True)
            t('orders', n=n, cut=cut, st=st, price=-math.inf)
            t('orders', n=n, cut=cut, st=st, vp=-math.inf)
            t('orders', n=n, cut=cut, st=st, lock=True)
            t('group', n=n, cut=cut, st=st, seq='auto', update=True, w=4)
            t('group', n=n, cut=cut, st=st, seq='reversed', w=4)
        for acc in (0, 1) if q else range(4):
            for opp in (1, 3) if q else range(5):
                t('sigs', n=n, cut=cut, acc=acc, opp=opp, mode=(acc + opp) % 5, w=4)
        for st in (1, 2):
            t('sigs', n=n, cut=cut, acc=0, opp=2 if st == 2 else 4, mode=0, st=st, free=False, w=4)
        for what in ('value', 'last', 'returns', 'limit'):
            for mode in ('col', 'row'):
                t('funcs', n=n, cut=cut, mode=mode, what=what)
        for row in (False, True):
            t('flex', n=n, cut=cut, row=row)
    for n, cut in [(3, 2), (2, 1)] if q else [(3, 2), (3, 1), (4, 2), (4, 3)]:
        for pos in ('long', 'short'):
            for kinds in (('sl',), ('tp',), ('trail',), ('sl', 'tp')):
                for engine in ('static', 'callback'):
                    t('stops', n=n, cut=cut, pos=pos, kinds=kinds, engine=engine, w=4)
                if n == 3 or not q:
                    t('stops', n=n, cut=cut, pos=pos, kinds=kinds, exit_price=3, entry_price=3, close_only=True)
    for name in CAUSAL:
        heavy = ops.OPS[name][3]
        n = 3 if q or heavy else 4
        for cut in ([n - 1] if q and heavy else [1, 2] if n == 3 else [1, 2, 3]):
            out.append(dict(fn='prefix', cfg=dict(name=name, n=2 if heavy == 2 and q else n, cut=1 if heavy == 2 and q else cut)))
    return out
