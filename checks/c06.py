"""C06: stop-loss, trailing-stop and take-profit exits fire when and where documented."""
import math
import numpy as np
from symx.harness import isnan
from checks.sim import sigfold, same_orders, frame, close_setup
from checks.c05 import mix

PROPERTY = 'C06'
sym_setup = close_setup
BUDGET = {'quick': 240, 'thorough': 800}
VALIDATE_S = dict(quick=14, thorough=60)
BOUNDS = dict(rows='up to 4', columns='1 and 2', engines='static and with callbacks', stops='any real >= 0 or NaN, per bar; trailing '
              'flag per bar', prices='every consistent OHLC bar (low <= open, close <= high), open/high/low also missing',
              settings='every stop entry price, exit price, exit mode, update mode, accumulation')
ASSUMPTIONS = ['a single order is executed by the real execute_order_nb (C01-C03 decide what it does)',
               'comparison tolerance (1e-9 relative) idealised to 0 (C38 decides those helpers)',
               'bars are consistent: low <= open, close <= high']


def bars(h, n, ncol=1, missing=(), first=True):
    o, hi, lo, c = (h.floats2(k, (n, ncol), gt=0) for k in ('open', 'high', 'low', 'close'))
    for i in range(n):
        for k in range(ncol):
            if 'low' not in missing:
                h.assume(lo[i, k] <= c[i, k])
            if 'high' not in missing:
                h.assume(hi[i, k] >= c[i, k])
            if 'open' not in missing:
                if 'low' not in missing:
                    h.assume(lo[i, k] <= o[i, k])
                if 'high' not in missing:
                    h.assume(hi[i, k] >= o[i, k])
            elif not ('low' in missing or 'high' in missing):
                h.assume(lo[i, k] <= hi[i, k])
    d = dict(open=o, high=hi, low=lo)
    for k in missing:
        d[k] = np.full((n, ncol), np.nan)
    return d, c


def go(h, n, P, close, cash, ncol=1, engine='static', adjust=None, funcs=None, given=None):
    """given: arguments in the form they are passed (the fold gets their numbers)"""
    kk = dict(P, **(given or {}))
    kk['entries'], kk['exits'] = kk.pop('long_entries'), kk.pop('long_exits')
    if engine == 'callback':
        def sl(c):
            return c.curr_stop, c.curr_trail

        def tp(c):
            return c.curr_stop
        fs = funcs or (sl, tp)
        kk['adjust_sl_func_nb'], kk['adjust_tp_func_nb'] = h.njit(fs[0]), h.njit(fs[1])
        if len(fs) > 2:
            kk['adjust_sl_args'] = kk['adjust_tp_args'] = fs[2]
    pf, exc = h.call(lambda: h.vbt.Portfolio.from_signals(frame(h, close, ncol), init_cash=cash, **kk))
    try:
        f = sigfold(h, n, [[c] for c in range(ncol)], [cash] * ncol, P, close, False, stops=True, adjust=adjust)
    except (ValueError, RuntimeError):
        h.check(exc is not None, 'an invalid order raises')
        return None, None
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return None, None
    same_orders(h, pf.order_records, f.orders)
    return pf, f


def signals(h, n, pos, later=False, ncol=1):
    """an entry on the first bar, then nothing (or arbitrary signals)"""
    z = np.zeros((n, ncol), dtype=bool)
    first = z.copy()
    first[0] = True
    d = dict(long_entries=first if pos == 'long' else z, long_exits=z, short_entries=first if pos == 'short' else z, short_exits=z)
    if later:
        for k in later:
            d[k] = mix(h, bool(d[k][0, 0]), h.masks(k, (n - 1, ncol)), n, ncol)
    return d


def fires(h, n, pos, kinds, exit_price=0, missing=(), engine='static', trail=False, slip=False):
    """one entry, one pair of stops: the first bar whose range reaches a level, loss before profit"""
    b, close = bars(h, n, missing=missing)
    P = dict(signals(h, n, pos), size=1.0, stop_exit_price=exit_price, **b)
    if 'sl' in kinds:
        P['sl_stop'] = h.real('sl', lo=0, hi=1 if pos == 'long' else None)
    if 'tp' in kinds:
        P['tp_stop'] = h.real('tp', lo=0, hi=1 if pos == 'short' else None)
    if trail:
        P['sl_trail'] = True
    if slip:
        P['slippage'] = h.real('slip', lo=0, hi=0.5)
    if exit_price == 2:
        P['price'] = h.floats2('price', (n, 1), gt=0)
        P['stop_entry_price'] = 3
    cash = 10 * close[0, 0] if exit_price != 2 else 10 * P['price'][0, 0]
    pf, f = go(h, n, P, close, cash, engine=engine)
    if f is None:
        return
    # the statement itself, on the orders
    orders = pf.order_records
    h.check(len(orders) >= 1, 'the entry fills')
    best = close[0, 0]
    done = None
    for i in range(1, n):
        c = close[i, 0]
        o = b['open'][i, 0]
        o = c if isnan(o) else o
        lo = b['low'][i, 0]
        lo = (o if o <= c else c) if isnan(lo) else lo
        hi = b['high'][i, 0]
        hi = (o if o >= c else c) if isnan(hi) else hi
        if 'sl' in kinds:
            level = best * (1 - P['sl_stop']) if pos == 'long' else best * (1 + P['sl_stop'])
            if (lo <= level) if pos == 'long' else (hi >= level):
                done = (i, o if (o <= level if pos == 'long' else o >= level) else level, c)
                break
        if 'tp' in kinds:
            level = close[0, 0] * (1 + P['tp_stop']) if pos == 'long' else close[0, 0] * (1 - P['tp_stop'])
            if (hi >= level) if pos == 'long' else (lo <= level):
                done = (i, o if (o >= level if pos == 'long' else o <= level) else level, c)
                break
        if trail:
            if pos == 'long' and hi > best:
                best = hi
            if pos == 'short' and lo < best:
                best = lo
    if done is None:
        h.eq(len(orders), 1, 'no exit when no level is reached')
        return
    i, price, c = done
    base = {0: price, 1: price, 2: P['price'][i, 0] if exit_price == 2 else None, 3: c}[exit_price]
    if not (base > 0):
        return
    if pos == 'short' and base > 7 * (close[0, 0] if exit_price != 2 else P['price'][0, 0]):
        return      # not affordable in full: decided by the fold
    h.eq(len(orders), 2, 'exactly one exit')
    if len(orders) != 2:
        return
    h.eq(int(orders['idx'][1]), i, 'fires on the first bar that reaches the level')
    h.eq(int(orders['side'][1]), 1 if pos == 'long' else 0, 'closes the position')
    s = 0.0 if exit_price == 0 or not slip else P['slippage']
    h.eq(orders['price'][1], base * (1 - s) if pos == 'long' else base * (1 + s), 'fill price')


def entry_price(h, pos, mode, update=False, vp=None):
    """which price the levels start from"""
    n = 2
    b, close = bars(h, n)
    P = dict(signals(h, n, pos), size=1.0, price=h.floats2('price', (n, 1), gt=0), slippage=h.real('slip', lo=0, hi=0.5),
             stop_entry_price=mode, sl_stop=h.real('sl', lo=0, hi=1), tp_stop=h.real('tp', lo=0, hi=1), **b)
    if vp is not None:
        P['val_price'] = h.floats2('val', (n, 1), gt=0)
    go(h, n, P, close, 10 * P['price'][0, 0])


def exit_mode(h, pos, engine='static'):
    """close / reduce / reverse on a stop, with and without accumulation; stop beats any signal of the bar"""
    n = 2
    c1 = {'long': 3.0, 'short': 8.0}[pos]
    close = h.array([[5.0], [c1]])
    size = h.array([[2.0], [h.real('size', lo=0, hi=5)]])
    P = dict(signals(h, n, pos, later=('long_entries', 'short_entries', 'long_exits')), size=size, sl_stop=0.1,
             upon_stop_exit=h.modes('use', (1, 1), 0, 3), accumulate=mix(h, 0, h.modes('acc', (1, 1), 0, 3), n),
             stop_exit_price=h.modes('sep', (1, 1), 0, 3), slippage=0.25)
    go(h, n, P, close, 1000.0, engine=engine)


def updates(h, pos, what, engine='static', rows=3):
    """a second acquisition keeps, overrides or removes the stops; reductions leave them; reversals start new ones"""
    n = rows
    close = h.floats2('close', (n, 1), gt=0, hi=100)
    z = np.zeros((n, 1), dtype=bool)
    own, opp = ('long_entries', 'short_entries') if pos == 'long' else ('short_entries', 'long_entries')
    d = dict(long_entries=z, long_exits=z, short_entries=z, short_exits=z)
    a = z.copy()
    a[0] = True
    if what in ('add', 'both'):
        a[1] = True
    d[own] = a
    if what == 'reverse' or what == 'reduce':
        b = z.copy()
        b[1] = True
        d[opp if what == 'reverse' else own.replace('entries', 'exits')] = b
    sl = h.array([[h.real('sl%d' % i, lo=0, hi=1, nan=True) if i < 2 else 0.5] for i in range(n)])
    tp = h.array([[h.real('tp%d' % i, lo=0, hi=1, nan=True) if i < 2 else 0.5] for i in range(n)])
    k = {'sl': dict(sl_stop=sl), 'tp': dict(tp_stop=tp), 'both': dict(sl_stop=sl, tp_stop=tp)}
    P = dict(d, size=1.0, accumulate={'add': 1, 'reduce': 1, 'reverse': 0, 'both': 2}[what], upon_stop_update=h.modes('upd', (1, 1), 0, 2),
             sl_trail=np.array([[False], [True], [False]][:n]) if what != 'reduce' else np.array([[True]] * n))
    for kind in ('sl', 'tp'):
        PP = dict(P, **k[kind])
        go(h, n, PP, close, 1000.0, engine=engine)


def adjusted(h, pos, kind):
    """adjustment functions see the stop as it stands and replace it"""
    n = 3
    b, close = bars(h, n)
    new = h.floats('new', n, lo=0, hi=1)
    seen = h.empty((n, 6))
    seen[:] = -1.0
    if kind == 'sl':
        def sl(c, new, seen):
            seen[c.i, 0] = c.position_now
            seen[c.i, 1] = c.init_i
            seen[c.i, 2] = c.init_price
            seen[c.i, 3] = c.curr_price
            seen[c.i, 4] = c.curr_stop
            seen[c.i, 5] = c.val_price_now
            if c.position_now != 0 and c.i == 2:
                return new[c.i], True
            return c.curr_stop, c.curr_trail

        def tp(c, new, seen):
            return c.curr_stop
    else:
        def sl(c, new, seen):
            return c.curr_stop, c.curr_trail

        def tp(c, new, seen):
            seen[c.i, 0] = c.position_now
            seen[c.i, 1] = c.init_i
            seen[c.i, 2] = c.init_price
            seen[c.i, 4] = c.curr_stop
            seen[c.i, 5] = c.val_price_now
            if c.position_now != 0:
                return new[c.i]
            return c.curr_stop
    exp = {}

    def adjust(i, c, pos, val, stop):
        base = stop.get(kind + '_init', (-1, math.nan))
        exp[i] = (pos, base[0], base[1], stop.get('sl_price', math.nan), stop.get(kind, math.nan), val)
        if pos != 0:
            if kind == 'sl' and i == 2:
                stop['sl'], stop['trail'] = new[i], True
            if kind == 'tp':
                stop['tp'] = new[i]
    P = dict(signals(h, n, pos), size=1.0, sl_stop=h.real('sl', lo=0, hi=1) if kind == 'sl' else math.nan,
             tp_stop=0.5 if kind == 'tp' else math.nan, **b)
    pf, f = go(h, n, P, close, 10 * close[0, 0], engine='callback', adjust=adjust, funcs=(sl, tp, (new, seen)))
    if f is None:
        return
    for i in range(n):
        for k in range(6):
            if k == 3 and kind == 'tp':
                continue
            h.eq(seen[i, k], exp[i][k], 'adjustment context field %d' % k)


def percol(h, engine='static'):
    """stops belong to their own column; stop arguments given per row or column"""
    n, ncol = 2, 2
    close = h.floats2('close', (n, ncol), gt=0, hi=100)
    z = np.zeros((n, ncol), dtype=bool)
    P = dict(long_entries=np.array([[True, False], [False, False]]), long_exits=z, short_entries=np.array([[False, True], [False, False]]),
             short_exits=z, size=1.0, sl_stop=h.floats2('sl', (1, ncol), lo=0, hi=1), tp_stop=h.floats2('tp', (n, 1), lo=0, hi=1),
             stop_exit_price=h.modes('sep', (n, 1), 0, 3))
    go(h, n, P, close, 1000.0, ncol=2, engine=engine)


NAMES = dict(stop_entry_price=('valprice', 'price', 'fillprice', 'close'), stop_exit_price=('stoplimit', 'stopmarket', 'price', 'close'),
             upon_stop_exit=('close', 'closereduce', 'reverse', 'reversereduce'), upon_stop_update=('keep', 'override', 'overridenan'))


def named(h, pos, which):
    """stop modes given by name (in any case) mean what their numbers mean"""
    n = 2
    k = h.choice('k', tuple(range(len(NAMES[which]))))
    v = NAMES[which][k]
    v = {'lower': v, 'upper': v.upper(), 'list': [v.capitalize()]}[h.choice('form', ('lower', 'upper', 'list'))]
    close = h.array([[5.0], [h.real('c1', gt=0, hi=100)]] + ([[4.0]] if which == 'upon_stop_update' else []))
    n = close.shape[0]
    P = dict(signals(h, n, pos), size=2.0, sl_stop=0.25, slippage=0.125)
    if which == 'stop_entry_price' or which == 'stop_exit_price':
        P['price'] = h.array([[6.0], [h.real('p1', gt=0, hi=100)]])
        P['val_price'] = h.array([[4.5], [4.5]])
    if which == 'upon_stop_exit':
        P['accumulate'] = 1
        P['size'] = h.array([[2.0], [1.0]])
    if which == 'upon_stop_update':
        own = 'long_entries' if pos == 'long' else 'short_entries'
        P[own] = np.array([[True], [True], [False]])
        P['accumulate'] = 1
        P['sl_stop'] = h.array([[0.5], [h.real('sl', lo=0, hi=1, nan=True)], [math.nan]])
    P[which] = k
    go(h, n, P, close, 1000.0, given={which: v})


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    for pos in ('long', 'short'):
        for kinds in ('sl', 'tp', ('sl', 'tp')):
            t('fires', w=3, n=3, pos=pos, kinds=kinds)
            t('fires', w=2, n=2, pos=pos, kinds=kinds, engine='callback')
            for x in (1, 2, 3):
                t('fires', w=3, n=2, pos=pos, kinds=kinds, exit_price=x, slip=True, engine='callback' if x == 1 else 'static')
            for m in (('open',), ('low',), ('high',), ('open', 'low', 'high'), ('low', 'high')):
                t('fires', w=2, n=2, pos=pos, kinds=kinds, missing=m, engine='callback' if len(m) == 2 else 'static')
        for kinds in ('sl', ('sl', 'tp')):
            t('fires', w=5, n=3, pos=pos, kinds=kinds, trail=True)
            t('fires', w=5, n=3, pos=pos, kinds=kinds, trail=True, engine='callback', missing=('open',))
        t('fires', w=5, n=3 if q else 4, pos=pos, kinds='sl', trail=True, missing=('open', 'high', 'low'))
        for mode in range(4):
            t('entry_price', pos=pos, mode=mode)
        t('entry_price', pos=pos, mode=0, vp=True)
        for eng in ('static', 'callback'):
            t('exit_mode', w=4, pos=pos, engine=eng)
            for what in ('add', 'both', 'reduce', 'reverse'):
                t('updates', w=6, pos=pos, what=what, engine=eng)
        for kind in ('sl', 'tp'):
            t('adjusted', w=4, pos=pos, kind=kind)
        for which in NAMES:
            t('named', w=2, pos=pos, which=which)
    t('percol', w=4)
    t('percol', w=4, engine='callback')
    return out
