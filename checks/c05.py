"""C05: signals become orders by the documented conflict rules."""
import itertools
import math
import numpy as np
from checks.sim import sigfold, same_orders, same_logs, frame, close_setup, el

PROPERTY = 'C05'
sym_setup = close_setup
BUDGET = {'quick': 240, 'thorough': 800}
VALIDATE_S = dict(quick=14, thorough=60)
BOUNDS = dict(rows='2 and 3', columns='1 and 2', signals='every combination of the four flags on every row', settings='every value of '
              'accumulate, upon_long_conflict, upon_short_conflict, upon_dir_conflict, upon_opposite_entry, direction, size type, on '
              'every row', numbers='sizes (also NaN, infinite), prices, cash: all reals')
ASSUMPTIONS = ['a single order is executed by the real execute_order_nb (C01-C03 decide what it does)',
               'comparison tolerance (1e-9 relative) idealised to 0 (C38 decides those helpers)']


def row0(pos):
    return {'none': (0, 0, 0, 0), 'long': (1, 0, 0, 0), 'short': (0, 0, 1, 0)}[pos]


def mix(h, first, rest, n, ncol=1):
    """array whose first row is concrete and whose later rows come from rest"""
    if not h.sym:
        out = np.zeros((n, ncol), dtype=rest.dtype)
    else:
        out = h.empty((n, ncol))
    for c in range(ncol):
        out[0, c] = first
        for i in range(1, n):
            out[i, c] = rest[i - 1, c]
    return out


def run(h, n, ncol, P, close, cash, groups=None, sharing=False, **kw):
    gb = groups
    glist = [[c for c in range(ncol) if (gb[c] if gb else c) == g] for g in sorted(set(gb) if gb else range(ncol))]
    kk = dict(P)
    if gb:
        kk['group_by'] = np.array(gb)
    if 'call_seq' in kw:
        kk['call_seq'] = kw['call_seq']
        kk['attach_call_seq'] = True
    kk['entries'], kk['exits'] = P['long_entries'], P['long_exits']
    del kk['long_entries'], kk['long_exits']
    pf, exc = h.call(lambda: h.vbt.Portfolio.from_signals(frame(h, close, ncol), init_cash=cash, cash_sharing=sharing, **kk))
    auto = None
    if kw.get('call_seq') == 'auto':
        def auto(i, u, vals):
            if exc:
                return list(range(len(vals)))
            s = [int(x) for x in np.asarray(pf.call_seq)[i, glist[u]]]
            h.eq(sorted(s), list(range(len(vals))), 'permutation')
            for a, b in zip(s, s[1:]):
                h.check(vals[a] <= vals[b], 'ascending order value')
            return s
    seq = (lambda i, g: list(reversed(range(len(glist[g]))))) if kw.get('call_seq') == 'reversed' else None
    try:
        f = sigfold(h, n, glist, [cash] * ncol, P, close, sharing, seq=seq, auto=auto)
    except (ValueError, RuntimeError):
        h.check(exc is not None, 'an invalid order raises')
        return None, None
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return None, None
    same_orders(h, pf.order_records, f.orders)
    if P.get('log'):
        same_logs(h, pf.log_records, f.logs)
    return pf, f


def cell(h, pos, st, size='real', opp=None, acc=None):
    """one bar after an open position (or none): every flag combination under every setting"""
    n = 2
    close = h.array([[3.0], [5.0]])
    fl = [mix(h, bool(x), h.masks(nm, (n - 1, 1)), n) for x, nm in zip(row0(pos), ('le', 'lx', 'se', 'sx'))]
    sz = h.array([[1.0], [h.real('size', hi=100, nan=True) if size == 'real' else math.inf]])
    P = dict(long_entries=fl[0], long_exits=fl[1], short_entries=fl[2], short_exits=fl[3], size=sz,
             size_type=np.array([[0], [st]]), log=True,
             accumulate=mix(h, 0, h.modes('acc', (1, 1), 0, 3), n) if acc is None else acc,
             upon_long_conflict=h.modes('ulc', (1, 1), 0, 4), upon_short_conflict=h.modes('usc', (1, 1), 0, 4),
             upon_dir_conflict=h.modes('udc', (1, 1), 0, 4),
             upon_opposite_entry=h.modes('uoe', (1, 1), 0, 4) if opp is None else opp)
    run(h, n, 1, P, close, 1000.0)


def directions(h, d, n):
    """entries / exits translated by direction"""
    close = h.floats2('close', (n, 1), gt=0)
    cash = h.real('cash', gt=0)
    en, ex = h.masks('en', (n, 1)), h.masks('ex', (n, 1))
    P = dict(size=h.real('size', gt=0), direction=d, accumulate=h.modes('acc', (1, 1), 0, 3), log=False,
             upon_long_conflict=h.modes('ulc', (1, 1), 0, 4), upon_short_conflict=h.modes('usc', (1, 1), 0, 4),
             upon_dir_conflict=h.modes('udc', (1, 1), 0, 4), upon_opposite_entry=h.modes('uoe', (1, 1), 0, 4))
    pf, exc = h.call(lambda: h.vbt.Portfolio.from_signals(frame(h, close, 1), en, ex, init_cash=cash, **P))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    f = sigfold(h, n, [[0]], [cash], dict(P, entries=en, exits=ex), close, False)
    same_orders(h, pf.order_records, f.orders)


def history(h, n, acc, opp, mode, st=0):
    """several bars, every flag combination on each"""
    close = h.floats2('close', (n, 1), gt=0)
    fl = [h.masks(nm, (n, 1)) for nm in ('le', 'lx', 'se', 'sx')]
    P = dict(long_entries=fl[0], long_exits=fl[1], short_entries=fl[2], short_exits=fl[3], size=h.real('size', gt=0), size_type=st,
             accumulate=acc, upon_long_conflict=mode, upon_short_conflict=mode, upon_dir_conflict=mode, upon_opposite_entry=opp)
    cash = h.real('cash', gt=0)
    run(h, n, 1, P, close, cash)


NAMES = dict(direction=('longonly', 'shortonly', 'both'), accumulate=('disabled', 'both', 'addonly', 'removeonly'),
             upon_long_conflict=('ignore', 'entry', 'exit', 'adjacent', 'opposite'), upon_short_conflict=('ignore', 'entry', 'exit', 'adjacent', 'opposite'),
             upon_dir_conflict=('ignore', 'long', 'short', 'adjacent', 'opposite'),
             upon_opposite_entry=('ignore', 'close', 'closereduce', 'reverse', 'reversereduce'), size_type=('amount', 'value', 'percent'))


def holding(h, n, d, size):
    """a portfolio from holding enters wherever it can and never leaves"""
    close = h.floats2('close', (n, 2), gt=0, hi=50)
    cash = h.real('cash', gt=0)
    acc = h.choice('acc', (0, 1, 2, 3))
    P = dict(size=h.real('size', gt=0, hi=10) if size == 'real' else math.inf, direction=NAMES['direction'][d], accumulate=NAMES['accumulate'][acc])
    pf, exc = h.call(lambda: h.vbt.Portfolio.from_holding(frame(h, close, 2), init_cash=cash, **P))
    P.update(direction=d, accumulate=acc, entries=True, exits=False)
    try:
        f = sigfold(h, n, [[0], [1]], [cash] * 2, P, close, False)
    except (ValueError, RuntimeError):
        h.check(exc is not None, 'an invalid order raises')
        return
    h.check(exc is None, 'raises %s' % exc)
    if not exc:
        same_orders(h, pf.order_records, f.orders)


def named(h, which, lead):
    """settings given by name (in any case, with or without separators) mean what their numbers mean"""
    n = 2
    names = NAMES[which]
    k = h.choice('k', tuple(range(len(names))))
    form = h.choice('form', ('lower', 'upper', 'number', 'list'))
    v = names[k]
    v = {'lower': v, 'upper': v.upper(), 'number': k, 'list': [v.capitalize()]}[form]
    close = h.array([[3.0], [5.0]])
    fl = [mix(h, bool(x), h.masks(nm, (n - 1, 1)), n) for x, nm in zip(row0(lead), ('le', 'lx', 'se', 'sx'))]
    sz = h.real('size', gt=0, hi=10 if which != 'size_type' else 0.5)
    P = dict(long_entries=fl[0], long_exits=fl[1], short_entries=fl[2], short_exits=fl[3], size=sz, upon_opposite_entry=4)
    if which == 'direction':
        P = dict(entries=fl[0], exits=fl[1], size=sz)
        kk = P
    else:
        kk = dict(P, entries=fl[0], exits=fl[1])
        del kk['long_entries'], kk['long_exits']
    pf, exc = h.call(lambda: h.vbt.Portfolio.from_signals(frame(h, close, 1), init_cash=1000.0, **dict(kk, **{which: v})))
    try:
        f = sigfold(h, n, [[0]], [1000.0], dict(P, **{which: k}), close, False)
    except (ValueError, RuntimeError):
        h.check(exc is not None, 'an invalid order raises')
        return
    h.check(exc is None, 'raises %s' % exc)
    if not exc:
        same_orders(h, pf.order_records, f.orders)


def percol(h, form):
    """settings given per column or per row apply to their own bar"""
    n, ncol = 2, 2
    close = h.floats2('close', (n, ncol), gt=0)
    sh = {'col': (1, ncol), 'row': (n, 1)}[form]
    fl = h.array([[True] * ncol] * n) if h.sym else np.ones((n, ncol), dtype=bool)
    cash = h.real('cash', gt=0)
    P = dict(long_entries=np.array([[True, True], [False, True]]), long_exits=np.array([[False, False], [False, True]]),
             short_entries=np.array([[False, False], [True, False]]), short_exits=np.zeros((n, ncol), dtype=bool),
             size=h.floats2('size', sh, gt=0, hi=10), accumulate=h.modes('acc', sh, 0, 3), upon_long_conflict=h.modes('ulc', sh, 0, 4),
             upon_opposite_entry=h.modes('uoe', sh, 0, 4))
    h.assume(cash > 100 * (close[0, 0] + close[0, 1] + close[1, 0] + close[1, 1]))
    run(h, n, ncol, P, close, cash)


def single_col_setting(h, which):
    n, ncol = 2, 2
    close = h.array([[3.0, 2.0], [4.0, 5.0]])
    hi = dict(accumulate=3).get(which, 4)
    cash = 1000.0
    P = dict(long_entries=mix(h, True, h.masks('le', (1, ncol)), n, ncol), long_exits=mix(h, False, h.masks('lx', (1, ncol)), n, ncol),
             short_entries=np.array([[False, True], [True, False]]),
             short_exits=np.array([[False, True], [True, True]]), size=1.0, **{which: h.modes('m', (n, ncol), 0, hi)})
    run(h, n, ncol, P, close, cash)


def shared(h, seq, n, st, acc, opp):
    """groups sharing cash, with the default, reversed and automatic call sequence"""
    ncol = 2
    close = h.floats2('close', (n, ncol), gt=0)
    fl = [h.masks(nm, (n, ncol)) for nm in ('le', 'se')]
    z = np.zeros((n, ncol), dtype=bool)
    if n == 2:
        fl = [mix(h, True, h.masks('le', (1, ncol)), n, ncol), mix(h, False, h.masks('se', (1, ncol)), n, ncol)]
    size = {0: 2.0, 1: 5.0, 2: 0.4}[st]
    cash = h.real('cash', gt=0)
    P = dict(long_entries=fl[0], long_exits=z if n == 1 else mix(h, False, h.masks('lx', (1, ncol)), n, ncol), short_entries=fl[1], short_exits=z,
             size=size, size_type=st, accumulate=acc, upon_opposite_entry=opp)
    run(h, n, ncol, P, close, cash, groups=[0, 0], sharing=True, call_seq=seq)


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    for pos in ('none', 'long', 'short'):
        for st in (0, 1, 2):
            if not q or (pos, st) in (('none', 0), ('long', 1), ('short', 0), ('long', 2)):
                t('cell', w=12, pos=pos, st=st)
            else:
                t('cell', w=6, pos=pos, st=st, size='inf')
            if not q:
                t('cell', w=4, pos=pos, st=st, size='inf')
    for d in range(3):
        t('directions', w=4, d=d, n=2)
    for acc in range(4):
        for opp in range(5):
            for mode in (0, 1, 2, 3, 4):
                if q and (acc + 2 * opp + 3 * mode) % 7:
                    continue
                t('history', w=3, n=2, acc=acc, opp=opp, mode=mode)
    for d in range(3):
        t('holding', w=2, n=2 if q else 3, d=d, size='real')
        t('holding', w=2, n=2, d=d, size='inf')
    for which in NAMES:
        for lead in ('none',) if which == 'direction' else ('long', 'short'):
            t('named', w=2, which=which, lead=lead)
    for form in ('col', 'row'):
        t('percol', form=form, w=3)
    for which in ('accumulate', 'upon_long_conflict', 'upon_short_conflict', 'upon_dir_conflict', 'upon_opposite_entry'):
        t('single_col_setting', which=which, w=3)
    for seq in ('default', 'reversed', 'auto'):
        for st in (0, 1, 2):
            t('shared', w=2, seq=seq, n=1, st=st, acc=0, opp=4)
        t('shared', w=9, seq=seq, n=2, st=0, acc=1, opp=1)
    return out
