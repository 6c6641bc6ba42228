"""C04: from_orders equals the sequential fold of its (broadcast) order arrays."""
import math
import itertools
import numpy as np
from checks.sim import fold, same_orders, frame, close_setup

PROPERTY = 'C04'
sym_setup = close_setup
VALIDATE_S = dict(quick=14, thorough=60)
BUDGET = {'quick': 240, 'thorough': 800}
BOUNDS = dict(rows='up to 3', columns='up to 3 (1 with full costs over 2 rows)', groups='none, {a,b}, {a}|{b,c}, {a,b}|{c}, {a,b,c}',
              numbers='prices, sizes, cash, costs: all reals within their documented range; sizes and prices also NaN or infinite',
              call_sequence='default, reversed, every custom permutation')
ASSUMPTIONS = ['a single order is executed by the real execute_order_nb (C01-C03 decide what it does)',
               'comparison tolerance (1e-9 relative) idealised to 0 (C38 decides those helpers)']
GROUPS = {'no': None, 'a|b': (0, 1), 'ab': (0, 0), 'a|bc': (0, 1, 1), 'ab|c': (0, 0, 1), 'abc': (0, 0, 0)}


def run(h, n, ncol, P, close, cash, groups=None, sharing=False, perms=None, seqtype=None, ffill=True, update=False, df=True, given=None):
    """simulate with the real code and compare with the fold; returns (portfolio, fold)"""
    gb = GROUPS[groups] if groups else None
    glist = [[c for c in range(ncol) if (gb[c] if gb else c) == g] for g in sorted(set(gb) if gb else range(ncol))]
    kw = dict(P, **(given or {}))
    if gb is not None:
        kw['group_by'] = np.array(gb)
    seq = None
    if perms is not None:
        cs = np.zeros((n, ncol), dtype=np.int64)
        for i in range(n):
            for g, cols in enumerate(glist):
                p = perms[i][g]
                for k, c in enumerate(cols):
                    cs[i, c] = p[k]
        kw['call_seq'] = cs
        seq = lambda i, g: list(perms[i][g])
    elif seqtype is not None:
        kw['call_seq'] = seqtype
        if seqtype in ('reversed', 1):
            seq = lambda i, g: list(reversed(range(len(glist[g]))))
    nu = len(glist) if sharing else ncol
    cl = frame(h, close, ncol) if df else h.sr(close.reshape(-1))
    pf, exc = h.call(lambda: h.vbt.Portfolio.from_orders(cl, init_cash=np.asarray(cash) if isinstance(cash, np.ndarray) else cash,
                                                         cash_sharing=sharing, ffill_val_price=ffill, update_value=update, **kw))
    cl_ = [cash[u] for u in range(nu)] if isinstance(cash, np.ndarray) and cash.shape[0] > 1 else \
        [(cash[0] if isinstance(cash, np.ndarray) else cash)] * nu
    try:
        f = fold(h, n, glist, cl_, P, close, sharing, seq=seq, ffill=ffill, update=update)
    except (ValueError, RuntimeError):
        h.check(exc is not None, 'an invalid order raises')
        return None, None
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return None, None
    same_orders(h, pf.order_records, f.orders)
    return pf, f


def single(h, n, st, d, costs=False, vp=math.inf, nanp=False, lock=False, ffill=True, update=False, cash='sym'):
    """one column, consecutive rows, sizes and prices arbitrary"""
    close = h.floats2('close', (n, 1), gt=0, nan=nanp)
    size = h.floats2('size', (n, 1))
    P = dict(size=size, size_type=st, direction=d, val_price=vp)
    if lock:
        P['lock_cash'] = True
    if costs:
        P.update(fees=h.floats2('fees', (n, 1), lo=0, lt=1), slippage=h.real('slip', lo=0, lt=1))
    c = h.array([h.real('cash', gt=0)])
    run(h, n, 1, P, close, c, ffill=ffill, update=update)


def named(h, which):
    """modes given by name (in any case) or not at all mean what their numbers mean"""
    names = dict(size_type=('amount', 'value', 'percent', 'targetamount', 'targetvalue', 'targetpercent'), direction=('longonly', 'shortonly', 'both'))[which]
    k = h.choice('k', tuple(range(len(names))))
    form = h.choice('form', ('lower', 'upper', 'list', 'none'))
    v = names[k]
    v = {'lower': v, 'upper': v.upper(), 'list': [v.capitalize()], 'none': None}[form]
    if form == 'none':
        k = 0 if which == 'size_type' else 2
    close = h.array([[3.0], [h.real('c1', gt=0, hi=10)]])
    P = dict(size=h.array([[0.5], [h.real('size', lo=0 if k in (2, 5) else -1, hi=0.5)]]), size_type=0, direction=0 if k == 2 and which == 'size_type' else 2)
    given = {which: v}
    if form == 'none':
        P['direction'] = 2
        given = dict(size_type=None, direction=None)
    P[which] = k
    run(h, 2, 1, P, close, h.array([100.0]), given=given)


def units(h, ncol, k):
    """sizes that stay affordable: signs chosen, magnitudes fixed"""
    return [h.int('s%d' % j, -1, 1) * (j + 1) for j in range(k)]


def wiring(h, n, ncol, groups, sharing, form, names, perm=False, df=True):
    """every array argument reaches the order of its own row and column, in any broadcastable form"""
    close = h.floats2('close', (n, ncol), gt=0)
    P = dict(size=h.array([[(1.0 if (i + c) % 2 == 0 else 0.5) * (c + 1) for c in range(ncol)] for i in range(n)]), log=False)
    sh = {'full': (n, ncol), 'row': (1, ncol), 'col': (n, 1), 'scalar': None}[form]

    def arg(name, **kw):
        if sh is None:
            return h.real(name, **kw)
        return h.floats2(name, sh, **kw)
    if 'price' in names:
        P['price'] = arg('price', gt=0)
    if 'size' in names:
        P['size'] = arg('size', gt=0)
    if 'fees' in names:
        P['fees'] = arg('fees', lo=0, lt=1)
    if 'fixed_fees' in names:
        P['fixed_fees'] = arg('fixed', lo=0)
    if 'slippage' in names:
        P['slippage'] = arg('slip', lo=0, lt=1)
    if 'min_size' in names:
        P['min_size'] = arg('min', lo=0)
    if 'max_size' in names:
        P['max_size'] = arg('max', gt=0)
    if 'size_granularity' in names:
        P['size_granularity'] = np.array([[0.5 if (i + c) % 2 else 1.0 for c in range(ncol)] for i in range(n)])
    if 'allow_partial' in names:
        P['allow_partial'] = h.bools('ap', sh or (1, 1))
        P['max_size'] = 0.75
    if 'lock_cash' in names:
        P['lock_cash'] = h.bools('lc', sh or (1, 1))
        P['size'] = -P['size']
    if 'direction' in names:
        P['direction'] = h.ints('dir', sh or (1, 1), 0, 2)
    if 'size_type' in names:
        P['size_type'] = h.ints('st', sh or (1, 1), 0, 1)
    if 'val_price' in names:
        P['val_price'] = arg('val', gt=0)
        P['size_type'] = 'value'
    cash = h.array([h.real('cash', gt=0)])
    perms = None
    if perm:
        glist = [sum(1 for c in range(ncol) if GROUPS[groups][c] == g) for g in sorted(set(GROUPS[groups]))]
        perms = [[h.choice('p%d_%d' % (i, g), list(itertools.permutations(range(k)))) for g, k in enumerate(glist)] for i in range(n)]
    run_named(h, n, ncol, P, close, cash, groups, sharing, perms, df)


def run_named(h, n, ncol, P, close, cash, groups, sharing, perms, df):
    from vectorbt.portfolio.enums import SizeType
    st = P.get('size_type')
    if isinstance(st, str):
        P = dict(P, size_type=int(getattr(SizeType, st.title())))
    run(h, n, ncol, P, close, cash, groups, sharing, perms, df=df)


def prices(h, n, ncol, which, vp, st, ffill=True, nanclose=True):
    """infinite order and valuation prices are replaced by closes; missing prices place no order"""
    close = h.floats2('close', (n, ncol), gt=0, nan=nanclose)
    price = h.empty((n, ncol))
    for ix in np.ndindex(price.shape):
        k = h.int('pk%d_%d' % ix, 0, 1) if which == 'both' else None
        price[ix] = {'inf': math.inf, '-inf': -math.inf}.get(which) if which != 'both' else (math.inf, -math.inf)[k]
    size = h.array([[(2.0 if i == 0 else -1.0) if c == 0 else 1.0 for c in range(ncol)] for i in range(n)])
    P = dict(size=size, price=price, size_type=st, val_price=vp)
    cash = h.array([h.real('cash', gt=0)])
    run(h, n, ncol, P, close, cash, ffill=ffill)


def shared(h, n, ncol, groups, st, seqtype=None, perm=False, update=False, vp=math.inf, cashes=False, direction=2, size='real', lock=False, opened=False):
    """groups sharing cash: the orders of a row see the cash left by the earlier ones of the same row"""
    close = h.floats2('close', (n, ncol), gt=0)
    if size == 'real':
        sz = h.floats2('size', (n, ncol))
    else:
        sz = h.array([[(1.0 if (i + c) % 2 == 0 else -1.0) * (c + 1) for c in range(ncol)] for i in range(n)])
        if size == 'half':
            sz = h.array([[(1.0 if (i + c) % 2 == 0 else -1.0) * (c + 1) / (2 if i else 1) for c in range(ncol)] for i in range(n)])
        if size == 'pos':
            sz = h.floats2('size', (n, ncol), gt=0, hi=1)
    gb = GROUPS[groups]
    ng = len(set(gb))
    cash = h.floats('cash', ng if cashes else 1, gt=0)
    perms = None
    if perm:
        glist = [sum(1 for c in range(ncol) if gb[c] == g) for g in sorted(set(gb))]
        perms = [[h.choice('p%d_%d' % (i, g), list(itertools.permutations(range(k)))) for g, k in enumerate(glist)] for i in range(n)]
    if opened:
        # the first row opens positions of both signs by amount, the later ones use the size type under test
        st = np.array([[0]] + [[st]] * (n - 1))
        vp = np.array([[math.inf]] + [[vp]] * (n - 1))
    P = dict(size=sz, size_type=st, val_price=vp, direction=direction)
    if lock:
        P['lock_cash'] = True
    run(h, n, ncol, P, close, cash, groups, True, perms, seqtype, update=update)


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    for st in range(6):
        for d in range(3):
            t('single', w=3, n=2, st=st, d=d)
            if not q:
                t('single', w=9, n=3, st=st, d=d)
        t('single', w=3, n=2, st=st, d=2, lock=True)
        for vp in (-math.inf, 7.0):
            if st in (1, 4, 5) or not q:
                for ffill in (True, False):
                    t('single', w=3, n=2, st=st, d=2 if st != 2 else 0, vp=vp, nanp=True, ffill=ffill)
        t('single', w=2, n=2, st=st, d=2, update=True)
    for st in (0, 1, 2) if q else range(6):
        t('single', w=4, n=1 if st == 2 else 2, st=st, d=0 if st == 2 else 2, costs=True)
    for st in (0, 1, 4):
        for which in ('inf', '-inf', 'both'):
            for vp in (math.inf, -math.inf):
                if st == 0 and vp < 0:
                    continue
                t('prices', n=3 if st == 0 or not q else 2, ncol=1, which=which, vp=vp, st=st)
    t('prices', n=3, ncol=1, which='inf', vp=-math.inf, st=1, ffill=False)
    t('prices', n=2, ncol=2, which='both', vp=math.inf, st=0)
    for which in ('size_type', 'direction'):
        t('named', w=2, which=which)
    # wiring of every argument in every form
    for form in ('full', 'row', 'col', 'scalar'):
        for names in (('price',), ('fees', 'fixed_fees'), ('slippage',), ('size',), ('max_size',), ('min_size',), ('allow_partial',),
                      ('lock_cash',), ('direction',), ('size_type',), ('val_price',)):
            n, ncol = (2, 2) if form != 'full' else (2, 1)
            if names[0] in ('max_size', 'direction', 'allow_partial') and form == 'row':
                n = 1
            if names[0] in ('max_size', 'direction', 'allow_partial') and form == 'col':
                ncol = 1
            if form == 'full' and names[0] in ('price', 'fees', 'val_price', 'slippage', 'size'):
                n, ncol = 1, 2
            t('wiring', n=n, ncol=ncol, groups=None, sharing=False, form=form, names=names)
    t('wiring', n=2, ncol=2, groups=None, sharing=False, form='full', names=('size_granularity',))
    for form in ('full', 'col', 'scalar'):
        t('wiring', n=2, ncol=1, groups=None, sharing=False, form=form, names=('price', 'slippage'), df=False)
    # groups without and with shared cash
    t('wiring', n=2, ncol=2, groups='ab', sharing=False, form='row', names=('price',))
    t('wiring', n=1, ncol=3, groups='a|bc', sharing=False, form='row', names=('price',))
    for g in ('a|b', 'ab', 'a|bc', 'ab|c', 'abc'):
        nc = len(GROUPS[g])
        t('wiring', n=2 if nc == 2 else 1, ncol=nc, groups=g, sharing=True, form='row', names=('price',), perm=True)
        t('wiring', n=1, ncol=nc, groups=g, sharing=True, form='row', names=('fees', 'price'), perm=True)
    for st in range(6):
        for seqtype in (None, 'reversed'):
            t('shared', w=4, n=1, ncol=2, groups='ab', st=st, seqtype=seqtype)
        t('shared', w=4, n=1, ncol=2, groups='ab', st=st, perm=True, update=True)
        t('shared', w=8, n=2, ncol=2, groups='ab', st=st, size='fix', vp=-math.inf if st in (1, 4, 5) else math.inf)
        if st in (0, 1, 5) or not q:
            t('shared', w=5, n=1, ncol=3, groups='abc', st=st, perm=True, size='pos', direction=0)
            t('shared', w=5, n=1, ncol=3, groups='a|bc', st=st, perm=True, size='pos', cashes=True, direction=0)
            t('shared', w=5, n=1, ncol=3, groups='ab|c', st=st, seqtype='reversed', size='pos', cashes=True, direction=1)
    for st in range(1, 6):
        for vp in (math.inf, -math.inf):
            for seqtype in (None,) if q else (None, 'reversed'):
                t('shared', w=8, n=2, ncol=2, groups='ab', st=st, size='half', opened=True, vp=vp, seqtype=seqtype)
    t('shared', w=5, n=2, ncol=2, groups='ab', st=0, size='fix', lock=True)
    t('shared', w=5, n=2, ncol=2, groups='a|b', st=0, size='fix', cashes=True)
    return out
