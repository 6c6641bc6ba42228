"""C08: Portfolio series reconstruct the simulated account from its order records: replay of the records, element by element."""
import itertools
import math
import numpy as np
import pandas as pd
from symx.harness import isnan
from checks.sim import close_setup
from checks.c04 import GROUPS

PROPERTY = 'C08'


def sym_setup(vbt):
    """pandas' ffill / bfill on frames of symbolic values (pandas itself cannot see their NaNs)"""
    from symx.core import is_sym
    close_setup(vbt)

    def filled(x, back):
        a = np.asarray(x, dtype=object).copy()
        b = a.reshape(a.shape[0], -1)
        rows = list(range(b.shape[0]))[::-1] if back else list(range(b.shape[0]))
        for c in range(b.shape[1]):
            for j, i in enumerate(rows):
                if j and isnan(b[i, c]):
                    b[i, c] = b[rows[j - 1], c]
        return type(x)(a, index=x.index, **(dict(columns=x.columns) if x.ndim == 2 else dict(name=x.name)))
    for cls in (pd.Series, pd.DataFrame):
        for name in ('ffill', 'bfill'):
            def f(self, *args, _old=getattr(cls, name), _back=name == 'bfill', **kwargs):
                if any(is_sym(v) for v in np.asarray(self, dtype=object).ravel()):
                    return filled(self, _back)
                return _old(self, *args, **kwargs)
            setattr(cls, name, f)


BUDGET = {'quick': 240, 'thorough': 800}
VALIDATE_S = dict(quick=14, thorough=90)
BOUNDS = dict(rows='3 (thorough 4)', columns='up to 3', records='up to 4 per portfolio, in every listed arrangement of columns, rows and sides '
              '(several orders in one row, positions increased, closed, reversed)', groups='none, {a,b}, {a}|{b,c}, {a,b}|{c}, with and without '
              'shared cash, and regrouping per call', numbers='sizes, prices, fees, close, initial cash: all reals in their range; close also NaN',
              init_cash='numbers (one, per column, per group), auto, autoalign')
ASSUMPTIONS = ['comparison tolerance (1e-9 relative) idealised to 0 (C38 decides those helpers)',
               'debt of a short position shrinks in proportion to the part covered (as in C01)']
COLS = list('abcd')
# (column, row, buy) of the records, column by column
LAY = {
    'none': [],
    'hold': [(0, 0, 1)],
    'bs': [(0, 0, 1), (0, 2, 0)],
    'sb': [(0, 0, 0), (0, 1, 1)],
    'samerow': [(0, 1, 1), (0, 1, 0), (0, 1, 1)],
    'ssb': [(0, 0, 0), (0, 1, 0), (0, 2, 1)],
    'bbs': [(0, 0, 1), (0, 0, 1), (0, 2, 0)],
    'bsb': [(0, 0, 1), (0, 1, 0), (0, 2, 1)],
    'sbs': [(0, 0, 0), (0, 1, 1), (0, 2, 0)],
    'two': [(0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 2, 1)],
    'one2': [(1, 1, 1), (1, 2, 0)],
    'buys': [(0, 0, 1), (1, 1, 1)],
    'mix': [(0, 0, 1), (1, 0, 0), (1, 1, 1)],
    'three': [(0, 0, 1), (1, 1, 0), (2, 0, 1), (2, 2, 0)],
    'three2': [(1, 0, 0), (2, 1, 1)],
}


def ret(a, b):
    if isnan(a) or isnan(b):
        return math.nan
    if a == 0:
        return 0.0 if b == 0 else (math.inf if b > 0 else -math.inf)
    r = (b - a) / a
    return -r if a < 0 else r


def pos(x):
    return x if x > 0 else 0.0


def absv(x):
    return x if x >= 0 else -x


class Ref:
    """replay of the records column by column"""

    def __init__(self, recs, n, ncol, close, fill):
        self.n, self.ncol = n, ncol
        self.flow = {d: [[0.0] * ncol for _ in range(n)] for d in (0, 1, 2)}
        self.cf = [[0.0] * ncol for _ in range(n)]
        self.fcf = [[0.0] * ncol for _ in range(n)]
        self.assets = [[0.0] * ncol for _ in range(n)]
        cl = [[close[i][c] for c in range(ncol)] for i in range(n)]
        if fill:
            for c in range(ncol):
                good = [i for i in range(n) if not isnan(cl[i][c])]
                cl2 = []
                for i in range(n):
                    before = [k for k in good if k <= i]
                    cl2.append(cl[before[-1]][c] if before else (cl[good[0]][c] if good else math.nan))
                for i in range(n):
                    cl[i][c] = cl2[i]
        self.close = cl
        for c in range(ncol):
            p, debt = 0.0, 0.0
            for i in range(n):
                for (rc, ri, buy, size, price, fees) in recs:
                    if rc != c or ri != i:
                        continue
                    q = p + (size if buy else -size)
                    self.flow[2][i][c] = self.flow[2][i][c] + (size if buy else -size)
                    self.flow[0][i][c] = self.flow[0][i][c] + pos(q) - pos(p)
                    self.flow[1][i][c] = self.flow[1][i][c] + pos(-q) - pos(-p)
                    cash = (-size if buy else size) * price - fees
                    self.cf[i][c] = self.cf[i][c] + cash
                    short0, short1 = pos(-p), pos(-q)
                    if short1 > short0:
                        new = debt + (short1 - short0) * price
                    elif short0 > 0:
                        new = debt * short1 / short0
                    else:
                        new = debt
                    # proceeds of short sales are locked together with the same amount of own cash
                    self.fcf[i][c] = self.fcf[i][c] + cash - 2 * (new - debt)
                    p, debt = q, new
                self.assets[i][c] = p

    def dirassets(self, d):
        f = {2: lambda x: x, 0: pos, 1: lambda x: pos(-x)}[d]
        return [[f(x) for x in r] for r in self.assets]

    def av(self, d=2):
        a = self.dirassets(d)
        return [[a[i][c] * self.close[i][c] if a[i][c] != 0 else 0.0 for c in range(self.ncol)] for i in range(self.n)]

    def grp(self, m, groups):
        return [[sum([m[i][c] for c in g[1:]], m[i][g[0]]) for g in groups] for i in range(len(m))]

    def run(self, flow, init):
        out = []
        for i in range(self.n):
            out.append([(out[-1][k] if i else init[k]) + flow[i][k] for k in range(len(init))])
        return out


def lst(x, n):
    x = x.to_numpy() if hasattr(x, 'to_numpy') else np.asarray(x)
    return [list(r) for r in x.reshape(n, -1)]


def lst1(x):
    return list(x.to_numpy()) if isinstance(x, pd.Series) else [x]


def build(h, lay, n, ncol, gb, sharing, icash, nanclose, fill, seq=None, perm=None, conc=False, lim=None):
    recs = []
    L = dict(gt=0) if lim is None else dict(lo=1, hi=lim)
    for k, (c, i, buy) in enumerate(LAY[lay]):
        recs.append((c, i, buy, h.real('size%d' % k, **L) if not conc else (1.0, 2.5, 1.5, 0.5)[k],
                     h.real('price%d' % k, **L) if not conc else (10.0, 8.0, 12.0, 9.0)[k], h.real('fee%d' % k, lo=0, **({} if lim is None else dict(hi=lim))) if not conc or conc == 'size' else 0.5 * k))
    close = h.floats2('close', (n, ncol), nan=nanclose, **L)
    npx = h.vbt._symx_np if h.sym else np
    from vectorbt.portfolio.enums import order_dt, log_dt
    arr = npx.empty(len(recs), dtype=order_dt)
    # records are stored in the order of the simulation, whatever the columns
    order = sorted(range(len(recs)), key=lambda k: (recs[k][1], recs[k][0])) if perm == 'time' else list(range(len(recs)))
    for j, k in enumerate(order):
        c, i, buy, s, p, f = recs[k]
        arr['id'][j] = j
        arr['col'][j] = c
        arr['idx'][j] = i
        arr['size'][j] = s
        arr['price'][j] = p
        arr['fees'][j] = f
        arr['side'][j] = 0 if buy else 1
    kw = {} if gb is None else dict(group_by=np.array(gb))
    w = h.vbt.ArrayWrapper(pd.RangeIndex(n), pd.Index(COLS[:ncol]), 2 if ncol > 1 else 1, freq='D', **kw)
    frame = h.df(close, columns=COLS[:ncol]) if ncol > 1 else h.sr(h.array([close[i, 0] for i in range(n)]), name='a')
    pf = h.vbt.Portfolio(w, frame, arr, np.empty(0, dtype=log_dt), icash, sharing, call_seq=seq, fillna_close=fill)
    return pf, recs, close


def glist(gb, ncol):
    return [[c for c in range(ncol) if gb[c] == g] for g in sorted(set(gb))]


def series(h, lay, n=3, ncol=1, groups=None, sharing=False, mode='num', nanclose=False, fill=True, by=None, perm=None, what='all',
           conc=False):
    """by: group_by passed to the methods: None (as built), False, or a grouping"""
    gb = GROUPS[groups] if groups else None
    own = glist(gb, ncol) if gb else [[c] for c in range(ncol)]
    nc = len(own) if sharing else ncol
    if mode == 'num':
        icash = h.array([h.real('cash%d' % k, gt=0) for k in range(nc)])
        ic = list(icash)
    else:
        from vectorbt.portfolio.enums import InitCashMode
        icash = InitCashMode.Auto if mode == 'auto' else InitCashMode.AutoAlign
    pf, recs, close = build(h, lay, n, ncol, gb, sharing, icash, nanclose, fill, perm=perm, conc=conc)
    R = Ref(recs, n, ncol, close, fill)
    if by is None:
        use, args = (own if gb else None), {}
    elif by is False:
        use, args = None, dict(group_by=False)
    else:
        use, args = glist(GROUPS[by], ncol), dict(group_by=np.array(GROUPS[by]))
    grouped = use is not None
    units = use if grouped else [[c] for c in range(ncol)]

    def init(units):
        if mode == 'num':
            if grouped:
                return ic if sharing else [sum([ic[c] for c in u[1:]], ic[u[0]]) for u in units]
            return [ic[[k for k, g in enumerate(own) if c in g][0]] for c in range(ncol)] if sharing else ic
        fl = R.grp(R.cf, units)
        out = []
        for k in range(len(units)):
            tot, low = 0.0, None
            for i in range(n):
                tot = tot + fl[i][k]
                low = tot if low is None or tot < low else low
            out.append(-low if low < 0 else 1.0)
        if mode == 'autoalign':
            top = out[0]
            for x in out[1:]:
                top = x if x > top else top
            out = [top] * len(out)
        return out
    cash0 = init(units)

    def g(m):
        return R.grp(m, units)
    if what in ('all', 'flows'):
        for d, name in ((2, 'both'), (0, 'longonly'), (1, 'shortonly')):
            h.eq(lst(pf.asset_flow(direction=name), n), R.flow[d], 'asset flow %s' % name)
            h.eq(lst(pf.assets(direction=name), n), R.dirassets(d), 'assets %s' % name)
            mask = [[x != 0 for x in r] for r in R.dirassets(d)]
            gm = [[any(mask[i][c] for c in u) for u in units] for i in range(n)]
            h.eq(lst(pf.position_mask(direction=name, **args), n), gm, 'position mask %s' % name)
            h.eq(lst1(pf.position_coverage(direction=name, **args)),
                 [sum(1 for i in range(n) for c in u if mask[i][c]) / (n * len(u)) for u in units], 'coverage %s' % name)
        h.eq(lst(pf.cash_flow(**args), n), g(R.cf), 'cash flow')
        h.eq(lst(pf.cash_flow(free=True, **args), n), g(R.fcf), 'free cash flow')
        h.eq(lst1(pf.get_init_cash(**args)), cash0, 'initial cash')
        h.eq(lst(pf.cash(**args), n), R.run(g(R.cf), cash0), 'cash')
        h.eq(lst(pf.cash(free=True, **args), n), R.run(g(R.fcf), cash0), 'free cash')
    cash = R.run(g(R.cf), cash0)
    val = [[cash[i][k] + x for k, x in enumerate(r)] for i, r in enumerate(g(R.av()))]
    if what in ('all', 'value'):
        h.eq(lst(pf.asset_value(**args), n), g(R.av()), 'asset value')
        h.eq(lst(pf.value(**args), n), val, 'value')
        prof = [val[-1][k] - cash0[k] for k in range(len(units))]
        h.eq(lst1(pf.total_profit(**args)), prof, 'total profit')
        h.eq(lst1(pf.final_value(**args)), val[-1], 'final value')
        h.eq(lst1(pf.total_return(**args)), [prof[k] / cash0[k] for k in range(len(units))], 'total return')
    if what in ('all', 'returns'):
        h.eq(lst(pf.returns(**args), n), [[ret(val[i - 1][k] if i else cash0[k], val[i][k]) for k in range(len(units))] for i in range(n)],
             'returns')
        av, cf = g(R.av()), g(R.cf)
        h.eq(lst(pf.asset_returns(**args), n),
             [[ret(av[i - 1][k] if i else 0.0, av[i][k] + cf[i][k]) for k in range(len(units))] for i in range(n)], 'asset returns')
    if what in ('all', 'bench'):
        cl = R.close
        bv = [[sum([cl[i][c] / cl[0][c] for c in u[1:]], cl[i][u[0]] / cl[0][u[0]]) * cash0[k] / len(u) for k, u in enumerate(units)]
              for i in range(n)]
        h.eq(lst(pf.benchmark_value(**args), n), bv, 'benchmark value')
        h.eq(lst(pf.benchmark_returns(**args), n),
             [[ret(bv[i - 1][k] if i else cash0[k], bv[i][k]) for k in range(len(units))] for i in range(n)], 'benchmark returns')
        h.eq(lst1(pf.total_benchmark_return(**args)), [ret(bv[0][k], bv[-1][k]) for k in range(len(units))], 'total benchmark return')
    if what in ('all', 'exposure'):
        fc = R.run(g(R.fcf), cash0)
        ex = {}
        for d, name in ((2, 'both'), (0, 'longonly'), (1, 'shortonly')):
            av = R.grp([[absv(x) for x in r] for r in R.av(d)], units)
            ex[d] = [[0.0 if av[i][k] + fc[i][k] == 0 else av[i][k] / (av[i][k] + fc[i][k]) for k in range(len(units))] for i in range(n)]
            h.eq(lst(pf.gross_exposure(direction=name, **args), n), ex[d], 'gross exposure %s' % name)
        h.eq(lst(pf.net_exposure(**args), n), [[a - b for a, b in zip(x, y)] for x, y in zip(ex[0], ex[1])], 'net exposure')


def simorder(h, lay, n=2, ncol=2, groups='ab', nanclose=False, fill=True, conc=False):
    """shared cash: account after every single order, in the order of the calls"""
    gb = GROUPS[groups]
    own = glist(gb, ncol)
    seq = np.zeros((n, ncol), dtype=np.int64)
    for i in range(n):
        for k, cols in enumerate(own):
            p = h.choice('p%d_%d' % (i, k), list(itertools.permutations(range(len(cols)))))
            for j, c in enumerate(cols):
                seq[i, c] = p[j]
    icash = h.array([h.real('cash%d' % k, gt=0) for k in range(len(own))])
    pf, recs, close = build(h, lay, n, ncol, gb, True, icash, nanclose, fill, seq=seq, conc=conc)
    R = Ref(recs, n, ncol, close, fill)
    cash = [[None] * ncol for _ in range(n)]
    fcash = [[None] * ncol for _ in range(n)]
    val = [[None] * ncol for _ in range(n)]
    rets = [[None] * ncol for _ in range(n)]
    for k, cols in enumerate(own):
        now, fnow = icash[k], icash[k]
        last = {c: 0.0 for c in cols}
        v0 = icash[k]
        for i in range(n):
            for j in range(len(cols)):
                c = cols[seq[i, cols[j]]]
                now = now + R.cf[i][c]
                fnow = fnow + R.fcf[i][c]
                last[c] = R.av()[i][c]
                cash[i][c], fcash[i][c] = now, fnow
                tot = now
                for x in last.values():
                    tot = tot + x
                val[i][c] = tot
                rets[i][c] = ret(v0, tot)
                v0 = tot
    kw = dict(group_by=False, in_sim_order=True)
    h.eq(lst(pf.cash(**kw), n), cash, 'cash in simulation order')
    h.eq(lst(pf.cash(free=True, **kw), n), fcash, 'free cash in simulation order')
    h.eq(lst(pf.value(**kw), n), val, 'value in simulation order')
    h.eq(lst(pf.returns(**kw), n), rets, 'returns in simulation order')
    _, e = h.call(lambda: h.vbt.Portfolio(pf._wrapper, pf.close, pf.order_records, pf.log_records, icash, True).value(**kw))
    h.check(e is not None, 'without a call sequence there is no simulation order')


def drawdown(h, lay, n=3):
    """drawdown records of the portfolio are those of its value"""
    pf, recs, close = build(h, lay, n, 1, None, False, h.array([h.real('cash0', gt=0)]), False, True)
    a = pf.get_drawdowns()
    b = pf.value().vbt.drawdowns
    h.eq(len(a.values), len(b.values), 'number of drawdowns')
    for f in a.values.dtype.names:
        h.eq(list(a.values[f]), list(b.values[f]), 'drawdowns: ' + f)


def account(h, n, ncol, groups=None, sharing=False, seq='default', lock=False, d=2):
    """from_orders: the derived cash, assets and free cash equal the state the simulation logged"""
    close = h.floats2('close', (n, ncol), gt=0, nan=False)
    sz = h.floats2('size', (n, ncol), gt=0, hi=2, nan=False)
    sz = h.array([[sz[i, c] * (1 if (i + c) % 2 == 0 else -1) for c in range(ncol)] for i in range(n)])
    if n > 1:
        close = h.array([[10.0 + 3 * c for c in range(ncol)]] + [[close[i, c] for c in range(ncol)] for i in range(1, n)])
    kw = {} if groups is None else dict(group_by=np.array(GROUPS[groups]), cash_sharing=sharing)
    cash = h.real('cash', gt=30 if n > 1 else 0)
    fr = h.df(close, columns=COLS[:ncol])
    pf, e = h.call(lambda: h.vbt.Portfolio.from_orders(fr, sz, init_cash=cash, log=True, call_seq=seq, attach_call_seq=True, lock_cash=lock,
                                                       direction=d, fees=h.real('fees', lo=0, lt=1), **kw))
    if e:
        return
    logs = pf.log_records
    cs, fc = (pf.cash(), pf.cash(free=True)) if not groups or sharing else (pf.cash(group_by=False), pf.cash(group_by=False, free=True))
    cs, fc, ass = lst(cs, n), lst(fc, n), lst(pf.assets(), n)
    for k in range(len(logs)):
        i, c, u = int(logs['idx'][k]), int(logs['col'][k]), int(logs['group'][k])
        h.eq(ass[i][c], logs['new_position'][k], 'assets equal the simulated position')
        if all(not (int(logs['idx'][j]) == i and int(logs['group'][j]) == u) for j in range(k + 1, len(logs))):
            h.eq(cs[i][u], logs['new_cash'][k], 'cash equals the simulated cash')
            h.eq(fc[i][u], logs['new_free_cash'][k], 'free cash equals the simulated free cash')


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    W = ('flows', 'value', 'returns', 'bench', 'exposure')
    for lay in ('none', 'hold', 'bs', 'sb', 'samerow', 'ssb', 'bbs', 'bsb', 'sbs'):
        for w in W:
            if w != 'bench' or lay in ('none', 'bs'):
                t('series', lay=lay, what=w)
        t('series', lay=lay, mode='auto', what='flows')
    for lay in ('bs', 'sb', 'bsb', 'none', 'samerow'):
        t('series', lay=lay, nanclose=True, what='value')
        t('series', lay=lay, nanclose=True, fill=False, what='value')
        t('series', lay=lay, mode='auto', what='value')
        t('series', lay=lay, mode='auto', what='returns')
    t('series', lay='bs', nanclose=True, fill=False, what='returns')
    t('series', lay='bs', nanclose=True, fill=True, what='bench')
    t('series', lay='bs', nanclose=True, fill=False, what='bench')
    t('series', lay='bs', nanclose=True, fill=False, what='exposure')
    for what in W:
        small = what in ('returns', 'exposure')
        k = dict(n=2, conc=what == 'exposure') if small and q else {}
        for lay in ('two', 'one2', 'mix'):
            if lay == 'mix' or not small or not q:
                t('series', lay=lay, ncol=2, what=what, perm='time' if lay == 'mix' else None, **k)
            if what in ('flows', 'value') or lay == 'mix':
                t('series', lay=lay, ncol=2, groups='ab', what=what, **k)
                t('series', lay=lay, ncol=2, groups='ab', sharing=True, what=what, **k)
                t('series', lay=lay, ncol=2, groups='ab', sharing=True, by=False, what=what, **k)
        t('series', lay='mix', ncol=2, groups='ab', by=False, what=what, **k)
        t('series', lay='mix', ncol=2, by='ab', what=what, **k)
        t('series', lay='three2', ncol=3, groups='a|bc', what=what, conc=small)
        t('series', lay='three2', ncol=3, groups='ab|c', sharing=True, what=what, conc=small)
    for mode in ('auto', 'autoalign'):
        for what in ('flows', 'value', 'returns'):
            t('series', lay='buys', ncol=2, mode=mode, what=what)
            t('series', lay='buys', ncol=2, mode=mode, groups='ab', sharing=True, what=what)
            t('series', lay='three2', ncol=3, mode=mode, groups='a|bc', what=what)
        t('series', lay='buys', ncol=2, mode=mode, groups='ab', sharing=True, by=False, what='flows')
        t('series', lay='mix', ncol=2, mode=mode, groups='ab', what='bench')
    for lay in ('mix', 'buys'):
        t('simorder', w=5, lay=lay, n=2 if q else 3, conc=q)
        t('simorder', w=9, lay=lay, nanclose=True, fill=False, n=2, conc=q)
    t('simorder', lay='three2', ncol=3, groups='a|bc', n=2)
    for lay in ('hold', 'bs', 'sb'):
        t('drawdown', lay=lay)
    t('account', n=1, ncol=2)
    t('account', n=2, ncol=1)
    t('account', n=2, ncol=1, lock=True)
    t('account', w=5, n=2, ncol=2, groups='ab', sharing=True, seq='auto')
    t('account', n=2, ncol=2, groups='ab', sharing=False)
    return out
