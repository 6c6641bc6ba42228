"""C09: trades and positions partition the filled orders: reference accounting of positions, plus conservation laws."""
import math
import numpy as np
import pandas as pd
from symx.harness import isnan, sqrt
from checks.sim import close_setup
from checks import c08

PROPERTY = 'C09'
sym_setup = c08.sym_setup
BUDGET = {'quick': 240, 'thorough': 800}
VALIDATE_S = dict(quick=12, thorough=90)
BOUNDS = dict(rows='3 (thorough 4)', columns='up to 3', orders='up to 4 per column (thorough 5), in every listed order of buys and sells and rows',
              numbers='sizes, prices, fees and closes: all reals in their range (hence every case of increase, partial exit, close, reversal)')
ASSUMPTIONS = ['comparison tolerance (1e-9 relative) idealised to 0 (C38 decides those helpers)']
LONG, SHORT = 0, 1
OPEN, CLOSED = 0, 1


class Pos:
    """one position: entries and exits as (row, size, price, fees)"""

    def __init__(self, col, direction):
        self.col, self.dir, self.entries, self.exits = col, direction, [], []
        self.size = 0.0


def positions(recs, ncol):
    """positions of every column; an order that crosses zero is split between two positions"""
    out = []
    for c in range(ncol):
        cur = None
        for (rc, i, buy, size, price, fees) in recs:
            if rc != c:
                continue
            d = LONG if buy else SHORT
            if cur is None:
                cur = Pos(c, d)
                out.append(cur)
            if d == cur.dir:
                cur.entries.append((i, size, price, fees))
                cur.size = cur.size + size
            elif size < cur.size:
                cur.exits.append((i, size, price, fees))
                cur.size = cur.size - size
            else:
                part = cur.size
                full = size == part
                cur.exits.append((i, part, price, fees if full else fees * part / size))
                cur.size = 0.0
                old = cur
                cur = None
                if not full:
                    cur = Pos(c, d)
                    cur.entries.append((i, size - part, price, fees * (size - part) / size))
                    cur.size = size - part
                    out.append(cur)
    return out


def add(xs):
    xs = list(xs)
    return sum(xs[1:], xs[0]) if xs else 0.0


def total(rs):
    return add(r[1] for r in rs)


def avg(rs):
    return add(r[1] * r[2] for r in rs) / total(rs)


def fees(rs):
    return add(r[3] for r in rs)


def stats(d, size, ep, ef, xp, xf):
    pnl = (xp - ep) * size * (1 if d == LONG else -1) - ef - xf
    return pnl, pnl / (size * ep)


def entry_trades(ps, close, n):
    out = []
    for k, p in enumerate(ps):
        ex = list(p.exits)
        is_open = p.size != 0
        if is_open:
            ex.append((n - 1, p.size, close[n - 1][p.col], 0.0))
        for e in p.entries:
            share = e[1] / total(p.entries)
            xp, xf = avg(ex), fees(ex) * share
            pnl, r = stats(p.dir, e[1], e[2], e[3], xp, xf)
            out.append(dict(col=p.col, size=e[1], entry_idx=e[0], entry_price=e[2], entry_fees=e[3], exit_idx=ex[-1][0], exit_price=xp,
                            exit_fees=xf, pnl=pnl, direction=p.dir, status=OPEN if is_open else CLOSED, parent_id=k, **{'return': r}))
    return out


def exit_trades(ps, close, n, log):
    """every exit takes the average cost of what is held at that moment; log: all events of a position in order"""
    out = []
    for k, p in enumerate(ps):
        held, cost, fee = 0.0, 0.0, 0.0
        for what, (i, size, price, f) in log[k]:
            if what == 'in':
                held, cost, fee = held + size, cost + size * price, fee + f
                continue
            share = size / held
            out.append(trade(p, k, size, p.entries[0][0], cost / held, fee * share, i, price, f, CLOSED))
            held, cost, fee = held - size, cost * (1 - share), fee * (1 - share)
        if p.size != 0:
            out.append(trade(p, k, held, p.entries[0][0], cost / held, fee, n - 1, close[n - 1][p.col], 0.0, OPEN))
    return out


def trade(p, k, size, ei, ep, ef, xi, xp, xf, status):
    pnl, r = stats(p.dir, size, ep, ef, xp, xf)
    return dict(col=p.col, size=size, entry_idx=ei, entry_price=ep, entry_fees=ef, exit_idx=xi, exit_price=xp, exit_fees=xf, pnl=pnl,
                direction=p.dir, status=status, parent_id=k, **{'return': r})


def events(recs, ps, ncol):
    """events of each position in the order of its column's orders"""
    out = []
    for p in ps:
        ins, outs, ev = list(p.entries), list(p.exits), []
        seq = [r for r in recs if r[0] == p.col]
        for r in seq:
            d = LONG if r[2] else SHORT
            if d == p.dir and ins and ins[0][0] == r[1] and ins[0][2] is r[4]:
                ev.append(('in', ins.pop(0)))
            elif d != p.dir and outs and outs[0][0] == r[1] and outs[0][2] is r[4]:
                ev.append(('out', outs.pop(0)))
        assert not ins and not outs
        out.append(ev)
    return out


def position_records(ps, close, n):
    out = []
    for k, p in enumerate(ps):
        ex = list(p.exits)
        if p.size != 0:
            ex.append((n - 1, p.size, close[n - 1][p.col], 0.0))
        out.append(trade(p, k, total(p.entries), p.entries[0][0], avg(p.entries), fees(p.entries), ex[-1][0], avg(ex), fees(ex),
                         OPEN if p.size != 0 else CLOSED))
    return out


FIELDS = ('col', 'entry_idx', 'exit_idx', 'direction', 'status', 'parent_id', 'size', 'entry_price', 'entry_fees', 'exit_price', 'exit_fees',
          'pnl', 'return')


def same(h, got, want, label, fields=FIELDS):
    h.eq(len(got), len(want), label + ': number of records')
    if len(got) != len(want):
        return
    h.eq([int(x) for x in got['id']], list(range(len(want))), label + ': ids')
    for f in fields:
        h.eq(list(got[f]), [w[f] for w in want], label + ': ' + f)


LAY = dict(c08.LAY)
LAY.update({
    'bbss': [(0, 0, 1), (0, 1, 1), (0, 1, 0), (0, 2, 0)],
    'ssbb': [(0, 0, 0), (0, 0, 0), (0, 1, 1), (0, 2, 1)],
    'bsbs': [(0, 0, 1), (0, 1, 0), (0, 2, 1), (0, 2, 0)],
    'sbbs': [(0, 0, 0), (0, 1, 1), (0, 1, 1), (0, 2, 0)],
    'bssb': [(0, 0, 1), (0, 0, 0), (0, 1, 0), (0, 2, 1)],
    'bsss': [(0, 0, 1), (0, 1, 0), (0, 1, 0), (0, 2, 0)],
    'bsbss': [(0, 0, 1), (0, 1, 0), (0, 1, 1), (0, 2, 0), (0, 2, 0)],
    'cols': [(0, 0, 1), (0, 1, 0), (2, 0, 0), (2, 1, 0)],
})


def make(h, lay, n, ncol, nanclose=False, perm=None, conc=False, gb=None):
    c08.LAY[lay] = LAY[lay]
    return c08.build(h, lay, n, ncol, gb, False, h.array([100.0] * ncol), nanclose, True, perm=perm, conc=conc)


def trades(h, lay, n=3, ncol=1, nanclose=False, perm=None, what='all', conc=False):
    pf, recs, close = make(h, lay, n, ncol, nanclose, perm, conc=conc)
    cl = [[close[i, c] for c in range(ncol)] for i in range(n)]
    ps = positions(recs, ncol)
    if what in ('all', 'entry'):
        same(h, pf.entry_trades.values, entry_trades(ps, cl, n), 'entry trades')
    if what in ('all', 'exit'):
        same(h, pf.exit_trades.values, exit_trades(ps, cl, n, events(recs, ps, ncol)), 'exit trades')
    if what in ('all', 'pos'):
        want = position_records(ps, cl, n)
        same(h, pf.positions.values, want, 'positions')
        P = h.vbt.Positions
        same(h, P.from_trades(pf.entry_trades).values, want, 'positions from entry trades')
        same(h, P.from_trades(pf.positions).values, want, 'positions from positions')


def conserve(h, lay, n=3, ncol=1):
    """sums over the records, without a reference for their order or split"""
    pf, recs, close = make(h, lay, n, ncol)
    cash = [0.0] * ncol
    pos = [0.0] * ncol
    fee = [0.0] * ncol
    for (c, i, buy, s, p, f) in recs:
        sg = 1 if buy else -1
        cash[c] = cash[c] - sg * s * p - f
        pos[c] = pos[c] + sg * s
        fee[c] = fee[c] + f
    for name, t in (('entry trades', pf.entry_trades.values), ('exit trades', pf.exit_trades.values), ('positions', pf.positions.values)):
        for c in range(ncol):
            rows = [k for k in range(len(t)) if int(t['col'][k]) == c]
            h.eq(add(t['pnl'][k] for k in rows), cash[c] + pos[c] * close[n - 1, c], name + ': PnL sums to the PnL of the orders')
            h.eq(add(t['entry_fees'][k] for k in rows) + add(t['exit_fees'][k] for k in rows), fee[c], name + ': fees sum to the fees')
            op = add((1 if int(t['direction'][k]) == LONG else -1) * t['size'][k] for k in rows if int(t['status'][k]) == OPEN)
            if name == 'exit trades':
                h.eq(op, pos[c], name + ': open size is the position')
            h.check(all(t['size'][k] > 0 for k in rows), name + ': sizes positive')
            for k in rows:
                h.eq(t['return'][k] * t['size'][k] * t['entry_price'][k], t['pnl'][k], name + ': return is PnL over cost')
    h.eq(list(pf.exit_trades.pnl.sum(group_by=False)) if ncol > 1 else [pf.exit_trades.pnl.sum()], list(pf.total_profit()) if ncol > 1 else
         [pf.total_profit()], 'total profit is the sum of the trades')


def inc(h, lay, n=3, full=True):
    """update_pos_record_nb after every order equals the last position built from the orders so far"""
    from vectorbt.portfolio import nb
    from vectorbt.portfolio.enums import OrderResult
    recs = []
    for k, (c, i, buy) in enumerate(LAY[lay]):
        recs.append((c, i, buy, h.real('size%d' % k, gt=0), h.real('price%d' % k, gt=0), h.real('fee%d' % k, lo=0)))
    rec = nb.init_last_pos_record_nb((n, 1), True)
    h.eq([int(rec['id'][0]), int(rec['entry_idx'][0]), int(rec['exit_idx'][0]), int(rec['direction'][0]), int(rec['status'][0]),
          int(rec['parent_id'][0]), int(rec['col'][0])], [-1] * 7, 'initial record')
    pos = 0.0
    for k, (c, i, buy, s, p, f) in enumerate(recs):
        new = pos + (s if buy else -s)
        nb.update_pos_record_nb(rec[0], i, c, pos, new, OrderResult(s, p, f, 0 if buy else 1, 0, -1))
        pos = new
        ps = positions(recs[:k + 1], 1)
        q = ps[-1]
        ex = list(q.exits)
        want = dict(id=len(ps) - 1, col=0, size=total(q.entries), entry_idx=q.entries[0][0], entry_price=avg(q.entries), entry_fees=fees(q.entries),
                    exit_idx=-1 if q.size != 0 else ex[-1][0], exit_price=avg(ex) if ex else math.nan, exit_fees=fees(ex), direction=q.dir,
                    status=OPEN if q.size != 0 else CLOSED, parent_id=len(ps) - 1)
        for x, v in want.items():
            h.eq(rec[x][0], v, 'incremental position: ' + x)
        # statistics value what is still open at the price of the last order
        if q.size != 0:
            ex = ex + [(i, q.size, p, 0.0)]
        pnl, r = stats(q.dir, total(q.entries), avg(q.entries), fees(q.entries), avg(ex), fees(ex))
        h.eq(rec['pnl'][0], pnl, 'incremental position: pnl')
        h.eq(rec['return'][0], r, 'incremental position: return')
        if q.size != 0 and k == len(recs) - 1:
            pr = h.real('val', gt=0)
            nb.update_open_pos_stats_nb(rec[0], pos, pr)
            ex[-1] = (i, q.size, pr, 0.0)
            pnl, r = stats(q.dir, total(q.entries), avg(q.entries), fees(q.entries), avg(ex), fees(ex))
            h.eq(rec['pnl'][0], pnl, 'revalued position: pnl')
            h.eq(rec['return'][0], r, 'revalued position: return')


def sim(h, eng, n=2, ncol=1):
    """the position record and position statistics that order functions see"""
    close = h.floats2('close', (n, ncol), gt=0, nan=False)
    s1 = h.real('s1', gt=0, hi=3)
    size = h.array([[2.0 if c == 0 else -2.0 for c in range(ncol)]] + [[(-s1 if c == 0 else s1) for c in range(ncol)] for _ in range(n - 1)])
    seen = h.empty((n, ncol, 6))
    row, flex = eng.endswith('row'), eng.startswith('flex')
    from vectorbt.portfolio import nb
    if flex:
        def fn(c, size):
            if c.call_idx < c.group_len:
                col = c.from_col + c.call_idx
                return col, nb.order_nb(size[c.i, col], 10.0 + c.i, fees=0.01)
            return -1, nb.order_nothing_nb()
    else:
        def fn(c, size):
            return nb.order_nb(size[c.i, c.col], 10.0 + c.i, fees=0.01)

    def post(c, seen):
        for col in range(c.from_col, c.to_col):
            r = c.last_pos_record[col]
            seen[c.i, col, 0] = r['size']
            seen[c.i, col, 1] = r['entry_price']
            seen[c.i, col, 2] = r['exit_fees']
            seen[c.i, col, 3] = r['pnl']
            seen[c.i, col, 4] = r['return']
            seen[c.i, col, 5] = r['id']
    fr = h.df(close, columns=['a', 'b'][:ncol])
    pf = h.vbt.Portfolio.from_order_func(fr, h.njit(fn), size, row_wise=row, flexible=flex, init_cash=h.real('cash', gt=100), init_temp_records=True,
                                         post_segment_func_nb=h.njit(post), post_segment_args=(seen,))
    orders = pf.order_records
    for i in range(n):
        for c in range(ncol):
            recs = [(c, int(o['idx']), int(o['side']) == 0, o['size'], o['price'], o['fees']) for o in
                    [orders[k] for k in range(len(orders))] if int(o['col']) == c and int(o['idx']) <= i]
            ps = positions(recs, ncol)
            q = ps[-1]
            ex = list(q.exits)
            h.eq(seen[i, c, 0], total(q.entries), 'last_pos_record: size')
            h.eq(seen[i, c, 1], avg(q.entries), 'last_pos_record: entry price')
            h.eq(seen[i, c, 2], fees(ex), 'last_pos_record: exit fees')
            h.eq(seen[i, c, 5], len(ps) - 1, 'last_pos_record: id')
            if q.size != 0:
                ex = ex + [(i, q.size, close[i, c], 0.0)]
            pnl, r = stats(q.dir, total(q.entries), avg(q.entries), fees(q.entries), avg(ex), fees(ex))
            h.eq(seen[i, c, 3], pnl, 'last_pos_record: pnl at the close')
            h.eq(seen[i, c, 4], r, 'last_pos_record: return at the close')


def mean(xs):
    return add(xs) / len(xs) if xs else math.nan


def metrics(h, cols, ncol=2, group=False, which=0):
    """winning / losing / streaks / win rate / profit factor / expectancy / SQN / filters from arbitrary trade records"""
    from vectorbt.portfolio.enums import trade_dt
    npx = h.vbt._symx_np if h.sym else np
    m = len(cols)
    t = npx.empty(m, dtype=trade_dt)
    pnl, rets, dirs, sts = [], [], [], []
    for k, c in enumerate(cols):
        x = h.real('pnl%d' % k, lo=-10, hi=10) if which != 1 else 1.0
        r = h.real('ret%d' % k) if which == 1 else 0.0
        d, s = (h.choice('d%d' % k, [0, 1]), h.choice('s%d' % k, [0, 1]) if k != 1 else 1) if which == 1 else (0, 1)
        for f, v in (('id', k), ('col', c), ('size', 1.0), ('entry_idx', k % 3), ('entry_price', 1.0), ('entry_fees', 0.0),
                     ('exit_idx', 2), ('exit_price', 1.0), ('exit_fees', 0.0), ('pnl', x), ('return', r), ('direction', d), ('status', s),
                     ('parent_id', k)):
            t[f][k] = v
        pnl.append(x)
        rets.append(r)
        dirs.append(d)
        sts.append(s)
    kw = dict(group_by=np.array([0] * ncol)) if group else {}
    w = h.vbt.ArrayWrapper(pd.RangeIndex(3), pd.Index(['a', 'b', 'c'][:ncol]), 2, freq='D', **kw)
    T = h.vbt.Trades(w, t, close=h.df(h.array([[1.0] * ncol] * 3), columns=['a', 'b', 'c'][:ncol]))
    units = [list(range(ncol))] if group else [[c] for c in range(ncol)]
    idx = [[k for k in range(m) if cols[k] in u] for u in units]

    def vals(x):
        return list(x.to_numpy()) if isinstance(x, pd.Series) else [x]
    win = [x > 0 for x in pnl]
    lose = [x < 0 for x in pnl]
    if which == 0:
        win, lose = [bool(x) for x in win], [bool(x) for x in lose]
        h.eq([int(x) for x in T.winning.values['id']], [k for k in range(m) if win[k]], 'winning')
        h.eq([int(x) for x in T.losing.values['id']], [k for k in range(m) if lose[k]], 'losing')

        def streak(flags):
            out = []
            for k in range(m):
                prev = [j for j in range(k) if cols[j] == cols[k]]
                out.append((out[prev[-1]] + 1 if prev else 1) if flags[k] else 0)
            return out
        h.eq([int(x) for x in T.winning_streak.values], streak(win), 'winning streak')
        h.eq([int(x) for x in T.losing_streak.values], streak(lose), 'losing streak')
        h.eq(vals(T.win_rate()), [sum(win[k] for k in ks) / len(ks) if ks else math.nan for ks in idx], 'win rate')
        pf, ex = [], []
        for ks in idx:
            if not ks:
                pf.append(math.nan)
                ex.append(math.nan)
                continue
            up, down = [pnl[k] for k in ks if win[k]], [-pnl[k] for k in ks if lose[k]]
            a, b = add(up), add(down)
            if not down:
                pf.append(math.inf if up else math.nan)
            else:
                pf.append(a / b)
            r = len(up) / len(ks)
            ex.append(r * (mean(up) if up else 0.0) - (1 - r) * (mean(down) if down else 0.0))
        h.eq(vals(T.profit_factor()), pf, 'profit factor')
        h.eq(vals(T.expectancy()), ex, 'expectancy')
    else:
        h.eq([int(x) for x in T.long.values['id']], [k for k in range(m) if dirs[k] == 0], 'long')
        h.eq([int(x) for x in T.short.values['id']], [k for k in range(m) if dirs[k] == 1], 'short')
        h.eq([int(x) for x in T.open.values['id']], [k for k in range(m) if sts[k] == 0], 'open')
        h.eq([int(x) for x in T.closed.values['id']], [k for k in range(m) if sts[k] == 1], 'closed')
        h.eq(list(T.returns.values), rets, 'returns field')
        h.eq([int(x) for x in T.duration.values], [2 - k % 3 + (1 if sts[k] == 0 else 0) for k in range(m)], 'duration')
    if which == 2:
        sq = []
        for ks in idx:
            xs = [pnl[k] for k in ks]
            if len(xs) < 2:
                sq.append(math.nan)
                continue
            mu = mean(xs)
            sd = sqrt(add([(x - mu) * (x - mu) for x in xs]) / (len(xs) - 1))
            h.assume(sd > 0)
            sq.append(sqrt(float(len(xs))) * mu / sd)
        h.eq(vals(T.sqn()), sq, 'SQN')


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    one = ['none', 'hold', 'bs', 'sb', 'samerow', 'ssb', 'bbs', 'bsb', 'sbs', 'bbss', 'ssbb', 'bsbs', 'sbbs', 'bssb', 'bsss']
    if not q:
        one.append('bsbss')
    for lay in one:
        k = len(LAY[lay])
        for what in ('entry', 'exit', 'pos'):
            if not (q and what == 'pos' and k == 4 and lay != 'bbss'):
                t('trades', w=k, lay=lay, what=what)
        if k < 4 or not q:
            t('conserve', w=k, lay=lay)
        if k < 4 or not q or lay in ('bbss', 'ssbb', 'bsbs'):
            t('inc', w=k, lay=lay)
    for lay, ncol in (('two', 2), ('one2', 2), ('mix', 2), ('cols', 3), ('three', 3)):
        for perm in (None, 'time'):
            for what in ('exit', 'entry', 'pos'):
                if not q or perm or what == 'exit':
                    t('trades', w=2, lay=lay, ncol=ncol, perm=perm, what=what)
        t('conserve', w=2, lay=lay, ncol=ncol)
    t('trades', lay='bs', nanclose=True)
    for eng in ('col', 'row', 'flex', 'flexrow'):
        t('sim', eng=eng)
        t('sim', eng=eng, ncol=2)
    for cols in ((0, 0, 1), (0, 0, 0), (0, 1, 0), (1, 1)):
        t('metrics', cols=cols, which=0)
        t('metrics', cols=cols, which=0, group=True)
        t('metrics', cols=cols, which=1)
    t('metrics', cols=(0, 0, 1), which=2)
    t('metrics', cols=(0, 1), which=2, group=True)
    return out
