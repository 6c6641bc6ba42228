"""C27: random signals keep their contract whatever the random source returns (the generator is an adversary)."""
import numpy as np
from symx.harness import isnan
from checks.order_common import account, order, close_setup, enums

PROPERTY = 'C27'
BOUNDS = dict(rows='up to 4 (pairs: up to 8)', columns='1 and 2', n='0..4', waits='0..2', probabilities='any real in [0, 1], per frame / row / column / element, and exactly 0 and 1',
              generator='every outcome: uniform draws any real in [0, 1), choices without replacement any selection in any order, randint any value of its range')
ASSUMPTIONS = ['pairs: the requested number of pairs fits into the rows']
VALIDATE_S = dict(quick=10)


def sym_setup(vbt):
    close_setup(vbt)
    from symx import load
    load.NATIVE_FRAMES = True
    import checks.c29 as c29
    c29.sym_labels()


def S(h, df=True):
    a = h.vbt.signals.accessors
    return a.SignalsDFAccessor if df else a.SignalsSRAccessor


def rows(r, c=0):
    a = np.asarray(r.to_numpy())
    a = a if a.ndim == 1 else a[:, c]
    return [i for i in range(len(a)) if bool(a[i])]


def entries_n(h, n, ns, via='accessor'):
    h.rng()
    if via == 'accessor':
        if isinstance(ns, (list, tuple)):
            r, exc = h.call(lambda: S(h).generate_random((n, len(ns)), n=list(ns)))
        else:
            r, exc = h.call(lambda: S(h, False).generate_random(n, n=ns))
    else:
        r, exc = h.call(lambda: h.vbt.RAND.run(n=[np.array(ns)] if isinstance(ns, (list, tuple)) else ns,
                                               input_shape=(n, len(ns)) if isinstance(ns, (list, tuple)) else (n,)).entries)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    for c, k in enumerate(ns if isinstance(ns, (list, tuple)) else [ns]):
        h.check(len(rows(r, c)) == min(k, n), 'column %d: %d entries of %d' % (c, len(rows(r, c)), k))


def prob_arr(h, kind, n, m):
    """-> (argument, p(i, c))"""
    if kind in (0, 1):
        return float(kind), lambda i, c: float(kind)
    if kind == 'scalar':
        p = h.real('p', lo=0, hi=1)
        return p, lambda i, c: p
    if kind == 'rows':
        p = h.floats2('p', (n, 1), lo=0, hi=1)
        return p, lambda i, c: p[i, 0]
    if kind == 'cols':
        p = h.floats('p', m, lo=0, hi=1)
        return p, lambda i, c: p[c]
    p = h.floats2('p', (n, m), lo=0, hi=1)
    return p, lambda i, c: p[i, c]


def entries_p(h, n, m, kind, first=False):
    h.rng()
    arg, p = prob_arr(h, kind, n, m)
    r, exc = h.call(lambda: S(h).generate_random((n, m), prob=arg, pick_first=first))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    for c in range(m):
        got = rows(r, c)
        if first:
            h.check(len(got) <= 1, 'at most one')
        for i in range(n):
            h.check(not (i in got and p(i, c) == 0), 'probability 0 never signals')
            if not first or not got or i < got[0]:
                h.check(not (i not in got and p(i, c) == 1), 'probability 1 always signals')


def windows(ent, n, wait, until_next):
    out = []
    for k, en in enumerate(ent):
        end = ent[k + 1] if until_next and k + 1 < len(ent) else n
        out.append((en + wait, end))
    return out


def judge_exits(h, ent, got, n, wait, until_next, skip, lab, must=None, never=None):
    """exits are those of the processed entries, one each, inside of its window"""
    rest = list(got)
    last = -1
    if until_next:
        for lo, hi in windows(ent, n, wait, True):
            x = [i for i in got if lo <= i < hi]
            h.check(len(x) <= 1, lab + 'one exit per entry')
            if must == 'some':
                h.check(len(x) == (1 if hi > lo else 0), lab + 'every entry with a window has its exit')
            if must == 'first':
                h.check(x == ([lo] if hi > lo else []), lab + 'exit in the first row of the window')
            rest = [i for i in rest if i not in x]
        h.check(not rest, lab + 'exits %s outside of every window' % rest)
    elif skip:
        left = sorted(got)
        for en in ent:
            if en <= last:
                continue
            nxt = [i for i in left if i >= en + wait]
            if must in ('some', 'first') and en + wait < n:
                h.check(bool(nxt), lab + 'entry %d has its exit' % en)
                if must == 'first' and nxt:
                    h.check(nxt[0] == en + wait, lab + 'exit right after the wait')
            if not nxt:
                continue
            h.check(left[0] >= en + wait, lab + 'exit %d before the window of entry %d' % (left[0], en))
            last = nxt[0]
            left = [i for i in left if i > last]
        h.check(not left, lab + 'exits %s belong to no entry' % left)
    else:
        h.check(all([any([i >= en + wait for en in ent]) for i in got]), lab + 'exits before any window')
        h.check(len(got) <= len(ent), lab + 'more exits than entries')
    if never:
        h.check(not got, lab + 'probability 0 never signals')


def exits(h, n, m, wait, until_next=True, skip=False, kind=None):
    h.rng()
    e = h.masks('e', (n, m))
    d = h.df(e) if m > 1 else h.sr(e[:, 0])
    kw = dict(wait=wait, until_next=until_next, skip_until_exit=skip)
    p = None
    if kind is not None:
        arg, p = prob_arr(h, kind, n, m)
        kw['prob'] = h.df(arg) if kind == 'full' and m > 1 else arg
    r, exc = h.call(lambda: d.vbt.signals.generate_random_exits(**kw))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    for c in range(m):
        ent = [i for i in range(n) if bool(e[i, c])]
        got = rows(r, c)
        judge_exits(h, ent, got, n, wait, until_next, skip, 'column %d: ' % c,
                    must='some' if kind is None else 'first' if kind == 1 else None, never=kind == 0)
        if p is not None and kind not in (0, 1):
            for i in got:
                h.check(p(i, c) > 0, 'exit at a row of probability 0')


def judge_pairs(h, E, X, n, ewait, xwait, lab, count=None):
    """alternation with waits, starting with an entry"""
    if count is not None:
        h.check(len(E) == count and len(X) == count, lab + '%d entries and %d exits of %d' % (len(E), len(X), count))
    h.check(len(E) - len(X) in (0, 1), lab + 'entries and exits do not pair up')
    for k in range(len(X)):
        h.check(X[k] - E[k] >= xwait, lab + 'exit %d too early' % k)
    for k in range(1, len(E)):
        if k - 1 < len(X):
            h.check(E[k] - X[k - 1] >= ewait, lab + 'entry %d too early' % k)
    h.check(all([0 <= i < n for i in E + X]), lab + 'rows inside of the frame')


def pairs_n(h, n, k, ewait=1, xwait=1, via='accessor'):
    h.rng()
    ks = list(k) if isinstance(k, (list, tuple)) else [k]
    if via == 'accessor':
        f = lambda: S(h).generate_random_both((n, len(ks)), n=ks, entry_wait=ewait, exit_wait=xwait)
    else:
        def f():
            r = h.vbt.RANDNX.run(n=[np.array(ks)], input_shape=(n, len(ks)), entry_wait=ewait, exit_wait=xwait)
            return r.entries, r.exits
    r, exc = h.call(f)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    for c, kk in enumerate(ks):
        judge_pairs(h, rows(r[0], c), rows(r[1], c), n, ewait, xwait, 'column %d: ' % c, kk)


def pairs_p(h, n, ewait=1, xwait=1, kind='scalar', xkind='scalar', via='accessor', efirst=True, xfirst=True):
    h.rng()
    a = float(kind) if kind in (0, 1) else h.real('ep', lo=0, hi=1) if kind == 'scalar' else h.floats2('ep', (n, 1), lo=0, hi=1)
    b = float(xkind) if xkind in (0, 1) else h.real('xp', lo=0, hi=1) if xkind == 'scalar' else h.floats2('xp', (n, 1), lo=0, hi=1)
    if via == 'accessor':
        f = lambda: S(h).generate_random_both((n, 1), entry_prob=a, exit_prob=b, entry_wait=ewait, exit_wait=xwait,
                                              entry_pick_first=efirst, exit_pick_first=xfirst)
    else:
        def f():
            r = h.vbt.RPROBNX.run(entry_prob=a, exit_prob=b, input_shape=(n,), entry_wait=ewait, exit_wait=xwait)
            return r.entries, r.exits
    r, exc = h.call(f)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    E, X = rows(r[0]), rows(r[1])
    if efirst and xfirst:
        judge_pairs(h, E, X, n, ewait, xwait, '')
    if kind == 0:
        h.check(not E and not X, 'no entry, no exit')
    if kind == 1 and xkind == 1 and efirst and xfirst:
        want, i, t = [[], []], 0, 0
        while i < n:
            want[t].append(i)
            i += (xwait, ewait)[t]
            t = 1 - t
        h.check([E, X] == want, 'certain signals come as early as they may')
    if xkind == 0:
        h.check(not X and (len(E) <= 1 or not efirst), 'no exit, so a single entry')
    at = lambda v, i: v[i, 0] if getattr(v, 'shape', ()) else v
    for i in E:
        h.check(at(a, i) > 0, 'entry of probability 0')
    for i in X:
        h.check(at(b, i) > 0, 'exit of probability 0')


def factory(h, n, which):
    """RANDX, RPROB, RPROBX, RPROBCX"""
    h.rng()
    p = h.real('p', lo=0, hi=1)
    if which == 'RPROB':
        r, exc = h.call(lambda: h.vbt.RPROB.run(prob=p, input_shape=(n,)).entries)
        h.check(exc is None, 'raises %s' % exc)
        if exc is None:
            got = rows(r)
            h.check(not (got and p == 0) and not (len(got) < n and p == 1), 'certain and impossible signals')
        return
    e = h.masks('e', (n,))
    ent = [i for i in range(n) if bool(e[i])]
    if which == 'RANDX':
        r, exc = h.call(lambda: h.vbt.RANDX.run(h.sr(e)).exits)
    elif which == 'RPROBX':
        r, exc = h.call(lambda: h.vbt.RPROBX.run(h.sr(e), prob=p).exits)
    else:
        def f():
            r = h.vbt.RPROBCX.run(h.sr(e), prob=p)
            return r.new_entries, r.exits
        r, exc = h.call(f)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    if which == 'RPROBCX':
        E, X = rows(r[0]), rows(r[1])
        judge_pairs(h, E, X, n, 1, 1, '')
        h.check(set(E) <= set(ent), 'entries are among the given ones')
        h.check(not (X and p == 0), 'probability 0 never signals')
    else:
        got = rows(r)
        judge_exits(h, ent, got, n, 1, True, False, '', must='some' if which == 'RANDX' else None)
        if which == 'RPROBX':
            h.check(not (got and p == 0), 'probability 0 never signals')


def reject(h, kind):
    """reject probability of an order: the outcome is the order's own or a rejection that leaves the account alone"""
    import vectorbt.portfolio.nb as nb
    e = enums()
    h.rng()
    st = account(h, None)
    o = order(h, 0, 0)
    rp = float(kind) if kind in (0, 1) else h.real('rp', gt=0, lt=1)
    s0, r0 = nb.execute_order_nb(st, o._replace(reject_prob=0.0))
    s1, r1 = nb.execute_order_nb(st, o._replace(reject_prob=rp))
    st0 = [float(int(r0.status)), float(int(r0.status_info))]
    st1 = [float(int(r1.status)), float(int(r1.status_info))]
    randomly = int(r1.status) == e.OrderStatus.Rejected and int(r1.status_info) == e.OrderStatusInfo.RandomEvent
    if kind == 0:
        h.check(not randomly, 'probability 0 never rejects')
    if randomly:
        h.eq([s1.cash, s1.position, s1.debt, s1.free_cash], [st.cash, st.position, st.debt, st.free_cash], 'account untouched')
    else:
        h.eq(st1, st0, 'own outcome')
        h.eq([s1.cash, s1.position, s1.debt, s1.free_cash], [s0.cash, s0.position, s0.debt, s0.free_cash], 'own outcome')
        h.check(not (kind == 1 and int(r0.status) == e.OrderStatus.Filled), 'probability 1 always rejects')


def shuffled(h, n, m):
    """shuffling permutes the values of each column"""
    h.rng()
    x = h.floats2('x', (n, m))
    r, exc = h.call(lambda: h.df(x).vbt.shuffle())
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    R = r.to_numpy()
    from checks.c16 import ssort
    for c in range(m):
        h.eq(ssort([R[i, c] for i in range(n)]), ssort([x[i, c] for i in range(n)]), 'same values in column %d' % c)


def tasks(tier):
    q = tier == 'quick'
    out = []
    t = lambda fn, **c: out.append(dict(fn=fn, cfg=c))
    for k in (0, 1, 2, 3, 5):
        t('entries_n', n=4, ns=k)
    t('entries_n', n=3, ns=[0, 2])
    t('entries_n', n=3, ns=[2, 1])
    t('entries_n', n=3, ns=2, via='factory')
    t('entries_n', n=3, ns=[2, 0], via='factory')
    for kind in (0, 1, 'scalar', 'rows', 'cols', 'full'):
        t('entries_p', n=2, m=2, kind=kind)
        t('entries_p', n=2, m=2, kind=kind, first=True)
    t('entries_p', n=4, m=1, kind='rows')
    for wait in (0, 1, 2):
        for un, sk in ((True, False), (False, False), (False, True)):
            t('exits', n=4, m=1, wait=wait, until_next=un, skip=sk)
            t('exits', n=3, m=1, wait=wait, until_next=un, skip=sk, kind='scalar')
    for kind in (0, 1):
        t('exits', n=4, m=1, wait=1, kind=kind)
        t('exits', n=4, m=1, wait=1, until_next=False, skip=True, kind=kind)
    t('exits', n=2, m=2, wait=1)
    t('exits', n=2, m=2, wait=1, kind='full')
    t('exits', n=2, m=2, wait=0, until_next=False, skip=True, kind='full')
    for n, k in ((2, 1), (3, 1), (4, 1), (4, 2), (5, 2)):
        t('pairs_n', n=n, k=k)
    t('pairs_n', n=4, k=[1, 2])
    t('pairs_n', n=4, k=[0, 1])
    t('pairs_n', n=4, k=1, via='factory')
    for ew, xw in ((1, 2), (2, 1), (2, 2), (0, 1), (1, 0), (0, 2), (2, 0)):
        t('pairs_n', n=4, k=1, ewait=ew, xwait=xw)
        t('pairs_n', n=4, k=0, ewait=ew, xwait=xw)
        need = ew + xw + xw + 1
        for extra in ((0, 1) if q else (0, 1, 2)):
            t('pairs_n', n=need + extra, k=2, ewait=ew, xwait=xw)
        t('pairs_n', n=need + ew + xw, k=3, ewait=ew, xwait=xw)
    t('pairs_n', n=4, k=[0, 1, 1], ewait=1, xwait=0)
    if not q:
        t('pairs_n', n=3, k=[1, 2], ewait=1, xwait=0)
    t('pairs_n', n=6, k=[0, 1], ewait=2, xwait=1, via='factory')
    for ew, xw in ((1, 1), (1, 2), (2, 1), (0, 1), (1, 0)):
        for kind, xkind in (('scalar', 'scalar'), (1, 1), (0, 'scalar'), ('scalar', 0), (1, 'scalar'), ('rows', 'rows')):
            t('pairs_p', n=3, ewait=ew, xwait=xw, kind=kind, xkind=xkind)
    t('pairs_p', n=3, via='factory')
    t('pairs_p', n=3, kind='rows', xkind='rows', xfirst=False)
    t('pairs_p', n=3, kind='rows', xkind='rows', efirst=False)
    for w in ('RPROB', 'RANDX', 'RPROBX', 'RPROBCX'):
        t('factory', n=3, which=w)
    for kind in (0, 1, 'any'):
        t('reject', kind=kind)
    t('shuffled', n=3, m=2)
    return out
