"""C26: stop exits are exactly the rows at which the price reaches the level of the entry, with its price and kind."""
import numpy as np
from symx.harness import isnan

PROPERTY = 'C26'
BOUNDS = dict(rows='up to 4', columns='1 and 2', stops='all reals, NaN (off) and both signs (single price), all non-negative reals and NaN (OHLC); per frame, row, column, element',
              prices='all positive reals, NaN gaps', waits='0..2', options='trailing, reverse, is_open_safe, until_next, skip_until_exit, pick_first, chain; entries symbolic or listed')
ASSUMPTIONS = ['NaN entry prices switch the stop off; NaN bars are filled from open and close as documented in the code']
VALIDATE_S = dict(quick=10)


def sym_setup(vbt):
    from symx import load
    load.NATIVE_FRAMES = False
    import checks.c29 as c29
    c29.sym_labels()


def at(v, i, c):
    s = getattr(v, 'shape', ())
    if len(s) == 0:
        return v
    if len(s) == 1:
        return v[c if s[0] > 1 else 0]
    return v[i if s[0] > 1 else 0, c if s[1] > 1 else 0]


def single_hits(ts, stop, trailing, en, lo, hi, c):
    """rows of [lo, hi) at which the price has reached the level; level from the entry price or the extreme since"""
    stop, trail, init = at(stop, en, c), at(trailing, en, c), at(ts, en, c)
    out = []
    seen = [init]
    for i in range(lo, hi):
        x = at(ts, i, c)
        if isnan(stop):
            return []
        base = init
        if trail:
            for s in seen:
                if (s < base) if stop >= 0 else (s > base):
                    base = s
        level = base * (1 + stop)
        if (x >= level) if stop >= 0 else (x <= level):
            out.append(i)
        seen.append(x)
    return out


def ohlc_hits(o, h_, l, cl, cfg, en, lo, hi, c):
    """-> [(row, price, kind)]; 0 stop loss, 1 trailing, 2 take profit"""
    sl, tp, trail, rev = [at(cfg[k], en, c) for k in ('sl', 'tp', 'trail', 'rev')]
    init = at(o, en, c)
    best = init
    out = []
    for i in range(lo, hi):
        O, H, L, C = [at(v, i, c) for v in (o, h_, l, cl)]
        if isnan(O):
            O = C
        if isnan(L):
            L = O if O < C else C
        if isnan(H):
            H = O if O > C else C
        if i == en and not cfg['safe']:
            H = L = C
        hit = None
        if not isnan(sl):
            base = best if trail else init
            level = base * (1 + sl) if rev else base * (1 - sl)
            if (H >= level) if rev else (L <= level):
                hit = (i, level, 1 if trail else 0)
        if hit is None and not isnan(tp):
            level = init * (1 - tp) if rev else init * (1 + tp)
            if (L <= level) if rev else (H >= level):
                hit = (i, level, 2)
        if hit is not None:
            out.append(hit)
        if rev:
            if L < best:
                best = L
        elif H > best:
            best = H
    return out


def serve(ent, n, find, opts):
    """entries one after another -> (entries kept, hits)"""
    ewait, xwait = opts.get('ewait', 1), opts.get('xwait', 1)
    first = opts.get('first', True)
    if opts.get('chain'):
        kept, hits = [], []
        i = 0
        while True:
            nxt = [k for k in ent if k >= i]
            if not nxt:
                return kept, hits
            en = nxt[0]
            kept.append(en)
            hs = find(en, en + xwait, n)
            if not hs:
                return kept, hits
            if first:
                hs = hs[:1]
            hits += hs
            i = hs[-1][0] + ewait if isinstance(hs[-1], tuple) else hs[-1] + ewait
    hits = []
    last = -1
    for k, en in enumerate(ent):
        if opts.get('skip') and en <= last:
            continue
        end = ent[k + 1] if opts.get('until_next', True) and k + 1 < len(ent) else n
        hs = find(en, en + xwait, end)
        if first:
            hs = hs[:1]
        hits += hs
        if hs:
            last = hs[-1][0] if isinstance(hs[-1], tuple) else hs[-1]
    return ent, hits


def rows(r, c, n):
    a = np.asarray(r.to_numpy() if hasattr(r, 'to_numpy') else r).reshape(n, -1)[:, c]
    return [i for i in range(n) if bool(a[i])]


def stop_value(h, name, kind, n, m, lo=None, nan=False):
    if kind == 'off':
        return np.nan
    if kind == 'scalar':
        return h.real(name, lo=lo)
    if kind == 'nan':
        return h.floats(name, 1, nan=True, lo=lo)[0]
    return h.floats2(name, {'rows': (n, 1), 'cols': (1, m), 'full': (n, m)}[kind], nan=nan, lo=lo)


def entry_frame(h, n, m, ent):
    """ent: None (symbolic), or a list of rows per column"""
    if ent is None:
        e = h.masks('e', (n, m))
        return e, [None] * m
    e = np.zeros((n, m), dtype=bool)
    for c in range(m):
        e[ent[c], c] = True
    return e, ent


KW = dict(ewait='entry_wait', xwait='exit_wait', until_next='until_next', skip='skip_until_exit', first='pick_first', chain='chain')


def single(h, n, m=1, ent=None, stop='scalar', trailing=False, nan=False, via='accessor', **opts):
    e, ents = entry_frame(h, n, m, ent)
    ts = h.floats2('x', (n, m), gt=0, nan=nan)
    s = stop_value(h, 's', stop, n, m)
    tr = trailing
    if trailing == 'rows':
        tr = np.array([[i % 2 == 0] for i in range(n)])
    elif trailing == 'cols':
        tr = np.array([[i % 2 == 0 for i in range(m)]])
    fr = (lambda v: h.df(v)) if m > 1 else (lambda v: h.sr(v[:, 0]))
    sa, ta = s, tr
    if m == 1:
        sa = s[:, 0] if getattr(s, 'shape', ()) else s
        ta = tr[:, 0] if hasattr(tr, 'shape') else tr
    chain = opts.get('chain', False)
    if via == 'accessor':
        f = lambda: fr(e).vbt.signals.generate_stop_exits(fr(ts), sa, ta, **{KW[k]: v for k, v in opts.items()})
    else:
        def f():
            ind = h.vbt.STCX if chain else h.vbt.STX
            kw = {dict(xwait='exit_wait' if chain else 'wait', ewait='entry_wait', until_next='until_next', skip='skip_until_exit', first='pick_first')[k]: v
                  for k, v in opts.items() if k != 'chain'}
            r = ind.run(fr(e), fr(ts), stop=[sa] if getattr(sa, 'shape', ()) else sa, trailing=ta, **kw)
            return (r.new_entries, r.exits) if chain else r.exits
    r, exc = h.call(f)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    for c in range(m):
        en = [i for i in range(n) if bool(e[i, c])]
        kept, hits = serve(en, n, lambda a, lo, hi: single_hits(ts, s, tr, a, lo, hi, c), opts)
        if chain:
            h.check(rows(r[0], c, n) == kept, 'column %d: entries kept' % c)
        got = rows(r[1] if chain else r, c, n)
        h.check(got == sorted(set(hits)), 'column %d: exits %s, expected %s' % (c, got, hits))


def ohlc(h, n, m=1, ent=None, sl='scalar', tp='off', trail=False, rev=False, safe=True, nan=(), bars='full', via='accessor', out='auto', **opts):
    e, ents = entry_frame(h, n, m, ent)
    V = {}
    for k in ('open', 'high', 'low', 'close'):
        if bars == 'full' or k == 'open':
            V[k] = h.floats2(k, (n, m), gt=0, nan=k in nan)
    o = V['open']
    hh, ll, cc = [V.get(k, o) for k in ('high', 'low', 'close')]
    cfg = dict(sl=stop_value(h, 'sl', sl, n, m, lo=0), tp=stop_value(h, 'tp', tp, n, m, lo=0), trail=trail, rev=rev, safe=safe)
    if trail == 'rows':
        cfg['trail'] = np.array([[i % 2 == 0] for i in range(n)])
    if rev == 'rows':
        cfg['rev'] = np.array([[i % 2 == 1] for i in range(n)])
    if rev == 'cols':
        cfg['rev'] = np.array([[i % 2 == 1 for i in range(m)]])
    fr = (lambda v: h.df(v)) if m > 1 else (lambda v: h.sr(v[:, 0]))
    A = {}
    for k, name in (('sl', 'sl_stop'), ('tp', 'tp_stop'), ('trail', 'sl_trail'), ('rev', 'reverse')):
        v = cfg[k]
        A[name] = v[:, 0] if m == 1 and getattr(v, 'shape', ()) else v
    chain = opts.get('chain', False)
    od = {}
    if via == 'accessor':
        kw = {KW[k]: v for k, v in opts.items()}
        if out == 'auto':
            kw['out_dict'] = od
        f = lambda: fr(e).vbt.signals.generate_ohlc_stop_exits(*[fr(V[k]) for k in ('open', 'high', 'low', 'close') if k in V],
                                                               is_open_safe=safe, **A, **kw)
    else:
        def f():
            ind = h.vbt.OHLCSTCX if chain else h.vbt.OHLCSTX
            kw = {dict(xwait='exit_wait' if chain else 'wait', ewait='entry_wait', until_next='until_next', skip='skip_until_exit', first='pick_first')[k]: v
                  for k, v in opts.items() if k != 'chain'}
            B = {k: [v] if getattr(v, 'shape', ()) else v for k, v in A.items()}
            r = ind.run(fr(e), *[fr(V[k]) for k in ('open', 'high', 'low', 'close')], is_open_safe=safe, **B, **kw)
            od['stop_price'], od['stop_type'] = r.stop_price, r.stop_type
            return (r.new_entries, r.exits) if chain else r.exits
    r, exc = h.call(f)
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    for c in range(m):
        en = [i for i in range(n) if bool(e[i, c])]
        kept, hits = serve(en, n, lambda a, lo, hi: ohlc_hits(o, hh, ll, cc, cfg, a, lo, hi, c), opts)
        if chain:
            h.check(rows(r[0], c, n) == kept, 'column %d: entries kept' % c)
        got = rows(r[1] if chain else r, c, n)
        want = {}
        for i, p, k in hits:
            want[i] = (p, k)
        h.check(got == sorted(want), 'column %d: exits %s, expected %s' % (c, got, sorted(want)))
        if out == 'auto':
            P = np.asarray(od['stop_price'].to_numpy()).reshape(n, -1)[:, c]
            T = np.asarray(od['stop_type'].to_numpy()).reshape(n, -1)[:, c]
            for i in range(n):
                if i in want:
                    h.eq(P[i], want[i][0], 'price of the stop')
                    h.check(int(T[i]) == want[i][1], 'kind of the stop')
                else:
                    h.check(isnan(P[i]) and int(T[i]) == -1, 'nothing written at a row without an exit')


def negative(h, n, which):
    """negative stops are refused"""
    v = h.real('v')
    o = h.floats('open', n, gt=0)
    e = np.zeros(n, dtype=bool)
    e[0] = True
    r, exc = h.call(lambda: h.sr(e).vbt.signals.generate_ohlc_stop_exits(h.sr(o), **{which: v}))
    if v < 0:
        h.check(exc == 'ValueError', 'negative %s accepted' % which)
    else:
        h.check(exc is None, 'raises %s' % exc)


def tasks(tier):
    q = tier == 'quick'
    out = []
    t = lambda fn, **c: out.append(dict(fn=fn, cfg=c))
    B = (False, True)
    for tr in B:
        for st in ('scalar', 'nan', 'rows'):
            t('single', n=3, stop=st, trailing=tr)
        for xw in (0, 1, 2):
            t('single', n=4, ent=[[0]], trailing=tr, xwait=xw)
            t('single', n=4, ent=[[1]], trailing=tr, xwait=xw, nan=True)
        for first in B:
            for un, sk in ((True, False), (False, False), (False, True)):
                t('single', n=3, trailing=tr, until_next=un, skip=sk, first=first)
                t('single', n=4, ent=[[0, 1]], trailing=tr, until_next=un, skip=sk, first=first)
                t('single', n=3, ent=[[0, 1, 2]], trailing=tr, until_next=un, skip=sk, first=first, xwait=0)
        for ew, xw in ((1, 1), (2, 1), (1, 2), (0, 1), (1, 0)):
            t('single', n=3, trailing=tr, chain=True, ewait=ew, xwait=xw)
            t('single', n=4, ent=[[0, 1, 2, 3]], trailing=tr, chain=True, ewait=ew, xwait=xw, stop='rows')
        t('single', n=3, m=2, ent=[[0], [0, 1]], trailing=tr, stop='full')
        t('single', n=3, m=2, ent=[[1], [0]], trailing=tr, stop='cols')
        t('single', n=3, trailing=tr, via='factory')
        t('single', n=3, trailing=tr, via='factory', stop='rows', xwait=0)
        t('single', n=3, trailing=tr, via='factory', chain=True)
    t('single', n=4, ent=[[0, 1]], trailing='rows', until_next=False, skip=True)
    t('single', n=3, m=2, ent=[[0], [0]], trailing='cols')
    # OHLC
    for rev in B:
        for sl, tp, tr in (('scalar', 'off', False), ('scalar', 'off', True), ('off', 'scalar', False), ('off', 'scalar', True),
                           ('scalar', 'scalar', False), ('scalar', 'scalar', True)):
            t('ohlc', n=3, ent=[[0]], sl=sl, tp=tp, trail=tr, rev=rev)
            for safe in B:
                t('ohlc', n=2, ent=[[0]], sl=sl, tp=tp, trail=tr, rev=rev, safe=safe, xwait=0)
            t('ohlc', n=4, ent=[[0]], sl=sl, tp=tp, trail=tr, rev=rev, xwait=2)
            t('ohlc', n=3, sl=sl, tp=tp, trail=tr, rev=rev, bars='open')
            t('ohlc', n=3, ent=[[0, 1, 2]], sl='rows' if sl == 'scalar' else sl, tp='rows' if tp == 'scalar' else tp, trail=tr, rev=rev, bars='open', chain=True)
        for nan in (('high', 'low'), ('open',), ('open', 'high', 'low'), ('close',)):
            t('ohlc', n=3, ent=[[1]], sl='nan', tp='nan', trail=True, rev=rev, nan=nan)
            t('ohlc', n=2, ent=[[0]], sl='scalar', tp='scalar', trail=False, rev=rev, nan=nan)
        t('ohlc', n=3, ent=[[0]], trail=True, tp='scalar', rev=rev, first=False)
        t('ohlc', n=3, ent=[[0]], trail=True, tp='scalar', rev=rev, via='factory')
        t('ohlc', n=3, ent=[[0, 1]], trail=True, rev=rev, via='factory', chain=True)
    for un, sk in ((True, False), (False, False), (False, True)):
        for first in B:
            t('ohlc', n=3, ent=[[0, 1]], trail=True, sl='rows', tp='off', until_next=un, skip=sk, first=first)
            t('ohlc', n=4, ent=[[0, 1, 2]], tp='scalar', sl='off', until_next=un, skip=sk, first=first, bars='open')
    for ew, xw in ((2, 1), (1, 2), (0, 1), (1, 0)):
        t('ohlc', n=4, ent=[[0, 1, 2, 3]], sl='scalar', tp='scalar', bars='open', chain=True, ewait=ew, xwait=xw)
    t('ohlc', n=3, m=2, ent=[[0], [1]], sl='full', tp='cols', trail='rows', rev='cols')
    t('ohlc', n=3, m=2, ent=[[0], [1]], sl='cols', tp='full', trail=True, rev='rows')
    t('ohlc', n=3, ent=[[0, 1]], sl='rows', tp='rows', trail='rows', rev='rows', until_next=False, bars='open')
    t('ohlc', n=3, ent=[[0]], sl='scalar', trail=True, out=None)
    t('ohlc', n=3, ent=[[0]], sl='rows', tp='rows', via='factory', xwait=0, safe=False)
    for w in ('sl_stop', 'tp_stop'):
        t('negative', n=2, which=w)
    return out
