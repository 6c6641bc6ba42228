"""C24: generated exits lie in the window of their entry, generated pairs alternate with the requested waits."""
import numpy as np

PROPERTY = 'C24'
BOUNDS = dict(rows='4 (thorough 5)', wait='0..2 (and 3)', options='until_next, skip_until_exit, pick_first in all combinations',
              choice_rules='every rule "rows of the window that are marked", marks symbolic; a rule returning any one index from -1 to rows+1')
VALIDATE_S = dict(quick=30)
ASSUMPTIONS = ['the choice rule marks rows independently of the entry it serves (any subset of rows), or returns one arbitrary index']


def marked(h):
    if h.sym:
        empty = h.vbt._symx_np.empty
        i8 = np.int64
    else:
        empty, i8 = np.empty, np.int64

    def f(from_i, to_i, col, pick):
        out = empty(to_i - from_i, dtype=i8)
        j = 0
        for i in range(from_i, to_i):
            if pick[i, col]:
                out[j] = i
                j += 1
        return out[:j]
    if h.sym:
        return f

    def g(from_i, to_i, col, pick):
        out = np.empty(to_i - from_i, dtype=np.int64)
        j = 0
        for i in range(from_i, to_i):
            if pick[i, col]:
                out[j] = i
                j += 1
        return out[:j]
    return h.njit(g)


def fixed(h, k):
    def f(from_i, to_i, col, k):
        return np.array([k])
    return h.njit(f)


def marked_from(h):
    """rows marked for the first row of the window (so two overlapping windows may choose differently)"""
    if h.sym:
        empty, i8 = h.vbt._symx_np.empty, 'int64'
    else:
        empty, i8 = np.empty, np.int64

    def f(from_i, to_i, col, pick):
        out = empty(to_i - from_i, dtype=i8)
        j = 0
        for i in range(from_i, to_i):
            if pick[from_i, i]:
                out[j] = i
                j += 1
        return out[:j]
    if h.sym:
        return f

    def g(from_i, to_i, col, pick):
        out = np.empty(to_i - from_i, dtype=np.int64)
        j = 0
        for i in range(from_i, to_i):
            if pick[from_i, i]:
                out[j] = i
                j += 1
        return out[:j]
    return h.njit(g)


def exits(h, n, ncol, wait, until_next, skip, first, dep=False):
    e = h.masks('e', (n, ncol))
    p = h.masks('p', (n, n if dep else ncol))
    d = h.df(e) if ncol > 1 else h.sr(e[:, 0])
    r, exc = h.call(lambda: d.vbt.signals.generate_exits((marked_from if dep else marked)(h), p, wait=wait, until_next=until_next, skip_until_exit=skip, pick_first=first))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    R = r.to_numpy().reshape(n, -1)
    for c in range(ncol):
        ent = [i for i in range(n) if bool(e[i, c])]
        want = set()
        last = -1
        for k, en in enumerate(ent):
            if skip and en <= last:
                continue
            end = ent[k + 1] if until_next and k + 1 < len(ent) else n
            win = [i for i in range(en + wait, end) if bool(p[en + wait, i] if dep else p[i, c])]
            if first:
                win = win[:1]
            want |= set(win)
            if win:
                last = win[-1]
        got = set([i for i in range(n) if bool(R[i, c])])
        h.check(got == want, 'column %d: exits %s, expected %s' % (c, sorted(got), sorted(want)))


def refused(h, n, wait, first, until_next=True):
    """one index, anywhere: set if inside of the window of every entry asked for, refused otherwise"""
    e = h.masks('e', (n,))
    k = h.int('k', -1, n + 1)
    r, exc = h.call(lambda: h.sr(e).vbt.signals.generate_exits(fixed(h, k), k, wait=wait, until_next=until_next, pick_first=first))
    ent = [i for i in range(n) if bool(e[i])]
    wins = []
    for j, en in enumerate(ent):
        end = ent[j + 1] if until_next and j + 1 < len(ent) else n
        if end > en + wait:
            wins.append((en + wait, end))
    bad = [w for w in wins if not w[0] <= k < w[1]]
    if bad:
        h.check(exc == 'ValueError', 'index %d outside of %s accepted' % (k, bad[0]))
    else:
        h.check(exc is None, 'raises %s' % exc)
        if exc is None:
            got = [i for i in range(n) if bool(r.to_numpy()[i])]
            h.check(got == ([k] if wins else []), 'exit at the index')


def generate(h, n, ncol, first):
    p = h.masks('p', (n, ncol))
    cls = h.vbt.signals.accessors.SignalsDFAccessor
    r, exc = h.call(lambda: cls.generate((n, ncol), marked(h), p, pick_first=first))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    R = r.to_numpy()
    for c in range(ncol):
        m = [i for i in range(n) if bool(p[i, c])]
        got = [i for i in range(n) if bool(R[i, c])]
        h.check(got == (m[:1] if first else m), 'column %d' % c)


def gen_refused(h, n, first):
    k = h.int('k', -1, n + 1)
    cls = h.vbt.signals.accessors.SignalsSRAccessor
    r, exc = h.call(lambda: cls.generate(n, fixed(h, k), k, pick_first=first))
    if 0 <= k < n:
        h.check(exc is None, 'raises %s' % exc)
        if exc is None:
            h.check([i for i in range(n) if bool(r.to_numpy()[i])] == [k], 'signal at the index')
    else:
        h.check(exc == 'ValueError', 'index %d accepted' % k)


def both(h, n, ewait, xwait, efirst, xfirst, ncol=1):
    a, b = h.masks('a', (n, ncol)), h.masks('b', (n, ncol))
    cls = h.vbt.signals.accessors.SignalsDFAccessor
    f = marked(h)
    r, exc = h.call(lambda: cls.generate_both((n, ncol), f, (a,), f, (b,), entry_wait=ewait, exit_wait=xwait,
                                              entry_pick_first=efirst, exit_pick_first=xfirst))
    if ewait == 0 and xwait == 0:
        h.check(exc == 'ValueError', 'two zero waits are refused')
        return
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    E, X = r[0].to_numpy(), r[1].to_numpy()
    for c in range(ncol):
        want = [set(), set()]
        pos, turn = 0, 0
        while pos < n:
            m = [i for i in range(pos, n) if bool((a, b)[turn][i, c])]
            if (efirst, xfirst)[turn]:
                m = m[:1]
            if not m:
                break
            want[turn] |= set(m)
            pos = m[-1] + (xwait, ewait)[turn]
            turn = 1 - turn
        got = [set([i for i in range(n) if bool(y[i, c])]) for y in (E, X)]
        h.check(got == want, 'column %d: %s, expected %s' % (c, got, want))


def both_refused(h, n, ewait, xwait):
    k, m = h.int('k', -1, n + 1), h.int('m', -1, n + 1)
    cls = h.vbt.signals.accessors.SignalsSRAccessor
    r, exc = h.call(lambda: cls.generate_both(n, fixed(h, k), (k,), fixed(h, m), (m,), entry_wait=ewait, exit_wait=xwait))
    if not 0 <= k < n:
        h.check(exc == 'ValueError', 'entry index %d accepted' % k)
    elif k + xwait < n and not k + xwait <= m < n:
        h.check(exc == 'ValueError', 'exit index %d accepted after entry at %d' % (m, k))
    elif k + xwait < n and m + ewait < n:
        h.check(exc == 'ValueError', 'second entry at %d accepted' % k)
    else:
        h.check(exc is None, 'raises %s' % exc)
        if exc is None:
            E, X = r[0].to_numpy(), r[1].to_numpy()
            h.check([i for i in range(n) if bool(E[i])] == [k], 'entry')
            h.check([i for i in range(n) if bool(X[i])] == ([m] if k + xwait < n else []), 'exit')


def chooser(h):
    """rows of the window that are marked, at least p after its first row, and congruent to r modulo m"""
    if h.sym:
        def f(from_i, to_i, col, pick, p, r, m, tmp):
            j = 0
            for i in range(from_i, to_i):
                if pick[i, col] and i - from_i >= p and i % m == r:
                    tmp[j] = i
                    j += 1
            return tmp[:j]
        return f

    def g(from_i, to_i, col, pick, p, r, m, tmp):
        j = 0
        for i in range(from_i, to_i):
            if pick[i, col] and i - from_i >= p and i % m == r:
                tmp[j] = i
                j += 1
        return tmp[:j]
    return h.njit(g)


def sel(h, pick, lo, hi, c, p, r, m, first):
    out = [i for i in range(lo, hi) if i - lo >= p and i % m == r and bool(pick[i, c])]
    return out[:1] if first else out


def signals(h, got, want, k, c, n, ncol, lab):
    h.check([i for i in range(n) if bool(got[i, k * ncol + c])] == sorted(want), '%s, combination %d column %d' % (lab, k, c))


SETS = dict(pass_inputs=['pick'], pass_params=['p'], pass_kwargs=[('m', 1), 'temp_idx_arr'])


def f_entries(h, n, ncol, ps, first=None, m=None, loop=False):
    """entries mode: inputs, parameters, positional and keyword arguments reach the choice function in that order"""
    p = h.masks('p', (n, ncol))
    F = h.vbt.SignalFactory(mode='entries', input_names=['pick'], param_names=['p']).from_choice_func(
        entry_choice_func=chooser(h), entry_settings=SETS, numba_loop=loop, require_input_shape=False, var_args=True)
    kw = {} if first is None else dict(pick_first=first)
    if m is not None:
        kw['m'] = m
    r, exc = h.call(lambda: F.run(h.df(p), list(ps), 0, **kw))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    E = r.entries.to_numpy()
    h.check(E.shape == (n, ncol * len(ps)), 'one column per combination and input column')
    for k, d in enumerate(ps):
        for c in range(ncol):
            signals(h, E, sel(h, p, 0, n, c, d, 0, m or 1, bool(first)), k, c, n, ncol, 'entries')


def f_exits(h, n, ncol, ps, kw, m=None, loop=False):
    """exits mode: one run of the generator per parameter value, with the factory's defaults"""
    e, p = h.masks('e', (n, ncol)), h.masks('p', (n, ncol))
    F = h.vbt.SignalFactory(mode='exits', input_names=['pick'], param_names=['p']).from_choice_func(
        exit_choice_func=chooser(h), exit_settings=SETS, numba_loop=loop, var_args=True)
    kk = dict(kw)
    if m is not None:
        kk['m'] = m
    r, exc = h.call(lambda: F.run(h.df(e), h.df(p), list(ps), 0, **kk))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    X = r.exits.to_numpy()
    wait, first = kw.get('wait', 1), kw.get('pick_first', True)
    until, skip = kw.get('until_next', True), kw.get('skip_until_exit', False)
    for k, d in enumerate(ps):
        for c in range(ncol):
            ent = [i for i in range(n) if bool(e[i, c])]
            want, last = set(), -1
            for j, en in enumerate(ent):
                if skip and en <= last:
                    continue
                end = ent[j + 1] if until and j + 1 < len(ent) else n
                s = sel(h, p, en + wait, end, c, d, 0, m or 1, first) if en + wait < end else []
                want |= set(s)
                if s:
                    last = s[-1]
            signals(h, X, want, k, c, n, ncol, 'exits')


def f_both(h, n, ncol, ps, qs, ekw, xkw, loop=False, cache=False):
    """both mode: separate arguments, settings and parameters for entries and exits; cache handed to both"""
    a, b = h.masks('a', (n, ncol)), h.masks('b', (n, ncol))
    es, xs = dict(SETS, pass_inputs=['pa']), dict(SETS, pass_inputs=['pb'], pass_params=['q'])
    more = {}
    if cache:
        es, xs = dict(pass_inputs=['pa'], pass_params=['p'], pass_cache=True), dict(pass_inputs=['pb'], pass_params=['q'], pass_cache=True)

        def cf(pb, qs, z, wait):
            return 0, 1, np.empty(z + wait, dtype=np.int64)
        more = dict(cache_func=cf, cache_settings=dict(pass_inputs=['pb'], pass_params=['q'], pass_kwargs=['wait']))
    F = h.vbt.SignalFactory(mode='both', input_names=['pa', 'pb'], param_names=['p', 'q']).from_choice_func(
        entry_choice_func=chooser(h), exit_choice_func=chooser(h), entry_settings=es, exit_settings=xs, numba_loop=loop,
        require_input_shape=False, **more)
    kk = dict(cache_args=(n,)) if cache else dict(entry_args=(0,), exit_args=(ekw.get('xr', 0),))
    r, exc = h.call(lambda: F.run(h.df(a), h.df(b), list(ps), list(qs), entry_kwargs={k: v for k, v in ekw.items() if k != 'xr'},
                                  exit_kwargs=xkw, **kk))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    E, X = r.entries.to_numpy(), r.exits.to_numpy()
    for k in range(len(ps)):
        for c in range(ncol):
            want = walk2(h, a, b, n, c, ps[k], qs[k], ekw, xkw)
            signals(h, E, want[0], k, c, n, ncol, 'entries')
            signals(h, X, want[1], k, c, n, ncol, 'exits')


def walk2(h, a, b, n, c, da, db, ekw, xkw):
    want = [set(), set()]
    pos, turn = 0, 0
    kws = (ekw, xkw)
    while pos < n:
        s = sel(h, (a, b)[turn], pos, n, c, (da, db)[turn], (0, ekw.get('xr', 0))[turn], kws[turn].get('m', 1), kws[turn].get('pick_first', True))
        if not s:
            break
        want[turn] |= set(s)
        pos = s[-1] + kws[1 - turn].get('wait', 1)
        turn = 1 - turn
    return want


def f_chain(h, n, ncol, ps, wait=None, loop=False):
    """chain mode: the first input entry after the previous exit, then the chosen exit, and so on"""
    e, p = h.masks('e', (n, ncol)), h.masks('p', (n, ncol))
    F = h.vbt.SignalFactory(mode='chain', input_names=['pick'], param_names=['p']).from_choice_func(
        exit_choice_func=chooser(h), exit_settings=SETS, numba_loop=loop, var_args=True)
    kw = {} if wait is None else dict(wait=wait)
    r, exc = h.call(lambda: F.run(h.df(e), h.df(p), list(ps), 0, **kw))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    E, X = r.new_entries.to_numpy(), r.exits.to_numpy()
    for k, d in enumerate(ps):
        for c in range(ncol):
            want = walk2(h, e, p, n, c, 0, d, {}, kw)
            signals(h, E, want[0], k, c, n, ncol, 'new entries')
            signals(h, X, want[1], k, c, n, ncol, 'exits')


def tasks(tier):
    q = tier == 'quick'
    out = []
    t = lambda fn, **c: out.append(dict(fn=fn, cfg=c))
    for wait in (0, 1, 2):
        for un, sk in ((True, False), (False, False), (False, True)):
            for first in (True, False):
                t('exits', n=4 if q else 5, ncol=1, wait=wait, until_next=un, skip=sk, first=first)
                if not un:
                    t('exits', n=4, ncol=1, wait=wait, until_next=un, skip=sk, first=first, dep=True)
    t('exits', n=4, ncol=1, wait=3, until_next=False, skip=True, first=True)
    t('exits', n=2, ncol=2, wait=1, until_next=True, skip=False, first=True)
    t('exits', n=2, ncol=2, wait=0, until_next=False, skip=True, first=True)
    for first in (True, False):
        for wait in (0, 1, 2):
            t('refused', n=3, wait=wait, first=first)
        t('refused', n=3, wait=1, first=first, until_next=False)
        t('generate', n=3, ncol=2, first=first)
        t('gen_refused', n=3, first=first)
    for ew, xw in ((1, 1), (0, 1), (1, 0), (2, 1), (1, 2), (2, 2), (0, 0)):
        for ef, xf in ((True, True), (True, False), (False, True), (False, False)):
            if (ew == 0 or xw == 0) and not (ef and xf):
                continue
            t('both', n=4, ewait=ew, xwait=xw, efirst=ef, xfirst=xf)
    t('both', n=2, ewait=1, xwait=1, efirst=True, xfirst=True, ncol=2)
    for ew, xw in ((1, 1), (2, 1), (1, 2)):
        t('both_refused', n=3, ewait=ew, xwait=xw)
    for loop in (False, True):
        t('f_entries', n=3, ncol=1, ps=[0, 1, 0], first=None, loop=loop)
        t('f_exits', n=3, ncol=1, ps=[0, 1], kw={}, loop=loop)
        t('f_both', n=3, ncol=1, ps=[0, 1], qs=[0, 1], ekw={}, xkw={}, loop=loop)
        t('f_chain', n=3, ncol=1, ps=[0, 1], loop=loop)
    t('f_entries', n=3, ncol=2, ps=[1, 0], first=True)
    t('f_entries', n=4, ncol=1, ps=[0, 1], first=False, m=2)
    t('f_exits', n=2, ncol=2, ps=[0, 1], kw={})
    t('f_exits', n=4, ncol=1, ps=[1, 0], kw=dict(wait=0, until_next=False, skip_until_exit=True, pick_first=False))
    t('f_exits', n=4, ncol=1, ps=[0], kw=dict(wait=2, until_next=False), m=2)
    t('f_both', n=4, ncol=1, ps=[0, 1], qs=[1, 0], ekw=dict(wait=2, m=2), xkw=dict(pick_first=False))
    t('f_both', n=4, ncol=1, ps=[0], qs=[0], ekw=dict(wait=0, xr=1), xkw=dict(wait=1, m=2))
    t('f_both', n=2, ncol=2, ps=[0, 0], qs=[0, 1], ekw={}, xkw={})
    t('f_both', n=3, ncol=1, ps=[0, 1], qs=[1, 0], ekw={}, xkw={}, cache=True)
    t('f_chain', n=2, ncol=2, ps=[0, 1])
    t('f_chain', n=4, ncol=1, ps=[1, 0], wait=0)
    t('f_chain', n=4, ncol=1, ps=[0], wait=2)
    return out
