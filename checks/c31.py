"""C31: groupers partition the columns consistently; index functions keep every label at its position."""
import numpy as np
import pandas as pd

PROPERTY = 'C31'
BOUNDS = dict(columns='up to 4 (thorough 5) with every assignment to up to 3 labels, including non-contiguous ones; pairs of assignments of 3 columns',
              kernel='group codes left symbolic (any integers in 0..4) for the group-length kernel, up to 5 columns',
              labels='index labels over 2-3 letters, up to 3 levels and 4 labels per index')
ASSUMPTIONS = ['pandas itself (factorize, MultiIndex) runs natively on the concrete labels of each path']
L = 'xyz'


def lens(h, n):
    """the kernel on symbolic codes"""
    from vectorbt.base.column_grouper import get_group_lens_nb
    g = h.modes('g', (n,), 0, 4)
    out, exc = h.call(lambda: get_group_lens_nb(g))
    order = all(bool(g[i] <= g[i + 1]) for i in range(n - 1))
    if not order:
        h.eq(exc, 'ValueError', 'unsorted groups are refused')
        return
    h.check(exc is None, 'raises %s' % exc)
    if exc is not None:
        return
    runs = []
    for i in range(n):
        if i and bool(g[i] == g[i - 1]):
            runs[-1] += 1
        else:
            runs.append(1)
    h.eq([int(x) for x in out], runs, 'one length per group')


def assignment(h, n, tag='g', k=3):
    return [L[h.int('%s%d' % (tag, i), 0, k - 1)] for i in range(n)]


def codes_of(labels):
    order = list(dict.fromkeys(labels))
    return [order.index(x) for x in labels], order


def consistent(h, G, labels, order, codes, **kw):
    n = len(labels)
    h.eq([int(x) for x in G.get_groups(**kw)], codes, 'group of every column')
    h.eq(list(G.get_columns(**kw)), order, 'group labels in order of first appearance')
    srt = codes == sorted(codes)
    h.eq(bool(G.is_sorted(**kw)), srt, 'sortedness')
    for f in ('get_group_lens', 'get_group_count', 'get_group_start_idxs', 'get_group_end_idxs'):
        r, exc = h.call(lambda: getattr(G, f)(**kw))
        if not srt:
            h.eq(exc, 'ValueError', f + ' refuses groups that are not coherent')
            continue
        cnt = [codes.count(j) for j in range(len(order))]
        st = [sum(cnt[:j]) for j in range(len(order))]
        want = dict(get_group_lens=cnt, get_group_count=len(order), get_group_start_idxs=st,
                    get_group_end_idxs=[a + b for a, b in zip(st, cnt)])[f]
        h.check(exc is None, f + ' raises %s' % exc)
        if exc is None:
            h.eq(r if np.ndim(r) == 0 else [int(x) for x in r], want, f)


def grouper(h, n, how):
    from vectorbt.base.column_grouper import ColumnGrouper
    labels = assignment(h, n)
    cols = pd.Index(['c%d' % i for i in range(n)], name='col')
    kw = {}
    if how == 'list':
        gb = labels
    elif how == 'array':
        gb = np.array([L.index(x) for x in labels])
        labels = [L.index(x) for x in labels]
    elif how == 'index':
        gb = pd.Index(labels, name='grp')
    elif how in ('level', 'levelpos', 'levels'):
        other = assignment(h, n, 'o', 2)
        cols = pd.MultiIndex.from_arrays([other, labels, ['c%d' % i for i in range(n)]], names=['a', 'b', 'c'])
        if how == 'levels':
            gb = ['a', 'b']
            labels = list(zip(other, labels))
        else:
            gb = 'b' if how == 'level' else 1
    elif how == 'arg':
        gb = labels
        kw = dict(group_by=gb)
    G = ColumnGrouper(cols, group_by=None if kw else gb)
    codes, order = codes_of(labels)
    consistent(h, G, labels, order, codes, **kw)
    if how == 'index':
        h.eq(G.get_columns().name, 'grp', 'name of the groups')
    if how == 'arg':
        consistent(h, G, list(cols), list(cols), list(range(n)))
        consistent(h, G, ['group'] * n, ['group'], [0] * n, group_by=True)
        consistent(h, ColumnGrouper(cols, group_by=gb), list(cols), list(cols), list(range(n)), group_by=False)
    W = h.vbt.ArrayWrapper(pd.RangeIndex(2), cols, 2, group_by=gb)
    if codes == sorted(codes):
        h.eq(list(W.get_columns()), order, 'wrapper: group labels')
        h.eq(tuple(W.get_shape_2d()), (2, len(order)), 'wrapper: grouped shape')
    h.eq(tuple(W.shape_2d), (2, n), 'wrapper: shape')
    h.eq(list(W.regroup(False).get_columns()), list(cols), 'wrapper: ungrouped')


def changes(h, n, gb1):
    """enabled / disabled / modified / changed, and the permissions built on them"""
    from vectorbt.base.column_grouper import ColumnGrouper
    cols = pd.Index(['c%d' % i for i in range(n)])
    a = assignment(h, n, 'a', 2) if gb1 else None
    kind = h.choice('kind', ['None', 'False', 'True', 'seq'])
    b = assignment(h, n, 'b', 2) if kind == 'seq' else dict(zip(['None', 'False', 'True'], [None, False, True]))[kind]
    G = ColumnGrouper(cols, group_by=a)
    new = a if b is None else None if b is False else ['group'] * n if b is True else b
    h.eq(G.is_grouped(group_by=b), new is not None, 'is_grouped')
    en, dis = a is None and new is not None, a is not None and new is None
    mod = a is not None and new is not None and codes_of(a)[0] != codes_of(new)[0]
    h.eq(G.is_grouping_enabled(group_by=b), en, 'enabled')
    h.eq(G.is_grouping_disabled(group_by=b), dis, 'disabled')
    if not dis:
        h.eq(G.is_grouping_modified(group_by=b), mod or en, 'modified')
    if isinstance(b, list) or b is None:
        bb = pd.Index(b) if b is not None else None
        h.eq(G.is_grouping_changed(group_by=bb), b is not None and a != b, 'changed')
    for flag, bad in (('allow_enable', en), ('allow_disable', dis), ('allow_modify', mod)):
        H = ColumnGrouper(cols, group_by=a, **{flag: False})
        _, exc = h.call(lambda: H.get_groups(group_by=b))
        h.eq(exc, 'ValueError' if bad else None, flag + ' forbids exactly that')
        _, exc = h.call(lambda: G.check_group_by(group_by=b, **{flag: False}))
        h.eq(exc, 'ValueError' if bad else None, flag + ' as argument')


def idx(h, tag, n, name=None, k=2, kind='str'):
    v = ['ab'[h.int('%s%d' % (tag, i), 0, k - 1)] for i in range(n)]
    return pd.Index(v, name=name), v


def mi(h, tag, n, names, k=2):
    lv = [['abc'[h.int('%s%d_%d' % (tag, l, i), 0, k - 1)] for i in range(n)] for l in range(len(names))]
    if len(names) == 1:
        return pd.Index(lv[0], name=names[0]), lv
    return pd.MultiIndex.from_arrays(lv, names=names), lv


def levels_of(index):
    if isinstance(index, pd.MultiIndex):
        return [(index.names[l], list(index.get_level_values(l))) for l in range(index.nlevels)]
    return [(index.name, list(index))]


def rep_tile(h, nlev, n, times):
    from vectorbt.base import index_fns as f
    ix, lv = mi(h, 'i', n, ['p', 'q'][:nlev])
    for nm, fn, pick in (('repeat', f.repeat_index, lambda v: [x for x in v for _ in range(times)]),
                         ('tile', f.tile_index, lambda v: list(v) * times)):
        got = levels_of(fn(ix, times))
        h.eq(got, [(k, pick(v)) for k, v in levels_of(ix)], nm)
        r = fn(pd.RangeIndex(n), times)
        h.eq(list(r), list(range(n * times)), nm + ' of a default index is a range')
        r = fn(pd.RangeIndex(n), times, ignore_default=False)
        h.eq(list(r), pick(list(range(n))), nm + ' keeping default indexes')


def dedup(levels, keep):
    """drop levels equal in name and labels, keeping the first or the last"""
    out = []
    seq = levels if keep == 'first' else levels[::-1]
    for x in seq:
        if x not in out:
            out.append(x)
    return out if keep == 'first' else out[::-1]


def redundant(levels):
    n = len(levels[0][1])
    out = [(k, v) for k, v in levels if not (k is None and ((n > 1 and len(set(v)) == 1) or v == list(range(n))))]
    return out if out else levels


def stack(h, n, names1, names2):
    from vectorbt.base import index_fns as f
    a, _ = mi(h, 'a', n, names1)
    b, _ = mi(h, 'b', n, names2)
    lv = levels_of(a) + levels_of(b)
    h.eq(levels_of(f.stack_indexes([a, b], drop_duplicates=False, drop_redundant=False)), lv, 'stacked levels')
    for keep in ('first', 'last'):
        h.eq(levels_of(f.stack_indexes([a, b], drop_duplicates=True, keep=keep, drop_redundant=False)), dedup(lv, keep), 'no duplicates, ' + keep)
    h.eq(levels_of(f.stack_indexes([a, b], drop_duplicates=False, drop_redundant=True)), redundant(lv), 'no redundant levels')
    h.eq(levels_of(f.stack_indexes([a, b])), redundant(dedup(lv, 'last')), 'defaults')


def combine(h, n, m):
    from vectorbt.base import index_fns as f
    a, va = idx(h, 'a', n, 'p')
    b, vb = idx(h, 'b', m, h.choice('nm', ['q', None]))
    got = f.combine_indexes([a, b], drop_duplicates=False, drop_redundant=False)
    h.eq([tuple(x) for x in got], [(x, y) for x in va for y in vb], 'Cartesian product')
    c = pd.Index(['u', 'v'], name='r')
    got = f.combine_indexes([a, b, c], drop_duplicates=False, drop_redundant=False)
    h.eq([tuple(x) for x in got], [(x, y, z) for x in va for y in vb for z in 'uv'], 'Cartesian product of three')
    got = f.combine_indexes([a, c])
    h.eq([tuple(x) for x in got], [(x, z) for x in va for z in 'uv'], 'defaults')


def drop(h, n):
    from vectorbt.base import index_fns as f
    names = ['p', 'q', h.choice('n3', [None, 'r'])]
    ix, _ = mi(h, 'i', n, names)
    lv = levels_of(ix)
    which = h.choice('which', [('p',), (1,), ('p', 'q'), (0, 1, 2), (-1,), ('q', 2), 'p', 2, ('zz',), ('zz', 0)])
    if 'zz' in (which if isinstance(which, tuple) else ()):
        _, exc = h.call(lambda: f.drop_levels(ix, list(which)))
        h.check(exc is not None, 'unknown levels are refused in strict mode')
    gone = set()
    for x in which if isinstance(which, tuple) else (which,):
        if x in names and not isinstance(x, int):
            gone.add(names.index(x))
        elif isinstance(x, int):
            gone.add(x % 3)
    want = [v for k, v in enumerate(lv) if k not in gone]
    h.eq(levels_of(f.drop_levels(ix, list(which) if isinstance(which, tuple) else which, strict=False)), want if want else lv, 'drop_levels')
    h.eq(levels_of(f.drop_redundant_levels(ix)), redundant(lv), 'drop_redundant_levels')
    h.eq(levels_of(f.drop_duplicate_levels(ix, keep='first')), dedup(lv, 'first'), 'drop_duplicate_levels')


def select(h, n):
    from vectorbt.base import index_fns as f
    names = ['p', 'q', None]
    ix, _ = mi(h, 'i', n, names)
    lv = levels_of(ix)
    sel = h.choice('sel', ['p', 1, ('q', 'p'), (2, 0)])
    got = f.select_levels(ix, list(sel) if isinstance(sel, tuple) else sel)
    want = [lv[names.index(x) if isinstance(x, str) else x] for x in (sel if isinstance(sel, tuple) else (sel,))]
    h.eq(levels_of(got), want, 'select_levels')


def rename(h, n, multi):
    from vectorbt.base import index_fns as f
    ix, _ = mi(h, 'i', n, ['p', 'q'] if multi else ['p'])
    before = levels_of(ix)
    old = h.choice('old', ['p', 'q', 'zz'])
    strict = h.choice('strict', [True, False])
    got, exc = h.call(lambda: f.rename_levels(ix, {old: 'new'}, strict=strict))
    known = old in [k for k, _ in before]
    if strict and not known:
        h.eq(exc, 'KeyError', 'unknown level refused')
    else:
        h.check(exc is None, 'raises %s' % exc)
        h.eq(levels_of(got), [('new' if k == old else k, v) for k, v in before], 'only the named level is renamed')
    h.eq(levels_of(ix), before, 'the argument is not changed')
    df = pd.DataFrame(np.zeros((1, n)), columns=ix)
    out, exc = h.call(lambda: df.vbt.rename_levels({old: 'new'}, strict=strict))
    h.eq(levels_of(df.columns), before, 'renaming a copy does not change the frame')


def on_axis(h, op, axis, inplace):
    """operations on the labels of an axis: the index functions on that axis only, values and the other axis as they are"""
    from vectorbt.base import index_fns as f
    n = 2
    ix, _ = mi(h, 'i', n, ['p', 'q'])
    if op == 'drop_duplicate_levels' and h.choice('dup', (False, True)):
        ix = pd.MultiIndex.from_arrays([ix.get_level_values(0), ix.get_level_values(1), ix.get_level_values(0)], names=['p', 'q', 'p'])
    if op == 'drop_redundant_levels' and h.choice('red', (False, True)):
        ix = pd.MultiIndex.from_arrays([[0, 1], ix.get_level_values(0), ix.get_level_values(1)], names=[None, 'p', 'q'])
    other = pd.Index(['k%d' % i for i in range(3)], name='o')
    v = h.floats2('v', (n, 3) if axis == 0 else (3, n))
    df = h.df(v, index=ix if axis == 0 else other, columns=other if axis == 0 else ix)
    lv = levels_of(ix)
    if op == 'stack_index':
        top = h.choice('top', (True, False))
        new = pd.Index([7, 8], name='S')
        r = ('S', [7, 8])
        want = [r] + lv if top else lv + [r]
        go = lambda: df.vbt.stack_index(new, on_top=top, axis=axis, inplace=inplace)
    elif op == 'rename_levels':
        want = [('new' if k == 'q' else k, x) for k, x in lv]
        go = lambda: df.vbt.rename_levels({'q': 'new'}, axis=axis, inplace=inplace)
    elif op == 'drop_levels':
        want = lv[1:]
        go = lambda: df.vbt.drop_levels('p', axis=axis, inplace=inplace)
    elif op == 'select_levels':
        want = [lv[1], lv[0]]
        go = lambda: df.vbt.select_levels(['q', 'p'], axis=axis, inplace=inplace)
    elif op == 'drop_duplicate_levels':
        keep = h.choice('keep', ('first', 'last', None))
        want = lv[:2] if keep == 'first' else lv[-2:]
        go = lambda: df.vbt.drop_duplicate_levels(keep=keep, axis=axis, inplace=inplace)
    elif op == 'drop_redundant_levels':
        want = lv[-2:]
        go = lambda: df.vbt.drop_redundant_levels(axis=axis, inplace=inplace)
    else:
        want = [(None, ['%s-%s' % x for x in zip(lv[0][1], lv[1][1])])]
        go = lambda: df.vbt.apply_on_index(lambda i, sep: pd.Index([sep.join(x) for x in i]), '-', axis=axis, inplace=inplace)
    V = [[v[i, j] for j in range(v.shape[1])] for i in range(v.shape[0])]
    out, exc = h.call(go)
    h.check(exc is None, 'raises %s' % exc)
    if exc is not None:
        return
    if inplace:
        h.check(out is None, 'nothing is returned')
        out = df
    else:
        h.eq(levels_of(df.index if axis == 0 else df.columns), lv, 'the frame keeps its labels')
    h.eq(levels_of(out.index if axis == 0 else out.columns), want, 'labels')
    h.eq(list(out.columns if axis == 0 else out.index), list(other), 'the other axis')
    O = out.to_numpy()
    h.eq([[O[i, j] for j in range(v.shape[1])] for i in range(v.shape[0])], V, 'values')


def align(h, n, m, nlev):
    """aligning picks, for every label of the second index, the position of that label in the first"""
    from vectorbt.base import index_fns as f
    names = ['p', 'q'][:nlev]
    a, la = mi(h, 'a', n, names)
    top = h.choice('top', [False, True])
    b0, lb = mi(h, 'b', m, names)
    b = b0
    if top:
        b = pd.MultiIndex.from_arrays([['t%d' % i for i in range(m)]] + lb, names=['top'] + names)
    ka, kb = list(zip(*la)), list(zip(*lb))
    got, exc = h.call(lambda: f.align_index_to(a, b))
    if exc is None:
        pos = list(np.arange(n)[got])
        h.eq(len(pos), m, 'one position per label')
        h.eq([ka[p] for p in pos], kb, 'labels agree')
    else:
        h.eq(exc, 'ValueError', 'refused')
        h.check(len(set(ka)) < n or not set(kb) <= set(ka), 'refused only if labels are ambiguous or missing')


def aligned(h, n, m):
    """align_indexes brings shorter indexes to the longest one"""
    from vectorbt.base import index_fns as f
    a, la = mi(h, 'a', n, ['p'])
    b, lb = mi(h, 'b', m, ['q', 'p'])
    got, exc = h.call(lambda: f.align_indexes([a, b]))
    if exc is not None:
        h.check(len(set(la[0])) < n or not set(lb[1]) <= set(la[0]), 'refused only if labels are ambiguous or missing')
        return
    pa, pb = list(np.arange(n)[got[0]]), list(np.arange(m)[got[1]])
    h.eq([len(pa), len(pb)], [m, m], 'lengths')
    h.eq([la[0][p] for p in pa], [lb[1][p] for p in pb], 'labels agree')


def pick(h):
    from vectorbt.base import index_fns as f
    ix, _ = mi(h, 'i', 1, ['p', 'q', 'r'], k=1)
    nm = ['p', 'q', 'r']
    o = h.choice('opt', [None, 'p', 'q', 'r', 0, 1, 2, -1])
    r = h.choice('req', [None, 'p', 'q', 'r', 0, 1, -3])
    pos = [None if x is None else nm.index(x) if isinstance(x, str) else x % 3 for x in (o, r)]
    got, exc = h.call(lambda: f.pick_levels(ix, required_levels=[r, None], optional_levels=[o]))
    if pos[0] is None:
        if exc is None:
            h.eq(len(set(got[0])), 2, 'distinct levels')
        else:
            h.eq(exc, 'ValueError', 'three levels for two roles')
        return
    if pos[0] == pos[1]:
        h.check(exc is not None, 'one level cannot play two roles')
        return
    h.check(exc is None, 'raises %s' % exc)
    req, opt = got
    h.eq(list(opt), [pos[0]], 'optional level')
    h.eq(sorted(req + opt), [0, 1, 2], 'every level plays one role')
    if pos[1] is not None:
        h.eq(req[0], pos[1], 'requested level')
    else:
        h.eq(req, sorted(req), 'levels left are taken in order')


def first(h, n):
    from vectorbt.base import index_fns as f
    ix, v = idx(h, 'i', n)
    for x in sorted(set(v)):
        h.eq(int(f.find_first_occurrence(x, ix)), v.index(x), 'first occurrence')


def values(h, n):
    """labels made from parameter values: constant arrays by their value, others by position"""
    from vectorbt.base import index_fns as f
    kind = h.choice('kind', [int, float, bool])
    vals = [h.int('v%d' % i, 0, 1) for i in range(n)]
    a = np.array(vals).astype(kind)
    got = list(f.index_from_values([a, 5, 'x', None], name='nm'))
    h.eq(got[0] == kind(vals[0]) if len(set(vals)) == 1 else got[0], True if len(set(vals)) == 1 else 'array_0', 'array label')
    h.eq(got[1:], [5, 'x', None], 'scalars label themselves')


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    for n in (1, 2, 3, 4, 5):
        t('lens', n=n)
    for how in ('list', 'array', 'index', 'arg'):
        for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5)):
            t('grouper', n=n, how=how, w=2)
    for how in ('level', 'levelpos', 'levels'):
        t('grouper', n=3, how=how, w=3)
    for gb1 in (False, True):
        t('changes', n=3, gb1=gb1, w=3)
        t('changes', n=2, gb1=gb1)
    for nlev in (1, 2):
        for times in (1, 2, 3):
            t('rep_tile', nlev=nlev, n=2, times=times)
    t('rep_tile', nlev=1, n=3, times=2)
    for n1, n2 in ((['p'], ['q']), (['p'], ['p']), ([None], ['p']), ([None], [None]), (['p', None], ['p'])):
        for n in (1, 2) if len(n1) > 1 else (1, 2, 3):
            t('stack', n=n, names1=n1, names2=n2)
    t('combine', n=2, m=2)
    t('combine', n=3, m=2)
    t('drop', n=1)
    t('drop', n=2, w=4)
    t('select', n=2)
    for op in ('stack_index', 'rename_levels', 'drop_levels', 'select_levels', 'drop_duplicate_levels', 'drop_redundant_levels', 'apply_on_index'):
        for axis in (0, 1):
            for inplace in (False, True):
                t('on_axis', op=op, axis=axis, inplace=inplace)
    for m in (False, True):
        t('rename', n=2, multi=m)
    for n, m, nlev in ((1, 2, 1), (2, 2, 1), (2, 3, 1), (2, 4, 1), (3, 3, 1), (2, 2, 2), (2, 3, 2)) + (() if q else ((3, 3, 2), (2, 4, 2))):
        t('align', n=n, m=m, nlev=nlev, w=2)
    for n, m in ((1, 2), (2, 3), (2, 4), (3, 4)):
        t('aligned', n=n, m=m)
    t('pick')
    for n in (2, 3, 4):
        t('first', n=n)
        t('values', n=n)
    return out
