"""C35: configurations merge, freeze and restore predictably; templates are substituted exactly."""
import copy
import os
import shutil
import tempfile
import types
import itertools
import collections
import string
import numpy as np

PROPERTY = 'C35'
BOUNDS = dict(dictionaries='keys a, b with leaf values, lists, nested dictionaries (up to 3 levels) and atomic dictionaries in every combination; '
              '2 and 3 dictionaries at a time', histories='every sequence of up to 2 (thorough 3) operations of 15 kinds on 2 keys',
              flags='frozen_keys, readonly, nested, convert_dicts, as_attrs, copy modes', values='all reals',
              templates='Rep, Sub, RepEval, RepFunc, Template at any place of nested containers up to 2 levels, each key given or not')
ASSUMPTIONS = ['dill serialises and restores values faithfully (symbolic runs replace it by a deep copy)',
               'an atomic dictionary on the left below the top level is outside the domain; so are shallow copies by copy.copy']
VALIDATE_S = dict(quick=8)


def sym_setup(vbt):
    """the pickler is replaced by a deep copy"""
    import vectorbt.utils.config as cfg
    import vectorbt.utils.checks as ch

    reg = []

    class D(bytes):
        def __new__(cls, obj):
            reg.append(copy.deepcopy(obj))
            self = bytes.__new__(cls, b'%d' % (len(reg) - 1))
            self.obj = reg[-1]
            return self

        def __deepcopy__(self, memo):
            return self

        def __eq__(self, o):
            return isinstance(o, D) and type(self.obj) is type(o.obj) and bool(self.obj == o.obj)

        __hash__ = bytes.__hash__

    m = types.SimpleNamespace(dumps=lambda o, **k: D(o), loads=lambda d, **k: copy.deepcopy(reg[int(bytes(d))]), HIGHEST_PROTOCOL=5)
    cfg.dill = m
    cfg.pickle = m
    ch.dill = m


# ---------------------------------------------------------------- structures

def leaf(h, tag):
    return h.real(tag)


def build(h, tag, kinds, depth, keys=('a', 'b')):
    """a dictionary of an arbitrary structure; kinds: what a value may be (per level)"""
    U = h.vbt.utils.config
    d = {}
    for k in keys:
        t = '%s_%s' % (tag, k)
        what = h.choice(t + 'k', ('no', 'leaf') + (tuple(kinds) if depth > 1 else ()))
        if what == 'leaf':
            d[k] = leaf(h, t)
        elif what == 'list':
            d[k] = [leaf(h, t)]
        elif what == 'dict':
            d[k] = build(h, t, kinds, depth - 1, ('a', 'b') if depth == 2 else ('a',))
        elif what == 'atomic':
            d[k] = U.atomic_dict({'a': leaf(h, t)})
    return d


def snap(x):
    """structure (kinds of dictionaries included) with the values themselves"""
    if isinstance(x, dict):
        return ('D', type(x), [(k, snap(v)) for k, v in dict.items(x)])
    if isinstance(x, list):
        return ('L', [snap(v) for v in x])
    if isinstance(x, tuple):
        return ('T', type(x), [snap(v) for v in x])
    return ('V', x)


def same(h, a, b, label, order=True, kinds=True):
    """two snapshots are equal"""
    if a[0] != b[0]:
        h.check(False, '%s: kind %s vs %s' % (label, a[0], b[0]))
        return
    if a[0] == 'V':
        if isinstance(a[1], str) or isinstance(b[1], str):
            h.check(a[1] == b[1], label + ': %r vs %r' % (a[1], b[1]))
        else:
            h.eq(a[1], b[1], label)
        return
    if a[0] in ('L', 'T'):
        xa, xb = a[-1], b[-1]
        if len(xa) != len(xb) or a[0] == 'T' and a[1] is not b[1]:
            h.check(False, '%s: length %d vs %d' % (label, len(xa), len(xb)))
            return
        for i, (p, q) in enumerate(zip(xa, xb)):
            same(h, p, q, '%s[%d]' % (label, i), order, kinds)
        return
    if kinds and a[1] is not b[1]:
        h.check(False, '%s: type %s vs %s' % (label, a[1].__name__, b[1].__name__))
        return
    ka, kb = [k for k, _ in a[2]], [k for k, _ in b[2]]
    if (ka != kb) if order else (sorted(map(str, ka)) != sorted(map(str, kb))):
        h.check(False, '%s: keys %s vs %s' % (label, ka, kb))
        return
    h.check(True, label)
    db = dict(b[2])
    for k, v in a[2]:
        same(h, v, db[k], '%s.%s' % (label, k), order, kinds)


def clone(x, deep=True):
    """independent copy of the containers of a structure"""
    if isinstance(x, dict):
        return type(x)((k, clone(v)) for k, v in x.items())
    if isinstance(x, list):
        return [clone(v) for v in x]
    return x


def ruin(x, lists=True):
    """change everything that can be changed in a structure"""
    if isinstance(x, dict):
        for k in list(x):
            ruin(x[k], lists)
            dict.__setitem__(x, k, -77.0)
        dict.__setitem__(x, 'ruined', 1.0)
    elif isinstance(x, list) and lists:
        for v in x:
            ruin(v, lists)
        x.append(-78.0)


# ---------------------------------------------------------------- merging

def ref_merge(x, y, nested, same_keys, atomic):
    if isinstance(x, atomic) or isinstance(y, atomic):
        return clone(y)
    r = clone(x)
    for k, v in y.items():
        if same_keys and k not in x:
            continue
        if nested and k in x and isinstance(x[k], dict) and isinstance(v, dict) and not isinstance(v, atomic):
            r[k] = ref_merge(x[k], v, nested, same_keys, atomic)
        else:
            r[k] = clone(v)
    return r


def merge(h, nd, nested, same_keys=False, to_dict=True, mode='shallow', kinds=('dict',), depth=2, top=False, none=False, keys=('a', 'b'), ykinds=None):
    """merging is right-biased and recursive, keeps the inputs, and shares no dictionary with them"""
    U = h.vbt.utils.config
    ds = []
    for i in range(nd):
        if none and h.choice('none%d' % i, (False, True)):
            ds.append(None)
            continue
        d = build(h, 'd%d' % i, (ykinds or kinds) if i else kinds, depth, keys)
        if top and h.choice('top%d' % i, (False, True)):
            d = U.atomic_dict(d)
        ds.append(d)
    leaf(h, 'z')
    before = [snap(d) for d in ds]
    r, exc = h.call(lambda: U.merge_dicts(*ds, to_dict=to_dict, copy_mode=mode, nested=nested, same_keys=same_keys))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    ref = ds[0] if ds[0] is not None else {}
    for d in ds[1:]:
        ref = ref_merge(ref, d if d is not None else {}, nested, same_keys, U.atomic_dict)
    same(h, snap(r), snap(ref), 'merged', order=False)
    for i, d in enumerate(ds):
        same(h, snap(d), before[i], 'input %d after merging' % i)
    if mode in ('deep',) or nested:
        ruin(r, lists=mode == 'deep' or mode == 'hybrid')
        for i, d in enumerate(ds):
            same(h, snap(d), before[i], 'input %d after changing the result' % i)


def updating(h, nested, kinds=('dict',), config=False, same_keys=False):
    """update_dict / Config.update / Config.merge_with: in place on the left only"""
    U = h.vbt.utils.config
    x, y = build(h, 'x', kinds, 2), build(h, 'y', kinds, 2)
    leaf(h, 'z')
    ref = ref_merge(x, y, nested, same_keys, U.atomic_dict)
    sx, sy = snap(x), snap(y)
    if config:
        c = U.Config(x, nested=nested)
        m, exc = h.call(lambda: c.merge_with(y))
        h.check(exc is None, 'merge_with raises %s' % exc)
        if not exc:
            same(h, snap(m), snap(ref), 'merge_with', order=False)
            same(h, snap(dict(c)), sx, 'config after merge_with')
        _, exc = h.call(lambda: c.update(clone(y)))
        h.check(exc is None, 'raises %s' % exc)
        if not exc:
            same(h, snap(dict(c)), snap(ref), 'updated', order=False)
            same(h, snap(c.to_dict(nested=True)), snap(ref), 'to_dict', order=False)
        same(h, snap(x), sx, 'the dictionary of the config')
        c.reset()
        same(h, snap(dict(c)), sx, 'after reset', order=False)
    else:
        _, exc = h.call(lambda: U.update_dict(x, y, nested=nested, same_keys=same_keys))
        h.check(exc is None, 'raises %s' % exc)
        if not exc:
            same(h, snap(x), snap(ref), 'updated', order=False)
    same(h, snap(y), sy, 'the update')


def copying(h, mode, nested, config, kinds=('dict', 'list'), conv=False):
    """what a copy shares with its original is what its mode says; a configuration and its copy reset on their own"""
    U = h.vbt.utils.config
    x = build(h, 'x', kinds, 3 if nested else 2)
    leaf(h, 'z')
    if config:
        o = U.Config(x, nested=nested, convert_dicts=conv)
        r, exc = h.call(lambda: o.copy(copy_mode=mode, nested=nested))
    else:
        o = x
        r, exc = h.call(lambda: U.copy_dict(o, copy_mode=mode, nested=nested))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    so = snap(o)
    same(h, snap(r), so, 'copy')
    h.check(r is not o, 'a new object')

    def walk(a, b, level, lab):
        for k in a:
            va, vb = a[k], b[k]
            if isinstance(va, list):
                h.check((va is vb) == (mode == 'shallow' or (not nested and level > 0 and mode != 'deep')), '%s.%s shared' % (lab, k))
            elif isinstance(va, dict):
                own = nested or mode == 'deep' or mode == 'hybrid' and level == 0
                h.check((va is not vb) == own, '%s.%s own' % (lab, k))
                walk(va, vb, level + 1, lab + '.' + k)
    walk(dict(o), dict(r), 0, 'copy')
    if config:
        # changes and resets of one leave the other alone
        def act(c):
            c.update({'a': 5.0, 'n': 6.0}, nested=False)
            c.make_checkpoint()
            c.clear()
        first = h.choice('first', (0, 1))
        one, two = (o, r) if first == 0 else (r, o)
        act(one)
        same(h, snap(dict(two)), snap(dict(U.Config(clone(x), nested=nested, convert_dicts=conv))), 'the other one')
        two.reset()
        same(h, snap(dict(two)), snap(dict(U.Config(clone(x), nested=nested, convert_dicts=conv))), 'the other one after reset')
        one.reset()
        h.eq(one['a'], 5.0, 'checkpoint')
        for f in ('frozen_keys_', 'readonly_', 'nested_', 'convert_dicts_', 'as_attrs_'):
            h.check(getattr(o, f) == getattr(r, f), f)


# ---------------------------------------------------------------- histories

OPS = ('set', 'attr', 'del', 'delattr', 'pop', 'popd', 'popitem', 'clear', 'update', 'kwupdate', 'setdefault', 'ior', 'reset', 'checkpoint', 'force')


class Model:
    """what a configuration is: a dictionary, an initial state, two flags"""

    def __init__(self, d, frozen, ro):
        self.d, self.r, self.frozen, self.ro = dict(d), dict(d), frozen, ro

    def add(self, k, v):
        if self.ro:
            raise TypeError
        if self.frozen and k not in self.d:
            raise KeyError
        self.d[k] = v

    def remove(self):
        if self.ro:
            raise TypeError
        if self.frozen:
            raise KeyError


def history(h, n, frozen, ro, attrs, first=None, sub=None):
    """every sequence of operations leaves the configuration as the flags allow"""
    U = h.vbt.utils.config
    init = {'k1': leaf(h, 'v1'), 'k2': leaf(h, 'v2')}
    kw = dict(frozen_keys=frozen, readonly=ro, as_attrs=attrs)
    c = U.Config(init, **kw)
    if sub == 'config':
        c = U.Config(c)
    elif sub == 'copy':
        c = c.copy()
    elif sub == 'loads':
        c = U.Config.loads(c.dumps())
    elif sub == 'deepcopy':
        c = copy.deepcopy(c)
    elif sub == 'child':
        c = U.Config({'sub': init}, nested=True, convert_dicts=True, **kw)['sub']
    if attrs is None:
        attrs = frozen or ro
    m = Model(init, frozen, ro)
    for s in range(n):
        op = first if s == 0 and first else h.choice('op%d' % s, OPS)
        k = h.choice('key%d' % s, ('k1', 'new')) if op not in ('popitem', 'clear', 'reset', 'checkpoint') else None
        v = leaf(h, 'w%d' % s)
        ret = want = None

        def real():
            if op == 'set':
                c[k] = v
            elif op == 'attr':
                setattr(c, k, v)
            elif op == 'del':
                del c[k]
            elif op == 'delattr':
                delattr(c, k)
            elif op == 'pop':
                return c.pop(k)
            elif op == 'popd':
                return c.pop(k, -1.0)
            elif op == 'popitem':
                return c.popitem()
            elif op == 'clear':
                c.clear()
            elif op == 'update':
                c.update({'k2': 9.0, k: v})
            elif op == 'kwupdate':
                c.update(**{k: v})
            elif op == 'setdefault':
                return c.setdefault(k, v)
            elif op == 'ior':
                d = c
                d |= {k: v}
                h.check(d is c, '|= keeps the object')
            elif op == 'reset':
                c.reset()
            elif op == 'checkpoint':
                c.make_checkpoint()
            elif op == 'force':
                c.update({k: v}, force=True)

        def model():
            if op in ('set', 'kwupdate', 'ior'):
                m.add(k, v)
            elif op == 'attr':
                if attrs:
                    m.add(k, v)
            elif op in ('del', 'delattr', 'pop', 'popd'):
                if op == 'delattr' and not attrs:
                    return
                m.remove()
                if op == 'popd':
                    return m.d.pop(k, -1.0)
                return m.d.pop(k)
            elif op == 'popitem':
                m.remove()
                return m.d.popitem()
            elif op == 'clear':
                m.remove()
                m.d.clear()
            elif op == 'update':
                m.add('k2', 9.0)
                m.add(k, v)
            elif op == 'setdefault':
                if k in m.d:
                    return m.d[k]
                m.add(k, v)
                return v
            elif op == 'reset':
                if m.ro:
                    raise TypeError
                m.d = dict(m.r)
            elif op == 'checkpoint':
                if m.ro:
                    raise TypeError
                m.r = dict(m.d)
            elif op == 'force':
                m.d[k] = v
        try:
            want, wexc = model(), None
        except (TypeError, KeyError) as e:
            wexc = type(e).__name__
        ret, exc = h.call(real)
        got = exc.split(':')[0] if exc else None
        h.check(got == wexc, 'operation %d %s(%s): raises %s, not %s' % (s, op, k, got, wexc))
        same(h, snap(dict(c)), snap(m.d), 'state after %d (%s)' % (s, op), order=False)
        if exc is None and op in ('pop', 'popd', 'setdefault'):
            h.eq(ret, want, 'value returned by ' + op)
        if exc is None and op == 'popitem':
            h.check(ret[0] == want[0], 'key returned')
            h.eq(ret[1], want[1], 'value returned')
        if attrs:
            for kk in ('k1', 'k2', 'new'):
                h.check((kk in c.__dict__) == (kk in m.d), 'attribute %s' % kk)
                if kk in m.d and kk in c.__dict__:
                    h.eq(getattr(c, kk), m.d[kk], 'attribute %s' % kk)
    c.reset(force=True)
    same(h, snap(dict(c)), snap(m.r), 'state after the final reset', order=False)


def nested_history(h, frozen, ro, conv, depth=3):
    """changes below the top level: reset restores them, children of a frozen configuration are frozen"""
    U = h.vbt.utils.config
    x = build(h, 'x', ('dict', 'list'), depth, ('a',))
    leaf(h, 'z')
    c = U.Config(x, nested=True, convert_dicts=conv, frozen_keys=frozen, readonly=ro,
                 copy_kwargs=dict(copy_mode='hybrid'))
    for rep in range(2):
        path = []
        d = c
        while isinstance(d, dict) and 'a' in d and isinstance(d['a'], dict):
            d = d['a']
            path.append('a')
        if conv or not path:
            keys = [k for k in d]
            _, exc = h.call(lambda: d.__setitem__('new', 1.0))
            h.check((exc or '').split(':')[0] == ('TypeError' if ro else 'KeyError' if frozen else ''), 'new key below: %s' % exc)
            if keys:
                _, exc = h.call(lambda: d.__setitem__(keys[0], 1.0))
                h.check((exc or '').split(':')[0] == ('TypeError' if ro else ''), 'known key below: %s' % exc)
        ruin(dict(c))
        for k in list(c):
            dict.__setitem__(c, k, 0.0)
        c.reset(force=True)
        e = U.Config(clone(x), nested=True, convert_dicts=conv, frozen_keys=frozen, readonly=ro)
        same(h, snap(dict(c)), snap(dict(e)), 'after reset %d' % rep, order=False)


def configured(h, what):
    """Configured: replace, copy, equality, dumps/loads"""
    U = h.vbt.utils.config
    Cls = kls(U)
    x, y = build(h, 'x', ('dict',), 2), build(h, 'y', ('dict',), 2)
    leaf(h, 'z')
    A = Cls(**x)
    A.extra = leaf(h, 'e')
    if what == 'replace':
        nested = h.choice('nested', (None, True, False))
        B, exc = h.call(lambda: A.replace(nested_=nested, **y))
        h.check(exc is None, 'raises %s' % exc)
        if exc:
            return
        n = nested if nested is not None else A.config.nested_
        same(h, snap(dict(B.config)), snap(ref_merge(x, y, n, False, U.atomic_dict)), 'replaced', order=False)
        same(h, snap(dict(A.config)), snap(x), 'the original', order=False)
        h.eq(B.extra, A.extra, 'writeable attribute')
        h.check(type(B) is type(A), 'class')
    elif what == 'copy':
        mode = h.choice('mode', ('shallow', 'hybrid', 'deep'))
        B = A.copy(copy_mode=mode)
        same(h, snap(dict(B.config)), snap(x), 'copy', order=False)
        h.eq(B.extra, A.extra, 'writeable attribute')
        h.check(A == B, 'equal to its copy')
        B.update_config(y)
        same(h, snap(dict(A.config)), snap(x), 'the original', order=False)
        n = B.config.nested_
        same(h, snap(dict(B.config)), snap(ref_merge(x, y, n, False, U.atomic_dict)), 'updated copy', order=False)
    elif what == 'eq':
        B = Cls(**y)
        B.extra = leaf(h, 'f')
        h.check(bool(A == B) == (deq(x, y) & (A.extra == B.extra)), 'equality')
    elif what == 'dumps':
        B = Cls.loads(A.dumps())
        same(h, snap(dict(B.config)), snap(x), 'loaded', order=False)
        h.eq(B.extra, A.extra, 'writeable attribute')


def kls(U):
    class Cls(U.Configured):
        def __init__(self, **kw):
            U.Configured.__init__(self, **kw)
            self.extra = 0.0

        @property
        def writeable_attrs(self):
            return {'extra'}
    return Cls


def deq(x, y):
    """the two structures are equal, as a formula of their values"""
    if isinstance(x, dict) != isinstance(y, dict) or isinstance(x, list) != isinstance(y, list):
        return False
    if isinstance(x, dict):
        if set(x) != set(y):
            return False
        r = True
        for k in x:
            q = deq(x[k], y[k])
            if q is False:
                return False
            r = q & r
        return r
    if isinstance(x, list):
        if len(x) != len(y):
            return False
        r = True
        for a, b in zip(x, y):
            q = deq(a, b)
            if q is False:
                return False
            r = q & r
        return r
    return x == y


def equality(h, config):
    """equality of configurations: same keys, same values, in both directions"""
    U = h.vbt.utils.config
    x, y = build(h, 'x', ('dict', 'list'), 2), build(h, 'y', ('dict', 'list'), 2)
    leaf(h, 'z')
    want = deq(x, y)
    if config:
        got = U.Config(x) == U.Config(y)
        ne = U.Config(x) != U.Config(y)
        h.check(bool(ne) != bool(got), 'not equal is the opposite of equal')
    else:
        got = h.vbt.utils.checks.is_deep_equal(x, y)
    h.check(bool(got) == want, 'equal')


def pickling(h, kinds=('dict',), ints=False):
    """a configuration survives dumping and loading, with its flags and its initial state"""
    U = h.vbt.utils.config
    x = build(h, 'x', kinds, 2)
    v = leaf(h, 'z')
    if ints:
        x[1] = v
    flags = {f: h.choice(f, (False, True)) for f in ('frozen_keys', 'readonly', 'nested')}
    flags['as_attrs'] = False
    c = U.Config(x, **flags)
    c.update({'a': 3.0, 'm': v}, nested=False, force=True)
    if h.choice('inner', (False, True)):
        c.update({'c': U.Config({'i': v}, frozen_keys=True)}, nested=False, force=True)
    r, exc = h.call(lambda: U.Config.loads(c.dumps()))
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    same(h, snap(dict(r)), snap(dict(c)), 'loaded', order=False)
    for f in flags:
        h.check(getattr(r, f + '_') == flags[f], f)
    r.reset(force=True)
    same(h, snap(dict(r)), snap(x), 'reset', order=False)
    p, exc = h.call(lambda: U.PickleableDict.loads(U.PickleableDict(x).dumps()))
    h.check(exc is None, 'raises %s' % exc)
    if not exc:
        same(h, snap(dict(p)), snap(x), 'dictionary', order=False)


def saving(h):
    """what is written to a file is what is loaded from it, and a second save replaces the first"""
    U = h.vbt.utils.config
    x, y = build(h, 'x', ('dict',), 2, ('a',)), build(h, 'y', (), 1)
    d = tempfile.mkdtemp(prefix='symx_c35_')
    try:
        f = os.path.join(d, 'f')
        for first, second, load in ((x, y, U.PickleableDict), (y, x, U.Config)):
            def go():
                load(first).save(f)
                a = load.load(f)
                load(second).save(f)
                return a, load.load(f)
            r, exc = h.call(go)
            h.check(exc is None, 'raises %s' % exc)
            if not exc:
                same(h, snap(dict(r[0])), snap(first), 'saved and loaded', order=False)
                same(h, snap(dict(r[1])), snap(second), 'saved again and loaded', order=False)
                h.check(type(r[0]) is load, 'class')
    finally:
        shutil.rmtree(d)


# ---------------------------------------------------------------- templates

NT = collections.namedtuple('NT', ['p', 'q'])


def templates(h, shape, safe, make_copy=True):
    """exactly the templates whose keys are given are replaced, everything else stays as it is"""
    T = h.vbt.utils.template
    vx, vy = leaf(h, 'vx'), leaf(h, 'vy')
    mapping = {}
    if h.choice('givenx', (True, False)):
        mapping['x'] = vx
    if h.choice('giveny', (True, False)):
        mapping['y'] = vy
    own = h.choice('own', (False, True))
    vo = leaf(h, 'vo')

    def one(tag):
        """(object, value or None if it is kept)"""
        kind = h.choice(tag + 't', ('leaf', 'rep', 'eval', 'func', 'str'))
        key = h.choice(tag + 'y', ('x', 'y')) if kind != 'leaf' else None
        mp = {'x': vo} if own and tag == 'A' else None
        eff = dict(mp or {}, **mapping)
        if kind == 'leaf':
            v = leaf(h, tag + 'v')
            return v, v
        if kind == 'rep':
            return T.Rep(key, mp), eff.get(key)
        if kind == 'eval':
            return T.RepEval('[%s, 1.0]' % key, mp), [eff[key], 1.0] if key in eff else None
        if kind == 'func':
            f = (lambda x: [x, 2.0]) if key == 'x' else (lambda y: [y, 2.0])
            return T.RepFunc(f, mp), [eff[key], 2.0] if key in eff else None
        word = h.choice(tag + 'w', (True, False))
        eff2 = {k: 's' for k in eff}
        return (T.Sub('_$%s' % key, mp) if word else string.Template('_$%s' % key)), ('STR', key, (word and key in eff) or key in mapping)

    A = one('A')
    B = one('B')

    def val(o, w):
        if isinstance(w, tuple) and len(w) == 3 and w[0] == 'STR':
            if not w[2]:
                return None
            k = w[1]
            src = mapping[k] if k in mapping else vo
            return '_%s' % (src,)
        return w
    va, vb = val(*A), val(*B)
    a, b = A[0], B[0]
    missing = va is None or vb is None
    ka, kb = (va if va is not None else a), (vb if vb is not None else b)
    if shape == 'flat':
        obj, want = a, ka
        missing = va is None
    elif shape == 'list':
        obj, want = [a, b], [ka, kb]
    elif shape == 'tuple':
        obj, want = (a, b), (ka, kb)
    elif shape == 'nt':
        obj, want = NT(a, b), NT(ka, kb)
    elif shape == 'dict':
        obj, want = {'p': a, 'q': b}, {'p': ka, 'q': kb}
    elif shape == 'config':
        U = h.vbt.utils.config
        obj, want = U.Config({'p': a, 'q': b}, readonly=True), {'p': ka, 'q': kb}
    elif shape == 'deep':
        obj, want = {'p': [a, (b, 3.0)], 'q': {'r': b, 's': [4.0]}}, {'p': [ka, (kb, 3.0)], 'q': {'r': kb, 's': [4.0]}}
    elif shape == 'deeplist':
        obj, want = [[a], {'r': (b,)}, 5.0], [[ka], {'r': (kb,)}, 5.0]
    before = tsnap(obj)
    tm = any(x is not None and not is_leaf(T, x) for x in ((a,) if shape == 'flat' else (a, b)))
    h.check(bool(T.has_templates(obj)) == tm, 'has_templates')
    smap = snap(mapping)
    r, exc = h.call(lambda: T.deep_substitute(obj, mapping, safe=safe, make_copy=make_copy))
    same(h, snap(mapping), smap, 'the mapping')
    if missing and not safe:
        h.check(exc is not None, 'a key which is not given raises')
        return
    h.check(exc is None, 'raises %s' % exc)
    if exc:
        return
    tsame(h, tsnap(r), tsnap(want), 'substituted')
    if make_copy or shape in ('tuple', 'nt', 'flat'):
        tsame(h, tsnap(obj), before, 'the object')
    else:
        tsame(h, tsnap(obj), tsnap(want), 'the object itself')
        h.check(r is obj, 'in place')


def is_leaf(T, x):
    return not isinstance(x, (T.Rep, T.RepEval, T.RepFunc, T.Sub, string.Template))


def tsnap(x):
    if isinstance(x, dict):
        return ('D', [(k, tsnap(v)) for k, v in dict.items(x)])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [tsnap(v) for v in x])
    return ('V', x)


def tsame(h, a, b, label):
    if a[0] != b[0]:
        h.check(False, '%s: %s vs %s' % (label, a[0], b[0]))
        return
    if a[0] == 'V':
        x, y = a[1], b[1]
        if isinstance(x, str) or isinstance(y, str):
            h.check(x == y, '%s: %r vs %r' % (label, x, y))
        elif type(x).__module__.startswith('vectorbt') or isinstance(x, string.Template):
            h.check(x is y, '%s: the template' % label)
        else:
            h.eq(x, y, label)
        return
    if a[0] == 'D':
        if [k for k, _ in a[1]] != [k for k, _ in b[1]]:
            h.check(False, label + ': keys')
            return
        for (k, v), (_, w) in zip(a[1], b[1]):
            tsame(h, v, w, '%s.%s' % (label, k))
        return
    if len(a[1]) != len(b[1]):
        h.check(False, label + ': length')
        return
    for i, (v, w) in enumerate(zip(a[1], b[1])):
        tsame(h, v, w, '%s[%d]' % (label, i))


def tasks(tier):
    q = tier == 'quick'
    out = []

    def t(fn, w=1, **cfg):
        out.append(dict(fn=fn, cfg=cfg, weight=w))
    for nested in (True, False):
        for sk in (False, True):
            t('merge', w=2, nd=2, nested=nested, same_keys=sk)
            t('merge', nd=3, nested=nested, same_keys=sk, keys=('a',))
        for td, mode in ((True, 'hybrid'), (True, 'deep'), (False, 'shallow'), (False, 'hybrid'), (False, 'deep')):
            t('merge', w=2, nd=2, nested=nested, to_dict=td, mode=mode, kinds=('dict', 'list'), keys=('a',))
        t('merge', nd=2, nested=nested, kinds=('dict',), ykinds=('dict', 'atomic'), keys=('a',), top=True)
        t('merge', nd=2, nested=nested, keys=('a',), none=True)
        t('merge', w=3, nd=2, nested=nested, keys=('a',), depth=3)
        for config in (False, True):
            t('updating', w=3, nested=nested, config=config)
        t('updating', w=3, nested=nested, same_keys=True)
        for mode in ('shallow', 'hybrid', 'deep'):
            for config in (False, True):
                t('copying', w=2, mode=mode, nested=nested, config=config)
    t('copying', w=2, mode='shallow', nested=True, config=True, conv=True)
    for frozen, ro, attrs in ((False, False, None), (False, False, True), (True, False, None), (True, False, False), (False, True, None), (True, True, False)):
        for first in OPS:
            t('history', w=2, n=2 if q else 3, frozen=frozen, ro=ro, attrs=attrs, first=first)
    for frozen, ro in ((False, False), (True, False), (False, True)):
        for sub in ('config', 'copy', 'loads', 'deepcopy', 'child'):
            t('history', n=1 if q else 2, frozen=frozen, ro=ro, attrs=None, sub=sub)
        for conv in (False, True):
            t('nested_history', frozen=frozen, ro=ro, conv=conv)
    t('saving')
    for what in ('replace', 'copy', 'eq', 'dumps'):
        t('configured', w=3, what=what)
    for config in (False, True):
        t('equality', w=4, config=config)
    t('pickling', w=2)
    t('pickling', ints=True)
    for shape in ('flat', 'list', 'tuple', 'nt', 'dict', 'config', 'deep', 'deeplist'):
        for safe in (False, True):
            t('templates', w=2, shape=shape, safe=safe)
        if shape != 'config':
            t('templates', w=2, shape=shape, safe=True, make_copy=False)
    return out
