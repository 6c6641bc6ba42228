"""Symbolic execution of the Rust kernels: the sources in /repo/rust/src are parsed on every run and interpreted on the same
symbolic values the Python kernels run on. Values: f64 = float or SymFloat, integers = int, bool = bool or SymBool."""
import math
import os
import re
import traceback
import numpy as np
from . import core, rust_parse
from .core import SymFloat, SymBool, NotEncodable, UNINIT, UninitRead
from .rust_parse import Unsupported


class Panic(Exception):
    """a Rust panic (index out of bounds, integer underflow used as an index, unwrap of None, ...)"""


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    pass


U64 = 1 << 64
WRAP = {'usize': (0, U64 - 1), 'u64': (0, U64 - 1), 'u32': (0, 2 ** 32 - 1), 'u8': (0, 255), 'u16': (0, 65535), 'i64': (-2 ** 63, 2 ** 63 - 1),
        'isize': (-2 ** 63, 2 ** 63 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1), 'i8': (-128, 127), 'i16': (-32768, 32767)}
FLOATS = (float, SymFloat)


class Some:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Some) and self.v == o.v


class NoneT:
    def __repr__(self):
        return 'None'


NONE = NoneT()


class Ok:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Err:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class St:
    """struct value"""
    __slots__ = ('name', 'f', 'copy')

    def __init__(self, name, f, copy):
        self.name, self.f, self.copy = name, f, copy

    def __eq__(self, o):
        return isinstance(o, St) and o.name == self.name and all(self.f[k] == o.f[k] for k in self.f)


class Var:
    """enum variant value"""
    __slots__ = ('enum', 'variant', 'p')

    def __init__(self, enum, variant, p=None):
        self.enum, self.variant, self.p = enum, variant, p

    def __eq__(self, o):
        return isinstance(o, Var) and (self.enum, self.variant, self.p) == (o.enum, o.variant, o.p)

    def __repr__(self):
        return '%s::%s' % (self.enum, self.variant)


ORD = {-1: Var('Ordering', 'Less'), 0: Var('Ordering', 'Equal'), 1: Var('Ordering', 'Greater')}
ORDV = {'Less': -1, 'Equal': 0, 'Greater': 1}


class Ref:
    __slots__ = ('c', 'k', 'how')

    def __init__(self, c, k, how):
        self.c, self.k, self.how = c, k, how

    def get(self):
        if self.how == 'i':
            return self.c[self.k]
        if self.how == 'f':
            return self.c.f[self.k]
        if self.how == 's':
            return self.c.v
        return self.c.get(self.k)

    def set(self, v):
        if self.how == 'i':
            self.c[self.k] = v
        elif self.how == 'f':
            self.c.f[self.k] = v
        elif self.how == 's':
            self.c.v = v
        else:
            self.c.set(self.k, v)


class Flat:
    """list-like view of a one-dimensional numpy view"""
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __getitem__(self, i):
        x = np.ndarray.__getitem__(self.a, i)
        return x.item() if isinstance(x, np.generic) else x

    def __setitem__(self, i, v):
        np.ndarray.__setitem__(self.a, i, v)

    def __len__(self):
        return len(self.a)


def idx(i):
    if isinstance(i, Ref):
        i = i.get()
    if isinstance(i, bool) or not isinstance(i, int):
        raise NotEncodable('rust index %r' % type(i).__name__)
    return i


class Seq:
    """Vec, slice or array: a window of a list"""
    __slots__ = ('d', 'o', 'n', 'cap', 'arr')

    def __init__(self, d, o=0, n=None, cap=None, arr=False):
        self.d, self.o, self.n, self.cap, self.arr = d, o, n, cap, arr

    def __len__(self):
        return len(self.d) - self.o if self.n is None else self.n

    def at(self, i):
        i = idx(i)
        if not 0 <= i < len(self):
            raise Panic('index out of bounds: the len is %d but the index is %d' % (len(self), i))
        return i + self.o

    def __getitem__(self, i):
        v = self.d[self.at(i)]
        if v is UNINIT:
            raise UninitRead('uninitialised element')
        return v

    def __setitem__(self, i, v):
        self.d[self.at(i)] = v

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def sub(self, r):
        n = len(self)
        lo = 0 if r.lo is None else idx(r.lo)
        hi = n if r.hi is None else idx(r.hi) + (1 if r.inc else 0)
        if not (0 <= lo <= hi <= n):
            raise Panic('range %s..%s out of range for slice of length %d' % (lo, hi, n))
        return Seq(self.d, self.o + lo, hi - lo)

    def __eq__(self, o):
        return len(self) == len(o) and all(bool(x == y) for x, y in zip(self, o))


class Nd:
    """ndarray view"""
    __slots__ = ('d', 'o', 'sh', 'st')

    def __init__(self, d, o, sh, st):
        self.d, self.o, self.sh, self.st = d, o, tuple(sh), tuple(st)

    def at(self, ix):
        if isinstance(ix, Seq):
            ix = tuple(ix)
        elif not isinstance(ix, tuple):
            ix = (ix,)
        if len(ix) != len(self.sh):
            raise NotEncodable('ndarray index')
        o = self.o
        for i, n, s in zip(ix, self.sh, self.st):
            i = idx(i)
            if not 0 <= i < n:
                raise Panic('ndarray: index out of bounds')
            o += i * s
        return o

    def __getitem__(self, ix):
        v = self.d[self.at(ix)]
        if v is UNINIT:
            raise UninitRead('uninitialised element')
        return v

    def __setitem__(self, ix, v):
        self.d[self.at(ix)] = v

    def keys(self):
        return np.ndindex(*self.sh)

    def __iter__(self):
        for ix in self.keys():
            yield self[ix]

    def __len__(self):
        return int(np.prod(self.sh))

    def std(self):
        e = 1
        if len(self) == 0:
            return True
        for n, s in zip(reversed(self.sh), reversed(self.st)):
            if n != 1 and s != e:
                return False
            e *= n
        return True

    def sub(self, k, j):
        """axis k removed at position j"""
        j = idx(j)
        if not 0 <= j < self.sh[k]:
            raise Panic('ndarray: index out of bounds')
        return Nd(self.d, self.o + j * self.st[k], self.sh[:k] + self.sh[k + 1:], self.st[:k] + self.st[k + 1:])


class PyArr:
    """a NumPy array handed to Rust"""
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def view(self):
        a = self.a.view(np.ndarray) if isinstance(self.a, np.ndarray) else np.asarray(self.a)
        if a.ndim == 0:
            return Nd(Flat(a.reshape(1)), 0, (), ())
        if a.flags.c_contiguous:
            st = [1] * a.ndim
            for k in range(a.ndim - 2, -1, -1):
                st[k] = st[k + 1] * a.shape[k + 1]
            return Nd(Flat(a.reshape(-1)), 0, a.shape, st)
        if a.flags.f_contiguous:
            return Nd(Flat(a.T.reshape(-1)), 0, a.shape, (1,) + tuple(int(np.prod(a.shape[:k])) for k in range(1, a.ndim)))
        b = a.base
        it = a.itemsize
        st = [s // it for s in a.strides]
        # general strides: a flat window over an index map
        m = {}
        for ix in np.ndindex(*a.shape):
            m[sum(i * s for i, s in zip(ix, st))] = ix

        class Map:
            def __getitem__(self, k):
                x = a[m[k]]
                return x.item() if isinstance(x, np.generic) else x

            def __setitem__(self, k, v):
                a[m[k]] = v
        return Nd(Map(), 0, a.shape, st)

    def as_slice(self):
        a = self.a
        if a.ndim == 0 or a.flags.c_contiguous or a.flags.f_contiguous:
            v = self.view()
            return Ok(Seq(v.d, 0, len(v)))
        return Err(PyErr_('ValueError', 'not contiguous'))


class PyOut:
    """an array produced by Rust: elements in row-major order"""
    __slots__ = ('items', 'shape')

    def __init__(self, items, shape):
        self.items, self.shape = list(items), tuple(shape)


class PyErr_:
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg


class Ptr:
    """raw pointer into an array of records (or plain elements)"""
    __slots__ = ('a', 'o', 'ty')

    def __init__(self, a, o, ty=None):
        self.a, self.o, self.ty = a, o, ty

    def loc(self):
        dt = self.a.dtype
        i, off = divmod(self.o, dt.itemsize)
        if not 0 <= i < len(self.a):
            raise Panic('pointer out of the array')
        if not dt.names:
            return i, None
        for nm in dt.names:
            if dt.fields[nm][1] == off:
                return i, nm
        raise NotEncodable('pointer between fields')

    def get(self):
        i, nm = self.loc()
        x = self.a[i] if nm is None else self.a[nm][i]
        return x.item() if isinstance(x, np.generic) else x

    def set(self, v):
        i, nm = self.loc()
        if nm is None:
            self.a[i] = v
        else:
            self.a[nm][i] = v


class SeqPtr(Ptr):
    """raw pointer into a slice"""
    __slots__ = ()

    def __init__(self, a, o, ty=None):
        self.a, self.o, self.ty = a, o, ty

    def get(self):
        return self.a[self.o]

    def set(self, v):
        self.a[self.o] = v


class ObjPtr:
    def __init__(self, a):
        self.a = a


class Rg:
    __slots__ = ('lo', 'hi', 'inc')

    def __init__(self, lo, hi, inc):
        self.lo, self.hi, self.inc = lo, hi, inc

    def __iter__(self):
        lo = idx(self.lo)
        if self.hi is None:
            k = lo
            while True:
                yield k
                k += 1
        yield from range(lo, idx(self.hi) + (1 if self.inc else 0))


class It:
    """iterator"""
    __slots__ = ('it',)

    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self.it


class Py_:
    """the GIL token"""


class Env:
    __slots__ = ('v', 'up')

    def __init__(self, up=None):
        self.v = {}
        self.up = up

    def get(self, k):
        e = self
        while e is not None:
            if k in e.v:
                return e.v[k]
            e = e.up
        raise KeyError(k)

    def set(self, k, x):
        e = self
        while e is not None:
            if k in e.v:
                e.v[k] = x
                return
            e = e.up
        raise KeyError(k)


def rd(x):
    """value behind references"""
    while isinstance(x, Ref):
        x = x.get()
    return x


def truth(x):
    x = rd(x)
    if isinstance(x, (bool, SymBool, np.bool_)):
        return bool(x)
    raise NotEncodable('condition of type %s' % type(x).__name__)


def cp(x):
    """copy semantics when a place is read by value"""
    if isinstance(x, St) and x.copy:
        return St(x.name, {k: cp(v) for k, v in x.f.items()}, True)
    if isinstance(x, Seq) and x.arr:
        return Seq([cp(v) for v in x], arr=True)
    return x


def clone(x):
    x = rd(x)
    if isinstance(x, St):
        return St(x.name, {k: clone(v) for k, v in x.f.items()}, x.copy)
    if isinstance(x, Seq):
        return Seq([clone(v) for v in x], arr=x.arr)
    if isinstance(x, Nd):
        st, e = [], 1
        for n in reversed(x.sh):
            st.insert(0, e)
            e *= n
        return Nd([clone(v) for v in x], 0, x.sh, st)
    if isinstance(x, Some):
        return Some(clone(x.v))
    if isinstance(x, tuple):
        return tuple(clone(v) for v in x)
    return x


def fdiv(a, b):
    if isinstance(a, SymFloat) or isinstance(b, SymFloat):
        from . import arr
        return arr._div(a, b)
    if b == 0:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def num2(a, b):
    if isinstance(a, Ref):
        a = rd(a)
    if isinstance(b, Ref):
        b = rd(b)
    return a, b


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def arith(op, a, b):
    a, b = num2(a, b)
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, SymBool) or isinstance(b, SymBool):
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
    ia, ib = isint(a), isint(b)
    if ia and ib:
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op in '/%':
            if b == 0:
                raise Panic('attempt to divide by zero')
            q = abs(a) // abs(b)
            q = q if (a >= 0) == (b >= 0) else -q
            return q if op == '/' else a - q * b
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        if op == '<<':
            return a << b
        if op == '>>':
            return a >> b
    if isinstance(a, FLOATS) and isinstance(b, FLOATS):
        if op == '+':
            return core.lower(a + b)
        if op == '-':
            return core.lower(a - b)
        if op == '*':
            return core.lower(a * b)
        if op == '/':
            return core.lower(fdiv(a, b))
        if op == '%':
            if isinstance(a, float) and isinstance(b, float):
                return math.fmod(a, b) if b != 0 and not math.isinf(a) else math.nan
            raise NotEncodable('float remainder')
    raise NotEncodable('rust %s on %s and %s' % (op, type(a).__name__, type(b).__name__))


def compare(op, a, b):
    a, b = num2(a, b)
    if isinstance(a, (Some, NoneT, St, Var, str, Seq, tuple)) or isinstance(b, (Some, NoneT, St, Var, str, Seq, tuple)):
        if op == '==':
            return a == b
        if op == '!=':
            return not (a == b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        raise NotEncodable('comparison')
    if op == '==':
        r = a == b
    elif op == '!=':
        r = a != b
    elif op == '<':
        r = a < b
    elif op == '>':
        r = a > b
    elif op == '<=':
        r = a <= b
    else:
        r = a >= b
    return bool(r) if isinstance(r, np.bool_) else r


def unary_float(name):
    def f(x):
        if isinstance(x, SymFloat):
            r = getattr(core, 'f_' + name)(x)
            return core.lower(r)
        if x != x:
            return x
        if name == 'sqrt':
            return math.sqrt(x) if x >= 0 else math.nan
        if name == 'abs':
            return abs(x)
        if name == 'floor':
            return float(math.floor(x)) if not math.isinf(x) else x
        if name == 'log':
            return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
        if name == 'exp':
            try:
                return math.exp(x)
            except OverflowError:
                return math.inf
        raise NotEncodable(name)
    return f


def isnan_(x):
    from .harness import isnan
    r = isnan(x)
    return bool(r) if isinstance(r, np.bool_) else r


def isinf_(x):
    from .harness import isinf
    r = isinf(x)
    return bool(r) if isinstance(r, np.bool_) else r


def fsign(x):
    """f64::signum: 1.0 for +0.0 (and for the real 0), NaN for NaN"""
    if truth(isnan_(x)):
        return math.nan
    if not isinstance(x, SymFloat):
        return math.copysign(1.0, x)
    return 1.0 if truth(x >= 0) else -1.0


def fminmax(a, b, mx):
    """f64::max / f64::min: a NaN operand is ignored"""
    if truth(isnan_(a)):
        return b
    if truth(isnan_(b)):
        return a
    if truth(a >= b):
        return a if mx else b
    return b if mx else a


def fpow(a, b):
    if not isinstance(a, SymFloat) and not isinstance(b, SymFloat):
        try:
            r = float(a) ** b
        except ZeroDivisionError:
            return math.inf
        except OverflowError:
            return math.inf
        return math.nan if isinstance(r, complex) else r
    from . import arr
    return core.lower(arr._pow(a, b)) if hasattr(arr, '_pow') else core.lower(core.f_pow(a, b))


def trunc_int(x, ty):
    lo, hi = WRAP.get(ty, WRAP['i64'])
    if truth(isnan_(x)):
        return 0
    if truth(isinf_(x)):
        return hi if truth(x > 0) else lo
    v = core.f_toint(x) if isinstance(x, SymFloat) else int(x)
    return max(lo, min(hi, v))


def call_user(f, *args):
    return f(*args)


class Crate:
    def __init__(self, root, hook):
        """hook: object with .empty(n, dtype), .array(items, shape, kind) and the numpy module seen by Rust"""
        self.root, self.hook = root, hook
        self.fns, self.structs, self.enums, self.consts, self.impls, self.foreign = {}, {}, {}, {}, {}, {}
        self.pyfns = {}
        self.override, self.classes, self.text = {}, {}, {}
        self.used = set()
        self.bad = {}
        macros = {}
        src = os.path.join(root, 'rust', 'src')
        for fn in sorted(os.listdir(src)):
            if fn.endswith('.rs') and fn != 'lib.rs':
                mod = fn[:-3]
                with open(os.path.join(src, fn)) as fh:
                    text = fh.read()
                self.text[mod] = text
                self.add(mod, rust_parse.parse_file(text), macros)
        self.cc = {}

    def add(self, mod, items, macros):
        for it in items:
            k = it[0]
            if k == 'fn':
                self.fns[(mod, it[1])] = it
                if any(a and a[0].v == 'pyfunction' for a in it[5]):
                    self.pyfns[(mod, self.pyname(it))] = it
            elif k == 'const':
                self.consts[(mod, it[1])] = it
            elif k == 'structdef':
                self.structs[it[1]] = it
            elif k == 'enumdef':
                self.enums[it[1]] = it
            elif k == 'impl':
                nm = it[1][1] if it[1][0] == 'path' else '?'
                d = self.impls.setdefault(nm, {})
                for f in it[3]:
                    d[f[1]] = (mod, f)
                    if it[2] is not None and nm not in self.structs and nm not in self.enums:
                        self.foreign[f[1]] = (mod, f)
                for c in it[4]:
                    if c[0] == 'const':
                        self.consts[(nm, c[1])] = c
            elif k == 'macro_rules':
                macros[it[1]] = it[2]
            elif k == 'macrocall':
                if it[1] in macros:
                    toks = rust_parse.expand(macros[it[1]], it[2])
                    self.add(mod, rust_parse.Parser(toks).items(), macros)

    @staticmethod
    def pyname(it):
        for a in it[5]:
            for j, t in enumerate(a[:-2]):
                if t.v == 'name' and a[j + 1].v == '=' and a[0].v in ('pyo3', 'pyfunction'):
                    return a[j + 2].v.strip('"')
        return it[1]

    def exports(self, mod):
        """(Python name, callable or class) of everything the module registers"""
        text = self.text[mod]
        reg = set(re.findall(r'wrap_pyfunction!\(\s*(\w+)', text))
        out = {}
        for (m, name), f in self.pyfns.items():
            if m == mod and f[1] in reg:
                out[name] = self.pyfunction(m, name)
        for name in re.findall(r'add_class::<(\w+)>', text):
            out[name] = self.pyclass(name)
        return out

    def pyclass(self, name):
        if name not in self.classes:
            cr = self
            new = self.impls[name].get('new')

            def __init__(s, *args, **kw):
                mod, f = new
                ps = [(p[1], ty) for p, ty in f[2]]
                if len(args) + len(kw) != len(ps):
                    raise TypeError('%s takes %d arguments' % (name, len(ps)))
                vals = [cr.from_py(a, ty, n) for a, (n, ty) in zip(args, ps)]
                for n, ty in ps[len(args):]:
                    vals.append(cr.from_py(kw[n], ty, n))
                r = cr.call(mod, f, vals)
                PyStruct.__init__(s, cr, r)
            self.classes[name] = type(name, (PyStruct,), dict(__init__=__init__))
        return self.classes[name]

    def wrap(self, st):
        cls = self.pyclass(st.name) if 'new' in self.impls.get(st.name, {}) else PyStruct
        o = cls.__new__(cls)
        PyStruct.__init__(o, self, st)
        return o

    # ---- lookup ----
    def find_fn(self, mod, name):
        if (mod, name) in self.fns:
            return mod, self.fns[(mod, name)]
        for (m, n), f in self.fns.items():
            if n == name:
                return m, f
        return None

    def find_const(self, mod, name):
        for key in ((mod, name),):
            if key in self.consts:
                return key
        for (m, n) in self.consts:
            if n == name:
                return (m, n)
        return None

    def compiled(self, mod, f):
        key = (mod, id(f))
        if key not in self.cc:
            self.cc[key] = Comp(self, mod, f).build()
        return self.cc[key]

    def call(self, mod, f, args):
        self.used.add('%s::%s' % (mod, f[1]))
        o = self.override.get((mod, f[1]))
        if o is not None:
            return o(*args)
        return self.compiled(mod, f)(*args)

    # ---- python entry ----
    def pyfunction(self, mod, name):
        f = self.pyfns[(mod, name)]
        sig = None
        for a in f[5]:
            if a and a[0].v == 'pyo3':
                for j, t in enumerate(a):
                    if t.v == 'signature':
                        p = rust_parse.Parser(list(a[j + 1:]))
                        p.expect('=')
                        p.expect('(')
                        sig = []
                        while not p.at(')'):
                            if p.eat('*') or p.eat('/'):
                                p.eat(',')
                                continue
                            nm = p.ident()
                            d = None
                            if p.eat('='):
                                d = p.expr()
                            sig.append((nm, d))
                            if not p.eat(','):
                                break
        params = [(p[1], ty) for p, ty in f[2]]
        if sig is None:
            sig = [(n, None) for n, ty in params if not (n == 'py' or n == '_py')]
        types = dict(params)

        def run(*args, **kw):
            vals = {}
            if len(args) > len(sig):
                raise TypeError('%s takes %d positional arguments but %d were given' % (name, len(sig), len(args)))
            for (n, d), a in zip(sig, args):
                vals[n] = self.from_py(a, types[n], n)
            for n, a in kw.items():
                if n not in types or n in vals:
                    raise TypeError('%s got an unexpected keyword argument %s' % (name, n))
                vals[n] = self.from_py(a, types[n], n)
            out = []
            for n, ty in params:
                if n in ('py', '_py'):
                    out.append(Py_())
                elif n in vals:
                    out.append(vals[n])
                else:
                    d = dict(sig).get(n)
                    if d is None:
                        raise TypeError('%s missing argument %s' % (name, n))
                    v = Comp(self, mod, f).ex(d)(Env())
                    if ty[0] == 'path' and ty[1] == 'Option' and not isinstance(v, (Some, NoneT)):
                        v = Some(v)
                    out.append(v)
            try:
                r = self.call(mod, f, out)
            except Panic as e:
                raise RuntimeError('Rust panic in %s: %s' % (name, e))
            except (UninitRead, ZeroDivisionError):
                raise
            except Exception as e:
                if os.environ.get('SYMX_DEBUG'):
                    traceback.print_exc()
                raise NotEncodable('Rust interpreter in %s: %s %s' % (name, type(e).__name__, e))
            if isinstance(r, Err):
                self.raise_(r.v)
            if isinstance(r, Ok):
                r = r.v
                ret = f[3]
                if ret is not None and ret[0] == 'path' and ret[1] in ('PyResult', 'Result'):
                    ret = ret[2][0] if ret[2] else None
            else:
                ret = f[3]
            return self.to_py(r, ret)
        run.__name__ = name
        return run

    def raise_(self, e):
        if isinstance(e, PyErr_):
            k = {'ValueError': ValueError, 'IndexError': IndexError, 'TypeError': TypeError, 'RuntimeError': RuntimeError,
                 'KeyError': KeyError, 'OverflowError': OverflowError}.get(e.kind)
            if k is None:
                raise NotEncodable('exception ' + e.kind)
            raise k(e.msg)
        if isinstance(e, BaseException):
            raise e
        raise NotEncodable('error value %r' % (e,))

    def from_py(self, a, ty, n):
        while ty[0] == 'ref':
            ty = ty[1]
        if ty[0] == 'path':
            t = ty[1]
            if t == 'Option':
                return NONE if a is None else Some(self.from_py(a, ty[2][0], n))
            if t.startswith('PyReadonlyArray') or t.startswith('PyReadwriteArray'):
                if not isinstance(a, np.ndarray):
                    raise TypeError("argument '%s': not a NumPy array" % n)
                nd = t[-1]
                if nd.isdigit() and a.ndim != int(nd):
                    raise TypeError("argument '%s': dimensionality mismatch" % n)
                et = ty[2][-1]
                if t.endswith('Dyn') or nd.isdigit():
                    k = {'f64': 'fO', 'i64': 'iO', 'bool': 'bO'}.get(et[1] if et[0] == 'path' else '')
                    if k is not None and a.dtype.kind not in k:
                        raise TypeError("argument '%s': dtype mismatch" % n)
                return PyArr(a)
            if t == 'f64':
                if isinstance(a, SymFloat):
                    return a
                return float(a)
            if t in WRAP:
                v = int(a)
                if isinstance(a, float):
                    raise TypeError("argument '%s': float is not an integer" % n)
                lo, hi = WRAP[t]
                if not lo <= v <= hi:
                    raise OverflowError("can't convert to unsigned int" if lo == 0 else 'int too large')
                return v
            if t == 'bool':
                if isinstance(a, (SymBool, bool)):
                    return a
                if isinstance(a, np.bool_):
                    return bool(a)
                raise TypeError("argument '%s': not a bool" % n)
            if t in self.structs:
                if isinstance(a, St):
                    return cp(a)
                if not isinstance(a, PyStruct) or a.st.name != t:
                    raise TypeError("argument '%s': %s cannot be converted to %s" % (n, type(a).__name__, t))
                return cp(a.st)
            if t == 'Vec':
                return Seq([self.from_py(x, ty[2][0], n) for x in a])
            if t == 'Bound':
                inner = ty[2][-1] if ty[2] else ('path', 'PyAny', [])
                return a
        if ty[0] == 'tuple':
            return tuple(self.from_py(x, t, n) for x, t in zip(a, ty[1]))
        return a

    def to_py(self, v, ty):
        v = rd(v)
        if isinstance(v, Some):
            return self.to_py(v.v, ty[2][0] if ty and ty[0] == 'path' and ty[2] else None)
        if v is NONE:
            return None
        if isinstance(v, tuple):
            if len(v) == 0:
                return None
            ts = ty[1] if ty and ty[0] == 'tuple' else [None] * len(v)
            return tuple(self.to_py(x, t) for x, t in zip(v, ts))
        if isinstance(v, PyOut):
            return self.out_array(v, self.elem_type(ty))
        if isinstance(v, PyArr):
            return v.a
        if isinstance(v, Seq):
            return [self.to_py(x, None) for x in v]
        if isinstance(v, dict):
            return {k: self.to_py(x, x.ty if isinstance(x, Typed) else None) for k, x in v.items()}
        if isinstance(v, Typed):
            return self.to_py(v.v, v.ty)
        if isinstance(v, St):
            return self.wrap(v)
        return v

    def elem_type(self, ty):
        while ty is not None and ty[0] == 'path' and ty[1] not in ('PyArray1', 'PyArray2', 'PyArrayDyn', 'PyArray'):
            ty = next((x for x in ty[2] if x[0] == 'path'), None)
        if ty is None or not ty[2]:
            return None
        e = ty[2][0]
        return e[1] if e[0] == 'path' else None

    def out_array(self, v, et):
        items = v.items
        if et is None and items:
            x = items[0]
            et = 'bool' if isinstance(x, (bool, SymBool)) else 'i64' if isint(x) else x.name if isinstance(x, St) else 'f64'
        if any(x is UNINIT for x in items):
            pass
        if et in self.structs:
            mod, f = self.impls[et]['get_dtype']
            dt = self.call(mod, f, [Py_()])
            a = self.hook.empty(len(items), dt)
            names = [n for n, _ in self.structs[et][2]]
            for i, s in enumerate(items):
                for fld, n in zip(dt.names, names):
                    a[fld][i] = s.f[n]
            return a.reshape(v.shape) if len(v.shape) != 1 else a
        return self.hook.array(items, v.shape, {'f64': 'f', 'bool': 'b'}.get(et, 'i'))


class Typed:
    def __init__(self, v, ty):
        self.v, self.ty = v, ty


class PyStruct:
    """a #[pyclass] value seen from Python"""

    def __init__(self, crate, st):
        self.__dict__['st'] = st
        self.__dict__['crate'] = crate

    def __getattr__(self, k):
        if k in self.st.f:
            return self.st.f[k]
        raise AttributeError(k)

    def __setattr__(self, k, v):
        self.st.f[k] = v


class RandomSource:
    """a random generator: drawing from it is not encodable"""


def names_of(p):
    if p[0] == 'pbind':
        return [p[1]]
    out = []
    for x in p[1:]:
        if isinstance(x, tuple):
            out += names_of(x)
        elif isinstance(x, list):
            for y in x:
                out += names_of(y) if isinstance(y, tuple) else []
    return out


class Comp:
    """compiles an AST into Python closures taking an Env"""

    def __init__(self, crate, mod, f):
        self.cr, self.mod, self.f = crate, mod, f
        self.selfty = None
        for nm, d in crate.impls.items():
            if any(x[1] is f for x in d.values()):
                self.selfty = nm
        self.local = {}

    def build(self):
        _, name, params, ret, body, attrs = self.f
        pats = [self.pat(p) for p, _ in params]
        b = self.block(body)
        key = '%s::%s' % (self.mod, name)
        used = self.cr.used

        def run(*args):
            used.add(key)
            if len(args) != len(pats):
                raise NotEncodable('arity of ' + name)
            env = Env()
            for p, a in zip(pats, args):
                if not p(env, a):
                    raise NotEncodable('parameter pattern')
            try:
                return b(env)
            except Ret as r:
                return r.args[0]
        return run

    # ---- patterns: compiled to f(env, value) -> matched ----
    def pat(self, p):
        k = p[0]
        if k == 'pwild' or k == 'prest':
            return lambda env, v: True
        if k == 'pbind':
            nm, sub = p[1], p[2]
            if sub is not None:
                s = self.pat(sub)

                def f(env, v):
                    if s(env, v):
                        env.v[nm] = v
                        return True
                    return False
                return f

            def f(env, v):
                env.v[nm] = v
                return True
            return f
        if k == 'pref':
            s = self.pat(p[1])
            return lambda env, v: s(env, cp(rd(v)))
        if k == 'plit':
            lit = p[1]
            return lambda env, v: truth(compare('==', v, lit))
        if k == 'prange':
            lo, hi, inc = p[1:]
            return lambda env, v: truth(compare('>=', v, lo)) and (hi is None or truth(compare('<=' if inc else '<', v, hi)))
        if k == 'por':
            ss = [self.pat(x) for x in p[1]]
            return lambda env, v: any(s(env, v) for s in ss)
        if k == 'ptuple' or k == 'pslice':
            ss = [self.pat(x) for x in p[1]]
            if any(x[0] == 'prest' for x in p[1]):
                raise Unsupported('.. in tuple pattern')

            def f(env, v):
                v = rd(v)
                vs = list(v)
                return len(vs) == len(ss) and all(s(env, x) for s, x in zip(ss, vs))
            return f
        if k == 'ppath':
            path = p[1]
            nm = path[-1]
            if nm == 'None':
                return lambda env, v: rd(v) is NONE
            if len(path) > 1 or nm in self.cr.enums:
                en = self.enum_of(path)

                def f(env, v):
                    v = rd(v)
                    return isinstance(v, Var) and v.variant == nm
                if en is not None or path[-2] == 'Ordering':
                    return f
            key = self.cr.find_const(self.mod, nm)
            if key is None:
                raise Unsupported('pattern ' + '::'.join(path))
            c = self.const(key)
            return lambda env, v: truth(compare('==', v, c()))
        if k == 'ptstruct':
            nm = p[1][-1]
            ss = [self.pat(x) for x in p[2]]
            if nm in ('Some', 'Ok', 'Err'):
                cls = {'Some': Some, 'Ok': Ok, 'Err': Err}[nm]
                s = ss[0]

                def f(env, v):
                    v = rd(v)
                    return isinstance(v, cls) and s(env, v.v)
                return f

            def f(env, v):
                v = rd(v)
                if isinstance(v, Var) and nm in ('Borrowed', 'Owned') and v.variant == nm:
                    return ss[0](env, v.p[0])
                return isinstance(v, Var) and v.variant == nm and all(s(env, x) for s, x in zip(ss, v.p))
            return f
        if k == 'pstruct':
            nm = p[1][-1]
            fs = [(n, self.pat(q)) for n, q in p[2]]

            def f(env, v):
                v = rd(v)
                if isinstance(v, Var):
                    return v.variant == nm and all(q(env, v.p[n]) for n, q in fs)
                if isinstance(v, St):
                    return all(q(env, v.f[n]) for n, q in fs)
                return False
            return f
        raise Unsupported('pattern ' + k)

    def enum_of(self, path):
        if len(path) < 2:
            return None
        e = self.selfty if path[-2] == 'Self' else path[-2]
        return self.cr.enums.get(e)

    def const(self, key):
        box = []

        def get():
            if not box:
                c = self.cr.consts[key]
                box.append(Comp(self.cr, key[0], self.f).ex(c[3])(Env()))
            return cp(box[0])
        return get

    # ---- blocks and statements ----
    def block(self, b):
        stmts, tail = b[1], b[2]
        for s in stmts:
            if s[0] == 'item' and s[1] is not None and s[1][0] in ('fn', 'const'):
                self.local[s[1][1]] = s[1]
        steps = [self.stmt(s) for s in stmts if s[0] != 'item']
        t = self.ex(tail) if tail is not None else None
        need = any(s[0] == 'let' for s in stmts)

        def run(env):
            e = Env(env) if need else env
            for s in steps:
                s(e)
            return t(e) if t is not None else ()
        return run

    def stmt(self, s):
        if s[0] == 'let':
            _, p, ty, e, els = s
            if e is None:
                # declared now, assigned later
                nms = names_of(p)

                def run(env):
                    for nm in nms:
                        env.v[nm] = UNINIT
                return run
            ev = self.ex(e, ty)
            pt = self.pat(p)
            if els is not None:
                eb = self.block(els)

                def run(env):
                    if not pt(env, ev(env)):
                        eb(env)
                return run

            def run(env):
                if not pt(env, ev(env)):
                    raise NotEncodable('let pattern')
            return run
        return self.ex(s[1])

    # ---- places ----
    def place(self, e):
        """-> (getter, setter) of an assignable expression"""
        k = e[0]
        if k == 'paren':
            return self.place(e[1])
        if k == 'path' and len(e[1]) == 1:
            nm = e[1][0]

            def st(env, v):
                env.set(nm, v)
            return (lambda env: env.get(nm)), st
        if k == 'field' or k == 'tfield':
            ob, nm = self.ex(e[1], place=True), e[2]

            def st(env, v):
                o = rd(ob(env))
                if isinstance(o, St):
                    o.f[nm] = v
                elif isinstance(o, tuple):
                    t = list(o)
                    t[nm] = v
                    self.place(e[1])[1](env, tuple(t))
                else:
                    raise NotEncodable('field assignment')
            return self.ex(e, place=True), st
        if k == 'index':
            ob, ix = self.ex(e[1], place=True), self.ex(e[2])

            def st(env, v):
                o = rd(ob(env))
                if not isinstance(o, (Seq, Nd)):
                    raise NotEncodable('index assignment to %s' % type(o).__name__)
                o[rd(ix(env))] = v
            return self.ex(e, place=True), st
        if k == 'deref':
            ob = self.ex(e[1], place=True)

            def st(env, v):
                o = ob(env)
                if isinstance(o, Ref):
                    o.set(v)
                elif isinstance(o, Ptr):
                    o.set(v)
                elif isinstance(o, St):
                    o.f.clear()
                    o.f.update(v.f)
                elif isinstance(o, Seq) and isinstance(v, Seq):
                    for i, x in enumerate(list(v)):
                        o[i] = x
                else:
                    raise NotEncodable('assignment through %s' % type(o).__name__)
            return self.ex(e, place=True), st
        if k == 'method' and e[2] in ('get_unchecked_mut', 'index_mut', 'uget_mut'):
            ob, ix = self.ex(e[1], place=True), self.ex(e[4][0])

            def st(env, v):
                rd(ob(env))[rd(ix(env))] = v
            return self.ex(e), st
        if k == 'block' or k == 'method' or k == 'call' or k == 'try':
            ob = self.ex(e)

            def st(env, v):
                o = ob(env)
                if not isinstance(o, Ref):
                    raise NotEncodable('assignment to a temporary')
                o.set(v)
            return ob, st
        raise Unsupported('place ' + k)

    # ---- expressions ----
    def ex(self, e, hint=None, place=False):
        k = e[0]
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        if k in ('path', 'field', 'tfield', 'index', 'deref', 'paren'):
            return m(e, place)
        if k in ('method', 'call', 'block', 'if', 'match', 'try'):
            return m(e, hint)
        return m(e)

    def x_lit(self, e):
        v = e[1]
        return lambda env: v

    def x_paren(self, e, place=False):
        return self.ex(e[1], place=place)

    def x_tuple(self, e):
        xs = [self.ex(x) for x in e[1]]
        return lambda env: tuple([x(env) for x in xs])

    def x_arr(self, e):
        xs = [self.ex(x) for x in e[1]]
        return lambda env: Seq([x(env) for x in xs], arr=True)

    def x_arrn(self, e):
        x, n = self.ex(e[1]), self.ex(e[2])

        def f(env):
            v = x(env)
            return Seq([clone(v) for _ in range(idx(n(env)))], arr=True)
        return f

    def x_vec(self, e):
        xs = [self.ex(x) for x in e[1]]
        return lambda env: Seq([x(env) for x in xs])

    def x_vecn(self, e):
        x, n = self.ex(e[1]), self.ex(e[2])

        def f(env):
            v = x(env)
            return Seq([clone(v) for _ in range(self.size(n(env)))])
        return f

    @staticmethod
    def size(n):
        n = idx(n)
        if not 0 <= n < 10 ** 6:
            raise Panic('capacity overflow')
        return n

    def x_path(self, e, place=False):
        path, targs = e[1], e[2]
        nm = path[-1]
        if len(path) == 1:
            cr, mod = self.cr, self.mod
            if nm in self.local:
                it = self.local[nm]
                if it[0] == 'const':
                    return self.ex(it[3])
                return lambda env: (lambda *a: cr.call(mod, it, a))
            fixed = self.global_(path, targs)

            def f(env):
                try:
                    v = env.get(nm)
                except KeyError:
                    if fixed is None:
                        raise NotEncodable('name ' + nm)
                    return fixed()
                if v is UNINIT:
                    raise UninitRead(nm)
                return v if place else cp(v)
            return f
        g = self.global_(path, targs)
        if g is None:
            raise Unsupported('path ' + '::'.join(path))
        return lambda env: g()

    def global_(self, path, targs):
        cr, mod = self.cr, self.mod
        nm = path[-1]
        own = path[-2] if len(path) > 1 else None
        if own == 'Self':
            own = self.selfty
        if own is None:
            if nm == 'None':
                return lambda: NONE
            if nm in ('Some', 'Ok', 'Err'):
                cls = {'Some': Some, 'Ok': Ok, 'Err': Err}[nm]
                return lambda: cls
            if nm == 'drop':
                return lambda: (lambda x: ())
        if own in ('f64', 'f32', 'std', 'consts'):
            c = {'NAN': math.nan, 'INFINITY': math.inf, 'NEG_INFINITY': -math.inf, 'EPSILON': 2.220446049250313e-16, 'MAX': 1.7976931348623157e308,
                 'MIN': -1.7976931348623157e308, 'MIN_POSITIVE': 2.2250738585072014e-308, 'PI': math.pi}.get(nm)
            if c is not None:
                return lambda: c
            if own == 'f64':
                if nm == 'from':
                    return lambda: (lambda x: float(x) if isint(rd(x)) or isinstance(rd(x), bool) else rd(x))
                return lambda: (lambda x, *a: method(self, rd(x), nm, None, a, None))
        if own in WRAP:
            if nm == 'MAX':
                return lambda: WRAP[own][1]
            if nm == 'MIN':
                return lambda: WRAP[own][0]
            if nm in ('from', 'try_from'):
                if nm == 'from':
                    return lambda: (lambda x: int(rd(x)) if isinstance(rd(x), bool) else rd(x))

                def tf(x):
                    x = rd(x)
                    lo, hi = WRAP[own]
                    return Ok(x) if lo <= x <= hi else Err(PyErr_('OverflowError', 'out of range'))
                return lambda: tf
            return lambda: (lambda x, *a: method(self, rd(x), nm, None, a, None))
        if own == 'Ordering':
            return lambda: ORD[ORDV[nm]]
        if own in ('Vec', 'VecDeque', 'BinaryHeap', 'HashMap', 'HashSet') or own == 'String':
            if own == 'String':
                return lambda: (lambda *a: '')
            if own != 'Vec':
                raise Unsupported(own)
            if nm == 'new':
                return lambda: (lambda: Seq([]))
            if nm == 'with_capacity':
                return lambda: (lambda n: Seq([], cap=idx(n)))
            if nm == 'from':
                return lambda: (lambda x: Seq(list(x)))
        if own == 'Box' and nm == 'new':
            return lambda: (lambda x: x)
        if own == 'Cow' and nm in ('Borrowed', 'Owned'):
            return lambda: (lambda x: x)
        if own in ('Array2', 'Array1', 'Array'):
            def mk(sh, items):
                sh = tuple(sh) if isinstance(sh, (tuple, Seq)) else (sh,)
                sh = tuple(self.size(x) for x in sh)
                st, n = [], 1
                for s in reversed(sh):
                    st.insert(0, n)
                    n *= s
                return Nd(items(n, sh), 0, sh, st)
            if nm == 'from_elem':
                return lambda: (lambda sh, v: mk(sh, lambda n, s: [v] * n))
            if nm in ('zeros', 'ones', 'default'):
                ty = targs
                z = 0.0 if nm != 'ones' else 1.0
                if ty and ty[0][0] == 'path' and ty[0][1] != 'f64':
                    z = False if ty[0][1] == 'bool' else int(z)
                return lambda: (lambda sh: mk(sh, lambda n, s: [z] * n))
            if nm == 'from_shape_vec':
                def fsv(sh, v):
                    r = mk(sh, lambda n, s: list(v))
                    if len(r) != len(v):
                        return Err('shape')
                    return Ok(r)
                return lambda: fsv
            if nm == 'from_shape_fn':
                return lambda: (lambda sh, fn: mk(sh, lambda n, s: [fn(ix if len(s) > 1 else ix[0]) for ix in np.ndindex(*s)]))
            if nm == 'from_vec':
                return lambda: (lambda v: Nd(list(v), 0, (len(v),), (1,)))
        if own in ('ArrayView2', 'ArrayView1', 'ArrayView') and nm == 'from_shape':
            def fs(sh, v):
                sh = tuple(sh) if isinstance(sh, (tuple, Seq)) else (sh,)
                n = 1
                st = []
                for s in reversed(sh):
                    st.insert(0, n)
                    n *= s
                if n != len(v):
                    return Err('shape')
                return Ok(Nd(v.d, v.o, sh, st))
            return lambda: fs
        if own in ('PyArray1', 'PyArray2', 'PyArray'):
            if nm in ('from_owned_array', 'from_array'):
                return lambda: (lambda py, a: PyOut(list(rawiter(a)), a.sh))
            if nm in ('from_vec', 'from_slice', 'from_iter'):
                return lambda: (lambda py, v: (lambda x: PyOut(x, (len(x),)))(list(rawiter(v))))
            if nm == 'zeros':
                return lambda: (lambda py, n, *a: PyOut([0.0] * idx(n), (idx(n),)))
        if own is not None and own.startswith('Py') and own.endswith('Error') and nm == 'new_err':
            return lambda: (lambda msg: PyErr_(own[2:], msg))
        if own == 'PyErr' and nm == 'from_value':
            return lambda: (lambda v: v)
        if own == 'PyDict' and nm == 'new':
            return lambda: (lambda py: {})
        if own == 'PySlice' and nm == 'new':
            return lambda: (lambda py, a, b, s: slice(a, b, s))
        if own == 'PyTuple':
            raise Unsupported('PyTuple')
        if own == 'Zip' and nm == 'from':
            return lambda: (lambda a: ZipS([a]))
        if own == 'cmp' and nm in ('min', 'max'):
            return lambda: (lambda a, b: method(self, rd(a), nm, None, (b,), None))
        if own == 'ptr' or own == 'mem':
            if nm == 'copy_nonoverlapping' or nm == 'copy':
                return lambda: copy_bytes
            if nm in ('write', 'write_unaligned'):
                return lambda: (lambda p, v: p.set(v))
            if nm in ('read', 'read_unaligned'):
                return lambda: (lambda p: p.get())
            if nm == 'swap':
                def sw(a, b):
                    x, y = a.get(), b.get()
                    a.set(y)
                    b.set(x)
                    return ()
                return lambda: sw
            if nm == 'take':
                raise Unsupported('mem::take')
            if nm == 'replace':
                def rp(a, v):
                    o = a.get()
                    a.set(v)
                    return o
                return lambda: rp
        if own is not None and own in cr.enums:
            for vn, kind, fs, disc in cr.enums[own][2]:
                if vn == nm:
                    if kind == 'tuple':
                        return lambda: (lambda *a: Var(own, nm, list(a)))
                    return lambda: Var(own, nm)
        if own is not None and own in cr.impls and nm in cr.impls[own]:
            m2, fn = cr.impls[own][nm]
            return lambda: (lambda *a: cr.call(m2, fn, a))
        if own is not None and own in cr.structs and nm == 'default':
            return lambda: (lambda: default_struct(cr, own))
        if own is not None and (own, nm) in cr.consts:
            return self.const((own, nm))
        if own is None or own in ('crate', 'super', 'self') or own in {m for m, _ in cr.fns}:
            m0 = own if own in {m for m, _ in cr.fns} else mod
            key = cr.find_const(m0, nm)
            if key is not None:
                return self.const(key)
            r = cr.find_fn(m0, nm)
            if r is not None:
                m2, fn = r
                return lambda: (lambda *a: cr.call(m2, fn, a))
            if nm in cr.structs:
                return lambda: (lambda *a: St(nm, dict(enumerate(a)), is_copy(cr.structs[nm])))
        if own in ('SmallRng', 'ChaCha8Rng', 'StdRng', 'rand', 'thread_rng') or nm == 'rng':
            return lambda: (lambda *a: RandomSource())
        return None

    def x_field(self, e, place=False):
        ob, nm = self.ex(e[1], place=True), e[2]

        def f(env):
            o = rd(ob(env))
            if isinstance(o, St):
                v = o.f[nm]
                return v if place else cp(v)
            if isinstance(o, ObjPtr) and nm == 'data':
                return Ptr(o.a, 0)
            if isinstance(o, PyStruct):
                return o.st.f[nm]
            raise NotEncodable('field %s of %s' % (nm, type(o).__name__))
        return f

    def x_tfield(self, e, place=False):
        ob, k = self.ex(e[1], place=True), e[2]

        def f(env):
            o = rd(ob(env))
            if isinstance(o, St):
                return o.f[k]
            return o[k]
        return f

    def x_index(self, e, place=False):
        ob, ix = self.ex(e[1], place=True), self.ex(e[2])

        def f(env):
            o = rd(ob(env))
            i = rd(ix(env))
            if isinstance(i, Rg):
                if not isinstance(o, Seq):
                    raise NotEncodable('range index of %s' % type(o).__name__)
                return o.sub(i)
            if not isinstance(o, (Seq, Nd)):
                raise NotEncodable('index of %s' % type(o).__name__)
            v = o[i]
            return v if place else cp(v)
        return f

    def x_deref(self, e, place=False):
        ob = self.ex(e[1], place=True)

        def f(env):
            o = ob(env)
            if isinstance(o, Ref):
                o = o.get()
            elif isinstance(o, Ptr):
                return o.get()
            return o if place else cp(o)
        return f

    def x_ref(self, e):
        return self.ex(e[1], place=True)

    def x_refmut(self, e):
        x = e[1]
        while x[0] == 'paren':
            x = x[1]
        k = x[0]
        if k == 'path' and len(x[1]) == 1:
            nm = x[1][0]

            def f(env):
                v = env.get(nm)
                return v if isinstance(v, (St, Seq, Nd, Ref, dict, It, PyArr)) else Ref(env, nm, 'e')
            return f
        if k == 'index':
            ob, ix = self.ex(x[1], place=True), self.ex(x[2])

            def f(env):
                o, i = rd(ob(env)), rd(ix(env))
                if isinstance(i, Rg):
                    return o.sub(i)
                v = o[i]
                return v if isinstance(v, (St, Seq, Nd, Ref)) else Ref(o, i, 'i')
            return f
        if k == 'field' or k == 'tfield':
            ob, nm = self.ex(x[1], place=True), x[2]

            def f(env):
                o = rd(ob(env))
                v = o.f[nm]
                return v if isinstance(v, (St, Seq, Nd, Ref)) else Ref(o, nm, 'f')
            return f
        if k == 'deref':
            return self.ex(x[1], place=True)
        ev = self.ex(x)

        def f(env):
            v = ev(env)
            if isinstance(v, (St, Seq, Nd, Ref, It, dict, PyArr, ZipS, Rg)) or not isinstance(v, FLOATS + (int, bool)):
                return v
            t = Env()
            t.v['t'] = v
            return Ref(t, 't', 'e')
        return f

    def x_neg(self, e):
        x = self.ex(e[1])

        def f(env):
            v = rd(x(env))
            if isinstance(v, FLOATS) or isint(v):
                return -v
            raise NotEncodable('negation')
        return f

    def x_not(self, e):
        x = self.ex(e[1])

        def f(env):
            v = rd(x(env))
            if isinstance(v, bool):
                return not v
            if isinstance(v, SymBool):
                return ~v
            return ~v
        return f

    def x_bin(self, e):
        op = e[1]
        a, b = self.ex(e[2]), self.ex(e[3])
        if op == '&&':
            def f(env):
                return truth(a(env)) and truth(b(env))
            return f
        if op == '||':
            def f(env):
                return truth(a(env)) or truth(b(env))
            return f
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return lambda env: compare(op, a(env), b(env))
        return lambda env: arith(op, a(env), b(env))

    def x_assign(self, e):
        op, lhs, rhs = e[1:]
        r = self.ex(rhs)
        if lhs[0] == 'path' and lhs[1] == ['_']:
            return lambda env: (r(env), ())[1]
        if lhs[0] == 'tuple':
            ps = [self.place(x)[1] for x in lhs[1]]

            def f(env):
                for p, v in zip(ps, r(env)):
                    p(env, v)
                return ()
            return f
        g, s = self.place(lhs)
        if op == '=':
            def f(env):
                s(env, rd(r(env)) if not isinstance(r, type) else None)
                return ()
            if lhs[0] == 'path':
                nm = lhs[1][0]

                def f(env):
                    env.set(nm, r(env))
                    return ()
            return f
        o = op[:-1]

        def f(env):
            v = r(env)
            cur = g(env)
            if isinstance(cur, Ref) and lhs[0] == 'path':
                cur.set(arith(o, cur.get(), v))
            else:
                s(env, arith(o, rd(cur), v))
            return ()
        return f

    def x_as(self, e):
        x, ty = self.ex(e[1]), e[2]
        if ty[0] == 'path':
            t = ty[1]

            def f(env):
                v = rd(x(env))
                if isinstance(v, (Ptr, ObjPtr)):
                    return v
                if t in ('f64', 'f32'):
                    if isint(v):
                        return float(v)
                    if isinstance(v, FLOATS):
                        return v
                elif t in WRAP:
                    if isinstance(v, (bool, SymBool)):
                        return 1 if truth(v) else 0
                    if isint(v):
                        lo, hi = WRAP[t]
                        if lo <= v <= hi:
                            return v
                        n = hi - lo + 1
                        return (v - lo) % n + lo
                    if isinstance(v, FLOATS):
                        return trunc_int(v, t)
                    if isinstance(v, Var):
                        for i, (vn, kind, fs, disc) in enumerate(self.cr.enums[v.enum][2]):
                            if vn == v.variant:
                                return i if disc is None else self.ex(disc)(Env())
                elif t == '_':
                    return v
                raise NotEncodable('cast of %s to %s' % (type(v).__name__, t))
            return f
        if ty[0] == 'ptr':
            def f(env):
                v = rd(x(env))
                if isinstance(v, (Ptr, ObjPtr)):
                    return v
                raise NotEncodable('pointer cast')
            return f
        return x

    def x_range(self, e):
        lo = self.ex(e[1]) if e[1] is not None else None
        hi = self.ex(e[2]) if e[2] is not None else None
        inc = e[3]
        return lambda env: Rg(rd(lo(env)) if lo else None, rd(hi(env)) if hi else None, inc)

    def x_struct(self, e):
        path, fs, base = e[1:]
        nm = path[-1]
        own = None
        if nm == 'Self':
            nm = self.selfty
        elif len(path) > 1:
            own = self.selfty if path[-2] == 'Self' else path[-2]
        fs = [(n, self.ex(x)) for n, x in fs]
        b = self.ex(base) if base is not None else None
        if own in self.cr.enums:
            return lambda env: Var(own, nm, {n: x(env) for n, x in fs})
        if nm not in self.cr.structs:
            raise Unsupported('struct ' + nm)
        c = is_copy(self.cr.structs[nm])

        def f(env):
            d = {n: rd(x(env)) if not isinstance(x, Ref) else x(env) for n, x in fs}
            if b is not None:
                d = dict(clone(rd(b(env))).f, **d)
            return St(nm, d, c)
        return f

    def x_block(self, e, hint=None):
        return self.block(e)

    def cond(self, c):
        if c[0] == 'iflet':
            p, x = self.pat(c[1]), self.ex(c[2], place=True)
            return lambda env: p(env, x(env))
        if c[0] == 'condand':
            a, b = self.cond(c[1]), self.cond(c[2])
            return lambda env: a(env) and b(env)
        x = self.ex(c)
        return lambda env: truth(x(env))

    def x_if(self, e, hint=None):
        c, a = self.cond(e[1]), self.block(e[2])
        b = self.ex(e[3]) if e[3] is not None else None

        def f(env):
            e2 = Env(env)
            if c(e2):
                return a(e2)
            return b(env) if b is not None else ()
        return f

    def x_matches(self, e):
        x, p = self.ex(e[1], place=True), self.pat(e[2])
        g = self.ex(e[3]) if e[3] is not None else None

        def f(env):
            e2 = Env(env)
            return p(e2, x(env)) and (g is None or truth(g(e2)))
        return f

    def x_match(self, e, hint=None):
        x = self.ex(e[1], place=True)
        arms = [(self.pat(p), self.ex(g) if g is not None else None, self.ex(b)) for p, g, b in e[2]]

        def f(env):
            v = x(env)
            for p, g, b in arms:
                e2 = Env(env)
                if p(e2, v) and (g is None or truth(g(e2))):
                    return b(e2)
            raise NotEncodable('no match arm')
        return f

    def loop_(self, body, lab, it):
        for _ in it:
            try:
                body()
            except Brk as b:
                if b.args[0] is None or b.args[0] == lab:
                    return b.args[1]
                raise
            except Cont as c:
                if c.args[0] is None or c.args[0] == lab:
                    continue
                raise
        return ()

    def x_label(self, e):
        lab, x = e[1], e[2]
        if x[0] == 'block':
            b = self.block(x)

            def f(env):
                try:
                    return b(env)
                except Brk as k:
                    if k.args[0] == lab:
                        return k.args[1]
                    raise
            return f
        return getattr(self, 'x_' + x[0])(x, lab)

    def x_loop(self, e, lab=None):
        b = self.block(e[1])

        def forever():
            for _ in range(100000):
                yield
            raise NotEncodable('endless loop')
        return lambda env: self.loop_(lambda: b(env), lab, forever())

    def x_while(self, e, lab=None):
        c, b = self.cond(e[1]), self.block(e[2])

        def f(env):
            cur = [env]

            def conds():
                for _ in range(100000):
                    cur[0] = Env(env)
                    if not c(cur[0]):
                        return
                    yield
                raise NotEncodable('endless loop')
            self.loop_(lambda: b(cur[0]), lab, conds())
            return ()
        return f

    def x_for(self, e, lab=None):
        p, x, b = self.pat(e[1]), self.ex(e[2]), self.block(e[3])
        mut = e[2][0] == 'refmut'

        def f(env):
            v = x(env)
            it = refs(v) if mut and isinstance(rd(v), (Seq, Nd)) else iterate(v)
            cur = []

            def body():
                e2 = Env(env)
                if not p(e2, cur[0]):
                    raise NotEncodable('for pattern')
                b(e2)

            def steps():
                for v in it:
                    cur[:] = [v]
                    yield
            self.loop_(body, lab, steps())
            return ()
        return f

    def x_return(self, e):
        x = self.ex(e[1]) if e[1] is not None else None

        def f(env):
            raise Ret(x(env) if x is not None else ())
        return f

    def x_break(self, e):
        lab = e[1]
        x = self.ex(e[2]) if e[2] is not None else None

        def f(env):
            raise Brk(lab, x(env) if x is not None else ())
        return f

    def x_continue(self, e):
        lab = e[1]

        def f(env):
            raise Cont(lab)
        return f

    def x_closure(self, e):
        ps, b = [self.pat(p) for p in e[1]], self.ex(e[2])

        def f(env):
            def run(*args):
                e2 = Env(env)
                if len(args) != len(ps):
                    raise NotEncodable('closure arity')
                for p, a in zip(ps, args):
                    if not p(e2, a):
                        raise NotEncodable('closure pattern')
                try:
                    return b(e2)
                except Ret as r:
                    return r.args[0]
            return run
        return f

    def x_try(self, e, hint=None):
        x = self.ex(e[1], hint)

        def f(env):
            v = x(env)
            if isinstance(v, (Ok, Some)):
                return v.v
            if isinstance(v, Err) or v is NONE:
                raise Ret(v)
            return v        # Python object: no error
        return f

    def x_assertm(self, e):
        c = self.ex(e[1])

        def f(env):
            if not truth(c(env)):
                raise Panic('assertion failed')
            return ()
        return f

    def x_panic(self, e):
        def f(env):
            raise Panic(e[1])
        return f

    def x_iflet(self, e):
        return self.cond(e)

    def x_call(self, e, hint=None):
        fx = e[1]
        args = [self.ex(a) for a in e[2]]
        fn = self.ex(fx, place=True)

        def f(env):
            g = fn(env)
            if isinstance(g, Ref):
                g = rd(g)
            if not callable(g):
                raise NotEncodable('call of %s' % type(g).__name__)
            return g(*[a(env) for a in args])
        return f

    def x_method(self, e, hint=None):
        _, ob, nm, targs, args = e
        o = self.ex(ob, place=True)
        args = [self.ex(a) for a in args]

        def f(env):
            v = o(env)
            return method(self, v, nm, targs, [a(env) for a in args], hint)
        return f


def is_copy(sd):
    return any(a and a[0].v == 'derive' and any(t.v == 'Copy' for t in a) for a in sd[3])


def default_struct(cr, name):
    if name in cr.impls and 'default' in cr.impls[name]:
        m, f = cr.impls[name]['default']
        return cr.call(m, f, [])
    d = {}
    for n, ty in cr.structs[name][2]:
        t = ty[1] if ty[0] == 'path' else None
        d[n] = 0.0 if t == 'f64' else 0 if t in WRAP else False if t == 'bool' else NONE if t == 'Option' else Seq([]) if t == 'Vec' else None
        if d[n] is None:
            raise Unsupported('Default of ' + name)
    return St(name, d, is_copy(cr.structs[name]))


def rawiter(v):
    """elements without the check for uninitialised ones (they only count when read)"""
    v = rd(v)
    if isinstance(v, Seq):
        return [v.d[v.o + i] for i in range(len(v))]
    if isinstance(v, Nd):
        return [v.d[v.at(ix)] for ix in v.keys()]
    return list(iterate(v))


def copy_bytes(src, dst, n):
    it = src.a.dtype.itemsize
    if src.o % it or dst.o % it or n % it or dst.a.dtype.itemsize != it:
        raise NotEncodable('partial record copy')
    for k in range(n // it):
        i, j = src.o // it + k, dst.o // it + k
        if not (0 <= i < len(src.a) and 0 <= j < len(dst.a)):
            raise Panic('pointer out of the array')
        if src.a.dtype.names:
            for f in src.a.dtype.names:
                dst.a[f][j] = src.a[f][i]
        else:
            dst.a[j] = src.a[i]
    return ()


class ZipS:
    """ndarray::Zip"""

    def __init__(self, xs):
        self.xs = xs

    def run(self, fn):
        sh = self.xs[0].sh
        for x in self.xs:
            if x.sh != sh:
                raise Panic('Zip: shapes differ')
        for ix in np.ndindex(*sh):
            fn(*[Ref(x, ix, 'i') for x in self.xs])
        return ()


def iterate(v):
    v = rd(v) if isinstance(v, Ref) else v
    if isinstance(v, (It, Rg, Seq, Nd)):
        return iter(v)
    if isinstance(v, Some):
        return iter([v.v])
    if v is NONE:
        return iter([])
    if isinstance(v, Flat):
        return iter([v[i] for i in range(len(v))])
    raise NotEncodable('iteration over %s' % type(v).__name__)


def refs(v):
    v = rd(v)
    if isinstance(v, Nd):
        for ix in v.keys():
            yield Ref(v, ix, 'i')
    else:
        for i in range(len(v)):
            x = v.d[v.o + i]
            yield x if isinstance(x, (St, Seq, Nd)) else Ref(v, i, 'i')


def ordering(a, b):
    a, b = rd(a), rd(b)
    if isinstance(a, tuple):
        for x, y in zip(a, b):
            o = ordering(x, y)
            if o is None or o != 0:
                return o
        return 0
    if isinstance(a, FLOATS) and (truth(isnan_(a)) or truth(isnan_(b))):
        return None
    if truth(a < b):
        return -1
    return 0 if truth(a == b) else 1


def total_cmp(a, b):
    na, nb = truth(isnan_(a)), truth(isnan_(b))
    if na or nb:
        return 0 if na and nb else 1 if na else -1
    return ordering(a, b)


def sort_list(xs, cmp_):
    """stable insertion sort: few comparisons, every outcome explored"""
    out = []
    for x in xs:
        j = len(out)
        while j > 0 and cmp_(x, out[j - 1]) < 0:
            j -= 1
        out.insert(j, x)
    return out


def ordv(x):
    x = rd(x)
    if isinstance(x, Var) and x.enum == 'Ordering':
        return ORDV[x.variant]
    raise NotEncodable('ordering')


def collect(xs, targs, hint):
    ty = targs[0] if targs else hint
    xs = list(xs)
    if ty is not None and ty[0] == 'path' and ty[1] in ('Result', 'PyResult', 'Option'):
        out = []
        for x in xs:
            if isinstance(x, (Err, NoneT)):
                return x
            out.append(x.v)
        return (Some if ty[1] == 'Option' else Ok)(Seq(out))
    if xs and isinstance(xs[0], (Ok, Err)) and (ty is None or ty[0] == 'infer'):
        for x in xs:
            if isinstance(x, Err):
                return x
        return Ok(Seq([x.v for x in xs]))
    if ty is not None and ty[0] == 'path' and ty[1] not in ('Vec', '_', 'Box', 'Cow'):
        raise NotEncodable('collect into ' + ty[1])
    return Seq(xs)


def total(xs, start, op, targs, hint):
    ty = targs[0] if targs else hint
    acc = None
    for x in xs:
        x = rd(x)
        if acc is None:
            acc = x
        else:
            acc = arith(op, acc, x)
    if acc is None:
        t = ty[1] if ty and ty[0] == 'path' else None
        return int(start) if t in WRAP else float(start)
    return acc


FLOAT_CONST = {'sqrt': 'sqrt', 'abs': 'abs', 'floor': 'floor', 'ln': 'log', 'exp': 'exp'}


def method(cp_, v, nm, targs, args, hint):
    cr = cp_.cr
    if isinstance(v, Ref):
        if nm in ('as_mut', 'iter_mut') and False:
            pass
        inner = v.get()
        v0 = v
        v = rd(inner)
    else:
        v0 = v
    # user methods
    if isinstance(v, (St, Var)):
        tn = v.name if isinstance(v, St) else v.enum
        d = cr.impls.get(tn, {})
        if nm in d:
            m2, fn = d[nm]
            return cr.call(m2, fn, [v] + list(args))
        if nm in ('clone', 'to_owned'):
            return clone(v)
    if isinstance(v, PyStruct):
        v = v.st
    if nm in ('clone', 'to_owned'):
        return clone(v)
    if nm in ('as_ref', 'borrow', 'as_deref', 'as_borrowed', 'unbind', 'bind', 'into_any', 'into_bound', 'into', 'into_owned', 'by_ref',
              'to_string', 'into_iter_', 'as_mut_', 'deref', 'into_inner', 'into_boxed_slice'):
        if nm == 'into_owned' and isinstance(v, (Seq, Nd)):
            return clone(v)
        return v
    if isinstance(v, bool) or isinstance(v, SymBool):
        if nm in ('then', 'then_some'):
            if truth(v):
                return Some(args[0]() if nm == 'then' else args[0])
            return NONE
    if isint(v):
        a = rd(args[0]) if args else None
        if nm in ('min', 'max') and isint(a):
            return min(v, a) if nm == 'min' else max(v, a)
        if nm == 'saturating_sub':
            return max(0, v - a)
        if nm in ('saturating_add', 'wrapping_add'):
            return v + a
        if nm == 'wrapping_sub':
            return v - a
        if nm == 'checked_sub':
            return Some(v - a) if v >= a else NONE
        if nm == 'checked_add':
            return Some(v + a)
        if nm == 'checked_div':
            return Some(arith('/', v, a)) if a else NONE
        if nm == 'abs' or nm == 'unsigned_abs':
            return abs(v)
        if nm == 'abs_diff':
            return abs(v - a)
        if nm == 'signum':
            return (v > 0) - (v < 0)
        if nm == 'pow':
            return v ** a
        if nm == 'div_ceil':
            return -(-v // a)
        if nm == 'rem_euclid':
            return v % abs(a)
        if nm == 'clamp':
            return max(a, min(v, rd(args[1])))
        if nm in ('cmp', 'partial_cmp'):
            o = ORD[ordering(v, a)]
            return o if nm == 'cmp' else Some(o)
        if nm == 'is_positive':
            return v > 0
        if nm == 'is_negative':
            return v < 0
        if nm == 'hash':
            return Ok(hash(v))
        if nm == 'eq':
            return v == a
    if isinstance(v, FLOATS):
        a = rd(args[0]) if args else None
        if nm == 'is_nan':
            return isnan_(v)
        if nm == 'is_infinite':
            return isinf_(v)
        if nm == 'is_finite':
            n, i = isnan_(v), isinf_(v)
            if isinstance(n, bool) and isinstance(i, bool):
                return not (n or i)
            from .harness import or_, not_
            return not_(or_(n, i))
        if nm in FLOAT_CONST:
            return unary_float(FLOAT_CONST[nm])(v)
        if nm == 'ceil':
            return -unary_float('floor')(-v)
        if nm == 'signum':
            return fsign(v)
        if nm == 'copysign':
            m = unary_float('abs')(v)
            return m if truth(compare('>=', fsign(a), 0.0)) else -m
        if nm in ('max', 'min'):
            return fminmax(v, a, nm == 'max')
        if nm in ('powf', 'powi'):
            return fpow(v, a)
        if nm == 'recip':
            return fdiv(1.0, v)
        if nm == 'mul_add':
            return arith('+', arith('*', v, a), rd(args[1]))
        if nm == 'clamp':
            return fminmax(fminmax(v, a, True), rd(args[1]), False)
        if nm == 'partial_cmp':
            o = ordering(v, a)
            return NONE if o is None else Some(ORD[o])
        if nm == 'total_cmp':
            return ORD[total_cmp(v, a)]
        if nm == 'is_sign_negative':
            return not truth(compare('>=', fsign(v), 0.0))
        if nm == 'is_sign_positive':
            return truth(compare('>=', fsign(v), 0.0))
        if nm in ('add', 'sub', 'mul', 'div'):
            return arith({'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[nm], v, a)
    if isinstance(v, (Some, NoneT)):
        s = isinstance(v, Some)
        if nm in ('unwrap', 'expect'):
            if not s:
                raise Panic('unwrap of None')
            return v.v
        if nm == 'unwrap_or':
            return v.v if s else args[0]
        if nm == 'unwrap_or_else':
            return v.v if s else args[0]()
        if nm == 'unwrap_or_default':
            raise NotEncodable('unwrap_or_default')
        if nm == 'is_some':
            return s
        if nm == 'is_none':
            return not s
        if nm == 'map':
            return Some(args[0](v.v)) if s else NONE
        if nm == 'map_or':
            return args[1](v.v) if s else args[0]
        if nm == 'map_or_else':
            return args[1](v.v) if s else args[0]()
        if nm == 'and_then':
            return args[0](v.v) if s else NONE
        if nm == 'filter':
            return v if s and truth(args[0](v.v)) else NONE
        if nm == 'is_some_and':
            return s and truth(args[0](v.v))
        if nm in ('or',):
            return v if s else args[0]
        if nm == 'or_else':
            return v if s else args[0]()
        if nm == 'ok_or':
            return Ok(v.v) if s else Err(args[0])
        if nm == 'ok_or_else':
            return Ok(v.v) if s else Err(args[0]())
        if nm in ('copied', 'cloned'):
            return Some(clone(v.v)) if s else NONE
        if nm == 'as_mut':
            if not s:
                return NONE
            return Some(v.v if isinstance(v.v, (St, Seq, Nd, Ref)) else Ref(v, 'v', 's'))
        if nm == 'iter' or nm == 'into_iter':
            return It([v.v] if s else [])
        if nm == 'take' and isinstance(v0, Ref):
            v0.set(NONE)
            return v
    if isinstance(v, (Ok, Err)):
        s = isinstance(v, Ok)
        if nm in ('unwrap', 'expect'):
            if not s:
                raise Panic('unwrap of Err')
            return v.v
        if nm == 'map':
            return Ok(args[0](v.v)) if s else v
        if nm == 'map_err':
            return v if s else Err(args[0](v.v))
        if nm == 'and_then':
            return args[0](v.v) if s else v
        if nm == 'ok':
            return Some(v.v) if s else NONE
        if nm == 'is_ok':
            return s
        if nm == 'is_err':
            return not s
        if nm == 'unwrap_or':
            return v.v if s else args[0]
        if nm == 'unwrap_or_else':
            return v.v if s else args[0](v.v)
        if nm == 'or_else':
            return v if s else args[0](v.v)
    if isinstance(v, Py_):
        if nm in ('detach', 'allow_threads'):
            return args[0]()
        if nm == 'import':
            import importlib
            if args[0] == 'numpy':
                return Ok(cr.hook.np)
            return Ok(importlib.import_module(args[0]))
    if isinstance(v, Var) and v.enum == 'Ordering':
        k = ORDV[v.variant]
        if nm == 'reverse':
            return ORD[-k]
        if nm == 'then':
            return v if k else args[0]
        if nm == 'then_with':
            return v if k else args[0]()
        if nm in ('is_lt', 'is_gt', 'is_eq', 'is_le', 'is_ge'):
            return {'is_lt': k < 0, 'is_gt': k > 0, 'is_eq': k == 0, 'is_le': k <= 0, 'is_ge': k >= 0}[nm]
    if isinstance(v, PyArr):
        if nm in ('as_array', 'as_array_mut', 'as_slice', 'as_slice_mut'):
            return v.view() if nm.startswith('as_array') else v.as_slice()
        if nm == 'shape':
            return Seq(list(v.a.shape))
        if nm == 'ndim':
            return v.a.ndim
        if nm in ('len', 'size'):
            r = int(v.a.size)
            return r
        if nm == 'is_empty':
            return v.a.size == 0
        if nm == 'is_contiguous':
            return bool(v.a.flags.c_contiguous or v.a.flags.f_contiguous)
        if nm == 'is_c_contiguous':
            return bool(v.a.flags.c_contiguous)
        if nm in ('readonly', 'readwrite', 'as_any', 'to_owned_array'):
            return v
    if isinstance(v, Ptr):
        if nm in ('add', 'offset', 'wrapping_add', 'byte_add'):
            return type(v)(v.a, v.o + idx(args[0]), v.ty)
        if nm == 'sub':
            return type(v)(v.a, v.o - idx(args[0]), v.ty)
        if nm in ('read', 'read_unaligned'):
            return v.get()
        if nm in ('write', 'write_unaligned'):
            v.set(rd(args[0]))
            return ()
        if nm in ('cast', 'cast_mut', 'cast_const'):
            return v
    if isinstance(v, ZipS):
        if nm == 'and':
            return ZipS(v.xs + [args[0]])
        if nm == 'for_each':
            return v.run(args[0])
    if isinstance(v, PyOut):
        if nm in ('reshape',):
            sh = tuple(args[0]) if isinstance(args[0], (Seq, tuple)) else (args[0],)
            if int(np.prod(sh)) != len(v.items):
                return Err(PyErr_('TypeError', 'shape'))
            return Ok(PyOut(v.items, sh))
        if nm == 'into_any':
            return v
    if isinstance(v, Nd):
        if nm == 'dim':
            return v.sh if len(v.sh) != 1 else v.sh[0]
        if nm == 'shape':
            return Seq(list(v.sh))
        if nm == 'nrows':
            return v.sh[0]
        if nm == 'ncols':
            return v.sh[1]
        if nm == 'len':
            return len(v)
        if nm == 'is_empty':
            return len(v) == 0
        if nm in ('column', 'column_mut'):
            return v.sub(1, args[0])
        if nm in ('row', 'row_mut'):
            return v.sub(0, args[0])
        if nm in ('iter', 'into_iter'):
            return It(v)
        if nm == 'iter_mut':
            return It(refs(v))
        if nm in ('as_slice', 'as_slice_mut'):
            return Some(Seq(v.d, v.o, len(v))) if v.std() else NONE
        if nm in ('as_slice_memory_order', 'as_slice_memory_order_mut'):
            return Some(Seq(v.d, v.o, len(v)))
        if nm == 'is_standard_layout':
            return v.std()
        if nm in ('view', 'view_mut', 'reborrow'):
            return v
        if nm == 't' or nm == 'reversed_axes':
            return Nd(v.d, v.o, v.sh[::-1], v.st[::-1])
        if nm == 'to_vec':
            return Seq(list(v))
        if nm in ('into_raw_vec', 'into_raw_vec_and_offset'):
            return Seq([v[ix] for ix in v.keys()])
        if nm == 'rows' or nm == 'outer_iter' or nm == 'rows_mut' or nm == 'outer_iter_mut':
            return It([v.sub(0, i) for i in range(v.sh[0])])
        if nm == 'columns' or nm == 'columns_mut':
            return It([v.sub(1, i) for i in range(v.sh[1])])
        if nm == 'mapv_inplace':
            for ix in v.keys():
                v[ix] = args[0](v[ix])
            return ()
        if nm in ('mapv', 'map', 'mapv_into'):
            r = clone(v)
            for ix in r.keys():
                r[ix] = args[0](r[ix])
            return r
        if nm == 'fill':
            for ix in v.keys():
                v[ix] = rd(args[0])
            return ()
        if nm == 'assign':
            for ix in v.keys():
                v[ix] = args[0][ix]
            return ()
        if nm in ('uget', 'get'):
            try:
                x = v[args[0]]
            except Panic:
                if nm == 'get':
                    return NONE
                raise
            return x if nm == 'uget' else Some(x)
        if nm == 'indexed_iter':
            return It((ix if len(ix) > 1 else ix[0], v[ix]) for ix in v.keys())
        if nm == 'sum':
            return total(v, 0, '+', ('path', 'f64', []), None)
        if nm == 'get_unchecked':
            return v[args[0]]
    if isinstance(v, Seq):
        r = seq_method(cp_, v, nm, targs, args, hint)
        if r is not NotImplemented:
            return r
    if isinstance(v, (It, Rg, Seq)):
        return iter_method(cp_, v, nm, targs, args, hint)
    if isinstance(v, dict):
        if nm == 'set_item':
            v[args[0]] = args[1]
            return Ok(())
        if nm == 'contains':
            return Ok(args[0] in v)
    if nm in cr.foreign and not isinstance(v, FLOATS + (int, bool, str)):
        m2, fn = cr.foreign[nm]
        return cr.call(m2, fn, [v] + list(args))
    return py_method(cp_, v, nm, targs, args, hint)


def seq_method(cp_, v, nm, targs, args, hint):
    if nm == 'len':
        return len(v)
    if nm == 'is_empty':
        return len(v) == 0
    if nm in ('iter', 'into_iter'):
        return It(v)
    if nm == 'iter_mut':
        return It(refs(v))
    if nm == 'push':
        if v.n is not None:
            raise NotEncodable('push on a slice')
        v.d.append(rd(args[0]))
        return ()
    if nm == 'pop':
        return Some(v.d.pop()) if v.d else NONE
    if nm == 'capacity':
        return max(v.cap or 0, len(v))
    if nm in ('reserve', 'shrink_to_fit'):
        return ()
    if nm == 'set_len':
        n = idx(args[0])
        while len(v.d) < n:
            v.d.append(UNINIT)
        del v.d[n:]
        return ()
    if nm == 'truncate':
        del v.d[idx(args[0]):]
        return ()
    if nm == 'resize':
        n = idx(args[0])
        del v.d[n:]
        while len(v.d) < n:
            v.d.append(clone(args[1]))
        return ()
    if nm == 'clear':
        del v.d[:]
        return ()
    if nm in ('extend', 'extend_from_slice'):
        v.d.extend([clone(x) for x in list(iterate(args[0]))])
        return ()
    if nm == 'insert':
        v.d.insert(idx(args[0]), rd(args[1]))
        return ()
    if nm == 'remove':
        i = v.at(args[0])
        return v.d.pop(i)
    if nm == 'swap':
        i, j = v.at(args[0]), v.at(args[1])
        v.d[i], v.d[j] = v.d[j], v.d[i]
        return ()
    if nm == 'reverse':
        xs = list(v)[::-1]
        for i, x in enumerate(xs):
            v[i] = x
        return ()
    if nm in ('to_vec', 'into_vec', 'to_owned'):
        return Seq([clone(x) for x in v])
    if nm in ('get', 'first', 'last', 'get_mut', 'last_mut', 'first_mut'):
        i = rd(args[0]) if nm.startswith('get') else 0 if nm.startswith('first') else len(v) - 1
        if isinstance(i, Rg):
            try:
                return Some(v.sub(i))
            except Panic:
                return NONE
        if not 0 <= idx(i) < len(v):
            return NONE
        x = v[i]
        if nm.endswith('mut') and not isinstance(x, (St, Seq, Nd)):
            return Some(Ref(v, i, 'i'))
        return Some(x)
    if nm == 'get_unchecked':
        return v.sub(rd(args[0])) if isinstance(rd(args[0]), Rg) else v[args[0]]
    if nm == 'get_unchecked_mut':
        x = v[args[0]]
        return x if isinstance(x, (St, Seq, Nd)) else Ref(v, rd(args[0]), 'i')
    if nm in ('as_slice', 'as_mut_slice', 'as_mut', 'as_slice_mut'):
        return v
    if nm == 'as_ptr' or nm == 'as_mut_ptr':
        return SeqPtr(v, 0)
    if nm == 'fill':
        for i in range(len(v)):
            v[i] = clone(args[0])
        return ()
    if nm in ('copy_from_slice', 'clone_from_slice'):
        src = rawiter(args[0])
        if len(src) != len(v):
            raise Panic('copy_from_slice: lengths differ')
        for i, x in enumerate(src):
            v[i] = x
        return ()
    if nm == 'copy_within':
        src = list(v.sub(args[0]))
        for k, x in enumerate(src):
            v[idx(args[1]) + k] = x
        return ()
    if nm in ('chunks_exact', 'chunks', 'windows', 'chunks_exact_mut', 'chunks_mut'):
        n = idx(args[0])
        if n == 0:
            raise Panic('chunk size must be non-zero')
        m = len(v)
        if nm == 'windows':
            return It([v.sub(Rg(i, i + n, False)) for i in range(0, m - n + 1)])
        return It([v.sub(Rg(i, min(m, i + n), False)) for i in range(0, m, n) if 'exact' not in nm or i + n <= m])
    if nm == 'split_at' or nm == 'split_at_mut':
        k = args[0]
        return (v.sub(Rg(0, k, False)), v.sub(Rg(k, None, False)))
    if nm == 'contains':
        return any(truth(compare('==', x, args[0])) for x in v)
    if nm == 'concat':
        return Seq([y for x in v for y in x])
    if nm in ('sort_by', 'sort_unstable_by', 'sort', 'sort_unstable', 'sort_by_key'):
        if nm == 'sort_by_key':
            key = args[0]
            c = lambda a, b: ordering(key(a), key(b))
        elif args:
            c = lambda a, b: ordv(args[0](a, b))
        else:
            c = lambda a, b: ordering(a, b)
        for i, x in enumerate(sort_list(list(v), c)):
            v[i] = x
        return ()
    if nm in ('select_nth_unstable_by', 'select_nth_unstable'):
        k = v.at(args[0]) - v.o
        c = (lambda a, b: ordv(args[1](a, b))) if len(args) > 1 else ordering
        for i, x in enumerate(sort_list(list(v), c)):
            v[i] = x
        return (v.sub(Rg(0, k, False)), Ref(v, k, 'i'), v.sub(Rg(k + 1, None, False)))
    if nm in ('binary_search', 'binary_search_by', 'partition_point', 'rotate_left', 'rotate_right', 'dedup', 'retain', 'drain', 'shuffle'):
        raise NotEncodable('Vec::' + nm)
    return NotImplemented


def iter_method(cp_, v, nm, targs, args, hint):
    if isinstance(v, Rg):
        if nm == 'contains':
            x = rd(args[0])
            return truth(compare('>=', x, v.lo)) and truth(compare('<=' if v.inc else '<', x, v.hi))
        if nm == 'len':
            return max(0, v.hi - v.lo)
        if nm == 'is_empty':
            return v.hi <= v.lo
    it = iterate(v)
    if nm in ('iter', 'into_iter'):
        return It(it)
    if nm == 'enumerate':
        return It(enumerate(it))
    if nm == 'zip':
        return It(zip(it, iterate(args[0])))
    if nm == 'map':
        return It(args[0](x) for x in it)
    if nm == 'filter':
        return It(x for x in it if truth(args[0](x)))
    if nm in ('filter_map', 'flat_map'):
        def g():
            for x in it:
                r = args[0](x)
                yield from iterate(r)
        return It(g())
    if nm == 'flatten':
        return It(y for x in it for y in iterate(x))
    if nm in ('copied', 'cloned'):
        return It(clone(x) for x in it)
    if nm == 'rev':
        return It(list(it)[::-1])
    if nm == 'skip':
        n = idx(args[0])
        return It(list(it)[n:])
    if nm == 'take':
        n = idx(args[0])

        def g():
            k = 0
            if n == 0:
                return
            for x in it:
                yield x
                k += 1
                if k >= n:
                    return
        return It(g())
    if nm == 'step_by':
        return It(list(it)[::idx(args[0])])
    if nm == 'chain':
        return It(list(it) + list(iterate(args[0])))
    if nm in ('take_while', 'skip_while', 'map_while'):
        def g():
            on = nm == 'skip_while'
            for x in it:
                if nm == 'take_while':
                    if not truth(args[0](x)):
                        return
                    yield x
                elif nm == 'map_while':
                    r = args[0](x)
                    if r is NONE:
                        return
                    yield r.v
                else:
                    on = on and truth(args[0](x))
                    if not on:
                        yield x
        return It(g())
    if nm == 'peekable' or nm == 'fuse':
        return It(it)
    if nm == 'next':
        for x in it:
            return Some(x)
        return NONE
    if nm == 'collect':
        return collect(it, targs, hint)
    if nm in ('sum', 'product'):
        return total(it, 0 if nm == 'sum' else 1, '+' if nm == 'sum' else '*', targs, hint)
    if nm == 'count':
        return len(list(it))
    if nm == 'last':
        xs = list(it)
        return Some(xs[-1]) if xs else NONE
    if nm == 'nth':
        xs = list(it)
        return Some(xs[idx(args[0])]) if idx(args[0]) < len(xs) else NONE
    if nm == 'any':
        return any(truth(args[0](x)) for x in it)
    if nm == 'all':
        return all(truth(args[0](x)) for x in it)
    if nm in ('find', 'position', 'find_map'):
        for i, x in enumerate(it):
            r = args[0](x)
            if nm == 'find_map':
                if r is not NONE:
                    return r
            elif truth(r):
                return Some(i if nm == 'position' else x)
        return NONE
    if nm == 'fold':
        acc = args[0]
        for x in it:
            acc = args[1](acc, x)
        return acc
    if nm == 'try_fold':
        raise NotEncodable('try_fold')
    if nm == 'for_each':
        for x in it:
            args[0](x)
        return ()
    if nm in ('max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key'):
        xs = list(it)
        if not xs:
            return NONE
        best = xs[0]
        for x in xs[1:]:
            if nm.endswith('_by'):
                o = ordv(args[0](x, best))
            elif nm.endswith('_key'):
                o = ordering(args[0](x), args[0](best))
            else:
                o = ordering(x, best)
            if (nm.startswith('max') and o >= 0) or (nm.startswith('min') and o < 0):
                best = x
        return Some(best)
    if nm == 'unzip':
        xs = list(it)
        return (Seq([x[0] for x in xs]), Seq([x[1] for x in xs]))
    if nm == 'scan':
        raise NotEncodable('scan')
    if nm == 'into_py_dict':
        return Ok({rd(k): rd(x) for k, x in v})
    raise NotEncodable('iterator method ' + nm)


def py_method(cp_, v, nm, targs, args, hint):
    """methods of Python objects (pyo3): results wrapped in Ok"""
    def guard(fn):
        try:
            return Ok(fn())
        except (AttributeError, KeyError, IndexError, TypeError, ValueError) as e:
            return Err(e)
    args = [rd(a) for a in args]
    if nm == 'getattr':
        return guard(lambda: getattr(v, args[0]))
    if nm == 'get_item':
        return guard(lambda: v[args[0]])
    if nm == 'set_item':
        return guard(lambda: v.__setitem__(args[0], args[1]))
    if nm == 'extract' or nm == 'cast' or nm == 'cast_into' or nm == 'downcast' or nm == 'downcast_into':
        if isinstance(v, (Ok, Err)):
            raise NotEncodable('extract of a result')
        ty = targs[0] if targs else hint
        if nm == 'extract' and ty is not None and ty[0] == 'path' and (ty[1].startswith('PyReadonly') or ty[1] in ('f64', 'bool', 'Option', 'Vec')
                                                                       or ty[1] in WRAP):
            try:
                return Ok(cp_.cr.from_py(v, ty, '?'))
            except (TypeError, ValueError, OverflowError) as e:
                return Err(e)
        if ty is not None and ty[0] == 'tuple':
            return Ok(cp_.cr.from_py(v, ty, '?'))
        return Ok(v)
    if nm == 'len':
        if isinstance(v, str):
            return len(v)
        return guard(lambda: len(v))
    if nm == 'call1':
        return guard(lambda: v(*args[0]))
    if nm == 'call0':
        return guard(lambda: v())
    if nm == 'call_method1':
        return guard(lambda: getattr(v, args[0])(*args[1]))
    if nm == 'call_method':
        kw = args[2].v if isinstance(args[2], Some) else None
        return guard(lambda: getattr(v, args[0])(*args[1], **({k: x for k, x in kw.items()} if kw else {})))
    if nm == 'into_py_dict':
        return Ok({k: x for k, x in v}) if isinstance(v, Seq) else guard(lambda: dict(v))
    if nm == 'into_pyobject':
        return Ok(v)
    if nm == 'hash':
        return guard(lambda: hash(v))
    if nm in ('as_ptr', 'as_array_ptr'):
        return ObjPtr(v)
    if nm == 'is_none':
        return v is None
    if nm == 'iter' and isinstance(v, (tuple, list)):
        return It(v)
    if nm == 'try_iter':
        return guard(lambda: It([Ok(x) for x in v]))
    if isinstance(v, str):
        if nm in ('as_str', 'to_string', 'to_owned'):
            return v
    raise NotEncodable('rust method %s on %s' % (nm, type(v).__name__))
