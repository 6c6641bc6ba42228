"""Import the real vectorbt from /repo with Numba's JIT off and swap the `np` each of its
modules sees for a shim that allocates symbolic-capable arrays."""
import os
import sys

os.environ['NUMBA_DISABLE_JIT'] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('TZ', 'UTC')
sys.dont_write_bytecode = True
REPO = os.environ.get('SYMX_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import types  # noqa: E402
import warnings  # noqa: E402
warnings.filterwarnings('ignore')
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

from . import core, arr  # noqa: E402
from .core import UNINIT, SymFloat, SymBool, NotEncodable, tof  # noqa: E402
from .arr import SArr, has_sym, plain, wrap_obj  # noqa: E402

POISON_INT = -987654321


def is_float_dt(dt):
    if dt is None:
        return True
    try:
        d = np.dtype(dt)
    except TypeError:
        return False
    return np.issubdtype(d, np.floating)


def struct_obj(dt):
    """record dtype with float fields turned into object fields"""
    d = np.dtype(dt)
    fields = []
    for n in d.names:
        f = d.fields[n][0]
        fields.append((n, object if np.issubdtype(f, np.floating) else f))
    return np.dtype(fields)


def _lift(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object and not isinstance(x, SArr) and has_sym(x):
            return x.view(SArr)
        return x
    if isinstance(x, (list, tuple)) and len(x) < 1000:
        if any(isinstance(y, np.ndarray) and y.dtype == object and not isinstance(y, SArr) for y in x):
            return type(x)(_lift(y) for y in x)
        if any(isinstance(y, (SymFloat, SymBool)) for y in x):
            a = np.empty(len(x), dtype=object)
            for i, y in enumerate(x):
                a[i] = y
            return a.view(SArr)
    return x


class NpShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.__dict__['_c'] = {}
        self.__dict__['random'] = RandomShim()

    def __getattr__(self, name):
        c = self.__dict__['_c']
        if name in c:
            return c[name]
        v = getattr(np, name)
        if callable(v) and not isinstance(v, type) and name not in ('errstate', 'dtype', 'vectorize'):
            def f(*a, __v=v, **k):
                return __v(*[_lift(x) for x in a], **({kk: _lift(x) for kk, x in k.items()} if k else k))
            f.__name__ = name
            if isinstance(v, np.ufunc):
                f = UfuncShim(v, f)
            c[name] = f
            return f
        c[name] = v
        return v

    # -- allocation ------------------------------------------------------
    def empty(self, shape, dtype=None, order='C', **k):
        if dtype is not None and getattr(np.dtype(dtype), 'names', None):
            dt = struct_obj(dtype)
            a = np.empty(shape, dtype=dt)
            for n in dt.names:
                if dt[n] == object:
                    a[n] = UNINIT
                elif np.issubdtype(dt[n], np.integer):
                    a[n] = POISON_INT if np.dtype(dt[n]).itemsize > 4 else -1
            return a
        if is_float_dt(dtype):
            a = np.empty(shape, dtype=object)
            a.fill(UNINIT)
            return a.view(SArr)
        a = np.empty(shape, dtype=dtype)
        if np.issubdtype(a.dtype, np.integer):
            a.fill(POISON_INT)
        elif a.dtype == object:
            return a.view(SArr)
        return a

    def full(self, shape, fill_value, dtype=None, **k):
        if isinstance(fill_value, (SymFloat, SymBool)) or (is_float_dt(dtype) and (dtype is not None or isinstance(fill_value, (float, np.floating)))):
            a = np.empty(shape, dtype=object)
            a.fill(fill_value if not isinstance(fill_value, (int, np.integer, np.floating)) else float(fill_value))
            return a.view(SArr)
        if isinstance(fill_value, np.ndarray) and fill_value.dtype == object:
            a = np.empty(shape, dtype=object)
            a[...] = fill_value
            return a.view(SArr)
        a = np.full(shape, fill_value, dtype=dtype)
        return a.view(SArr) if a.dtype == object else a

    def zeros(self, shape, dtype=None, **k):
        if is_float_dt(dtype):
            return self.full(shape, 0.0, dtype=np.float64)
        return np.zeros(shape, dtype=struct_obj(dtype) if np.dtype(dtype).names else dtype)

    def ones(self, shape, dtype=None, **k):
        if is_float_dt(dtype):
            return self.full(shape, 1.0, dtype=np.float64)
        return np.ones(shape, dtype=dtype)

    def _like(self, a, dtype):
        if dtype is None:
            dtype = np.asarray(plain(a)).dtype if isinstance(a, np.ndarray) else np.asarray(a).dtype
            if dtype == object and is_mask(a):
                return np.bool_
        return np.float64 if np.dtype(dtype) == object else dtype

    def empty_like(self, a, dtype=None, **k):
        return self.empty(np.shape(plain(a)), dtype=self._like(a, dtype))

    def full_like(self, a, fill_value, dtype=None, **k):
        return self.full(np.shape(plain(a)), fill_value, dtype=self._like(a, dtype))

    def zeros_like(self, a, dtype=None, **k):
        return self.zeros(np.shape(plain(a)), dtype=self._like(a, dtype))

    def ones_like(self, a, dtype=None, **k):
        return self.ones(np.shape(plain(a)), dtype=self._like(a, dtype))

    def arange(self, *a, **k):
        r = np.arange(*a, **k)
        return r.view(KArr) if r.dtype.kind == 'i' else r

    # -- conversion ------------------------------------------------------
    def _conv(self, f, a, dtype, k):
        if isinstance(a, (SymFloat, SymBool)):
            r = np.empty((), dtype=object)
            r[()] = a
            return r.view(SArr)
        if isinstance(a, np.ndarray) and a.dtype == object and has_sym(a):
            if dtype is not None and np.dtype(dtype) != object:
                return arr.cast_arr(a, dtype)
            r = f(plain(a), **k)
            return r.view(SArr)
        if isinstance(a, (pd.Series, pd.DataFrame)):
            return self._conv(f, a.values, dtype, k)
        if isinstance(a, (list, tuple)):
            a2 = _lift(a)
            if isinstance(a2, SArr):
                return self._conv(f, a2, dtype, k)
            if any(isinstance(x, (list, tuple, np.ndarray)) for x in a):
                r = np.array([plain(x) if isinstance(x, np.ndarray) else x for x in a], dtype=object) \
                    if _deep_sym(a) else None
                if r is not None:
                    return self._conv(f, r, dtype, k)
        r = f(plain(a) if isinstance(a, SArr) else a, dtype=dtype, **k) if dtype is not None else f(plain(a) if isinstance(a, SArr) else a, **k)
        if isinstance(a, SArr) and r.dtype == object:
            return r.view(SArr)
        if isinstance(a, SArr) and dtype is not None and np.issubdtype(r.dtype, np.floating):
            return r.astype(object).view(SArr)
        return r

    def asarray(self, a, dtype=None, **k):
        if isinstance(a, SArr) and (dtype is None or is_float_dt(dtype) or np.dtype(dtype) == object):
            return a
        return self._conv(np.asarray, a, dtype, k)

    def array(self, a, dtype=None, **k):
        return self._conv(np.array, a, dtype, k)

    def ascontiguousarray(self, a, dtype=None):
        return self._conv(np.ascontiguousarray, a, dtype, {})

    def require(self, a, dtype=None, requirements=None):
        if isinstance(a, SArr):
            r = np.require(plain(a), requirements=requirements)
            return r.view(SArr)
        r = np.require(a, dtype=dtype, requirements=requirements)
        if np.issubdtype(r.dtype, np.floating) and requirements and 'W' in requirements:
            return r.astype(object).view(SArr)  # an output array: symbolic values may be written into it
        return r

    # -- dtype logic: object stands for float64 ---------------------------
    def promote_types(self, a, b):
        a = np.float64 if np.dtype(a) == object else a
        b = np.float64 if np.dtype(b) == object else b
        return np.promote_types(a, b)

    def issubdtype(self, a, b):
        try:
            if np.dtype(a) == object:
                a = np.float64
        except TypeError:
            pass
        return np.issubdtype(a, b)

    def result_type(self, *a):
        return np.result_type(*[np.float64 if (isinstance(x, np.ndarray) and x.dtype == object) or isinstance(x, SymFloat) else x for x in a])

    def broadcast_to(self, a, shape, subok=False):
        if isinstance(a, (SymFloat, SymBool)):
            a = self.asarray(a)
        r = np.broadcast_to(plain(a) if isinstance(a, np.ndarray) else a, shape, subok=subok)
        return r.view(SArr) if r.dtype == object else r

    def isscalar(self, a):
        return isinstance(a, (SymFloat, SymBool)) or np.isscalar(a)


class KArr(np.ndarray):
    """native array that accepts symbolic masks as keys (decided by forking)"""

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, arr._fix_key(k))

    def __setitem__(self, k, v):
        np.ndarray.__setitem__(self, arr._fix_key(k), v)


class NbShim(NpShim):
    """for modules of compiled kernels: NumPy scalars behave as in Numba (a zero division raises)"""

    def __getattr__(self, name):
        c = self.__dict__['_c']
        if name in c:
            return c[name]
        v = NpShim.__getattr__(self, name)
        if isinstance(v, types.FunctionType):
            def f(*a, __v=v, **k):
                r = __v(*a, **k)
                return r.item() if isinstance(r, (np.integer, np.floating)) else r
            f.__name__ = name
            c[name] = v = f
        return v


def _deep_sym(a):
    for x in a:
        if isinstance(x, (SymFloat, SymBool)):
            return True
        if isinstance(x, (list, tuple)) and _deep_sym(x):
            return True
        if isinstance(x, np.ndarray) and x.dtype == object and has_sym(x):
            return True
    return False


def _lift_floats(x):
    """an object array of plain floats (all that symbolic code stored happened to be concrete)"""
    if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, SArr) and x.size and all(isinstance(v, (float, np.floating)) for v in x.flat):
        return x.view(SArr)
    return x


class UfuncShim:
    """callable stand-in of a ufunc that lifts plain object arrays"""

    def __init__(self, u, f):
        self._u = u
        self._f = f
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        return self._f(*[_lift_floats(x) for x in a], **k)

    def __getattr__(self, n):
        return getattr(self.__dict__['_u'], n)


class RandomShim(types.ModuleType):
    """np.random with an adversarial generator: see harness.py (hooks installed per check)"""

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy.random')
        self.__dict__['hooks'] = {}

    def __getattr__(self, name):
        h = self.__dict__['hooks'].get(name)
        if h is not None:
            return h
        return getattr(np.random, name)


_loaded = []


NATIVE_FRAMES = False    # frames of concrete floats get dtype float64 (a check's sym_setup may turn it on)


def is_mask(a):
    """object array holding Booleans only"""
    a = np.asarray(plain(a) if isinstance(a, np.ndarray) else a)
    return a.dtype == object and a.size > 0 and all(isinstance(x, (SymBool, bool, np.bool_)) for x in a.flat)


class _FloatMeta(type(float)):
    def __instancecheck__(cls, x):
        return isinstance(x, float)


class symfloat(float, metaclass=_FloatMeta):
    """float() that lets symbolic numbers through"""
    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype == object:
            x = x[()]
        if isinstance(x, (SymFloat, SymBool)):
            return tof(x) if isinstance(x, SymBool) else x
        return float(x)


def load():
    """import vectorbt and install the shims; returns the package"""
    if _loaded:
        return _loaded[0]
    import vectorbt as vbt
    import importlib
    import pkgutil
    for m in pkgutil.walk_packages(vbt.__path__, 'vectorbt.'):
        if any(x in m.name for x in ('messaging', 'rust')):
            continue
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    shim = NpShim()
    nbshim = NbShim()
    nbshim.__dict__['random'] = shim.random
    # engine eligibility tests only decide between two back ends; without the Rust wheel the answer is unused
    eng = sys.modules.get('vectorbt._engine')
    if eng is not None:
        def guard(f):
            def g(*a, **k):
                try:
                    return f(*a, **k)
                except NotEncodable:
                    return eng.RustSupport(True)
            g.__name__ = f.__name__
            return g
        subst = {}
        for n, f in list(vars(eng).items()):
            if n.endswith('_with_rust') and callable(f):
                subst[f] = guard(f)
        for name, mod in list(sys.modules.items()):
            if name.startswith('vectorbt'):
                for n, f in list(vars(mod).items()):
                    if isinstance(f, types.FunctionType) and f in subst:
                        setattr(mod, n, subst[f])
    for name, mod in list(sys.modules.items()):
        if name == 'vectorbt' or name.startswith('vectorbt.'):
            if getattr(mod, 'np', None) is np:
                mod.np = nbshim if name.split('.')[-1] in ('nb', 'math_') else shim
            if name.split('.')[-1] == 'nb':
                mod.float = symfloat
    checks = sys.modules['vectorbt.utils.checks']
    oassert = checks.assert_dtype

    def assert_dtype(arg, dtype):
        v = getattr(arg, 'values', arg)
        if np.dtype(dtype) == np.bool_ and isinstance(v, np.ndarray) and v.dtype == object and is_mask(v):
            return
        oassert(arg, dtype)
    checks.assert_dtype = assert_dtype
    cls_values = {}
    for cls in (pd.DataFrame, pd.Series):
        orig = cls.values
        cls_values[cls] = orig

        def values(self, __o=orig):
            v = __o.fget(self)
            if isinstance(v, np.ndarray) and v.dtype == object and not isinstance(v, SArr) and has_sym(v):
                return v.view(SArr)
            return v
        cls.values = property(values)
        oinit = cls.__init__

        def init(self, data=None, *a, __o=oinit, **k):
            if isinstance(data, SArr):
                data = plain(data)
                if NATIVE_FRAMES and data.dtype == object and data.size and all(type(x) in (float, np.float64) for x in data.flat):
                    data = data.astype(np.float64)
            if isinstance(data, np.ndarray) and data.dtype == object and k.get('dtype') is not None:
                k['dtype'] = object
            if data is None and k.get('dtype') is not None and 'index' in k and is_float_dt(k['dtype']):
                k['dtype'] = object
            __o(self, data, *a, **k)
        cls.__init__ = init
        onull = cls.isnull

        def isnull(self, __o=onull):
            r = __o(self)
            v = np.asarray(cls_values[type(self)].fget(self)) if type(self) in cls_values else None
            if v is not None and v.dtype == object and has_sym(v):
                m = np.array(r)
                for i, x in np.ndenumerate(v):
                    if isinstance(x, SymFloat):
                        m[i] = bool(core.mkbool(tof(x).fl()[0]))
                return pd.DataFrame(m, index=self.index, columns=self.columns) if m.ndim == 2 else pd.Series(m, index=self.index, name=self.name)
            return r
        cls.isnull = isnull
        oast = cls.astype

        def astype(self, dtype, *a, __o=oast, **k):
            if dtype in (float, np.float64, 'float64', 'float'):
                v = np.asarray(cls_values[type(self)].fget(self)) if type(self) in cls_values else None
                if v is not None and v.dtype == object and has_sym(v):
                    return self.copy()
            return __o(self, dtype, *a, **k)
        cls.astype = astype
        oto = cls.to_numpy

        def to_numpy(self, *a, __o=oto, **k):
            v = __o(self, *a, **k)
            if isinstance(v, np.ndarray) and v.dtype == object and not isinstance(v, SArr) and has_sym(v):
                return v.view(SArr)
            return v
        cls.to_numpy = to_numpy
    _loaded.append(vbt)
    vbt._symx_np = shim
    return vbt


def idealize_close(vbt):
    """Replace the tolerance helpers by exact comparisons of finite numbers (tolerance idealised to 0).
    The helpers themselves are decided separately (property C02's math harnesses)."""
    from .harness import isnan, isinf

    def close(a, b, rel_tol=1e-9, abs_tol=1e-12):
        if isinf(a) or isinf(b) or isnan(a) or isnan(b):
            return False
        return a == b

    def close_or_less(a, b, rel_tol=1e-9, abs_tol=1e-12):
        if isnan(a) or isnan(b) or isinf(a) or isinf(b):
            return a < b
        return a <= b

    def less(a, b, rel_tol=1e-9, abs_tol=1e-12):
        if isinf(a) or isinf(b) or isnan(a) or isnan(b):
            return a < b
        return a < b

    def add(a, b, rel_tol=1e-9, abs_tol=1e-12):
        return a + b
    subst = dict(is_close_nb=close, is_close_or_less_nb=close_or_less, is_less_nb=less, add_nb=add)
    import vectorbt.utils.math_ as mm
    orig = {k: getattr(mm, k) for k in subst if hasattr(mm, k)}
    for name, mod in list(sys.modules.items()):
        if name.startswith('vectorbt'):
            for k, o in orig.items():
                if getattr(mod, k, None) is o:
                    setattr(mod, k, subst[k])
    return subst
