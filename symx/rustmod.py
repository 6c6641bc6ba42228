"""Installs the interpreted Rust crate as the module `vectorbt_rust`, so that the engine dispatch of vectorbt reaches it."""
import os
import sys
import types
import numpy as np
from . import core, rust
from .core import SymFloat, SymBool

MODS = ('generic', 'indicators', 'labels', 'portfolio', 'records', 'returns', 'signals')


class SymHook:
    """arrays of the symbolic runs: floating-point values are objects"""

    def __init__(self, shim):
        self.np = shim

    def empty(self, n, dtype):
        return self.np.empty(n, dtype)

    def array(self, items, shape, kind):
        items = list(items)
        sym = any(isinstance(x, (SymFloat, SymBool)) for x in items)
        if kind == 'f' or sym:
            a = self.np.empty(len(items), np.float64)
            for i, x in enumerate(items):
                a[i] = float(x) if kind == 'f' and not isinstance(x, (SymFloat, SymBool)) and x is not core.UNINIT else x
            return a.reshape(shape)
        return np.array(items, dtype={'b': np.bool_, 'i': np.int64}[kind]).reshape(shape)


class ConcHook:
    np = np

    def empty(self, n, dtype):
        return np.empty(n, dtype)

    def array(self, items, shape, kind):
        return np.array([0 if x is core.UNINIT else x for x in items], dtype={'f': np.float64, 'b': np.bool_, 'i': np.int64}[kind]).reshape(shape)


def install(sym, shim=None):
    root = os.environ.get('SYMX_REPO', '/repo')
    crate = rust.Crate(root, SymHook(shim) if sym else ConcHook())
    from vectorbt._version import __version__
    top = types.ModuleType('vectorbt_rust')
    top.__version__ = __version__
    top.__path__ = []
    sys.modules['vectorbt_rust'] = top
    for m in MODS:
        mod = types.ModuleType('vectorbt_rust.' + m)
        for name, x in crate.exports(m).items():
            setattr(mod, name, x)
        setattr(top, m, mod)
        sys.modules['vectorbt_rust.' + m] = mod
    import vectorbt._engine as e
    e.clear_engine_cache()
    if sym:
        patch(e)
    return crate


def eff(a):
    """dtype of the array the symbolic one stands for"""
    if a.dtype != object:
        return a.dtype
    xs = list(a.reshape(-1))
    if xs and all(isinstance(x, (bool, np.bool_, SymBool)) for x in xs):
        return np.dtype(bool)
    return np.dtype(np.float64)


def dummy(a):
    if isinstance(a, (SymFloat, SymBool)):
        return np.zeros((), dtype=bool if isinstance(a, SymBool) else float)
    if isinstance(a, np.ndarray) and a.dtype == object:
        return np.zeros(a.shape, dtype=eff(a))
    if isinstance(a, np.ndarray) and a.dtype.names:
        return a
    return np.asarray(a).view(np.ndarray) if isinstance(a, np.ndarray) else a


def patch(e):
    """the engine's dtype checks see the dtype a symbolic array stands for"""
    old = {}

    def arr_ok(a, dtype=np.float64):
        return old['array_compatible_with_rust'](dummy(a) if isinstance(a, np.ndarray) else a, dtype=dtype)

    def flex_ok(name, a, shape, dtype=np.float64, flex_2d=True):
        return old['flex_array_compatible_with_rust'](name, dummy(a), shape, dtype=dtype, flex_2d=flex_2d)

    def prep(a, dtype=np.float64):
        if isinstance(a, np.ndarray) and a.dtype == object:
            s = arr_ok(a, dtype)
            if not s.supported:
                raise ValueError(s.reason)
            return a
        return old['prepare_array_for_rust'](a, dtype=dtype)

    def prep_flex(a, shape, dtype=np.float64, flex_2d=True, name='array'):
        if isinstance(a, (SymFloat, SymBool)) or isinstance(a, np.ndarray) and a.dtype == object:
            s = flex_ok(name, a, shape, dtype, flex_2d)
            if not s.supported:
                raise ValueError(s.reason)
            if isinstance(a, np.ndarray):
                return a
            r = np.empty((), dtype=object)
            r[()] = a
            return r
        return old['prepare_flex_array_for_rust'](a, shape, dtype=dtype, flex_2d=flex_2d, name=name)

    def scal(name, value):
        if isinstance(value, SymFloat):
            value = 1.0
        return old['scalar_compatible_with_rust'](name, value)
    new = dict(array_compatible_with_rust=arr_ok, flex_array_compatible_with_rust=flex_ok, prepare_array_for_rust=prep,
               prepare_flex_array_for_rust=prep_flex, scalar_compatible_with_rust=scal)
    import vectorbt.portfolio.dispatch as pd_

    class Dt:
        def __init__(self, dt):
            self.dt = dt

        def __eq__(self, o):
            return o == self.dt or (o.names == self.dt.names and all(
                o[n] == (object if self.dt[n].kind == 'f' else self.dt[n]) for n in o.names))

        def __ne__(self, o):
            return not self == o
    for k in ('order_dt', 'trade_dt'):
        setattr(pd_, k, Dt(getattr(pd_, k)))
    for k in new:
        old[k] = getattr(e, k)
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').startswith('vectorbt.') or m is e:
            for k, f in new.items():
                if m.__dict__.get(k) is old[k]:
                    setattr(m, k, f)
