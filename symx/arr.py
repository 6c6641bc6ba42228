"""Arrays of symbolic scalars: an object-dtype ndarray subclass with numpy semantics."""
import math
import numpy as np
from . import core
from .core import (SymFloat, SymBool, UNINIT, NotEncodable, tof, to_float, mk, mkbool, b_or, b_and, b_not, ite,
                   f_add, f_mul, f_neg, f_div, lower, f_abs, f_sign, f_sqrt, f_floor, f_log, f_exp, f_pow, f_lt, f_le,
                   f_eq, is_sym, _tob, mkbool_force)

SYM = (SymFloat, SymBool)


def has_sym(a):
    """does an object array hold any symbolic element?"""
    if a.dtype != object:
        if a.dtype.names:
            return any(has_sym(a[n]) for n in a.dtype.names if a.dtype[n] == object)
        return False
    for x in a.flat:
        if isinstance(x, SYM):
            return True
    return False


def plain(x):
    return x.view(np.ndarray) if isinstance(x, SArr) else x


def wrap_obj(a):
    """object ndarray -> SArr if it holds symbolic values, else a native array"""
    if not isinstance(a, np.ndarray):
        return a
    if a.dtype != object:
        return plain(a)
    if has_sym(a):
        return a.view(SArr)
    a = plain(a)
    allb = a.size > 0
    for x in a.flat:
        if not isinstance(x, (bool, np.bool_)):
            allb = False
            break
    if allb:
        return a.astype(np.bool_)
    ok = all(isinstance(x, (int, float, np.number, np.bool_)) for x in a.flat)
    if ok and a.size > 0:
        if all(isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_)) for x in a.flat):
            return a.astype(np.int64)
        # floats stay in an SArr so that later symbolic stores work
        return a.view(SArr)
    return a.view(SArr) if a.size == 0 else a


def concretize_mask(m):
    """symbolic boolean array -> real boolean array by forking"""
    m = plain(m)
    if m.dtype == object:
        if m.size and all(isinstance(x, (int, np.integer)) and not isinstance(x, bool) for x in m.flat):
            return m.astype(np.int64)
        out = np.empty(m.shape, dtype=np.bool_)
        of, mf = out.reshape(-1), m.reshape(-1)
        for i in range(mf.size):
            x = mf[i]
            if isinstance(x, SymFloat):
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            of[i] = bool(x)
        return of.reshape(m.shape)
    return m


def _fix_key(k):
    if isinstance(k, np.ndarray) and k.dtype == object:
        return concretize_mask(k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, tuple):
        for x in k:
            if (isinstance(x, np.ndarray) and x.dtype == object) or isinstance(x, SymBool):
                return tuple(_fix_key(y) for y in k)
    return k


class SArr(np.ndarray):
    __array_priority__ = 2000

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, _fix_key(k))

    def __setitem__(self, k, v):
        if isinstance(k, np.ndarray) and k.dtype == object and k.shape == self.shape and has_sym(k) \
                and (not isinstance(v, np.ndarray) or v.ndim == 0):
            # masked store of a scalar: merge instead of forking
            p = plain(self)
            kk = plain(k)
            for ix in np.ndindex(p.shape):
                c = kk[ix]
                if isinstance(c, SymFloat):
                    raise IndexError('mask of floats')
                p[ix] = lower(ite(c, v, p[ix])) if is_sym(c) else (v if c else p[ix])
            return
        np.ndarray.__setitem__(self, _fix_key(k), plain(v) if isinstance(v, SArr) else v)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return sarr_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return sarr_function(func, args, kw)

    def astype(self, dtype, *a, **k):
        return cast_arr(self, dtype)

    def sum(self, axis=None, dtype=None, out=None, **k):
        return reduce_(_add, plain(self), axis, 0.0, keepdims=k.get('keepdims', False))

    def prod(self, axis=None, dtype=None, out=None, **k):
        return reduce_(_mul, plain(self), axis, 1.0)

    def mean(self, axis=None, dtype=None, out=None, **k):
        return f_mean(self, axis)

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return f_std(self, axis, ddof)

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return f_var(self, axis, ddof)

    def min(self, axis=None, out=None, **k):
        return reduce_(_minimum, plain(self), axis)

    def max(self, axis=None, out=None, **k):
        return reduce_(_maximum, plain(self), axis)

    def any(self, axis=None, out=None, **k):
        return reduce_(_lor, plain(self), axis, False)

    def all(self, axis=None, out=None, **k):
        return reduce_(_land, plain(self), axis, True)

    def cumsum(self, axis=None, dtype=None, out=None):
        return accumulate_(_add, plain(self), axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return accumulate_(_mul, plain(self), axis)

    def argmax(self, axis=None, out=None, **k):
        return argred(self, axis, _gt)

    def argmin(self, axis=None, out=None, **k):
        return argred(self, axis, _lt)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return f_argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, **k):
        np.ndarray.__setitem__(self, Ellipsis, plain(f_sort(self, axis)))

    def nonzero(self):
        return concretize_nonzero(self).nonzero()

    def round(self, decimals=0, out=None):
        return elementwise(lambda x: core.f_round(tof(x), decimals), self)

    def item(self, *a):
        return plain(self).item(*a)

    def dot(self, o):
        return f_dot(self, o)

    def __bool__(self):
        if self.size == 1:
            return bool(plain(self).reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def __reduce__(self):
        raise NotEncodable('pickling of symbolic arrays')


def concretize_nonzero(a):
    a = plain(a)
    out = np.empty(a.shape, dtype=np.bool_)
    for ix in np.ndindex(a.shape):
        out[ix] = bool(a[ix])
    return out


def cast_scalar(x, dtype):
    dt = np.dtype(dtype)
    if dt == object or np.issubdtype(dt, np.floating):
        return to_float(x)
    if dt == np.bool_:
        if isinstance(x, SymBool):
            return x
        return x != 0
    if np.issubdtype(dt, np.integer):
        return int(x)
    raise NotEncodable('astype(%s)' % dt)


def cast_arr(a, dtype):
    dt = np.dtype(dtype)
    p = plain(a)
    if dt == object:
        return p.copy().view(SArr)
    if not has_sym(p):
        r = p.astype(dt)
        return r.astype(object).view(SArr) if np.issubdtype(dt, np.floating) else r
    if np.issubdtype(dt, np.floating):
        return elementwise(lambda x: x if x is UNINIT else lower(to_float(x)), p)
    if dt == np.bool_:
        return elementwise(lambda x: x if isinstance(x, (SymBool, bool, np.bool_)) else x != 0, p)
    if np.issubdtype(dt, np.integer):
        out = np.empty(p.shape, dtype=dt)
        for ix in np.ndindex(p.shape):
            out[ix] = int(p[ix])
        return out
    raise NotEncodable('astype(%s)' % dt)


# -- elementwise functions on Python/symbolic scalars (numpy semantics) -------
def _num2(f, npf):
    def g(a, b):
        if is_sym(a) or is_sym(b):
            x, y = tof(a), tof(b)
            if x is None or y is None:
                raise NotEncodable('%s(%r, %r)' % (npf, type(a), type(b)))
            return lower(f(x, y))
        if a is UNINIT or b is UNINIT:
            tof(UNINIT)
        with np.errstate(all='ignore'):
            return _down(npf(np.float64(a) if type(a) is float else a, np.float64(b) if type(b) is float else b))
    return g


def _down(x):
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    return x


def _num1(f, npf):
    def g(a):
        if is_sym(a):
            r = f(tof(a))
            return lower(r) if isinstance(r, SymFloat) else r
        with np.errstate(all='ignore'):
            return _down(npf(np.float64(a) if type(a) is float else a))
    return g


_add = _num2(f_add, np.add)
_sub = _num2(lambda a, b: f_add(a, f_neg(b)), np.subtract)
_mul = _num2(f_mul, np.multiply)
_div = _num2(lambda a, b: f_div(a, b, array_sem=True), np.true_divide)
_floordiv = _num2(lambda a, b: f_floor(f_div(a, b, array_sem=True)), np.floor_divide)
_mod = _num2(lambda a, b: f_add(a, f_neg(f_mul(b, f_floor(f_div(a, b, array_sem=True))))), np.mod)


def _pow(a, b):
    if is_sym(a) or is_sym(b):
        return f_pow(a, b)
    with np.errstate(all='ignore'):
        return _down(np.power(np.float64(a), b))


def _cmp(f, npf):
    def g(a, b):
        if is_sym(a) or is_sym(b):
            x, y = tof(a), tof(b)
            if x is None or y is None:
                return npf is np.not_equal
            return mkbool(f(x, y))
        return _down(npf(a, b))
    return g


_lt = _cmp(f_lt, np.less)
_gt = _cmp(lambda a, b: f_lt(b, a), np.greater)
_le = _cmp(f_le, np.less_equal)
_ge = _cmp(lambda a, b: f_le(b, a), np.greater_equal)


def _eq(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return a == b
    return _cmp(f_eq, np.equal)(a, b)


def _ne(a, b):
    r = _eq(a, b)
    return (not r) if isinstance(r, (bool, np.bool_)) else ~r


def _truth(a):
    if isinstance(a, (bool, SymBool)):
        return a
    if isinstance(a, SymFloat):
        return a != 0
    return bool(a)


def _lnot(a):
    a = _truth(a)
    return (not a) if isinstance(a, bool) else ~a


def _land(a, b):
    a, b = _truth(a), _truth(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    return a & b


def _lor(a, b):
    a, b = _truth(a), _truth(b)
    if a is True or b is True:
        return True
    if a is False:
        return b
    return a | b


def _lxor(a, b):
    a, b = _truth(a), _truth(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    return (a ^ b) if isinstance(a, SymBool) else (b ^ a)


def _bit(f, npf):
    def g(a, b):
        if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
            return f(a, b)
        return _down(npf(a, b))
    return g


def _inv(a):
    if isinstance(a, (bool, np.bool_, SymBool)):
        return _lnot(_truth(a))
    return ~a


def _mx(a, b):
    """np.maximum: propagates NaN"""
    if not (is_sym(a) or is_sym(b)):
        return _down(np.maximum(a, b))
    x, y = tof(a), tof(b)
    r = ite(mkbool(f_lt(x, y)), y, x)
    n = b_or(x.fl()[0], y.fl()[0])
    if n is False:
        return lower(r) if isinstance(r, SymFloat) else r
    return lower(ite(mkbool(n), math.nan, r))


def _mn(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _down(np.minimum(a, b))
    x, y = tof(a), tof(b)
    r = ite(mkbool(f_lt(y, x)), y, x)
    n = b_or(x.fl()[0], y.fl()[0])
    if n is False:
        return lower(r) if isinstance(r, SymFloat) else r
    return lower(ite(mkbool(n), math.nan, r))


def _fmx(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _down(np.fmax(a, b))
    x, y = tof(a), tof(b)
    take_b = b_and(b_not(y.fl()[0]), b_or(x.fl()[0], f_lt(x, y)))
    return lower(ite(mkbool(take_b), y, x))


def _fmn(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _down(np.fmin(a, b))
    x, y = tof(a), tof(b)
    take_b = b_and(b_not(y.fl()[0]), b_or(x.fl()[0], f_lt(y, x)))
    return lower(ite(mkbool(take_b), y, x))


_maximum, _minimum = _mx, _mn


def _isnan(a):
    if isinstance(a, SymFloat):
        return mkbool(tof(a).fl()[0])
    if isinstance(a, SymBool):
        return False
    return bool(a != a)


def _isinf(a):
    if isinstance(a, SymFloat):
        return mkbool(core.f_isinf(tof(a)))
    if isinstance(a, SymBool):
        return False
    return a in (math.inf, -math.inf)


def _isfinite(a):
    return _lnot(_lor(_isnan(a), _isinf(a)))


UF = {
    'add': _add, 'subtract': _sub, 'multiply': _mul, 'divide': _div, 'true_divide': _div,
    'floor_divide': _floordiv, 'remainder': _mod, 'mod': _mod, 'power': _pow, 'float_power': _pow,
    'negative': _num1(f_neg, np.negative), 'positive': lambda a: a, 'conjugate': lambda a: a,
    'absolute': _num1(f_abs, np.absolute), 'fabs': _num1(f_abs, np.absolute),
    'sign': _num1(f_sign, np.sign), 'sqrt': _num1(f_sqrt, np.sqrt),
    'square': lambda a: _mul(a, a), 'floor': _num1(f_floor, np.floor),
    'ceil': _num1(lambda x: f_neg(f_floor(f_neg(x))), np.ceil), 'rint': _num1(lambda x: core.f_round(x), np.rint),
    'log': _num1(f_log, np.log), 'exp': _num1(f_exp, np.exp),
    'log1p': lambda a: _num1(f_log, np.log)(_add(1.0, a)),
    'expm1': lambda a: _sub(_num1(f_exp, np.exp)(a), 1.0),
    'isnan': _isnan, 'isinf': _isinf, 'isfinite': _isfinite,
    'less': _lt, 'greater': _gt, 'less_equal': _le, 'greater_equal': _ge, 'equal': _eq, 'not_equal': _ne,
    'logical_and': _land, 'logical_or': _lor, 'logical_not': _lnot, 'logical_xor': _lxor,
    'bitwise_and': _bit(_land, np.bitwise_and), 'bitwise_or': _bit(_lor, np.bitwise_or),
    'bitwise_xor': _bit(_lxor, np.bitwise_xor), 'invert': _inv,
    'maximum': _mx, 'minimum': _mn, 'fmax': _fmx, 'fmin': _fmn,
}
_PF = {}


def _pyf(name):
    f = _PF.get(name)
    if f is None:
        g = UF.get(name)
        if g is None:
            raise NotEncodable('ufunc %s' % name)
        import inspect
        n = len(inspect.signature(g).parameters)
        f = _PF[name] = np.frompyfunc(g, n, 1)
    return f


def _obj(x):
    if isinstance(x, SArr):
        return plain(x)
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != object else x
    if isinstance(x, (list, tuple)):
        return np.array(x, dtype=object)
    return x


def elementwise(g, *arrs):
    f = np.frompyfunc(g, len(arrs), 1)
    return wrap_obj(f(*[_scal(_obj(a)) for a in arrs]))


class _Box:
    __slots__ = ('v',)


def _scal(x):
    """0-d object holder, so that frompyfunc does not dispatch on __array_ufunc__ of scalars"""
    if isinstance(x, SYM):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return x


def _unbox(r, inputs):
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r[()]
    return r


def sarr_ufunc(ufunc, method, inputs, kw):
    out = kw.pop('out', None)
    name = ufunc.__name__
    import pandas as pd
    for x in inputs:
        if isinstance(x, (pd.Series, pd.DataFrame, pd.Index)):
            return NotImplemented
    if method == '__call__':
        f = _PF.get(name) or (_pyf(name) if name in UF else None)
        if f is None:
            if isinstance(ufunc, np.ufunc) and ufunc.signature is None and name not in UF:
                # np.frompyfunc objects and other unknown ufuncs
                r = ufunc(*[_obj(x) for x in inputs])
                return wrap_obj(r)
            raise NotEncodable('ufunc %s' % name)
        where = kw.pop('where', True)
        ins = [_scal(_obj(x)) for x in inputs]
        r = f(*ins)
        if where is not True:
            w = plain(where)
            if out is None:
                raise NotEncodable('where= without out=')
            o = plain(out[0] if isinstance(out, tuple) else out)
            wb, rb = np.broadcast_arrays(w, r)
            for ix in np.ndindex(o.shape):
                o[ix] = ite(wb[ix], rb[ix], o[ix]) if is_sym(wb[ix]) else (rb[ix] if wb[ix] else o[ix])
            return out[0] if isinstance(out, tuple) else out
        r = wrap_obj(r) if isinstance(r, np.ndarray) and r.ndim > 0 else _unbox(r, inputs)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = r
            return o
        return r
    if method == 'reduce':
        axis = kw.get('axis', 0)
        if len(inputs) > 1 and inputs[1] is not None:
            axis = inputs[1]
        init = {'add': 0.0, 'multiply': 1.0, 'logical_and': True, 'logical_or': False}.get(name)
        return reduce_(UF[name], _obj(inputs[0]), axis, init, keepdims=kw.get('keepdims', False))
    if method == 'accumulate':
        axis = kw.get('axis', 0)
        return accumulate_(UF[name], _obj(inputs[0]), axis)
    if method == 'outer':
        a, b = _obj(inputs[0]), _obj(inputs[1])
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        return sarr_ufunc(ufunc, '__call__', (a.reshape(a.shape + (1,) * b.ndim), b), {})
    raise NotEncodable('ufunc method %s.%s' % (name, method))


def reduce_(f, a, axis=None, init=None, keepdims=False):
    a = plain(a)
    if a.dtype != object:
        a = a.astype(object)
    if axis is None:
        flat = a.reshape(-1)
        if flat.size == 0:
            if init is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            return init
        acc = flat[0]
        if init in (True, False) and isinstance(init, bool):
            acc = _truth(acc)
        for i in range(1, flat.size):
            acc = f(acc, flat[i])
        if keepdims:
            r = np.empty((1,) * a.ndim, dtype=object)
            r.reshape(-1)[0] = acc
            return wrap_obj(r)
        return acc
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = reduce_(f, a, ax, init)
        return a
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for ix in np.ndindex(out.shape):
        out[ix] = reduce_(f, m[ix], None, init)
    if out.ndim == 0:
        return out[()]
    if keepdims:
        out = np.expand_dims(out, axis)
    return wrap_obj(out)


def accumulate_(f, a, axis=None):
    a = plain(a)
    if a.dtype != object:
        a = a.astype(object)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape, dtype=object)
    for ix in np.ndindex(m.shape[:-1]):
        acc = None
        for i in range(m.shape[-1]):
            v = m[ix + (i,)]
            if isinstance(v, (bool, np.bool_, SymBool)) and f is _add:
                v = int(v) if not isinstance(v, SymBool) else to_float(v)
            acc = v if i == 0 else f(acc, v)
            out[ix + (i,)] = acc
    return wrap_obj(np.moveaxis(out, -1, axis))


def along(f, a, axis):
    """apply a 1-d function along an axis (None: flattened)"""
    a = plain(a)
    if a.dtype != object:
        a = a.astype(object)
    if axis is None:
        return f(list(a.reshape(-1)))
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for ix in np.ndindex(out.shape):
        out[ix] = f(list(m[ix]))
    return out[()] if out.ndim == 0 else wrap_obj(out)


def l_sum(xs):
    acc = 0.0
    for x in xs:
        acc = _add(acc, x)
    return acc


def l_dropnan(xs):
    """values that are not NaN, by forking"""
    return [x for x in xs if not bool(_isnan(x))]


def f_mean(a, axis=None):
    return along(lambda xs: _div(l_sum(xs), float(len(xs))) if xs else math.nan, a, axis)


def l_var(xs, ddof):
    n = len(xs)
    if n == 0:
        return math.nan
    m = _div(l_sum(xs), float(n))
    s = l_sum([_mul(_sub(x, m), _sub(x, m)) for x in xs])
    return _div(s, float(n - ddof)) if n - ddof > 0 else (math.nan if n - ddof <= 0 else s)


def f_var(a, axis=None, ddof=0):
    return along(lambda xs: l_var(xs, ddof), a, axis)


def _sqrt(x):
    return UF['sqrt'](x)


def f_std(a, axis=None, ddof=0):
    return along(lambda xs: _sqrt(l_var(xs, ddof)), a, axis)


def l_argsort(xs):
    """stable insertion sort by forking; NaN last"""
    idx = []
    for i, x in enumerate(xs):
        j = len(idx)
        while j > 0:
            y = xs[idx[j - 1]]
            # x goes before y if x < y, or y is NaN and x is not
            if bool(_lt(x, y)) or (bool(_isnan(y)) and not bool(_isnan(x))):
                j -= 1
            else:
                break
        idx.insert(j, i)
    return idx


def f_argsort(a, axis=-1):
    p = plain(a)
    if axis is None:
        return np.array(l_argsort(list(p.reshape(-1))), dtype=np.int64)
    m = np.moveaxis(p, axis, -1)
    out = np.empty(m.shape, dtype=np.int64)
    for ix in np.ndindex(m.shape[:-1]):
        out[ix] = l_argsort(list(m[ix]))
    return np.moveaxis(out, -1, axis)


def f_sort(a, axis=-1):
    p = plain(a)
    if p.dtype != object:
        return np.sort(p, axis=axis)
    if axis is None:
        p = p.reshape(-1)
        axis = 0
    m = np.moveaxis(p, axis, -1)
    out = np.empty(m.shape, dtype=object)
    for ix in np.ndindex(m.shape[:-1]):
        xs = list(m[ix])
        for j, i in enumerate(l_argsort(xs)):
            out[ix + (j,)] = xs[i]
    return wrap_obj(np.moveaxis(out, -1, axis))


def argred(a, axis, better):
    def f(xs):
        if not xs:
            raise ValueError('attempt to get argmax of an empty sequence')
        bi = 0
        if bool(_isnan(xs[0])):
            return 0
        for i in range(1, len(xs)):
            if bool(_isnan(xs[i])):
                return i
            if bool(better(xs[i], xs[bi])):
                bi = i
        return bi
    out = along(f, a, axis)
    return np.zeros(out.shape, dtype=np.int64) if isinstance(out, np.ndarray) and out.size == 0 else out


def nanargred(a, axis, better):
    def f(xs):
        bi = None
        for i in range(len(xs)):
            if bool(_isnan(xs[i])):
                continue
            if bi is None or bool(better(xs[i], xs[bi])):
                bi = i
        if bi is None:
            raise ValueError('All-NaN slice encountered')
        return bi
    out = along(f, a, axis)
    return np.zeros(out.shape, dtype=np.int64) if isinstance(out, np.ndarray) and out.size == 0 else out


def l_percentile(xs, q):
    """linear interpolation percentile, q in [0, 100]; NaN if any NaN"""
    for x in xs:
        if bool(_isnan(x)):
            return math.nan
    n = len(xs)
    if n == 0:
        return math.nan
    ys = [xs[i] for i in l_argsort(xs)]
    pos = q / 100.0 * (n - 1)
    lo = int(math.floor(pos))
    hi = min(lo + 1, n - 1)
    t = pos - lo
    return _add(ys[lo], _mul(t, _sub(ys[hi], ys[lo]))) if t else ys[lo]


def f_percentile(a, q, axis=None, **k):
    qa = np.asarray(q, dtype=float)
    if qa.ndim == 0:
        return along(lambda xs: l_percentile(xs, float(qa)), a, axis)
    return wrap_obj(np.stack([np.asarray(plain(along(lambda xs: l_percentile(xs, float(qq)), a, axis)), dtype=object)
                              for qq in qa.reshape(-1)]))


def f_dot(a, b):
    a, b = _obj(a), _obj(b)
    if a.ndim == 1 and b.ndim == 1:
        return l_sum([_mul(x, y) for x, y in zip(a, b)])
    raise NotEncodable('dot')


def f_where(c, *xy):
    if not xy:
        return concretize_nonzero(c).nonzero()
    x, y = xy
    return elementwise(lambda cc, xx, yy: (lower(ite(cc, xx, yy)) if is_sym(cc) else (xx if cc else yy)), c, x, y)


def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def g(v):
        if isinstance(v, SymFloat):
            n, p, m = tof(v).fl()
            if p is not False or m is not False:
                raise NotEncodable('nan_to_num with infinities')
            return lower(ite(mkbool(n), nan, v))
        return float(np.nan_to_num(v, nan=nan))
    r = elementwise(g, x)
    if not copy and isinstance(x, np.ndarray):
        x[...] = r
        return x
    return r


def f_unique(a, *args, **kw):
    a = plain(a)
    if has_sym(a):
        if kw or args:
            raise NotEncodable('unique with options')
        s = f_sort(a, None)
        out = []
        for x in plain(s):
            if not out or bool(_ne(x, out[-1])):
                out.append(x)
        r = np.empty(len(out), dtype=object)
        for i, x in enumerate(out):
            r[i] = x
        return wrap_obj(r)
    return np.unique(wrap_native(a), *args, **kw)


def wrap_native(a):
    a = plain(a)
    if a.dtype == object and a.size and all(isinstance(x, (int, float, np.number)) for x in a.flat):
        return a.astype(np.float64)
    return a


def _nan_l(f):
    return lambda a, axis=None, **k: along(lambda xs: f(l_dropnan(xs)), a, axis)


def _redl(op, empty):
    def f(xs):
        if not xs:
            return empty
        acc = xs[0]
        for x in xs[1:]:
            acc = op(acc, x)
        return acc
    return f


FN = {
    'sum': lambda a, axis=None, dtype=None, out=None, **k: reduce_(_add, plain(a), axis, 0.0),
    'prod': lambda a, axis=None, **k: reduce_(_mul, plain(a), axis, 1.0),
    'any': lambda a, axis=None, out=None, **k: reduce_(_lor, plain(a), axis, False),
    'all': lambda a, axis=None, out=None, **k: reduce_(_land, plain(a), axis, True),
    'amax': lambda a, axis=None, **k: reduce_(_mx, plain(a), axis),
    'amin': lambda a, axis=None, **k: reduce_(_mn, plain(a), axis),
    'max': lambda a, axis=None, **k: reduce_(_mx, plain(a), axis),
    'min': lambda a, axis=None, **k: reduce_(_mn, plain(a), axis),
    'mean': lambda a, axis=None, **k: f_mean(a, axis),
    'std': lambda a, axis=None, ddof=0, **k: f_std(a, axis, ddof),
    'var': lambda a, axis=None, ddof=0, **k: f_var(a, axis, ddof),
    'median': lambda a, axis=None, **k: f_percentile(a, 50.0, axis),
    'nansum': _nan_l(l_sum),
    'nanprod': _nan_l(_redl(_mul, 1.0)),
    'nanmax': _nan_l(_redl(_mx, math.nan)),
    'nanmin': _nan_l(_redl(_mn, math.nan)),
    'nanmean': _nan_l(lambda xs: _div(l_sum(xs), float(len(xs))) if xs else math.nan),
    'nanmedian': _nan_l(lambda xs: l_percentile(xs, 50.0)),
    'nanvar': lambda a, axis=None, ddof=0, **k: along(lambda xs: l_var(l_dropnan(xs), ddof), a, axis),
    'nanstd': lambda a, axis=None, ddof=0, **k: along(lambda xs: _sqrt(l_var(l_dropnan(xs), ddof)), a, axis),
    'nanpercentile': lambda a, q, axis=None, **k: along(lambda xs: l_percentile(l_dropnan(xs), float(q)), a, axis),
    'percentile': f_percentile,
    'quantile': lambda a, q, axis=None, **k: f_percentile(a, np.asarray(q) * 100.0, axis),
    'cumsum': lambda a, axis=None, **k: accumulate_(_add, plain(a), axis),
    'cumprod': lambda a, axis=None, **k: accumulate_(_mul, plain(a), axis),
    'nancumsum': lambda a, axis=None, **k: accumulate_(_add, plain(f_nan_to_num(a)), axis),
    'nancumprod': lambda a, axis=None, **k: accumulate_(_mul, plain(f_nan_to_num(a, nan=1.0)), axis),
    'argmax': lambda a, axis=None, **k: argred(a, axis, _gt),
    'argmin': lambda a, axis=None, **k: argred(a, axis, _lt),
    'nanargmax': lambda a, axis=None, **k: nanargred(a, axis, _gt),
    'nanargmin': lambda a, axis=None, **k: nanargred(a, axis, _lt),
    'argsort': lambda a, axis=-1, **k: f_argsort(a, axis),
    'sort': lambda a, axis=-1, **k: f_sort(a, axis),
    'partition': lambda a, kth, axis=-1, **k: f_sort(a, axis),
    'where': f_where,
    'nonzero': lambda a: concretize_nonzero(a).nonzero(),
    'flatnonzero': lambda a: np.flatnonzero(concretize_nonzero(a)),
    'count_nonzero': lambda a, axis=None, **k: np.count_nonzero(concretize_nonzero(a), axis=axis),
    'nan_to_num': f_nan_to_num,
    'unique': f_unique,
    'dot': f_dot,
    'round': lambda a, decimals=0, **k: elementwise(lambda x: core.f_round(tof(x), decimals) if is_sym(x) else round(x, decimals), a),
    'around': lambda a, decimals=0, **k: elementwise(lambda x: core.f_round(tof(x), decimals) if is_sym(x) else round(x, decimals), a),
    'array_equal': lambda a, b, equal_nan=False, **k: bool(np.shape(a) == np.shape(b) and _truth(reduce_(_land, _obj(elementwise(_eq, a, b)), None, True))),
    'shape': lambda a: () if isinstance(a, SYM) else np.shape(plain(a)),
    'ndim': lambda a: 0 if isinstance(a, SYM) else np.ndim(plain(a)),
    'size': lambda a: 1 if isinstance(a, SYM) else plain(a).size,
    'iscomplexobj': lambda a: False,
    'isreal': lambda a: np.ones(np.shape(a), dtype=bool),
    'can_cast': lambda *a, **k: True,
    'result_type': lambda *a: np.dtype(object),
    'isclose': None,
}
STRUCTURAL = {'concatenate', 'hstack', 'vstack', 'stack', 'column_stack', 'tile', 'repeat', 'broadcast_to',
              'broadcast_arrays', 'take', 'reshape', 'transpose', 'copy', 'expand_dims', 'squeeze', 'roll', 'moveaxis',
              'atleast_1d', 'atleast_2d', 'ravel', 'delete', 'append', 'insert', 'flip', 'swapaxes', 'dstack',
              'array_split', 'split', 'empty_like', 'full_like', 'zeros_like', 'ones_like', 'take_along_axis',
              'may_share_memory', 'shares_memory', 'copyto', 'ndim', 'diag', 'rot90', 'lexsort', 'apply_along_axis'}


def _plain_deep(x):
    if isinstance(x, SArr):
        return plain(x)
    if isinstance(x, (list, tuple)) and any(isinstance(y, (SArr, list, tuple)) for y in x):
        return type(x)(_plain_deep(y) for y in x)
    return x


def sarr_function(func, args, kw):
    name = func.__name__
    f = FN.get(name)
    if f is not None:
        kw = {k: v for k, v in kw.items() if v is not None or k == 'axis'}
        kw.pop('out', None)
        return f(*args, **kw)
    if name == 'isclose':
        raise NotEncodable('np.isclose')
    if name == 'putmask' and isinstance(args[1], np.ndarray) and args[1].dtype == bool:
        return np.putmask(*[_plain_deep(a) for a in args])
    if name in STRUCTURAL:
        args = [_plain_deep(a) for a in args]
        kw = {k: _plain_deep(v) for k, v in kw.items()}
        if name == 'full_like' and isinstance(args[1] if len(args) > 1 else kw.get('fill_value'), float):
            kw['dtype'] = object
        r = func(*args, **kw)
        if isinstance(r, np.ndarray):
            return r.view(SArr) if r.dtype == object else r
        if isinstance(r, (list, tuple)):
            return type(r)(x.view(SArr) if isinstance(x, np.ndarray) and x.dtype == object else x for x in r)
        return r
    raise NotEncodable('numpy function %s' % name)
