"""Symbolic scalars and the path explorer.

The implementation under test is executed by the ordinary Python interpreter
(Numba's JIT switched off) on operands of the classes below.  Every branch whose
condition depends on a symbolic value asks the active ``Ctx`` which way to go;
the explorer re-executes the code until every feasible combination of branch
outcomes has been taken.  z3 decides feasibility of branches and, at the end of
each path, whether the negated property is satisfiable.

Floats are modelled as extended reals: a z3 Real plus NaN/+inf/-inf flags
(Python ``False`` when the value cannot be of that kind).  Rounding is not
modelled (stated as an assumption everywhere).
"""
import math
import sys
import time
from fractions import Fraction

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402
import numpy as np  # noqa: E402


class PathAbort(BaseException):
    """The current path is infeasible (an assumption is false on it)."""


class BudgetExceeded(BaseException):
    """Time or path budget of the exploration is used up."""


class NotEncodable(BaseException):
    """An operation the encoding does not cover was applied to a symbolic value."""


Z0 = z3.RealVal(0)
Z1 = z3.RealVal(1)
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

_real_cache = {}


def rv(x):
    """Python number -> z3 RealVal, exact."""
    r = _real_cache.get(x)
    if r is None:
        if isinstance(x, (bool, np.bool_)):
            r = z3.RealVal(int(x))
        elif isinstance(x, (int, np.integer)):
            r = z3.RealVal(int(x))
        else:
            # a float literal stands for the simplest rational it is the rounding of
            # (0.1 -> 1/10, 0.30000000000000004 -> 3/10), otherwise for itself
            f = float(x)
            fr = Fraction(f)
            if fr.denominator > 1 << 20:
                g = fr.limit_denominator(200000)
                if abs(g - fr) <= abs(fr) * Fraction(1, 1 << 50):
                    fr = g
            r = z3.Q(fr.numerator, fr.denominator)
        _real_cache[x] = r
    return r


def zb(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, SymBool):
        return zb(x.b)
    if isinstance(x, np.bool_):
        return TRUE if x else FALSE
    return x


def _known(b):
    """Fold a flag to a Python bool if the active path already decided it."""
    if b is True or b is False:
        return b
    c = CUR[0]
    if c is not None:
        k = c.decided.get(b.get_id())
        if k is not None:
            return k
    return b


def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        x = _known(x)
        if x is False:
            return False
        if x is True:
            continue
        if z3.is_false(x):
            return False
        if z3.is_true(x):
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        x = _known(x)
        if x is True:
            return True
        if x is False:
            continue
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_ite(c, a, b):
    c = _known(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a is True:
        return b_or(c, b)
    if a is False:
        return b_and(b_not(c), b)
    if b is True:
        return b_or(b_not(c), a)
    if b is False:
        return b_and(c, a)
    return z3.If(c, a, b)


def r_ite(c, a, b):
    c = _known(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b or a.eq(b):
        return a
    return z3.If(c, a, b)


CUR = [None]


class Ctx:
    """State of one exploration (a DFS over re-executions)."""

    def __init__(self, deadline=None, max_paths=None, feas_ms=1000):
        self.solver = z3.Solver()
        self.solver.set('timeout', feas_ms)
        self.feas_ms = feas_ms
        self.entries = []        # [cond(z3), taken(bool), alt(bool)] per decision; assumes have alt=False
        self.pos = 0
        self.decided = {}
        self.keep = []           # keeps z3 asts alive so ids in `decided` stay unique
        self.model = None
        self.counters = {}
        self.memo = {}
        self.hard = False
        self.last = None
        self.deadline = deadline
        self.max_paths = max_paths
        self.stats = dict(paths=0, aborted=0, decisions=0, forks=0, feas_queries=0,
                          feas_unknown=0, solver_s=0.0, queries=0)
        self.unknown_on_path = 0
        self.inputs = {}

    # -- path management -------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.decided = {}
        self.keep = []
        self.counters = {}
        self.memo = {}
        self.inputs = {}
        self.unknown_on_path = 0
        CUR[0] = self

    def next_path(self):
        """Backtrack to the deepest decision with an untried alternative."""
        while self.entries:
            e = self.entries[-1]
            self.solver.pop()
            if e[2]:
                e[1] = not e[1]
                e[2] = False
                self.solver.push()
                self.solver.add(e[0] if e[1] else z3.Not(e[0]))
                self.model = None
                return True
            self.entries.pop()
        return False

    def _check(self, *extra):
        """Feasibility of the current path (+extra). The incremental solver is used while queries stay
        easy; once it stalls (nonlinear arithmetic), a fresh solver per query, which lets z3 pick
        its nlsat-based strategy."""
        t = time.time()
        self.stats['queries'] += 1
        r = z3.unknown
        self.last = None
        if not self.hard:
            self.solver.set('timeout', 150)
            r = self.solver.check(*extra)
            if r != z3.unknown:
                self.last = self.solver
            if r == z3.unknown or time.time() - t > 0.1:
                self.hard = True
        if r == z3.unknown:
            s = z3.Solver()
            s.set('timeout', self.feas_ms)
            for e in self.entries:
                s.add(e[0] if e[1] else z3.Not(e[0]))
            s.add(*extra)
            self.stats['queries'] += 1
            r = s.check()
            self.last = s
        self.stats['solver_s'] += time.time() - t
        return r

    def _note(self, cond, val):
        self.keep.append(cond)
        self.decided[cond.get_id()] = val
        n = z3.Not(cond)
        self.keep.append(n)
        self.decided[n.get_id()] = not val
        # propagate through conjunctions / disjunctions
        if val and z3.is_and(cond):
            for c in cond.children():
                self._note1(c, True)
        elif not val and z3.is_or(cond):
            for c in cond.children():
                self._note1(c, False)

    def _note1(self, c, val):
        if z3.is_not(c):
            c = c.arg(0)
            val = not val
        if c.get_id() not in self.decided:
            self._note(c, val)

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.last.model()
            elif r == z3.unsat:
                raise PathAbort('infeasible')
        return self.model

    def fork(self, cond):
        """Decide a symbolic condition; returns a Python bool."""
        if cond is True or cond is False:
            return cond
        neg = False
        while z3.is_not(cond):
            cond = cond.arg(0)
            neg = not neg
        k = self.decided.get(cond.get_id())
        if k is None:
            k = self._fork(cond)
        return (not k) if neg else k

    def _fork(self, s):
        if self.pos < len(self.entries):
            e = self.entries[self.pos]
            if e[0].eq(s):
                self.pos += 1
                self._note(s, e[1])
                return e[1]
        t = z3.simplify(s)
        if z3.is_true(t):
            self._note(s, True)
            return True
        if z3.is_false(t):
            self._note(s, False)
            return False
        self.stats['decisions'] += 1
        if self.pos < len(self.entries):
            raise RuntimeError('non-deterministic re-execution: %s vs %s' % (self.entries[self.pos][0], s))
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded('time')
        # new decision
        taken, alt = None, False
        m = self.model
        if m is None:
            r = self._check()
            if r == z3.sat:
                m = self.model = self.last.model()
            elif r == z3.unsat:
                raise PathAbort('infeasible')
            else:
                self.unknown_on_path += 1
        if m is not None:
            v = m.eval(s, model_completion=True)
            if z3.is_true(v):
                taken = True
            elif z3.is_false(v):
                taken = False
        if taken is None:
            self.stats['feas_queries'] += 2
            r1 = self._check(s)
            m1 = self.last.model() if r1 == z3.sat else None
            r2 = self._check(z3.Not(s))
            m2 = self.last.model() if r2 == z3.sat else None
            if r1 == z3.unsat and r2 == z3.unsat:
                raise PathAbort('infeasible')
            if r1 == z3.unknown or r2 == z3.unknown:
                self.stats['feas_unknown'] += 1
            taken = r1 != z3.unsat
            alt = taken and r2 != z3.unsat
            self.model = m1 if taken else m2
        else:
            self.stats['feas_queries'] += 1
            other = z3.Not(s) if taken else s
            r = self._check(other)
            if r == z3.unknown:
                self.stats['feas_unknown'] += 1
            alt = r != z3.unsat
        if alt:
            self.stats['forks'] += 1
        self.entries.append([s, taken, alt])
        self.pos += 1
        self.solver.push()
        self.solver.add(s if taken else z3.Not(s))
        self._note(s, taken)
        return taken

    def assume(self, cond):
        s = zb(cond)
        if self.pos < len(self.entries):
            e = self.entries[self.pos]
            if e[0].eq(s):
                self.pos += 1
                self._note(s, True)
                return
        t = z3.simplify(s)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathAbort('assume')
        if self.pos < len(self.entries):
            raise RuntimeError('non-deterministic re-execution (assume)')
        self.entries.append([s, True, False])
        self.pos += 1
        self.solver.push()
        self.solver.add(s)
        self._note(s, True)
        if self.model is not None:
            if not z3.is_true(self.model.eval(s, model_completion=True)):
                self.model = None
                r = self._check()
                if r == z3.unsat:
                    raise PathAbort('assume')
                if r == z3.sat:
                    self.model = self.last.model()

    def define(self, cond):
        """Definitional axiom of a fresh variable (always satisfiable)."""
        self.assume(cond)

    def fresh(self, prefix, sort='real'):
        n = self.counters.get(prefix, 0)
        self.counters[prefix] = n + 1
        nm = '%s!%d' % (prefix, n)
        return z3.Real(nm) if sort == 'real' else (z3.Int(nm) if sort == 'int' else z3.Bool(nm))


def ctx():
    c = CUR[0]
    if c is None:
        raise NotEncodable('symbolic value used outside of an exploration')
    return c


def is_sym(x):
    return isinstance(x, (SymFloat, SymBool))


# ---------------------------------------------------------------------------
class SymBool:
    __slots__ = ('b',)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self
    __array_priority__ = 1000

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ctx().fork(self.b) if not isinstance(self.b, bool) else self.b

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return id(self)

    def __invert__(self):
        return mkbool(b_not(self.b))

    def __and__(self, o):
        o = _tob(o)
        return NotImplemented if o is None else mkbool(b_and(self.b, o))
    __rand__ = __and__

    def __or__(self, o):
        o = _tob(o)
        return NotImplemented if o is None else mkbool(b_or(self.b, o))
    __ror__ = __or__

    def __xor__(self, o):
        o = _tob(o)
        return NotImplemented if o is None else mkbool(b_ite(self.b, b_not(o), o))
    __rxor__ = __xor__

    def __eq__(self, o):
        o2 = _tob(o)
        if o2 is None:
            if isinstance(o, (int, float, SymFloat)):
                return to_float(self) == o
            return False
        return mkbool(b_ite(self.b, o2, b_not(o2)))

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def _f(self):
        return to_float(self)

    def __add__(self, o):
        return self._f() + (to_float(o) if isinstance(o, SymBool) else o)
    __radd__ = __add__

    def __sub__(self, o):
        return self._f() - (to_float(o) if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - self._f()

    def __mul__(self, o):
        return self._f() * (to_float(o) if isinstance(o, SymBool) else o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._f() / o

    def __rtruediv__(self, o):
        return o / self._f()

    def __gt__(self, o):
        return self._f() > o

    def __lt__(self, o):
        return self._f() < o

    def __ge__(self, o):
        return self._f() >= o

    def __le__(self, o):
        return self._f() <= o

    def __neg__(self):
        return -self._f()

    def __repr__(self):
        return 'SymBool(%s)' % (self.b,)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.sarr_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        from . import arr
        return arr.sarr_function(func, args, kw)

    def item(self):
        return self

    def astype(self, dtype):
        if np.dtype(dtype) == np.bool_:
            return self
        if np.issubdtype(dtype, np.integer):
            return int(self)
        return self._f()


def mkbool(b):
    b = _known(b)
    if b is True or b is False:
        return b
    return SymBool(b)


def _tob(o):
    if isinstance(o, SymBool):
        return o.b
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    return None


# ---------------------------------------------------------------------------
class SymFloat:
    __slots__ = ('r', 'nan', 'pinf', 'ninf')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self
    __array_priority__ = 1000
    dtype = np.dtype(object)
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, r, nan=False, pinf=False, ninf=False):
        self.r = r
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf

    def __hash__(self):
        return id(self)

    # flags folded with what the path already knows
    def fl(self):
        n = self.nan
        p = self.pinf
        m = self.ninf
        if n is not False:
            n = _known(n)
        if p is not False:
            p = _known(p)
        if m is not False:
            m = _known(m)
        return n, p, m

    @property
    def finite_(self):
        n, p, m = self.fl()
        return b_not(b_or(n, p, m))

    def __repr__(self):
        return 'SymFloat(%s%s%s%s)' % (self.r, '' if self.nan is False else ' nan?%s' % self.nan,
                                        '' if self.pinf is False else ' +inf?', '' if self.ninf is False else ' -inf?')

    # arithmetic
    def __add__(self, o):
        o = tof(o)
        return NotImplemented if o is None else f_add(self, o)

    def __radd__(self, o):
        o = tof(o)
        return NotImplemented if o is None else f_add(o, self)

    def __sub__(self, o):
        o = tof(o)
        return NotImplemented if o is None else f_add(self, f_neg(o))

    def __rsub__(self, o):
        o = tof(o)
        return NotImplemented if o is None else f_add(o, f_neg(self))

    def __mul__(self, o):
        o = tof(o)
        return NotImplemented if o is None else f_mul(self, o)

    def __rmul__(self, o):
        o = tof(o)
        return NotImplemented if o is None else f_mul(o, self)

    def __truediv__(self, o):
        o = tof(o)
        return NotImplemented if o is None else f_div(self, o)

    def __rtruediv__(self, o):
        o = tof(o)
        return NotImplemented if o is None else f_div(o, self)

    def __floordiv__(self, o):
        o = tof(o)
        return NotImplemented if o is None else f_floor(f_div(self, o))

    def __rfloordiv__(self, o):
        o = tof(o)
        return NotImplemented if o is None else f_floor(f_div(o, self))

    def __mod__(self, o):
        o = tof(o)
        return NotImplemented if o is None else f_add(self, f_neg(f_mul(o, f_floor(f_div(self, o)))))

    def __rmod__(self, o):
        o = tof(o)
        return NotImplemented if o is None else o.__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return f_pow(self, o)

    def __rpow__(self, o):
        return f_pow(o, self)

    def __neg__(self):
        return f_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return f_abs(self)

    # comparisons
    def __lt__(self, o):
        o = tof(o)
        return NotImplemented if o is None else mkbool(f_lt(self, o))

    def __gt__(self, o):
        o = tof(o)
        return NotImplemented if o is None else mkbool(f_lt(o, self))

    def __le__(self, o):
        o = tof(o)
        return NotImplemented if o is None else mkbool(f_le(self, o))

    def __ge__(self, o):
        o = tof(o)
        return NotImplemented if o is None else mkbool(f_le(o, self))

    def __eq__(self, o):
        o = tof(o)
        return False if o is None else mkbool(f_eq(self, o))

    def __ne__(self, o):
        o = tof(o)
        return True if o is None else mkbool(b_not(f_eq(self, o)))

    def __bool__(self):
        z = f_eq(self, tof(0.0))
        return not mkbool_force(z)

    def __float__(self):
        raise NotEncodable('float() of a symbolic value')

    def __complex__(self):
        raise NotEncodable('complex() of a symbolic value')

    def __int__(self):
        return f_toint(self)

    def __index__(self):
        raise TypeError('symbolic float used as an index')

    def __round__(self, nd=None):
        return f_round(self, nd)

    def __floor__(self):
        return f_floor(self)

    def __ceil__(self):
        return f_neg(f_floor(f_neg(self)))

    def is_integer(self):
        return f_floor(self) == self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dtype):
        from . import arr
        return arr.cast_scalar(self, dtype)

    def reshape(self, *a):
        from . import arr
        return arr.wrap_obj(np.array([self], dtype=object)).reshape(*a)

    def conjugate(self):
        return self

    # np.sqrt & co. on object arrays call methods of these names
    def sqrt(self):
        return f_sqrt(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.sarr_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        from . import arr
        return arr.sarr_function(func, args, kw)


def mkbool_force(b):
    if isinstance(b, bool):
        return b
    return ctx().fork(b)


_NAN = SymFloat(Z0, True)
_PINF = SymFloat(Z0, False, True)
_NINF = SymFloat(Z0, False, False, True)


class _Uninit(SymFloat):
    """Content of freshly allocated (np.empty) memory; using it is an error."""
    __slots__ = ()

    def __init__(self):
        SymFloat.__init__(self, Z0, True)

    def __repr__(self):
        return 'UNINIT'


UNINIT = _Uninit()


class UninitRead(Exception):
    """Memory from np.empty was used before anything was written to it."""


def tof(x):
    """Anything numeric -> SymFloat, else None."""
    t = type(x)
    if t is SymFloat:
        return x
    if t is _Uninit:
        raise UninitRead('use of uninitialised array element')
    if t is SymBool:
        return to_float(x)
    if t is float or t is int or t is bool:
        pass
    elif isinstance(x, (float, int, np.floating, np.integer, np.bool_)):
        pass
    else:
        return None
    if x != x:
        return _NAN
    if x in (math.inf, -math.inf):
        return _PINF if x > 0 else _NINF
    return SymFloat(rv(x))


def to_float(x):
    if isinstance(x, SymFloat):
        return tof(x)
    if isinstance(x, SymBool):
        b = _known(x.b)
        if b is True:
            return SymFloat(Z1)
        if b is False:
            return SymFloat(Z0)
        return SymFloat(z3.If(b, Z1, Z0))
    return tof(x)


def lower(x):
    """SymFloat with a literal value -> Python float (keeps concrete data concrete)."""
    if type(x) is SymFloat:
        n, p, m = x.fl()
        if n is True:
            return math.nan
        if p is True:
            return math.inf
        if m is True:
            return -math.inf
        if n is False and p is False and m is False:
            r = x.r
            if z3.is_rational_value(r):
                fr = r.as_fraction()
                f = float(fr)
                if Fraction(f) == fr:
                    return f
    return x


def mk(r, nan=False, pinf=False, ninf=False):
    return SymFloat(r, nan, pinf, ninf)


def _isc(r):
    return z3.is_rational_value(r)


def r_add(a, b):
    if _isc(a):
        if _isc(b):
            return rvf(a.as_fraction() + b.as_fraction())
        if a.eq(Z0):
            return b
    elif _isc(b) and b.eq(Z0):
        return a
    return a + b


def rvf(fr):
    return z3.Q(fr.numerator, fr.denominator)


def r_mul(a, b):
    if _isc(a):
        if _isc(b):
            return rvf(a.as_fraction() * b.as_fraction())
        if a.eq(Z0):
            return Z0
        if a.eq(Z1):
            return b
    elif _isc(b):
        if b.eq(Z0):
            return Z0
        if b.eq(Z1):
            return a
    return a * b


def r_neg(a):
    if _isc(a):
        return rvf(-a.as_fraction())
    if z3.is_app_of(a, z3.Z3_OP_UMINUS):
        return a.arg(0)
    return -a


def f_add(a, b):
    an, ap, am = a.fl()
    bn, bp, bm = b.fl()
    if an is True or bn is True:
        return _NAN
    r = r_add(a.r, b.r)
    if ap is False and am is False and bp is False and bm is False:
        return SymFloat(r, b_or(an, bn))
    nan = b_or(an, bn, b_and(ap, bm), b_and(am, bp))
    pinf = b_and(b_not(nan), b_or(ap, bp))
    ninf = b_and(b_not(nan), b_or(am, bm))
    return SymFloat(r, nan, pinf, ninf)


def f_neg(a):
    n, p, m = a.fl()
    if n is True:
        return _NAN
    return SymFloat(r_neg(a.r), n, m, p)


def r_lt(a, b):
    if _isc(a) and _isc(b):
        return a.as_fraction() < b.as_fraction()
    if a.eq(b):
        return False
    return a < b


def r_le(a, b):
    if _isc(a) and _isc(b):
        return a.as_fraction() <= b.as_fraction()
    if a.eq(b):
        return True
    return z3.Not(b < a)


def r_eq(a, b):
    if _isc(a) and _isc(b):
        return a.as_fraction() == b.as_fraction()
    if a.eq(b):
        return True
    return a == b


def _sgn_pos(x):
    """x > 0 including +inf (x not nan)"""
    n, p, m = x.fl()
    return b_or(p, b_and(b_not(m), r_lt(Z0, x.r)))


def _sgn_neg(x):
    n, p, m = x.fl()
    return b_or(m, b_and(b_not(p), r_lt(x.r, Z0)))


def f_mul(a, b):
    an, ap, am = a.fl()
    bn, bp, bm = b.fl()
    if an is True or bn is True:
        return _NAN
    r = r_mul(a.r, b.r)
    if ap is False and am is False and bp is False and bm is False:
        return SymFloat(r, b_or(an, bn))
    ainf = b_or(ap, am)
    binf = b_or(bp, bm)
    azero = b_and(b_not(ainf), r_eq(a.r, Z0))
    bzero = b_and(b_not(binf), r_eq(b.r, Z0))
    nan = b_or(an, bn, b_and(ainf, bzero), b_and(binf, azero))
    inf = b_and(b_not(nan), b_or(ainf, binf))
    pos = b_or(b_and(_sgn_pos(a), _sgn_pos(b)), b_and(_sgn_neg(a), _sgn_neg(b)))
    return SymFloat(r, nan, b_and(inf, pos), b_and(inf, b_not(pos)))


def r_div(a, b):
    """exact quotient; caller guarantees b != 0 on this path (or masks the result)"""
    if _isc(b):
        fb = b.as_fraction()
        if fb == 0:
            return Z0
        if _isc(a):
            return rvf(a.as_fraction() / fb)
        return r_mul(rvf(1 / fb), a)
    if _isc(a) and a.eq(Z0):
        return Z0
    if a.eq(b):
        return Z1
    c = ctx()
    key = ('div', a.get_id(), b.get_id())
    q = c.memo.get(key)
    if q is None:
        if DIV_FRESH[0]:
            q = c.fresh('q')
            c.keep.append(a)
            c.keep.append(b)
            c.define(z3.Implies(b != Z0, q * b == a))
        else:
            q = a / b
        c.memo[key] = q
        c.keep.append(q)
    return q


DIV_FRESH = [False]


def f_div(a, b, array_sem=False):
    """a / b.  Scalars: division by zero raises (Numba's default error model).
    array_sem: numpy semantics (inf/nan)."""
    an, ap, am = a.fl()
    bn, bp, bm = b.fl()
    if an is True or bn is True:
        if not array_sem and an is True and bn is not True:
            if mkbool_force(f_eq(b, SymFloat(Z0))):
                raise ZeroDivisionError('division by zero')
        return _NAN
    bzero = b_and(b_not(b_or(bn, bp, bm)), r_eq(b.r, Z0))
    if not array_sem:
        if mkbool_force(bzero):
            raise ZeroDivisionError('division by zero')
        bzero = False
    if ap is False and am is False and bp is False and bm is False and bzero is False:
        return SymFloat(r_div(a.r, b.r), b_or(an, bn))
    ainf = b_or(ap, am)
    binf = b_or(bp, bm)
    azero = b_and(b_not(ainf), r_eq(a.r, Z0))
    nan = b_or(an, bn, b_and(ainf, binf), b_and(azero, bzero))
    inf = b_and(b_not(nan), b_or(ainf, bzero))
    # sign of an infinite result; division by (positive) zero takes a's sign
    pos = b_ite(bzero, _sgn_pos(a), b_or(b_and(_sgn_pos(a), b_not(_sgn_neg(b))), b_and(_sgn_neg(a), _sgn_neg(b))))
    r = r_ite(b_or(binf, bzero), Z0, r_div(a.r, b.r)) if (binf is not False or bzero is not False) else r_div(a.r, b.r)
    return SymFloat(r, nan, b_and(inf, pos), b_and(inf, b_not(pos)))


def f_lt(a, b):
    an, ap, am = a.fl()
    bn, bp, bm = b.fl()
    if an is True or bn is True:
        return False
    ok = b_and(b_not(an), b_not(bn))
    base = r_lt(a.r, b.r)
    if ap is False and am is False and bp is False and bm is False:
        return b_and(ok, base)
    fin = b_and(b_not(b_or(ap, am, bp, bm)), base)
    return b_and(ok, b_or(fin, b_and(am, b_not(bm)), b_and(bp, b_not(ap))))


def f_le(a, b):
    an, ap, am = a.fl()
    bn, bp, bm = b.fl()
    if an is True or bn is True:
        return False
    ok = b_and(b_not(an), b_not(bn))
    base = r_le(a.r, b.r)
    if ap is False and am is False and bp is False and bm is False:
        return b_and(ok, base)
    fin = b_and(b_not(b_or(ap, am, bp, bm)), base)
    return b_and(ok, b_or(fin, am, bp))


def f_eq(a, b):
    an, ap, am = a.fl()
    bn, bp, bm = b.fl()
    if an is True or bn is True:
        return False
    ok = b_and(b_not(an), b_not(bn))
    base = r_eq(a.r, b.r)
    if ap is False and am is False and bp is False and bm is False:
        return b_and(ok, base)
    fin = b_and(b_not(b_or(ap, am, bp, bm)), base)
    return b_and(ok, b_or(fin, b_and(ap, bp), b_and(am, bm)))


def f_same(a, b):
    """equality where NaN equals NaN (the relation results are compared with)"""
    an, _, _ = a.fl()
    bn, _, _ = b.fl()
    return b_or(b_and(an, bn), f_eq(a, b))


def f_isnan(a):
    return a.fl()[0]


def f_isinf(a):
    n, p, m = a.fl()
    return b_or(p, m)


def f_abs(a):
    n, p, m = a.fl()
    if n is True:
        return _NAN
    r = a.r
    if _isc(r):
        r2 = rvf(abs(r.as_fraction()))
    else:
        c = r_lt(r, Z0)
        k = _known_sign(c)
        r2 = r_ite(k, r_neg(r), r)
    return SymFloat(r2, n, b_or(p, m), False)


def _known_sign(c):
    if isinstance(c, bool):
        return c
    return _known(c)


def f_sign(a):
    n, p, m = a.fl()
    if n is True:
        return _NAN
    pos = b_or(p, b_and(b_not(m), r_lt(Z0, a.r)))
    neg = b_or(m, b_and(b_not(p), r_lt(a.r, Z0)))
    return SymFloat(r_ite(pos, Z1, r_ite(neg, rv(-1), Z0)), n)


def f_floor(a):
    n, p, m = a.fl()
    r = a.r
    if _isc(r):
        fr = r.as_fraction()
        return SymFloat(rv(fr.numerator // fr.denominator), n, p, m)
    return SymFloat(z3.ToReal(z3.ToInt(r)), n, p, m)


def f_toint(a):
    """int(x): truncation; concretised by case split over a small range."""
    n, p, m = a.fl()
    if mkbool_force(n):
        raise ValueError('cannot convert float NaN to integer')
    if mkbool_force(b_or(p, m)):
        raise OverflowError('cannot convert float infinity to integer')
    r = a.r
    if _isc(r):
        fr = r.as_fraction()
        return int(fr)
    neg = mkbool_force(r_lt(r, Z0))
    t = z3.ToInt(-r) if neg else z3.ToInt(r)
    c = ctx()
    # value of the current model first, then neighbours by forking
    for _ in range(64):
        m_ = c.model
        if c.pos < len(c.entries):
            # replaying: find the recorded equality decision
            e = c.entries[c.pos][0]
            guess = None
            if z3.is_eq(e):
                for ch in e.children():
                    if z3.is_int_value(ch):
                        guess = ch.as_long()
            if guess is None:
                # entry was simplified; fall back to linear search below
                break
        else:
            if m_ is None:
                m_ = c.ensure_model()
            if m_ is None:
                break
            guess = m_.eval(t, model_completion=True).as_long()
        if c.fork(t == guess):
            return -guess if neg else guess
    for g in range(0, 64):
        if c.fork(t == g):
            return -g if neg else g
    raise NotEncodable('int() of a symbolic value outside of +-64')


def f_round(a, nd=None):
    if nd is None or nd == 0:
        # banker's rounding
        n, p, m = a.fl()
        h = f_add(a, tof(0.5))
        fl = f_floor(h)
        # tie: even
        tie = r_eq(fl.r, h.r)
        if mkbool_force(tie):
            half = f_floor(SymFloat(r_div(fl.r, rv(2))))
            if not mkbool_force(r_eq(r_mul(rv(2), half.r), fl.r)):
                fl = f_add(fl, tof(-1))
        return SymFloat(fl.r, n, p, m)
    k = tof(10.0 ** nd)
    return f_div(f_round(f_mul(a, k)), k)


def f_sqrt(a):
    n, p, m = a.fl()
    if n is True:
        return _NAN
    r = a.r
    neg = b_or(m, b_and(b_not(p), r_lt(r, Z0)))
    if _isc(r):
        f = float(r.as_fraction())
        if f < 0:
            return _NAN
        s = math.isqrt(r.as_fraction().numerator), math.isqrt(r.as_fraction().denominator)
        if Fraction(*s) ** 2 == r.as_fraction():
            return SymFloat(rvf(Fraction(*s)), n, p)
    c = ctx()
    key = ('sqrt', r.get_id())
    s = c.memo.get(key)
    if s is None:
        # canonical key: structurally different but equal radicands share a root by congruence
        s = c.fresh('sq')
        c.keep.append(r)
        c.define(z3.And(s >= 0, z3.Implies(r >= 0, s * s == r)))
        c.memo[key] = s
    return SymFloat(s, b_or(n, neg), p)


def _uf1(name, x, mono=None):
    """Uninterpreted unary function (exp, log, ...) on reals."""
    f = z3.Function('uf_' + name, z3.RealSort(), z3.RealSort())
    return f(x)


def f_log(a):
    n, p, m = a.fl()
    if n is True:
        return _NAN
    if _isc(a.r):
        if a.r.eq(Z1):
            return SymFloat(Z0, n, p, m)
    neg = b_or(m, b_and(b_not(p), r_lt(a.r, Z0)))
    zero = b_and(b_not(b_or(p, m)), r_eq(a.r, Z0))
    return SymFloat(_uf1('log', a.r), b_or(n, neg), p, zero)


def f_exp(a):
    n, p, m = a.fl()
    if n is True:
        return _NAN
    if _isc(a.r) and a.r.eq(Z0):
        return SymFloat(Z1, n, p)
    c = ctx()
    e = _uf1('exp', a.r)
    key = ('exp', a.r.get_id())
    if key not in c.memo:
        c.memo[key] = True
        c.keep.append(a.r)
        c.define(e > 0)
    return SymFloat(r_ite(m, Z0, e), n, p)


def f_pow(a, b):
    if isinstance(b, (int, np.integer)) or (isinstance(b, (float, np.floating)) and float(b).is_integer() and abs(b) <= 16):
        k = int(b)
        a = tof(a)
        if a is None:
            raise NotEncodable('pow')
        if k == 0:
            return 1.0
        out = a
        for _ in range(abs(k) - 1):
            out = f_mul(out, a)
        if k < 0:
            out = f_div(tof(1.0), out)
        return out
    if isinstance(b, (float, np.floating)) and b == 0.5:
        return f_sqrt(tof(a))
    fa, fb = tof(a), tof(b)
    if fa is None or fb is None:
        raise NotEncodable('pow')
    an, ap, am = fa.fl()
    bn, bp, bm = fb.fl()
    if not (ap is False and am is False and bp is False and bm is False):
        raise NotEncodable('pow of infinities')
    f = z3.Function('uf_pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
    c = ctx()
    e = f(fa.r, fb.r)
    key = ('pow', fa.r.get_id(), fb.r.get_id())
    if key not in c.memo:
        c.memo[key] = True
        c.keep += [fa.r, fb.r]
        c.define(z3.And(z3.Implies(fa.r > 0, e > 0), z3.Implies(fa.r == 1, e == 1),
                        z3.Implies(fb.r == 0, e == 1), z3.Implies(z3.And(fa.r == 0, fb.r > 0), e == 0)))
    # negative base with a non-integer exponent is NaN
    neg = b_and(r_lt(fa.r, Z0))
    return SymFloat(e, b_or(an, bn, neg))


def ite(c, a, b):
    """merge two scalars"""
    c = _tob(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return mkbool(b_ite(c, _tob(a), _tob(b)))
    fa, fb = tof(a), tof(b)
    if fa is None or fb is None:
        if all(f is not None or isinstance(x, (str, type(None))) for f, x in ((fa, a), (fb, b))):
            return a if bool(mkbool(c)) else b      # text: one path per choice
        raise NotEncodable('ite over %r / %r' % (type(a), type(b)))
    an, ap, am = fa.fl()
    bn, bp, bm = fb.fl()
    if an is True:
        r = fb.r
    elif bn is True:
        r = fa.r
    else:
        r = r_ite(c, fa.r, fb.r)
    return SymFloat(r, b_ite(c, an, bn), b_ite(c, ap, bp), b_ite(c, am, bm))
