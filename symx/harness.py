"""Harness objects: the same harness function runs symbolically (SymH) and on concrete
values against the JIT-compiled build (ConcH)."""
import math
import os
import time
import traceback
import numpy as np
import pandas as pd

from . import core
from .core import (Ctx, SymFloat, SymBool, PathAbort, BudgetExceeded, NotEncodable, UninitRead, z3, zb, tof, mkbool, b_or,
                   b_and, b_not, f_same, f_eq, is_sym, UNINIT, ite as _ite)


class _Stop(BaseException):
    pass


class Skip(BaseException):
    """Concrete inputs do not satisfy the harness's assumptions."""


def isnan(x):
    if isinstance(x, SymFloat):
        return mkbool(tof(x).fl()[0])
    if isinstance(x, SymBool):
        return False
    return x != x


def isinf(x):
    if isinstance(x, SymFloat):
        return mkbool(core.f_isinf(tof(x)))
    return x in (math.inf, -math.inf)


def ite(c, a, b):
    if isinstance(c, SymBool):
        return _ite(c, a, b)
    return a if c else b


def and_(*xs):
    r = True
    for x in xs:
        r = x if r is True else (r & x if is_sym(r) else (x & r if is_sym(x) else (r and x)))
    return r


def or_(*xs):
    r = False
    for x in xs:
        r = x if r is False else (r | x if is_sym(r) else (x | r if is_sym(x) else (r or x)))
    return r


def not_(x):
    return ~x if is_sym(x) else (not x)


def sqrt(x):
    if is_sym(x):
        return core.lower(core.f_sqrt(tof(x)))
    return math.sqrt(x) if x >= 0 else math.nan


def log(x):
    if is_sym(x):
        return core.f_log(tof(x))
    return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)


def pow_(a, b):
    if is_sym(a) or is_sym(b):
        return core.f_pow(a, b)
    with np.errstate(all='ignore'):
        return float(np.power(float(a), float(b)))


def div(a, b):
    """numpy-style division: inf / nan instead of an exception"""
    from . import arr
    return arr._div(a, b)


def flatten(x):
    """any result -> (shape-ish, flat list of scalars)"""
    if isinstance(x, (pd.DataFrame, pd.Series)):
        x = x.to_numpy()
    if isinstance(x, pd.Index):
        x = x.to_numpy()
    if isinstance(x, np.ndarray):
        x = x.view(np.ndarray)
        if x.dtype.names:
            return ('rec', len(x)), [r[n] for r in x.reshape(-1) for n in x.dtype.names]
        return x.shape, list(x.reshape(-1))
    if isinstance(x, (list, tuple)):
        if any(isinstance(y, (list, tuple, np.ndarray, pd.Series, pd.DataFrame)) for y in x):
            sh, out = [], []
            for y in x:
                s, f = flatten(y)
                sh.append(s)
                out += f
            if all(s == sh[0] for s in sh) and isinstance(sh[0], tuple) and not (sh[0] and sh[0][0] == 'rec'):
                return (len(sh),) + sh[0], out
            return tuple(sh), out
        return (len(x),), list(x)
    return (), [x]


class BaseH:
    sym = False

    def __init__(self, vbt):
        self.vbt = vbt

    # composite inputs
    def floats(self, name, n, **kw):
        a = self.empty((n,))
        for i in range(n):
            a[i] = self.real('%s%d' % (name, i), **kw)
        return a

    def floats2(self, name, shape, **kw):
        a = self.empty(shape)
        for i in range(shape[0]):
            for j in range(shape[1]):
                a[i, j] = self.real('%s%d_%d' % (name, i, j), **kw)
        return a

    def bools(self, name, shape):
        a = np.zeros(shape, dtype=np.bool_)
        for ix in np.ndindex(a.shape):
            a[ix] = bool(self.bool('%s%s' % (name, '_'.join(map(str, ix)))))
        return a

    def masks(self, name, shape):
        """Booleans left symbolic until the code branches on them"""
        if not self.sym:
            return self.bools(name, shape)
        a = self.empty(shape)
        for ix in np.ndindex(a.shape):
            a[ix] = self.bool('%s%s' % (name, '_'.join(map(str, ix))))
        return a

    def ints(self, name, shape, lo, hi):
        a = np.zeros(shape, dtype=np.int64)
        for ix in np.ndindex(a.shape):
            a[ix] = self.int('%s%s' % (name, '_'.join(map(str, ix))), lo, hi)
        return a

    def modes(self, name, shape, lo, hi):
        """integers left symbolic until the code branches on them"""
        if not self.sym:
            return self.ints(name, shape, lo, hi)
        a = self.empty(shape)
        for ix in np.ndindex(a.shape):
            a[ix] = self.mode('%s%s' % (name, '_'.join(map(str, ix))), lo, hi)
        return a

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def call(self, f, *a, **k):
        """(value, None) or (None, exception type name)"""
        try:
            return f(*a, **k), None
        except Exception as e:
            if isinstance(e, UninitRead):
                raise
            if os.environ.get('SYMX_CALLTRACE'):
                import traceback
                traceback.print_exc()
            return None, type(e).__name__

    def njit(self, f):
        """user callback: interpreted symbolically, compiled for the replay"""
        if self.sym or os.environ.get('SYMX_REPLAY') == 'py':
            return f
        import numba
        return numba.njit(f)

    def rng(self):
        """Adversarial random source: every draw is an input of the harness. On the compiled build (whose generator
        cannot be replaced) the real generator is used: the contract must hold for its draws as well."""
        r = Rng(self)
        names = ('uniform', 'random', 'choice', 'randint', 'permutation', 'shuffle', 'seed')
        if self.sym:
            hooks = self.vbt._symx_np.random.__dict__['hooks']
            hooks.clear()
            hooks.update({n: getattr(r, n) for n in names})
        elif os.environ.get('SYMX_REPLAY') == 'py':
            for n in names:
                setattr(np.random, n, getattr(r, n))
        return r

    def eq_root(self, a, sq, label):
        """a == sqrt(sq), compared through the square"""
        if isnan(a):
            self.check(or_(isnan(sq), sq < 0), label + ' is NaN')
        else:
            self.check(a >= 0, label + ' >= 0')
            self.eq(a * a, sq, label + ' squared')

    def df(self, a, **k):
        return pd.DataFrame(np.asarray(a).view(np.ndarray), **k)

    def sr(self, a, **k):
        return pd.Series(np.asarray(a).view(np.ndarray), **k)


class Rng:
    def __init__(self, h):
        self.h, self.k = h, 0

    def name(self):
        self.k += 1
        return 'rng%d' % self.k

    def seed(self, *a):
        pass

    def uniform(self, lo=0.0, hi=1.0, size=None):
        if size is None:
            return lo + (hi - lo) * self.h.real(self.name(), lo=0, lt=1)
        if size < 0:
            raise ValueError('negative dimensions are not allowed')
        a = self.h.empty((int(size),))
        for i in range(int(size)):
            a[i] = self.uniform(lo, hi)
        return a

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def randint(self, lo, hi=None):
        lo, hi = (0, int(lo)) if hi is None else (int(lo), int(hi))
        if hi <= lo:
            raise ValueError('empty range for randrange()')
        return self.h.int(self.name(), lo, hi - 1)

    def choice(self, a, size=None, replace=True):
        vals = list(range(int(a))) if np.ndim(a) == 0 else list(a)
        if not vals and (size is None or size > 0):
            raise ValueError('a cannot be empty')
        if size is None:
            return vals[self.h.int(self.name(), 0, len(vals) - 1)]
        size = int(size)
        if size < 0:
            raise ValueError('negative dimensions are not allowed')
        if not replace and size > len(vals):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        out = []
        for _ in range(size):
            i = self.h.int(self.name(), 0, len(vals) - 1)
            out.append(vals[i])
            if not replace:
                del vals[i]
        return np.array(out, dtype=np.int64) if all(isinstance(x, (int, np.integer)) for x in out) else self.h.array(out)

    def permutation(self, a):
        return self.choice(a, np.shape(a)[0] if np.ndim(a) else a, replace=False)

    def shuffle(self, a):
        a[:] = self.choice(a, len(a), replace=False)


class SymH(BaseH):
    sym = True

    def __init__(self, vbt, c):
        BaseH.__init__(self, vbt)
        self.c = c
        self.obl = []
        self.witness_hints = []

    def empty(self, shape):
        from .arr import SArr
        a = np.empty(shape, dtype=object)
        return a.view(SArr)

    def array(self, data):
        a = self.empty(np.shape(data) if not isinstance(data, list) or not data or not isinstance(data[0], list)
                       else (len(data), len(data[0])))
        if a.ndim == 1:
            for i, x in enumerate(data):
                a[i] = x
        else:
            for i in range(a.shape[0]):
                for j in range(a.shape[1]):
                    a[i, j] = data[i][j]
        return a

    def real(self, name, lo=None, hi=None, nan=False, inf=False, gt=None, lt=None):
        r = z3.Real(name)
        if name not in self.c.inputs:
            self.c.inputs[name] = ('real', r, z3.Bool(name + '.nan') if nan else None,
                                   z3.Bool(name + '.pinf') if inf else None,
                                   z3.Bool(name + '.ninf') if inf and inf != '+' else None)
            cs = []
            if lo is not None:
                cs.append(r >= core.rv(lo))
            if hi is not None:
                cs.append(r <= core.rv(hi))
            if gt is not None:
                cs.append(r > core.rv(gt))
            if lt is not None:
                cs.append(r < core.rv(lt))
            k = self.c.inputs[name]
            fl = [x for x in k[2:] if x is not None]
            if len(fl) > 1:
                cs.append(z3.AtMost(*fl, 1))
            if cs:
                self.c.assume(z3.And(*cs) if len(cs) > 1 else cs[0])
        _, r, n, p, m = self.c.inputs[name]
        return SymFloat(r, n if n is not None else False, p if p is not None else False, m if m is not None else False)

    def bool(self, name):
        b = z3.Bool(name)
        self.c.inputs[name] = ('bool', b)
        return SymBool(b)

    def int(self, name, lo, hi):
        v = z3.Int(name)
        if name not in self.c.inputs:
            self.c.inputs[name] = ('int', v)
            self.c.assume(z3.And(v >= lo, v <= hi))
        for g in range(lo, hi):
            if self.c.fork(v == g):
                return g
        return hi

    def mode(self, name, lo, hi):
        v = z3.Int(name)
        if name not in self.c.inputs:
            self.c.inputs[name] = ('int', v)
            self.c.assume(z3.And(v >= lo, v <= hi))
        return SymFloat(z3.ToReal(v), False, False, False)

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise PathAbort('assume')
            return
        self.c.assume(cond.b)

    def check(self, cond, label):
        if isinstance(cond, SymBool):
            self.obl.append((label, zb(cond), None))
        else:
            self.obl.append((label, bool(cond), None))

    def eq(self, a, b, label, tol=None):
        sa, fa = flatten(a)
        sb, fb = flatten(b)
        if sa != sb:
            self.obl.append(('%s: shape %s vs %s' % (label, sa, sb), False, None))
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            lab = '%s[%d]' % (label, i) if sa != () else label
            if x is UNINIT or y is UNINIT:
                self.obl.append((lab + ': uninitialised', False, None))
                continue
            if is_sym(x) or is_sym(y):
                if isinstance(x, SymBool) or isinstance(y, SymBool):
                    x2, y2 = (x, y) if isinstance(x, SymBool) else (y, x)
                    r = x2 == (bool(y2) if isinstance(y2, (np.bool_,)) else y2)
                    self.obl.append((lab, zb(r), None))
                    continue
                fx, fy = tof(x), tof(y)
                if fx is None or fy is None:
                    self.obl.append((lab + ': kinds %r vs %r' % (type(x), type(y)), False, None))
                    continue
                r = f_same(fx, fy)
                if r is True:
                    self.obl.append((lab, True, None))
                    continue
                if r is False:
                    self.obl.append((lab, False, None))
                else:
                    self.obl.append((lab, r, (fx, fy)))
                continue
            self.obl.append((lab + (': %r vs %r' % (x, y)), conc_same(x, y), None))


def conc_same(x, y, tol=1e-7):
    if x is y:
        return True
    if x is None or y is None:
        return False
    try:
        if isinstance(x, (bool, np.bool_, int, float, np.number)) and isinstance(y, (bool, np.bool_, int, float, np.number)):
            x = float(x)
            y = float(y)
            if x != x or y != y:
                return x != x and y != y
            if x == y:
                return True
            if math.isinf(x) or math.isinf(y):
                return False
            return abs(x - y) <= tol * max(1.0, abs(x), abs(y))
        if pd.isnull(x) and pd.isnull(y):
            return True
        return bool(x == y)
    except Exception:
        return False


class ConcH(BaseH):
    def __init__(self, vbt, inputs):
        BaseH.__init__(self, vbt)
        self.inputs = inputs
        self.fail = []
        self.n = 0

    def empty(self, shape):
        return np.full(shape, np.nan, dtype=np.float64)

    def array(self, data):
        return np.array(data, dtype=np.float64)

    def real(self, name, lo=None, hi=None, nan=False, inf=False, gt=None, lt=None):
        if name not in self.inputs:
            # not reached on the symbolic path: any value of the domain
            v = 1.0
            if lo is not None and v < lo or gt is not None and v <= gt:
                v = float(lo) if lo is not None and (gt is None or lo > gt) else gt + 1.0
            if hi is not None and v > hi or lt is not None and v >= lt:
                v = float(hi) if hi is not None and (lt is None or hi < lt) else lt - 1.0
                if lo is not None and v < lo or gt is not None and v <= gt:
                    a = lo if lo is not None else gt
                    v = (a + (hi if hi is not None else lt)) / 2.0
            return v
        v = self.inputs[name]
        return {'nan': math.nan, 'inf': math.inf, '-inf': -math.inf}.get(v, v) if isinstance(v, str) else float(v)

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def int(self, name, lo, hi):
        return int(self.inputs.get(name, lo))

    mode = int

    def assume(self, cond):
        if not bool(cond):
            raise Skip('assume')

    def check(self, cond, label):
        self.n += 1
        if not bool(cond):
            self.fail.append(label)

    def eq(self, a, b, label, tol=1e-6):
        sa, fa = flatten(a)
        sb, fb = flatten(b)
        if sa != sb:
            self.fail.append('%s: shape %s vs %s' % (label, sa, sb))
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.n += 1
            if not conc_same(x, y, tol or 1e-6):
                self.fail.append('%s[%d]: %r vs %r' % (label, i, x, y))


# ---------------------------------------------------------------------------
def z3num(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    return None


def model_inputs(c, m):
    out = {}
    for name, k in c.inputs.items():
        if k[0] == 'bool':
            out[name] = bool(z3.is_true(m.eval(k[1], model_completion=True)))
        elif k[0] == 'int':
            out[name] = z3num(m.eval(k[1], model_completion=True))
        else:
            _, r, n, p, q = k
            if n is not None and z3.is_true(m.eval(n, model_completion=True)):
                out[name] = 'nan'
            elif p is not None and z3.is_true(m.eval(p, model_completion=True)):
                out[name] = 'inf'
            elif q is not None and z3.is_true(m.eval(q, model_completion=True)):
                out[name] = '-inf'
            else:
                out[name] = z3num(m.eval(r, model_completion=True))
    return out


def pc_of(c):
    return [e[0] if e[1] else z3.Not(e[0]) for e in c.entries[:c.pos]]


def nice_constraints(c, denom, bound):
    cs = []
    for name, k in c.inputs.items():
        if k[0] == 'real':
            i = z3.Int('nice!' + name)
            cs.append(k[1] == z3.ToReal(i) / denom)
            cs.append(z3.And(i >= -bound * denom, i <= bound * denom))
    return cs


def solve_model(c, extra, stats, ms=4000):
    """a model of the path + extra, preferring small dyadic values"""
    base = pc_of(c) + list(extra)
    for denom, bound, t in ((4, 64, min(1500, ms)), (64, 4096, min(1500, ms)), (None, None, ms)):
        s = z3.Solver()
        s.set('timeout', t)
        s.add(*base)
        if denom:
            s.add(*nice_constraints(c, denom, bound))
        t0 = time.time()
        r = s.check()
        stats['solver_s'] += time.time() - t0
        stats['queries'] += 1
        if r == z3.sat:
            return s.model()
        if r == z3.unsat and not denom:
            return None
    return None


def rat_diff_zero(a, b):
    try:
        d = z3.simplify(a - b, som=True)
        return z3.is_rational_value(d) and d.as_fraction() == 0
    except z3.Z3Exception:
        return False


def prove(c, obl, stats, budgets):
    """Decide the negation of a conjunction of obligations on the current path.
    -> ('unsat', None) | ('sat', model-free) | ('unknown', None)"""
    neg = z3.Or(*[z3.Not(o) for o in obl]) if len(obl) > 1 else z3.Not(obl[0])
    t0 = time.time()
    r = z3.unknown
    if not c.hard:
        c.solver.push()
        try:
            c.solver.set('timeout', 300)
            c.solver.add(neg)
            r = c.solver.check()
        finally:
            c.solver.pop()
        stats['queries'] += 1
        stats['solver_s'] += time.time() - t0
        if r != z3.unknown:
            return str(r)
    pcs = pc_of(c)
    for kind, ms in (('default', budgets[0]), ('nlsat', budgets[1])):
        if c.deadline is not None and time.time() > c.deadline:
            return 'unknown'
        t0 = time.time()
        try:
            if kind == 'nlsat':
                s = z3.Then(z3.Tactic('simplify'), z3.Tactic('solve-eqs'), z3.Tactic('elim-term-ite'),
                            z3.Tactic('purify-arith'), z3.Tactic('simplify'), z3.Tactic('tseitin-cnf'),
                            z3.Tactic('qfnra-nlsat')).solver()
            else:
                s = z3.Solver()
            s.set('timeout', ms)
            s.add(*pcs)
            s.add(neg)
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        stats['queries'] += 1
        stats['solver_s'] += time.time() - t0
        if r != z3.unknown:
            return str(r)
    return 'unknown'


def explore(vbt, fn, cfg, deadline, opts=None, prefix_filter=None):
    """Run one harness over all its paths. Returns a result dict."""
    opts = opts or {}
    c = Ctx(deadline=deadline, feas_ms=opts.get('feas_ms', 1000))
    budgets = opts.get('budgets', (2000, 4000, 4000))
    res = dict(paths=0, aborted=0, obligations=0, discharged=0, undecided=0, violations=[], witnesses=[], noenc_inputs=[],
               not_encodable={}, complete=False, reached=0, unknown_labels={}, raised=0)
    stats = c.stats
    max_viol = opts.get('max_viol', 3)
    max_wit = opts.get('max_wit', 4)
    nwit = 0
    t_start = time.time()
    try:
        while True:
            c.start_path()
            h = SymH(vbt, c)
            exc = None
            status = 'ok'
            try:
                fn(h, **cfg)
            except PathAbort:
                status = 'abort'
            except NotEncodable as e:
                status = 'noenc'
                if os.environ.get('SYMX_DEBUG') and not res['not_encodable']:
                    traceback.print_exc(limit=-6)
                res['not_encodable'][str(e)[:200]] = res['not_encodable'].get(str(e)[:200], 0) + 1
            except BudgetExceeded:
                status = 'budget'
            except RuntimeError as e:
                if 'non-deterministic' in str(e):
                    raise
                exc = e
            except Exception as e:
                exc = e
            if status == 'budget':
                break
            if status == 'abort':
                res['aborted'] += 1
            elif status == 'noenc':
                res['undecided'] += 1
                if len(res['noenc_inputs']) < 2:
                    m = solve_model(c, [], stats)
                    if m is not None:
                        res['noenc_inputs'].append(model_inputs(c, m))
            else:
                # obligations of this path (also those recorded before an exception)
                res['paths'] += 1
                todo = []
                failed = None
                if exc is not None:
                    res['raised'] += 1
                    res['obligations'] += 1
                    failed = ('exception %s: %s' % (type(exc).__name__, str(exc)[:200]), None, exc)
                for lab, cond, pair in h.obl:
                    res['obligations'] += 1
                    if cond is True:
                        res['discharged'] += 1
                    elif cond is False:
                        failed = failed or (lab, None, None)
                    else:
                        k = core._known(cond)
                        if k is True:
                            res['discharged'] += 1
                            continue
                        if pair is not None and not any(f is not False for f in pair[0].fl() + pair[1].fl()) \
                                and rat_diff_zero(pair[0].r, pair[1].r):
                            res['discharged'] += 1
                            continue
                        todo.append((lab, cond, pair))
                if h.obl or exc is not None:
                    res['reached'] += 1
                if failed is not None:
                    m = solve_model(c, [], stats)
                    if m is None:
                        # path may be infeasible (feasibility was unknown)
                        r = c._check()
                        if r == z3.unsat:
                            res['aborted'] += 1
                            failed = None
                        else:
                            res['undecided'] += 1
                    else:
                        tb = ''
                        if failed[2] is not None:
                            tb = ''.join(traceback.format_exception(failed[2])[-6:])
                        res['violations'].append(dict(label=failed[0], inputs=model_inputs(c, m), tb=tb))
                elif todo:
                    r = prove(c, [t[1] for t in todo], stats, budgets)
                    if r == 'unsat':
                        res['discharged'] += len(todo)
                    else:
                        # settle one by one
                        for lab, cond, pair in todo:
                            r1 = prove(c, [cond], stats, budgets) if len(todo) > 1 else r
                            if r1 == 'unsat':
                                res['discharged'] += 1
                            elif r1 == 'sat':
                                m = None
                                if pair is not None:
                                    d = pair[0].r - pair[1].r
                                    for eps in (0.25, 0.001):
                                        m = solve_model(c, [z3.Not(cond), z3.Or(pair[0].fl()[0] if pair[0].fl()[0] is not False else False,
                                                                               pair[1].fl()[0] if pair[1].fl()[0] is not False else False,
                                                                               d >= eps, d <= -eps)], stats, 2000)
                                        if m is not None:
                                            break
                                if m is None:
                                    m = solve_model(c, [z3.Not(cond)], stats)
                                if m is None:
                                    res['undecided'] += 1
                                else:
                                    res['violations'].append(dict(label=lab, inputs=model_inputs(c, m), tb=''))
                                break
                            else:
                                res['undecided'] += 1
                                res['unknown_labels'][lab] = res['unknown_labels'].get(lab, 0) + 1
                if failed is None and nwit < max_wit and (res['paths'] in (1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, 377)):
                    m = solve_model(c, [], stats, 1500)
                    if m is not None:
                        res['witnesses'].append(model_inputs(c, m))
                        nwit += 1
                if len(res['violations']) >= max_viol:
                    break
            if time.time() > deadline:
                break
            if not c.next_path():
                res['complete'] = True
                break
    finally:
        core.CUR[0] = None
    res['stats'] = stats
    res['secs'] = time.time() - t_start
    return res
