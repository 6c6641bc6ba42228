"""C37: the Rust engine computes what the Numba engine computes: /repo/rust/src is parsed and interpreted on the same symbolic
inputs the Numba functions run on, behind the real engine dispatch."""
import importlib
import itertools
import math
import numpy as np

PROPERTY = 'C37'
BUDGET = dict(quick=400, thorough=800)
VALIDATE_S = dict(quick=12)
BOUNDS = dict(
    kernels='every function registered by the Rust modules generic, indicators, labels, records, returns, signals and portfolio that does not draw random numbers',
    arrays='up to 3 to 5 rows and 2 to 4 columns per function (1 to 4 rows for the heavier ones), all reals, NaN and (where allowed) infinities; empty arrays',
    layouts='row-major, column-major and strided arrays', dtypes='float64, float32, int64, int32, bool on the functions of the dispatch instances',
    orders='one order from an arbitrary account state, every direction, size type, position, lock_cash, allow_partial',
    simulations='simulate_from_orders: 2 rows x 1 column, 1 row x 3 columns, groups, cash sharing, every call sequence, auto_call_seq, one symbolic '
                'parameter at a time; simulate_from_signals: 2 to 3 rows x 1 column, 1 to 2 rows x 2 columns, conflicts, accumulation, stops on OHLC')
ASSUMPTIONS = [
    'the Rust extension cannot be compiled here (the pyo3, numpy and ndarray crates are missing): its sources are parsed and interpreted by symx/rust.py '
    '(arithmetic, integer wrapping, slices, iterators, ndarray views, raw record pointers), and counterexamples are replayed by the same interpreter on '
    'concrete floats against the JIT-compiled Numba functions',
    'integer underflow is only noticed where the result is used as an index; rustc itself (types, borrow checks, release-mode wrapping) is trusted',
    'arguments the Numba functions themselves refuse or read out of bounds for are outside (minp larger than the window, diff by zero rows, negative shifts)',
    'random draws and callback-accepting functions (which never dispatch to Rust) are outside']
CRATE = None
HELPERS = {}


def sym_setup(vbt):
    global CRATE
    from symx import rustmod
    CRATE = rustmod.install(True, vbt._symx_np)
    import vectorbt.utils.math_ as mm
    HELPERS.update({k: getattr(mm, k) for k in ('is_close_nb', 'is_close_or_less_nb', 'is_less_nb', 'add_nb', 'is_addition_zero_nb')})
    from symx.load import idealize_close
    new = idealize_close(vbt)
    CRATE.override.update({('portfolio', k[:-3]): lambda a, b, f=f: f(a, b) for k, f in new.items()})
    CRATE.exact = True


def conc_setup(vbt):
    global CRATE
    from symx import rustmod
    CRATE = rustmod.install(False)
    import vectorbt.utils.math_ as mm
    HELPERS.update({k: getattr(mm, k) for k in ('is_close_nb', 'is_close_or_less_nb', 'is_less_nb', 'add_nb', 'is_addition_zero_nb')})


def used_functions():
    """Rust functions interpreted since the last call"""
    out = sorted('rust/src/' + k for k in CRATE.used)
    CRATE.used.clear()
    return out


def lay(a, layout):
    """the same values in another memory layout"""
    if layout == 'fortran' and a.ndim == 2:
        out = np.empty(a.shape[::-1], dtype=a.dtype).T
    elif layout:
        out = np.empty([2 * k for k in a.shape], dtype=a.dtype)[tuple(slice(None, None, 2) for _ in a.shape)]
    else:
        return a
    out[...] = a
    return out.view(type(a))


class G:
    """argument builder: n rows, m columns"""

    def __init__(self, h, n, m, cfg):
        self.h, self.n, self.m, self.k = h, n, m, 0
        self.layout = cfg.get('layout')
        self.bits = list(cfg.get('bits') or [])         # flags fixed by the instance (a large case is split over several instances)

    def nm(self):
        self.k += 1
        return 'abcdefghijklmnopqrstuvwxyz'[self.k - 1]

    def A(self, n=None, m=None, **kw):
        kw.setdefault('nan', True)
        return lay(self.h.floats2(self.nm(), (self.n if n is None else n, self.m if m is None else m), **kw), self.layout)

    def V(self, n=None, **kw):
        kw.setdefault('nan', True)
        return lay(self.h.floats(self.nm(), self.n if n is None else n, **kw), self.layout)

    def M(self, n=None, m=None):
        return lay(self.h.bools(self.nm(), (self.n if n is None else n, self.m if m is None else m)), self.layout)

    def M1(self, n=None):
        return lay(self.h.bools(self.nm(), (self.n if n is None else n,)), self.layout)

    def f(self, **kw):
        return self.h.real(self.nm(), **kw)

    def i(self, lo, hi):
        return self.h.int(self.nm(), lo, hi)

    def o(self, *opts):
        return self.h.choice(self.nm(), list(opts))

    def b(self):
        if self.bits:
            return bool(self.bits.pop(0))
        return bool(self.h.bool(self.nm()))

    def I(self, n, lo, hi):
        return self.h.ints(self.nm(), (n,), lo, hi)

    def gl(self, m=None):
        """group lengths of the columns"""
        m = self.m if m is None else m
        opts = {1: [[1]], 2: [[2], [1, 1]], 3: [[3], [2, 1], [1, 2], [1, 1, 1]]}[m]
        return np.array(self.o(*opts))

    def colmap(self, col, m=None):
        from vectorbt.records import nb
        return nb.col_map_nb(np.array(col), self.m if m is None else m)

    def cols(self, n, m=None):
        """sorted column indices of n records"""
        c = [self.i(0, (self.m if m is None else m) - 1) for _ in range(n)]
        self.h.assume(all(c[k] <= c[k + 1] for k in range(n - 1)))
        return np.array(c, dtype=np.int64)

    def W(self):
        w, p = self.i(1, self.n), self.o(None, 0, 1, 2)
        self.h.assume(p is None or p <= w)
        return w, p


S = {}


def spec(mod, names, f, sizes=((3, 1),), post=None, **opt):
    for nm in names.split():
        S['%s.%s' % (mod, nm)] = (f, sizes, opt)


TWO = ((3, 1), (2, 2), (0, 1), (1, 1))
ONE = ((3, 1), (1, 1))
gen = lambda *a, **k: spec('generic', *a, **k)  # noqa: E731
gen('set_by_mask_1d', lambda g: (g.V(), g.M1(), g.f(nan=True)))
gen('set_by_mask', lambda g: (g.A(), g.M(), g.f(nan=True)), TWO)
gen('set_by_mask_mult_1d', lambda g: (g.V(), g.M1(), g.V()))
gen('set_by_mask_mult', lambda g: (g.A(), g.M(), g.A()), TWO)
gen('fillna_1d', lambda g: (g.V(), g.f(nan=True)))
gen('fillna', lambda g: (g.A(), g.f(nan=True)), TWO)
gen('bshift_1d fshift_1d', lambda g: (g.V(), g.i(0, g.n + 1), g.f(nan=True)), ONE)
gen('bshift fshift', lambda g: (g.A(), g.i(0, g.n + 1), g.f(nan=True)), TWO)
gen('diff_1d pct_change_1d', lambda g: (g.V(), g.i(1, g.n + 1)), ONE)
gen('diff pct_change', lambda g: (g.A(), g.i(1, g.n + 1)), TWO)
gen('bfill_1d ffill_1d', lambda g: (g.V(),), ((4, 1),))
gen('bfill ffill', lambda g: (g.A(),), ((3, 1), (2, 2), (1, 1)))
gen('nanprod nancumsum nancumprod nansum nancnt nanmin nanmax nanmean nanmedian', lambda g: (g.A(),), TWO)
gen('nanstd_1d', lambda g: (g.V(), g.i(0, 2)), ONE)
gen('nanstd', lambda g: (g.A(), g.i(0, 2)), TWO)
gen('rolling_min_1d rolling_max_1d rolling_mean_1d', lambda g: (g.V(), *g.W()))
gen('rolling_min rolling_max rolling_mean', lambda g: (g.A(), *g.W()), ((3, 1), (2, 2), (1, 1)))
gen('rolling_std_1d', lambda g: (g.V(), *g.W(), g.i(0, 1)))
gen('rolling_std', lambda g: (g.A(), *g.W(), g.i(0, 1)), ((3, 1), (1, 1)))
gen('ewm_mean_1d', lambda g: (g.V(), g.i(1, 3), g.i(0, 2), g.b()))
gen('ewm_mean', lambda g: (g.A(), g.i(1, 3), g.i(0, 2), g.b()), TWO)
gen('ewm_std_1d', lambda g: (g.V(), g.i(1, 3), g.i(0, 2), g.b(), g.i(0, 1)))
gen('ewm_std', lambda g: (g.A(), g.i(1, 3), g.i(0, 2), g.b(), g.i(0, 1)), ONE)
gen('expanding_min_1d expanding_max_1d expanding_mean_1d', lambda g: (g.V(), g.i(0, g.n)))
gen('expanding_min expanding_max expanding_mean', lambda g: (g.A(), g.i(0, g.n)), ((3, 1), (2, 2), (1, 1)))
gen('expanding_std_1d', lambda g: (g.V(), g.i(0, g.n), g.i(0, 1)))
gen('expanding_std', lambda g: (g.A(), g.i(0, g.n), g.i(0, 1)), ((3, 1), (2, 2)))
gen('flatten_forder', lambda g: (g.A(),), ((2, 2), (0, 1)))
gen('flatten_grouped', lambda g: (g.A(), g.gl(), g.b()), ((2, 3), (1, 2)))
gen('flatten_uniform_grouped', lambda g: (g.A(), np.array(g.o([2, 2], [1, 1, 1, 1], [4])), g.b()), ((2, 4),))
gen('nth_reduce nth_index_reduce', lambda g: (g.o(0, 1), g.V(), g.i(-4, 3)))
gen('min_reduce max_reduce mean_reduce median_reduce sum_reduce count_reduce argmin_reduce argmax_reduce',
    lambda g: (0, g.V()), ((4, 1), (1, 1), (0, 1)))
gen('std_reduce', lambda g: (0, g.V(), g.i(0, 2)))
gen('describe_reduce', lambda g: (0, g.V(), np.array([0.25, 0.5, 0.9]), g.i(0, 1)))
gen('value_counts', lambda g: (np.array([[g.i(0, 2) for _ in range(g.m)] for _ in range(g.n)], dtype=np.int64).reshape(g.n, g.m), 3, g.gl()), ((2, 2), (1, 3)))
gen('min_squeeze max_squeeze sum_squeeze any_squeeze', lambda g: (0, 0, g.V()), ((3, 1), (1, 1)))
gen('find_ranges', lambda g: (g.A(), g.o(math.nan, 0.0, -1.0)), ((4, 1), (2, 2)))


def ranges(g):
    n = g.n
    s = [g.i(0, 2) for _ in range(n)]
    e = [g.i(0, 3) for _ in range(n)]
    st = [g.i(0, 1) for _ in range(n)]
    for x, y in zip(s, e):
        g.h.assume(x < y if True else 0)
    return [np.array(v, dtype=np.int64) for v in (s, e, st)]


gen('range_duration', lambda g: ranges(g), ((2, 1),))


def coverage(g):
    r = ranges(g)
    c = g.cols(g.n, 2)
    return (*r, g.colmap(c, 2), np.array([4, 5]), g.b(), g.b())


gen('range_coverage', coverage, ((2, 1), (1, 1)))


def to_mask(g):
    r = ranges(g)
    return (*r, g.colmap(g.cols(g.n, 2), 2), 4)


gen('ranges_to_mask', to_mask, ((2, 1), (1, 1)))
gen('get_drawdowns', lambda g: (g.A(gt=0),), ((4, 1), (2, 2)))
gen('dd_drawdown dd_recovery_return', lambda g: (g.V(), g.V()), ((1, 1),))
gen('dd_decline_duration dd_recovery_duration', lambda g: (g.I(g.n, 0, 5), g.I(g.n, 0, 5)), ((1, 1),))
gen('dd_recovery_duration_ratio', lambda g: (g.I(g.n, 0, 5), g.I(g.n, 0, 5), g.I(g.n, 0, 5)), ((1, 1),))
gen('crossed_above_1d', lambda g: (g.V(), g.V(), g.i(0, 2)), ((4, 1), (1, 1)))
gen('crossed_above', lambda g: (g.A(), g.A(), g.i(0, 1)), ((3, 1), (2, 2)))

ind = lambda *a, **k: spec('indicators', *a, **k)  # noqa: E731
ind('ma', lambda g: (g.A(), g.i(1, 3), g.b(), g.b()), ((3, 1), (2, 2)))
ind('mstd', lambda g: (g.A(), g.i(1, 3), g.b(), g.b(), g.i(0, 1)), ((3, 1),))
ind('true_range', lambda g: (g.A(), g.A(), g.A()), ((2, 1), (1, 2)))
ind('obv_custom', lambda g: (g.A(), g.A()), ((3, 1), (1, 2)))


def two(mod, cache, apply, f, sizes):
    S['%s.%s' % (mod, apply)] = (f, sizes, dict(cache=cache))


def c_ma(g):
    a, w, e, ad = g.A(), g.i(1, 3), g.b(), g.b()
    return (a, [w, w], [e, e], ad), (a, w, e, ad), ()


def c_mstd(g):
    a, w, e, ad, dd = g.A(), g.i(1, 3), g.b(), g.b(), g.i(0, 1)
    return (a, [w], [e], ad, dd), (a, w, e, ad, dd), ()


def c_bb(g):
    a, w, e, ad, dd, al = g.A(), g.i(1, 2), g.b(), g.b(), g.i(0, 1), g.f()
    return (a, [w], [e], [al], ad, dd), (a, w, e, al, ad, dd), ()


def c_rsi(g):
    a, w, e, ad = g.A(), g.i(1, 2), g.b(), g.b()
    return (a, [w], [e], ad), (a, w, e, ad), ()


def c_stoch(g):
    x, y, z, k, d, e, ad = g.A(), g.A(), g.A(), g.i(1, 2), g.i(1, 2), g.b(), g.b()
    return (x, y, z, [k], [d], [e], ad), (x, y, z, k, d, e, ad), ()


def c_macd(g):
    a, f, s, si, me, se, ad = g.A(), g.i(1, 2), g.i(1, 3), g.i(1, 2), g.b(), g.b(), g.b()
    return (a, [f], [s], [si], [me], [se], ad), (a, f, s, si, me, se, ad), ()


def c_atr(g):
    x, y, z, w, e, ad = g.A(), g.A(), g.A(), g.i(1, 2), g.b(), g.b()
    return (x, y, z, [w], [e], ad), (x, y, z, w, e, ad), ()


two('indicators', 'ma_cache', 'ma_apply', c_ma, ((3, 1),))
two('indicators', 'mstd_cache', 'mstd_apply', c_mstd, ((3, 1),))
two('indicators', 'bb_cache', 'bb_apply', c_bb, ((3, 1),))
two('indicators', 'rsi_cache', 'rsi_apply', c_rsi, ((3, 1),))
two('indicators', 'stoch_cache', 'stoch_apply', c_stoch, ((2, 1),))
two('indicators', 'macd_cache', 'macd_apply', c_macd, ((3, 1),))
two('indicators', 'atr_cache', 'atr_apply', c_atr, ((2, 1),))

lab = lambda *a, **k: spec('labels', *a, **k)  # noqa: E731
lab('future_mean_apply mean_labels_apply', lambda g: (g.A(gt=0), g.i(1, 3), g.b(), g.i(0, 2), g.b()), ((3, 1),))
lab('future_std_apply', lambda g: (g.A(gt=0), g.i(1, 2), g.b(), g.i(0, 2), g.b(), g.i(0, 1)), ((3, 1),))
lab('future_min_apply future_max_apply', lambda g: (g.A(), g.i(1, 3), g.i(0, 2)), ((3, 1), (2, 2)))
lab('fixed_labels_apply', lambda g: (g.A(gt=0), g.i(0, 3)), ((3, 1), (2, 2)))


def th(g):
    return g.A(1, 1, nan=False, gt=0), g.A(1, 1, nan=False, gt=0, lt=1)


lab('local_extrema_apply', lambda g: (g.A(gt=0, nan=False), *th(g), g.b()), ((4, 1), (2, 2)))


def le(g):
    return np.array([[g.i(-1, 1) for _ in range(g.m)] for _ in range(g.n)], dtype=np.int64).reshape(g.n, g.m)


lab('bn_trend_labels', lambda g: (g.A(gt=0), le(g)), ((4, 1),))
lab('bn_cont_trend_labels', lambda g: (g.A(gt=0), le(g)), ((4, 1), (3, 1)), quick=((3, 1),), weight=9)
lab('bn_cont_sat_trend_labels', lambda g: (g.A(gt=0), le(g), *th(g), g.b()), ((3, 1),))
lab('pct_trend_labels', lambda g: (g.A(gt=0), le(g), g.b()), ((4, 1),))
lab('trend_labels_apply', lambda g: (g.A(gt=0, nan=False), *th(g), g.i(0, 4), True), ((3, 1),))
lab('breakout_labels', lambda g: (g.A(gt=0), g.i(1, 2), *th(g), g.i(0, 2), g.b()), ((3, 1),))

ret = lambda *a, **k: spec('returns', *a, **k)  # noqa: E731
ret('get_return', lambda g: (g.f(nan=True), g.f(nan=True)))
ret('returns_1d', lambda g: (g.V(), g.f(nan=True)))
ret('returns', lambda g: (g.A(), g.V(g.m)), TWO)
ret('cum_returns_1d', lambda g: (g.V(), g.f()))
ret('cum_returns', lambda g: (g.A(), g.f()), TWO)
ret('cum_returns_final_1d', lambda g: (g.V(), g.f()))
ret('cum_returns_final', lambda g: (g.A(), g.f()), TWO)
ret('annualized_return', lambda g: (g.A(), 3.0), ((3, 1),))
ret('annualized_volatility', lambda g: (g.A(), 4.0, g.o(2.0, 1.0), g.i(0, 1)), ((3, 1), (2, 2)))
ret('drawdown max_drawdown', lambda g: (g.A(),), ((3, 1), (2, 2)))
ret('calmar_ratio', lambda g: (g.A(), 2.0), ((2, 1),))
ret('omega_ratio', lambda g: (g.A(), 2.0, g.f(), g.o(0.0, 0.5, -1.0)), ((3, 1),))
ret('sharpe_ratio', lambda g: (g.A(), 4.0, g.f(), g.i(0, 1)), ((3, 1),))
ret('downside_risk sortino_ratio', lambda g: (g.A(), 4.0, g.f()), ((3, 1),))
ret('information_ratio', lambda g: (g.A(), g.A(), g.i(0, 1)), ((2, 1), (1, 2)))
ret('beta', lambda g: (g.A(), g.A()), ((3, 1),))
ret('alpha', lambda g: (g.A(), g.A(), 2.0, g.f()), ((2, 1),))
ret('tail_ratio', lambda g: (g.A(),), ((3, 1),))
ret('value_at_risk cond_value_at_risk', lambda g: (g.A(), g.o(0.05, 0.5, 0.0, 1.0)), ((3, 1),))
ret('capture up_capture down_capture', lambda g: (g.A(), g.A(), 2.0), ((2, 1),))
W2 = lambda g: g.W()  # noqa: E731
ret('rolling_cum_returns_final', lambda g: (g.A(), *W2(g), g.f()), ((3, 1),))
ret('rolling_annualized_return rolling_calmar_ratio', lambda g: (g.A(), *W2(g), 2.0), ((2, 1),))
ret('rolling_annualized_volatility', lambda g: (g.A(), *W2(g), 4.0, 2.0, g.i(0, 1)), ((2, 1),))
ret('rolling_max_drawdown rolling_tail_ratio', lambda g: (g.A(), *W2(g)), ((3, 1),))
ret('rolling_omega_ratio', lambda g: (g.A(), *W2(g), 2.0, 0.01, 0.0), ((2, 1),))
ret('rolling_sharpe_ratio', lambda g: (g.A(), *W2(g), 4.0, 0.01, 1), ((2, 1),))
ret('rolling_downside_risk rolling_sortino_ratio', lambda g: (g.A(), *W2(g), 4.0, 0.01), ((2, 1),))
ret('rolling_information_ratio', lambda g: (g.A(), *W2(g), g.A(), 1), ((2, 1),))
ret('rolling_beta', lambda g: (g.A(), *W2(g), g.A()), ((2, 1),))
ret('rolling_alpha', lambda g: (g.A(), *W2(g), g.A(), 2.0, 0.01), ((2, 1),))
ret('rolling_value_at_risk rolling_cond_value_at_risk', lambda g: (g.A(), *W2(g), g.o(0.05, 0.5)), ((3, 1),))
ret('rolling_capture rolling_up_capture rolling_down_capture', lambda g: (g.A(), *W2(g), g.A(), 2.0), ((2, 1),))

rec = lambda *a, **k: spec('records', *a, **k)  # noqa: E731
rec('col_range', lambda g: (g.I(g.n, 0, 2), 3), ((3, 1),))
rec('is_col_sorted', lambda g: (g.I(g.n, 0, 2),), ((3, 1),))
rec('col_map', lambda g: (g.I(g.n, 0, 2), 3), ((4, 1), (0, 1)))
rec('is_col_idx_sorted', lambda g: (g.I(g.n, 0, 2), g.I(g.n, 0, 2)), ((3, 1), (0, 1)))


def c_range(g):
    from vectorbt.records import nb
    return nb.col_range_nb(g.cols(g.n, 3), 3)


rec('col_range_select', lambda g: (c_range(g), g.I(2, 0, 2)), ((3, 1), (0, 1)))
rec('col_map_select', lambda g: (g.colmap(g.I(g.n, 0, 2), 3), g.I(2, 0, 2)), ((3, 1), (0, 1)))


def some_records(g, col):
    from vectorbt.generic.enums import drawdown_dt
    r = g.h.vbt._symx_np.zeros(len(col), dtype=drawdown_dt) if g.h.sym else np.zeros(len(col), dtype=drawdown_dt)
    for k in range(len(col)):
        r['id'][k], r['col'][k], r['start_idx'][k], r['peak_val'][k], r['valley_val'][k], r['end_val'][k] = k, col[k], g.i(0, 1), g.f(), 1.0, 2.0
    return r


def rcr(g):
    from vectorbt.records import nb
    c = g.cols(g.n, 3)
    return some_records(g, c), nb.col_range_nb(c, 3), g.I(2, 0, 2)


rec('record_col_range_select', rcr, ((2, 1), (0, 1)))


def rcm(g):
    c = g.I(g.n, 0, 2)
    return some_records(g, c), g.colmap(c, 3), g.I(2, 0, 2)


rec('record_col_map_select', rcm, ((2, 1), (0, 1)))
rec('is_mapped_expandable', lambda g: (g.I(g.n, 0, 1), g.I(g.n, 0, 2), (3, 2)), ((3, 1), (0, 1)))
rec('expand_mapped', lambda g: (g.V(), g.I(g.n, 0, 1), g.I(g.n, 0, 2), (3, 2), g.f(nan=True)), ((2, 1), (0, 1)))
rec('stack_expand_mapped', lambda g: (g.V(), g.colmap(g.I(g.n, 0, 1), 2), g.f(nan=True)), ((3, 1), (0, 1)))
rec('mapped_value_counts', lambda g: (g.I(g.n, 0, 1), 2, g.colmap(g.I(g.n, 0, 1), 2)), ((3, 1), (0, 1)))
rec('top_n_mapped_mask bottom_n_mapped_mask', lambda g: (g.V(nan=g.b()), g.colmap(g.I(g.n, 0, 1), 2), g.i(0, 3)), ((3, 1), (0, 1)))

sig = lambda *a, **k: spec('signals', *a, **k)  # noqa: E731
sig('clean_enex_1d', lambda g: (g.M1(), g.M1(), g.b()), ((4, 1), (0, 1)))
sig('clean_enex', lambda g: (g.M(), g.M(), g.b()), ((2, 2), (0, 1)))
P2 = lambda g, **k: g.A(1, 1, **k)  # noqa: E731
sig('generate_stop_ex', lambda g: (g.M(), g.A(gt=0), P2(g), g.h.choice('tr', [False, True]), g.i(0, 2), g.b(), g.b(), g.b(), True), ((3, 1), (2, 2)), bits=2)
sig('generate_stop_enex', lambda g: (g.M(), g.A(gt=0), P2(g), g.h.choice('tr', [False, True]), g.i(0, 2), g.i(0, 2), g.b(), True), ((3, 1),), bits=1)


def ohlc(g, enex):
    en = g.M()
    o, hi, lo, c = (g.A(gt=0, nan=False) for _ in range(4))
    shape = (g.n, g.m)
    mk = g.h.vbt._symx_np if g.h.sym else np
    po, to = mk.full(shape, math.nan, dtype=np.float64), np.full(shape, -1, dtype=np.int64)
    sl, tp = P2(g), P2(g)
    tr, rv = np.array([[g.b()]]), np.array([[g.b()]])
    safe = g.b()
    tail = (g.i(0, 1), g.i(0, 1), g.b(), True) if enex else (g.i(0, 1), g.b(), g.b(), g.b(), True)
    return (en, o, hi, lo, c, po, to, sl, tr, tp, rv, safe, *tail)


sig('generate_ohlc_stop_ex', lambda g: ohlc(g, False), ((2, 1),), bits=4)
sig('generate_ohlc_stop_enex', lambda g: ohlc(g, True), ((2, 1),), bits=3)
sig('between_ranges partition_ranges between_partition_ranges', lambda g: (g.M(),), ((5, 1), (2, 2), (0, 1)))
sig('between_two_ranges', lambda g: (g.M(), g.M(), g.b()), ((3, 1), (2, 2)))
sig('sig_pos_rank', lambda g: (g.M(), g.o(None, 1) if False else (g.M() if g.b() else None), g.b(), g.b()), ((3, 1), (2, 2)))
sig('part_pos_rank', lambda g: (g.M(), g.M() if g.b() else None, g.b()), ((3, 1), (2, 2)))
sig('nth_index_1d', lambda g: (g.M1(), g.i(-4, 3)), ((3, 1), (0, 1)))
sig('nth_index', lambda g: (g.M(), g.i(-3, 2)), ((2, 2), (3, 1)))
sig('norm_avg_index_1d', lambda g: (g.M1(),), ((4, 1), (1, 1), (0, 1)))
sig('norm_avg_index', lambda g: (g.M(),), ((2, 2), (3, 1)))


# ---------------------------------------------------------------- portfolio

pf = lambda *a, **k: spec('portfolio', *a, **k)  # noqa: E731
pf('order_not_filled', lambda g: (g.i(0, 2), g.i(0, 10)))
pf('update_value', lambda g: (g.f(), g.f(), g.f(), g.f(), g.f(nan=True), g.f(), g.f(nan=True)))
pf('order', lambda g: (g.f(nan=True, inf=True), g.f(gt=0, inf='+'), g.i(0, 5), g.i(0, 2), g.f(lo=0), g.f(lo=0), g.f(lo=0), g.f(lo=0), g.f(gt=0, inf='+'),
                       g.f(gt=0, nan=True), g.f(lo=0, hi=1), g.b(), g.b(), g.b(), g.b()))
pf('close_position', lambda g: (g.f(gt=0, inf='+'), g.f(lo=0), g.f(lo=0), g.f(lo=0), g.f(lo=0), g.f(gt=0, inf='+'), g.f(gt=0, nan=True),
                                g.f(lo=0, hi=1), g.b(), g.b(), g.b(), g.b()))
pf('order_nothing', lambda g: (), ((1, 1),))
pf('check_group_lens', lambda g: (np.array([g.i(0, 2), g.i(0, 2)]), g.i(0, 4)))
pf('check_group_init_cash', lambda g: (np.array([2, 1]), 3, g.V(g.i(1, 4)), g.b()))
pf('is_grouped', lambda g: (np.array([g.i(1, 2), g.i(1, 2)]),))
pf('build_call_seq', lambda g: ((g.n, g.m), g.gl(), g.i(0, 1)), ((2, 3), (1, 2)))
pf('get_group_value', lambda g: (g.i(0, 1), g.i(1, 3), g.f(), g.V(nan=False), g.V()), ((3, 1),))
pf('approx_order_value', lambda g: (g.f(inf=True), g.i(0, 5), g.i(0, 2), g.f(), g.f(), g.f(), g.f(gt=0), g.f()))
pf('get_trade_stats', lambda g: (g.f(), g.f(), g.f(), g.f(), g.f(), g.i(0, 1)))
pf('get_long_size get_short_size', lambda g: (g.f(), g.f()))
pf('get_free_cash_diff', lambda g: (g.f(), g.f(), g.f(lo=0), g.f(gt=0), g.f(lo=0)))
pf('assets', lambda g: (g.A(nan=False),), TWO)
pf('sum_grouped cash_flow_grouped asset_value_grouped', lambda g: (g.A(nan=False), g.gl()), ((2, 3), (1, 2)))
pf('init_cash_grouped init_cash', lambda g: ic(g), ((1, 3), (1, 2)))


def ic(g):
    gl = g.gl()
    sh = g.b()
    return g.V(len(gl) if sh else g.m, nan=False), gl, sh


pf('cash', lambda g: (g.A(), g.V(g.m)), TWO)
pf('cash_in_sim_order', lambda g: cso(g), ((2, 2), (1, 3)))


def seqs(g, gl):
    """a call sequence: per row and group a permutation"""
    import itertools
    out = np.zeros((g.n, g.m), dtype=np.int64)
    for i in range(g.n):
        c = 0
        for n in gl:
            out[i, c:c + n] = g.o(*itertools.permutations(range(n)))
            c += n
    return out


def cso(g):
    gl = g.gl()
    return g.A(nan=False), gl, g.V(len(gl)), seqs(g, gl)


pf('cash_grouped', lambda g: (lambda gl: ((g.n, g.m), g.A(m=len(gl)), gl, g.V(len(gl))))(g.gl()), ((2, 3), (1, 2)))
pf('asset_value value', lambda g: (g.A(), g.A()), ((2, 2), (1, 1)))
pf('value_in_sim_order', lambda g: (lambda gl: (g.A(nan=False), g.A(nan=False), gl, seqs(g, gl)))(g.gl()), ((2, 2), (1, 3)))
pf('total_profit_grouped', lambda g: (g.V(g.m), g.gl()), ((1, 3),))
pf('final_value total_return', lambda g: (g.V(g.m), g.V(g.m)), ((1, 3), (1, 1)))
pf('returns_in_sim_order', lambda g: (lambda gl: (g.A(), gl, g.V(len(gl)), seqs(g, gl)))(g.gl()), ((2, 2), (1, 3)))
pf('asset_returns', lambda g: (g.A(), g.A()), ((3, 1), (2, 2)))
pf('benchmark_value', lambda g: (g.A(gt=0), g.V(g.m)), ((3, 1), (2, 2)))
pf('benchmark_value_grouped', lambda g: (lambda gl: (g.A(gt=0), gl, g.V(len(gl))))(g.gl()), ((2, 3), (1, 2)))
pf('total_benchmark_return', lambda g: (g.A(),), ((3, 1), (2, 2)))
pf('gross_exposure', lambda g: (g.A(), g.A()), ((2, 1), (1, 2)))


def empty_rec(g, n, dt):
    return (g.h.vbt._symx_np if g.h.sym else np).zeros(n, dtype=dt)


def orders(g, k, n):
    """k filled orders of one or two columns, rows ascending per column"""
    from vectorbt.portfolio.enums import order_dt
    r = empty_rec(g, k, order_dt)
    col = g.cols(k, g.m)
    for j in range(k):
        r['id'][j], r['col'][j], r['idx'][j] = j, col[j], g.i(0, n - 1)
        r['size'][j], r['price'][j], r['fees'][j], r['side'][j] = g.f(gt=0), g.f(gt=0), g.f(lo=0), g.i(0, 1)
        if j and col[j] == col[j - 1]:
            g.h.assume(r['idx'][j - 1] <= r['idx'][j])
    return r, g.colmap(col)


def with_orders(f):
    def go(g):
        k = 3 if g.m == 1 else 2
        r, cm = orders(g, k, g.n)
        return f(g, r, cm)
    return go


pf('get_entry_trades get_exit_trades', with_orders(lambda g, r, cm: (r, g.A(gt=0, nan=True), cm)), ((2, 1), (1, 2)))
pf('asset_flow', with_orders(lambda g, r, cm: ((g.n, g.m), r, cm, g.i(0, 2))), ((2, 1), (1, 2)))
pf('cash_flow', with_orders(lambda g, r, cm: ((g.n, g.m), r, cm, g.b())), ((2, 1), (1, 2)))
pf('total_profit', with_orders(lambda g, r, cm: ((g.n, g.m), g.A(gt=0, nan=True), r, cm)), ((2, 1), (1, 2)))


def trades(g):
    """trade records of positions with one or several trades"""
    from vectorbt.portfolio.enums import trade_dt
    k = 3
    r = empty_rec(g, k, trade_dt)
    col = g.cols(k, 2)
    par = 0
    for j in range(k):
        if j:
            par += 1 if g.b() or col[j] != col[j - 1] else 0
        r['id'][j], r['col'][j], r['size'][j], r['entry_idx'][j], r['entry_price'][j] = j, col[j], g.f(gt=0), j, g.f(gt=0)
        r['entry_fees'][j], r['exit_idx'][j], r['exit_price'][j], r['exit_fees'][j] = g.f(lo=0), j + 1, g.f(gt=0), g.f(lo=0)
        r['pnl'][j], r['return'][j], r['direction'][j], r['status'][j], r['parent_id'][j] = g.h.real('pnl%d' % j), 0.0, g.o(0, 1), 1, par
    for j in range(1, k):
        if r['parent_id'][j] == r['parent_id'][j - 1]:
            g.h.assume(r['direction'][j] == r['direction'][j - 1])
    r['status'][k - 1] = g.o(0, 1)
    return r


pf('trade_winning_streak trade_losing_streak', lambda g: (trades(g),))
pf('get_positions', lambda g: (lambda r: (r, g.colmap(r['col'], 2)))(trades(g)))


def dup(h, x):
    if isinstance(x, np.ndarray):
        c = x.copy()
        if x.ndim and not x.dtype.names and not (x.flags.c_contiguous and x.flags.owndata):
            return lay(c, 'fortran' if x.flags.f_contiguous and x.ndim == 2 else None if x.flags.c_contiguous else 'strided')
        return c
    if isinstance(x, tuple):
        return tuple(dup(h, y) for y in x)
    if isinstance(x, list):
        return [dup(h, y) for y in x]
    return x


def same(h, a, b, label):
    if hasattr(a, 'keys') or hasattr(b, 'keys'):
        h.check(hasattr(a, 'keys') and hasattr(b, 'keys'), label + ' is a mapping')
        h.eq(sorted(map(str, a)), sorted(map(str, b)), label + ' keys')
        return
    if a is None or b is None:
        h.check(a is None and b is None, label + ' is None')
        return
    if isinstance(a, np.ndarray):
        h.check(isinstance(b, np.ndarray), label + ' is an array')
        if a.dtype.names:
            h.eq(len(b), len(a), label + ' number of records')
            if len(a) != len(b):
                return
            h.check(a.dtype.names == b.dtype.names, label + ' fields')
            for n in a.dtype.names:
                h.eq(b[n], a[n], '%s %s' % (label, n))
            return
    elif hasattr(a, '_fields'):
        for n in a._fields:
            h.eq(getattr(b, n), getattr(a, n), '%s %s' % (label, n))
        return
    elif isinstance(a, tuple) and not (a and all(np.isscalar(x) for x in a)):
        h.eq(len(b), len(a), label + ' parts')
        for k, (x, y) in enumerate(zip(a, b)):
            same(h, x, y, '%s part %d' % (label, k))
        return
    h.eq(b, a, label)


def both(h, f, args, label):
    a1, a2 = dup(h, args), dup(h, args)
    r1, e1 = h.call(f, *a1, engine='numba')
    if e1 in ('ZeroDivisionError', 'IndexError'):
        return None
    r2, e2 = h.call(f, *a2, engine='rust')
    h.eq(e2 is None, e1 is None, '%s: %s on Numba, %s on Rust' % (label, e1, e2))
    if e1 is None and e2 is None:
        same(h, r1, r2, label)
        for k, (x, y) in enumerate(zip(a1, a2)):
            if isinstance(x, np.ndarray) and not x.dtype.names:
                h.eq(y, x, '%s argument %d afterwards' % (label, k))
        return r1, r2


def run(h, name, n, m, mod, bits=(), layout=None):
    f, _, opt = S['%s.%s' % (mod, name)]
    d = importlib.import_module('vectorbt.%s.dispatch' % mod)
    g = G(h, n, m, dict(bits=bits, layout=layout))
    args = f(g)
    if 'cache' in opt:
        ca, aa, _ = args
        cache = getattr(d, opt['cache'])
        cd = both(h, cache, ca, opt['cache'])
        if cd is None:
            return
        outs = []
        for eng in ('numba', 'rust'):
            c = cache(*dup(h, ca), engine=eng)
            c = c if isinstance(c, tuple) else (c,)
            outs.append(h.call(getattr(d, name), *dup(h, aa), *c, engine=eng))
        (r1, e1), (r2, e2) = outs
        h.eq(e2 is None, e1 is None, '%s: %s on Numba, %s on Rust' % (name, e1, e2))
        if e1 is None and e2 is None:
            same(h, r1, r2, name)
        return
    both(h, getattr(d, name), args, name)


def rust_cls(name):
    return getattr(importlib.import_module('vectorbt_rust.portfolio'), name)


def as_rust(x):
    return rust_cls(type(x).__name__)(*x)


def versus(h, fa, fb, label):
    r1, e1 = h.call(fa)
    if e1 in ('ZeroDivisionError', 'IndexError'):
        return None, None
    r2, e2 = h.call(fb)
    h.eq(e2 is None, e1 is None, '%s: %s on Numba, %s on Rust' % (label, e1, e2))
    if e1 is not None and e2 is not None:
        h.check(e1 == e2, '%s: %s on Numba, %s on Rust' % (label, e1, e2))
    if e1 is None and e2 is None:
        same(h, r1, r2, label)
    return r1, r2


def one_order(h, direction, size_type, pos, lock, partial, gran, size):
    """a single order from an arbitrary account state"""
    from checks.order_common import account, order, SIZES
    from vectorbt.portfolio import dispatch as d
    st = account(h, pos, other=True)
    o = order(h, direction, size_type, lock, partial, gran, SIZES[size])
    versus(h, lambda: d.execute_order(st, o, engine='numba'), lambda: d.execute_order(as_rust(st), as_rust(o), engine='rust'), 'execute_order')


def bad_order(h, field, cash=False):
    """arguments that are not allowed: both engines refuse the same ones, with the same exception"""
    from checks.order_common import account, enums
    from vectorbt.portfolio import dispatch as d
    e = enums()
    st = account(h, None)
    v = dict(size=1.0, price=1.0, size_type=0, direction=2, fees=0.0, fixed_fees=0.0, slippage=0.0, min_size=0.0, max_size=math.inf,
             size_granularity=math.nan, reject_prob=0.0, lock_cash=False, allow_partial=True, raise_reject=False, log=False)
    if field in ('cash', 'position', 'free_cash', 'val_price', 'value'):
        st = st._replace(**{field: h.real(field, nan=True, inf=True)})
    elif field in ('size_type', 'direction'):
        v[field] = h.int(field, -1, 6)
    else:
        v[field] = h.real(field, nan=True, inf=True)
        if field == 'reject_prob':
            h.assume(not (v[field] > 0 and v[field] <= 1))
        if field == 'size_granularity':
            v['size'] = 2.0
    o = e.Order(**v)
    versus(h, lambda: d.execute_order(st, o, engine='numba'), lambda: d.execute_order(as_rust(st), as_rust(o), engine='rust'), 'execute_order')


def rejects(h, which):
    """an order that is rejected with raise_reject raises the same exception"""
    from checks.order_common import account, enums
    from vectorbt.portfolio import dispatch as d
    from vectorbt.portfolio.enums import OrderResult
    if which == 'result':
        r = OrderResult(size=math.nan, price=math.nan, fees=math.nan, side=-1, status=2, status_info=h.int('info', 0, 10))
        versus(h, lambda: d.raise_rejected_order(r, engine='numba'), lambda: d.raise_rejected_order(r, engine='rust'), 'raise_rejected_order')


def side(h, which, pos, direction, lock, pct):
    """buy and sell on an arbitrary state"""
    from checks.order_common import account, enums
    from vectorbt.portfolio import dispatch as d
    st = account(h, pos, other=True)
    es = enums().ExecuteOrderState(cash=st.cash, position=st.position, debt=st.debt, free_cash=st.free_cash)
    args = (h.real('size', gt=0), h.real('price', gt=0), direction, h.real('fees', lo=0, lt=1), h.real('fixed', lo=0), h.real('slip', lo=0, lt=1),
            h.real('mins', lo=0), h.real('maxs', gt=0, inf='+'), math.nan, lock, bool(h.bool('partial')), h.real('pct', gt=0) if pct else math.nan)
    f = getattr(d, which)
    versus(h, lambda: f(es, *args, engine='numba'), lambda: f(as_rust(es), *args, engine='rust'), which)


def helper(h, name, tol=False):
    """the tolerance helpers, with the real tolerances"""
    f = next(it for (m, n), it in CRATE.fns.items() if m == 'portfolio' and n == name[:-3])
    a, b = h.real('a', nan=True, inf=True), h.real('b', nan=True, inf=True)
    r = CRATE.compiled('portfolio', f)(a, b)
    w = HELPERS[name](a, b)
    if name == 'add_nb':
        h.eq(r, w, name)
    else:
        h.eq(bool(r), bool(w), name)


FORMS = dict(full=lambda g, f: f((g.n, g.m)), row=lambda g, f: f((1, g.m)), col=lambda g, f: f((g.n, 1)), one=lambda g, f: f((1, 1)))


def simulate(h, n, m, gl, sharing, cfg=None, sym=('size',), seq=False, close_nan=False):
    """simulate_from_orders: log and order records"""
    from vectorbt.portfolio import dispatch as d
    gl = np.array(gl)
    g = G(h, n, m, {})
    k = dict(cfg or {})
    kw = dict(size=np.full((n, m), 1.0), price=h.floats2('p', (n, m), gt=0), close=h.floats2('c', (n, m), gt=0, nan=close_nan), log=np.asarray(True))
    for nm, v in k.items():
        kw[nm] = np.asarray(v) if nm not in ('auto_call_seq', 'ffill_val_price', 'update_value', 'flex_2d') else v
    for nm in sym:
        if nm == 'size':
            kw[nm] = h.floats2('s', (n, m))
        elif nm == 'price':
            kw[nm] = h.floats2('q', (n, m), gt=0, nan=True, inf='+')
        elif nm == 'val_price':
            kw[nm] = h.floats2('v', (n, m), gt=0, nan=True, inf='+')
        elif nm in ('fees', 'slippage'):
            kw[nm] = h.floats2(nm, (1, m), lo=0, lt=1)
        elif nm in ('fixed_fees', 'min_size', 'max_size'):
            kw[nm] = h.floats2(nm, (n, 1), lo=0, **(dict() if nm != 'max_size' else {}))
        elif nm == 'size_type':
            kw[nm] = h.ints('st', (n, m), 0, 5)
        elif nm == 'direction':
            kw[nm] = h.ints('dir', (1, m), 0, 2)
        elif nm in ('lock_cash', 'allow_partial', 'log', 'raise_reject'):
            kw[nm] = h.bools(nm, (n, 1))
    cash = h.floats('cash', len(gl) if sharing else m, lo=0)
    cs = seqs(g, gl) if seq else np.concatenate([np.arange(x) for x in gl] * n).reshape(n, m)
    c1, c2 = cs.copy(), cs.copy()
    o1 = dict(kw)
    versus(h, lambda: d.simulate_from_orders((n, m), gl, cash, c1, engine='numba', max_orders=n * m, max_logs=n * m, **o1),
           lambda: d.simulate_from_orders((n, m), gl, cash, c2, engine='rust', max_orders=n * m, max_logs=n * m, **o1), 'simulate_from_orders')
    h.eq(c2, c1, 'call sequence afterwards')


DT = ('float32', 'float64', 'int64', 'int32', 'bool')
D1 = dict(
    fillna=lambda a, k: (a, 1.5), ffill=lambda a, k: (a,), fshift=lambda a, k: (a, k, math.nan), bshift=lambda a, k: (a, k, math.nan),
    nansum=lambda a, k: (a,), nanmax=lambda a, k: (a,), rolling_mean=lambda a, k: (a, abs(k) + 1, k), nancumsum=lambda a, k: (a,),
    nancnt=lambda a, k: (a,), nanmean=lambda a, k: (a,), rolling_max=lambda a, k: (a, 2, k))


def kinds(h, name, engine):
    """dtypes and parameters the Rust engine does not take: refused with engine='rust', computed by Numba with 'auto'"""
    from vectorbt.generic import dispatch as d
    dt = h.choice('dtype', list(DT))
    if dt == 'float64':
        a = h.floats2('a', (3, 1), nan=True)
    else:
        a = h.ints('a', (3, 1), 0, 1 if dt == 'bool' else 2).astype(dt)
    k = h.int('k', -2, 3)
    args = D1[name](a, k)
    f = getattr(d, name)
    r1, e1 = h.call(f, *dup(h, args), engine='numba')
    if engine == 'settings':
        old, h.vbt.settings['engine'] = h.vbt.settings['engine'], 'rust'
        try:
            r2, e2 = h.call(f, *dup(h, args))
        finally:
            h.vbt.settings['engine'] = old
    else:
        r2, e2 = h.call(f, *dup(h, args), engine=engine)
    if e2 is not None and e1 is None:
        h.check(engine != 'auto' and e2 == 'ValueError', '%s with engine=%r: %s' % (name, engine, e2))
    elif e1 is None:
        h.eq(np.asarray(r2).shape, np.asarray(r1).shape, name + ' shape')
        for x, y in zip(np.asarray(r2).reshape(-1), np.asarray(r1).reshape(-1)):
            h.eq(x, y, name)


def dispatched(h, installed):
    """engine resolution"""
    from vectorbt import _engine as e
    sup = h.choice('supported', [True, False])
    arg, st = h.choice('engine', [None, 'auto', 'numba', 'rust', 'gpu']), h.choice('settings', ['auto', 'numba', 'rust', 'gpu'])
    old, h.vbt.settings['engine'] = h.vbt.settings['engine'], st
    was, e._rust_status = e._rust_status, installed
    try:
        r, x = h.call(e.resolve_engine, arg, e.RustSupport(sup, 'no'))
        rr, _ = h.call(e.resolve_random_engine, arg)
    finally:
        h.vbt.settings['engine'] = old
        e._rust_status = was
    eng = st if arg is None else arg
    want = {'numba': ('numba', None), 'gpu': (None, 'ValueError'), 'auto': ('rust' if sup and installed else 'numba', None),
            'rust': (None, 'ImportError') if not installed else (None, 'ValueError') if not sup else ('rust', None)}[eng]
    h.check((r, x) == want, 'resolve_engine(%r) with settings %r: %r, %r' % (arg, st, r, x))
    h.check(rr == ('numba' if arg in (None, 'auto') else arg), 'resolve_random_engine')


def order_tasks(tier):
    from checks.order_common import grid
    out = grid('one_order', tier, size_types=(0,) if tier == 'quick' else (0, 2))
    out += [t for t in grid('one_order', tier, size_types=(1, 2, 3, 4, 5) if tier == 'quick' else (1, 3, 4, 5), sizes=('fin',), partials=(True,), locks=(False,) if tier == 'quick' else (False, True))]
    out += grid('one_order', tier, sizes=('fin',), grans=(0.5,), size_types=(0,), partials=(True,), locks=(False,))[-3 if tier == 'quick' else 0:]
    for f in ('cash', 'position', 'free_cash', 'val_price', 'value', 'size', 'price', 'size_type', 'direction', 'fees', 'fixed_fees', 'slippage', 'min_size',
              'max_size', 'size_granularity', 'reject_prob'):
        out.append(dict(fn='bad_order', cfg=dict(field=f)))
    out.append(dict(fn='rejects', cfg=dict(which='result')))
    for w in ('buy', 'sell'):
        for pos in ('long', 'short', None):
            for dr in range(3):
                if (dr == 0 and pos == 'short') or (dr == 1 and pos == 'long'):
                    continue
                for lock in (False, True):
                    for pct in (False, True):
                        if tier == 'quick' and lock and pct and pos == 'short':
                            continue
                        out.append(dict(fn='side', cfg=dict(which=w, pos=pos, direction=dr, lock=lock, pct=pct)))
    for nm in ('is_close_nb', 'is_close_or_less_nb', 'is_less_nb', 'add_nb', 'is_addition_zero_nb'):
        out.append(dict(fn='helper', cfg=dict(name=nm)))
    return out


SIGS = ('entries', 'exits', 'long_entries', 'long_exits', 'short_entries', 'short_exits')


def signals(h, n, m, gl, sharing, cfg=None, sym=('entries', 'exits'), seq=False, close_nan=False):
    """simulate_from_signals: log and order records"""
    from vectorbt.portfolio import dispatch as d
    gl = np.array(gl)
    g = G(h, n, m, {})
    c = h.floats2('c', (n, m), gt=0, nan=close_nan)
    kw = dict(size=np.asarray(1.0), price=c, close=c, log=np.asarray(True), use_stops=False)
    for nm, v in (cfg or {}).items():
        kw[nm] = np.asarray(v) if nm not in ('auto_call_seq', 'ffill_val_price', 'update_value', 'flex_2d', 'use_stops') else v
    for nm in sym:
        if nm in SIGS:
            kw[nm] = h.masks(nm, (n, m))
        elif nm == 'size':
            kw[nm] = h.floats2('s', (n, m), lo=0, nan=True, inf='+')
        elif nm == 'price':
            kw[nm] = h.floats2('q', (n, m), gt=0, nan=True, inf='+')
        elif nm in ('sl_stop', 'tp_stop'):
            kw[nm] = h.floats2(nm, (n, m), gt=0, lt=1, nan=True)
        elif nm == 'ohlc':
            kw['open'], kw['high'], kw['low'] = (h.floats2(k, (n, m), gt=0) for k in ('o', 'hi', 'lo'))
            for i in range(n):
                for j in range(m):
                    for x in (kw['open'], c):
                        h.assume(kw['low'][i, j] <= x[i, j])
                        h.assume(x[i, j] <= kw['high'][i, j])
        elif nm in ('fees', 'slippage'):
            kw[nm] = h.floats2(nm, (1, m), lo=0, lt=1)
        elif nm == 'fixed_fees':
            kw[nm] = h.floats2(nm, (1, m), lo=0)
        else:
            hi = dict(accumulate=3, upon_long_conflict=4, upon_short_conflict=4, upon_dir_conflict=5, upon_opposite_entry=4, size_type=2, direction=2,
                      stop_entry_price=3, stop_exit_price=3, upon_stop_exit=3, upon_stop_update=2)[nm]
            kw[nm] = h.ints(nm, (1, m), 0, hi)
    cash = h.floats('cash', len(gl) if sharing else m, lo=0)
    cs = seqs(g, gl) if seq else np.concatenate([np.arange(x) for x in gl] * n).reshape(n, m)
    c1, c2 = cs.copy(), cs.copy()
    versus(h, lambda: d.simulate_from_signals((n, m), gl, cash, c1, engine='numba', max_orders=n * m, max_logs=n * m, **kw),
           lambda: d.simulate_from_signals((n, m), gl, cash, c2, engine='rust', max_orders=n * m, max_logs=n * m, **kw), 'simulate_from_signals')
    h.eq(c2, c1, 'call sequence afterwards')


def sim_tasks(tier):
    out = []
    q = tier == 'quick'

    def t(fn='simulate', w=3, **c):
        out.append(dict(fn=fn, cfg=c, weight=w))
    one = dict(n=2, m=1, gl=[1], sharing=False)
    two = dict(n=1, m=2, gl=[2], sharing=True)
    t(**one)
    t(sym=('size', 'price'), close_nan=True, **one)
    for nm in ('val_price', 'fees', 'slippage', 'fixed_fees', 'min_size', 'max_size', 'lock_cash', 'allow_partial', 'log', 'raise_reject', 'direction', 'size_type'):
        t(sym=('size', nm), w=6, **dict(one, n=1 if nm in ('size_type',) and q else 2))
    for k in (dict(ffill_val_price=False), dict(update_value=True), dict(direction=1), dict(direction=0), dict(size_type=1), dict(size_type=2), dict(size_type=3),
              dict(size_type=4), dict(size_type=5), dict(lock_cash=True)):
        t(cfg=k, close_nan='ffill_val_price' in k, **one)
        t(cfg=k, close_nan='ffill_val_price' in k, **two)
        t(cfg=dict(k, auto_call_seq=True), w=6, **two)
    t(seq=True, **two)
    if not q:
        t(seq=True, w=60, **dict(two, n=2))
    t(n=1 if q else 2, m=2, gl=[1, 1], sharing=False)
    t(n=1, m=3, gl=[2, 1], sharing=True, seq=True)
    t(n=1, m=3, gl=[1, 2], sharing=True, cfg=dict(auto_call_seq=True, size_type=5))
    t(n=1, m=2, gl=[1, 1], sharing=True, cfg=dict(auto_call_seq=True))
    S2 = dict(fn='signals')
    t(**S2, **one)
    t(**S2, **dict(one, n=3))
    t(**S2, **dict(one, n=3), cfg=dict(direction=2))
    for a in range(4):
        for dr in range(3):
            t(**S2, **one, cfg=dict(accumulate=a, direction=dr))
    t(**S2, **one, sym=SIGS[2:])
    t(**S2, **one, sym=SIGS[2:], cfg=dict(accumulate=1))
    for nm in ('accumulate', 'upon_long_conflict', 'upon_short_conflict', 'upon_dir_conflict', 'upon_opposite_entry'):
        t(**S2, **one, w=8, sym=SIGS[2:] + (nm,))
    for nm in ('size', 'price', 'fees', 'slippage', 'fixed_fees'):
        t(**S2, **one, sym=('entries', 'exits', nm), cfg=dict(direction=2))
    for z in (1, 2):
        t(**S2, **one, cfg=dict(size_type=z, size=0.5))
    t(**S2, **two)
    t(**S2, **dict(two, n=1 if q else 2), cfg=dict(direction=2))
    t(**S2, **dict(two, n=2), sym=('entries',), w=9)
    if not q:
        t(**S2, **dict(two, n=2), w=50, cfg=dict(direction=2), seq=True)
    t(**S2, **dict(two, n=1 if q else 2), cfg=dict(direction=2, auto_call_seq=True))
    t(**S2, **dict(two, n=2), sym=('entries',), cfg=dict(auto_call_seq=True, direction=2), w=9)
    t(**S2, **dict(two, n=1), sym=SIGS[2:], cfg=dict(auto_call_seq=True))
    t(**S2, n=1 if q else 2, m=2, gl=[1, 1], sharing=False, cfg=dict(direction=2))
    t(**S2, n=1, m=3, gl=[2, 1], sharing=True, cfg=dict(direction=2), seq=True)
    for st in (('sl_stop',), ('tp_stop',), ('sl_stop', 'tp_stop')):
        for tr in (False, True) if 'sl_stop' in st else (False,):
            t(**S2, **one, w=8, sym=('entries', 'exits') + st, cfg=dict(use_stops=True, sl_trail=tr, direction=2))
            t(**S2, **one, w=8, sym=('entries', 'ohlc') + st, cfg=dict(use_stops=True, sl_trail=tr, direction=2))
    for nm in ('stop_entry_price', 'stop_exit_price', 'upon_stop_exit', 'upon_stop_update'):
        t(**S2, **one, w=9, sym=('entries', 'ohlc', 'sl_stop', nm), cfg=dict(use_stops=True, accumulate=int(nm == 'upon_stop_update')))
        t(**S2, **one, w=9, sym=('entries', 'ohlc', 'tp_stop', nm), cfg=dict(use_stops=True, accumulate=int(nm == 'upon_stop_update')))
    t(**S2, **dict(two, n=2), w=9, sym=('entries', 'sl_stop') if q else ('entries', 'exits', 'sl_stop'), cfg=dict(use_stops=True))
    return out


def tasks(tier):
    out = []
    for k, (f, sizes, opt) in S.items():
        mod, name = k.split('.')
        for n, m in sizes:
            if tier == 'quick' and opt.get('quick') and (n, m) not in opt['quick']:
                continue
            for bits in itertools.product((0, 1), repeat=opt.get('bits', 0)):
                out.append(dict(fn='run', cfg=dict(mod=mod, name=name, n=n, m=m, bits=list(bits)), weight=opt.get('weight', 1)))
        if mod in ('records', 'portfolio') or opt.get('bits') or opt.get('weight'):
            continue
        n, m = next((x for x in sizes if x[1] > 1), sizes[0])
        for layout in ('strided',) if m == 1 else ('fortran',) if tier == 'quick' else ('fortran', 'strided'):
            out.append(dict(fn='run', cfg=dict(mod=mod, name=name, n=n, m=m, layout=layout)))
    for nm in D1:
        for eng in ('auto', 'rust', 'settings'):
            if eng != 'settings' or nm == 'fshift':
                out.append(dict(fn='kinds', cfg=dict(name=nm, engine=eng)))
    for inst in (False, True):
        out.append(dict(fn='dispatched', cfg=dict(installed=inst)))
    return out + order_tasks(tier) + sim_tasks(tier)
