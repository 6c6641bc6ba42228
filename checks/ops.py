"""Table of operations on frames, shared by C13 (no look-ahead) and C17 (columns independent).

An entry: name -> (inputs, function(h, *frames) -> list of columns, causal, path-heavy).
Inputs: x floats with NaN, f floats without NaN, p positive floats, r returns > -1, m masks."""
import numpy as np
import pandas as pd

OPS = {}


class Rec(list):
    """already one list per column"""


def cols(res, k, n):
    """result -> one list per column"""
    if isinstance(res, Rec):
        return list(res)
    if isinstance(res, (tuple, list)):
        out = [[] for _ in range(k)]
        for r in res:
            for c, v in enumerate(cols(r, k, n)):
                out[c] += v
        return out
    if hasattr(res, 'to_numpy'):
        a = res.to_numpy()
        if isinstance(res, pd.Series):
            if k == 1 and len(a) == n and not getattr(res, '_reduced', False):
                return [list(a)]
            assert len(a) == k, 'reduced to %d values for %d columns' % (len(a), k)
            return [[v] for v in a]
        assert a.shape[1] == k, '%d columns from %d' % (a.shape[1], k)
        return [[a[i, c] for i in range(a.shape[0])] for c in range(k)]
    return [[res]]


def op(name, ins, fn, causal=True, heavy=0, n=3):
    OPS[name] = (ins, fn, causal, heavy, n)


def rec(ranges, fields):
    """records of a ranges/drawdowns object, per column"""
    a = ranges.records_arr
    k = ranges.wrapper.shape_2d[1]
    out = [[] for _ in range(k)]
    for i in range(len(a)):
        out[int(a['col'][i])] += [a[f][i] for f in fields]
    return Rec(out)


def acc(name, *a, **k):
    return lambda h, x: getattr(x.vbt, name)(*a, **k)


def sig(name, *a, **k):
    return lambda h, x: getattr(x.vbt.signals, name)(*a, **k)


def ind(name, outs, *a, **k):
    def f(h, *x):
        r = getattr(h.vbt, name).run(*x, *a, **k)
        return [getattr(r, o) for o in outs]
    return f


def ret(name, *a, **k):
    def f(h, x, *b):
        kw = dict(freq='1D', year_freq='365D')
        if b:
            kw['benchmark_rets'] = b[0]
        return getattr(x.vbt.returns(**kw), name)(*a, **k)
    return f


for k in (1, 2):
    op('fshift%d' % k, 'x', acc('fshift', k))
    op('diff%d' % k, 'x', acc('diff', k))
    op('pct_change%d' % k, 'x', acc('pct_change', k))
op('bshift', 'x', acc('bshift', 1), causal=False)
op('fillna', 'x', acc('fillna', 0.0))
op('ffill', 'x', acc('ffill'))
op('bfill', 'x', acc('bfill'), causal=False)
op('cumsum', 'x', acc('cumsum'))
op('cumprod', 'x', acc('cumprod'))
for nm in ('min', 'max', 'mean', 'std'):
    kw = dict(ddof=0) if nm == 'std' else {}
    op('rolling_' + nm, 'x', acc('rolling_' + nm, 2, minp=1, **kw))
    op('rolling_%s_full' % nm, 'f', acc('rolling_' + nm, 2, **kw))
    op('expanding_' + nm, 'x', acc('expanding_' + nm, minp=1, **kw))
op('ewm_mean', 'x', acc('ewm_mean', 2, minp=1))
op('ewm_std', 'x', acc('ewm_std', 2, minp=1))
op('ewm_mean_adj', 'f', acc('ewm_mean', 2, adjust=True))
op('ewm_std_adj', 'f', acc('ewm_std', 3, adjust=True))
for nm in ('min', 'max', 'mean', 'median', 'std', 'sum', 'count', 'product', 'idxmin', 'idxmax'):
    op('reduce_' + nm, 'x', acc(nm), causal=False)
op('rebase', 'p', acc('rebase', 10.0), causal=False)
op('drawdown', 'p', acc('drawdown'))
op('crossed_above', 'xx', lambda h, x, y: x.vbt.crossed_above(y), heavy=1)
op('crossed_below', 'xx', lambda h, x, y: x.vbt.crossed_below(y), heavy=1)
op('crossed_above_wait', 'ff', lambda h, x, y: x.vbt.crossed_above(y, wait=1), n=4, heavy=1)
op('to_returns', 'p', acc('to_returns'))
op('drawdowns', 'p', lambda h, x: rec(x.vbt.drawdowns, ['peak_idx', 'start_idx', 'valley_idx', 'end_idx', 'peak_val', 'valley_val', 'end_val', 'status']), causal=False)
op('ranges', 'x', lambda h, x: rec(x.vbt.ranges, ['start_idx', 'end_idx', 'status']), causal=False)
op('drawdowns_max', 'p', lambda h, x: x.vbt.drawdowns.max_drawdown(), causal=False)
op('ranges_coverage', 'x', lambda h, x: x.vbt.ranges.coverage(), causal=False)
op('ranges_mask', 'x', lambda h, x: x.vbt.ranges.to_mask(), causal=False)

# user functions
op('applymap', 'x', lambda h, x: x.vbt.applymap(h.njit(lambda i, c, v: v + 1)))
op('rolling_apply', 'f', lambda h, x: x.vbt.rolling_apply(2, h.njit(lambda i, c, a: a[0] + 2 * a[-1])))
op('expanding_apply', 'f', lambda h, x: x.vbt.expanding_apply(h.njit(lambda i, c, a: a[0] + 2 * a[-1])))
op('reduce_apply', 'f', lambda h, x: x.vbt.reduce(h.njit(lambda c, a: a[0] + 2 * a[-1])), causal=False)
op('filter', 'f', lambda h, x: x.vbt.filter(h.njit(lambda i, c, v: v > 0)))

# returns
op('ret_cumulative', 'r', ret('cumulative', start_value=1))
op('ret_total', 'r', ret('total'), causal=False)
op('ret_drawdown', 'r', ret('drawdown'))
op('ret_max_drawdown', 'r', ret('max_drawdown'), causal=False)
for nm in ('annualized_volatility', 'sharpe_ratio', 'sortino_ratio', 'omega_ratio', 'downside_risk', 'value_at_risk'):
    if nm == 'value_at_risk':
        op('ret_' + nm, 'r', ret(nm, cutoff=0.5), causal=False)
        op('ret_rolling_' + nm, 'r', ret('rolling_' + nm, 2, minp=2, cutoff=0.5))
    else:
        op('ret_' + nm, 'r', ret(nm), causal=False, heavy=nm == 'omega_ratio')
        op('ret_rolling_' + nm, 'r', ret('rolling_' + nm, 2, minp=2), heavy=nm == 'omega_ratio')
op('ret_rolling_total', 'r', ret('rolling_total', 2, minp=2))
op('ret_rolling_max_drawdown', 'r', ret('rolling_max_drawdown', 2, minp=2))
op('ret_beta', 'rr', ret('beta'), causal=False)
op('ret_rolling_beta', 'rr', ret('rolling_beta', 2, minp=2))
op('ret_information_ratio', 'rr', ret('information_ratio'), causal=False)
op('ret_rolling_information_ratio', 'rr', ret('rolling_information_ratio', 2, minp=2))

# signals
for nm, a in (('first', ()), ('nth', (1,)), ('from_nth', (1,))):
    op('sig_' + nm, 'm', sig(nm, *a), n=4)
op('sig_pos_rank', 'm', sig('pos_rank'), n=4)
op('sig_pos_rank_gaps', 'm', sig('pos_rank', allow_gaps=True), n=4)
op('sig_partition_pos_rank', 'm', sig('partition_pos_rank'), n=4)
op('sig_pos_rank_reset', 'mm', lambda h, x, y: x.vbt.signals.pos_rank(reset_by=y, allow_gaps=True), heavy=1)
op('sig_partition_pos_rank_reset', 'mm', lambda h, x, y: x.vbt.signals.partition_pos_rank(reset_by=y), heavy=1)
op('sig_clean', 'mm', lambda h, x, y: x.vbt.signals.clean(y), heavy=1)
op('sig_clean_any', 'mm', lambda h, x, y: x.vbt.signals.clean(y, entry_first=False), heavy=1)
op('sig_fshift', 'm', sig('fshift', 1))
op('sig_bshift', 'm', sig('bshift', 1), causal=False)
op('sig_nth_index', 'm', sig('nth_index', 0), causal=False)
op('sig_nth_index_last', 'm', sig('nth_index', -1), causal=False)
op('sig_norm_avg_index', 'm', sig('norm_avg_index'), causal=False)
op('sig_total', 'm', sig('total'), causal=False)
op('sig_partitions', 'm', sig('total_partitions'), causal=False)
op('sig_between_ranges', 'm', lambda h, x: rec(x.vbt.signals.between_ranges(), ['start_idx', 'end_idx', 'status']), causal=False)
op('sig_between_ranges_other', 'mm', lambda h, x, y: rec(x.vbt.signals.between_ranges(other=y), ['start_idx', 'end_idx', 'status']), causal=False, heavy=1)
op('sig_partition_ranges', 'm', lambda h, x: rec(x.vbt.signals.partition_ranges(), ['start_idx', 'end_idx', 'status']), causal=False)
op('sig_between_partition_ranges', 'm', lambda h, x: rec(x.vbt.signals.between_partition_ranges(), ['start_idx', 'end_idx', 'status']), causal=False)
op('sig_stop_exits', 'mp', lambda h, x, y: x.vbt.signals.generate_stop_exits(y, -0.1), heavy=1)
op('sig_trail_exits', 'mp', lambda h, x, y: x.vbt.signals.generate_stop_exits(y, -0.1, trailing=True), heavy=1)
op('sig_tp_exits', 'mp', lambda h, x, y: x.vbt.signals.generate_stop_exits(y, 0.1), heavy=1)
op('sig_ohlc_exits', 'mp', lambda h, x, y: x.vbt.signals.generate_ohlc_stop_exits(y, sl_stop=0.1, tp_stop=0.1), heavy=1)

# indicators
op('MA', 'x', ind('MA', ['ma'], 2))
op('MA_ewm', 'f', ind('MA', ['ma'], 2, ewm=True))
op('MSTD', 'f', ind('MSTD', ['mstd'], 2))
op('BBANDS', 'f', ind('BBANDS', ['upper', 'middle', 'lower'], 2, alpha=2))
op('RSI', 'p', ind('RSI', ['rsi'], 2))
op('STOCH', 'ppp', ind('STOCH', ['percent_k', 'percent_d'], k_window=2, d_window=1), heavy=2)
op('MACD', 'f', ind('MACD', ['macd', 'signal'], fast_window=1, slow_window=2, signal_window=2))
op('ATR', 'ppp', ind('ATR', ['tr', 'atr'], 1, ewm=False), heavy=1)
op('OBV', 'pf', ind('OBV', ['obv']), heavy=1)

# labels
op('FMEAN', 'f', ind('FMEAN', ['fmean'], 2), causal=False)
op('FMIN', 'f', ind('FMIN', ['fmin'], 2), causal=False)
op('FMAX', 'f', ind('FMAX', ['fmax'], 2), causal=False)
op('FIXLB', 'p', ind('FIXLB', ['labels'], 1), causal=False)
op('MEANLB', 'p', ind('MEANLB', ['labels'], 2), causal=False)
op('LEXLB', 'p', ind('LEXLB', ['labels'], 0.2, 0.1), causal=False)
op('TRENDLB', 'p', ind('TRENDLB', ['labels'], 0.2, 0.1, 0), causal=False)
op('BOLB', 'p', ind('BOLB', ['labels'], 2, 0.2, 0.1), causal=False)


def mk(h, kind, name, shape):
    if kind == 'm':
        return h.masks(name, shape)
    kw = dict(x=dict(nan=True), f={}, p=dict(gt=0), r=dict(gt=-1))[kind]
    return h.floats2(name, shape, **kw)
