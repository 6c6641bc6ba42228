"""Source of /verif/properties.jsonl (python tools/props.py rewrites it)."""
import json
import os

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


NB = 'vectorbt/portfolio/nb.py'
p('C01', 'A filled order moves cash, position and fees exactly by what it reports',
  'Whenever an order is filled, the position changes by exactly the filled size (bought: up, sold: down), cash changes by exactly '
  'minus/plus size times fill price minus the reported fees, fees equal size*price*fees+fixed_fees, and the fill price is the '
  'requested price moved against the trader by the slippage; debt and free cash stay consistent with this '
  '(free cash = cash minus twice the debt, debt tracks the entry value of the short position and is zero without one). '
  'An ignored or rejected order leaves cash, position, debt and free cash untouched.',
  ['inputs', 'histories'], 'for every account state reachable by any order history and every order (size, type, direction, price, '
  'fees, slippage, limits, flags)',
  'Tests execute a few dozen hand-picked orders; the conservation law must hold for every real-valued state and order, on each '
  'branch of the fill logic (partial fills, covering a short, crossing zero, percentage sizes).',
  [NB, 'vectorbt/portfolio/enums.py'],
  [('buy/sell execution', 'execute_order_nb, buy_nb, sell_nb'), ('order processing', 'process_order_nb')],
  ['vectorbt.portfolio.nb.execute_order_nb', 'vectorbt.portfolio.nb.process_order_nb', 'Portfolio.from_orders().orders'],
  [dict(name='account state', meaning='cash, position, debt, free cash', where='ProcessOrderState / ExecuteOrderState')])
p('C02', 'Order limits and solvency are never violated',
  'Cash never becomes negative by executing an order; long-only orders never make the position negative and short-only orders '
  'never make it positive; a filled size is positive, never below the minimum size, never above the maximum size, never above the '
  'requested size, is a multiple of the size granularity where one is set, and equals the request when partial fills are '
  'disallowed. With locked cash, free cash never becomes negative. If the request is affordable and within limits it is '
  'filled in full, otherwise it is filled up to the binding limit or rejected with the matching reason.',
  ['inputs', 'histories'], 'for every non-negative-cash account state and every valid order',
  'Limits bind on thin boundaries (exactly affordable sizes, fees that eat the cash, covering shorts with locked cash) that '
  'sampled tests miss.',
  [NB], [('cash limit / partial fill logic', 'buy_nb, sell_nb'), ('validation', 'execute_order_nb')],
  ['vectorbt.portfolio.nb.execute_order_nb'])
p('C03', 'Size types resolve to the documented requested amount',
  'Amount, value, percent and target sizes are interpreted as documented: value divides by the valuation price, percent uses '
  'the given fraction of available resources, target amount/value/percent order the difference between the target and the '
  'current position, a negative size is the opposite side, an infinite size means all available resources, and a NaN size or '
  'price places no order. Two orders whose documented requested amounts are equal have identical outcomes.',
  ['inputs'], 'for every account state, size, size type and direction', 'Six size types times three directions times real '
  'values of position, value and price; tests fix small tables.',
  [NB], [('size type resolution', 'execute_order_nb')], ['vectorbt.portfolio.nb.execute_order_nb', 'Portfolio.from_orders'])
p('C04', 'Portfolio.from_orders is the sequential fold of its order arrays',
  'Simulating from arrays equals processing, row by row and in call-sequence order within each group, one order per cell built '
  'from the broadcast inputs: starting from the initial cash, with the close (or, for the valuation, the previous close or '
  'order price as configured) substituted for infinite prices, and with cash shared inside a group if requested. Filled orders '
  'appear exactly once in the order records, with their row, column, size, price, fees and side, in column-then-time order.',
  ['inputs', 'configurations', 'histories'], 'for every order array, price, fee, limit, grouping, cash-sharing and call-sequence '
  'setting',
  'Tests compare a few fixed price series; the fold must hold for every array content and setting combination.',
  [NB, 'vectorbt/portfolio/base.py', 'vectorbt/portfolio/dispatch.py'],
  [('simulation loop', 'simulate_from_orders_nb'), ('broadcast + dispatch', 'Portfolio.from_orders'),
   ('valuation', 'update_value_nb, approx_order_value_nb')],
  ['Portfolio.from_orders', 'Portfolio.order_records'])
p('C05', 'Signals are turned into orders by the documented conflict rules',
  'For every combination of entry/exit flags (long and short), current position and conflict settings (accumulation, entry/exit '
  'conflict, direction conflict, opposite entry), simulating from signals places exactly the order the documentation '
  'prescribes: the same direction is entered once unless accumulating, conflicts are resolved as configured, exits close at '
  'most the open position, and no position is reversed unless the settings say so.',
  ['inputs', 'configurations', 'histories'], 'for every signal combination, position and conflict-mode setting over every bar',
  'The decision table has thousands of cells times real-valued sizes; tests cover a handful.',
  [NB, 'vectorbt/portfolio/base.py'],
  [('conflict resolution', 'resolve_signal_conflict_nb, resolve_dir_conflict_nb, resolve_opposite_entry_nb'),
   ('size resolution', 'signals_to_size_nb'), ('loop', 'simulate_from_signals_nb')],
  ['Portfolio.from_signals', 'vectorbt.portfolio.nb'])
p('C06', 'Stop-loss, trailing-stop and take-profit exits fire when and where documented',
  'While a position with a stop is open, the stop fires on the first later bar whose range reaches the stop level and on no '
  'earlier bar; the level is the entry price (or, trailing, the best price since entry) moved by the stop fraction; the fill '
  'price follows the stop-exit-price setting (a gap through the level fills at the open), and a stop loss takes precedence over '
  'a take profit on the same bar. The stop is updated, kept or removed when a further signal executes exactly as the '
  'stop-update setting says.',
  ['inputs', 'histories', 'configurations'], 'for every OHLC path, stop fraction, direction and stop setting',
  'Stop triggering depends on real-valued inequality patterns between four prices and a moving level over time.',
  [NB], [('stop price / signal', 'get_stop_price_nb, generate_stop_signal_nb, should_update_stop_nb, simulate_from_signals_nb')],
  ['Portfolio.from_signals'])
p('C07', 'All simulation engines agree on the same order stream',
  'The order stream produced by from_orders, by an order function (column-wise, row-wise, and both flexible variants) issuing '
  'the same orders, and by from_signals versus its signal-function variant for the same signals, leads to the same order '
  'records and the same final cash, position and log content. Row-wise and column-wise processing differ only in the order in '
  'which independent groups are visited.',
  ['inputs', 'configurations', 'histories'], 'for every array of orders or signals within the bounds and every grouping/cash-sharing mode',
  'The engines are separate ~700-line copies of the same loop; tests compare them on few fixed inputs.',
  [NB], [('engines', 'simulate_nb, simulate_row_wise_nb, flex_simulate_nb, flex_simulate_row_wise_nb, simulate_from_orders_nb, '
          'simulate_from_signals_nb, simulate_from_signal_func_nb')],
  ['Portfolio.from_orders', 'Portfolio.from_order_func', 'Portfolio.from_signals'])
p('C08', 'Portfolio series reconstruct the simulated account from its order records',
  'Asset flow, assets, cash flow, cash, asset value, total value, gross/net exposure, returns, total profit and total return '
  'derived from the order records and prices equal what replaying those orders from the initial cash gives, per column, per group '
  'and with shared cash; value equals cash plus the value of assets at every row and total profit equals final value '
  'minus initial cash (deposits included).',
  ['inputs', 'configurations'], 'for every valid order history, price series, grouping and cash-sharing setting',
  'Reconstruction is a second implementation of the account; the two must agree for every history, not the fixture.',
  [NB, 'vectorbt/portfolio/base.py'],
  [('reconstruction', 'asset_flow_nb, assets_nb, cash_flow_nb, cash_nb, asset_value_nb, value_nb, total_profit_nb, returns_nb')],
  ['Portfolio.assets()', 'Portfolio.cash()', 'Portfolio.value()', 'Portfolio.returns()', 'Portfolio.total_profit()'])
p('C09', 'Trades and positions account for every filled order exactly once',
  'Entry trades, exit trades and positions built from order records partition the filled size: entry sizes equal exit sizes '
  'over each position, fees are split in proportion and sum to the fees of the orders, trade PnL sums to the PnL of the orders '
  '(open ones valued at the last close), and return equals PnL over entry cost; entry/exit price are size-weighted averages, '
  'direction, status and indices match the position they belong to, and a reversing order closes one position and opens the '
  'next.',
  ['inputs', 'histories'], 'for every sequence of buys and sells (sizes, prices, fees) and price series',
  'Splitting, averaging and reversal interact over whole order histories; tests fix a dozen histories.',
  [NB, 'vectorbt/portfolio/trades.py'],
  [('trade builders', 'get_entry_trades_nb, get_exit_trades_nb, get_positions_nb'),
   ('incremental position records', 'update_pos_record_nb')],
  ['Portfolio.entry_trades', 'Portfolio.exit_trades', 'Portfolio.positions'])
p('C10', 'Log records faithfully describe every processed order',
  'With logging on, every order request yields exactly one log record holding the request as issued, the account state before '
  'and after, the result, and a reference to its order record if and only if it was filled; without logging there is none. '
  'States chain: within a column the state before an order equals the state after the previous one that touched the account.',
  ['inputs', 'histories'], 'for every order stream', 'Logs are derived in the same step as the orders; tests look at one fixture.',
  [NB, 'vectorbt/portfolio/logs.py'], [('log filling', 'fill_log_record_nb, process_order_nb')],
  ['Portfolio.logs'])
p('C11', 'Return metrics equal their definitions',
  'Returns, cumulative and total returns, drawdown series, annualized return/volatility, Sharpe, Sortino, Calmar, Omega, '
  'information ratio, beta, alpha, tail ratio, value at risk, conditional value at risk and capture ratios equal their textbook definition on '
  'the column\'s returns (NaN skipped where documented), including the documented results for degenerate input; a chain of '
  'period returns compounds back to the value series it came from.',
  ['inputs', 'configurations'], 'for every return series, benchmark, annualization factor and parameter',
  'Tests compare with another library on one random series; zero denominators, NaN and sign corner cases need all inputs.',
  ['vectorbt/returns/nb.py', 'vectorbt/returns/accessors.py', 'vectorbt/returns/dispatch.py'],
  [('metric kernels', 'vectorbt/returns/nb.py'), ('accessor', 'ReturnsAccessor')], ['pd.Series.vbt.returns'])
p('C12', 'A rolling return metric is the metric of its window',
  'Every rolling variant of a return metric at row i equals the plain metric applied to the last window rows up to i (of both '
  'the returns and the benchmark), and is NaN exactly where fewer than the minimum number of observations are available.',
  ['inputs', 'configurations'], 'for every series, window and minimum-periods setting', 'Off-by-one windows and misaligned '
  'benchmarks survive single-fixture tests.', ['vectorbt/returns/nb.py', 'vectorbt/generic/nb.py'],
  [('rolling apply', 'rolling_*_nb, rolling_apply_nb')], ['pd.Series.vbt.returns.rolling_*'])
p('C13', 'No output before a row depends on data after it',
  'Causal computations never look ahead: changing prices, orders, signals or any other input from row t on leaves all results before row t '
  'unchanged, for simulations (orders, cash, value, logs), indicators, rolling/expanding/ewm statistics, forward-fill and shifts, '
  'crossovers, drawdown and cumulative series.',
  ['inputs', 'histories'], 'for every input series, every cut row and every replacement of the future',
  'Look-ahead only shows when the future is varied against a fixed past; tests run each input once.',
  ['vectorbt/generic/nb.py', 'vectorbt/indicators/nb.py', NB, 'vectorbt/signals/nb.py', 'vectorbt/returns/nb.py'],
  [('causal kernels', 'all forward loops')], ['vbt accessors', 'indicator run()', 'Portfolio.from_orders/from_signals'])
p('C14', 'Rolling and expanding statistics equal the statistic of their window',
  'Rolling and expanding min, max, mean, standard deviation and user-function apply at row i equal the statistic of the non-NaN '
  'values in the last window rows (expanding: all rows so far), and are NaN exactly when fewer than the minimum number of '
  'non-NaN observations are in it, for any placement of NaN, window and minimum periods.',
  ['inputs', 'configurations'], 'for every series with any NaN pattern, window, minp and ddof',
  'Kernels keep incremental sums and NaN counters; a wrong update needs a particular NaN/window alignment to show.',
  ['vectorbt/generic/nb.py', 'vectorbt/generic/accessors.py', 'vectorbt/generic/dispatch.py'],
  [('rolling kernels', 'rolling_{min,max,mean,std}_1d_nb, expanding_*_1d_nb, rolling_apply_nb, expanding_apply_nb')],
  ['pd.DataFrame.vbt.rolling_*', 'pd.DataFrame.vbt.expanding_*'])
p('C15', 'Exponentially weighted mean and deviation equal their definition',
  'The exponentially weighted mean and standard deviation at each row equal the weighted definition (with and without weight adjustment, '
  'bias-corrected) over the non-NaN values seen so far with weights decaying per row, and are NaN until '
  'enough observations arrived.',
  ['inputs', 'configurations'], 'for every series with any NaN pattern, span, adjust flag and minimum periods',
  'Recursive weights with NaN gaps; tests compare with pandas on one NaN placement.',
  ['vectorbt/generic/nb.py'], [('ewm kernels', 'ewm_mean_1d_nb, ewm_std_1d_nb')], ['pd.DataFrame.vbt.ewm_mean', 'pd.DataFrame.vbt.ewm_std'])
p('C16', 'Elementwise, shifting, filling and NaN-aware reductions match their definition',
  'Shifts, differences, percentage changes, cumulative sums/products, forward/backward fill, fillna and NaN-aware reductions '
  '(sum, product, min, max, mean, median, std, count, percentiles, first/last/argmin/argmax) of time series equal their '
  'definition per column for every NaN pattern and parameter, and never read outside of the array.',
  ['inputs', 'configurations'], 'for every array content, NaN pattern, shift and percentile parameter',
  'Edge rows, NaN at the borders and parameters near the array length are sampled sparsely.',
  ['vectorbt/generic/nb.py', 'vectorbt/generic/accessors.py', 'vectorbt/generic/dispatch.py'],
  [('kernels', 'shift/diff/pct_change/fill/nan* kernels')], ['pd.DataFrame.vbt'])
p('C17', 'Columns are computed independently and keep their order',
  'Applying a time-series, signal, return or label operation to a frame gives, column by column, the result of applying it to '
  'that column alone, independent of the other columns\' values and of their number and order.',
  ['inputs'], 'for every frame content', 'State leaking from one column into the next shows only for particular value '
  'combinations in the earlier column.',
  ['vectorbt/generic/nb.py', 'vectorbt/signals/nb.py', 'vectorbt/returns/nb.py', 'vectorbt/labels/nb.py', NB],
  [('per-column loops', 'all *_nb kernels over 2-dim arrays')], ['vbt accessors', 'Portfolio'])
p('C18', 'Drawdown records describe exactly the drawdowns of the series',
  'Drawdown records list every maximal period in which the series is below its running peak, once each and in order: peak, '
  'start, valley and end rows, their values, and whether it recovered, are those of the series, and drawdown, duration, decline and '
  'recovery measures derived from them equal their definition; rows outside the records are at a running peak.',
  ['inputs'], 'for every series of prices including NaN', 'Plateaus, ties, NaN gaps and unrecovered tails need particular '
  'value orderings.', ['vectorbt/generic/nb.py', 'vectorbt/generic/drawdowns.py'],
  [('drawdown builder', 'get_drawdowns_nb'), ('measures', 'Drawdowns')], ['Drawdowns.from_ts', 'pd.Series.vbt.drawdowns'])
p('C19', 'Range records cover exactly the runs of valid values',
  'Range records built from a series list exactly the maximal runs of valid values (each run once, in order, with its first row, '
  'the row it ended on and whether it is still open); durations, coverage, overlap and mask '
  'conversions derived from range records equal counting rows directly, and converting ranges to a mask gives back the rows they cover.',
  ['inputs'], 'for every series / mask and every set of range records', 'Runs touching the borders and single-row runs are easy to '
  'get wrong and sparsely tested.', ['vectorbt/generic/nb.py', 'vectorbt/generic/ranges.py'],
  [('range kernels', 'find_ranges_nb, range_duration_nb, range_coverage_nb, ranges_to_mask_nb')],
  ['Ranges.from_ts', 'pd.DataFrame.vbt.ranges'])
p('C20', 'Crossings are reported exactly at the first bar above after being below',
  'crossed_above(a, b, wait) is true at a row exactly when a was below b and, after touching at most, is above b for the '
  'wait-th consecutive additional bar, and never twice for one crossing; crossed_below is the same with the roles exchanged, '
  'NaN breaks a crossing, and broadcasting a scalar or series as the other operand equals the full array.',
  ['inputs', 'configurations'], 'for every pair of series with ties and NaN, and every wait', 'Ties, NaN gaps and waits combine; '
  'tests use one ramp.', ['vectorbt/generic/nb.py', 'vectorbt/generic/accessors.py'],
  [('crossing automaton', 'crossed_above_1d_nb')], ['pd.Series.vbt.crossed_above', 'pd.Series.vbt.crossed_below'])
p('C21', 'Grouped, applied, reduced and flattened operations see exactly the right values',
  'Functions applied per column, per row, per group, per resampling bucket or per reduction receive exactly the values (and indices) of '
  'that unit, in order, and their results land in the cell of that unit; grouped flattening, squeezing, value counts and describe use every '
  'value of the group exactly once.',
  ['inputs', 'configurations'], 'for every array content, grouping and order flag', 'Index arithmetic over groups and orders; '
  'tests use square toy arrays.', ['vectorbt/generic/nb.py', 'vectorbt/generic/accessors.py'],
  [('apply/reduce kernels', 'apply_nb, row_apply_nb, groupby_apply_nb, applymap_nb, reduce_nb, reduce_grouped_nb, flatten_grouped_nb, squeeze_grouped_nb, value_counts_nb')],
  ['pd.DataFrame.vbt.apply/reduce/groupby_apply/...'])
p('C22', 'Selecting, sorting and aggregating records touches exactly the right records',
  'Record and mapped arrays select, by column, group or mask, exactly the records that belong there and in order; top-n/bottom-n keep the n largest/smallest per column, '
  'sorting orders by column then id/index, reductions and expansion to a time grid see each value once at its own row and '
  'column, and a column absent from the records yields the fill value.',
  ['inputs', 'configurations'], 'for every set of records, column assignment and selection', 'Column range/maps must be right for '
  'every distribution of records over columns, including empty ones.',
  ['vectorbt/records/nb.py', 'vectorbt/records/base.py', 'vectorbt/records/mapped_array.py', 'vectorbt/records/col_mapper.py'],
  [('kernels', 'col_range_nb, col_map_nb, record_col_range_select_nb, record_col_map_select_nb, top_n_mapped_nb, reduce_mapped_nb, expand_mapped_nb')],
  ['Records', 'MappedArray'])
p('C23', 'Cleaned signals strictly alternate and only drop signals',
  'Cleaning entries and exits returns subsets of the inputs in which entries and exits strictly alternate (entry first when required), rows with both signals '
  'produce none, and nothing that could still be kept is dropped: each kept signal is the first of its kind since the opposite one.',
  ['inputs'], 'for every pair of boolean arrays', 'All 4^n signal patterns matter; tests use one.',
  ['vectorbt/signals/nb.py', 'vectorbt/signals/accessors.py'], [('cleaning automaton', 'clean_enex_1d_nb')],
  ['pd.DataFrame.vbt.signals.clean'])
p('C24', 'Generated exits lie in their entry\'s window, generated pairs alternate',
  'Exits generated after entries are placed only inside the window opened by their entry (waiting as asked, up to the next entry if '
  'asked, skipping entries until the exit if asked), at exactly the positions the choice rule picks; entry/exit generation alternates '
  'entry and exit with the requested waits, and a choice outside its window is refused.',
  ['inputs', 'configurations'], 'for every entry pattern, every choice function behaviour and all wait/flag settings',
  'The user function is arbitrary; tests pass two or three.',
  ['vectorbt/signals/nb.py', 'vectorbt/signals/accessors.py', 'vectorbt/signals/factory.py'],
  [('generators', 'generate_nb, generate_ex_nb, generate_enex_nb')], ['pd.DataFrame.vbt.signals.generate*'])
p('C25', 'Signal ranges and ranks describe the signal pattern exactly',
  'Ranges between signals, between two signal arrays, partitions and between partitions list exactly the pairs and runs present in the arrays; position ranks '
  'count signals within their partition (or since the reset/with gaps) and partition ranks count partitions, unset rows rank -1; nth '
  'and average index equal their definition.',
  ['inputs', 'configurations'], 'for every pair of boolean arrays and every reset mask and flag', 'Depends on every adjacency pattern of '
  'two or three masks.', ['vectorbt/signals/nb.py', 'vectorbt/signals/accessors.py'],
  [('kernels', 'between_ranges_nb, between_two_ranges_nb, partition_ranges_nb, between_partition_ranges_nb, rank_nb, sig_pos_rank_nb, part_pos_rank_nb, nth_index_nb, norm_avg_index_nb')],
  ['pd.DataFrame.vbt.signals'])
p('C26', 'Stop-based exit signals fire at the first bar that reaches the stop',
  'Exit signals generated from stops (fixed or trailing, stop loss or take profit, on a single series or OHLC bars, long or reversed) are set at exactly the bars '
  'after entry whose price reaches the level implied by the entry price or the best price since entry, with the hit price and stop type reported for that bar; stop loss wins '
  'over take profit, and no exit is set without a reached level.',
  ['inputs', 'configurations'], 'for every entry pattern, price path (with NaN in OHLC) and stop parameters',
  'Real-valued path conditions over time; tests use two ramps.',
  ['vectorbt/signals/nb.py', 'vectorbt/signals/accessors.py', 'vectorbt/signals/generators.py'],
  [('stop choice', 'stop_choice_nb, ohlc_stop_choice_nb, generate_*stop_ex_nb, generate_*stop_enex_nb')],
  ['pd.DataFrame.vbt.signals.generate_stop_exits', 'generate_ohlc_stop_exits'])
p('C27', 'Random signals satisfy their contract for every outcome of the generator',
  'Whatever the random source returns, random entries number exactly the requested count per column, random exits lie in their '
  'entry\'s window, random entry/exit pairs alternate with the requested waits and the requested number of pairs, probability '
  'zero never and probability one always signals, and no index leaves the frame; reject probabilities of orders behave likewise.',
  ['inputs', 'fault_sequences'], 'for every value any call to the random generator may return', 'Tests fix one seed.',
  ['vectorbt/signals/nb.py', 'vectorbt/utils/array_.py', NB],
  [('random generators', 'rand_choice_nb, rand_by_prob_choice_nb, generate_rand_enex_nb, rescale_float_to_int_nb')],
  ['pd.DataFrame.vbt.signals.generate_random*'])
p('C28', 'Indicators equal their formulas, cached or not',
  'Built-in indicators (MA, MSTD, Bollinger Bands, RSI, Stochastic, MACD, ATR, OBV) equal their published formula at every row, with '
  'NaN exactly during warm-up, for every parameter combination; running many parameter combinations at once gives the '
  'same columns as running each alone, and caching or shortcut evaluation of repeated parameters does not change results.',
  ['inputs', 'configurations'], 'for every price series and parameter list', 'Tests check one price series against stored numbers.',
  ['vectorbt/indicators/nb.py', 'vectorbt/indicators/basic.py', 'vectorbt/indicators/factory.py'],
  [('kernels', 'vectorbt/indicators/nb.py'), ('parameter runner', 'run_pipeline, IndicatorFactory')],
  ['vbt.MA.run, vbt.RSI.run, ...'])
p('C29', 'Look-ahead labels equal their definitions',
  'Fixed-horizon, mean, min, max, binary trend, trend and breakout labels at each row equal their definition over the future window '
  'they name (and only that window), and are NaN exactly where the window is incomplete; local extrema alternate peak and valley with '
  'moves of at least the threshold.',
  ['inputs', 'configurations'], 'for every price series, window, wait and threshold', 'Future-window arithmetic and threshold '
  'automata depend on value order; tests use one ramp.',
  ['vectorbt/labels/nb.py', 'vectorbt/labels/generators.py', 'vectorbt/generic/nb.py'],
  [('label kernels', 'vectorbt/labels/nb.py')], ['vbt.FMEAN.run, vbt.FIXLB.run, vbt.LEXLB.run, vbt.TRENDLB.run, vbt.BOLB.run'])
p('C30', 'Broadcasting and flexible indexing agree element by element',
  'Broadcasting arrays, series, frames and scalars against each other yields operands of one shape in which every cell holds the '
  'value of the source element numpy/pandas alignment rules assign to it, with index and columns combined as configured; keeping raw inputs '
  'and selecting elements flexibly at (row, column) returns the same value as full broadcasting.',
  ['inputs', 'configurations'], 'for every combination of shapes within the bounds and all cell values', 'Shape combinations times '
  'alignment flags; tests enumerate a few.',
  ['vectorbt/base/reshape_fns.py'], [('broadcast', 'broadcast, broadcast_to, broadcast_index'), ('flex', 'flex_choose_i_and_col_nb, flex_select_nb, flex_select_auto_nb')],
  ['vbt.base.reshape_fns.broadcast', 'pd.DataFrame.vbt.broadcast'])
p('C31', 'Column grouping maps every column to exactly one group',
  'For every group assignment, group labels, group sizes, per-group column lists and column ranges agree with each other and with the assignment, '
  'every column is in exactly one group, unsorted groupings are detected, and stacking/combining/dropping index levels preserves '
  'the value of every label.',
  ['inputs', 'configurations'], 'for every assignment of columns to groups', 'All partitions matter, including non-contiguous ones.',
  ['vectorbt/base/column_grouper.py', 'vectorbt/base/index_fns.py'],
  [('grouper', 'ColumnGrouper, get_groups_and_index, get_group_lens_nb'), ('index functions', 'index_fns')],
  ['ColumnGrouper', 'vectorbt.base.index_fns'])
p('C32', 'Reshaping and combining frames preserves every element',
  'Tiling, repeating, aligning, unstacking, making symmetric, stacking and combining frames put every element where its labels say '
  'and lose or duplicate none: tile/repeat are cyclic/blockwise copies, combining applies the function to elements with equal '
  'position in the given order, and unstacking followed by lookup returns the original value.',
  ['inputs', 'configurations'], 'for every frame content within the shape bounds', 'Tests check one example each.',
  ['vectorbt/base/reshape_fns.py', 'vectorbt/base/combine_fns.py', 'vectorbt/base/accessors.py'],
  [('reshape', 'tile, repeat, unstack_to_array, make_symmetric, unstack_to_df'), ('combine', 'combine_and_concat, combine_multiple, apply_and_concat')],
  ['pd.DataFrame.vbt.tile/repeat/align_to/combine/...'])
p('C33', 'Indexing an analysis object commutes with computing it',
  'Selecting columns (or rows or groups) of a portfolio, records, mapped array, ranges, drawdowns or indicator object and then computing a metric '
  'equals computing on the whole object and then selecting.',
  ['inputs', 'configurations'], 'for every content and every column/group selection', 'Re-mapping of record columns is only tested '
  'for a few selections.',
  ['vectorbt/base/array_wrapper.py', 'vectorbt/records/base.py', 'vectorbt/records/mapped_array.py', 'vectorbt/portfolio/base.py', 'vectorbt/base/indexing.py'],
  [('indexing', 'indexing_func, indexing_func_meta, ArrayWrapper.indexing_func_meta')], ['Portfolio[...]', 'Records[...]', 'MappedArray[...]'])
p('C34', 'Splitters produce ordered, in-range, complete train/test sets',
  'Every split of a series by the rolling, expanding or range splitter consists of consecutive in-range rows, with the requested lengths and the sets of one split disjoint and '
  'in chronological order (no test row before a training row); expanding splits start at the first row, and split data equals the source rows.',
  ['inputs', 'configurations'], 'for every series length, number of splits, window and set lengths', 'Length/rounding arithmetic; tests use '
  'length 25.', ['vectorbt/generic/splitters.py', 'vectorbt/generic/accessors.py'],
  [('splitters', 'RangeSplitter, RollingSplitter, ExpandingSplitter, split_ranges_into_sets')], ['pd.DataFrame.vbt.split', 'RollingSplitter.split'])
p('C35', 'Configurations merge, freeze and restore predictably',
  'Merging nested configuration dictionaries is right-biased and recursive and never mutates its inputs; a frozen configuration rejects new '
  'keys, a read-only one rejects every change, reset restores the initial state and copies are '
  'isolated; template substitution replaces exactly the templates whose keys are given.',
  ['inputs', 'histories', 'configurations'], 'for every pair of nested dictionaries within the bounds and every sequence of operations',
  'Tests run one sequence per flag.', ['vectorbt/utils/config.py', 'vectorbt/utils/template.py'],
  [('config', 'Config, merge_dicts, set_dict_item, copy_dict'), ('templates', 'deep_substitute, Sub, Rep, RepEval')], ['vbt.settings', 'Config'])
p('C36', 'Downloaded data is aligned and updated without losing or altering values',
  'Aligning symbols to a common index/columns keeps every downloaded value at its own label, fills only missing cells (or drops as '
  'configured), and updating appends newer rows and replaces the overlap, leaving earlier rows untouched; concatenating by '
  'feature and selecting a symbol return the symbol\'s own values.',
  ['inputs', 'histories', 'configurations'], 'for every set of per-symbol indexes and values and every update history',
  'Overlap patterns between symbols and updates are combinatorial.', ['vectorbt/data/base.py', 'vectorbt/data/updater.py'],
  [('alignment', 'Data.align_index, align_columns'), ('update', 'Data.update')], ['Data.from_data', 'Data.update', 'Data.concat'])
p('C37', 'The Rust engine returns what the Numba engine returns',
  'For every supported function and input the optional Rust engine gives the same result as the Numba engine, and unsupported inputs fall back '
  'or are refused, never silently computed differently.',
  ['inputs', 'configurations'], 'for every kernel with a Rust twin and every input', 'Parity is tested on random samples only where '
  'the extension is installed.', ['rust/src', 'vectorbt/_engine.py'], [('engine dispatch', 'vectorbt/_engine.py')],
  ['engine="rust"'])
p('C38', 'Numeric array helpers meet their contracts',
  'Tolerant comparison helpers are symmetric and consistent with each other and with exact comparison outside of the tolerance; '
  'renormalization and min-max rescaling are affine and hit the range ends, insertion sort returns a sorting permutation, sortedness tests are exact, floats rescaled to integers keep the '
  'requested total and range.',
  ['inputs'], 'for every input array within the bounds', 'Floats near tolerance and ties are not sampled.',
  ['vectorbt/utils/array_.py', 'vectorbt/utils/math_.py'], [('helpers', 'vectorbt/utils/array_.py, vectorbt/utils/math_.py')],
  ['vectorbt.utils.array_', 'vectorbt.utils.math_'])
p('C39', 'Scheduled jobs and messaging run as configured',
  'Scheduled jobs run at the configured times until stopped, a failing job does not prevent the others as documented, and the Telegram bot delivers '
  'every queued message to every subscribed chat.',
  ['schedules', 'fault_sequences'], 'for every timing of the clock and every delivery failure', 'Needs a real clock and network service.',
  ['vectorbt/utils/schedule_.py', 'vectorbt/messaging/telegram.py'], [('scheduler', 'ScheduleManager')], ['ScheduleManager', 'TelegramBot'])
p('C40', 'Call sequences stay permutations and automatic sequencing sells before it buys',
  'Every built, shuffled or automatically sorted call sequence is a permutation of the columns within each group; automatic sequencing processes '
  'a group\'s orders in ascending order of their approximated value, so that sells free cash before buys spend it, and a target-percent '
  'allocation affordable in total is then filled completely.',
  ['inputs', 'configurations'], 'for every group layout, order values and shuffle outcome', 'Depends on value orderings within groups and on shuffle '
  'outcomes.', [NB], [('call sequence', 'build_call_seq_nb, shuffle_call_seq_nb, sort_call_seq_nb, approx_order_value_nb')],
  ['Portfolio.from_orders(call_seq=...)'])

for d in P:
    assert len(d['title']) <= 80, d['id']
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
