"""Writes /verif/properties.jsonl (the prose lives here so that it can be edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))
T='chainladder/core/triangle.py'; B='chainladder/core/base.py'; D='chainladder/core/dunders.py'
S='chainladder/core/slice.py'; PD='chainladder/core/pandas.py'; C='chainladder/core/common.py'
U='chainladder/utils/utility_functions.py'; SP='chainladder/utils/sparse.py'; W='chainladder/utils/weighted_regression.py'
DB='chainladder/development/base.py'; DV='chainladder/development/development.py'
MB='chainladder/methods/base.py'

prop('C01','Cumulative and incremental forms are running totals and mutual inverses',
'''Converting an incremental triangle to cumulative makes each known cell the sum of that origin's incremental amounts up to and including its age, with missing amounts counted as zero, and leaves cells beyond the valuation date empty.
Converting back takes first differences, so either round trip reproduces the original amounts in every known cell (a missing cell and a zero cell count as the same amount).
The total of the latest diagonal of the cumulative form equals the total of all cells of the incremental form.''',
['inputs'],'''for every triangle of any number of indices, columns, origins and ages, any pattern of missing/zero/negative cells, any grain, in either array backend''',
'''Tests compare a few bundled sample triangles; the identity is over all shapes, all missing-cell patterns and both backends.''',
[T,U,SP,D],[('cumulative sum masked by the known-cell mask; differences of shifted slices',T+':incr_to_cum, cum_to_incr'),('zero/missing normalisation',U+':num_to_value, num_to_nan'),('known-cell mask',B+':nan_triangle')],
[('values','4-D array index x column x origin x age, NaN = missing',T)],['Triangle.incr_to_cum()','Triangle.cum_to_incr()'])

prop('C02','Development and valuation views hold the same amounts',
'''Each non-missing cell of a triangle has an origin and a valuation date (the end of the month its age reaches, counted from the origin start).
Switching between the development-age view and the valuation-date view keeps every amount at the same index, column, origin and valuation date, drops none and creates none, and switching there and back returns the original triangle (ages no origin has reached may be dropped and ages up to the valuation date added, both without amounts).
The one exception is a cumulative triangle with every cell filled (a completed triangle): its valuation view carries each origin's last amount forward.''',
['inputs'],'''for every triangle whatever its origin/development grain, number of origins and ages, partially filled diagonals, or missing cells, incremental or cumulative''',
'''Tests convert sample triangles; the guarantee is over every shape, grain pair and sparsity pattern.''',
[T,B],[('re-indexing of sparse coordinates by origin offset',T+':_val_dev, dev_to_val, val_to_dev'),('valuation of each cell',B+':valuation')],
[('ddims','ages in months or valuation dates of the columns',T),('odims','origin start dates',T)],['Triangle.dev_to_val()','Triangle.val_to_dev()','Triangle.valuation'])

prop('C03','Triangle arithmetic is cell-wise, label-aligned, with missing as zero',
'''The sum or difference of two triangles of the same grain has, at every index/column/origin/age label, the sum or difference of the operands' amounts at that label, where a label or cell missing from one operand counts as zero; products and quotients with an aligned triangle or a number act cell by cell.
A length-one axis is broadcast against the other operand. Addition commutes, and subtracting an added triangle gives back the original amounts.
Comparing a triangle with a number compares cell by cell, a missing cell counting as zero.''',
['inputs'],'''for every pair of same-grain triangles with equal, permuted, nested or (contiguous) overlapping labels, any missing cells, any scalar, both backends''',
'''Tests try a handful of pairs; alignment has many label configurations (permuted index rows, extra columns, shifted origins).''',
[D,U],[('operand alignment',D+':_validate_arithmetic, _prep_index, _prep_columns, _prep_origin_development'),('cell-wise operation and known-cell mask',D+':__add__, __sub__, __mul__, __truediv__, _arithmetic_cleanup')],
(),['Triangle + - * /'])

prop('C04','Operations and estimators never modify their inputs',
'''Apart from methods explicitly called in place and item assignment, no triangle operation, conversion, slice, aggregation, or estimator fit/transform/predict changes the amounts, labels, valuation date, flags or virtual columns of the triangles passed to it.
Changing the result (including assigning into it or adding a virtual column to it) never changes the triangle it was derived from.''',
['inputs','histories'],'''for every triangle, every non-inplace public operation or estimator call, and every sequence of them''',
'''Aliasing only shows when a result is mutated later or an input is reused; tests rarely look at the operands again.''',
[T,B,D,S,PD,C,U,MB],[('copy on entry',T+':copy'),('in-place normalisation of fresh arrays only',U+':num_to_value')],
[('values','array buffer that views may alias',T),('virtual_columns','callables attached to a triangle',S)],['operand attributes before and after each call'])

prop('C05','Slicing returns exactly the selected cells and labels',
'''Positional, label, boolean and valuation-date selection of a triangle returns a triangle holding exactly the selected index rows, columns, origins and ages, in the requested order, each cell keeping the amount it had under the same labels.
Filtering by valuation date keeps exactly the cells whose valuation satisfies the filter (others become missing) and the valuation date never moves forward.
Origin and age selections that are not evenly spaced positions are refused rather than answered wrongly.''',
['inputs'],'''for every triangle and every valid selector: integers, negative integers, slices with steps, integer lists, labels, boolean masks on any axis, valuation filters''',
'''Selectors form an unbounded space (ranges, strides, lists that are almost contiguous); tests use a few.''',
[S],[('index list to slice conversion',S+':_LocBase._contig_slice'),('slicing',S+':_LocBase.get_idx, Location.key_to_slice, TriangleSlicer._slice, _slice_valuation')],
(),['Triangle.iloc/loc/iat/at/[]'])

prop('C06','Aggregation gives the aggregate of the cells and preserves totals',
'''Summing a triangle along an axis, or grouping an axis and summing, yields in each output cell the sum of the non-missing amounts it aggregates, so the grand total over all cells is unchanged; mean, max, min, std and prod likewise equal the corresponding aggregate of the non-missing amounts of a dense triangle.
Each group holds exactly the members that carry its label, and the labels of the axes not aggregated are untouched.''',
['inputs'],'''for every triangle, axis, grouping of an axis (by label, list or callable) and missing-cell pattern''',
'''Tests aggregate a few samples and compare with pandas on those.''',
[PD,SP],[('aggregation',PD+':add_triangle_agg_func, add_groupby_agg_func'),('concatenation of groups',U+':concat')],
(),['Triangle.sum/mean/max/min/std/prod','Triangle.groupby(...).sum()'])

prop('C07','Development factors are the documented weighted averages of link ratios',
'''With volume, simple or regression averaging, the fitted age-to-age factor at each age is the weighted average of the retained link ratios of that age with weights x, 1 or x squared respectively (x the earlier-age amount), chosen separately per age when a list is given.
It therefore lies between the smallest and largest retained link ratio when amounts are positive, does not change when the amounts of an index and column are all multiplied by one positive constant, and each index/column is fitted from its own data only.''',
['inputs','configurations'],'''for every cumulative triangle and every averaging specification (single or per age)''',
'''Tests check published factors of a few samples.''',
[W,DV,DB],[('closed-form regression through the origin',W+':_fit_OLS_thru_orig'),('weights by average type',DV+':Development.fit')],
[('w_','0/1/NaN weight of each link ratio',DV)],['Development.fit(X).ldf_'])

prop('C08','Excluded link ratios have no influence, all others are kept',
'''A link ratio excluded by the number of latest valuation periods, by origin and age, by the valuation date of its earlier amount, by rank (highest/lowest) or by size threshold has no effect on any fitted development factor: altering only excluded observations leaves the factors as they were, and the factors equal the average of the link ratios not excluded.
When fewer than the number to preserve would remain at an age, that rank or threshold exclusion is ignored for that age (a threshold counts all link ratios of the age).''',
['inputs','configurations'],'''for every triangle and every combination of n_periods, drop, drop_valuation, drop_high/drop_low (scalar or per age), drop_above/drop_below and preserve''',
'''The options multiply; tests pin a few combinations on one or two triangles.''',
[DV,DB],[('per-option 0/1 weights multiplied together',DB+':_drop_adjustment, _drop_n, _drop_x, _drop, _drop_valuation, _assign_n_periods_weight')],
(),['Development(...).fit(X).ldf_','Development(...).fit(X).w_'])

prop('C09','Chain-ladder ultimate is latest diagonal times age-to-ultimate factor',
'''For every index, column and origin with a latest amount, the chain-ladder ultimate equals that amount times the cumulative development factor for the age it has reached, and IBNR equals ultimate minus latest.
An origin at the final age with no tail has zero IBNR, and each index row, column and origin depends only on its own latest amount and factors.''',
['inputs'],'''for every triangle (any grain, partially filled latest diagonals, multiple index rows and columns, cumulative or incremental input) and every set of development factors''',
'''Tests reproduce published examples; alignment of age to origin must hold for every shape.''',
['chainladder/methods/chainladder.py',MB,C],[('alignment of factors to the latest diagonal',MB+':_align_cdf'),('ultimate','chainladder/methods/chainladder.py:_get_ultimate'),('IBNR',C+':ibnr_')],
(),['Chainladder.fit(X).ultimate_','ibnr_'])

prop('C10','Expected-loss, Bornhuetter-Ferguson and Benktander follow one recursion',
'''With q = 1 - 1/CDF at each origin's current age, the expected-loss ultimate is the apriori times exposure, and each Benktander iteration maps an ultimate U to latest + q*U, Bornhuetter-Ferguson being one iteration.
So for every number of iterations n the ultimate is the n-fold iterate started at the apriori, and a fully developed origin (CDF of 1) gets its latest amount for n of at least one.''',
['inputs','configurations'],'''for every triangle, exposure vector, apriori and number of iterations''',
'''Tests check n of 0, 1 and a couple of others on samples; the identity is an induction over n.''',
['chainladder/methods/benktander.py','chainladder/methods/bornferg.py','chainladder/methods/expectedloss.py',MB],
[('closed form power sum','chainladder/methods/benktander.py:_get_ultimate')],(),['ExpectedLoss/BornhuetterFerguson/Benktander .fit(X, sample_weight).ultimate_'])

prop('C11','Cape Cod apriori is the decayed, trended exposure-weighted loss ratio',
'''The Cape Cod apriori of each origin equals the average of the trended ultimate loss ratios over all origins, weighted by exposure divided by CDF times decay to the power of the distance between origins, and the detrended apriori removes the origin's trend and on-level factors.
Its ultimate is the Bornhuetter-Ferguson/Benktander ultimate using the detrended apriori times exposure.''',
['inputs','configurations'],'''for every triangle, exposure vector, trend, decay in (0,1] and iterations''',
'''Tests check a few samples with default options.''',
['chainladder/methods/capecod.py'],[('apriori','chainladder/methods/capecod.py:_get_capecod_aprioris')],(),['CapeCod.fit().apriori_','detrended_apriori_','ultimate_'])

prop('C12','The completed triangle keeps known data and runs off to the ultimate',
'''The full triangle of a fitted model equals the observed amounts in every known cell, ends at the ultimate, and for the chain-ladder method each projected cell is the previous cell times the development factor of its age.
The full expectation at each age is the ultimate divided by the age-to-ultimate factor, ending at the ultimate.''',
['inputs'],'''for every fitted reserving model and triangle shape''',
'''Tests compare a sample or two.''',
[C],[('run-off emergence pattern',C+':_get_full_triangle'),('expectation',C+':_get_full_expectation')],(),['full_triangle_','full_expectation_'])

prop('C13','Mack standard errors satisfy the Mack recursion and totals',
'''Parameter and process risk at successive ages satisfy the Mack recursion: squared risk at the next age is (development factor times current risk) squared plus the squared new term (projected amount times factor standard error for parameter risk; projected amount times sigma over the square root of the weight for process risk), and risk is zero on known cells.
The Mack standard error squared is parameter plus process risk squared, and total process risk squared is the sum over origins.
This is for triangles whose latest amounts are known and whose factor standard errors and sigmas could be estimated.''',
['inputs','configurations'],'''for every triangle and development options accepted by the model''',
'''Published examples (RAA, ABC, MCL) pin a few numbers only.''',
['chainladder/methods/mack.py'],[('recursion loop','chainladder/methods/mack.py:_mack_recursion'),('standard error of single factors','chainladder/methods/mack.py:_get_full_std_err_')],(),['MackChainladder.fit(X).parameter_risk_','process_risk_','mack_std_err_','total_mack_std_err_'])

prop('C14','Age-to-ultimate factors are products of age-to-age factors, tails included',
'''The cumulative development factor at each age is the product of all later age-to-age factors including the tail, and converting cumulative factors back to age-to-age factors restores them.
A constant tail multiplies out to exactly the requested tail factor from its attachment age, leaves the factors before that age as fitted, and every tail estimator only appends or replaces factors at or beyond its attachment (for growth-curve tails, by default, the second-last age).''',
['inputs','configurations'],'''for every set of development factors, tail factor, decay, attachment age and projection period''',
'''Tests evaluate the default tails on samples.''',
['chainladder/tails/base.py','chainladder/tails/constant.py','chainladder/tails/curve.py','chainladder/tails/bondy.py',T,C,'chainladder/development/constant.py'],
[('reverse cumulative product',T+':incr_to_cum'),('tail decay','chainladder/tails/base.py:_apply_decay')],(),['cdf_','ldf_','tail_'])

prop('C15','Building a triangle keeps every amount in its origin, valuation and labels',
'''A triangle built from tabular data holds, at each combination of index labels, column, origin period and valuation period, the sum of the input amounts carrying those labels and dates, so each column total is preserved except for records valued before their origin, which are removed.
The order of the input rows only affects the order of index labels, never an amount.
When the months present do not fit one period length the triangle may be finer than the data, never coarser.''',
['inputs'],'''for every data frame with any number of records, duplicates, missing periods, date formats and grains, with or without index columns''',
'''Tests load fixed sample files.''',
[T,B],[('aggregation to grain',B+':_aggregate_data'),('coordinates',B+':_set_kdims, _set_odims, _set_ddims, _set_values')],(),['Triangle(data, ...)'])

prop('C16','Coarsening the grain regroups amounts without losing any',
'''Changing to a coarser grain gives each coarser origin period and valuation period (half-years counted from the triangle's first origin) the cumulative (or incremental) total of the finer origins it contains at that valuation date, so the latest diagonal total and the incremental grand total are unchanged.
The coarsened triangle equals the triangle built directly from the same data at the coarser grain, and coarsening in two steps equals coarsening once.''',
['inputs'],'''for every monthly, quarterly or semi-annual triangle and every coarser target grain''',
'''Tests check two or three conversions of one data set.''',
[T,PD],[('grain change',T+':grain')],(),['Triangle.grain(...)'])

prop('C17','The array backend never changes the numbers',
'''Holding the same triangle densely or sparsely gives the same amounts and labels for conversion between the two forms, arithmetic, slicing, aggregation by sum, cumulative/incremental and development/valuation conversion, link ratios and the basic reserving methods.''',
['inputs','configurations'],'''for every triangle and supported operation or pipeline of operations, in both backends''',
'''Tests run parts of the suite with both backends on samples.''',
[SP,C,T,D],[('sparse emulation of the array functions',SP),('backend switch',C+':set_backend')],(),['set_backend("sparse") versus set_backend("numpy")'])

prop('C18','Saving and loading reproduces the object',
'''A pickled triangle reads back with the same amounts, labels, grains, flags and view.
A triangle written to JSON reads back with the same amount at every index, column, origin and valuation label known at the valuation date, the same cumulative flag and the same view (rows, origins or ages without any amount may be dropped or added and index rows come back sorted); a triangle whose axes all carry amounts and whose oldest origin reaches the valuation date also keeps its labels and grains. Writing an estimator to JSON and reading it gives an estimator with the same parameters.
Rebuilding a triangle from its own long tabular export (of two or more origins and valuations) gives the same amounts.''',
['inputs'],'''for every triangle (any index/column labels, cumulative or incremental, development or valuation view) and estimator parameters''',
'''Tests round-trip a few samples.''',
['chainladder/core/io.py',U,PD],[('export','chainladder/core/io.py:to_json'),('import',U+':read_json')],(),['to_json/read_json','to_pickle/read_pickle','to_frame(keepdims=True)'])

prop('C19','Voting ultimate is the weighted average of the member ultimates',
'''The ultimate of a voting ensemble at each origin is the weighted mean of its member methods' ultimates with the weights given for that origin (equal weights by default), however the weights are supplied.
It lies between the smallest and largest member ultimate for non-negative weights, and a member with weight zero for an origin does not affect that origin.''',
['inputs','configurations'],'''for every triangle shape, list of member methods and weight specification (none, list, array, callable, dictionary)''',
'''Tests use one square sample triangle.''',
['chainladder/workflow/voting.py'],[('weights','chainladder/workflow/voting.py:_coerce_assum_vector_to_array, _broadcast_weights'),('average','chainladder/workflow/voting.py:_get_ultimate')],(),['VotingChainladder.fit(X).ultimate_'])

prop('C20','Trend factors compound by elapsed time between the stated dates',
'''Trending multiplies each known cell by (1 + trend) to the power of the years from its origin end (or valuation date) to the start date of the trend (by default the valuation date), dates outside the window between start and end (by default the first origin's start) being held at its nearer end; it never creates or removes cells.
Consecutive trends multiply, and trending by zero changes nothing.''',
['inputs','configurations'],'''for every triangle, annual trend rate, axis and trend window''',
'''Tests check one or two samples.''',
[T,'chainladder/adjustments/trend.py'],[('exponent matrix',T+':trend'),('compounding','chainladder/adjustments/trend.py:Trend.fit')],(),['Triangle.trend(...)','Trend.fit(X).trend_'])

prop('C21','Predicting on the training triangle reproduces the fit; rows are independent',
'''Predicting a fitted reserving model on the triangle it was fitted to gives the fitted ultimates.
Fitting several index rows or columns together gives each row and column the result of fitting it alone, and permuting index rows only permutes the result.''',
['inputs','configurations'],'''for every triangle and the chain-ladder, Bornhuetter-Ferguson, Benktander, expected-loss, Cape Cod and Mack models''',
'''Tests compare fit and predict on a few samples.''',
[MB,'chainladder/methods/benktander.py','chainladder/methods/capecod.py'],[('prediction',MB+':predict'),('index intersection',MB+':intersection')],(),['fit(X).ultimate_ versus predict(X).ultimate_'])

prop('C22','Berquist-Sherman restatement leaves the latest diagonal unchanged',
'''Adjusting a triangle with the Berquist-Sherman technique leaves the latest-diagonal paid, incurred, reported-count and closed-count amounts as they were; only earlier valuations are restated.
Restated earlier case averages equal the latest average of the same age detrended by the years between the valuations.''',
['inputs','configurations'],'''for every triangle with the four required columns and every trend''',
'''One sample is tested.''',
['chainladder/adjustments/berqsherm.py'],[('restatement','chainladder/adjustments/berqsherm.py:BerquistSherman.fit')],(),['BerquistSherman.fit(X).adjusted_triangle_'])

prop('C23','Incremental additive factors are exposure-weighted incremental ratios',
'''The additive method's factor at each age is the weighted average of retained incremental-amount-to-exposure ratios of that age, after trending, and its completed increments are observed amounts where known and factor times exposure, with future trend, elsewhere.''',
['inputs','configurations'],'''for every triangle with a matching exposure vector, averages, trends and exclusions''',
'''One sample is tested.''',
['chainladder/development/incremental.py',DB],[('additive factors','chainladder/development/incremental.py:IncrementalAdditive.fit')],(),['IncrementalAdditive.fit(X, sample_weight).zeta_','incremental_'])

prop('C24','Bootstrap resampling is reproducible and mean-preserving',
'''With a fixed random seed the bootstrap produces identical simulated triangles on every run, and the simulated triangles average to the fitted expectation as the number of simulations grows.''',
['inputs','configurations'],'''for every triangle, seed and number of simulations''',
'''Statistical statement over random draws.''',
['chainladder/adjustments/bootstrap.py'],[('residual resampling','chainladder/adjustments/bootstrap.py')],(),['BootstrapODPSample'])

prop('C25','Fitted growth curves and GLM/ML patterns minimise their stated loss',
'''Clark growth curves, exponential/inverse-power and Bondy tails, Barnett-Zehnwirth, Tweedie GLM and machine-learning development patterns return parameters that minimise the stated objective over the data.''',
['inputs','configurations'],'''for every triangle''',
'''Optimality is over a continuum of parameters.''',
['chainladder/development/clark.py','chainladder/tails/curve.py','chainladder/tails/bondy.py','chainladder/development/glm.py','chainladder/development/learning.py','chainladder/development/barnzehn.py'],[('optimisers','scipy.optimize / scikit-learn')],(),['G_','slope_','intercept_'])

prop('C26','Munich chain-ladder projections use only paid/incurred correlation of the data',
'''Munich chain-ladder development factors equal the chain-ladder factors adjusted by the residual correlation times the residual of the paid-to-incurred ratio, and with zero correlation they reduce to the chain-ladder factors.''',
['inputs','configurations'],'''for every paired paid and incurred triangle''',
'''One or two samples are tested.''',
['chainladder/development/munich.py'],[('Munich adjustment','chainladder/development/munich.py')],(),['MunichAdjustment.fit(X).munich_full_triangle_'])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
