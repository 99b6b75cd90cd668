TECH = 'contract-based deductive verification: contracts on the real functions, obligations regenerated from the current source and discharged by z3/cvc5; labelled bounded stand-in for callees outside reach'
BTECH = 'contract-based deductive verification of the functions within reach (obligations regenerated from the current source); the remaining functions by a labelled bounded contract check on the real code'
NOTES = 'DESIGN.md explains the verifier, the contracts and what is bounded only. No hooks are needed in /repo.'
NA = {'C24': 'randomised resampling: reproducibility and convergence in distribution are not expressible as postconditions over the deductive contracts here (numpy RNG is opaque)',
      'C25': 'the results are produced by scipy/scikit-learn optimisers, whose optimality has no contract within reach',
      'C26': 'the Munich projection goes through pandas reshaping and per-cell residual regression loops outside the verifier subset; no contract decides it'}
ASSUME = ' Assumes exact real arithmetic and the numpy/pandas models of vc/; dense storage (sparse storage and sizes outside the symbolic subset only by the bounded stand-in).'
PROOF = {
 'C01': 'Proved for all sizes, amounts and missing patterns on the grain pairs listed in DESIGN.md: cumulative = running sum, incremental = first differences, both round trips (induction over ages), known-cell mask, latest diagonal.',
 'C03': 'Proved for all sizes and amounts: +,-,*,/ cell by cell with missing as zero, broadcasting, union of origins/ages, commutation, add-then-subtract, scalars, unary operators, operands untouched. Index/column label alignment (groupby/reindex) is bounded only.',
 'C05': 'Proved for all sizes: positional slices and lists on every axis, several axes at once, the list-to-slice conversion, valuation filters. Label (.loc) lookups and boolean masks on origin/age are bounded only.',
 'C06': 'Proved for all sizes: sum/mean/max/min/prod along each axis and labels kept. groupby and std are bounded only.',
 'C07': 'Proved for all sizes and amounts: link ratio of a cell, regression through the origin, Development.fit = weighted average of the retained link ratios for volume/simple/regression, bounds and scale invariance of averages, is_full. Sparse storage, groupby and fillna are bounded only.',
 'C08': 'Proved for all sizes and amounts: thresholds, ranks (as counts of smaller ratios), latest-period weights, dropped valuations and their composition with preserve. Drop by origin and age and per-age threshold lists are bounded only.',
 'C09': 'Proved for all sizes and amounts: chain-ladder ultimate = latest amount times the fitted cdf at its age, ibnr, cdf alignment, tail constant. predict on other triangles and sparse storage are bounded only.',
 'C10': 'Proved for all sizes and amounts: Bornhuetter-Ferguson, expected loss and Benktander recursion, their limits, scaling. Sparse storage and predict are bounded only.',
 'C11': 'Proved for all sizes and amounts: Cape Cod apriori as the used-up-exposure weighted average with decay and trend, ultimate by Bornhuetter-Ferguson on it. Sparse storage and predict are bounded only.',
 'C12': 'Proved for all sizes and amounts of cumulative triangles: full expectation, full triangle keeps known cells and ends at the ultimate. Incremental triangles are bounded only.',
 'C13': 'Proved for all sizes and amounts: the Mack recursion (loop invariant) for the full and parameter standard errors, risk by origin, total process and parameter risk, closed-form totals. The frame around them (total_mack_std_err_), sparse storage, averages that differ by age and predict are bounded only.',
 'C14': 'Proved for all sizes and amounts: cdf as running product, ldf round trip, constant tail with decay and attachment. TailCurve/TailBondy/TailClark are bounded only.',
 'C19': 'Proved for all sizes and amounts: the vote is the weighted average of the ultimates with default, global and callable weights. Parallel fitting and predict are bounded only.',
 'C21': 'Proved for all sizes and amounts: predict of Chainladder, ExpectedLoss, BornhuetterFerguson, Benktander and CapeCod on the training triangle or another one on the same labels satisfies the closed form the fit is proved to satisfy (C09-C11), which involves only the amounts of the same row, column and origin. Matching different index labels (MethodBase.intersection on several rows) and permuted rows are bounded only.',
 'C20': 'Proved for all sizes and amounts: trend factors by origin and valuation with the window, zero trend, composition, Trend estimator. Sparse storage is bounded only.',
 'C23': 'Proved for all sizes and amounts: the exclusion of ratios by thresholds, ranks, valuations and periods, the ratio weights, zeta as the weighted average, and the fit (known increments kept, the others projected by factor, exposure and trend). Drop lists and per-age parameter lists, and the finished ldf_ pattern, are bounded only.',
}
PART = {
 'C02': 'Proved: valuation date of every cell, the known-cell mask, is_full. The re-labelling itself (sparse coordinate arithmetic) is bounded: executable contract checked on seeded random inputs against an independent plain-Python reading.',
 'C04': 'Proved for the operators, slices, reductions, trend, link ratios: operands untouched. Inputs of the other functions, chains and copies are bounded: snapshots before and after on seeded random inputs.',
 'C17': 'Only the storage choice (_auto_sparse) is proved; agreement between storages is bounded: same operation on both on seeded random inputs.',
}
CLAIMS = {}
for _p in ['C%02d' % i for i in range(1, 24)]:
    if _p in PROOF: CLAIMS[_p] = ('proof', PROOF[_p] + ASSUME, TECH)
    else: CLAIMS[_p] = ('exploration', PART.get(_p, 'Executable contract checked on seeded random inputs against an independent plain-Python reading of the property; bounded.') + ASSUME, BTECH)
