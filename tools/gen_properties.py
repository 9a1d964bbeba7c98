#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P=[]
S='src/direpack/'
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={'files':[S+f for f in files],'mechanism':[{'name':n,'where':S+w} for n,w in mech],'observe_at':observe,'hook_needed':None}
    if state: a['state']=[{'name':n,'meaning':m,'where':S+w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
ALL=['sprm/sprm.py','sprm/rm.py','sprm/snipls.py','ppdire/ppdire.py','ppdire/capi.py','sudire/sudire.py','dicomo/dicomo.py','preprocessing/robcent.py','preprocessing/gsspp.py']
prop('C01',"The caller's data and option containers are never modified",
"Fitting, predicting, transforming, weighting, evaluating a co-moment, scoring or plotting never changes the arrays, data frames, dictionaries or lists the caller handed over, also when the option that disables copying is used. In-place work only ever happens on storage the library allocated itself.",
['inputs','configurations'],'every array, frame or option container passed to a public entry point, under every documented option combination',
'The tests fit once on a bundled data set and compare coefficients; none compares the inputs before and after, and aliasing depends on dtype, memory order, container type and option branches that the twelve tests never take.',
ALL+['preprocessing/_preproc_utilities.py','sprm/_m_support_functions.py','dicomo/_dicomo_utils.py','ipopt_temp/ipopt_wrapper.py','cross_validation/_cv_support_functions.py'],
[('deep copies at the start of fit','sprm/sprm.py'),('deflation on a private copy','ppdire/ppdire.py'),('weight functions work on a copy','sprm/_m_support_functions.py'),('option dictionaries are merged, not updated','ppdire/ppdire.py')],
['arguments of fit, predict, transform, inverse_transform, weightnewx, valscore, the preprocessing functions and the plot methods'])
prop('C02','Using a fitted model never changes it',
"Predicting, transforming, inverse transforming, weighting new cases, scoring and plotting leave every learned quantity and every option of the fitted model as fit left it. They can be repeated and interleaved in any order with the same results; only the scalers' memory of their latest output may change.",
['histories','inputs'],'every sequence of calls on a fitted estimator after fit',
'Each test calls predict or transform at most once per model, so a call that silently re-estimates or overwrites fitted state cannot show up.',
ALL+['plot/sprm_plot.py','plot/ppdire_plot.py','plot/sudire_plot.py'],
[('predict and transform read fitted attributes only','sprm/sprm.py'),('new-case weights computed on a copy of the score scaler','sprm/sprm.py'),('zero scales replaced on a copy','preprocessing/_preproc_utilities.py')],
['attributes of the fitted estimator before and after a call'])
prop('C03','A fit depends on options and data only, not on earlier calls',
"Fitting an object that was fitted or used before gives the same result as fitting a new object with the same options on the same data. Fitting never rewrites the options the user chose, nor defaults or module state shared with other objects.",
['histories','configurations'],'every history of fits, predictions and option changes before a fit, on one or several objects',
'Tests build one object, fit it once and drop it; warm starts, overwritten options and mutable defaults only show on a second fit or a second object.',
ALL+['ipopt_temp/ipopt_wrapper.py'],
[('options read from the object and kept in locals','sprm/sprm.py'),('projection index rebuilt in every fit','ppdire/ppdire.py'),('optimizer start, constraints and arguments rebuilt per fit','sudire/sudire.py')],
['fitted attributes and get_params() after a second fit'])
prop('C04','Options are stored, reported and applied exactly as given',
"Every constructor option of an estimator is reported back unchanged by its parameter listing, and changing an option through the parameter setter (as cloning and grid search do) has the same effect on later fits as constructing the object with that value. An unknown option name is refused.",
['configurations','histories'],'every option of every estimator, set through the constructor or later',
'No test reads an option back, clones an estimator or changes an option after construction.',
ALL,
[('constructors assign every argument to an attribute of the same name','sprm/sprm.py'),('hand-written get_params and set_params','ppdire/ppdire.py'),('hand-written get_params and set_params','ppdire/capi.py'),('hand-written get_params and set_params','sudire/sudire.py')],
['get_params, set_params, sklearn.base.clone'])
prop('C05','Invalid requests are refused with an error, never answered',
"An impossible request raises an error: more components than cases or variables, a sparsity parameter outside [0,1), cut-off probabilities outside (0,1] or in the wrong order, trimming outside its range, unknown weight function, method, mode, estimator class or centring name, predictors and response with different numbers of cases, a co-moment without a second block, or a validation-only plot without new cases. Valid requests at the edge of these ranges are not refused.",
['inputs','configurations'],'every value of the validated options and every mismatch of data sizes',
'The tests only use valid requests; a weakened, inverted, unraised or unreachable check passes all of them.',
ALL+['plot/sprm_plot.py','plot/ppdire_plot.py','plot/sudire_plot.py','preprocessing/_preproc_utilities.py'],
[('range checks at the start of fit','sprm/sprm.py'),('assertions in the constructor','sprm/snipls.py'),('lists of allowed names in constructors','dicomo/dicomo.py'),('trimming check','preprocessing/_preproc_utilities.py')],
['constructor and fit calls, plot calls'])
prop('C06','New data with the wrong number of variables are refused',
"Prediction, transformation, inverse transformation, new-case weighting and validation scoring raise an error when the new data do not have the number of columns the model was trained with, whether there are more or fewer columns. Data with the right number of columns are accepted whatever the number of cases, down to a single case.",
['inputs'],'every fitted model and every width and length of new data, including a single case',
'The tests only predict with the training data.',
['sprm/sprm.py','sprm/rm.py','sprm/snipls.py','ppdire/ppdire.py','sudire/sudire.py','preprocessing/robcent.py','utils/utils.py'],
[('column count checks','sprm/sprm.py'),('column count checks','ppdire/ppdire.py'),('column count checks','sudire/sudire.py'),('column check helper','utils/utils.py')],
['predict, transform, inverse_transform, weightnewx, valscore'])
prop('C07','A prediction for a case does not depend on the other new cases',
"The prediction, score vector, scaled or wrapped value of a new case is a function of that case and the fitted model alone: it is the same whether the case is submitted alone, in a batch, or in another order. Location and scale used for new data are those estimated on the training data. (Robust weights of new cases are relative to their batch by design and are not covered.)",
['inputs'],'every fitted model, every batch of new cases, every position of a case in the batch',
'The tests predict the training batch only, where re-estimating on the batch gives the same numbers.',
['sprm/sprm.py','sprm/rm.py','sprm/snipls.py','ppdire/ppdire.py','sudire/sudire.py','preprocessing/robcent.py','preprocessing/_preproc_utilities.py'],
[('new data scaled with stored location and scale','preprocessing/_preproc_utilities.py'),('prediction as one matrix product plus intercept','sprm/sprm.py')],
['return values of predict and transform'])
prop('C08','Every documented result attribute exists after every fit',
"After a successful fit every attribute the documentation lists as always provided exists on the object, under every documented option combination; the attributes listed for a second data block or for an option flag exist exactly when that block or flag is given.",
['configurations','inputs'],'every documented option combination and data shape (tall, flat, few variables, with constant columns)',
'The tests read a handful of attributes under one option combination each.',
['sprm/sprm.py','sprm/rm.py','sprm/snipls.py','ppdire/ppdire.py','sudire/sudire.py','dicomo/dicomo.py','preprocessing/robcent.py','preprocessing/gsspp.py'],
[('attribute block at the end of fit','sprm/sprm.py'),('attribute block at the end of fit','ppdire/ppdire.py'),('attribute block at the end of fit','sudire/sudire.py')],
['attributes after fit'])
prop('C09','Every documented option combination is implemented',
"Every combination of documented option values can be fitted and then used on well-formed data without failing inside the library: no result variable is left undefined on some branch, no name is missing, no matrix product has incompatible dimensions, no documented name is unknown.",
['configurations','inputs'],'all documented values of all options of all estimators and functions, crossed, for tall and flat data',
'About a dozen option combinations out of thousands are exercised by the tests.',
ALL+['preprocessing/_preproc_utilities.py','preprocessing/_gsspp_utils.py','sudire/_sudire_utils.py','dicomo/_dicomo_utils.py','ppdire/_ppdire_utils.py'],
[('branches per option in fit','sprm/sprm.py'),('branches per option in fit','ppdire/ppdire.py'),('branches per method in fit','sudire/sudire.py'),('branches per mode in fit','dicomo/dicomo.py')],
['fit, predict, transform under each option combination'])
prop('C10','Reported fit, residuals and scores agree with predict and transform',
"For the regression and dimension reduction estimators the reported fitted values are what predicting the training data returns, and the reported residuals are the response minus the fitted values. The reported scores of the robust sparse regression, of projection pursuit without whitening or compression and of sufficient dimension reduction are what transforming the training data returns.",
['inputs','configurations'],'every training set and every option combination for which these quantities are reported',
'The tests compare a few coefficients with reference values; they never relate two outputs of the same model.',
['sprm/sprm.py','sprm/rm.py','sprm/snipls.py','ppdire/ppdire.py','sudire/sudire.py','preprocessing/_preproc_utilities.py'],
[('fitted values from rescaled coefficients and intercept','sprm/sprm.py'),('predict','sprm/sprm.py'),('predict and transform','ppdire/ppdire.py')],
['fitted_, residuals_, x_scores_, predict, transform'])
prop('C11','Scaling is reversible and safe for constant columns',
"Scaling subtracts the stored location and divides by the stored scale, column by column, and inverse transforming returns the original data. A column with zero scale is only centred: the scaler never divides by zero and never turns a constant column into missing or infinite values.",
['inputs','configurations'],'every data set, including constant columns, and every location, scale and trimming option',
'Scaling is only tested indirectly, on data without constant columns, and the inverse not at all.',
['preprocessing/robcent.py','preprocessing/_preproc_utilities.py'],
[('zero scales replaced by one','preprocessing/_preproc_utilities.py'),('inverse_transform','preprocessing/robcent.py')],
['transform, predict, inverse_transform, fit_transform'])
prop('C12','The same data and options always give the same result',
"Apart from the evolutionary optimizer and the bootstrap for the structural dimension, results do not depend on a random generator, the clock, the process environment, iteration order of unordered containers, or the content of uninitialised memory. Random numbers are drawn only where the documentation announces them.",
['inputs','configurations','histories'],'every fit, prediction and statistic except the two announced random procedures',
'A run that happens to get clean memory or a fixed seed passes; the tests run each computation once.',
ALL+['sudire/_sudire_utils.py','dicomo/_dicomo_utils.py','ppdire/_ppdire_utils.py'],
[('deterministic linear algebra only','sprm/snipls.py'),('result matrices initialised before being filled','sprm/snipls.py'),('fixed starting values for optimizers','ppdire/ppdire.py')],
['all results'])
prop('C13','Results follow a change of measurement units',
"With scaling switched on, multiplying all predictors or the response by a positive constant changes each reported quantity by the matching factor: locations, scales, intercept, fitted values and residuals carry the units of their variable, coefficients the ratio of response to predictor units, and scores, case weights and explained percentages none. A robustly or classically scaled data set has no units.",
['inputs'],'every positive change of units of predictors or response, for the sparse, robust and projection pursuit regressions and the scalers with scaling on',
'Tests use one set of units.',
['sprm/sprm.py','sprm/rm.py','sprm/snipls.py','ppdire/ppdire.py','preprocessing/robcent.py','preprocessing/_preproc_utilities.py'],
[('coefficients rescaled by the ratio of scales','sprm/sprm.py'),('coefficients rescaled by the ratio of scales','ppdire/ppdire.py'),('residuals standardised before weighting','sprm/rm.py')],
['coef_, intercept_, fitted_, residuals_, x_loc_, x_sca_, y_loc_, y_sca_, caseweights_, x_scores_'])
prop('C14','Results do not depend on the order of the training cases',
"Reordering the training cases leaves locations, scales, coefficients, intercepts, loadings and co-moment statistics unchanged and reorders scores, residuals, fitted values and case weights in the same way. This holds for the scalers, the co-moments, the sparse and robust regressions, the grid-based projection pursuit and the Hessian-based sufficient dimension reductions.",
['inputs'],'every permutation of the rows of the training data',
'Tests use the rows in file order.',
['sprm/sprm.py','sprm/rm.py','sprm/snipls.py','ppdire/ppdire.py','dicomo/dicomo.py','sudire/_sudire_utils.py','preprocessing/robcent.py','preprocessing/_preproc_utilities.py'],
[('column-wise estimators are symmetric in the cases','preprocessing/_preproc_utilities.py'),('case weights multiply cases elementwise','sprm/sprm.py')],
['fitted attributes'])
prop('C15','Case weights always lie between zero and one',
"The case weights reported by the robust regressions, for the training cases and for new cases, are between 0 and 1, and so is the value of each weight function at any non-negative distance for any admissible cut-offs. Cases below the first cut-off get full weight under the Huber and Hampel functions, and the Hampel weight is zero beyond the last cut-off.",
['inputs','configurations'],'all non-negative distances and all increasing positive cut-offs',
'Tests compare coefficients only; no test looks at a weight.',
['sprm/sprm.py','sprm/rm.py','sprm/_m_support_functions.py'],
[('Fair, Huber and Hampel weight functions','sprm/_m_support_functions.py'),('product of weights, floored and zeroed','sprm/sprm.py')],
['caseweights_, x_caseweights_, y_caseweights_, weightnewx, the weight functions'])
prop('C16','Data frames and series give the same results as plain arrays',
"Passing predictors as a data frame or the response as a series, one-column frame, vector or one-column array with the same values gives the same kind and shape of numeric result as passing arrays; row labels play no role. Predictions and transformations of frames are plain numeric arrays.",
['inputs'],'every supported container for predictors, response and new data, with any index',
'Tests feed a fixed container type per estimator and never vary it or its index.',
['utils/utils.py','sprm/sprm.py','sprm/rm.py','sprm/snipls.py','ppdire/ppdire.py','sudire/sudire.py','dicomo/dicomo.py','preprocessing/robcent.py','preprocessing/gsspp.py','cross_validation/_cv_support_functions.py'],
[('conversion of frames and series on entry','utils/utils.py')],
['fit, predict, transform, scaler methods, robust loss'])
prop('C17','Results have the documented dimensions',
"For n training cases, p variables and h components the scores are n by h, weights, loadings and rotations p by h (p counting the retained variables where constant ones are dropped), coefficients have one row per variable, locations and scales one entry per variable, and there is one case weight, fitted value and residual per case. Predicting m new cases gives m predictions and transforming them an m by h matrix.",
['inputs','configurations'],'all n, p, m and 1 <= h <= min(n,p), tall and flat data, all option combinations',
'Tests use one data set of fixed size and few components.',
['sprm/sprm.py','sprm/rm.py','sprm/snipls.py','ppdire/ppdire.py','sudire/sudire.py','preprocessing/robcent.py'],
[('result matrices allocated with their documented shape','ppdire/ppdire.py'),('result matrices allocated with their documented shape','sprm/snipls.py')],
['shapes of fitted attributes and return values'])
prop('C18','The library has no hidden side effects on the process',
"Importing, fitting, predicting, evaluating and plotting do not read or write files, open network connections, start processes or threads, or change the environment, the working directory, the numerical error handling, the warning filters or the plotting defaults. They do not seed or reset the global random state, and draw from it only in the two announced random procedures. Output goes to standard output, the warnings system and the figure being drawn only.",
['inputs','configurations','histories'],'every public call and module import',
'No test observes the process environment, and one that did would see only the paths it takes.',
ALL+['utils/utils.py','plot/sprm_plot.py','plot/ppdire_plot.py','plot/sudire_plot.py','cross_validation/_cv_support_functions.py','ipopt_temp/ipopt_wrapper.py','ipopt_temp/jacobian.py'],
[('no effectful call in any module','__init__.py')],
['module imports and all public calls'])
prop('C19','Numerical search reaches the optimum of the projection index',
"The direction reported for each component maximises the chosen projection index over all unit directions up to the stated tolerance.",
['inputs','configurations'],'every data set, projection index and optimizer',
'Tests compare with a reference on one data set.',
['ppdire/ppdire.py','ppdire/_ppdire_utils.py','sudire/sudire.py'],
[('grid search and scipy or IPOPT optimisation','ppdire/ppdire.py')],['x_weights_, Maxobjf_'])
prop('C20','Outliers have bounded influence on the robust estimates',
"A minority of arbitrarily bad cases cannot carry the robust locations, scales and regression coefficients arbitrarily far, and such cases receive small weights.",
['inputs'],'every contamination of less than half of the cases',
'Tests use clean data.',
['sprm/sprm.py','sprm/rm.py','preprocessing/_preproc_utilities.py'],
[('bounded weight functions and robust starting values','sprm/sprm.py')],['coef_, caseweights_'])
prop('C21','Sufficient dimension reduction recovers the central subspace',
"As the number of cases grows, the estimated basis converges to a basis of the central (mean) subspace, and the estimated structural dimension to its dimension.",
['inputs'],'every data generating process meeting the method assumptions',
'Tests check a loose distance on one simulated data set.',
['sudire/sudire.py','sudire/_sudire_utils.py'],
[('eigen-decomposition of the kernel matrices','sudire/_sudire_utils.py')],['x_loadings_'])
prop('C22','Fast and naive energy statistics agree',
"Distance co-moments computed by the efficient algorithm equal those computed from the centred distance matrices, and classical special cases equal the textbook formulas.",
['inputs'],'every pair of samples and every mode',
'Tests compare on one data set.',
['dicomo/dicomo.py','dicomo/_dicomo_utils.py'],
[('dcor for the fast path, distance matrices for the naive path','dicomo/dicomo.py')],['moment_'])
prop('C23','Variables not retained by the sparse fit have zero coefficients',
"Every variable outside the reported set of retained variables has an exactly zero coefficient and weight, and a larger sparsity parameter never retains more variables at the first component.",
['inputs','configurations'],'every data set, number of components and sparsity parameter',
'Tests compare coefficients for one data set and sparsity value.',
['sprm/snipls.py','sprm/sprm.py'],
[('soft thresholding and zeroing of eliminated variables','sprm/snipls.py')],['coef_, x_weights_, colret_'])
prop('C24','Every documented option reaches the results it governs',
"With everything else equal, a documented option changes the results it governs and is never ignored or replaced by a fixed value: weight function, cut-off probabilities, starting values, iteration limit and tolerance the robust weights and coefficients; centring, scaling and trimming choices the locations, scales and what is computed with them; sparsity, number of components, whitening, slices, method and distance metric the loadings and scores; co-moment mode, estimator class, order, option, standardisation and bias correction the co-moment; the regression settings the coefficients.",
['configurations'],'every option and every result it governs, for all data',
'Tests use one or two settings and compare with a reference for those; an option that is dropped or hard-coded at its default goes unnoticed.',
ALL,
[('options read from the object and handed to the estimation steps','sprm/sprm.py'),('arguments passed on to scaler, projection index and regression','ppdire/ppdire.py'),('arguments of the objective functions','sudire/sudire.py'),('mode, order and option of the co-moment','dicomo/dicomo.py')],
['fitted attributes under two values of the same option'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
