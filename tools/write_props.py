"""Writes /verif/properties.jsonl (kept so that the texts stay reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=["src/glum/" + f for f in files],
            mechanism=[dict(name=n, where="src/glum/" + w) for n, w in mech],
            observe_at=observe,
            **({"state": state} if state else {}),
            hook_needed=None,
        ),
    ))


prop("C01", "A converged fit minimises the documented penalised objective",
     "Whenever a fit ends without a convergence warning, the reported coefficients and intercept satisfy the first-order optimality conditions of the documented objective: half the weight-normalised deviance plus alpha*l1_ratio*||P1 w||_1 plus half of alpha*(1-l1_ratio)*w'P2 w, over the coefficients that the bounds allow. "
     "This holds, to the requested gradient tolerance, for every combination of family, link, solver, form of the penalty weights (identity, None, vector, dense or sparse matrix), sample weights, offset, intercept, predictor scaling, coordinate selection, Hessian approximation and shape of the data. "
     "On well-posed problems the fit does converge.",
     ["inputs", "configurations"],
     "All data sets and all combinations of the estimator's options.",
     "The tests compare a few option combinations with stored numbers or other packages; the combinations interact (predictors are always rescaled internally, penalties are rescaled with them, active sets shrink and grow) and the product of the options is never walked.",
     ["_glm.py", "_solvers.py", "_cd_fast.pyx", "_utils.py", "_linalg.py", "_distribution.py"],
     [("outer IRLS loop, line search and stopping rule", "_solvers.py:_irls_solver"),
      ("inner coordinate descent", "_cd_fast.pyx:enet_coordinate_descent_gram"),
      ("rescaling of predictors, penalties and bounds", "_utils.py:standardize"),
      ("choice of solver", "_glm.py:_set_up_for_fit"), ("closed form", "_solvers.py:_closed_form_solver"),
      ("gradient solvers", "_solvers.py:_lbfgs_solver, _trust_constr_solver")],
     ["coef_", "intercept_", "ConvergenceWarning"])

prop("C02", "Fitted coefficients always satisfy the requested constraints",
     "Every fit that returns respects the requested lower and upper bounds, expressed in the original units of the data, whatever the iteration budget, start values, warm start, penalty, intercept, weights and predictor scaling; a fit that converged also respects linear inequality and monotonicity constraints (consecutive coefficients of a term ordered as requested, in the declared order of its levels). "
     "Among the coefficients that satisfy the constraints, a converged fit is optimal for the documented objective, and constraints that are not binding do not change the answer. "
     "Constraints that are malformed or combined with a solver that cannot honour them are rejected.",
     ["inputs", "configurations"],
     "All constraint sets, start values and option combinations.",
     "Tests use a handful of bounds with predictors of unit-like scale and zero start values; infeasible starts, scaled columns and constraints that become active along the way are not enumerated.",
     ["_glm.py", "_solvers.py", "_utils.py", "_cd_fast.pyx"],
     [("start values are clipped to the bounds", "_glm.py:_get_start_coef"), ("bounds inside coordinate descent", "_cd_fast.pyx"),
      ("monotonicity as iterated penalties", "_solvers.py:_monotonic_irls_solver"), ("linear inequalities", "_solvers.py:_trust_constr_solver"),
      ("rescaling of bounds and constraints", "_utils.py:standardize")],
     ["coef_", "raised errors"])

prop("C03", "Deviance, score and curvature are those of the textbook family",
     "For every family and parameter, every valid target, mean and weight, in single and double precision: the unit variance and unit deviance are the textbook functions, the deviance is the weighted sum of the unit deviances, and a derivative is the derivative of the function it is named after. "
     "The linear predictor, mean, deviance (up to a term free of the coefficients), row gradient and non-negative row curvature that fitting uses agree with them for every link, on specialised and generic code paths alike, and do not depend on memory layout or thread count.",
     ["inputs", "configurations", "schedules"],
     "All families, parameters, links, precisions, layouts, vectors of targets, means and weights, and divisions of the rows among threads.",
     "Each family/link pair has its own hand-written kernel; tests touch most of them at a few random points and never at the boundaries, in single precision or with strided data.",
     ["_distribution.py", "_functions.pyx"],
     [("family classes", "_distribution.py"), ("fused kernels", "_functions.pyx")],
     ["unit_deviance", "deviance", "unit_variance", "eta_mu_deviance", "rowwise_gradient_hessian", "in_y_range"])

prop("C04", "Log-likelihood, dispersion and information criteria are as documented",
     "For every family that has a density, the log-likelihood is the weight-sum of the log densities (or log masses) of the targets at the given means and dispersion, and the dispersion estimate is the documented Pearson or deviance ratio with the requested degrees of freedom. "
     "AIC, AICc and BIC of a fitted model equal the documented functions of the log-likelihood of its predictions on the training data, the number of non-zero coefficients (plus intercept) and the number of observations, and refer to the most recent fit.",
     ["inputs", "histories", "configurations"],
     "All families, parameters, targets, means, weights, dispersions and all histories of fits and queries.",
     "Log-likelihoods are tested at single stored values per family; the series for the compound Poisson density switches branches with the data, and the criteria are cached on the estimator across calls.",
     ["_distribution.py", "_functions.pyx", "_glm.py"],
     [("log-likelihood kernels", "_functions.pyx"), ("series for the Tweedie normalisation", "_functions.pyx:_tweedie_normalization"), ("information criteria", "_glm.py:_compute_information_criteria")],
     ["log_likelihood", "dispersion", "aic", "aicc", "bic"],
     [dict(name="_info_criteria", meaning="cached criteria", where="src/glum/_glm.py")])

prop("C05", "Link functions are consistent and names resolve to what they say",
     "For every link, the inverse undoes the link on the whole admissible range, the reported derivatives of the link and of the inverse link (first and second) are their exact derivatives, and the inverse link lands inside the range of means (strictly between zero and one for every finite predictor of a logit or complementary log-log link, positive for a log link short of underflow). "
     "A family or link given by name, with or without a parameter, or by 'auto', resolves to the documented family or link, and two families or links of the same class compare equal exactly when they denote the same function; a Tweedie representation denotes the same function as the object it represents.",
     ["inputs", "configurations"],
     "All links and parameters, all admissible means and linear predictors, all names.",
     "Tests check round trips at a few points for a few powers; second derivatives only enter observed information matrices.",
     ["_link.py", "_glm.py", "_distribution.py"],
     [("link classes", "_link.py"), ("name resolution", "_glm.py:get_family, get_link")],
     ["link", "inverse", "derivative", "inverse_derivative", "inverse_derivative2", "get_family", "get_link"])

prop("C06", "Sample weights act as exact repetition counts, up to a common factor",
     "Fitting with integer sample weights gives the same coefficients, intercept, regularisation path, score, log-likelihood and deviance as repeating the rows that often; weight zero equals leaving the row out. "
     "Multiplying all weights by a positive constant, permuting the rows, or permuting the columns (with their penalties and bounds) changes nothing but the order of the coefficients.",
     ["inputs", "configurations"],
     "All data sets, weight vectors, permutations, families, penalties and solvers.",
     "Tests check a single weight vector for two or three families; weights enter centring, scaling, start values, the gradient, the Hessian and every metric separately.",
     ["_glm.py", "_solvers.py", "_distribution.py", "_functions.pyx", "_utils.py"],
     [("weights are normalised once", "_glm.py:_set_up_and_check_fit_args"), ("weighted standardisation", "_utils.py:standardize")],
     ["coef_", "intercept_", "score", "coef_path_"])

prop("C07", "Results do not depend on how the same data are stored",
     "The same numbers given as a C- or Fortran-ordered, strided or read-only array, sparse matrix of any format, tabmat matrix of any kind, or pandas or polars data frame, with targets, weights and offsets as arrays, lists, series or scalars, give the same fit, predictions, path and standard errors. "
     "A categorical column gives the same as its explicit one-hot columns (with or without a dropped level), and single precision or integer data give the same up to rounding.",
     ["inputs", "configurations"],
     "All storage formats, element types and memory layouts of all inputs, for all options.",
     "Tests cover some containers with default options; each container takes its own conversion, scaling and product path.",
     ["_glm.py", "_validation.py", "_linalg.py", "_utils.py"],
     [("conversion of inputs", "_glm.py:_set_up_and_check_fit_args"), ("data frame conversion", "_glm.py:_convert_from_df"), ("penalty expansion", "_utils.py:expand_categorical_penalties"), ("products", "_linalg.py")],
     ["coef_", "intercept_", "predict", "std_errors"])

prop("C08", "Every point of a regularisation path is the individual fit at that alpha",
     "With a search over alphas, each point of the path equals a separate fit at that alpha, whatever order, length or source the alphas have; an automatic grid has the documented length, ratio and end points, and, when every feature carries an L1 penalty, at its largest alpha all coefficients are zero while a smaller alpha frees one. "
     "Selecting a path point by alpha or by index in a prediction uses exactly that point, everything else refers to the last point, and points that are not on the path are rejected.",
     ["inputs", "configurations", "histories"],
     "All data sets, penalties, offsets, weights, alpha sequences and selections.",
     "Tests check one or two grids; the path reuses solver state from one alpha to the next.",
     ["_glm.py", "_glm_cv.py", "_solvers.py"],
     [("alpha grid", "_glm.py:_get_alpha_path"), ("warm-started path", "_glm.py:_solve_regularization_path"), ("selection by alpha or index", "_glm.py:_resolve_alpha_index")],
     ["coef_path_", "intercept_path_", "_alphas", "predict(alpha=, alpha_index=)"])

prop("C09", "Cross-validation selects what independent refits on the folds would select",
     "The deviance recorded for each l1_ratio, alpha and fold is the weight-normalised deviance on the held-out rows of the model fitted on the other rows alone; the selected l1_ratio and alpha minimise its mean over folds, and the final coefficients are those of a plain fit on all data with the selected values. "
     "This holds for any splitter, weights, offsets, categorical data, predictor scaling and constraints, and is independent of the number of jobs.",
     ["inputs", "configurations", "schedules"],
     "All splits, grids, weights, offsets and job counts.",
     "Tests compare with scikit-learn for one normal model and check attribute shapes; per-fold scaling, weights and offsets are not checked.",
     ["_glm_cv.py", "_glm.py"],
     [("fold loop and selection", "_glm_cv.py:fit")],
     ["alpha_", "l1_ratio_", "deviance_path_", "coef_path_", "train_deviance_path_", "coef_"])

prop("C10", "Covariance matrices equal their textbook sandwich and information formulas",
     "For a fitted unpenalised model the non-robust, robust and clustered covariance matrices, with expected or observed information and any dispersion, equal the textbook formulas evaluated at the fitted means with the documented small-sample corrections, for every family, link, weights, offset, intercept choice and storage. "
     "Clustered results depend only on which rows share a cluster, not on the labels, and every way of obtaining the matrix (at fit time, from training data, from stored predictions) agrees; standard errors are the square roots of its diagonal.",
     ["inputs", "configurations"],
     "All models, data, dispersions, groupings and label types.",
     "Tests compare with statsmodels for one or two families with cluster labels 0..G-1.",
     ["_glm.py", "_distribution.py", "_linalg.py"],
     [("covariance", "_glm.py:covariance_matrix"), ("information and score", "_distribution.py:_fisher_information, _observed_information, _score_matrix"), ("cluster sums", "_glm.py:_group_sum")],
     ["covariance_matrix", "std_errors"])

prop("C11", "Coefficient tables and Wald tests agree with coefficients and covariance",
     "The coefficient table lists, in the order of the features, each estimate with its standard error, z or t value, p-value and confidence limits at the requested level, all derived from the reported coefficients and covariance matrix. "
     "A Wald test equals its textbook statistic and p-value for the linear restrictions it denotes, and the same restrictions written as a matrix, feature names, term names or a formula string give the same result; restrictions naming unknown features or terms are rejected.",
     ["inputs", "configurations"],
     "All fitted models, restriction matrices, right-hand sides, names and levels.",
     "Tests use two or three restrictions; the equivalence of the ways to write one is only sampled.",
     ["_glm.py"],
     [("coefficient table", "_glm.py:coef_table"), ("Wald tests", "_glm.py:wald_test and helpers")],
     ["coef_table", "wald_test"])

prop("C12", "A fitted estimator depends only on its parameters and its latest fit",
     "After any history of fits, parameter changes, predictions, summaries, failed fits, cloning, copying and pickling, fitting gives exactly what a fresh estimator with the same parameters gives on the same data, and every later query answers for that latest fit alone, which a fit that fails leaves as it was (warm starts change only the path to the optimum). "
     "Queries never change the estimator's answers, and a pickled, copied or cloned estimator behaves like the original.",
     ["histories"],
     "All sequences of operations on one estimator.",
     "Tests almost always fit once per estimator; state left behind by an earlier fit is only visible in multi-step histories.",
     ["_glm.py", "_glm_cv.py"],
     [("fit resets and sets attributes", "_glm.py:fit, _set_up_for_fit, _tear_down_from_fit"), ("cached criteria, covariance, formula and category state", "_glm.py")],
     ["all public methods and fitted attributes"],
     [dict(name="fitted attributes", meaning="results and cached summaries", where="src/glum/_glm.py")])

prop("C13", "The caller's data and parameters are never modified",
     "No fit, prediction, score, covariance, table or test modifies the arrays, matrices, data frames, series, weights, offsets, penalties, bounds, start values, alphas or other objects passed to it or to the constructor, whether it succeeds or fails, and whatever copying option is set. "
     "Constructor parameters read back unchanged after any operation.",
     ["inputs", "configurations", "histories"],
     "All operations, containers, options and failure points.",
     "Tests check X for one container; standardisation and solvers work in place on internal views of the same buffers.",
     ["_glm.py", "_utils.py", "_solvers.py", "_validation.py"],
     [("views of the caller's buffers", "_glm.py:_set_up_and_check_fit_args"), ("in-place (un)standardisation", "_utils.py")],
     ["inputs before and after", "get_params"])

prop("C14", "Categories are matched by label at prediction; missing values obey policy",
     "Predictions for a data frame depend only on the category label in each row, not on the order, presence or number of declared categories, the data-frame library, or the other rows in the frame, and agree with the one-hot model of the training labels. "
     "Missing values follow the chosen policy (fail, zero or own category) at fit and at prediction, and labels never seen in training raise an error instead of silently receiving another label's coefficient.",
     ["inputs", "histories"],
     "All training and prediction frames with categorical columns, category declarations and missing patterns.",
     "Tests check one reordering; alignment depends on the pair of category lists, the missing policy and the library.",
     ["_glm.py", "_utils.py"],
     [("alignment to training levels", "_utils.py:align_df_categories"), ("missing category handling", "_utils.py:add_missing_categories"), ("conversion", "_glm.py:_convert_from_df")],
     ["predict", "linear_predictor", "feature_names_", "raised errors"])

prop("C15", "A formula model equals the model on its design matrix",
     "A model given by a formula (one- or two-sided, with or without intercept, with interactions, categorical terms and transformations) has the same coefficients, names, predictions, scores and standard errors as the model fitted on the design matrix the formula denotes. "
     "Predictions on new data use the transformations and categories learned in training, and row order or extra columns of the new data do not matter.",
     ["inputs", "programs"],
     "All formulas in the grammar and all data frames.",
     "Tests use a handful of formulas on one data set.",
     ["_formula.py", "_glm.py"],
     [("parsing and intercept handling", "_formula.py"), ("model specs kept for prediction", "_glm.py:_set_up_and_check_fit_args")],
     ["coef_", "intercept_", "feature_names_", "predict"])

prop("C16", "Invalid parameters and data are rejected, valid ones are not",
     "Every value outside the documented domain of a parameter, every target outside the family's range, and every malformed, misaligned, negative, non-finite or inconsistent input makes fit (or the query) raise an error before any result is reported, whichever other options are set. "
     "Every documented value, including boundary values and every documented form, is accepted, and a failed query or a fit rejected for an invalid hyperparameter leaves a fitted model's predictions as they were.",
     ["inputs", "configurations"],
     "All single and paired invalid values over all documented parameters and inputs.",
     "Tests try a few invalid values per parameter with default values elsewhere.",
     ["_glm.py", "_glm_cv.py", "_validation.py", "_utils.py"],
     [("hyperparameter validation", "_glm.py:_validate_hyperparameters"), ("input validation", "_validation.py")],
     ["raised errors"])

prop("C17", "Predictions, scores and diagnostics agree with the fitted coefficients",
     "The linear predictor is X coef + intercept + offset, the prediction is its inverse link times nothing else (with weights only where documented), and the score is the fraction of weighted deviance explained relative to the documented null model, for every family, link, alpha selection, storage and offset. "
     "Diagnostics report what the solver did and asking for them never changes the result.",
     ["inputs", "configurations"],
     "All fitted models and all prediction inputs.",
     "Tests check predictions for a few models.",
     ["_glm.py"],
     [("prediction", "_glm.py:linear_predictor, predict"), ("score", "_glm.py:score")],
     ["linear_predictor", "predict", "score", "get_formatted_diagnostics"])

prop("C18", "Concurrent use gives the sequential results",
     "Fits and queries running in several threads, on separate estimators that share data, penalty arrays and family or link objects, and queries on one shared fitted estimator, give the same results under every interleaving as when run one after the other. "
     "No call leaves anything behind at module, class or shared-object level that another call can see.",
     ["schedules"],
     "All interleavings of concurrent calls.",
     "Tests are single threaded.",
     ["_glm.py", "_solvers.py", "_distribution.py", "_link.py", "_utils.py", "_glm_cv.py"],
     [("no module-level mutable state", "all modules"), ("queries do not write", "_glm.py")],
     ["coef_", "predict", "score", "std_errors"])

prop("C19", "Iterations descend and convergence is reported truthfully",
     "For every iteration budget the reported iteration count never exceeds the budget, the objective at the returned coefficients is finite and never worse than with a smaller budget or than at the start values, and a fit that stops because the budget ran out warns while a fit that warns has not met its tolerance. "
     "Raising the budget beyond the reported count changes nothing.",
     ["configurations", "inputs"],
     "All iteration budgets, tolerances, data and solvers.",
     "Tests check that a warning appears for one model; intermediate iterates are never examined.",
     ["_solvers.py", "_glm.py"],
     [("line search", "_solvers.py:line_search"), ("stopping rule", "_solvers.py:check_convergence"), ("truncation", "_solvers.py:_irls_solver")],
     ["n_iter_", "coef_", "ConvergenceWarning", "diagnostics"])

prop("C20", "The answer does not depend on where the search starts",
     "For strictly convex problems, start values given in original units, a warm start from any earlier fit, and the default start lead to the same coefficients for every solver, scaling, intercept and penalty; starting at the optimum returns it without iterating away from it. "
     "Warm starts supersede start values and change neither the earlier result held by the caller nor the start values passed in.",
     ["inputs", "configurations", "histories"],
     "All start values, earlier fits and options.",
     "Tests try one start value per solver with an intercept.",
     ["_glm.py", "_utils.py", "_solvers.py"],
     [("start values are standardised with the data", "_glm.py:_get_start_coef"), ("standardisation of start values", "_utils.py:standardize_warm_start")],
     ["coef_", "n_iter_"])

prop("C21", "Offsets are coefficients fixed at one",
     "Fitting with an offset gives the model in which a column equal to the offset has its coefficient fixed at one: a constant offset only shifts the intercept, offsets that are a linear combination of unpenalised columns only shift their coefficients, and for a log link an offset equals the matching exposure weighting. "
     "The same offset passed to prediction, score and covariance is used there in the same way, in any documented form, and omitting it means zero.",
     ["inputs", "configurations"],
     "All offsets, families, links, solvers and penalties.",
     "Tests check offsets for Poisson with the default solver.",
     ["_glm.py", "_distribution.py", "_solvers.py", "_validation.py"],
     [("offset in the linear predictor", "_linalg.py:_safe_lin_pred"), ("offset in the start value", "_distribution.py:guess_intercept"), ("offset forms", "_validation.py:check_offset")],
     ["coef_", "intercept_", "predict", "score"])

prop("C22", "A change of units changes only the units of the answer",
     "Multiplying or shifting columns, recombining unpenalised ones, duplicating a column under a ridge penalty, adding zero or constant columns under a penalty, removing columns the fit left out, giving the intercept as an unpenalised column, and multiplying, negating or swapping the classes of the target where the family allows it, with penalties, bounds, offsets and start values expressed in the same units, maps the coefficients, predictions, scores, covariance matrices, regularisation paths and cross-validation results onto each other. "
     "With scale_predictors the penalty itself does not depend on the units of the columns, however small or large their spread.",
     ["inputs", "configurations"],
     "All data, changes of units, families, solvers, penalties and estimators.",
     "Tests fit each data set in one unit only.",
     ["_glm.py", "_glm_cv.py", "_utils.py", "_solvers.py", "_distribution.py"],
     [("standardisation of columns, penalties and bounds", "_utils.py:standardize"), ("coefficients in original units", "_utils.py:unstandardize"), ("start values in standardised units", "_utils.py:standardize_warm_start"), ("largest alpha", "_glm.py:_get_alpha_path")],
     ["coef_", "intercept_", "coef_path_", "predict", "score", "covariance_matrix", "deviance_path_"])

prop("C23", "Families and links written by the user are treated like the built-in ones",
     "A distribution that implements only the documented abstract interface (bounds, unit variance and its derivative, unit deviance), and a link that implements only the abstract link, can be used wherever built-in ones can. If they describe a built-in family or link, every fit, path, cross-validation, prediction, score, covariance, table and test is that of the built-in one, for every solver, penalty, scaling, weighting, offset, precision and container; if they describe one that the library does not have, a converged fit is optimal for its own objective and its scores and covariances are those of its own variance function and link.",
     ["inputs", "configurations"],
     "All families and links that follow the abstract interface, and all configurations of the estimators.",
     "Tests use built-in families and links, which run on specialised code; what the base class derives from the interface is exercised only where a built-in object happens to lack a specialisation.",
     ["_distribution.py", "_link.py", "_glm.py", "_glm_cv.py", "_solvers.py"],
     [("generic deviance, gradient and curvature", "_distribution.py:ExponentialDispersionModel"), ("generic information and score matrices", "_distribution.py:_fisher_information"), ("abstract link", "_link.py:Link"), ("start intercept of unknown links", "_distribution.py:guess_intercept")],
     ["coef_", "intercept_", "predict", "score", "covariance_matrix", "coef_path_", "deviance_path_"])

prop("C24", "Saved, copied and wrapped models answer like the original",
     "A fitted model that is copied, deep-copied, pickled or stored with joblib, once or repeatedly, and loaded in the same or in a new process, gives the answers of the original to every query (predictions, scores, criteria, covariances, tables, tests, diagnostics, attributes), and learns from new data like a fresh one; so does a model saved by any version since 3.0, whose state lacks or names otherwise what later versions added. clone, get_params and set_params reproduce the model that a direct construction gives, and scikit-learn's Pipeline, GridSearchCV, cross_val_predict, cross_validate and metadata routing give what the same fits by hand give.",
     ["inputs", "configurations", "histories"],
     "All estimators, families, links, penalties, constraints, containers and formulas; all ways of saving; all states written since 3.0.",
     "Tests load one saved model of one version and emulate two single differences.",
     ["_glm.py", "_glm_cv.py", "_distribution.py", "_link.py", "_utils.py", "_formula.py"],
     [("states of earlier versions", "_glm.py:__setstate__"), ("levels of earlier versions", "_glm.py:categorical_levels_"), ("parameters kept as given", "_glm.py:GeneralizedLinearRegressor.__init__"), ("parameters of the search", "_glm_cv.py:GeneralizedLinearRegressorCV.__init__")],
     ["predict", "score", "covariance_matrix", "coef_table", "wald_test", "get_params", "coef_"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
