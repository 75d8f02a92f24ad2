"""The properties, once; tools/gen.py derives properties.jsonl and MANIFEST.json."""

NOTE = ("Every path of the encoded functions is executed symbolically within the stated bounds and the negated property "
        "is given to Z3; a counterexample is reported only after it fails on the unmodified code. Trusted: the numpy "
        "stand-in over exact reals, and the over-approximating stand-ins for external estimators.")

PROPS = [
 dict(id="C01", title="Causal order and adjacency matrix of a fit agree with each other",
  statement="After fitting DirectLiNGAM, MultiGroupDirectLiNGAM, HighDimDirectLiNGAM, ICALiNGAM or RESIT, the causal "
    "order lists every variable exactly once and the adjacency matrix has the shape variables x variables with entry "
    "[i, j] nonzero only if j comes before i in that order. Entry [i, j] is the coefficient of variable j in the "
    "estimation of variable i; for ICALiNGAM, when the unmixing matrix is a row permutation and rescaling of I - B "
    "with B acyclic, the estimate before pruning is exactly B.",
  for_all="every data set, every outcome of the independence measures, regressions and lasso fits, every subset of "
    "coefficients that comes out zero, every acyclic B for ICALiNGAM",
  why="tests check fitted models on a few generated data sets, whose orders and zero patterns are two or three of the "
    "factorially many; a coefficient written into the wrong row or column is seen only for particular orders",
  files=["lingam/direct_lingam.py", "lingam/base.py", "lingam/ica_lingam.py", "lingam/multi_group_direct_lingam.py",
         "lingam/high_dim_direct_lingam.py", "lingam/resit.py"],
  mech=[("adjacency estimation along the causal order", "lingam/base.py:_BaseLiNGAM._estimate_adjacency_matrix"),
        ("order search", "lingam/direct_lingam.py:DirectLiNGAM.fit"),
        ("permutation to strictly lower triangular", "lingam/ica_lingam.py:ICALiNGAM._estimate_causal_order")]),
 dict(id="C02", title="Prior knowledge is honoured by every fit",
  statement="A declared absent path i -> j never appears as an edge in the adjacency matrix and a declared present path "
    "i -> j always puts i before j in the causal order, for DirectLiNGAM, MultiGroupDirectLiNGAM and "
    "BottomUpParceLiNGAM (hard prior knowledge). Soft prior knowledge restricts edges but not the order; consistent "
    "acyclic knowledge is accepted, and a matrix of the wrong shape is rejected with ValueError.",
  for_all="every prior-knowledge matrix over {-1, 0, 1}, every data set, every outcome of the tests and regressions",
  why="tests use two or three hand-written matrices; the number of matrices is 3^(n(n-1)) and the interaction with the "
    "order search depends on the data",
  files=["lingam/direct_lingam.py", "lingam/base.py", "lingam/multi_group_direct_lingam.py",
         "lingam/bottom_up_parce_lingam.py"],
  mech=[("candidate filtering by prior knowledge", "lingam/direct_lingam.py:DirectLiNGAM._search_candidate"),
        ("predictor filtering", "lingam/base.py:_BaseLiNGAM._estimate_adjacency_matrix"),
        ("partial orders", "lingam/direct_lingam.py:DirectLiNGAM._extract_partial_orders"),
        ("sink search under prior knowledge", "lingam/bottom_up_parce_lingam.py:BottomUpParceLiNGAM._search_candidate")]),
 dict(id="C03", title="The prior-knowledge matrix says exactly what was declared",
  statement="make_prior_knowledge returns an n x n matrix whose diagonal is -1 and whose entry [i, j] is 1 exactly where "
    "a path j -> i was declared, 0 exactly where it is excluded (declared absent, i exogenous, or j a sink) and -1 "
    "where nothing was said; declarations may be lists, tuples or arrays. When declarations overlap, later kinds "
    "override earlier ones in the fixed sequence no-paths, paths, exogenous, sink.",
  for_all="every combination of declared variables, for every kind of declaration",
  why="tests compare three fixed declarations with expected matrices",
  files=["lingam/utils/__init__.py"],
  mech=[("matrix construction", "lingam/utils/__init__.py:make_prior_knowledge")]),
 dict(id="C04", title="Directed paths and total effects of an adjacency matrix are exact",
  statement="find_all_paths returns every directed path from one variable to another whose edges all exceed the "
    "threshold in absolute value, each once, together with the product of its coefficients; calculate_total_effect "
    "returns the sum over all directed paths of the products of coefficients. An unknown-direction (NaN) entry is "
    "handled as documented.",
  for_all="every acyclic coefficient matrix, every pair of variables, every threshold",
  why="tests evaluate one or two fixed matrices",
  files=["lingam/utils/__init__.py"],
  mech=[("path enumeration", "lingam/utils/__init__.py:find_all_paths"),
        ("total effect", "lingam/utils/__init__.py:calculate_total_effect")]),
 dict(id="C05", title="Bootstrap summaries count exactly what the samples contain",
  statement="Causal direction counts, DAG counts, edge probabilities, total effects and path tables of a bootstrap "
    "result (plain, VAR, VARMA and longitudinal) report exactly the frequencies, signs, medians and path effects "
    "found in the stored samples above the threshold. Rows are sorted by decreasing frequency and truncated to the "
    "requested number; the stored samples are not modified.",
  for_all="every set of stored coefficient matrices and total effects, every threshold and truncation",
  why="tests count rows of a summary of one bootstrap run; mis-keyed or mis-signed rows have the same number",
  files=["lingam/bootstrap.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py"],
  mech=[("plain summaries", "lingam/bootstrap.py:BootstrapResult"),
        ("lagged summaries", "lingam/var_lingam.py:VARBootstrapResult"),
        ("VARMA summaries", "lingam/varma_lingam.py:VARMABootstrapResult"),
        ("longitudinal summaries", "lingam/longitudinal_lingam.py:LongitudinalBootstrapResult")]),
 dict(id="C06", title="A bootstrap run stores what the fits on resamples produced",
  statement="A bootstrap run fits once per requested sample on data resampled with replacement from the given data (for "
    "lagged models: on data simulated from the fitted equations with resampled residuals; for longitudinal models: the "
    "same individuals at every time point) and stores for each sample exactly that fit's matrices, the total effects "
    "they imply from earlier to later variables, and the row numbers of the resample. A number of samples that is "
    "not a positive integer is rejected with ValueError, and the given data are not modified.",
  for_all="every estimate of every sample's fit, every causal order, unknown-direction pairs, every residual",
  why="tests check the number of stored samples only; effects filed under the wrong pair, sample or lag go unnoticed",
  files=["lingam/base.py", "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py", "lingam/multi_group_direct_lingam.py",
         "lingam/multi_group_rcd.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py"],
  mech=[("plain", "lingam/base.py:_BaseLiNGAM.bootstrap"), ("lagged", "lingam/var_lingam.py:VARLiNGAM.bootstrap"),
        ("VARMA", "lingam/varma_lingam.py:VARMALiNGAM.bootstrap"),
        ("longitudinal", "lingam/longitudinal_lingam.py:LongitudinalLiNGAM.bootstrap"),
        ("groups", "lingam/multi_group_direct_lingam.py:MultiGroupDirectLiNGAM.bootstrap")]),
 dict(id="C09", title="Total effects of a fitted model are those of its structural equations",
  statement="The total effect a fitted model reports from one variable to another is the coefficient of the source in a "
    "regression of the destination on the source and the source's parents, and for the variants computed from "
    "coefficients the sum over all directed paths (through earlier time points too, for lagged models) of the "
    "coefficient products. A source later in the causal order than the destination draws a warning, and a source in an "
    "unknown-direction pair gives NaN.",
  for_all="every causal order and coefficient pattern, every pair of variables, every lag and time point",
  why="tests call each method once on one model and compare nothing or one number",
  files=["lingam/base.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py",
         "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py", "lingam/multi_group_direct_lingam.py",
         "lingam/multi_group_rcd.py"],
  mech=[("regression based", "lingam/base.py:_BaseLiNGAM.estimate_total_effect"),
        ("lagged", "lingam/var_lingam.py:VARLiNGAM.estimate_total_effect2"),
        ("longitudinal", "lingam/longitudinal_lingam.py:LongitudinalLiNGAM.estimate_total_effect")]),
 dict(id="C10", title="The error-independence matrix pairs the right residuals",
  statement="get_error_independence_p_values returns a symmetric matrix (one per group, one per time point) whose entry "
    "[i, j] is the p-value of the independence test between the errors of variables i and j, the errors being what the "
    "structural equations leave of the data; the diagonal is 0. Variables in an unknown-direction pair or block get "
    "NaN, and time points without estimates are NaN.",
  for_all="every coefficient matrix and order, every unknown-direction pattern, every outcome of the test",
  why="tests check the shape of the matrix only",
  files=["lingam/base.py", "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py", "lingam/var_lingam.py",
         "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py", "lingam/multi_group_direct_lingam.py",
         "lingam/multi_group_rcd.py"],
  mech=[("plain", "lingam/base.py:_BaseLiNGAM.get_error_independence_p_values"),
        ("longitudinal", "lingam/longitudinal_lingam.py:LongitudinalLiNGAM.get_error_independence_p_values")]),
 dict(id="C14", title="Intervention effects follow the structural equations",
  statement="estimate_effects_on_prediction reports, for each variable, the absolute change of the expected prediction "
    "when that variable is moved one standard deviation up or down from its mean, and estimate_optimal_intervention "
    "the value that makes the expected prediction equal the desired output, both obtained by propagating the "
    "intervention through the structural equations of the model. The result does not depend on the position of the "
    "target among the columns, nor on coefficients that cancel each other.",
  for_all="every acyclic coefficient matrix, every data mean and spread, every linear predictor",
  why="tests only run the calls once and look at the shape of the output",
  files=["lingam/causal_effect.py"],
  mech=[("propagation of an intervention", "lingam/causal_effect.py:CausalEffect._get_propagated_effects"),
        ("optimal intervention", "lingam/causal_effect.py:CausalEffect.estimate_optimal_intervention"),
        ("effects on prediction", "lingam/causal_effect.py:CausalEffect.estimate_effects_on_prediction")]),
 dict(id="C16", title="Drawings and printed summaries show exactly the given graph",
  statement="make_dot and make_dot_highlight draw an edge j -> i exactly where the coefficient [i, j] exceeds the limit "
    "in absolute value, labelled with that coefficient, once as an undirected edge where the direction is unknown, "
    "with nodes and highlighted paths exactly as requested. print_causal_directions and print_dagc print every "
    "listed direction and graph with its sign and percentage; inputs are not modified.",
  for_all="every coefficient matrix, every limit, every label form",
  why="tests only check that drawing does not raise",
  files=["lingam/utils/__init__.py"],
  mech=[("drawing", "lingam/utils/__init__.py:make_dot"), ("highlight", "lingam/utils/__init__.py:make_dot_highlight"),
        ("printing", "lingam/utils/__init__.py:print_causal_directions")]),
 dict(id="C17", title="Derived descriptions of an adjacency matrix are exact",
  statement="The sink and exogenous variables reported are exactly those without outgoing and without incoming edges, "
    "and the distance reported for each variable is its shortest directed distance from the root variables. The model "
    "handed to the fit evaluation has exactly the regressions of the nonzero entries, a latent common cause or "
    "covariance for each unknown-direction pair, and the declared ordinal variables.",
  for_all="every adjacency matrix, every flag pattern",
  why="tests evaluate single fixed matrices",
  files=["lingam/utils/__init__.py"],
  mech=[("roots and sinks", "lingam/utils/__init__.py:get_sink_variables"),
        ("distances", "lingam/utils/__init__.py:calculate_distance_from_root_nodes"),
        ("model description", "lingam/utils/__init__.py:evaluate_model_fit")]),
 dict(id="C07", title="VAR and VARMA fits report the structural coefficients of the process",
  statement="With instantaneous matrix B0 found on the residuals of the vector autoregression, the fitted lagged matrices "
    "are (I - B0) times the autoregressive coefficients (and for VARMA (I - B0) times the moving-average coefficients "
    "times the inverse of I - B0), stored lag by lag after B0, and the residuals are what the autoregression leaves of "
    "the data. The number of lags (or order) is the one preferred by the requested criterion, given coefficients are "
    "used as they are, and pruning replaces the coefficients by those of the adaptive lasso on the matching lagged columns.",
  for_all="every autoregressive and moving-average coefficient, every instantaneous matrix, every criterion value, every "
    "outcome of the pruning",
  why="tests check that a fit runs; matrices swapped between lags, transposed or multiplied on the wrong side still have "
    "the right shape",
  files=["lingam/var_lingam.py", "lingam/varma_lingam.py"],
  mech=[("structural coefficients (VAR)", "lingam/var_lingam.py:VARLiNGAM._calc_b"),
        ("lag selection", "lingam/var_lingam.py:VARLiNGAM._estimate_var_coefs"),
        ("structural coefficients (VARMA)", "lingam/varma_lingam.py:VARMALiNGAM._calc_psi_and_omega"),
        ("pruning", "lingam/var_lingam.py:VARLiNGAM._pruning")]),
 dict(id="C08", title="A longitudinal fit reports one consistent equation system per time point",
  statement="For every time point t from n_lags on, LongitudinalLiNGAM reports an instantaneous matrix B(t,t) with its "
    "causal order, and lagged matrices B(t,t-1) ... B(t,t-n_lags) in that sequence, such that the residuals it reports "
    "are what the regression on the n_lags preceding time points leaves of the data; earlier time points are NaN. "
    "Prior knowledge over the unrolled variables forbids exactly the declared edges; malformed data are rejected.",
  for_all="every regression coefficient, every instantaneous matrix and order, every prior-knowledge pattern",
  why="tests run one fit with one lag; coefficients filed under the wrong lag or time point have the right shape",
  files=["lingam/longitudinal_lingam.py"],
  mech=[("residuals", "lingam/longitudinal_lingam.py:LongitudinalLiNGAM._compute_residuals"),
        ("lagged matrices", "lingam/longitudinal_lingam.py:LongitudinalLiNGAM.fit")]),
 dict(id="C11", title="RCD keeps exactly the ancestors, parents and pairs its tests support",
  statement="RCD and MultiGroupRCD return the ancestor sets, parent sets and unknown-direction pairs that follow from the "
    "outcomes of their non-Gaussianity, correlation and independence tests: x_j is an ancestor of x_i exactly when, on "
    "some subset of variables given what their common ancestors leave, x_j alone is a candidate cause; parents are the "
    "ancestors still correlated given the others; pairs of non-ancestors that remain correlated are marked NaN both ways. "
    "With several groups every group has to support a decision.",
  for_all="every outcome of every test, every significance level within the bounds",
  why="tests look at one data set with a clear answer; a wrong residual, a wrong alpha or a missing group changes the "
    "answer only for particular test outcomes",
  files=["lingam/rcd.py", "lingam/multi_group_rcd.py"],
  mech=[("ancestors", "lingam/rcd.py:RCD._extract_ancestors"), ("parents", "lingam/rcd.py:RCD._extract_parents"),
        ("confounded pairs", "lingam/rcd.py:RCD._extract_vars_sharing_confounders"),
        ("groups", "lingam/multi_group_rcd.py:MultiGroupRCD._extract_ancestors")]),
 dict(id="C13", title="BottomUpParceLiNGAM orders exactly the variables its tests support",
  statement="BottomUpParceLiNGAM repeatedly takes as sink the variable whose regression residual is most independent of "
    "the other remaining variables and stops at the first one whose independence is rejected at alpha (or exceeds the "
    "F-correlation threshold); the variables left form one leading block of unknown order. Matrix entries inside the block are NaN, "
    "entries of ordered variables are regression coefficients on their predecessors, all others 0.",
  for_all="every outcome of every independence test, every significance level and threshold, every regression outcome",
  why="tests look at one or two data sets, where the answer is clear-cut",
  files=["lingam/bottom_up_parce_lingam.py"],
  mech=[("sink search", "lingam/bottom_up_parce_lingam.py:BottomUpParceLiNGAM._search_causal_order"),
        ("matrix", "lingam/bottom_up_parce_lingam.py:BottomUpParceLiNGAM._estimate_adjacency_matrix")]),
 dict(id="C12", title="CAM-UV keeps exactly the parents and confounded pairs its tests support",
  statement="CAMUV and MultiGroupCAMUV return the matrix that follows from the outcomes of their independence tests: sets "
    "of dependent variables are examined from size two up to num_explanatory_vals, x_i gets as parents the rest of a set "
    "exactly when its residual on them is the most independent one, is independent at alpha (or below ind_corr), and the "
    "residuals without them are not; a parent is dropped when it is not needed given the others; pairs left dependent "
    "without a parent relation are NaN both ways. Pairs declared impossible by prior knowledge never become edges. With "
    "several groups one combined outcome decides. Malformed arguments are rejected with ValueError.",
  for_all="every outcome of every independence test within the bounds, every significance level and forbidden pair",
  why="tests run a few data sets; a wrong residual, a wrong comparison or a skipped prior-knowledge pair only shows for "
    "particular test outcomes",
  files=["lingam/camuv.py", "lingam/multi_group_camuv.py"],
  mech=[("parents", "lingam/camuv.py:CAMUV._find_parents"), ("matrix", "lingam/camuv.py:CAMUV._estimate_adjacency_matrix"),
        ("groups", "lingam/multi_group_camuv.py:MultiGroupCAMUV._find_parents")]),
 dict(id="C15", title="The simulator computes exactly what the (changed) structural equations say",
  statement="CausalBasedSimulator.train fits, per variable, one model on exactly the variable's parents in the graph "
    "(NaN entries count as no edge; time series lags are aligned) and keeps its residuals. run() without changes "
    "reproduces the training data; run() with replaced exogenous values or models gives exactly the solution of the "
    "changed structural equations, every downstream variable included; shuffled residuals are permuted by one "
    "permutation; one run never affects a later one. Cyclic graphs or changes, malformed arguments, and run() before "
    "train() are rejected.",
  for_all="every graph, fitted coefficient, replaced coefficient and value, and every listed shuffle, within the bounds",
  why="tests check shapes and that runs do not crash; a parent read before it was simulated, residuals of the wrong "
    "variable or state leaking from a previous run change only the numbers",
  files=["lingam/causal_based_simulator.py"],
  mech=[("training", "lingam/causal_based_simulator.py:CausalBasedSimulator.train"),
        ("simulation", "lingam/causal_based_simulator.py:CausalBasedSimulator.run")]),
 dict(id="C18", title="Out-of-sample tuning picks the configuration that predicts best",
  statement="OutOfSampleCausalTuning estimates one graph per configuration and fold from the training rows, predicts every "
    "variable of the test rows from exactly its Markov blanket in that graph (all other variables for all_others, the "
    "training mean for an empty blanket) and reports per configuration the mean mutual information of truth and prediction "
    "and the mean blanket size. The best-scoring configuration is chosen; with the sparsity penalty, the one with the "
    "smallest blankets among those whose permutation p-value exceeds thr. Malformed configurations are rejected.",
  for_all="every estimated graph within the bounds",
  why="the class has no tests; a wrong Markov blanket shows only for graphs with colliders or isolated variables",
  files=["lingam/experimental/oct.py"],
  mech=[("Markov blanket", "lingam/experimental/oct.py:OutOfSampleCausalTuning._get_mb"),
        ("scores", "lingam/experimental/oct.py:OutOfSampleCausalTuning._evaluate_config"),
        ("sparsity", "lingam/experimental/oct.py:OutOfSampleCausalTuning._sparsity_penalty")]),
 dict(id="C19", title="Bootstrapping with imputation reports what was drawn, imputed and fitted",
  statement="bootstrap_with_imputation draws rows with replacement per resample, shows the un-imputed resample to the causal "
    "model and to the imputer, fits the causal model on exactly the imputed data sets, and returns the row numbers drawn, "
    "the order and matrices of each fit, and the imputed values exactly at the positions missing in the resample (NaN "
    "elsewhere). The same seed repeats the draws, the default imputations are drawn anew, prior knowledge reaches the default "
    "model, malformed outputs of custom parts are rejected with ValueError, and the data are not modified.",
  for_all="every pattern of missing values, every imputed value, causal order and coefficient within the bounds",
  why="tests check shapes and the positions of missing values on one data set, not which values are stored where",
  files=["lingam/tools/__init__.py"],
  mech=[("bootstrap loop", "lingam/tools/__init__.py:bootstrap_with_imputation"),
        ("output checks", "lingam/tools/__init__.py:_check_cd_output"),
        ("default imputer", "lingam/tools/__init__.py:_DefaultMultipleImputation")]),
 dict(id="C20", title="LiM returns the best structure its local search compares",
  statement="LiM.fit returns adjacency_matrix_. With only_global it is the estimate of the global phase with weights below "
    "w_threshold set to zero. Otherwise the result is acyclic unless it is that estimate itself, and its score (log-likelihood "
    "of every variable given its parents - least squares for continuous, logistic regression for binary variables - minus "
    "log(n)/2 per edge and variable) is not worse than that of the estimate, of any acyclic reorientation of its edges, and, "
    "for three or more variables, of removing one edge (when there are at least as many edges as variables) or adding one "
    "(when pairs are unconnected). Edges keep their weights, new and reversed ones have weight 1; fitting twice gives the same.",
  for_all="every likelihood, every estimate of the global phase and every threshold within the bounds",
  why="the test only prints the result of one data set",
  files=["lingam/lim.py"],
  mech=[("search", "lingam/lim.py:LiM._estimate_LiM"), ("entry", "lingam/lim.py:LiM.fit")]),
 dict(id="C21", title="Generated data follow the fitted cause and effect equations",
  statement="CausalDataGenerator.generate returns, for the rows of the fitted data, the adjustments, the cause computed from "
    "the adjustments and the effect computed from cause and adjustments, each as model prediction plus the row's residual "
    "(discrete variables: drawn with the model's probabilities). Values given as interv_endog replace a variable (also an "
    "adjustment), values given as interv_exog replace its error, and cause_model/effect_model replace an equation; without "
    "changes numeric data are reproduced exactly. Malformed arguments are rejected and the data are not modified.",
  for_all="every fitted model, every intervention value and every combination of interventions within the bounds",
  why="the two tests replace every error and both models at once, so the fitted equations are never evaluated",
  files=["lingam/experimental/cdg.py"],
  mech=[("generation", "lingam/experimental/cdg.py:CausalDataGenerator.generate"),
        ("residuals", "lingam/experimental/cdg.py:CausalDataGenerator._make_model")]),
 dict(id="C22", title="A fit depends only on the numbers it is given",
  statement="Fitting an estimator (DirectLiNGAM, ICALiNGAM, BottomUpParceLiNGAM, RCD, RESIT, CAMUV, VARLiNGAM, VARMALiNGAM, "
    "LongitudinalLiNGAM and the multi-group variants) returns the model itself and the result is a function of the data "
    "alone: the same numbers as float or integer array, nested list, DataFrame, Fortran-ordered or strided array give the "
    "same causal order, matrices and ancestors; fitting the same object again, or after other data (also with other "
    "variables), gives what a fresh object gives; neither the data nor the prior knowledge are modified.",
  for_all="every test outcome and every external estimate within the bounds",
  why="tests fit a fresh model once on float data frames; state kept from an earlier fit or integer arithmetic shows only otherwise",
  files=["lingam/base.py", "lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py",
         "lingam/resit.py", "lingam/camuv.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py",
         "lingam/multi_group_direct_lingam.py", "lingam/multi_group_rcd.py", "lingam/multi_group_camuv.py"],
  mech=[("fit", "lingam/direct_lingam.py:DirectLiNGAM.fit"), ("fit", "lingam/var_lingam.py:VARLiNGAM.fit"),
        ("fit", "lingam/rcd.py:RCD.fit")]),
 dict(id="C23", title="The HSIC test computes the statistic and its gamma approximation",
  statement="hsic_test_gamma(X, Y) returns the HSIC statistic 1/n sum(Kc * Lc) of the centred Gaussian kernel matrices and the tail "
    "probability of the gamma distribution with the moments of the statistic under independence (Gretton et al.), symmetric in "
    "X and Y and for one-dimensional and column data alike. The kernel width is the square root of half the median of the "
    "nonzero squared distances of at most the first 100 points, or the rule asked for; the data are not modified.",
  for_all="every kernel value and every data set within the bounds",
  why="tests use the test's p-values on a few data sets only through the estimators",
  files=["lingam/hsic.py"],
  mech=[("test", "lingam/hsic.py:hsic_test_gamma"), ("width", "lingam/hsic.py:get_kernel_width"), ("gram", "lingam/hsic.py:get_gram_matrix")]),
 dict(id="C24", title="The regression helpers return the coefficients and residuals they promise",
  statement="predict_adaptive_lasso returns one coefficient per predictor, in the order given: zero if the lasso (BIC) on the "
    "standardised predictors weighted by their least-squares coefficients drops it, otherwise the least-squares coefficient "
    "of the kept predictors on the original scale. remove_effect replaces every remaining variable by its least-squares "
    "residual on the removed ones, leaves those unchanged and returns the coefficients in the order given; integer data are "
    "not truncated and the caller's data not modified. likelihood_i, variance_i and log_p_super_gaussian are the "
    "log-likelihood, empirical variance and Laplace log-density of the disturbance.",
  for_all="every coefficient a regression may return and every data set within the bounds",
  why="tests only run the helpers or check one number",
  files=["lingam/utils/__init__.py"],
  mech=[("lasso", "lingam/utils/__init__.py:predict_adaptive_lasso"), ("residuals", "lingam/utils/__init__.py:remove_effect"),
        ("likelihood", "lingam/utils/__init__.py:likelihood_i")]),
 dict(id="C25", title="The nonlinear effect plot shows effects adjusted for the parents of the cause",
  statement="visualize_nonlinear_causal_effect fits the given estimator once per graph (an adjacency matrix, or every matrix of "
    "a bootstrap result, on the rows of its resample) on the cause and the cause's parents in that graph (any nonzero "
    "coefficient, without the effect), and draws per position the mean prediction of the effect (per class: the mean "
    "probability) over all rows with the cause set to that position, together with the percentiles over the graphs. The "
    "index of the data does not matter, the data are not modified, and malformed arguments are rejected.",
  for_all="every graph coefficient and every prediction of the fitted models within the bounds",
  why="tests only count the axes of the figure",
  files=["lingam/utils/_visualize_nonlinear_causal_effect.py"],
  mech=[("effects", "lingam/utils/_visualize_nonlinear_causal_effect.py:_calculate"),
        ("drawing", "lingam/utils/_visualize_nonlinear_causal_effect.py:_draw")]),
 dict(id="C26", title="DirectLiNGAM picks the variable with the least evidence against being exogenous",
  statement="At every step DirectLiNGAM and MultiGroupDirectLiNGAM choose, among the variables prior knowledge allows "
    "next, the one with the least evidence against being exogenous - the sum over the other remaining variables of the "
    "squared negative parts of the differences of mutual information (maximum-entropy approximation; weighted by sample "
    "size over groups), or the kernel mutual information for measure='kernel' - computed on what regressing out the "
    "variables already chosen leaves of the data. Forbidden comparisons are left out.",
  for_all="every value of the mutual-information terms and every regression coefficient within the bounds",
  why="tests check the order for a few clear-cut data sets; a wrong sign, residual or weight changes the choice only "
    "when the evidence is close",
  files=["lingam/direct_lingam.py", "lingam/multi_group_direct_lingam.py"],
  mech=[("order", "lingam/direct_lingam.py:DirectLiNGAM._search_causal_order"),
        ("candidates", "lingam/direct_lingam.py:DirectLiNGAM._search_candidate"),
        ("groups", "lingam/multi_group_direct_lingam.py:MultiGroupDirectLiNGAM._search_causal_order")]),
 dict(id="C27", title="RESIT orders variables and removes parents exactly as its tests decide",
  statement="RESIT builds the causal order from the bottom by repeatedly taking the variable whose regression residual "
    "is least dependent (HSIC statistic) on the other remaining ones; every variable starts with all earlier variables as "
    "parents and a parent is dropped, in ascending index order, exactly when the residual on the remaining others is "
    "independent of them (p > alpha); a single parent is kept. Matrix entries are 1 or 0, and the data are not modified.",
  for_all="every HSIC statistic, p-value and significance level within the bounds",
  why="tests run one data set; a reversed comparison or a residual on the wrong predictors shows only for other outcomes",
  files=["lingam/resit.py"],
  mech=[("order", "lingam/resit.py:RESIT._estimate_order"), ("parents", "lingam/resit.py:RESIT._remove_edges")]),
 dict(id="C28", title="LiNA and MD-LiNA minimise the stated score of the scaled factor scores",
  statement="LiNA minimises, over weights between the latent factors (no factor causing itself), the loss of predicting the "
    "least-squares factor scores times their scales plus lambda1 times the absolute weights under the acyclicity "
    "constraint, by the augmented Lagrangian method, giving the optimiser the exact derivatives; MD-LiNA does so for the shared factors. "
    "adjacency_matrix_ is the last solution with weights below w_threshold set to zero (MD-LiNA: reordered so that every "
    "shared factor takes the place of the factor it is matched with), measurement_matrix_ holds the loadings, and the data are "
    "not modified.",
  for_all="every data set, scale, penalty and threshold, and every point and solution of the optimisation within the bounds",
  why="the tests only print the result for one data set and assert nothing",
  files=["lingam/lina.py"],
  mech=[("optimisation", "lingam/lina.py:LiNA._estimate_LiNA"), ("scores", "lingam/lina.py:LiNA.fit"),
        ("domains", "lingam/lina.py:MDLiNA.fit"), ("shared factors", "lingam/lina.py:MDLiNA._estimate_MDLiNA_B")]),
 dict(id="C29", title="LiM's global phase minimises the mixed negative log-likelihood",
  statement="LiM's global phase minimises, over weights between the variables (none causing itself), the mean negative "
    "log-likelihood - log cosh of the residuals of continuous variables, the logistic loss of binary ones (loss_type mixed), "
    "or one of the two or the Poisson likelihood for all - plus lambda1 times the absolute weights under the acyclicity constraint, by the augmented "
    "Lagrangian method, and gives the optimiser the exact derivatives. With only_global the result is the last solution "
    "with weights below w_threshold set to zero; the data are not modified.",
  for_all="every data set and penalty, and every point and solution of the optimisation within the bounds",
  why="the test only prints the result for one data set; wrong signs and gradients went unnoticed",
  files=["lingam/lim.py"],
  mech=[("optimisation", "lingam/lim.py:LiM._estimate_LiM")]),
]
for _p in PROPS:
    _p.setdefault("note", NOTE)
PROPS.sort(key=lambda p: p["id"])

NOT_APPLICABLE = {}
