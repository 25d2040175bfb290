"""writes properties.jsonl (kept as a script so that the text stays readable)"""
import json
P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


prop("C01", "Causal order is a permutation and the matrix is acyclic along it",
     "For every dataset, a successful fit of DirectLiNGAM (pwling or kernel measure), ICALiNGAM, HighDimDirectLiNGAM, "
     "MultiGroupDirectLiNGAM or RESIT reports a causal order that lists every variable exactly once. "
     "Every reported adjacency matrix is square of that size and can have a nonzero entry (row i, column j) only if "
     "variable j comes before variable i in the order, so it is acyclic and has a zero diagonal. "
     "In the multi-group model all groups share the one order and there is one matrix per group, in the groups' order.",
     ["inputs", "configurations"],
     "all numeric datasets (any size, any values), all estimator settings and, for RESIT, all regressors",
     "Tests fit a few seeded datasets and look at shapes; the order is data dependent and the loop that builds it runs "
     "a data dependent choice at every step.",
     ["lingam/base.py", "lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/high_dim_direct_lingam.py",
      "lingam/multi_group_direct_lingam.py", "lingam/resit.py"],
     [("selection loop K/U", "lingam/direct_lingam.py: DirectLiNGAM.fit"),
      ("matrix from order", "lingam/base.py: _estimate_adjacency_matrix"),
      ("row elimination", "lingam/ica_lingam.py: _search_causal_order"),
      ("pi.insert / parents", "lingam/resit.py: _estimate_order, _remove_edges")])

prop("C02", "Prior knowledge is encoded as documented and never contradicted",
     "The prior-knowledge builder returns -1 everywhere except 0 where a path is excluded (no-path pair, sink column, "
     "exogenous row) and 1 where a path is required, with exclusions by sink and exogenous variables overriding pairs, "
     "a required pair overriding an excluded pair, and -1 on the diagonal. "
     "For DirectLiNGAM and MultiGroupDirectLiNGAM, a coefficient whose prior-knowledge entry is 0 is always exactly zero, "
     "and when prior knowledge is applied strictly (the default) a variable with a required path to another one precedes "
     "it in the causal order, as does the target of an excluded path whose reverse is not excluded. "
     "Two required paths in opposite directions are rejected with ValueError, as is a matrix of the wrong shape.",
     ["inputs", "configurations"],
     "all prior-knowledge matrices over {-1,0,1}, all datasets, strict and soft application",
     "There are 3^(n(n-1)) matrices; tests use a handful and rarely look at the order.",
     ["lingam/utils/__init__.py", "lingam/direct_lingam.py", "lingam/base.py", "lingam/multi_group_direct_lingam.py"],
     [("encoding", "lingam/utils/__init__.py: make_prior_knowledge"),
      ("partial orders", "lingam/direct_lingam.py: _extract_partial_orders, _search_candidate, fit"),
      ("zeroing", "lingam/base.py: _estimate_adjacency_matrix")])

prop("C03", "Path enumeration and total effects are exact",
     "For every weighted adjacency matrix, path enumeration between two different variables returns each directed path of "
     "edges whose absolute weight exceeds the threshold exactly once, with the product of its weights, and treats NaN "
     "entries as absent. "
     "It raises ValueError exactly when a cycle can be reached from the source without passing through the destination. "
     "The total effect is the sum over these paths, and is refused for equal or out-of-range indices, non-square matrices "
     "and paths through variables declared discrete.",
     ["inputs"], "all matrices, index pairs, thresholds and discreteness flags",
     "Tests check two or three fixed graphs; cycles through the source, NaN entries and thresholds are not combined.",
     ["lingam/utils/__init__.py"],
     [("depth first search", "lingam/utils/__init__.py: find_all_paths"),
      ("sum", "lingam/utils/__init__.py: calculate_total_effect")])

prop("C04", "Bootstrap statistics equal their definition on the recorded samples",
     "For every recorded set of adjacency matrices and total effects, direction counts, graph counts, edge probabilities, "
     "total causal effects (probability and median of the nonzero effects) and path statistics (probability and median "
     "effect) equal the values obtained by direct counting over the samples, with NaN treated as no edge and only absolute "
     "values above the threshold counted. "
     "Lists are in descending order of count or probability, truncated to the requested number, complete and free of "
     "duplicates; sign splitting separates positive from negative effects. "
     "Nonpositive thresholds and nonpositive or non-integer list sizes raise ValueError, and no query changes the recorded "
     "samples.",
     ["inputs", "configurations"], "all sample collections (any number of samples, any size, NaN included) and all option values",
     "Tests call each query once on a random bootstrap and check types and lengths.",
     ["lingam/bootstrap.py", "lingam/var_lingam.py", "lingam/longitudinal_lingam.py"],
     [("counting", "lingam/bootstrap.py: BootstrapResult.get_*"),
      ("lag-aware paths", "lingam/var_lingam.py: VARBootstrapResult.get_paths; lingam/longitudinal_lingam.py: LongitudinalBootstrapResult")])

prop("C05", "Bootstrap records the refit of each resample, with resamples of equal size",
     "Bootstrapping with n samples refits the model n times, each time on rows drawn with replacement from the given data "
     "(same number of rows, the same columns; per group for multi-group models), and sample i holds exactly the adjacency "
     "matrix of refit i. "
     "Entry (to, from) of total effects i is the total effect implied by matrix i for every pair in causal direction and "
     "zero for pairs against it; for a source with hidden common causes it is NaN (RCD, BottomUpParceLiNGAM) or 0 (MultiGroupRCD). "
     "Where row indices are reported they are the rows used; a nonpositive or non-integer number of samples raises ValueError.",
     ["inputs", "histories"], "all datasets and sample counts, for DirectLiNGAM, ICALiNGAM, RCD, BottomUpParceLiNGAM and the multi-group models",
     "Tests only look at the shape of the result of one run.",
     ["lingam/bootstrap.py", "lingam/rcd.py", "lingam/bottom_up_parce_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/multi_group_rcd.py"],
     [("resample and record loop", "lingam/bootstrap.py: BootstrapMixin.bootstrap"),
      ("ancestor pairs", "lingam/rcd.py: bootstrap; lingam/multi_group_rcd.py: bootstrap"),
      ("order pairs", "lingam/bottom_up_parce_lingam.py: bootstrap")])

prop("C06", "RCD results are mutually consistent",
     "For every dataset, the ancestor sets reported by RCD, MultiGroupRCD and the stand-alone ancestor extraction contain "
     "only valid variable indices, never the variable itself, and never both of two variables as ancestors of each other. "
     "In every reported matrix NaN marks an unordered pair symmetrically, every finite nonzero coefficient goes from a "
     "reported ancestor to its descendant, and the diagonal is zero. "
     "The finite coefficients of a row are those of the least-squares regression of that variable on its parents. "
     "MultiGroupRCD reports one matrix per group with the same NaN pairs and the same set of possible edges, and its ancestor "
     "sets do not depend on the order of the groups.",
     ["inputs", "configurations"], "all datasets, thresholds, independence measures and numbers of explanatory variables",
     "The result depends on a data-driven search over subsets; tests see a few runs and check shapes.",
     ["lingam/rcd.py", "lingam/multi_group_rcd.py", "lingam/utils/_rcd.py"],
     [("ancestor search", "lingam/rcd.py: _extract_ancestors; lingam/multi_group_rcd.py: _extract_ancestors; lingam/utils/_rcd.py: extract_ancestors"),
      ("parents and confounders", "lingam/rcd.py: _extract_parents, _extract_vars_sharing_confounders, _estimate_adjacency_matrix")])

prop("C07", "CAM-UV results are mutually consistent and honour prior knowledge",
     "For every dataset, the matrix reported by CAMUV and MultiGroupCAMUV is square with zero diagonal and contains only 0, 1 "
     "and NaN; NaN entries are symmetric, and no two variables are parents of each other. "
     "When prior knowledge says that one variable cannot be a cause of another, no edge from the former to the latter is "
     "reported. "
     "Out-of-range significance levels and explanatory-variable limits are rejected with ValueError.",
     ["inputs", "configurations"], "all datasets, parameters and prior-knowledge pair lists",
     "The parent search is data driven; tests run one dataset.",
     ["lingam/camuv.py", "lingam/multi_group_camuv.py"],
     [("parent search", "lingam/camuv.py: _find_parents; lingam/multi_group_camuv.py: _find_parents"),
      ("matrix", "lingam/camuv.py: _estimate_adjacency_matrix")])

prop("C08", "BottomUpParceLiNGAM orders every variable once and marks only the unknown block",
     "For every dataset, the causal order reported by BottomUpParceLiNGAM contains every variable exactly once, with an "
     "optional first element that is a list of at least two variables of unknown order. "
     "The matrix is NaN exactly between two different variables of that list, zero on the diagonal, and any other nonzero "
     "entry goes from an earlier to a later variable. "
     "With prior knowledge an excluded path has no coefficient and, among determined positions, a required path is never "
     "reversed. "
     "If every independence test rejects, all variables stay in the unknown list; with significance level 0 none does.",
     ["inputs", "configurations"], "all datasets with at least two variables, thresholds, regressors and prior-knowledge matrices",
     "How many variables stay undetermined depends on test statistics; tests see a few cases.",
     ["lingam/bottom_up_parce_lingam.py"],
     [("bottom-up search", "lingam/bottom_up_parce_lingam.py: _search_causal_order, fit"),
      ("matrix with NaN block", "lingam/bottom_up_parce_lingam.py: _estimate_adjacency_matrix")])

prop("C09", "VAR and VARMA matrices satisfy the structural equations",
     "For every dataset and given or estimated autoregressive coefficients, VARLiNGAM without pruning reports the "
     "instantaneous matrix of the inner model fitted to the residuals and lag matrices (I - B0) M_tau, and VARMALiNGAM "
     "likewise with moving-average matrices (I - B0) Theta (I - B0)^-1. "
     "With or without pruning the instantaneous matrix respects the reported causal order, which is a permutation. "
     "Pruning a VAR model replaces each row by the adaptive-lasso regression of that variable on its predecessors in the "
     "order and on all lagged variables. "
     "Total effects from a variable at lag k use the columns of lag k (from data: the regression on the source and its parents, "
     "shifted by the lag), and bootstrap matrices concatenate the lag matrices in order.",
     ["inputs", "configurations"], "all datasets, lag orders, given coefficient arrays, pruning on or off",
     "Tests check shapes only and use lag 1; wrong blocks and wrong products have the right shape.",
     ["lingam/var_lingam.py", "lingam/varma_lingam.py"],
     [("lag matrices", "lingam/var_lingam.py: _calc_b, _calc_residuals"),
      ("psi/omega", "lingam/varma_lingam.py: _calc_psi_and_omega, _calc_residuals"),
      ("pruning", "lingam/var_lingam.py: _pruning; lingam/varma_lingam.py: _pruning"),
      ("lagged total effects", "estimate_total_effect, estimate_total_effect2 in both files")])

prop("C10", "Longitudinal results are placed at the right time point and lag",
     "For every list of at least two equally shaped datasets, LongitudinalLiNGAM reports at each time point with enough "
     "history a causal order that is a permutation, an instantaneous matrix that respects it and one matrix per lag in "
     "increasing lag; earlier time points are all NaN. "
     "Without prior knowledge the matrices satisfy B(t,t-k) = (I - B(t,t)) M(t,t-k) for the regression M of that time point "
     "on its predecessors. "
     "Prior-knowledge entries that exclude a path give zero coefficients. "
     "Total effects between time points sum the path products in the unrolled graph, and bootstrap sample i holds matrices and "
     "total effects of refit i at their time points.",
     ["inputs", "configurations"], "all dataset lists, numbers of time points and lags, with and without prior knowledge",
     "Tests use one lag, where all lag orderings coincide.",
     ["lingam/longitudinal_lingam.py"],
     [("residuals and lags", "lingam/longitudinal_lingam.py: _compute_residuals, _estimate_lagged_effects, fit"),
      ("unrolled graph", "lingam/longitudinal_lingam.py: estimate_total_effect2, bootstrap")])

prop("C11", "Intervention effects follow the structural equations",
     "For every causal model and dataset, the estimated effect of intervening on a variable equals the change of the "
     "prediction when that variable is fixed to mean, mean plus and mean minus one standard deviation, all descendants are "
     "propagated through the linear equations and all non-descendants keep their means. "
     "The optimal intervention is the value for which the propagated means make the linear prediction equal to the "
     "requested output. "
     "Model objects, matrices and orders passed in are used as given and not modified.",
     ["inputs"], "all acyclic coefficient matrices (including cancelling coefficients), datasets, predictors and targets",
     "Tests compare no values; a dropped propagation step has the same shape.",
     ["lingam/causal_effect.py"],
     [("propagation", "lingam/causal_effect.py: estimate_effects_on_prediction, estimate_optimal_intervention")])

prop("C12", "The causal simulator reproduces and propagates exactly",
     "Simulating with unchanged inputs reproduces the training data for continuous variables, for plain, "
     "unobserved-common-cause and time-series graphs. "
     "Changing the exogenous data or the equations of some variables changes only those variables and their descendants, "
     "and every variable equals its (possibly replaced) equation evaluated at its simulated parents plus its error. "
     "Exogenous data may be any array-like of the right length. "
     "Cyclic graphs, cyclic changes and unknown names are rejected.",
     ["inputs", "configurations"], "all acyclic graphs, datasets, replacement models and exogenous data",
     "Tests check that it runs; values along long chains are not compared.",
     ["lingam/causal_based_simulator.py"],
     [("topological order", "lingam/causal_based_simulator.py: _calc_causal_order, get_causal_order"),
      ("simulation", "lingam/causal_based_simulator.py: _simulate, _train")])

prop("C13", "Estimated total effects adjust for exactly the right variables",
     "For every fitted model and pair of variables, the total effect estimated from data is the coefficient of the source "
     "in the least-squares regression of the destination on the source and its parents (nonzero, non-NaN coefficients), "
     "per group for multi-group models. "
     "A warning is issued exactly when the destination precedes the source in the order (or is its ancestor), and the "
     "result is NaN (MultiGroupRCD: an empty list) with a warning when the source has NaN coefficients in its row. "
     "The matrix-based effect, where offered, is the sum of path products under the same warnings.",
     ["inputs", "histories"], "all fitted models, datasets and index pairs",
     "Tests only check the warning for one pair; the adjustment set is never compared.",
     ["lingam/base.py", "lingam/rcd.py", "lingam/bottom_up_parce_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/multi_group_rcd.py"],
     [("adjustment set", "estimate_total_effect in the listed files")])

prop("C14", "User data and prior knowledge are never modified",
     "No fit, bootstrap, effect estimation, independence test, preprocessing or graph utility changes an array, list or "
     "data frame passed to it. "
     "This holds for training data, prior-knowledge and adjacency matrices, coefficient arrays and recorded bootstrap samples.",
     ["inputs", "histories"], "all public calls and all argument values, including arrays that need no conversion",
     "No test compares an argument before and after the call; validated arrays are not copied.",
     ["lingam/direct_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/ica_lingam.py", "lingam/resit.py", "lingam/rcd.py",
      "lingam/bottom_up_parce_lingam.py", "lingam/base.py", "lingam/utils/__init__.py", "lingam/bootstrap.py", "lingam/causal_effect.py"],
     [("working copies", "np.copy / .copy() before in-place updates in fit methods and utilities")])

prop("C15", "Bootstrap with imputation keeps observed values and reports what was used",
     "Each bootstrap sample consists of rows of the data drawn with replacement and the reported row indices are the rows "
     "used. "
     "Every completed dataset handed to causal discovery agrees with the sample on its observed entries, and the reported "
     "imputation values are NaN exactly at observed entries and equal the completed values elsewhere. "
     "Orders and matrices are those returned by the causal model for that sample, in sampling order, and results of custom "
     "components that violate their specification raise ValueError.",
     ["inputs", "histories", "configurations"], "all datasets with missing values, sample and repeat counts, custom imputers and models",
     "Tests check shapes only.",
     ["lingam/tools/__init__.py"],
     [("sampling loop", "lingam/tools/__init__.py: bootstrap_with_imputation"),
      ("output checks", "lingam/tools/__init__.py: _check_imputer_outout, _check_cd_output")])

prop("C16", "Error-independence p-values are computed for every pair, symmetrically",
     "For every fitted model (RESIT, which reports no p-values, excluded) the p-value matrix is square, symmetric with zero diagonal, and entry (i, j) is the "
     "p-value of the HSIC gamma test on the residuals x - Bx of variables i and j. "
     "Models with unknown orders or hidden common causes report NaN exactly for pairs that involve a variable with a NaN "
     "coefficient; multi-group models report one such matrix per group.",
     ["inputs"], "all fitted models and datasets",
     "Tests look only at the shape or at one value.",
     ["lingam/base.py", "lingam/rcd.py", "lingam/bottom_up_parce_lingam.py", "lingam/var_lingam.py", "lingam/varma_lingam.py",
      "lingam/longitudinal_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/multi_group_rcd.py"],
     [("pair loop", "get_error_independence_p_values in the listed files")])

prop("C17", "Graph utilities agree with the graph",
     "For every adjacency matrix, the sink and exogenous variable lists are exactly the variables without outgoing and "
     "without incoming edges (self loops ignored), and the distance table assigns every variable its shortest distance from "
     "a variable without parents, up to the requested maximum. "
     "The drawn graph contains exactly one directed edge for every coefficient above the lower limit, with its value, and "
     "marks NaN pairs once as bidirected. "
     "Removing the effect of variables leaves the removed columns unchanged and every other column uncorrelated with them.",
     ["inputs"], "all adjacency matrices, limits, label lists and datasets",
     "Tests use one or two small matrices and check that the calls succeed.",
     ["lingam/utils/__init__.py"],
     [("graph utilities", "lingam/utils/__init__.py: get_sink_variables, get_exo_variables, calculate_distance_from_root_nodes, make_dot, remove_effect")])

prop("C18", "Invalid settings are rejected before any estimation",
     "Constructors and fit methods raise ValueError for significance levels, correlation thresholds and variable limits that "
     "are out of range, for unknown independence or independence-measure names, for fewer than two groups or time points, for datasets "
     "with differing columns, and for prior-knowledge matrices of the wrong shape. "
     "Valid settings are accepted and used unchanged.",
     ["inputs", "configurations"], "all parameter values of all estimators",
     "Tests sample a few invalid values per parameter; boundaries are open.",
     ["lingam/rcd.py", "lingam/multi_group_rcd.py", "lingam/camuv.py", "lingam/multi_group_camuv.py", "lingam/bottom_up_parce_lingam.py",
      "lingam/direct_lingam.py", "lingam/resit.py", "lingam/longitudinal_lingam.py"],
     [("guards", "__init__ and fit of the listed estimators")])

prop("C19", "Estimates converge to the generating model",
     "For data generated by a linear non-Gaussian acyclic model, the estimated order and matrix converge to the generating "
     "ones as the number of samples grows, and LiM, LiNA and MDLiNA reach a minimum of their objectives.",
     ["inputs"], "all generating models in the identifiable class, in the large-sample limit",
     "A statistical limit statement; tests use one dataset with loose tolerances.",
     ["lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/lim.py", "lingam/lina.py", "lingam/hsic.py"],
     [("estimators", "whole estimation procedures")])

prop("C20", "Results do not depend on how the data are represented",
     "For every dataset, each estimator (DirectLiNGAM, ICALiNGAM, HighDimDirectLiNGAM, RESIT, RCD, BottomUpParceLiNGAM, CAMUV, "
     "VARLiNGAM, the multi-group and longitudinal models), remove_effect, the stand-alone ancestor extraction and bootstrapping give the same "
     "result whether the same numbers are passed as float array, integer array of any width, nested list, data frame, "
     "Fortran-ordered array, strided view or read-only array. "
     "In particular residuals of integer data are never truncated and powers never overflow.",
     ["inputs", "configurations"], "all datasets whose values are integers representable in the given type, and all containers",
     "Every test fits floating-point arrays or data frames of floats only; a working array that inherits an integer type "
     "silently truncates.",
     ["lingam/direct_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/rcd.py", "lingam/multi_group_rcd.py", "lingam/utils/_rcd.py",
      "lingam/camuv.py", "lingam/multi_group_camuv.py", "lingam/high_dim_direct_lingam.py", "lingam/utils/__init__.py"],
     [("floating-point working copies", "fit of DirectLiNGAM, MultiGroupDirectLiNGAM, RCD, CAMUV, HighDimDirectLiNGAM; remove_effect")])

with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
