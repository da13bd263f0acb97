#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run it after adding a property)."""
import glob, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
E, U = "infomeasure/estimators/", "infomeasure/estimators/utils/"
P = []


def prop(id, title, statement, over, text, why, files, mech, note, level="proof", observe=(), technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, level=level,
                  observe=observe, technique=technique))


TECH = "deductive verification: contracts on the real source, symbolic execution of every path, obligations discharged by a normal-form prover + z3"

prop("P01", "Discrete entropy is the plug-in Shannon entropy",
     "For every sequence of labels (or rows of labels, or tuple of variables taken jointly) the discrete entropy is -sum p log p over the distinct labels with p = count/N, in the requested base; each sample's local value is -log p of its own label. The value depends on the counts only, not on the labels' names or order.",
     ["inputs"], "all N >= 1, all label sequences, 1-D / 2-D / tuple data, all bases > 1",
     "tests compare a few dozen hard-coded arrays; the statement is about every length and label multiset",
     [E + "entropy/discrete.py", U + "ordinal.py", "infomeasure/utils/data.py", E + "base.py"],
     [("DiscreteHEstimator._simple_entropy / _joint_entropy / _extract_local_values", E + "entropy/discrete.py"), ("DiscreteData.from_data", "infomeasure/utils/data.py"), ("reduce_joint_space", U + "ordinal.py")],
     "All-input proof of entropy, local values, 2-D and tuple data; trusted: contracts of np.unique, np.log, np.column_stack.")
prop("P02", "Bias-corrected entropies equal their published formulas",
     "Miller-Madow, Grassberger, Bonachela, ANSB, Bayes (every prior), Chao-Wang-Jost, Chao-Shen, shrinkage and Zhang entropies equal their published closed formulas of the counts for every sample, in the requested base.",
     ["inputs"], "all label sequences with the documented preconditions, all bases > 1, all prior choices",
     "the tests pin single values for a few arrays; boundary cases (singletons only, one doubleton, K given) are not enumerated",
     [E + "entropy/" + f for f in ("miller_madow.py", "grassberger.py", "bonachela.py", "ansb.py", "bayes.py", "chao_wang_jost.py", "chao_shen.py", "shrink.py", "zhang.py")],
     [("_simple_entropy of each estimator", E + "entropy/")],
     "Proved for all inputs for Miller-Madow, Grassberger, Bonachela, ANSB, Bayes and the branches of Chao-Wang-Jost; Chao-Shen, shrinkage and Zhang are bounded (labelled).")
prop("P03", "Changing the logarithm base only rescales the result",
     "For every approach whose value is a logarithm, the result in base b times log b is the result in nats, globally and per local value; base 0 yields 0 and a negative base is rejected.",
     ["inputs", "configurations"], "all approaches x measures (entropy, MI, CMI, TE, CTE, cross-entropy, JSD, KLD), all inputs, all bases > 1",
     "tests try bases 2, 10 and e on fixed arrays per estimator and never relate them for the whole product of approach and measure",
     [E + "base.py", E + "functional.py", "infomeasure/utils/config.py"], [("Estimator._log_base", E + "base.py"), ("per-estimator use of self.base", E)],
     "Contract of the unit conversion proved; scaling proved for the approaches listed in the evidence, the others bounded.")
prop("P04", "Local values: one per observation, and their mean is the global value",
     "Whenever an estimator offers local values there is exactly one per usable observation, and their arithmetic mean is the global value; an estimator that has no local values says so instead of returning something else.",
     ["inputs", "configurations"], "all approaches with local values x all measures x 1-D, 2-D and joint data, all inputs",
     "tests check the mean on sampled arrays for some approach and measure pairs only",
     [E + "base.py", E + "mixins.py", E + "entropy", E + "mutual_information", E + "transfer_entropy"], [("Estimator.local_vals / global_val / result", E + "base.py"), ("_extract_local_values", E)],
     "Proved for discrete, Miller-Madow, Grassberger (entropy), box kernel and KSG; ordinal, KL, gaussian and Zhang bounded. Shrinkage is excluded: its documentation states the mean differs.")
prop("P05", "Discrete mutual information is the entropy combination for any variables",
     "Discrete and Miller-Madow mutual information of any number of variables (labels or rows of labels) is the sum of the marginal entropies minus the joint entropy, with local values log p(x)/prod p(x_i); it is symmetric in its arguments and an offset d pairs x[i] with y[i+d].",
     ["inputs"], "all N, all label sequences, 2 to 4 variables, 1-D and 2-D mixes, every offset |d| < N-1, all bases > 1",
     "tests sample small integer arrays; sizes at which integer products of counts overflow, mixed shapes and constant variables are unreachable by example",
     [U + "discrete_interaction_information.py", E + "mutual_information/discrete.py", E + "mutual_information/miller_madow.py", E + "base.py"],
     [("mutual_information_global / _local and the n-variable code", U + "discrete_interaction_information.py"), ("MutualInformationEstimator.__init__ offset handling", E + "base.py")],
     "All-input proof, including that integer products do not leave the 64-bit range for N < 2^31; trusted lemma: Gibbs' inequality (Lean proof in lean/Lemmas.lean).")
prop("P06", "Discrete conditional mutual information is the entropy combination",
     "Discrete and Miller-Madow conditional mutual information of any number of variables is sum H(X_i,Z) - H(X_1..X_m,Z) - H(Z), with matching local values, for any condition (also several columns); permuting arguments does not matter and a constant condition gives the unconditioned value.",
     ["inputs"], "all N, all label sequences, 2 or 3 variables, 1-D and 2-D data and conditions, all bases > 1",
     "example tests cannot cover the combinations of constant variables, 2-D conditions and count overflow",
     [U + "discrete_interaction_information.py", E + "mutual_information/discrete.py", E + "mutual_information/miller_madow.py"],
     [("conditional_mutual_information_global / _local", U + "discrete_interaction_information.py")], "All-input proof.")
prop("P07", "Every entropy-combination measure combines the right entropies",
     "For every approach that builds its information from entropies, mutual information, conditional mutual information, transfer entropy and conditional transfer entropy (global and local, also with 2-D data and several variables) are the documented sums and differences of that approach's own entropies of exactly the right variables, with every parameter passed on.",
     ["inputs", "configurations"], "all entropy-combination approaches x all measures x all inputs (the entropy estimators themselves are opaque contracts)",
     "tests pin numbers per approach; a wrong variable, a lost parameter or a doubled term for one approach and measure can hide in any of the 200 combinations",
     [E + "mixins.py", U + "exponential_family.py", E + "mutual_information", E + "transfer_entropy"],
     [("_generic_mi_from_entropy, _generic_cmi_from_entropy, _generic_te_from_entropy, _generic_cte_from_entropy, their _local variants", E + "mixins.py")],
     "Modular proof: callers are checked against the contract of the entropy estimator, for all inputs.")
prop("P08", "Transfer-entropy slicing selects exactly the documented samples",
     "The slices built for (conditional) transfer entropy contain, for every usable time index and for every history length, step size and delay, exactly the documented future, past, source and condition samples, aligned with each other, and nothing outside the series is read; invalid lengths are rejected.",
     ["inputs", "configurations"], "all series lengths, all history lengths up to 3 per variable with symbolic step size, all delays",
     "tests compare a handful of parameter combinations on short ramps",
     [U + "te_slicing.py", E + "base.py"], [("te_observations / cte_observations", U + "te_slicing.py")],
     "Proved for every N, step size and delay; history lengths enumerated 1..3 (bounded in that parameter).")
prop("P09", "Transfer entropy is the conditional mutual information of its slices",
     "Transfer entropy equals the conditional mutual information between the destination's future and the source's past given the destination's past (and the condition's past), for every approach with its own implementation, globally and locally, and a propagation time shifts the source by exactly that many steps.",
     ["inputs", "configurations"], "all inputs, all history lengths <= 2, all propagation times, all step sizes",
     "tests compare with hard-coded numbers on generated series, mostly with unit history and no propagation time",
     [E + "base.py", E + "transfer_entropy", U + "discrete_transfer_entropy.py", U + "discrete_interaction_information.py"],
     [("TransferEntropyEstimator.__init__ prop_time / offset", E + "base.py"), ("DiscreteTEEstimator._calculate etc.", E + "transfer_entropy")],
     "Proved for discrete and Miller-Madow; kernel, ordinal and KSG relations as stated in the evidence.")
prop("P10", "Resampling destroys only the source's association",
     "The resampled data used by significance tests consist of the source's own past states, permuted (every state exactly once) or drawn with replacement, while the destination, its history, the condition and all alignment stay untouched; permutation and bootstrap draw from the configured generator only.",
     ["inputs", "configurations"], "all series, history lengths, step sizes, and all outcomes of the random generator",
     "tests fix a seed and compare a p-value; they cannot show that the destination stays aligned under every draw",
     [U + "te_slicing.py", E + "mixins.py", E + "base.py"], [("te_observations / cte_observations permute_src, resample_src", U + "te_slicing.py"), ("PermutationTestMixin / StatisticalTestingMixin", E + "mixins.py")],
     "Proved with an uninterpreted permutation / draw; trusted: the contract of numpy's Generator.permutation / shuffle / choice.")
prop("P11", "Significance tests report the documented statistics",
     "A statistical test evaluates the estimator exactly n_tests times on resampled data, reports p = fraction of test values above the observed one, t = (observed - mean)/sample standard deviation (undefined when that is 0), percentiles and confidence intervals of exactly those values, leaves the estimator's own data and results unchanged; effective transfer entropy is the observed value minus the mean of the resampled ones.",
     ["inputs", "histories", "configurations"], "all approaches, all inputs, both methods, all test counts",
     "tests check ranges (0 <= p <= 1) and some seeds only",
     [E + "mixins.py", E + "base.py", "infomeasure/utils/data.py"], [("StatisticalTestingMixin.statistical_test, EffectiveValueMixin.effective_val, StatisticalTestResult", E + "mixins.py")],
     "See evidence; conditional transfer entropy built from entropies ignores resampling (known finding, pinned by the existing tests).")
prop("P12", "Inputs are never modified",
     "No estimator, functional call, statistical test or utility changes the arrays, lists or tuples handed to it, whatever the approach, measure and options.",
     ["inputs", "configurations"], "all approaches x measures x entry points, all inputs",
     "no existing test compares the inputs before and after",
     [E + "base.py", E + "mixins.py", U + "normalize.py", U + "te_slicing.py", U + "discrete_interaction_information.py", "infomeasure/composite_measures"],
     [("copies made in constructors (noise, normalisation, shuffling)", E)], "Frame condition; proved for the scenarios listed in the evidence, bounded for the others.")
prop("P13", "A seed determines every random result",
     "With the same seed and the same input every estimator, statistical test and effective value gives the same result, independent of the global random state and of earlier calls; without noise, permutation or resampling the result does not depend on any generator.",
     ["inputs", "histories", "configurations"], "all approaches with noise or resampling, all seeds, all interleavings with other uses of the global generator",
     "tests run twice with one seed for some estimators",
     [E + "base.py", E + "mixins.py"], [("RandomGeneratorMixin.rng", E + "mixins.py")], "See evidence.")
prop("P14", "Ordinal patterns encode exactly the rank order of each window",
     "Symbolising a series assigns each window of the embedding dimension (with the step size) the rank pattern of its values: one symbol per window, equal symbols exactly for equal orderings, symbols within 0..dim!-1, and every window lies inside the series; impossible dimensions are rejected.",
     ["inputs", "configurations"], "all tie-free series, all dimensions and step sizes",
     "tests compare literal symbol lists for a few series",
     [U + "ordinal.py", E + "entropy/ordinal.py"], [("symbolize_series, permutation_to_integer, reduce_joint_space", U + "ordinal.py")],
     "See evidence; ties are a known finding.")
prop("P15", "Joint recoding is a bijection on rows",
     "Recoding joint observations to a single code gives two samples the same code exactly when their rows are equal, keeps the number of samples, and accepts every supported shape (1-D, 2-D, tuples of 1-D and 2-D arrays, strings and numbers).",
     ["inputs"], "all label data, all numbers of columns",
     "tests use small integer examples", [U + "discrete_interaction_information.py"], [("reduce_joint_space", U + "ordinal.py")], "All-input proof for every supported shape.")
prop("P16", "Configuration is validated, isolated and restorable",
     "Setting a known option of the right type is read back and used, unknown options and wrong types are rejected without changing anything, reset restores the documented defaults, and the logarithmic unit and its description follow the base.",
     ["histories", "configurations"], "all sequences of set / get / reset / unit operations",
     "tests follow single call sequences", ["infomeasure/utils/config.py"], [("Config", "infomeasure/utils/config.py")],
     "Representation invariant preserved by every public operation from an arbitrary state. That estimators bound their default base at import is a known finding.")
prop("P17", "The functional interface is the class interface",
     "Every functional call (entropy, cross-entropy, MI, CMI, TE, CTE, estimator, with aliases of approach names) selects the documented class, passes every argument on unchanged and returns that estimator's value; unknown or missing approach and measure names and misplaced conditions are rejected.",
     ["inputs", "configurations"], "all measures x approach names and aliases x keyword arguments, all inputs",
     "tests compare some numbers; an argument dropped or a swapped class for one alias can pass", [E + "functional.py", "infomeasure/__init__.py"],
     [("get_estimator_class, entropy, mutual_information, ..., estimator dictionaries", E + "functional.py")], "Dispatch proved with opaque data; see evidence.")
prop("P18", "JSD, KLD and cross-entropy satisfy their definitions",
     "Jensen-Shannon divergence is the entropy of the mixture minus the mean of the entropies, Kullback-Leibler divergence is cross-entropy minus entropy, discrete cross-entropy averages -log q over the first distribution on the common support, and unsupported approaches are rejected.",
     ["inputs", "configurations"], "all label data, any number of distributions for JSD, all bases > 1",
     "tests pin values for a few arrays", ["infomeasure/composite_measures/jsd.py", "infomeasure/composite_measures/kld.py", E + "entropy"],
     [("jensen_shannon_divergence, kullback_leiber_divergence, _cross_entropy", "infomeasure/composite_measures")], "See evidence; 2-D discrete data is a known finding.")
prop("P19", "KSG estimators evaluate the documented nearest-neighbour formula",
     "KSG mutual information and conditional mutual information (type I and II, any number of variables) evaluate the documented digamma formula with neighbour counts taken within the distance of the k-th neighbour in the joint space, per sample and globally; transfer entropy uses the same formula on its slices.",
     ["inputs", "configurations"], "all real data in general position, all k, both types, Minkowski order p, 1-D and 2-D variables",
     "tests check analytic Gaussian values within wide tolerances", [E + "mutual_information/kraskov_stoegbauer_grassberger.py", E + "transfer_entropy/kraskov_stoegbauer_grassberger.py"],
     [("KSGMIEstimator._calculate, BaseKSGMIEstimator.generic", E + "mutual_information/kraskov_stoegbauer_grassberger.py")],
     "Proved for all inputs; trusted: KDTree query / count contracts.")
prop("P20", "Nearest-neighbour entropies equal their published formulas",
     "Kozachenko-Leonenko, Renyi and Tsallis entropies (and cross-entropies) equal their published formulas of the k-th neighbour distances for every sample, order, k and metric, and samples that coincide with their k-th neighbour contribute no distance term; order 1 is the Shannon limit; unit_ball_volume is the volume of the p-norm ball.",
     ["inputs", "configurations"], "all real data (ties included), all sample sizes above k, k in {1,2,4}, p in {1,2,inf}, orders {0.5,1,1.5,2,3.5} below k+1, joint and multi-column data",
     "tests check analytic values within wide tolerances", [E + "entropy/kozachenko_leonenko.py", E + "entropy/renyi.py", E + "entropy/tsallis.py", U + "exponential_family.py", U + "unit_ball_volume.py"],
     [("calculate_common_entropy_components, exponential_family_*, unit_ball_volume", U)],
     "Proved for all samples and sizes, per configuration of the grid (k, p, order, dimensions), relative to the contract of scipy's KDTree (exact neighbour distances) and to real arithmetic; unit_ball_volume for every d, p and r.")
prop("P21", "Kernel estimators average the documented kernel density",
     "Kernel entropy, MI, CMI, TE and CTE are averages of logs of the documented kernel density estimates (box: relative number of points within half a bandwidth in the maximum norm; Gaussian: scipy's density with the bandwidth as factor, evaluated at every sample, however many workers share the work), for every bandwidth and dimension.",
     ["inputs", "configurations"], "all real data, all bandwidths > 0, 1-D and 2-D data",
     "tests compare a few values", [U + "kde.py", E + "entropy/kernel.py", E + "mutual_information/kernel.py", E + "transfer_entropy/kernel.py"],
     [("kde_probability_density_function", U + "kde.py")], "Proved for all inputs relative to the contracts of scipy's KDTree and gaussian_kde and of multiprocessing.Pool.map; Gaussian densities of samples with a covariance of full rank (eigenvalues above 1e-6) proved, of degenerate samples bounded.")
prop("P22", "Invalid input is rejected, never silently computed",
     "Inputs that the documentation excludes (unequal lengths, missing data, wrong dimensions, k not below the number of points, negative noise, unknown kernels or normalisations, too many lags, mixed types) raise an exception for every approach and measure instead of returning a number.",
     ["inputs", "configurations"], "all approaches x measures x kinds of invalid input",
     "tests try a few invalid calls per estimator", [E + "base.py", E + "functional.py", U], [("constructor checks", E)],
     "Proved for all lengths and values, except for missing (NaN) observations, which are bounded; NSB is left out.")
prop("P23", "Count tables are consistent with the data they summarise",
     "A count table built from data has one entry per distinct label with its number of occurrences; a table built from labels and counts keeps them; in both N is the sum of the counts, K the number of labels and the probabilities are count/N and sum to 1; tables with negative, all-zero, fractional or unequally many counts, or with data of another length, are rejected; an estimator built from a table gives the entropy of data with these counts.",
     ["inputs"], "all label data and all count vectors", "tests construct a few tables", ["infomeasure/utils/data.py"], [("DiscreteData.from_data / from_counts / __post_init__", "infomeasure/utils/data.py")],
     "Class invariant proved for every constructor; estimators from tables proved for discrete, Miller-Madow and Bayes, the others bounded. Known findings: Grassberger from a count table, tables from probabilities.")
prop("P24", "Results are computed once and stay the same",
     "Asking an estimator for its global value, local values, results or an effective value in any order and any number of times gives the same answers, and estimators never influence each other.",
     ["histories", "configurations"], "all call sequences on all approaches x measures", "tests call one accessor once",
     [E + "base.py", E + "mixins.py"], [("Estimator.res_global / res_local caching", E + "base.py")], "See evidence.")

NA = {
}


def main():
    have = {os.path.basename(f)[:3].upper() for f in glob.glob(HERE + "/props/p[0-9]*.py")}
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": {"files": [x.rstrip("/") for x in p["files"]], "mechanism": [{"name": n, "where": w.rstrip("/")} for n, w in p["mech"]],
                                "observe_at": list(p["observe"]) or ["public Python API"], "hook_needed": None}}) + "\n")
    checks = [{"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']} --tier quick", "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
               "technique": p["technique"] or TECH, "level": p["level"], "level_note": p["note"]} for p in P if p["id"] in have and p["id"] not in NA]
    na = [{"property": k, "reason": v} for k, v in NA.items()]
    na += [{"property": p["id"], "reason": "no check yet"} for p in P if p["id"] not in have and p["id"] not in NA]
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
               "hooks": {"guard": "INFOMEASURE_VERIF", "enable": "no hooks were needed: contracts are attached from /verif to the unmodified source", "source_commits": []},
               "notes": "See DESIGN.md. Every check re-reads /repo/infomeasure on each run."}, open(HERE + "/MANIFEST.json", "w"), indent=1)


if __name__ == "__main__":
    main()
