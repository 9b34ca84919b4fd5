prop("P01", "Nearest-neighbour answers are exactly the k closest eligible rows",
     "For every data set, metric (l1, l2, squared l2, inf), k, distance bound and data/eval mask, a k-nearest-neighbour query returns for each evaluated row exactly the k closest eligible rows within the bound (fewer only if fewer exist), without duplicates, in order of distance and with the true distances; rows with a null feature are never neighbours and get a null answer. This holds for the dataframe queries, for everything derived from them (neighbour frequencies, neighbour averages, distance to the k-th neighbour, is-among-the-k-nearest) and for the stand-alone tree. A tree that has grown by additions answers as if it had been built from all its points.",
     ["inputs", "histories", "configurations"],
     "all point clouds (duplicates, lattices, degenerate axes), dimensions, metrics, masks, bounds, thread counts, and all histories of additions and queries",
     "The tests compare a few hundred uniform random points with scikit-learn at one k; tree bugs need particular splits, ties, bounds, masks or insertion orders.",
     ["src/arkadia/kdt.rs", "src/arkadia/mod.rs", "src/num_ext/knn.rs", "src/pymodels/py_kdt.rs", EX + "expr_knn.py", "python/polars_ds/spatial.py", "src/utils/mod.rs"],
     [("bounding-box pruning", "src/arkadia/kdt.rs knn_one_step"), ("bounded sorted top-k insertion", "src/arkadia/kdt.rs update_top_k"), ("row-major gather of columns", "src/utils/mod.rs series_to_row_major_slice")],
     ["results of query_knn_*, is_knn_from, KDTree.knn"],
     "seeded point clouds (8 shapes, 1..19 dims), metrics, masks, nulls, bounds, layouts, add/query histories; non-trivial when at least one neighbour judgement was made; distinct by input digest",
     "every returned neighbour is compared with a brute-force scan; ties and distances on the bound are judged with a tolerance")

prop("P02", "Radius queries return exactly the rows within the radius",
     "For every data set, metric and radius (one number, one per row, or an expression), a radius query reports exactly the eligible points whose distance is at most the radius: none missing, none extra, none twice, sorted by distance and with true distances where asked. Counts and frequencies agree with the reported neighbours, and within-distance-of-a-point filters agree with the definition of the metric (including cosine and haversine). Rows with a null feature or null radius get a null answer and are never neighbours.",
     ["inputs", "histories", "configurations"],
     "all point clouds, dimensions, metrics, radii, thread counts and add/query histories",
     "The tests use a handful of uniform random frames with one radius; whether a box is wrongly pruned depends on the geometry.",
     ["src/arkadia/kdt.rs", "src/arkadia/mod.rs", "src/num_ext/knn.rs", "src/pymodels/py_kdt.rs", EX + "expr_knn.py", "python/polars_ds/spatial.py"],
     [("bounding-box pruning", "src/arkadia/kdt.rs within_one_step, within_count_one_step"), ("per-row radius pairing", "src/num_ext/knn.rs query_nb_cnt_w_radius")],
     ["results of query_radius_ptwise, query_nb_cnt, query_radius_freq_cnt, within_dist_from, KDTree.within, KDTree.within_count"],
     "seeded point clouds, metrics, radii drawn from the distance distribution, layouts, add/query histories; non-trivial when at least one radius judgement was made",
     "brute-force scan per row; a distance within 1e-9 of the radius may fall either way")

prop("P03", "Linear regression returns the least-squares solution of the rows it fits",
     "For every full-rank data set, solver, ridge penalty, weighting, bias and null policy, a linear regression (expression, struct, estimator, per group, multi-target, singular-value cut-off, closed-form simple) returns the coefficients minimising the documented objective over the rows the null policy keeps, the bias unpenalised. Predictions and residuals are those of these coefficients, row-aligned, with nulls where the inputs or the policy make them null. Estimators keep answering correctly through refits, construction from values and queries before fitting.",
     ["inputs", "histories", "configurations"],
     "all design matrices, widths, targets, weights, null patterns and policies, solvers, memory layouts, f32/f64 estimators, groups, fit/predict histories",
     "The tests check a few fixed random frames against scikit-learn; policies, layouts, refits and solver combinations are sampled once.",
     ["src/linalg/lr_solvers.rs", "src/linalg/mod.rs", "src/num_ext/linear_regression.rs", "src/num_ext/linear_regression_f32.rs", "src/pymodels/py_lr.rs", "python/polars_ds/linear_models.py", EX + "expr_linear.py", "src/utils/mod.rs"],
     [("normal-equation solve", "src/linalg/lr_solvers.rs"), ("null policy", "src/num_ext/linear_regression.rs series_to_mat_for_lr")],
     ["results of lin_reg, lin_reg_w_rcond, simple_lin_reg, LR"],
     "seeded designs (well/ill conditioned, collinear excluded by conditioning), policies, solvers, weights, groups; each answer compared to an f64 reference solve with a condition-scaled bound",
     "the normal-equation condition number bounds the accepted error; singular designs are out of scope")

prop("P04", "Elastic net, lasso and non-negative fits satisfy their optimality conditions",
     "For every data set and every l1/l2 penalty, the coefficients returned by lasso, elastic-net and non-negative regressions minimise the documented penalised objective over the rows kept, the bias unpenalised, to within the requested tolerance. Coefficients are never negative when asked to be positive. Predictions are those of the coefficients.",
     ["inputs", "configurations"],
     "all designs, penalties, tolerances, constraint and bias settings, f32/f64, expression and estimator",
     "The tests compare with scikit-learn on one frame and a few penalties; a wrong stopping rule or threshold shows only on particular designs.",
     ["src/linalg/lr_solvers.rs", "src/num_ext/linear_regression.rs", "src/pymodels/py_lr.rs", "python/polars_ds/linear_models.py", EX + "expr_linear.py"],
     [("coordinate descent", "src/linalg/lr_solvers.rs faer_coordinate_descent"), ("non-negative least squares", "src/linalg/lr_solvers.rs faer_nn_lr")],
     ["results of lin_reg with l1_reg / positive, ElasticNet"],
     "KKT residual of the returned coefficients, and objective value against an independent solver run to convergence",
     "the accepted KKT residual is derived from the tolerance and the design")

prop("P05", "Regression reports carry the correct statistics of the fit they describe",
     "For every full-rank data set, bias and weighting, a regression report gives for each feature, in order, its coefficient, standard error, t statistic, two-sided p-value and 95% confidence interval, and the R-squared and adjusted R-squared of the fitted rows. Robust standard-error options are the documented sandwich estimators. Data the report cannot be computed for are refused, not misreported.",
     ["inputs", "configurations"],
     "all designs, null patterns and policies, weights, standard-error kinds",
     "The tests compare one frame with statsmodels.",
     ["src/num_ext/linear_regression.rs", "src/linalg/lr_solvers.rs", EX + "expr_linear.py", "src/stats_utils/beta.rs"],
     [("report assembly", "src/num_ext/linear_regression.rs pl_lin_reg_report, pl_wls_report"), ("student t tail", "src/stats_utils/beta.rs student_t_sf")],
     ["rows of lin_reg_report"],
     "every statistic recomputed with an independent QR fit and scipy's t distribution",
     "tolerances scale with the condition number")

prop("P06", "Online regression equals refitting on exactly the rows seen so far",
     "For every data stream, window size, minimum size and penalty, each row of a rolling or recursive regression holds the coefficients of a regression on exactly the valid rows of its window or prefix, and the prediction they give for that row; windows without enough valid rows give null. An online model after any sequence of updates and removals equals a model fitted to the remaining rows, whichever way it was built.",
     ["inputs", "histories"],
     "all streams, null patterns, window sizes, penalties, and update/remove histories",
     "Rank-one updates accumulate state over the whole history; the tests replay one stream without nulls.",
     ["src/linalg/lr_online_solvers.rs", "src/num_ext/linear_regression.rs", "src/pymodels/py_lr.rs", "python/polars_ds/linear_models.py", EX + "expr_linear.py"],
     [("rank-one update", "src/linalg/lr_online_solvers.rs woodbury_step"), ("window with skips", "src/linalg/lr_online_solvers.rs faer_rolling_skipping_lr")],
     ["rows of rolling_lin_reg, recursive_lin_reg; OnlineLR after each event"],
     "each row/each event compared with a fresh reference fit on the rows the history leaves, with an error bound from the history's worst conditioning",
     "well-conditioned windows only; ill-conditioned ones are counted inconclusive")

prop("P07", "Hypothesis tests return the statistic and p-value of the data given",
     "For every sample, alternative and option, the t tests, Mann-Whitney U, Kolmogorov-Smirnov, F/ANOVA, chi-squared and normality tests return the textbook statistic and p-value of the non-null rows, in plain, lazy, grouped and windowed use alike. Ties, nulls, unequal sizes and extreme statistics do not change that. Where the statistic does not exist the answer is an error, null or NaN, never a number.",
     ["inputs", "configurations"],
     "all samples (ties, nulls, tiny and unequal sizes, extreme locations), alternatives and evaluation contexts",
     "The tests compare one random sample per test with scipy; tie corrections, tails and branch cut-offs need particular samples.",
     ["src/stats/t_test.rs", "src/stats/mann_whitney_u.rs", "src/stats/ks.rs", "src/stats/fstats.rs", "src/stats/chi2.rs", "src/stats/normal_test.rs", "src/stats_utils/beta.rs", "src/stats_utils/gamma.rs", "src/stats_utils/normal.rs", EX + "stats.py"],
     [("incomplete beta tail", "src/stats_utils/beta.rs"), ("tie correction", "src/stats/mann_whitney_u.rs"), ("contingency table", "src/stats/chi2.rs")],
     ["results of ttest_ind, ttest_1samp, ttest_ind_from_stats, mann_whitney_u, ks_2samp, f_test, chi2, normal_test"],
     "seeded samples (continuous, tied, wide, tiny), nulls, alternatives, contexts; non-trivial when a statistic or p-value was compared",
     "textbook formulas and scipy on the non-null rows, tolerances for tails below 1e-12 are relative to the series used")

prop("P08", "Correlations and robust or weighted statistics match their definitions",
     "For every pair of columns, Kendall's tau-b, Chatterjee's xi, biweight midcorrelation and weighted, cosine and rank correlations equal their definitions on the rows where both are present. Weighted means, variances, covariances, harmonic and geometric means, the Hodges-Lehmann centre and winsorised columns equal their definitions for every weight vector and null pattern.",
     ["inputs", "configurations"],
     "all pairs of columns and weights, ties, nulls, sizes and evaluation contexts",
     "The tests compare a few random columns with scipy; run-length tie counting and null pairing depend on where ties and nulls sit.",
     ["src/stats/kendall_tau.rs", "src/stats/xi_corr.rs", EX + "stats.py"],
     [("merge-sort inversions with tie runs", "src/stats/kendall_tau.rs"), ("rank differences", "src/stats/xi_corr.rs")],
     ["results of kendall_tau, xi_corr, bicor, corr, weighted_*, cosine_sim, hmean, gmean, hodges_lehmann, winsorize"],
     "seeded column pairs with ties, nulls and weights; each statistic recomputed from its definition (quadratic pair count for tau)",
     "where ties are broken at random, the answer must be that of some breaking")

prop("P09", "Random columns honour their range, seed, nulls and distribution",
     "For every parameter setting, random columns (uniform, integer, string, exponential, normal, binomial, perturbations, jitter, random nulls) have the frame's length, lie inside their documented support, and follow the documented distribution. Equal seeds give equal columns and different draws differ. Perturbation, jitter and null injection leave nulls null and change each value only as documented.",
     ["inputs", "configurations"],
     "all parameter settings, seeds, frame lengths, layouts and contexts",
     "The tests check the range of one draw.",
     ["src/stats/sample.rs", EX + "stats.py"],
     [("seeded generators", "src/stats/sample.rs")],
     ["results of random, random_int, random_str, random_exp, random_normal, random_binomial, perturb, jitter, random_null"],
     "draws of 1..20000 values; support judged value by value, distributions by tests with false-alarm probability below 1e-9 per run",
     "distribution checks are statistical: a shift too small for the sample goes unseen")

prop("P21", "A fitted pipeline applies exactly what it learned from the training data",
     "Every step of a Blueprint (imputation, scaling, encoding, winsorizing, casting, selection, renaming, expressions, SQL, filters, custom fits) is fitted on the training data as earlier steps left it, and the materialized Pipeline reproduces those steps on any other table of the same columns: no value of the new table influences what was learned, no column is lost or altered beyond what the step says, and row-wise steps give the same rows whole or in pieces. Fitting again, transforming again, lazily or eagerly, by blueprint or pipeline, gives the same answer and leaves the inputs unchanged. Requests that cannot be honoured are refused.",
     ["inputs", "configurations", "histories"],
     "all sequences of steps, their options, column kinds (floats with null and NaN, integers, booleans, strings), training tables and unseen tables, lazy and eager calls, with or without target, exclusions and lower/upper casing",
     "The tests run a few fixed pipelines on one table and compare a few columns; order-dependence of steps, unseen categories, column bookkeeping (target, excluded, renamed) and reuse are combinations no sample covers.",
     ["python/polars_ds/modeling/pipeline.py", "python/polars_ds/modeling/transforms.py", "python/polars_ds/modeling/_structures.py"],
     [("steps and their bookkeeping", "python/polars_ds/modeling/pipeline.py"), ("what each step learns", "python/polars_ds/modeling/transforms.py")],
     ["transform() of the training table and of an unseen table", "feature_names_in_/out_", "ensure_features_io refusals"],
     "seeded blueprints of up to six random steps over seeded tables; every step is interpreted a second time by a plain-Python model of training and unseen columns, and every cell of both outputs is compared",
     "winsorizing an integer column at fractional bounds, linear imputation where a predictor is null, the null category of target encoding and select(\"name\") are not judged")

prop("P22", "A pipeline saved and restored is the same pipeline",
     "For every fitted Pipeline, writing it out (to_dict, to_json, to_json to a file) and reading it back (from_dict, from_json_str, from_json), in the same process or in another, gives a pipeline with the same attributes and flags that transforms every table to the same result and refuses the same tables; repeated round trips change nothing, and the original is left as it was. What is not a saved pipeline is refused.",
     ["inputs", "configurations", "histories"],
     "all blueprints over every step kind and option, expressions including the package's own plugins, selectors, SQL and filters, feature-checking flags, tables (training, unseen, empty, with extra, missing or reordered columns)",
     "The tests save a few pipelines built on one data set; whether a learned constant, a cast or a flag survives depends on step, column type and data.",
     ["python/polars_ds/modeling/pipeline.py", "python/polars_ds/modeling/_structures.py", "python/polars_ds/modeling/transforms.py"],
     [("writing and reading pipelines", "python/polars_ds/modeling/pipeline.py"), ("writing and reading steps", "python/polars_ds/modeling/_structures.py")],
     ["attributes and transform() results of original and restored pipelines", "refusals", "results of a second process"],
     "the blueprints of P21 plus hostile expressions (extreme literals, quotes, dates, plugins, windows, selectors, SQL); restored and original are run on the same tables and compared, some in a fresh process",
     "Polars itself cannot read back NaN or infinite literals, nor write opaque functions (rechunk, Python callables), and its JSON may lose the last bit of a float: such expressions are left out and floats are compared to 11 digits")

prop("P23", "Sampling, splitting and partitioning keep exactly the rows they promise",
     "For every frame and setting, sampled, downsampled and volume-neutral frames consist of rows of the input, each at most once, with the promised count per class and untouched rows kept. Splits by ratio assign each row to exactly one split with the promised shares, per stratum where asked, and partitions hold each row exactly once in the partition its key names. Equal seeds give equal results.",
     ["inputs", "configurations"],
     "all frames, ratios, class distributions, keys, seeds, eager and lazy inputs",
     "The tests check counts of one split; loss or duplication at share boundaries depends on sizes and ratios.",
     ["python/polars_ds/sample_and_split/sample_and_split.py", "python/polars_ds/partition/partition.py"],
     [("share boundaries", "python/polars_ds/sample_and_split/sample_and_split.py split_by_ratio"), ("partition dictionary", "python/polars_ds/partition/partition.py")],
     ["results of sample, random_cols, volume_neutral, downsample, split_by_ratio, Partition"],
     "every row carries a hidden identity; conservation, exactly-once and share counts are judged on the identities",
     "fairness of selection is statistical with false-alarm probability below 1e-9")

prop("P10", "Classification metrics and ranking scores equal their definitions",
     "For every vector of labels and scores, confusion counts and every ratio derived from them, ROC AUC, average precision, log loss, categorical cross entropy, Brier score and NDCG equal their textbook definitions on the rows where label and score are both present, with tied scores treated as one threshold. The same numbers come out of plain, lazy, grouped and report use. Thresholds outside the score range and one-class data give the documented value or an error, never a panic.",
     ["inputs", "configurations"],
     "all label/score vectors, ties, nulls, thresholds, class balances and contexts",
     "The tests compare tie-free random scores with sklearn; threshold runs, integer ratios and counts overflow only on particular data.",
     ["src/num_ext/tp_fp.rs", EX + "metrics.py", "src/num_ext/mod.rs"],
     [("threshold curve", "src/num_ext/tp_fp.rs"), ("confusion matrix", "src/num_ext/tp_fp.rs pl_binary_confusion_matrix")],
     ["results of query_binary_metrics, query_confusion_matrix, query_roc_auc, query_tpr_fpr, query_log_loss, query_cat_cross_entropy, mcc, fbeta, ndcg"],
     "seeded labels and scores with ties, nulls and one-class vectors; every metric recomputed from its definition",
     "undefined ratios (0/0) may be NaN or null")

prop("P11", "Regression losses and scores equal their definitions on the rows given",
     "For every pair of actual and predicted columns, each regression loss (l1, l2, l-infinity, huber, rmse, msle, mape, smape, log-cosh, pinball and their normalised forms) and score (r2, adjusted r2, pcc) equals its definition over the rows where both are present. The answer does not depend on whether the query is plain, lazy, grouped or windowed.",
     ["inputs", "configurations"],
     "all column pairs, options, null patterns and contexts",
     "The tests evaluate a few null-free columns; numerator and denominator can silently use different rows.",
     [EX + "metrics.py"],
     [("losses", EX + "metrics.py query_l1 .. query_smape")],
     ["results of the query_* regression metrics"],
     "seeded column pairs with nulls; each metric recomputed on the common rows",
     "log-cosh beyond |diff| 710 overflows in f64 and is left out")

prop("P12", "Weight of evidence, information value and PSI equal their definitions",
     "For every feature and target, weight of evidence and information value (numeric and categorical) equal their definitions over the rows where both are present, and population stability indices (quantile bins, given breakpoints, categories) and their reports equal the index computed from bin counts of the two samples. Every value falls into exactly one bin whichever side of a breakpoint it lies on. Nulls and non-finite values are left out, not counted.",
     ["inputs", "configurations"],
     "all features, targets, baselines, breakpoints, category sets and contexts",
     "The tests print one example; bin assignment at a breakpoint and pairing of categories depend on the data.",
     ["src/num_ext/psi.rs", "src/num_ext/woe_iv.rs", EX + "num.py"],
     [("bin assignment", "src/num_ext/psi.rs"), ("pairing of categories", "src/num_ext/psi.rs pl_psi_discrete_report")],
     ["results of query_psi, psi_discrete, psi_w_breakpoints, their reports, query_woe, query_iv and the discrete forms"],
     "seeded samples placed on, between and outside breakpoints; each index recomputed from bin counts",
     "empty bins use the documented smoothing")

prop("P13", "Edit distances and similarities equal their definitions row by row",
     "For every pair of string columns, or a column and one string, Levenshtein, Damerau-Levenshtein, OSA, Hamming, LCS, Jaro, Jaro-Winkler and fuzzy-ratio answers (and the filters built on them) equal their definitions over the characters of the two strings of that row, sequentially or in parallel. A null on either side gives null and nothing else; the type is the one announced in the lazy schema. Identical strings have similarity 1 and distances are symmetric.",
     ["inputs", "configurations"],
     "all string pairs (empty, non-ASCII, combining, longer than a machine word), null patterns, parallel settings, layouts and contexts",
     "The tests compare a few short ASCII words; the bit-parallel kernels and the scalar/column/parallel code paths differ by length, null and argument shape.",
     ["src/str_ext/levenshtein.rs", "src/str_ext/osa.rs", "src/str_ext/hamming.rs", "src/str_ext/jaro.rs", "src/str_ext/lcs_seq.rs", "src/str_ext/fuzz.rs", "src/str_ext/generic_str_distancer.rs", EX + "string.py"],
     [("row-wise and scalar dispatch", "src/str_ext/generic_str_distancer.rs")],
     ["results of str_leven, str_d_leven, str_osa, str_hamming, str_lcs_seq, str_jaro, str_jw, str_fuzz, filter_by_levenshtein, filter_by_hamming"],
     "seeded word pairs (edits of one another, 10 alphabets, lengths 0..130), nulls with text behind them, column or single string, parallel flag; non-trivial when a row was compared with the reference",
     "references are quadratic dynamic programmes written from the definitions")

prop("P14", "Set similarities and vocabulary lookups equal their definitions",
     "For every pair of strings and substring size, Jaccard, Sorensen-Dice, overlap and Tversky scores equal their definitions on the sets of character n-grams. A nearest-word lookup returns a vocabulary word at the smallest distance within the threshold, or null if there is none, and a similar-to-vocabulary filter keeps exactly the rows whose similarity to any (all, the average of) the vocabulary meets the threshold. Nulls give null answers and are never candidates.",
     ["inputs", "configurations"],
     "all strings, n-gram sizes, weights, vocabularies, metrics, thresholds, parallel settings and contexts",
     "The tests use one example row per function.",
     ["src/str_ext/str_jaccard.rs", "src/str_ext/sorensen_dice.rs", "src/str_ext/overlap.rs", "src/str_ext/tversky.rs", "src/str_ext/nearest_str.rs", EX + "string.py"],
     [("n-gram sets", "src/str_ext/mod.rs"), ("best candidate search", "src/str_ext/nearest_str.rs")],
     ["results of str_jaccard, str_sorensen_dice, str_overlap_coeff, str_tversky_sim, str_nearest, similar_to_vocab"],
     "seeded strings over small alphabets (so grams collide), vocabularies with near words and duplicates, thresholds around the distances met",
     "ties between equally near words may be resolved either way")

prop("P15", "Text cleaning, casing, stemming and tokenising follow their rules",
     "For every string, stems are those of the English Porter2 rules, case conversions produce exactly the documented form of the words, and cleaners (diacritics, non-ASCII, whitespace, Unicode normal forms, word mapping, number extraction) change only what they document. Stopword flags and tokens are those of the documented lists and rules, without repeats. Nulls stay null; idempotent cleaners are idempotent.",
     ["inputs", "configurations"],
     "all strings (case, Unicode, digits, punctuation), options, parallel settings and contexts",
     "The tests stem a few words; each of the dozens of suffix rules fires only on particular words and regions.",
     ["src/str_ext/snowball_stem.rs", "src/str_ext/inflections.rs", "src/str_ext/str_cleaning.rs", "src/str_ext/is_stopword.rs", EX + "string.py"],
     [("stemming rules", "src/str_ext/snowball"), ("inflections", "src/str_ext/inflections.rs")],
     ["results of str_snowball, str_tokenize, is_stopword, to_*_case, remove_diacritics, replace_non_ascii, normalize_string, normalize_whitespace, map_words, extract_numbers"],
     "words assembled from stems and suffix chains (every Porter2 suffix reached), Unicode text, option grids; non-trivial when a row was compared",
     "the stemming reference is an independent Porter2 implementation; casing follows the documented word-splitting rule")

prop("P16", "Elementwise and row-wise numeric expressions equal their definitions",
     "For every numeric column, the special functions (gamma, digamma, expit, logit, sinc, xlogy, exp2, fract, trunc, next_up, next_down), gcd, lcm, haversine distance, horizontal norms, list argmax, softmax, centring, z-scores and detrending equal their mathematical definitions row by row. A null argument gives null for that row only, scalars broadcast, and the type is the one announced in the lazy schema. Monotonicity tests answer exactly whether every consecutive pair is ordered.",
     ["inputs", "configurations"],
     "all values (zero, negative, huge, infinite, NaN, integer types), scalar or column arguments, null patterns, chunk layouts and contexts",
     "The tests evaluate single rows and never integer, null or chunked columns.",
     ["src/num_ext/float_extras.rs", "src/num_ext/gcd_lcm.rs", "src/num_ext/haversine.rs", EX + "num.py"],
     [("float functions", "src/num_ext/float_extras.rs"), ("broadcasting kernels", "src/num_ext/gcd_lcm.rs, haversine.rs")],
     ["results of the named expressions in polars_ds.exprs.num"],
     "seeded columns with edge values and nulls, every dtype, evaluation context and layout; each row recomputed from its definition with scipy/math",
     "values are compared to 1e-9 relative, next_up and next_down bit for bit")

prop("P17", "Convolution, FFT, quadrature, isotonic fits and PCA equal their definitions",
     "For every sequence, convolution (all modes and methods), the real FFT, trapezoid integration and isotonic regression give the values of their mathematical definitions, whichever method computes them. For every numeric table, singular values, explained variance, principal axes and principal components reconstruct the centred data up to sign. Rows with missing data are handled as documented and an unanswerable request is refused with an error.",
     ["inputs", "configurations"],
     "all sequences, kernels, modes, methods, spacings, weights, matrices (wide, tall, constant, collinear, with nulls), layouts and contexts",
     "The tests compare one random vector per function with scipy or sklearn.",
     ["src/num_ext/convolve.rs", "src/num_ext/fft.rs", "src/num_ext/trapz.rs", "src/num_ext/isotonic_regression.rs", "src/num_ext/pca.rs", EX + "num.py"],
     [("modes and methods", "src/num_ext/convolve.rs"), ("pooling of violators", "src/num_ext/isotonic_regression.rs"), ("centring and SVD", "src/num_ext/pca.rs")],
     ["results of convolve, rfft, integrate_trapz, isotonic_regression, singular_values, pca, principal_components"],
     "seeded sequences and matrices; convolution recomputed from the double sum, isotonic fits checked against the optimality conditions, PCA against orthonormality and reconstruction",
     "tolerances are relative to the size of the data and widen for ill-conditioned matrices")

prop("P18", "Time series features equal their definitions",
     "For every series, the tsfresh-style features (energy, changes, ranges, counts, autocorrelation, c3, cid, time reversal asymmetry, AR coefficients), streak statistics, similar-window counts, Lempel-Ziv complexity and leading-digit counts equal their definitions. Lags, thresholds and options act as documented, and the answer is the same in a plain, lazy, grouped or windowed query. A query longer than the series or an invalid option is refused or answered as empty, never with a wrong count.",
     ["inputs", "configurations"],
     "all series, lags, thresholds, metrics, null patterns, parallel settings, layouts and contexts",
     "The tests check a handful of features on one series each.",
     [EX + "ts_features.py", "src/num_ext/subseq_sim.rs", "src/num_ext/lempel_ziv.rs", "src/num_ext/benford.rs"],
     [("window search", "src/num_ext/subseq_sim.rs"), ("streaks", EX + "ts_features.py")],
     ["results of the query_* time series features in polars_ds.exprs.ts_features"],
     "seeded walks, waves, level and constant series; each feature recomputed by direct loops",
     "similar windows whose distance lies on the threshold to rounding are not judged")

prop("P19", "Entropies and information estimates equal their definitions",
     "For every column, Shannon and conditional entropy equal the values computed from counts, and sample, approximate and permutation entropy equal their template-counting definitions. The nearest-neighbour estimates (k-NN entropy, copula entropy, conditional independence, transfer entropy) equal the Kozachenko-Leonenko formula on the exact neighbour distances. Answers do not depend on parallel settings, chunking or grouping, and too-short input gives a missing value rather than a crash.",
     ["inputs", "configurations"],
     "all columns (including one point and constant ones), template lengths, tolerances, delays, neighbours, norms, bases, parallel settings and contexts",
     "The tests compare a few values on one series and rely on tree searches whose pruning errors depend on the data.",
     [EX + "ts_features.py", "src/num_ext/entrophies.rs", "src/num_ext/cond_entropy.rs"],
     [("template counts by tree search", "src/num_ext/entrophies.rs"), ("copula rank transform", EX + "ts_features.py")],
     ["results of query_entropy, query_cond_entropy, query_sample_entropy, query_approx_entropy, query_permute_entropy, query_knn_entropy, query_copula_entropy, query_cond_indep, query_transfer_entropy"],
     "seeded series and clouds; each estimate recomputed with quadratic loops over all pairs",
     "distances equal to the tolerance to rounding, and ties inside a permutation window, are not judged")

prop("P20", "Set overlaps, combinations, products and target encodings are exact",
     "For any two columns (or two columns of lists), Jaccard similarity equals intersection over union of their sets of non-null values, null counting as one more element only where asked; columns of incompatible types are refused. Combinations and Cartesian products list every selection of non-null values exactly once, in order. Target encoding gives each category exactly once with its smoothed mean.",
     ["inputs", "configurations"],
     "all columns, lists, integer widths, strings and floats, null patterns, sizes k, smoothing options, layouts and contexts",
     "The tests use one frame of five rows.",
     ["src/num_ext/jaccard.rs", "src/num_ext/iterations.rs", "src/num_ext/target_encode.rs", EX + "num.py", EX + "expr_iter.py"],
     [("set sizes", "src/num_ext/jaccard.rs"), ("enumeration", "src/num_ext/iterations.rs")],
     ["results of jaccard_col, jaccard_row, combinations, product, target_encode"],
     "seeded columns over small pools (so values collide), nulls with values behind them, every integer width; recomputed with Python sets and itertools",
     "whether target_encode lists null as a category is left open")

prop("P24", "Expressions return what their schema announces, wherever they are evaluated",
     "For every expression the package offers, the column names and types announced by a lazy query's schema are those of the collected result, in select, with_columns, group_by and over. The same rows give the same result alone, as one group among others, through a filter or slice, lazily, and next to other expressions. How the columns are split into chunks, sliced or ordered in memory never shows in the result, and the result is a sound column: its null count, sortedness marks, lengths and buffers hold, so that whatever is done with it next acts on the values it shows.",
     ["inputs", "configurations"],
     "all expressions with all their options, all evaluation contexts, group sizes and memory layouts",
     "The tests evaluate each expression eagerly, in one select, on one contiguous frame.",
     ["src/num_ext/mod.rs", "src/stats/mod.rs", "src/str_ext/mod.rs", "src/utils/mod.rs", EX + "num.py", EX + "stats.py", EX + "string.py", EX + "ts_features.py", EX + "metrics.py", "python/polars_ds/_utils.py"],
     [("output field functions of the plugins", "src/utils/mod.rs"), ("plugin registration flags (returns_scalar, changes_length, elementwise, pass_name)", "python/polars_ds/exprs")],
     ["LazyFrame.collect_schema against collect()", "results of the same expression on the same rows in different contexts and layouts"],
     "a catalogue of every public expression with drawn options (183 entries); each evaluated twice, in two contexts or two layouts, on the same rows",
     "announced types of pure Polars group arithmetic, names of struct fields inside agg/over, and psi inside over are Polars' own and not judged", min_distinct=100)

prop("P26", "Parallel options, thread counts and concurrent callers never show in the answer",
     "For every input, a function called with parallel=True gives the answer it gives with parallel=False, a process with any number of threads computes what a process with one thread computes, and calls running at the same time (several Python threads, several expressions in one query, one search tree or fitted model shared by threads) each get what they get alone. The same call on the same data, repeated in any state of the process, gives the same answer, seeded random functions included.",
     ["inputs", "schedules", "configurations"],
     "all inputs and sizes, thread counts, numbers of concurrent callers and interleavings, histories of earlier calls",
     "The tests run every function once, mostly with the default parallel setting, in one thread, on a frame too small to be split.",
     ["src/utils/mod.rs", "src/num_ext/knn.rs", "src/num_ext/entrophies.rs", "src/num_ext/subseq_sim.rs", "src/str_ext/levenshtein.rs", "src/str_ext/jaro.rs", "src/str_ext/sorensen_dice.rs", "src/stats/sample.rs", "src/pymodels/py_kdt.rs", "src/pymodels/py_lr.rs"],
     [("splitting of rows between threads", "src/utils/mod.rs split_offsets"), ("pool choice under a parallel caller", "src/num_ext/knn.rs, src/str_ext"), ("seeds for random draws", "src/stats/sample.rs")],
     ["results of every expression of the catalogue, KDTree and LR methods, under each setting"],
     "each call made twice on the same rows under two settings: parallel flag, worker processes with 1, 2, 3 and 8 threads, 2 to 8 Python threads released together by a barrier, histories of other calls in between; distinct by input digest",
     "sums that Polars itself forms in another order are compared to rounding; interleavings are those the scheduler produces, not enumerated", min_distinct=100)

prop("P27", "Nothing the caller passes in is changed, kept or tied to later changes",
     "For every call, the data frames, series, arrays, lists and dictionaries passed in are bit for bit what they were before the call, as are frames sharing their buffers. Models, search trees, pipelines and reports neither depend on later changes to what was passed in nor hand out internals whose change alters later answers. Fitting, transforming and predicting leave the data alone and using a pipeline does not change it.",
     ["inputs", "histories"],
     "all expressions and methods, memory layouts (slices, chunks, strided, Fortran, read-only and shared arrays), options given as lists or dictionaries, orders of calls",
     "The tests look at results only and never at the input after the call.",
     ["src/utils/mod.rs", "src/pymodels/py_kdt.rs", "src/pymodels/py_lr.rs", "python/polars_ds/spatial.py", "python/polars_ds/linear_models.py", "python/polars_ds/modeling/pipeline.py", "python/polars_ds/eda/diagnosis.py", "python/polars_ds/partition/partition.py", "python/polars_ds/sample_and_split/sample_and_split.py"],
     [("copies of numpy input", "python/polars_ds/spatial.py, linear_models.py"), ("gathering columns into matrices", "src/utils/mod.rs"), ("cached answers", "python/polars_ds/eda/diagnosis.py")],
     ["digests of every input buffer before and after the call", "answers after the caller has overwritten its arrays"],
     "the catalogue of expressions and every class of the package on drawn layouts; each input digested down to its bytes (validity included) before and after, then overwritten and the object asked again",
     "what is judged is the input bytes and the answers, not whether a copy was made", min_distinct=100)

prop("P29", "Data reports and plots show what is in the data",
     "For every frame, the DIA reports (special values, numeric profile, string statistics, inferred column kinds, null correlations, correlations, dependencies, row and column validation) contain exactly the columns, rows and pairs their rule picks, each with its own number computed from the data. The numbers drawn by the plots (shares of bad values, ROC curves and their AUC, regression lines, calibration bins, principal components) are those of the data passed in.",
     ["inputs", "configurations"],
     "all frames: every combination of column types, null, NaN and infinite values, constant and duplicate columns, one row and many, and all options",
     "The tests call none of the reports and none of the plots.",
     ["python/polars_ds/eda/diagnosis.py", "python/polars_ds/eda/plots.py", EX + "ts_features.py"],
     [("column selection per report", "python/polars_ds/eda/diagnosis.py"), ("chart data", "python/polars_ds/eda/plots.py")],
     ["frames returned by DIA, data frames and titles inside the charts"],
     "seeded frames of mixed columns (integers, both float widths, strings, booleans, categoricals, dates, lists, all-null and constant columns), every report with drawn options, recomputed row by row in Python",
     "whether null counts as the k-th distinct value, quantiles on a half position and values on a threshold to rounding are left open", min_distinct=100)

prop("P28", "Called on arrays, every function gives what its expression gives on columns",
     "For every function of the package, the compat layer called with NumPy arrays, pandas series, Polars series or any object with the array protocol returns a Polars Series, named after the function, with the values the expression gives on a frame holding those columns. Scalars and options keep their meaning whatever number type they have, and the inputs' own names and indices do not matter. Names that cannot be called, unknown names and calls without a positional argument are refused.",
     ["inputs", "configurations"],
     "all functions of the package and their options, all carriers of a column (contiguous, strided, indexed), all lengths",
     "The tests never use the compatibility layer.",
     ["python/polars_ds/compat/_compat.py", "python/polars_ds/__init__.py"],
     [("conversion of arguments", "python/polars_ds/compat/_compat.py _try_into_series"), ("evaluation context and naming", "python/polars_ds/compat/_compat.py __getattr__")],
     ["results of compat.f(arrays) against df.select(f(columns))"],
     "the catalogue of expressions, its calls recorded and replayed with arrays in place of the columns; carriers drawn per argument",
     "functions without a column among their arguments (random draws between two numbers) have no length to follow and are skipped; two series of the same name may be refused", min_distinct=60)


prop("P30", "Degenerate data and options give an answer or a plain error, never a panic",
     "For every function, model, report and pipeline, data at or beyond the edge (no row, one row, only nulls, only NaN, infinities, constant columns, extreme or mis-typed values, arrays of the wrong shape) and options at, below or above their range end in a result of the promised length or in an ordinary error the caller can catch. No such call panics, ends the process, hangs, or fails with an error that betrays a slip in the program (missing attribute, division by zero, index out of range).",
     ["inputs", "configurations"],
     "all degenerate frames and arrays, all column types, all options at and outside their ranges, in every evaluation context, all call orders of models (before fitting included)",
     "The tests use well-formed data and valid options only.",
     ["src/utils/mod.rs", "src/linalg/lr_solvers.rs", "src/linalg/lr_online_solvers.rs", "src/num_ext/linear_regression.rs", "src/num_ext/knn.rs", "src/num_ext/entrophies.rs", "src/stats/sample.rs", "src/pymodels/py_kdt.rs", "src/pymodels/py_lr.rs", "src/arkadia/kdt.rs", EX + "num.py", EX + "stats.py", EX + "ts_features.py", EX + "metrics.py", "python/polars_ds/eda/diagnosis.py", "python/polars_ds/modeling/transforms.py"],
     [("plugin entry points", "src/num_ext, src/stats, src/str_ext"), ("argument checks", "python/polars_ds/exprs"), ("shape checks of arrays", "src/pymodels")],
     ["kind of every outcome (answer, ordinary error, panic, signal, time-out)", "length of the answers"],
     "the catalogue on degenerate frames; every numeric, list and text option swept over edge values; models, trees, reports, samples, splits, pipelines on degenerate input; columns of unsupported types in child processes",
     "Polars' own panics on nested and temporal arithmetic, option values beyond 2^31 (memory exhaustion) and Categorical/Enum/Decimal/Int128 columns (known finding) are not judged as violations", min_distinct=400)


prop("P25", "No call touches memory it does not own, unwritten memory, or keeps memory",
     "For every input, layout (chunks, slices, strided, unaligned or read-only arrays), size and number of threads, no function, model or search tree reads or writes outside the buffers it owns or was given, uses memory after it was freed, breaks the preconditions of an unchecked operation, or lets an answer depend on memory nobody wrote. Results stay valid after their inputs are gone, and repeating a call does not keep more and more memory.",
     ["inputs", "histories", "schedules"],
     "all inputs, sizes, layouts, options, orders of release, and calls running at the same time",
     "An overrun, a dangling buffer or an unwritten cell usually yields the right numbers in a test; only instrumented memory shows it.",
     ["src/utils/mod.rs", "src/linalg/mod.rs", "src/linalg/lr_solvers.rs", "src/linalg/lr_online_solvers.rs", "src/num_ext/psi.rs", "src/stats/ks.rs", "src/pymodels/py_kdt.rs", "src/pymodels/py_lr.rs", "src/arkadia/kdt.rs", "python/polars_ds/spatial.py", "python/polars_ds/linear_models.py"],
     [("raw-pointer gather of columns into rows", "src/utils/mod.rs series_to_row_major_slice"), ("unchecked matrix access", "src/linalg/lr_solvers.rs, lr_online_solvers.rs"), ("views made from raw parts", "src/linalg/mod.rs"), ("NumPy buffers borrowed as slices", "src/pymodels")],
     ["reports of AddressSanitizer and of the checks of unsafe preconditions", "bytes allocated after repeated calls", "answers under two fillings of fresh and freed memory"],
     "two instrumented builds (AddressSanitizer; debug assertions with poisoned allocations), both with the standard library's checks of unsafe preconditions; the catalogue on inputs in exactly sized fenced buffers, the workloads of all other properties, arrays of ten layouts, threads sharing frames; a case of its own shows that the checks are on",
     "the extension and the generic code it instantiates are instrumented, not Polars itself, nor dependencies' non-generic code; data races are seen only through what they do to memory and answers", kinds=["asan", "ubchecks"], min_distinct=400)


prop("P31", "Short and long ways of writing a call mean the same",
     "For every function, model, pipeline step, report and plot, an option left out is the option at its published default, and arguments given by position in the published order are the arguments given by name. A column given by its name, as pl.col, in a list or through a selector is the same column, and the former names of functions still give what the new names give.",
     ["inputs", "configurations"],
     "all functions and methods with options, all combinations of the other options, all data",
     "The tests write each call in one way, and never compare it to the others.",
     [EX + "num.py", EX + "stats.py", EX + "string.py", EX + "metrics.py", EX + "ts_features.py", EX + "expr_linear.py", EX + "expr_knn.py", "python/polars_ds/_utils.py", "python/polars_ds/modeling/pipeline.py", "python/polars_ds/modeling/transforms.py", "python/polars_ds/eda/diagnosis.py", "python/polars_ds/eda/plots.py", "python/polars_ds/linear_models.py", "python/polars_ds/spatial.py", "python/polars_ds/partition/partition.py"],
     [("signatures", "python/polars_ds/exprs and classes"), ("names to expressions", "python/polars_ds/_utils.py"), ("columns of a step", "python/polars_ds/modeling/pipeline.py")],
     ["results of the short and the long call on the same data", "whether another value of the option would have told them apart"],
     "the published signatures (names, order, defaults) are kept as data; every call of the catalogue and every method is made with the option left out and spelled out, by position and by name, on drawn data and drawn other options",
     "seeds are left open (None means a fresh draw); an option whose other values do not show on the data at hand is reported as not having mattered", min_distinct=200)


prop("P32", "What columns are called changes nothing but names",
     "For every expression, pipeline step (fitted, applied, saved and loaded), sample, split, partition, report and data-frame model, renaming the columns of the data, and the names in the call with them, changes the names in the result accordingly and no value. Any column name the engine itself accepts is accepted: the empty name, digits, spaces, quotes, other scripts, and above all the words the library uses for columns of its own. No column of the caller is lost or overwritten.",
     ["inputs", "configurations"],
     "all data, all options, all evaluation contexts, all column names (of the columns used and of those standing by) that are not part of the layout of the result asked for",
     "The tests name their columns x1, x2, y; a clash with a name used inside is only met by the user whose data has that column.",
     ["src/num_ext/linear_regression.rs", "src/num_ext/linear_regression_f32.rs", "src/num_ext/psi.rs", "src/num_ext/target_encode.rs", "src/stats/chi2.rs", "src/stats/fstats.rs", "src/utils/mod.rs", EX + "num.py", EX + "ts_features.py", EX + "expr_knn.py", "python/polars_ds/sample_and_split/sample_and_split.py", "python/polars_ds/partition/partition.py", "python/polars_ds/modeling/transforms.py", "python/polars_ds/modeling/pipeline.py", "python/polars_ds/eda/diagnosis.py", "python/polars_ds/linear_models.py"],
     [("columns added to the caller's", "src/num_ext/linear_regression.rs bias; python/polars_ds/sample_and_split split masks"), ("columns found by name", "value_counts().struct.field in exprs and eda"), ("frames built from inputs", "src/utils/mod.rs to_frame")],
     ["values and names of the result under two namings of the same data"],
     "the catalogue and every step, report and sample run twice on the same data: under plain names and under names drawn from a fixed hostile list and from all string constants in the library's sources (read at run time)",
     "the regressions read a string as an SQL expression, so their columns are given as pl.col(name); names beginning with ^ (regular expressions to Polars) and * are not drawn; a name that is part of the layout of the result (a report's own 'column', a documented reserved name) may be refused", min_distinct=250)


prop("P33", "The type numbers are stored in changes nothing but precision",
     "Whole numbers stored as any signed or unsigned integer type or as Float32 give, in every expression, metric, statistic, search, pipeline step (fitted, applied, saved and loaded), model and report, the answer they give stored as Float64, up to the precision of the type. No sum, difference, product, square, range or absolute value taken on the way wraps around, saturates or becomes null because the stored type is small or unsigned. Columns of different numeric types can be used together where the roles allow different columns, and no numeric type of column is refused that Float64 is not.",
     ["inputs", "configurations"],
     "all calls taking numbers, all integer and float types Polars stores (8 to 64 bits), mixed or alike, values up to the ends of the type's range",
     "The tests draw floats. Real data comes as Int8 flags, UInt8 scores or UInt32 counts, where a - b or a * b silently wraps.",
     [EX + "num.py", EX + "stats.py", EX + "metrics.py", EX + "ts_features.py", EX + "expr_linear.py", EX + "expr_knn.py", "python/polars_ds/modeling/transforms.py", "python/polars_ds/linear_models.py", "python/polars_ds/eda/diagnosis.py", "python/polars_ds/eda/plots.py", "src/num_ext", "src/stats", "src/utils/mod.rs"],
     [("casts at the border", "python/polars_ds/exprs, .cast(pl.Float64) before arithmetic"), ("casts in the plugin", "src/utils/mod.rs, src/num_ext, src/stats"), ("learned parameters", "python/polars_ds/modeling/transforms.py")],
     ["results on the same numbers stored as Float64 and stored otherwise"],
     "the catalogue, corr, every numeric pipeline step, LR/ElasticNet, DIA and the plotted fits, each on whole numbers stored as Float64 and as drawn types (alike or mixed), including the ends of their ranges",
     "whole numbers only, so both copies hold the same data; winsorized integers stay integers; exp2, gamma, expit, logit, digamma and sinc answer integers in single precision by design; numpy integer arrays may be refused by LR.fit; Int128 and Decimal are outside", min_distinct=120)
