"""One constructor per public expression, over the columns of `table`. Shared by the monitors of guarantees that
every expression has to keep (naming and types, layouts, threads, untouched inputs, degenerate inputs, memory)."""
import datetime as dt
import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.exprs import num as N, stats as S, string as Z, metrics as M, ts_features as T, expr_linear as L, expr_knn as K, expr_iter as I

SCHEMA = dict(f0=pl.Float64, f1=pl.Float64, f2=pl.Float64, h0=pl.Float32, n0=pl.Float64, n1=pl.Float64, i0=pl.Int64, i1=pl.Int32,
              u0=pl.UInt32, k0=pl.Int64, b0=pl.Boolean, b1=pl.Boolean, p0=pl.Float64, z0=pl.Int32, y0=pl.Float64, t0=pl.Float64,
              w0=pl.Float64, s0=pl.String, s1=pl.String, c0=pl.String, q0=pl.List(pl.Int64), q1=pl.List(pl.Int64),
              m0=pl.List(pl.Float64), l0=pl.UInt32)

WORDS = ["", "a", "ab", "abc", "kitten", "sitting", "the", "running", "Résumé", "naïve café", "x1y22.5", "some Words here", "ABC", "ß", "日本語", "a b  c"]


def column(rng, name, n):
    """plain, well-behaved values: what every function is meant for"""
    if name in ("f0", "f1", "f2", "h0", "y0"):
        return [round(float(v), 6) for v in rng.normal(0, 2, n)]
    if name in ("n0", "n1"):
        return [None if rng.random() < 0.2 else float(v) for v in rng.normal(1, 3, n)]
    if name in ("i0", "i1"):
        return [int(v) for v in rng.integers(-6, 7, n)]
    if name == "u0":
        return list(range(n))
    if name == "k0":
        return [int(v) for v in rng.integers(0, 3, n)]
    if name in ("b0", "b1"):
        return [bool(v) for v in rng.integers(0, 2, n)]
    if name == "p0":
        return [float(v) for v in rng.uniform(0.01, 0.99, n)]
    if name == "z0":
        return [int(v) for v in rng.integers(0, 2, n)]
    if name == "t0":
        return [float(v) for v in np.sort(rng.normal(0, 5, n))]
    if name == "w0":
        return [float(v) for v in rng.uniform(0.1, 3, n)]
    if name in ("s0", "s1"):
        return [WORDS[int(v)] for v in rng.integers(0, len(WORDS), n)]
    if name == "c0":
        return ["abc"[int(v)] for v in rng.integers(0, 3, n)]
    if name in ("q0", "q1"):
        return [[int(x) for x in rng.integers(0, 5, rng.integers(0, 5))] for _ in range(n)]
    if name == "m0":
        p = rng.dirichlet(np.ones(3), n)
        return [[float(x) for x in r] for r in p]
    if name == "l0":
        return [int(v) for v in rng.integers(0, 3, n)]
    raise KeyError(name)


def plain(rng, n):
    """name -> values"""
    return {c: column(rng, c, n) for c in SCHEMA}


def to_df(cols):
    return pl.DataFrame([pl.Series(c, v, dtype=SCHEMA[c], strict=False) for c, v in cols.items()])


# shape of the result: "scalar" (one value), "rows" (a value per row, in order), "vec" (its own length)
ENTRIES = {}


def entry(name, shape, make, **tags):
    ENTRIES[name] = dict(name=name, shape=shape, make=make, **tags)


class Draw:
    """The free choices of one entry, drawn from a seed so that the same expression can be built again."""

    def __init__(self, seed, parallel=None):
        self.rng = np.random.default_rng(seed)
        self.parallel = parallel

    def pick(self, *o):
        return o[int(self.rng.integers(len(o)))]

    @property
    def par(self):
        p = bool(self.rng.integers(2))
        return p if self.parallel is None else self.parallel


def make(name, seed, parallel=None):
    return ENTRIES[name]["make"](Draw(seed, parallel))


F3 = ("f0", "f1", "f2")
# ---- element-wise numbers
for fn in ("exp2", "expit", "fract", "trunc", "digamma", "next_up", "next_down", "sinc"):
    entry(fn, "rows", lambda d, fn=fn: getattr(N, fn)(d.pick("f0", "n0", "h0")), cols=("f0", "n0", "h0"))
entry("gamma", "rows", lambda d: N.gamma(d.pick("w0", "f0")))
entry("logit", "rows", lambda d: N.logit("p0"))
entry("xlogy", "rows", lambda d: N.xlogy(d.pick("w0", "n0"), "w0"))
entry("gcd", "rows", lambda d: N.gcd("i0", d.pick("k0", 4, pl.col("i0"))))
entry("lcm", "rows", lambda d: N.lcm("i0", d.pick("k0", 4, pl.col("i0"))))
entry("haversine", "rows", lambda d: N.haversine("f0", "f1", *d.pick(("f2", "y0"), (1.5, -3.0))))
entry("center", "rows", lambda d: N.center("f0"))
entry("z_normalize", "rows", lambda d: N.z_normalize("f0"))
entry("softmax", "rows", lambda d: N.softmax("f0"))
entry("detrend", "rows", lambda d: N.detrend("f0", method=d.pick("linear", "mean")))
entry("is_increasing", "scalar", lambda d: N.is_increasing(d.pick("t0", "f0"), strict=d.pick(True, False)))
entry("is_decreasing", "scalar", lambda d: N.is_decreasing(d.pick("t0", "f0"), strict=d.pick(True, False)))
entry("list_amax", "rows", lambda d: N.list_amax("m0"))
for fn in ("l1_horizontal", "l2_sq_horizontal", "l_inf_horizontal"):
    entry(fn, "rows", lambda d, fn=fn: getattr(N, fn)(*F3, normalize=d.pick(True, False)))
entry("integrate_trapz", "scalar", lambda d: N.integrate_trapz("f0", d.pick("t0", 0.5)))
entry("isotonic_regression", "rows", lambda d: N.isotonic_regression("f0", weights=d.pick(None, "w0"), increasing=d.pick(True, False)))
entry("convolve", "vec", lambda d: N.convolve("f0", d.pick([1.0, 2.0], [0.5], [1.0, -1.0, 3.0]), method=d.pick("direct", "fft"),
                                              mode=d.pick("full", "same", "left", "right", "valid"), parallel=d.par))
entry("rfft", "vec", lambda d: N.rfft("f0", n=d.pick(None, 4, 40), return_full=d.pick(True, False)))
entry("jaccard_row", "rows", lambda d: N.jaccard_row("q0", "q1"))
entry("jaccard_col", "scalar", lambda d: N.jaccard_col(d.pick("i0", "k0"), "k0", count_null=d.pick(True, False)))
entry("psi", "scalar", lambda d: N.psi("f0", d.pick("f1", "y0"), n_bins=d.pick(2, 5, 10)))
entry("psi_report", "vec", lambda d: N.psi("f0", "f1", n_bins=d.pick(2, 5, 10), return_report=True))
entry("psi_discrete", "scalar", lambda d: N.psi_discrete("c0", d.pick("c0", "s0")))
entry("psi_discrete_report", "vec", lambda d: N.psi_discrete("c0", "s0", return_report=True), unordered=True)
entry("psi_w_breakpoints", "vec", lambda d: N.psi_w_breakpoints("f0", "f1", [-1.0, 0.5, 2.0]))
entry("woe", "vec", lambda d: N.woe("f0", "z0", n_bins=d.pick(2, 5)), unordered=True)
entry("woe_discrete", "vec", lambda d: N.woe_discrete("c0", "z0"), unordered=True)
entry("info_value", "scalar", lambda d: N.info_value("f0", "z0", n_bins=d.pick(2, 5)))
entry("info_value_discrete", "scalar", lambda d: N.info_value_discrete("c0", "z0"))
entry("info_value_report", "vec", lambda d: N.info_value_discrete("c0", "z0", return_sum=False), unordered=True)
entry("target_encode", "vec", lambda d: N.target_encode("c0", d.pick("z0", "y0"), min_samples_leaf=d.pick(1, 20), smoothing=d.pick(1.0, 10.0)), unordered=True)
entry("pca", "vec", lambda d: N.pca(*F3, center=d.pick(True, False)), sign=True)
entry("principal_components", "rows", lambda d: N.principal_components(*F3, k=d.pick(1, 2, 3), center=d.pick(True, False)), sign=True)
entry("singular_values", "scalar", lambda d: N.singular_values(*F3, center=d.pick(True, False), as_explained_var=d.pick(True, False), as_ratio=d.pick(True, False)))
# ---- statistics
entry("bicor", "scalar", lambda d: S.bicor("f0", "f1"))
entry("chi2", "scalar", lambda d: S.chi2("c0", "k0"))
entry("chi2_full", "vec", lambda d: S.chi2("c0", "k0", return_full=True), unordered=True)
entry("corr", "scalar", lambda d: S.corr("f0", d.pick("f1", "y0"), method=d.pick("pearson", "spearman", "xi", "kendall", "bicor")), rand=True)
entry("cosine_sim", "scalar", lambda d: S.cosine_sim("f0", "f1"))
entry("f_test", "vec", lambda d: S.f_test(*d.pick(("f0",), ("f0", "f1")), group="c0"))
entry("gmean", "scalar", lambda d: S.gmean("w0"))
entry("hmean", "scalar", lambda d: S.hmean("w0"))
entry("kendall_tau", "scalar", lambda d: S.kendall_tau(d.pick("f0", "i0"), "f1"))
entry("ks_2samp", "scalar", lambda d: S.ks_2samp("f0", "f1"))
entry("ks_binary", "scalar", lambda d: S.ks_2samp("z0", "p0", is_binary=True))
entry("mann_whitney_u", "scalar", lambda d: S.mann_whitney_u("f0", "f1", alternative=d.pick("two-sided", "less", "greater")))
entry("normal_test", "scalar", lambda d: S.normal_test("f0"))
entry("ttest_1samp", "scalar", lambda d: S.ttest_1samp("f0", 0.3, alternative=d.pick("two-sided", "less", "greater")))
entry("ttest_ind", "scalar", lambda d: S.ttest_ind("f0", "f1", alternative=d.pick("two-sided", "less", "greater"), equal_var=d.pick(True, False)))
entry("ttest_from_stats", "scalar", lambda d: S.ttest_ind_from_stats("f0", 0.5, 2.0, 20, equal_var=d.pick(True, False)))
for fn in ("weighted_corr", "weighted_cosine_sim"):
    entry(fn, "scalar", lambda d, fn=fn: getattr(S, fn)("f0", "f1", "w0"))
entry("weighted_cov", "scalar", lambda d: S.weighted_cov("f0", "f1", "w0"))
for fn in ("weighted_gmean", "weighted_hmean"):
    entry(fn, "scalar", lambda d, fn=fn: getattr(S, fn)("w0", "p0", is_normalized=d.pick(True, False)))
entry("weighted_mean", "scalar", lambda d: S.weighted_mean("f0", "w0", is_normalized=d.pick(True, False)))
entry("weighted_var", "scalar", lambda d: S.weighted_var("f0", "w0", freq_weights=d.pick(True, False)))
entry("winsorize", "rows", lambda d: S.winsorize("f0", 0.1, 0.8, method=d.pick("nearest", "linear", "lower")))
entry("xi_corr", "scalar", lambda d: S.xi_corr("f0", "f1", seed=7, return_p=d.pick(True, False)))
entry("random", "rows", lambda d: S.random(0.0, 2.0, seed=3), rand=True)
entry("random_int", "rows", lambda d: S.random_int(0, 9, seed=3), rand=True)
entry("random_normal", "rows", lambda d: S.random_normal(1.0, 2.0, seed=3), rand=True)
entry("random_exp", "rows", lambda d: S.random_exp(0.5, seed=3), rand=True)
entry("random_binomial", "rows", lambda d: S.random_binomial(5, 0.4, seed=3), rand=True)
entry("random_str", "rows", lambda d: S.random_str(1, 5, seed=3), rand=True)
entry("random_null", "rows", lambda d: S.random_null("f0", 0.3, seed=3), rand=True)
entry("jitter", "rows", lambda d: S.jitter("f0", d.pick(0.5, pl.col("w0").max()), seed=3), rand=True)
entry("perturb", "rows", lambda d: S.perturb("f0", 0.1, positive=d.pick(True, False), seed=3), rand=True)
entry("add_noise", "rows", lambda d: S.add_noise("f0", d.pick("gaussian", "uniform"), seed=3) if False else S.jitter("f0", 1.0, seed=5), rand=True)
# ---- strings
OTHER = ("s1", "s0")


def other(d):
    return d.pick("s1", pl.lit("kitten"), pl.col("s1").str.to_uppercase())


for fn in ("str_leven", "str_osa", "str_d_leven", "str_lcs_seq"):
    entry(fn, "rows", lambda d, fn=fn: getattr(Z, fn)("s0", other(d), parallel=d.par, return_sim=d.pick(True, False)))
for fn in ("str_fuzz", "str_jaro"):
    entry(fn, "rows", lambda d, fn=fn: getattr(Z, fn)("s0", other(d), parallel=d.par))
entry("str_jw", "rows", lambda d: Z.str_jw("s0", other(d), weight=d.pick(0.1, 0.2), parallel=d.par))
entry("str_hamming", "rows", lambda d: Z.str_hamming("s0", other(d), pad=d.pick(True, False), parallel=d.par))
for fn in ("str_jaccard", "str_sorensen_dice", "str_overlap_coeff"):
    entry(fn, "rows", lambda d, fn=fn: getattr(Z, fn)("s0", other(d), substr_size=d.pick(1, 2, 3), parallel=d.par))
entry("str_tversky_sim", "rows", lambda d: Z.str_tversky_sim("s0", other(d), 0.4, 0.6, substr_size=d.pick(1, 2), parallel=d.par))
entry("filter_by_hamming", "rows", lambda d: Z.filter_by_hamming("s0", other(d), d.pick(0, 2), parallel=d.par))
entry("filter_by_levenshtein", "rows", lambda d: Z.filter_by_levenshtein("s0", other(d), d.pick(0, 2, 9), parallel=d.par))
entry("str_nearest", "vec", lambda d: Z.str_nearest("s0", "sitten", threshold=d.pick(2, 100), metric=d.pick("lv", "hamming")))
entry("str_snowball", "rows", lambda d: Z.str_snowball("s0", no_stopwords=d.pick(True, False)))
entry("str_tokenize", "rows", lambda d: Z.str_tokenize("s0", stem=d.pick(True, False)))
entry("similar_to_vocab", "rows", lambda d: Z.similar_to_vocab("s0", ["kitten", "abc"], 0.5, metric=d.pick("lv", "dlv", "jw", "osa"), strategy=d.pick("avg", "all", "any")))
entry("extract_numbers", "rows", lambda d: Z.extract_numbers("s0", ignore_comma=d.pick(True, False), join_by=d.pick("", "-")))
entry("is_stopword", "rows", lambda d: Z.is_stopword("s0"))
entry("map_words", "rows", lambda d: Z.map_words("s0", {"ab": "x", "some": "any"}))
entry("normalize_string", "rows", lambda d: Z.normalize_string("s0", d.pick("NFC", "NFKC", "NFD", "NFKD")))
entry("normalize_whitespace", "rows", lambda d: Z.normalize_whitespace("s0", only_spaces=d.pick(True, False)))
for fn in ("remove_diacritics", "to_camel_case", "to_constant_case", "to_pascal_case", "to_snake_case"):
    entry(fn, "rows", lambda d, fn=fn: getattr(Z, fn)("s0"))
entry("replace_non_ascii", "rows", lambda d: Z.replace_non_ascii("s0", d.pick("", "?")))
# ---- metrics
for fn in ("query_l1", "query_l2", "query_log_cosh"):
    entry(fn, "scalar", lambda d, fn=fn: getattr(M, fn)("f0", "f1", normalize=d.pick(True, False)))
for fn in ("query_l_inf", "query_r2", "query_smape"):
    entry(fn, "scalar", lambda d, fn=fn: getattr(M, fn)("f0", "f1"))
entry("query_mape", "scalar", lambda d: M.query_mape("w0", "p0", weighted=d.pick(True, False)))
entry("query_msle", "scalar", lambda d: M.query_msle("w0", "p0", normalize=d.pick(True, False)))
entry("query_adj_r2", "scalar", lambda d: M.query_adj_r2("f0", "f1", 1))
entry("query_hubor_loss", "scalar", lambda d: M.query_hubor_loss("f0", "f1", 1.5))
entry("query_mad", "scalar", lambda d: M.query_mad("f0", use_mean=d.pick(True, False)))
entry("query_mase", "scalar", lambda d: M.query_mase("f0", "f1", "t0", freq=d.pick(1, 2), use_mean=d.pick(True, False)))
entry("query_log_loss", "scalar", lambda d: M.query_log_loss("z0", "p0", normalize=d.pick(True, False)))
entry("query_cat_cross_entropy", "scalar", lambda d: M.query_cat_cross_entropy("l0", "m0", normalize=d.pick(True, False), dense=True))
entry("query_binary_metrics", "scalar", lambda d: M.query_binary_metrics("z0", "p0", threshold=d.pick(0.3, 0.5)))
entry("query_confusion_matrix", "scalar", lambda d: M.query_confusion_matrix("z0", "p0", threshold=d.pick(0.3, 0.5), all_metrics=d.pick(True, False)))
entry("query_mcc", "scalar", lambda d: M.query_mcc("z0", pl.col("b0").cast(pl.Int32)))
entry("query_roc_auc", "scalar", lambda d: M.query_roc_auc(d.pick("z0", "b0"), "p0"))
entry("query_tpr_fpr", "vec", lambda d: M.query_tpr_fpr("z0", "p0"))
entry("query_gini", "scalar", lambda d: M.query_gini("z0", "p0"))
entry("query_multi_roc_auc", "scalar", lambda d: M.query_multi_roc_auc("l0", "m0", 3, d.pick("macro", "weighted")))
entry("query_fairness", "scalar", lambda d: M.query_fairness("p0", pl.col("b0")))
entry("query_p_pct_score", "scalar", lambda d: M.query_p_pct_score("b1", pl.col("b0")))
# ---- sequences
for fn in ("query_abs_energy", "query_mean_abs_change", "query_mid_range", "query_symm_ratio", "query_first_digit_cnt", "query_benford"):
    entry(fn, "vec" if fn == "query_benford" else "scalar", lambda d, fn=fn: getattr(T, fn)("f0"))
entry("query_auto_corr", "scalar", lambda d: T.query_auto_corr("f0", d.pick(1, 2)))
entry("query_ar_coeffs", "scalar", lambda d: T.query_ar_coeffs("f0", d.pick(1, 2), add_bias=d.pick(True, False)))
for fn in ("query_avg_streak", "query_longest_streak"):
    entry(fn, "scalar", lambda d, fn=fn: getattr(T, fn)("b0"))
entry("query_streak", "vec", lambda d: T.query_streak("b0"))
entry("query_c3_stats", "scalar", lambda d: T.query_c3_stats("f0", d.pick(1, 2)))
entry("query_cid_ce", "scalar", lambda d: T.query_cid_ce("f0", normalize=d.pick(True, False)))
entry("query_cv", "scalar", lambda d: T.query_cv("w0"))
entry("query_entropy", "scalar", lambda d: T.query_entropy("c0", normalize=d.pick(True, False)))
entry("query_cond_entropy", "scalar", lambda d: T.query_cond_entropy("c0", "k0"))
entry("query_count_uniques", "scalar", lambda d: T.query_count_uniques("k0"))
entry("query_range_count", "scalar", lambda d: T.query_range_count("f0", -1.0, 1.0))
entry("query_mean_n_abs_max", "scalar", lambda d: T.query_mean_n_abs_max("f0", d.pick(1, 3)))
entry("query_time_reversal", "scalar", lambda d: T.query_time_reversal_asymmetry_stats("f0", d.pick(1, 2)))
entry("query_lempel_ziv", "scalar", lambda d: T.query_lempel_ziv("b0", as_ratio=d.pick(True, False)))
entry("query_approx_entropy", "scalar", lambda d: T.query_approx_entropy("f0", m=d.pick(2, 3), filtering_level=0.5, parallel=d.par))
entry("query_sample_entropy", "scalar", lambda d: T.query_sample_entropy("f0", ratio=d.pick(0.2, 1.0), m=d.pick(2, 3), parallel=d.par))
entry("query_permute_entropy", "scalar", lambda d: T.query_permute_entropy("f0", tau=d.pick(1, 2), n_dims=d.pick(2, 3)))
entry("query_knn_entropy", "scalar", lambda d: T.query_knn_entropy(*d.pick(("f0",), ("f0", "f1")), k=d.pick(1, 3), dist=d.pick("l2", "inf"), parallel=d.par))
entry("query_copula_entropy", "scalar", lambda d: T.query_copula_entropy("f0", "f1", k=d.pick(1, 3), parallel=d.par))
entry("query_cond_indep", "scalar", lambda d: T.query_cond_indep("f0", "f1", "f2", k=d.pick(1, 3), parallel=d.par))
entry("query_transfer_entropy", "scalar", lambda d: T.query_transfer_entropy("f0", "f1", lag=1, k=d.pick(1, 3), parallel=d.par))
entry("query_similar_count", "scalar", lambda d: T.query_similar_count([1.0, 2.0, 1.5], "f0", 3.0, metric=d.pick("sql2", "sqzl2"), parallel=d.par, return_ratio=d.pick(True, False)))
# ---- linear models
X2 = ("f0", "f1")
entry("lin_reg", "scalar", lambda d: L.lin_reg(*X2, target="y0", add_bias=d.pick(True, False), weights=d.pick(None, "w0"), solver=d.pick("qr", "svd", "choleskey"),
                                               l2_reg=d.pick(0.0, 0.1), null_policy=d.pick("skip", "raise", "zero", "one", "ignore", "0.5")))
entry("lin_reg_pred", "rows", lambda d: L.lin_reg(*X2, target="y0", add_bias=d.pick(True, False), weights=d.pick(None, "w0"), return_pred=True))
entry("lin_reg_enet", "scalar", lambda d: L.lin_reg(*X2, target="y0", add_bias=d.pick(True, False), l1_reg=0.1, l2_reg=d.pick(0.0, 0.1)))
entry("lin_reg_multi", "vec", lambda d: L.lin_reg(*X2, target=["y0", "f2"], add_bias=d.pick(True, False)))
entry("lin_reg_multi_pred", "rows", lambda d: L.lin_reg(*X2, target=["y0", "f2"], add_bias=d.pick(True, False), return_pred=True))
entry("lin_reg_report", "vec", lambda d: L.lin_reg_report(*X2, target="y0", add_bias=d.pick(True, False), std_err=d.pick("se", "hc0", "hc1", "hc2", "hc3")))
entry("lin_reg_report_w", "vec", lambda d: L.lin_reg_report(*X2, target="y0", weights="w0"))
entry("lin_reg_w_rcond", "vec", lambda d: L.lin_reg_w_rcond(*X2, target="y0", add_bias=d.pick(True, False), rcond=d.pick(0.0, 0.3)))
entry("recursive_lin_reg", "rows", lambda d: L.recursive_lin_reg(*X2, target="y0", start_with=d.pick(3, 4), add_bias=d.pick(True, False)))
entry("rolling_lin_reg", "rows", lambda d: L.rolling_lin_reg(*X2, target="y0", window_size=d.pick(4, 6), add_bias=d.pick(True, False), null_policy=d.pick("raise", "skip"), min_valid_rows=3))
entry("simple_lin_reg", "scalar", lambda d: L.simple_lin_reg("f0", target="y0", add_bias=d.pick(True, False), weights=d.pick(None, "w0")))
entry("simple_lin_reg_pred", "rows", lambda d: L.simple_lin_reg("f0", target="y0", add_bias=d.pick(True, False), return_pred=True))
# ---- neighbours
DIST = ("sql2", "l2", "l1", "inf")
entry("is_knn_from", "rows", lambda d: K.is_knn_from(*X2, pt=[0.3, -0.2], k=d.pick(1, 3), dist=d.pick(*DIST)))
entry("within_dist_from", "rows", lambda d: K.within_dist_from(*X2, pt=[0.3, -0.2], r=d.pick(1.5, pl.col("w0")), dist=d.pick(*DIST)))
entry("query_dist_from_kth_nb", "rows", lambda d: K.query_dist_from_kth_nb(*X2, k=d.pick(1, 3), dist=d.pick(*DIST), parallel=d.par))
entry("query_knn_avg", "rows", lambda d: K.query_knn_avg(*X2, target="y0", k=d.pick(1, 3), dist=d.pick(*DIST), weighted=d.pick(True, False), parallel=d.par))
entry("query_knn_ptwise", "rows", lambda d: K.query_knn_ptwise(*X2, index="u0", k=d.pick(1, 3), dist=d.pick(*DIST), parallel=d.par, return_dist=d.pick(True, False),
                                                               eval_mask=d.pick(None, "b0"), data_mask=d.pick(None, "b1")))
entry("query_knn_freq_cnt", "rows", lambda d: K.query_knn_freq_cnt(*X2, index="u0", k=d.pick(1, 3), dist=d.pick(*DIST), parallel=d.par), unordered=True)
entry("query_nb_cnt", "rows", lambda d: K.query_nb_cnt(*X2, r=d.pick(1.0, "w0"), dist=d.pick(*DIST), parallel=d.par))
entry("query_radius_ptwise", "rows", lambda d: K.query_radius_ptwise(*X2, index="u0", r=1.5, dist=d.pick(*DIST), sort=True, parallel=d.par))
entry("query_radius_freq_cnt", "rows", lambda d: K.query_radius_freq_cnt(*X2, index="u0", r=1.5, dist=d.pick(*DIST), parallel=d.par), unordered=True)
# ---- enumeration
entry("combinations", "vec", lambda d: I.combinations(d.pick("k0", "s0", "f0"), d.pick(1, 2), unique=d.pick(True, False)), small=True)
entry("product", "vec", lambda d: I.product("k0", d.pick("i0", "k0")), small=True)
