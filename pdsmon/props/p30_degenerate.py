"""P30: degenerate data and options get an answer of the promised shape or a plain error: no panic, no crash, no hang."""
import math, subprocess, sys, warnings
import numpy as np
import polars as pl
import polars.selectors as cs
from polars_ds.eda.diagnosis import DIA
from polars_ds.linear_models import LR, ElasticNet, OnlineLR
from polars_ds.modeling.pipeline import Blueprint
from polars_ds.partition import PartitionHelper
from polars_ds.sample_and_split import sample, volume_neutral, downsample, random_cols, split_by_ratio
from polars_ds.spatial import KDTree
from pdsmon import catalog as C
from pdsmon.catalog import N, S, Z, M, T, L, K, I
from pdsmon.core import case, Inconclusive

NAMES = sorted(C.ENTRIES)
# what a programming slip raises, as opposed to a refusal
SLIPS = (AttributeError, NameError, ZeroDivisionError, IndexError, KeyError, AssertionError, RecursionError, MemoryError)
EDGE = [0.0, -0.0, 1.0, -1.0, math.nan, math.inf, -math.inf, 1e308, -1e308, 5e-324, 1e-300, 3.5]
KINDS = ["null", "plain", "const", "edge", "nan", "one-edge", "nulls"]
INT = {pl.Int64: (-2**63, 2**63 - 1), pl.Int32: (-2**31, 2**31 - 1), pl.UInt32: (0, 2**32 - 1)}
NUMERIC = (pl.Float64, pl.Float32, pl.Int64, pl.Int32, pl.UInt32)
WIDTHS = (pl.Float64, pl.Float32, pl.Int8, pl.Int16, pl.Int32, pl.Int64, pl.UInt8, pl.UInt16, pl.UInt32, pl.UInt64, pl.Boolean, pl.Null, pl.String)


STRANGE = dict(
    date=lambda c: c.cast(pl.Int32, strict=False).cast(pl.Date), datetime=lambda c: c.cast(pl.Int64, strict=False).cast(pl.Datetime("us")), time=lambda c: (c.cast(pl.Int64, strict=False).abs() % 86_400_000).cast(pl.Time),
    duration=lambda c: c.cast(pl.Int64, strict=False).cast(pl.Duration("ms")), binary=lambda c: c.cast(pl.String).cast(pl.Binary), struct=lambda c: pl.struct(c.alias("a"), b=1), list=lambda c: pl.concat_list(c, c),
    nested=lambda c: pl.concat_list(pl.concat_list(c)), strings=lambda c: pl.concat_list(c.cast(pl.String)))


def survive(m, sig, fn, strange=False):
    """(answer, None) or (None, a plain error); anything else is a violation. Columns of strange types make
    Polars itself panic in many places: with these, only panics in the plugin (and crashes) are judged."""
    m.calls += 1
    m.label = sig
    m.observed += 1
    try:
        return fn(), None
    except SLIPS as e:
        if strange:
            return None, e
        m.fail(f"{sig}:slip", f"{type(e).__name__}: {str(e)[:300]}")
    except Exception as e:
        if "panicked" in str(e):
            m.fail(f"{sig}:panic", f"{type(e).__name__}: {str(e)[:300]}")
        return None, e
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        if strange:
            return None, e
        m.fail(f"{sig}:panic", f"{type(e).__name__}: {str(e)[:300]}")


def column(rng, name, n, kind):
    t, base = C.SCHEMA[name], C.column(rng, name, n)
    pick = lambda l: l[int(rng.integers(len(l)))]
    if kind == "null":
        return [None] * n
    if kind == "plain":
        return base
    if kind == "const":
        return base[:1] * n
    if kind == "nulls":
        return [None if rng.random() < 0.5 else b for b in base]
    if isinstance(t, pl.List):
        return [pick([[], None, [None], [None, 1], [1, 1], [0, 2]]) for _ in range(n)]
    if t in (pl.Float64, pl.Float32):
        if kind == "nan":
            return [math.nan] * n
        if kind == "edge":
            return [pick(EDGE) for _ in range(n)]
        base = list(base)
        if n:
            base[int(rng.integers(n))] = pick(EDGE)
        return base
    if t in INT:
        return [pick([*INT[t], 0, 1]) for _ in range(n)]
    if t == pl.String:
        return [pick(["", "\0", "\u0301", "a" * 300, "🙂", " ", "ab", "1e5", "-"]) for _ in range(n)]
    return [None if rng.random() < 0.3 else b for b in base]


def hostile(m, n, widths=0.0, strange=False):
    main = m.pick(*KINDS)
    cols = {c: column(m.rng, c, n, main if m.chance(0.6) else m.pick(*KINDS)) for c in C.SCHEMA}
    df = C.to_df(cols)
    ch = {}
    if widths:
        for c, t in C.SCHEMA.items():
            if strange and m.chance(0.3) and not isinstance(t, pl.List):
                ch[c] = m.pick(*STRANGE)
            elif t in NUMERIC and m.chance(widths):
                ch[c] = m.pick(*WIDTHS)
        df = df.with_columns((STRANGE[t](pl.col(c)) if isinstance(t, str) else pl.col(c).cast(t, strict=False)).alias(c) for c, t in ch.items())
    m.note(main=main, rows=n, f0=cols["f0"], f1=cols["f1"], s0=cols["s0"], k0=cols["k0"], types=str(ch))
    return df, main


# one row per distinct neighbour list, not per input row
FREE = ("query_knn_freq_cnt", "query_radius_freq_cnt")


def shape(m, name, e, x, df, got, ctx):
    n = df.height
    if ctx == "select" and e["shape"] == "rows" and name not in FREE:
        m.ok(got.height == n, f"{name}:length", f"{got.height} rows for {n}")
    if ctx == "select" and e["shape"] == "scalar":
        m.ok(got.height == 1, f"{name}:length", f"{got.height} rows for a scalar")


@case("P30", quick=3 * len(NAMES), thorough=60 * len(NAMES))
def expressions(m):
    """Every expression on frames of no row, one row, nulls only, NaN, infinities, extremes, constants."""
    name = NAMES[m.i % len(NAMES)]
    n = int(m.pick(0, 1, 2, 3, 6, 12))
    df, main = hostile(m, n)
    run(m, name, df, main)


@case("P30", quick=2 * len(NAMES), thorough=40 * len(NAMES))
def types(m):
    """Every expression on columns of other types than those it is made for."""
    name = NAMES[m.i % len(NAMES)]
    # Polars itself panics or crashes on arithmetic over strange types: only plugins get those (target_encode aggregates inside)
    strange = name != "target_encode" and m.chance(0.4) and "polars_ds" in str(C.make(name, 1))
    df, main = hostile(m, int(m.pick(0, 1, 3, 6)), widths=m.pick(0.3, 1.0), strange=strange)
    run(m, name, df, main, strange=strange)


# Polars' qcut and cut panic in a group without values next to a group with values
CUTS = ("psi", "psi_report", "woe", "info_value")


def run(m, name, df, main, strange=False):
    e = C.ENTRIES[name]
    seed = int(m.rng.integers(1 << 30))
    ctx = m.pick("select", "select", "group", "over")
    if ctx != "select" and name in CUTS:
        ctx = "select"
    m.note(entry=name, seed=seed, ctx=ctx)
    m.seen(name, main)
    made, err = survive(m, name, lambda: C.make(name, seed).alias("o"))
    if err is not None:
        raise Inconclusive("not built")
    if ctx == "select":
        f = lambda: df.select(made)
    elif ctx == "over":
        f = lambda: df.select(made.over(pl.lit(1)))
    else:
        g = df.with_columns(gg=pl.Series([int(x) for x in m.rng.integers(0, 3, df.height)], dtype=pl.Int64))
        f = lambda: g.group_by("gg").agg(made)
    got, err = survive(m, name, f, strange)
    if err is None:
        m.seen("answered", ctx)
        shape(m, name, e, made, df, got, ctx)
    else:
        m.seen("refused", ctx)


HI, HF = (0, 1, -1, 2, 1000), (0.0, -1.0, math.nan, math.inf, -math.inf, 1e308, 5e-324)
OPTIONS = {}


def options(vals, **fs):
    for k, f in fs.items():
        OPTIONS[k] = (f, vals)


options(HI, knn=lambda v: K.query_knn_ptwise("f0", "f1", index="u0", k=v), knn_avg=lambda v: K.query_knn_avg("f0", target="y0", k=v),
        is_knn=lambda v: K.is_knn_from("f0", "f1", pt=[0., 0.], k=v), kth=lambda v: K.query_dist_from_kth_nb("f0", k=v),
        knn_freq=lambda v: K.query_knn_freq_cnt("f0", index="u0", k=v), comb=lambda v: I.combinations("k0", v), psi=lambda v: N.psi("f0", "f1", n_bins=v),
        woe=lambda v: N.woe("f0", "z0", n_bins=abs(v)), iv=lambda v: N.info_value("f0", "z0", n_bins=abs(v)), pc=lambda v: N.principal_components("f0", "f1", k=v),
        rfft=lambda v: N.rfft("f0", n=v), gcd=lambda v: N.gcd("i0", v), lcm=lambda v: N.lcm("i0", v), auto_corr=lambda v: T.query_auto_corr("f0", v),
        c3=lambda v: T.query_c3_stats("f0", v), reversal=lambda v: T.query_time_reversal_asymmetry_stats("f0", v), n_abs_max=lambda v: T.query_mean_n_abs_max("f0", v),
        permute_tau=lambda v: T.query_permute_entropy("f0", tau=v, n_dims=3), knn_entropy=lambda v: T.query_knn_entropy("f0", k=v),
        copula=lambda v: T.query_copula_entropy("f0", "f1", k=v), cond_indep=lambda v: T.query_cond_indep("f0", "f1", "f2", k=v),
        transfer_lag=lambda v: T.query_transfer_entropy("f0", "f1", lag=v), transfer_k=lambda v: T.query_transfer_entropy("f0", "f1", lag=1, k=v),
        rolling=lambda v: L.rolling_lin_reg("f0", target="y0", window_size=v), recursive=lambda v: L.recursive_lin_reg("f0", target="y0", start_with=v),
        rolling_min=lambda v: L.rolling_lin_reg("f0", target="y0", window_size=4, min_valid_rows=v, null_policy="skip"),
        str_jaccard=lambda v: Z.str_jaccard("s0", "s1", substr_size=v), sorensen=lambda v: Z.str_sorensen_dice("s0", "s1", substr_size=v),
        overlap=lambda v: Z.str_overlap_coeff("s0", "s1", substr_size=v), tversky=lambda v: Z.str_tversky_sim("s0", "s1", .5, .5, substr_size=v),
        hamming=lambda v: Z.filter_by_hamming("s0", "s1", v), leven=lambda v: Z.filter_by_levenshtein("s0", "s1", v),
        nearest=lambda v: Z.str_nearest("s0", "sitten", threshold=v, metric="lv"), adj_r2=lambda v: M.query_adj_r2("f0", "f1", v),
        mase=lambda v: M.query_mase("f0", "f1", "t0", freq=v), target_encode=lambda v: N.target_encode("c0", "z0", min_samples_leaf=v),
        random_int=lambda v: S.random_int(0, v, seed=1), binomial_n=lambda v: S.random_binomial(v, .5, seed=1), random_str=lambda v: S.random_str(0, v, seed=1),
        random_str_min=lambda v: S.random_str(v, 2, seed=1))
options((0, 1, -1, 2, 40), ar=lambda v: T.query_ar_coeffs("f0", v), approx_m=lambda v: T.query_approx_entropy("f0", m=v, filtering_level=.5),
        sample_m=lambda v: T.query_sample_entropy("f0", m=v), permute_dims=lambda v: T.query_permute_entropy("f0", tau=1, n_dims=v), multi_auc=lambda v: M.query_multi_roc_auc("l0", "m0", v))
options(HF, within_pt=lambda v: K.within_dist_from("f0", "f1", pt=[0., v], r=1.), radius=lambda v: K.query_radius_ptwise("f0", "f1", index="u0", r=v),
        nb_cnt=lambda v: K.query_nb_cnt("f0", "f1", r=v), radius_freq=lambda v: K.query_radius_freq_cnt("f0", index="u0", r=v),
        bound=lambda v: K.query_knn_ptwise("f0", "f1", index="u0", k=2, max_bound=v), epsilon=lambda v: K.query_knn_ptwise("f0", "f1", index="u0", k=2, epsilon=v),
        l2=lambda v: L.lin_reg("f0", target="y0", l2_reg=v), l1=lambda v: L.lin_reg("f0", target="y0", l1_reg=v), tol=lambda v: L.lin_reg("f0", "f1", target="y0", l1_reg=.1, tol=v),
        rcond=lambda v: L.lin_reg_w_rcond("f0", target="y0", rcond=v), lam=lambda v: L.recursive_lin_reg("f0", target="y0", start_with=3, l2_reg=v),
        wins_lo=lambda v: S.winsorize("f0", v, .9), wins_hi=lambda v: S.winsorize("f0", .1, v), ttest_mean=lambda v: S.ttest_1samp("f0", v),
        ttest_stats=lambda v: S.ttest_ind_from_stats("f0", v, v, 5), ttest_welch=lambda v: S.ttest_ind_from_stats("f0", 0., v, 5, equal_var=False),
        random=lambda v: S.random(0., v, seed=1), normal=lambda v: S.random_normal(v, v, seed=1), exp=lambda v: S.random_exp(v, seed=1),
        binomial_p=lambda v: S.random_binomial(3, v, seed=1), random_null=lambda v: S.random_null("f0", v, seed=1), jitter=lambda v: S.jitter("f0", v, seed=1),
        perturb=lambda v: S.perturb("f0", v, seed=1), perturb32=lambda v: S.perturb("h0", v, seed=1), hubor=lambda v: M.query_hubor_loss("f0", "f1", v),
        threshold=lambda v: M.query_binary_metrics("z0", "p0", threshold=v), confusion=lambda v: M.query_confusion_matrix("z0", "p0", threshold=v),
        range_count=lambda v: T.query_range_count("f0", v, 1.), level=lambda v: T.query_approx_entropy("f0", m=2, filtering_level=v), ratio=lambda v: T.query_sample_entropy("f0", ratio=v),
        similar_q=lambda v: T.query_similar_count([1., v], "f0", 1.), similar_t=lambda v: T.query_similar_count([1., 2.], "f0", v, metric="sqzl2"),
        kernel=lambda v: N.convolve("f0", [1., v], method="fft"), breakpoint=lambda v: N.psi_w_breakpoints("f0", "f1", [v, 1.]),
        smoothing=lambda v: N.target_encode("c0", "z0", smoothing=v), jw=lambda v: Z.str_jw("s0", "s1", weight=v), tversky_w=lambda v: Z.str_tversky_sim("s0", "s1", v, v),
        vocab_t=lambda v: Z.similar_to_vocab("s0", ["a"], v), trapz_dx=lambda v: N.integrate_trapz("f0", v))
options(([], [1.0] * 100, [math.nan]), kernel_len=lambda v: N.convolve("f0", v), kernel_fft=lambda v: N.convolve("f0", v, method="fft", mode="same"))
options(([], [1.], [1., 1.], [None, 1.], [1.0] * 50), similar_z=lambda v: T.query_similar_count(v, "f0", 1., metric="sqzl2"), similar=lambda v: T.query_similar_count(v, "f0", 1.))
options(([], [1., 1.], [2., 1.], [None]), breakpoints=lambda v: N.psi_w_breakpoints("f0", "f1", v))
options(([], [""], [None], ["a"] * 50), vocab=lambda v: Z.similar_to_vocab("s0", v, .5))
options(({}, {"": "x"}, {"a": ""}), map_words=lambda v: Z.map_words("s0", v))
options(("", " ", "é"), nearest_to=lambda v: Z.str_nearest("s0", v), other=lambda v: Z.str_leven("s0", pl.lit(v)), jaro=lambda v: Z.str_jaro("s0", pl.lit(v)), hamming_to=lambda v: Z.str_hamming("s0", pl.lit(v), pad=True))
options(([], [1.], [1., 2., 3.]), knn_point=lambda v: K.is_knn_from("f0", "f1", pt=v, k=1), dist_point=lambda v: K.within_dist_from("f0", "f1", pt=v, r=1.))
options((None,), no_pc=lambda v: N.principal_components(), no_pca=lambda v: N.pca(), no_reg=lambda v: L.lin_reg(target="y0"), no_knn=lambda v: K.query_knn_ptwise(index="u0", k=1),
        no_entropy=lambda v: T.query_knn_entropy(), no_copula=lambda v: T.query_copula_entropy(), no_f=lambda v: S.f_test(group="c0"), no_product=lambda v: I.product(),
        no_norm=lambda v: N.l1_horizontal(), no_report=lambda v: L.lin_reg_report(target="y0"), no_target=lambda v: L.lin_reg("f0", target=[]),
        null_other=lambda v: Z.str_leven("s0", pl.lit(None, dtype=pl.String)), null_pt=lambda v: K.query_nb_cnt("f0", r=pl.lit(None, dtype=pl.Float64)),
        null_index=lambda v: K.query_knn_ptwise("f0", index=pl.lit(None, dtype=pl.UInt32), k=1), null_weight=lambda v: L.lin_reg("f0", target="y0", weights=pl.lit(None, dtype=pl.Float64)),
        null_std=lambda v: S.jitter("f0", pl.lit(None, dtype=pl.Float64)), null_gcd=lambda v: N.gcd("i0", pl.lit(None, dtype=pl.Int64)))
ONAMES = sorted(OPTIONS)


@case("P30", quick=4 * len(ONAMES), thorough=60 * len(ONAMES))
def option(m):
    """Every option at, below and above the ends of its range, on ordinary and hostile frames."""
    k = ONAMES[m.i % len(ONAMES)]
    f, vals = OPTIONS[k]
    v = m.pick(*vals) if len(vals) > 1 else vals[0]
    n = int(m.pick(0, 1, 6, 6, 20))
    df, main = hostile(m, n) if m.chance(0.3) else (C.to_df(C.plain(m.rng, n)), "plain")
    m.note(option=k, value=repr(v), rows=n, f0=df["f0"].to_list())
    m.seen(k, repr(v)[:20])
    sig = f"option-{k}"
    made, err = survive(m, sig, lambda: f(v).alias("o"))
    if err is None:
        survive(m, sig, lambda: df.select(made))


def matrix(m, n, d):
    r = m.rng
    X = r.normal(size=(n, d))
    kind = m.pick("plain", "nan", "edge", "const", "dup", "huge")
    if kind == "nan":
        X[r.random(X.shape) < 0.4] = np.nan
    elif kind == "edge":
        X = np.array([EDGE[int(i)] for i in r.integers(0, len(EDGE), n * d)], dtype=float).reshape(n, d)
    elif kind == "const":
        X[:] = 1.5
    elif kind == "dup" and n:
        X[:] = X[0]
    elif kind == "huge":
        X *= 1e300
    return X, kind


@case("P30", quick=400, thorough=8000)
def models(m):
    """Models and search trees on arrays without rows or columns, of the wrong shape, with NaN and extremes."""
    r = m.rng
    n, d = int(m.pick(0, 1, 2, 5, 9)), int(m.pick(0, 1, 2, 3))
    X, kind = matrix(m, n, d)
    y, ykind = matrix(m, n if m.chance(0.85) else n + 1, 1)
    X2, _ = matrix(m, int(m.pick(0, 1, 4)), d if m.chance(0.8) else d + 1)
    what = m.pick("LR", "EN", "Online", "tree", "tree", "tree")
    m.note(what=what, X=X, y=y, X2=X2)
    m.seen(what, kind, n, d)
    sig = f"model-{what}"
    y1 = m.pick(y, y[:, 0].copy())
    # X and y of different lengths are judged only where the rows are not filtered (NumPy's own IndexError otherwise)
    pol = m.pick("ignore", "raise") if len(X) != len(y) else m.pick("ignore", "raise", "skip", "zero", "one", "2.5", "x")
    if what == "LR":
        mod = LR(has_bias=m.chance(0.5), lambda_=m.pick(0.0, 0.1), solver=m.pick("qr", "svd", "choleskey"))
        survive(m, sig + "-before", lambda: mod.predict(X2))
        survive(m, sig, lambda: mod.fit(X, y1, null_policy=pol))
        survive(m, sig, lambda: (mod.predict(X2), mod.coeffs(), mod.bias(), repr(mod)))
    elif what == "EN":
        mod = ElasticNet(l1_reg=0.1, l2_reg=m.pick(0.0, 0.1), has_bias=m.chance(0.5), max_iter=50)
        survive(m, sig + "-before", lambda: mod.predict(X2))
        survive(m, sig, lambda: mod.fit(X, y1, null_policy=pol))
        survive(m, sig, lambda: (mod.predict(X2), mod.coeffs(), mod.bias(), repr(mod)))
    elif what == "Online":
        mod = OnlineLR(lambda_=m.pick(0.0, 0.1), has_bias=m.chance(0.5))
        survive(m, sig + "-before", lambda: mod.predict(X2))
        survive(m, sig, lambda: mod.fit(X, y))
        for _ in range(2):
            survive(m, sig, lambda: mod.update(r.normal(size=d if m.chance(0.8) else d + 1), 1.0, m.pick(1.0, -1.0, 0.0)))
        survive(m, sig, lambda: (mod.predict(X2), mod.coeffs(), mod.bias(), mod.inv(), repr(mod)))
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t, err = survive(m, sig, lambda: KDTree(X, distance=m.pick("l1", "l2", "sql2", "inf")))
        if err is not None:
            return
        k, rad = int(m.pick(0, 1, 3, 1000)), m.pick(0.0, -1.0, math.nan, math.inf, 1.0, np.array([1.0]), np.ones(len(X2)), np.ones(len(X2) + 1), np.array([]))
        par = m.chance(0.5)
        survive(m, sig + "-add", lambda: t.add(X2))
        Q, _ = matrix(m, int(m.pick(0, 1, 4)), d if m.chance(0.8) else d + 1)
        survive(m, sig + "-knn", lambda: t.knn(Q, k, parallel=par, max_dist_bound=m.pick(9999.0, 0.0, math.inf, math.nan)))
        survive(m, sig + "-within", lambda: t.within(Q, rad, sort=m.chance(0.5), return_dist=m.chance(0.5), parallel=par))
        survive(m, sig + "-count", lambda: (t.within_count(Q, rad, parallel=par), len(t), t.count()))


REPORTS = dict(
    special=lambda d: d.special_values_report(), profile=lambda d: d.numeric_profile(gt=False), profile_h=lambda d: d.numeric_profile(gt=False, histogram=True), strings=lambda d: d.str_stats(),
    prob=lambda d: d.infer_prob(), high_null=lambda d: d.infer_high_null(), discrete=lambda d: d.infer_discrete(), const=lambda d: d.infer_const(True), binary=lambda d: d.infer_binary(True),
    k3=lambda d: d.infer_k_distinct(3, True), null_corr=lambda d: d.null_corr(), corr=lambda d: d.corr(["f0"]), infer_corr=lambda d: d.infer_corr(), dependency=lambda d: d.infer_dependency(),
    meta=lambda d: d.meta(), rows=lambda d: d.row_validation((pl.col("f0") > 0, "x")), cols=lambda d: d.col_validation((pl.col("f0").max() > 0, "x")))


@case("P30", quick=300, thorough=5000)
def reports(m):
    """Reports, samples, splits and partitions of frames without rows, numbers, strings or nulls."""
    df, main = hostile(m, int(m.pick(0, 1, 2, 6)), widths=m.pick(0, 0.3))
    keep = m.pick(None, pl.Float64, pl.String, pl.Boolean, pl.List(pl.Int64), pl.Int64)
    if keep is not None:
        df = df.select("f0", cs.by_dtype(keep) - cs.by_name("f0")) if m.chance(0.6) else df.select(cs.by_dtype(keep))
    what = m.pick(*REPORTS, "sample", "sample", "split", "partition", "cols", "down", "neutral")
    m.note(what=what, columns=df.columns)
    m.seen(what, main, str(keep))
    sig = f"report-{what}"
    if what in REPORTS and what != "cols":
        survive(m, sig, lambda: REPORTS[what](DIA(df)))
        return
    if what == "sample":
        v = m.pick(0, 1, 3, 1000, 0.0, 0.5, 1.0, -1, -0.5, 1.5)
        got, err = survive(m, sig, lambda: sample(df, v, seed=m.pick(None, 1)))
        if err is None and isinstance(got, pl.LazyFrame):
            survive(m, sig, got.collect)
    elif what == "split":
        v = m.pick(0.5, 0.0, 1.0, 1.5, [0.5, 0.5], [0.2, 0.3], {"a": 0.5, "b": 0.5}, {}, [], {"a": 1.0})
        by = m.pick(None, "f0", ["f0"]) if "f0" in df.columns else None
        got, err = survive(m, sig, lambda: split_by_ratio(df, v, seed=1, by=by))
    elif what == "partition":
        by = list(df.columns[: int(m.pick(1, 2))])
        if not by:
            raise Inconclusive("no columns")
        survive(m, sig, lambda: (lambda p: (p.names(), p.head(), repr(p), p.get("nothing")))(PartitionHelper(df, by=by)))
    elif what == "cols":
        if not df.columns:
            raise Inconclusive("no columns")
        survive(m, sig, lambda: random_cols(df.columns, m.pick(0, 1, len(df.columns), len(df.columns) + 1, -1), keep=m.pick(None, df.columns[:1]), seed=1))
    elif "c0" in df.columns and "f0" in df.columns:
        if what == "down":
            survive(m, sig, lambda: downsample(df, [(pl.col("c0") == "a", m.pick(0, 1, 0.5, 1000))], seed=1))
        else:
            survive(m, sig, lambda: volume_neutral(df, pl.col("c0"), seed=1))


@case("P30", quick=200, thorough=4000)
def pipelines(m):
    """Pipelines fitted on degenerate frames."""
    n = int(m.pick(0, 1, 2, 6))
    df, main = hostile(m, n)
    df = df.select("f0", "f1", "n0", "i0", "b0", "s0", "c0", "z0", "y0")
    num = [c for c in ("f0", "f1", "n0")]
    STEPS = dict(
        impute=lambda b: b.impute(num, method=m.pick("mean", "median", "mode")), scale=lambda b: b.scale(num, method=m.pick("standard", "min_max", "abs_max")),
        robust=lambda b: b.robust_scale(num, 0.25, 0.75), center=lambda b: b.center(num), wins=lambda b: b.winsorize(num, 0.1, 0.9), linear=lambda b: b.linear_impute(features=["f0"], target="n0"),
        cond=lambda b: b.conditional_impute(rules_dict={"n0": "f0 > 0"}, method="mean"), nans=lambda b: b.nan_to_null(), casts=lambda b: b.cast_bools(), ints=lambda b: b.int_to_float(),
        poly=lambda b: b.polynomial_features(["f0", "f1"], degree=2), onehot=lambda b: b.one_hot_encode(["c0"], drop_first=m.chance(0.5)), rank=lambda b: b.rank_hot_encode("c0", ["a", "b"]),
        woe=lambda b: b.woe_encode(["c0"], target="z0"), iv=lambda b: b.iv_encode(["c0"], target="z0"),
        target=lambda b: b.target_encode(["c0"], target=m.pick("z0", "y0")), filt=lambda b: b.filter("f0 > 0"))
    steps = [m.pick(*STEPS) for _ in range(int(m.pick(1, 2, 3)))]
    m.note(steps=steps)
    m.seen(main, n, *steps[:1])
    sig = "pipeline-" + steps[0]

    def build():
        b = Blueprint(df, name="x", target=m.pick("z0", "y0"))
        for s in steps:
            b = STEPS[s](b)
        return b
    b, err = survive(m, sig, build)
    if err is not None:
        return
    p, err = survive(m, sig, b.materialize)
    if err is None:
        survive(m, sig, lambda: p.transform(df))
        survive(m, sig, lambda: p.transform(df.clear()))
        survive(m, sig, lambda: p.transform(df.lazy(), return_lazy=True).collect())


UNSUPPORTED = dict(
    Categorical=lambda c: c.cast(pl.String).cast(pl.Categorical), Enum=lambda c: c.rank("dense").cast(pl.String).cast(pl.Enum([str(i) for i in range(20)])),
    Decimal=lambda c: c.cast(pl.Int16, strict=False).cast(pl.Decimal(20, 3)), Int128=lambda c: c.cast(pl.Int32, strict=False).cast(pl.Int128))
KINDS_U = sorted(UNSUPPORTED)


def child(argv):
    """Run in a process of its own, as it may be aborted."""
    kind, name, seed = argv[0], argv[1], int(argv[2])
    df = C.to_df(C.plain(np.random.default_rng(seed), 6))
    df = df.with_columns(UNSUPPORTED[kind](pl.col(c)).alias(c) for c, t in C.SCHEMA.items() if not isinstance(t, pl.List))
    try:
        df.select(C.make(name, seed))
        print("answered")
    except BaseException as e:
        print("refused", type(e).__name__)


@case("P30", quick=8, thorough=80)
def unsupported(m):
    """Columns of types the plugin is compiled without: the process must survive."""
    kind = KINDS_U[m.i % 4]
    plugins = [n for n in NAMES if "polars_ds" in str(C.make(n, 1))]
    name = "filter_by_levenshtein" if m.i < 4 else plugins[int(m.rng.integers(len(plugins)))]
    seed = int(m.rng.integers(1 << 30))
    m.note(kind=kind, entry=name, seed=seed)
    code = "import sys; from pdsmon.props import p30_degenerate as P; P.child(sys.argv[1:])"
    p = subprocess.run([sys.executable, "-c", code, kind, name, str(seed)], capture_output=True, text=True, timeout=120)
    m.calls += 1
    m.seen(kind, name, p.stdout.strip()[:30])
    if p.returncode == -6 and "non-unwinding panic" in p.stderr:
        m.fail(f"unsupported-{kind}:abort", f"{name} on {kind} columns: {p.stderr[-200:]}")
    elif p.returncode:
        m.fail(f"unsupported-{kind}:exit{p.returncode}", f"{name} on {kind} columns: {p.stderr[-200:]}")
    else:
        m.ok(p.stdout.startswith(("answered", "refused")), "unsupported:output", p.stdout[:200])
