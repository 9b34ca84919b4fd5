"""P29: data reports and plots show what is in the data."""
import itertools, math
import altair as alt
import numpy as np
import polars as pl
import scipy.stats as st
from polars_ds.eda.diagnosis import DIA
from polars_ds.eda.plots import plot_feature_distr, plot_lin_reg, plot_pca, plot_prob_calibration, plot_roc_auc
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame


def nn(v):
    return [x for x in v if x is not None]


def table(m, n=None):
    r = m.rng
    n = n or int(m.pick(2, 5, 12, 40))
    def nulls(v, p):
        return [None if r.random() < p else x for x in v]
    p = m.pick(0.0, 0.2, 0.9)
    cols = {
        "a": pl.Series(nulls([int(x) for x in (r.integers(-128, 128, n) if m.chance(0.3) else r.integers(-3, m.pick(-2, 2, 50), n))], p), dtype=m.pick(pl.Int64, pl.Int32, pl.Int8)),
        "u": pl.Series(nulls([int(x) for x in r.integers(0, 3, n)], 0.1), dtype=pl.UInt16),
        "f": pl.Series(nulls([float(x) for x in r.choice([0.0, 1.5, -2.0, math.nan, math.inf, -math.inf, 3.0], n)], p), dtype=pl.Float64),
        "g": pl.Series(nulls([float(x) for x in r.normal(0, 3, n)], p), dtype=m.pick(pl.Float64, pl.Float32)),
        "p": pl.Series(nulls([m.pick(0.0, 1.0) if m.chance(0.1) else float(x) for x in r.uniform(0, m.pick(1, 1, 1.2), n)], m.pick(0, 0.2)), dtype=pl.Float64),
        "b": pl.Series(nulls([bool(x) for x in r.integers(0, 2, n)], p), dtype=pl.Boolean),
        "s": pl.Series(nulls([["", "x", "yy", "ß", "日本"][int(x)] for x in r.integers(0, m.pick(1, 2, 5), n)], p), dtype=pl.String),
        "t": pl.Series([f"k{int(x)}" for x in r.integers(0, 3, n)], dtype=pl.String),
        "k": pl.Series([1] * n, dtype=pl.Int64),
        "z": pl.Series([None] * n, dtype=pl.Float64),
    }
    good = m.pick("all", "last-bad", "lengths", "negative", "first-bad")
    probs = [[float(x) for x in r.dirichlet(np.ones(3))] for _ in range(n)]
    if good == "last-bad":
        probs[-1] = [0.5, 0.4, 0.6]
    elif good == "first-bad":
        probs[0] = [0.5, 0.4, 0.6]
    elif good == "lengths":
        probs[int(r.integers(n))] = [0.25] * 4
    elif good == "negative":
        probs[int(r.integers(n))] = [1.5, -0.25, -0.25]
    cols["q"] = pl.Series(probs, dtype=pl.List(pl.Float64))
    cols["c"] = cols["t"].cast(pl.Categorical)
    df = pl.DataFrame({k: v.alias(k) for k, v in cols.items()})
    keep = [c for c in df.columns if m.chance(0.85) or c in "agsb"]
    df = df.select([keep[i] for i in r.permutation(len(keep))])
    if "c" not in df.columns and m.chance(0.5):
        df = frame(r, {c: df[c] for c in df.columns})
    lazy = m.chance(0.4)
    m.note(df=df, lazy=lazy)
    m.seen(good, p, lazy, n)
    return df, DIA(df.lazy() if lazy else df), n


NUMS = ("a", "u", "f", "g", "p", "k", "z")
INTS = ("a", "u", "k")


def by_col(m, out, names, sig, key="column"):
    m.eq(out[key].to_list(), names, f"{sig}:columns")
    return {row[key]: row for row in out.rows(named=True)}


@case("P29", quick=60, thorough=1200)
def counts(m):
    """special_values_report, str_stats, numeric_profile against plain counting."""
    df, d, n = table(m)
    nums = [c for c in df.columns if c in NUMS]
    rep = by_col(m, m.call("special_values_report", d.special_values_report), nums, "special")
    for c in nums:
        v = df[c].to_list()
        nulls, nans = v.count(None), sum(isinstance(x, float) and math.isnan(x) for x in nn(v))
        infs = sum(isinstance(x, float) and math.isinf(x) for x in nn(v))
        m.close([rep[c][k] for k in ("null_count", "null%", "NaN_count", "NaN%", "inf_count", "Inf%")],
                [nulls, nulls / n, nans, nans / n, infs, infs / n], "special:counts", detail=c)
    bins, mult = int(m.pick(5, 20, 50)), float(m.pick(1.5, 1.0, 3.0))
    histo = m.chance(0.5)
    out = m.call("numeric_profile", lambda: d.numeric_profile(n_bins=bins, iqr_multiplier=mult, histogram=histo, gt=False))
    m.eq("histogram" in out.columns, histo, "profile:histogram-column")
    rep = by_col(m, out, nums, "profile")
    for c in nums:
        v = nn(df[c].to_list())
        m.eq(rep[c]["non_null_cnt"], len(v), "profile:count", c)
        m.close([rep[c]["null%"]], [1 - len(v) / n], "profile:nulls", detail=c)
        fin = sorted(x for x in v if math.isfinite(x))
        if histo and fin and fin[0] < fin[-1]:            # counts of the bins that are not empty, in order
            where = [(x - fin[0]) / (fin[-1] - fin[0]) * bins for x in fin]
            got = rep[c]["histogram"][next(iter(rep[c]["histogram"]))]
            m.eq(sum(got), len(fin), "profile:histogram", c)
            if all(abs(w - round(w)) > 1e-3 * bins or round(w) in (0, bins) for w in where):
                b = [min(int(w), bins - 1) for w in where]
                m.eq(list(got), [b.count(i) for i in sorted(set(b))], "profile:histogram-bins", c)
        if not v or not all(math.isfinite(x) for x in v):
            continue
        s = sorted(v)
        q1, q3 = (s[int(math.floor(q * (len(s) - 1) + 0.5 + 1e-12))] if abs(q * (len(s) - 1) % 1 - 0.5) > 1e-9 else None for q in (0.25, 0.75))
        m.close([rep[c]["mean"], rep[c]["min"], rep[c]["max"]], [float(np.mean(v)), s[0], s[-1]], "profile:stats", rtol=1e-5, atol=1e-6, detail=c)
        m.ok(abs(rep[c]["median"] - np.median(v)) <= 0.00501 + 1e-6 * abs(np.median(v)), "profile:median", lambda: f"{c}: {rep[c]['median']} for {np.median(v)}")
        if len(v) > 1:
            m.close([rep[c]["std"]], [float(np.std(v, ddof=1))], "profile:stats", rtol=1e-5, atol=1e-6, detail=c)
        if q1 is not None and q3 is not None:
            m.close([rep[c]["q1"], rep[c]["q3"], rep[c]["IQR"]], [q1, q3, q3 - q1], "profile:quartiles", rtol=1e-6, atol=1e-6, detail=c)
            lo, hi = q1 - mult * (q3 - q1), q3 + mult * (q3 - q1)
            if all(abs(x - e) > 1e-5 * (1 + abs(e)) or q1 == q3 and x == e for x in v for e in (lo, hi)):
                m.eq(rep[c]["outlier_cnt"], sum(x < lo or x > hi for x in v), "profile:outliers", c)
    strs = [c for c in df.columns if c in "st"]
    rep = by_col(m, m.call("str_stats", d.str_stats), strs, "str_stats")
    for c in strs:
        v = df[c].to_list()
        w = nn(v)
        m.eq([rep[c]["null_count"], rep[c]["n_unique"]], [v.count(None), len(set(v))], "str_stats:counts", c)
        top = max(v.count(x) for x in set(v))
        m.eq(rep[c]["most_freq_cnt"], top, "str_stats:most-frequent", c)
        m.ok(v.count(rep[c]["most_freq"]) == top, "str_stats:most-frequent", c)
        if w:
            L, B = [len(x) for x in w], [len(x.encode()) for x in w]
            qs = [0.05 * (len(B) - 1), 0.95 * (len(B) - 1)]
            if all(abs(q % 1 - 0.5) > 1e-6 for q in qs):
                m.close([rep[c]["5p_byte_len"], rep[c]["95p_byte_len"]], [sorted(B)[int(q + 0.5)] for q in qs], "str_stats:quantiles", detail=c)
            m.close([rep[c][k] for k in ("min_byte_len", "max_byte_len", "avg_byte_len", "min_char_len", "max_char_len", "avg_char_len")],
                    [min(B), max(B), sum(B) / len(B), min(L), max(L), sum(L) / len(L)], "str_stats:lengths", detail=c)


@case("P29", quick=60, thorough=1200)
def inferred(m):
    """infer_* list exactly the columns their rule picks, every time they are asked."""
    df, d, n = table(m)
    V = {c: df[c].to_list() for c in df.columns}
    uniq = {c: len({repr(x) for x in v}) for c, v in V.items()}
    # columns whose uniqueness Polars and Python count alike
    for c in V:
        if c == "f":
            uniq[c] = len({("nan" if x is not None and math.isnan(x) else x) for x in V[c]})

    def prob(c):
        v = nn(V[c])
        if c == "q":
            return all(all(y >= 0 for y in x) for x in v) and all(abs(sum(x) - 1) < 1e-6 for x in v) and len({len(x) for x in v}) == 1
        return all(0 <= x <= 1 for x in v)
    fl = [c for c in df.columns if c in ("f", "g", "p", "z")] + [c for c in df.columns if c == "q"]
    if fl:
        m.eq(m.call("infer_prob", d.infer_prob), [c for c in fl if prob(c)], "infer_prob")
    th = float(m.pick(0.75, 0.15, 0.51))
    edge = [c for c in V if abs(V[c].count(None) - n * th) < 1e-9]
    got = m.call("infer_high_null", lambda: d.infer_high_null(th))
    m.eq([c for c in got if c not in edge], [c for c in df.columns if V[c].count(None) > n * th and c not in edge], "infer_high_null")
    mv = int(m.pick(100, 3))
    th = float(m.pick(0.1, 0.5))
    bc = [c for c in df.columns if c in "bc"]
    got0 = got = m.call("infer_discrete", lambda: d.infer_discrete(th, mv))
    edge = [c for c in V if abs(uniq[c] - th * n) < 1e-9]
    m.eq(sorted(c for c in got if c not in edge), sorted(c for c in df.columns if c not in edge and (c in bc or uniq[c] < mv or uniq[c] < th * n)), "infer_discrete")
    for fn, k, call in (("infer_const", 1, lambda b: d.infer_const(b)), ("infer_binary", 2, lambda b: d.infer_binary(b)),
                        ("infer_k_distinct", 3, lambda b: d.infer_k_distinct(3, b))):
        for inc in (False, True):
            got = m.call(fn, lambda: call(inc))
            for c in df.columns:
                values = uniq[c] - (None in V[c])
                if None not in V[c]:
                    m.eq(c in got, values == k, f"{fn}:without-nulls", c)
                elif values == k:
                    m.eq(c in got, inc, f"{fn}:with-nulls", c)
                elif values not in (k, k - 1):        # whether null is the k-th value is left open
                    m.ok(c not in got, f"{fn}:with-nulls", c)
            got.append("other")                       # the caller's list is the caller's
            m.ok("other" not in m.call(fn, lambda: call(inc)), f"{fn}:remembers-what-the-caller-did")
    e = m.call("infer_k_distinct", lambda: d.infer_k_distinct(0), expect_error=True)
    m.ok(isinstance(e, ValueError), "infer_k_distinct:refusal", repr(e))
    meta = m.call("meta", d.meta)
    if m.chance(0.5):                                 # the lists handed out are the caller's
        for v in meta.values():
            v.append("other")
        meta = m.call("meta", d.meta)
        m.ok(not any("other" in v for v in meta.values()), "meta:remembers-what-the-caller-did")
    again = m.call("infer_discrete", lambda: d.infer_discrete(th, mv))
    m.eq(sorted(again), sorted(got0), "infer_discrete:again")
    if m.chance(0.5):
        d = DIA(df)
        m.call("infer_discrete", d.infer_discrete)
        meta = m.call("meta", d.meta)
    for key, want in dict(bools="b", cats="c", ints=INTS, floats=("f", "g", "p", "z"), strs="st").items():
        m.eq(sorted(meta[key]), sorted(c for c in df.columns if c in want), "meta:" + key)
    m.eq(sorted(meta["numerics"]), sorted(c for c in df.columns if c in NUMS), "meta")
    m.eq(sorted(meta["simple_types"] + meta["other_types"]), sorted(df.columns), "meta")


@case("P29", quick=40, thorough=800)
def relations(m):
    """null_corr, corr, infer_corr and infer_dependency pair up columns and give each pair its own number."""
    df, d, n = table(m)
    r = m.rng
    V = {c: df[c].to_list() for c in df.columns}
    keep = None
    if m.chance(0.4) and "t" in df.columns:
        keep = [x == "k1" for x in V["t"]]
    pick = [df.columns[i] for i in sorted(r.permutation(len(df.columns))[: int(r.integers(2, len(df.columns)))])] if m.chance(0.4) else df.columns
    kw = {} if pick is df.columns else {"subset": pick if m.chance(0.5) else pl.col(pick)}
    out = m.call("null_corr", lambda: d.null_corr(filter_by=None if keep is None else pl.col("t") == "k1", **kw))
    rows = range(n) if keep is None else [i for i in range(n) if keep[i]]
    ind = {c: [V[c][i] is None for i in rows] for c in pick}
    ok = [c for c in pick if 0 < sum(ind[c]) < len(ind[c])]
    got = {(a, b): v for a, b, v in out.rows()}
    m.eq(sorted(got), sorted(itertools.combinations(ok, 2)), "null_corr:pairs")
    for (a, b), v in got.items():
        m.close([v], [float(np.corrcoef(ind[a], ind[b])[0, 1])], "null_corr:value", rtol=1e-6, atol=1e-9)
    lst = [abs(v) for v in out["null_corr"].to_list()]
    m.eq(lst, sorted(lst, reverse=True), "null_corr:order")
    nums = [c for c in df.columns if c in NUMS]
    how = m.pick("pearson", "spearman", "kendall")
    out = m.call("corr", lambda: d.corr(["a", "g"], method=how))
    fn = {"pearson": lambda x, y: float(np.corrcoef(x, y)[0, 1]), "spearman": lambda x, y: float(st.spearmanr(x, y)[0]), "kendall": lambda x, y: float(st.kendalltau(x, y)[0])}
    for row in out.rows(named=True):
        for c in nums:
            x, y = V[row["column"]], V[c]
            if c in row and None not in x and None not in y and n > 2 and len(set(x)) > 1 and len(set(y)) > 1 and all(map(math.isfinite, x)) and all(map(math.isfinite, y)):
                m.seen("corr", how)
                m.close([row[c]], [fn[how](x, y)], "corr:value", rtol=1e-4, atol=1e-4, detail=(row["column"], c))
    m.eq(out.columns, ["column"] + nums, "corr:columns")
    m.eq(out["column"].to_list(), ["a", "g"], "corr:rows")
    how = m.pick("pearson", "kendall", "spearman")
    out = m.call("infer_corr", lambda: d.infer_corr(how))
    names = [c for c in df.columns if c in NUMS] + [c for c in df.columns if c == "b"]
    m.eq(sorted((a, b) for a, b, _ in out.rows()), sorted(itertools.combinations(names, 2)), "infer_corr:pairs")
    lst = [abs(v) for v in out["corr"].to_list() if v is not None and math.isfinite(v)]
    m.eq(lst, sorted(lst, reverse=True), "infer_corr:order")
    for a, b, v in out.rows():
        pair = [(float(x), float(y)) for x, y in zip(V[a], V[b]) if x is not None and y is not None]
        if how == "pearson" and len(pair) > 2 and all(math.isfinite(x) and math.isfinite(y) for x, y in pair):
            x, y = zip(*pair)
            if len(set(x)) > 1 and len(set(y)) > 1:
                m.close([v], [float(np.corrcoef(x, y)[0, 1])], "infer_corr:value", rtol=1e-4, atol=1e-4)
    cols = [c for c in df.columns if c in INTS + ("s", "t", "b", "c")]
    sub = m.pick(None, "all", cols[: max(2, len(cols) - 1)])
    use = cols if sub in (None, "all") else sub
    out = m.call("infer_dependency", lambda: d.infer_dependency() if sub is None else d.infer_dependency(pl.all() if sub == "all" else sub))
    many = [c for c in use if len(set(V[c])) > 1]
    got = {(a, b): v for a, b, v in out.rows()}
    m.eq(sorted(tuple(sorted(p)) for p in got), sorted(tuple(sorted(p)) for p in itertools.combinations(many, 2)) if len(many) > 1 else [], "infer_dependency:pairs")
    m.eq(out["cond_entropy"].to_list(), sorted(out["cond_entropy"].to_list()), "infer_dependency:order")
    det = {}
    for (x, y), v in got.items():
        m.ok(len(set(V[x])) <= len(set(V[y])), "infer_dependency:direction", (x, y))
        h = lambda vs: -sum((c := vs.count(k) / n) * math.log(c) for k in set(vs))
        if None in V[x] or None in V[y]:
            continue
        want = h(list(zip(V[x], V[y]))) - h(V[y])
        m.close([v], [abs(want)], "infer_dependency:value", rtol=1e-6, atol=1e-8, detail=(x, y))
    if not any(None in V[c] for c in many) and many:
        th = float(m.pick(0.01, 0.2, 0.6, 1.0))
        kw = {} if th == 0.01 else {"threshold": th}
        dot = m.call("plot_dependency", lambda: d.plot_dependency(subset=many, **kw))
        edges = {tuple(s.strip().strip('"') for s in line.split("->")) for line in dot.source.splitlines() if "->" in line}
        raw = {(y, x) for (x, y), v in got.items() if v < th}
        if not any(abs(v - th) < 1e-6 for v in got.values()) and n > 2:
            m.seen("dependency", th, len(raw), raw == closure(raw))
            m.ok(edges <= raw, "plot_dependency:arrows", lambda: f"{edges} of {raw}")
            m.eq(sorted({c for _, c in edges}), sorted({c for _, c in raw}), "plot_dependency:children")
            if raw == closure(raw):
                m.eq(sorted(closure(edges)), sorted(raw), "plot_dependency:reachability")
                m.eq(sorted(edges), sorted((a, c) for a, c in raw if not any((a, b) in raw and (b, c) in raw for b in many)), "plot_dependency:superfluous")


def closure(e):
    e = set(e)
    while True:
        more = {(a, d) for a, b in e for c, d in e if b == c} - e
        if not more:
            return e
        e |= more


@case("P29", quick=40, thorough=800)
def rules(m):
    """Validation reports list exactly the rows and columns that break a rule, with a rule they break."""
    df, d, n = table(m)
    R = [("a-low", pl.col("a") < 1, lambda r: None if r["a"] is None else r["a"] < 1),
         ("g-pos", pl.col("g") > 0, lambda r: None if r["g"] is None else r["g"] > 0),
         ("s-any", pl.col("s").is_not_null(), lambda r: r["s"] is not None),
         ("b-true", pl.col("b"), lambda r: r["b"])]
    use = [R[i] for i in m.rng.permutation(4)[: int(m.rng.integers(1, 5))]]
    rows = df.rows(named=True)
    res = [[f(r) for _, _, f in use] for r in rows]
    allr = m.chance(0.5)
    idc = m.pick(None, None, "a", "s")
    keep = m.pick(None, ["s"], ["g", "b"], [c for c in df.columns if c not in ("q", "c")])
    keep = keep and [c for c in keep if c != idc]
    out = m.call("row_validation", lambda: d.row_validation(*((e, nm) for nm, e, _ in use), columns_to_keep=keep, all_reasons=allr, **({} if idc is None else {"id_col": idc})))
    bad = [i for i in range(n) if False in res[i]]
    m.eq(out[idc or "__index__"].to_list(), [rows[i][idc] for i in bad] if idc else bad, "row_validation:rows")
    m.eq(out.columns, [idc or "__index__"] + (keep or []) + ["__reason__"], "row_validation:columns")
    for j, i in enumerate(bad):
        broken = [nm for (nm, _, _), v in zip(use, res[i]) if v is False]
        open_ = [nm for (nm, _, _), v in zip(use, res[i]) if v is None]
        why = out["__reason__"][j]
        if allr:
            why = why.to_list()
            m.ok(set(broken) <= set(why) <= set(broken + open_) and len(set(why)) == len(why), "row_validation:reasons", lambda: f"row {i}: {why} for {broken}")
        else:
            m.ok(why in broken, "row_validation:reason", lambda: f"row {i}: {why} for {broken}")
        for c in keep or []:
            m.eq(repr(out[c][j]), repr(rows[i][c]), "row_validation:kept", c)
    e = m.call("row_validation", lambda: d.row_validation((pl.col("a") > 0, "x"), (pl.col("g") > 0, "x")), expect_error=True)
    m.ok(isinstance(e, ValueError), "row_validation:refusal", repr(e))
    C = [(pl.col("a").null_count() == 0, "a has nulls", df["a"].null_count() == 0), (pl.col("g").max() > 1, "g small", None if df["g"].null_count() == n else df["g"].max() > 1),
         (pl.col("s").n_unique() < 3, "s varied", df["s"].n_unique() < 3)]
    use = [C[i] for i in m.rng.permutation(3)[: int(m.rng.integers(1, 4))]]
    out = m.call("col_validation", lambda: d.col_validation(*((e, msg) for e, msg, _ in use)))
    m.eq(out.rows(), [(str(e.meta.root_names()[0]), msg) for e, msg, ok in use if ok is False], "col_validation")
    e = m.call("col_validation", lambda: d.col_validation((pl.col("a") > 0, "x")), expect_error=True)
    m.ok(n == 1 or isinstance(e, ValueError), "col_validation:refusal", repr(e))


def frames_of(ch):
    """the data frames a chart draws"""
    out = []
    for key in ("layer", "vconcat", "hconcat"):
        sub = getattr(ch, key, None)
        for c in sub if isinstance(sub, list) else []:
            out += frames_of(c)
    if isinstance(getattr(ch, "data", None), pl.DataFrame):
        out.append(ch.data)
    return out


@case("P29", quick=50, thorough=1000)
def charts(m):
    """The numbers behind the charts are those of the data."""
    r = m.rng
    n = int(m.pick(4, 10, 60))
    k = m.pick("distr", "distr-dia", "roc", "roc", "lin_reg", "calibration", "pca")
    m.seen(k)
    if k in ("distr", "distr-dia"):
        v = [None if r.random() < 0.2 else float(r.choice([r.normal(), math.nan, math.inf], p=[0.8, 0.1, 0.1])) for _ in range(n)]
        g = ["xy"[int(i)] for i in r.integers(0, 2, n)]
        over = m.pick(None, "g")
        bad = m.chance(0.7)
        df = pl.DataFrame({"v": pl.Series(v, dtype=pl.Float64), "g": g})
        m.note(df=df, over=over, bad=bad, k=k)
        if k == "distr":
            ch = m.call("plot_feature_distr", lambda: plot_feature_distr(feature="v", df=df, over=over, show_bad_values=bad, n_bins=m.pick(5, 10), density=False))
        else:
            kw = {q: x for q, x in dict(min_=-0.5, max_=m.pick(0.5, pl.col("v").median()), filter_by=pl.col("g") == "x", n_bins=7).items() if m.chance(0.4)}
            hi = 0.5
            if isinstance(kw.get("max_"), pl.Expr):
                hi = df["v"].median()
                if hi is None or any(x is not None and math.isfinite(x) and x != hi and abs(x - hi) < 1e-12 for x in v):
                    raise Inconclusive("limit too close to call")
            ch = m.call("DIA.plot_feature_distr", lambda: DIA(df).plot_feature_distr("v", over=over, show_bad_values=bad, density=m.chance(0.3), **kw))

            def fits(x, c):
                lo_ok = "min_" not in kw or (x is not None and (x >= -0.5 or math.isnan(x)))      # Polars: NaN is above everything
                hi_ok = "max_" not in kw or (x is not None and not (math.isnan(x) and not math.isnan(hi)) and (x <= hi or math.isnan(hi)))
                return lo_ok and hi_ok and ("filter_by" not in kw or c == "x")
            kept = [(x, c) for x, c in zip(v, g) if fits(x, c)]
            v, g, n = [x for x, _ in kept], [c for _, c in kept], len(kept)
            m.seen("limits", *sorted(kw))
            m.ok(any("v" in f.columns and sorted(map(repr, f["v"].to_list())) == sorted(map(repr, v)) for f in frames_of(ch)), "distr:rows", lambda: f"{kw}")
            if not n:
                return
        fs = frames_of(ch)
        isbad = [x is None or not math.isfinite(x) for x in v]
        if bad and over is None:
            m.close([f["pcts"][0] for f in fs if "pcts" in f.columns], [sum(isbad) / n], "distr:bad-share")
        if bad and over is not None:
            got = {row["g"]: row["pcts"] for f in fs if "pcts" in f.columns for row in f.rows(named=True)}
            m.close([got[c] for c in sorted(set(g))], [sum(b for b, x in zip(isbad, g) if x == c) / g.count(c) for c in sorted(set(g))], "distr:bad-share")
        if over is None and not any(isbad):
            got = {row["names"]: row["stats"] for f in fs if "stats" in f.columns for row in f.rows(named=True)}
            m.close([got["avg"], got["median"]], [float(np.mean(v)), float(np.median(v))], "distr:stats")
            qs = [0.05 * (n - 1), 0.95 * (n - 1)]
            if all(abs(q % 1 - 0.5) > 1e-6 for q in qs):
                m.close([got["p5"], got["p95"]], [sorted(v)[int(q + 0.5)] for q in qs], "distr:stats")
        m.ok(any("v" in f.columns and f.height == n for f in fs), "distr:data")
    elif k == "roc":
        levels = m.pick(1, 2, 5, 1000)
        s = [float(x) for x in r.integers(0, levels, n) / max(levels, 1)]
        y = [int(x) for x in r.integers(0, 2, n)]
        if len(set(y)) < 2:
            raise Inconclusive("one class")
        yy = m.pick(y, np.array(y), pl.Series(y))
        m.note(s=s, y=y)
        two = m.chance(0.4)
        s2 = [float(x) for x in r.random(n)]
        ch = m.call("plot_roc_auc", lambda: plot_roc_auc(target=yy, preds=[s, s2], names=["m1", "m2"]) if two else plot_roc_auc(target=yy, pred=s, name="m1"))
        data = [f for f in frames_of(ch) if "tpr" in f.columns and "name" in f.columns and f["name"][0] != " y=x"]
        m.ok(len(data) >= 1, "roc:data")
        data = data[-1]
        for nm, sc in (("m1", s), ("m2", s2))[: 1 + two]:
            pos, neg = [a for a, b in zip(sc, y) if b], [a for a, b in zip(sc, y) if not b]
            auc = sum((p > q) + 0.5 * (p == q) for p in pos for q in neg) / len(pos) / len(neg)
            part = data.filter(pl.col("name").str.starts_with(nm))
            shown = float(part["name"][0].split("AUC = ")[1].rstrip(")"))
            m.ok(abs(shown - auc) <= 0.0000501, "roc:auc", lambda: f"shown {shown}, is {auc}")
            pts = [(a, b) for a, b in zip(part["fpr"], part["tpr"])]
            m.eq(pts, sorted(pts), "roc:curve-order")
            m.close([float(x) for p in (pts[0], pts[-1]) for x in p], [0, 0, 1, 1], "roc:curve-ends")
            m.close([float(np.trapezoid([p[1] for p in pts], [p[0] for p in pts]) if hasattr(np, "trapezoid") else np.trapz([p[1] for p in pts], [p[0] for p in pts]))], [auc], "roc:curve")
    elif k == "lin_reg":
        x, w = r.normal(size=n), r.uniform(0.2, 2, n)
        y = 2 * x + r.normal(size=n) + float(m.pick(0, 3, -3))
        bias, wt = m.chance(0.5), m.chance(0.4)
        df = pl.DataFrame({"x": x, "y": y, "w": w})
        m.note(df=df, bias=bias, wt=wt)
        mp = int(m.pick(3, 20000))
        ch = m.call("plot_lin_reg", lambda: plot_lin_reg(df.lazy() if m.chance(0.3) else df, "x", "y", add_bias=bias, weights="w" if wt else None, max_points=mp))
        X = np.c_[x, np.ones(n)] if bias else x[:, None]
        sw = np.sqrt(w) if wt else np.ones(n)
        b = np.linalg.lstsq(X * sw[:, None], y * sw, rcond=None)[0]
        pred = X @ b
        shown = frames_of(ch)[0]
        m.eq(shown.height, min(n, mp), "lin_reg:points")
        want = dict(zip(x.tolist(), pred.tolist()))
        m.close(shown["y_pred"].to_list(), [want[a] for a in shown["x"].to_list()], "lin_reg:line", rtol=1e-6, atol=1e-7)
        title = str([str(l.encoding.x) + str(getattr(l.encoding.x, "_kwds", "")) for l in ch.layer])
        r2 = 1 - ((y - pred) ** 2).sum() / ((y - y.mean()) ** 2).sum()
        sign = "" if not bias else f" {'+' if b[1] > 0 else '-'} "
        m.ok(f"y = {b[0]:.4f} * x" in title or abs(b[0] * 1e4 % 1 - 0.5) < 1e-3, "lin_reg:equation", lambda: f"{title} for {b}")
        m.ok(f"r2 = {r2:.4f}" in title or abs(r2 * 1e4 % 1 - 0.5) < 1e-3 or abs(r2) < 1e-4, "lin_reg:r2", lambda: f"{title} for {r2}")
        m.ok(sign in title, "lin_reg:equation", lambda: f"{title} for {b}")
    elif k == "calibration":
        n = 40
        s = [float(x) for x in r.permutation(n) / n]
        y = [int(x) for x in r.integers(0, 2, n)]
        bins = int(m.pick(4, 5, 10))
        m.note(s=s, y=y, bins=bins)
        ch = m.call("plot_prob_calibration", lambda: plot_prob_calibration(target=y, score=s, name="m", n_bins=bins))
        data = [f for f in frames_of(ch) if "score" in f.columns and f["score"][0] == "m"][0]
        m.eq(data.height, bins, "calibration:bins")
        # n distinct scores in n_bins equal groups: totals are conserved
        m.close([float(data["fraction_of_positives"].mean())], [sum(y) / n], "calibration:positives", rtol=0.25, atol=0.05)
        o = sorted(zip(s, y))
        m.ok(data["mean_predicted_prob"].is_sorted(), "calibration:order")
        for mean, frac in zip(data["mean_predicted_prob"], data["fraction_of_positives"]):
            near = [(sum(a for a, _ in o[i:j]) / (j - i), sum(b for _, b in o[i:j]) / (j - i)) for i in range(n) for j in range(i + 1, n + 1) if abs((j - i) - n / bins) <= 1]
            m.ok(any(abs(a - mean) < 1e-9 and abs(b - frac) < 1e-9 for a, b in near), "calibration:point", lambda: f"({mean}, {frac})")
    else:
        X = r.normal(size=(n, 3)) @ r.normal(size=(3, 3))
        df = pl.DataFrame({"a": X[:, 0], "b": X[:, 1], "c": X[:, 2], "g": ["xy"[int(i)] for i in r.integers(0, 2, n)]})
        m.note(df=df)
        ch = m.call("plot_pca", lambda: plot_pca(df, ["a", "b", "c"], by="g"))
        data = frames_of(ch)[0]
        m.eq(data.height, n, "pca:points")
        Z = X - X.mean(0)
        u, sv, vt = np.linalg.svd(Z, full_matrices=False)
        P = Z @ vt.T[:, :2]
        got = np.c_[data["pc1"].to_numpy(), data["pc2"].to_numpy()]
        if min(sv[0] - sv[1], sv[1] - sv[2]) > 1e-3 * sv[0]:
            key = lambda M, gg: sorted((tuple(np.round(np.abs(row), 6)), c) for row, c in zip(M.tolist(), gg))
            a, b = key(got, data["g"].to_list()), key(P, df["g"].to_list())
            m.ok(all(np.allclose(p[0], q[0], atol=1e-5) for p, q in zip(a, b)), "pca:coordinates")
