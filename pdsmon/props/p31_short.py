"""P31: the ways of writing one call agree: options left out, by position or by name, columns as names or expressions.

The published signatures (names, order and defaults of every parameter) are kept in pdsmon/defaults.json."""
import json, math, os, re, warnings
import altair as alt
import numpy as np
import polars as pl
import polars.selectors as cs
import polars_ds as pds
from polars_ds.modeling import transforms as TR
from polars_ds.modeling.pipeline import Blueprint, Pipeline
from polars_ds.sample_and_split import sample_and_split as SS
from polars_ds.partition.partition import PartitionHelper
from polars_ds.eda.diagnosis import DIA
from polars_ds.eda import plots as PL
from polars_ds.linear_models import LR, ElasticNet, OnlineLR
from polars_ds.spatial import KDTree
from pdsmon import catalog as C
from pdsmon.core import case, Inconclusive
from pdsmon.props.p24_context import agree, outcome

TABLE = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "defaults.json")))
MODS = dict(N="num", S="stats", Z="string", M="metrics", T="ts_features", L="expr_linear", K="expr_knn", I="expr_iter")
NAMES = sorted(C.ENTRIES)


def value(text):
    """a default as written in the signature"""
    return eval(text, {"pl": pl, "inf": math.inf, "nan": math.nan})


def options(key):
    return [p[0] for p in TABLE[key] if len(p) == 3]


def default(key, p):
    return value(next(q[2] for q in TABLE[key] if q[0] == p))


def bind(key, args, kw):
    """(values of *args, parameter -> value) of one call under the published signature"""
    out, rest, names = dict(kw), [], [p for p in TABLE[key]]
    for v in args:
        if names and names[0][1] in ("p", "pk"):
            out[names.pop(0)[0]] = v
        else:
            rest.append(v)
    return rest, out


def spell(key, rest, given, by_name):
    """args and kwargs of the call written by position as far as possible, or by name as far as possible"""
    args, kw, lead = [], {}, True
    star = any(p[1] == "*" for p in TABLE[key]) and rest
    for p in TABLE[key]:
        n, kind = p[0], p[1]
        if n not in given:
            lead = lead and kind == "*"
            continue
        if kind == "p" or (kind == "pk" and lead and (star or not by_name)):
            args.append(given[n])
        else:
            kw[n] = given[n]
    return args + list(rest), kw


# another value of an option, where the catalogue does not draw one: only to tell whether the option mattered on the data at hand
ELSE = {"null_policy": "zero", "dist": "l1", "metric": "jw", "solver": "svd", "l2_reg": 0.3, "l1_reg": 0.3, "tol": 0.5, "epsilon": 0.7, "max_bound": 0.5, "min_bound": 0.9,
        "eval_mask": "b0", "data_mask": "b1", "sort": False, "min_valid_rows": 4, "threshold": 0.2, "dense": False, "fill_value": 2.0, "method": "fft", "return_sum": False,
        "strict": True, "increasing": False, "count_null": True, "normalize": True, "c": 3.0, "alpha": 0.2, "alternative": "less", "is_normalized": True, "return_p": True,
        "ignore_comma": True, "dtype": pl.Float64, "pad": True, "only_spaces": True, "weight": 0.2, "substr_size": 1, "no_stopwords": False, "pattern": r"\w+", "strategy": "any",
        "scale_by_std": False, "ddof": 3, "base": 2.0, "ratio": 1.0, "m": 3, "lag": 2, "k": 2, "parallel": True, "lower": -1.0, "upper": 3.0, "std": 3.0, "q_low": 0.3, "q_high": 0.6,
        "n_bins": 3, "std_err": "hc1", "length": 3, "rcond": 0.4, "freq": 2, "use_mean": False, "tau": 2, "n_dims": 2, "add_bias": True, "center": False, "smoothing": 1.0,
        "min_samples_leaf": 1, "all_metrics": True, "weighted": True, "return_dist": True, "return_ratio": True, "as_ratio": False, "return_sim": True, "weights": "w0",
        "return_pred": True, "join_by": "-", "value": "?", "unique": True, "n": 4, "return_full": True, "mode": "same", "is_binary": True, "equal_var": True, "freq_weights": True,
        "positive": True, "stem": True, "return_report": True, "as_explained_var": True}


class Rewriter:
    """Stands in for a module of expressions and hands every call to `change` before it is made."""

    def __init__(self, mod, name, change):
        self.mod, self.name, self.change = mod, name, change

    def __getattr__(self, fn):
        f, key = getattr(self.mod, fn), f"{self.name}.{fn}"
        if key not in TABLE:
            return f

        def call(*a, **k):
            a, k = self.change(key, a, k)
            return f(*a, **k)
        return call


def rewritten(name, seed, change):
    keep = {k: getattr(C, k) for k in MODS}
    try:
        for k, mod in MODS.items():
            setattr(C, k, Rewriter(keep[k], mod, change))
        return C.make(name, seed)
    finally:
        for k in MODS:
            setattr(C, k, keep[k])


def draw(m):
    name = NAMES[m.i % len(NAMES)]
    e = C.ENTRIES[name]
    n = int(m.pick(*((3, 8) if e.get("small") else (5, 12, 30, 45))))
    cols = C.plain(m.rng, n)
    k = float(m.pick(1, 1, 1, 1e-6, 2e5))
    for c in ("f0", "f1", "f2", "n0"):
        cols[c] = [None if v is None else v * k for v in cols[c]]
    if m.chance(0.3):
        for c in ("f0", "y0"):
            cols[c][int(m.rng.integers(n))] = None
    if m.chance(0.4):
        cols["t0"] = sorted(round(v) * 1.0 for v in cols["t0"])
        for c in ("i0", "k0"):
            cols[c][int(m.rng.integers(n))] = None
        for v in ("1,200.5 and 3,4", "tab\there  two", "abcdefg" * 20):
            cols["s0"][int(m.rng.integers(n))] = v
    seed = int(m.rng.integers(1 << 30))
    m.note(entry=name, rows=n, seed=seed, f0=cols["f0"], s0=cols["s0"])
    m.seen(name)
    return name, e, seed, C.to_df(cols)


def ask(df, x):
    return outcome(lambda: df.select(x().alias("r"))["r"].to_list())


def same(m, e, sig, a, b, exact=True):
    m.calls += 2
    if (a[1] is None) != (b[1] is None):
        m.fail(sig, f"{str(a[0])[:150]} {a[1]!r:.200} / {str(b[0])[:150]} {b[1]!r:.200}")
    m.observed += 1
    if a[1] is None:
        d = agree(e, a[0], b[0], 1e-10, 1e-300 if exact else 1e-12)
        m.ok(d is None, sig, lambda: f"{d}: {str(a[0])[:300]} / {str(b[0])[:300]}")


@case("P31", quick=3 * len(NAMES), thorough=60 * len(NAMES))
def left_out(m):
    """An option left out is the option at its published default."""
    name, e, seed, df = draw(m)
    seen = []
    rewritten(name, seed, lambda key, a, k: (seen.append((key, a, k)), (a, k))[1])
    todo = [(j, key, p) for j, (key, a, k) in enumerate(seen) for p in options(key) if p != "seed"]
    if not todo:
        raise Inconclusive("no options")

    for j, key, p in todo:
        def change(put, v=None):
            at = [0]

            def go(key2, a, k):
                at[0] += 1
                if at[0] - 1 != j:
                    return a, k
                rest, given = bind(key, a, k)
                given.pop(p, None)
                if put:
                    given[p] = default(key, p) if v is None else v
                if "seed" in options(key) and given.get("seed") is None:
                    given["seed"] = 11
                return spell(key, rest, given, True)
            return go
        a = ask(df, lambda: rewritten(name, seed, change(False)))
        b = ask(df, lambda: rewritten(name, seed, change(True)))
        m.seen(key, p)
        same(m, e, f"{key}:{p}", a, b)
        d = default(key, p)
        other = bind(key, *seen[j][1:])[1].get(p, d)
        other = ELSE.get(p, d) if repr(other) == repr(d) else other
        if repr(other) == repr(d) and isinstance(d, bool):
            other = not d
        if repr(other) != repr(d):
            c = ask(df, lambda: rewritten(name, seed, change(True, other)))
            if (c[1] is None) != (a[1] is None) or a[1] is None and agree(e, a[0], c[0], 1e-9):
                m.seen("matters", key, p)


@case("P31", quick=len(NAMES), thorough=20 * len(NAMES))
def by_position(m):
    """Arguments given by position, in the published order, and by name are the same call."""
    name, e, seed, df = draw(m)

    def change(by_name):
        def go(key, a, k):
            rest, given = bind(key, a, k)
            for p in TABLE[key]:
                if len(p) == 3 and p[0] not in given and p[0] != "seed":
                    given[p[0]] = value(p[2])
            if "seed" in options(key) and given.get("seed") is None:
                given["seed"] = 11
            return spell(key, rest, given, by_name)
        return go
    a = ask(df, lambda: rewritten(name, seed, change(True)))
    b = ask(df, lambda: rewritten(name, seed, change(False)))
    same(m, e, f"{name}:by-position", a, b)


# calls with a parameter documented to take expressions but not names
ONLY_EXPR = {"metrics.query_fairness", "metrics.query_p_pct_score"}
ONLY_EXPR_OPTIONS = {"r", "fill_value", "lower", "upper", "length", "mean", "std"}


def turn(v, to_expr):
    if isinstance(v, str) and v in C.SCHEMA and to_expr:
        return pl.col(v)
    if isinstance(v, pl.Expr) and not to_expr:
        roots = v.meta.root_names()
        if len(roots) == 1 and roots[0] in C.SCHEMA and v.meta.eq(pl.col(roots[0])):
            return roots[0]
    if isinstance(v, list) and v and isinstance(v[0], str) and v[0] in C.SCHEMA and to_expr:
        return [pl.col(x) for x in v]
    return v


@case("P31", quick=len(NAMES), thorough=20 * len(NAMES))
def names_and_expressions(m):
    """A column given by its name and as pl.col(name) is the same column."""
    name, e, seed, df = draw(m)

    def change(to_expr):
        return lambda key, a, k: (a, k) if key in ONLY_EXPR else ([turn(v, to_expr) for v in a], {p: v if p in ONLY_EXPR_OPTIONS and key != "expr_knn.query_nb_cnt" else turn(v, to_expr) for p, v in k.items()})
    a = ask(df, lambda: rewritten(name, seed, change(False)))
    b = ask(df, lambda: rewritten(name, seed, change(True)))
    same(m, e, f"{name}:name-or-expression", a, b)


# ---- everything that is not an expression: what to call, and values for the options other than their defaults
RECIPES = []


def recipe(key, *more):
    def deco(fn):
        RECIPES.append((key, fn, more))
        return fn
    return deco


def mixed(m, n=None):
    """a frame for pipelines, reports and samples"""
    r = m.rng
    n = n or int(m.pick(12, 40, 130))
    x = r.normal(0, 2, n)
    return pl.DataFrame({
        "a": [None if r.random() < 0.15 else float(v) for v in x],
        "b": [None if r.random() < 0.15 else float(v) for v in 0.5 * x + r.normal(0, 1, n)],
        "c": [float(v) for v in r.exponential(2, n)],
        "i": [int(v) for v in r.integers(0, 6, n)],
        "k": [f"{'xyz'[int(v)]}" for v in r.integers(0, 3, n)],
        "g": [None if r.random() < 0.1 else f"{'pq'[int(v)]}" for v in r.integers(0, 2, n)],
        "t": [bool(v) for v in r.integers(0, 2, n)],
        "const": [1.0] * n,
        "mostly": [None if r.random() < 0.8 else 1.0 for _ in range(n)],
        "row": list(range(n)),
        "d": [int(v) % (n // 3) for v in range(n)],
        "y": [int(v) for v in r.integers(0, 2, n)],
    })


def rows(df):
    df = df.collect() if isinstance(df, pl.LazyFrame) else df
    return [df.columns, [str(t) for t in df.dtypes], df.to_dicts()]


def chart(c):
    """a chart as data, without the running numbers altair gives to views and parameters"""
    if hasattr(c, "source"):
        return [c.source.split("\n")[0], sorted(set(re.findall(r"\w+", c.source)))]
    with alt.data_transformers.enable("default", max_rows=None):
        c = c.to_dict()
    return json.loads(re.sub(r'"(view|param|selector)_?\d+"', '"_"', json.dumps(c, sort_keys=True, default=str)))


# (method, arguments, alternatives of its options)
PIPES = [
    ("cast_bools", (), dict(to=pl.Int32)), ("impute", (["a", "b"],), dict(method="median")),
    ("conditional_impute", ({"a": "a > 1", "c": "c < 2"},), dict(method="median")), ("int_to_float", (), dict(f32=False)),
    ("linear_impute", (["c", "i"],), dict(target="a", add_bias=True)), ("scale", (["a", "c"],), dict(method="min_max")),
    ("polynomial_features", (["a", "b"],), dict(interaction_only=False)), ("winsorize", (["a", "c"],), dict(q_low=0.2, q_high=0.7, method="linear")),
    ("one_hot_encode", (["k", "g"],), dict(separator="-", drop_first=True, drop_cols=False)), ("rank_hot_encode", ("k", ["x", "y", "z"]), dict(drop_cols=False)),
    ("target_encode", (["k"],), dict(target="t", min_samples_leaf=1, smoothing=2.0, default="zero")), ("woe_encode", (["k"],), dict(target="t", default=0.0)),
    ("iv_encode", (["k"],), dict(target="t", default=0.0)), ("append_expr", (pl.col("c") + 1,), dict(is_select=True)),
    ("robust_scale", (["a", "c"], 0.2, 0.8), dict()),
]
for _n, _a, _o in PIPES:
    @recipe(f"pipeline.Blueprint.{_n}", _o)
    def _(m, _n=_n, _a=_a):
        df = mixed(m)
        if _n == "polynomial_features":
            a = _a + (2,)
        else:
            a = _a
        # a category the pipeline has not seen
        new = df.with_columns(k=pl.when(pl.col("row") % 5 == 0).then(pl.lit("new")).otherwise(pl.col("k")))
        return lambda kw: rows(getattr(Blueprint(df, name="p", target="y"), _n)(*a, **kw).materialize().transform(new))


@recipe("pipeline.Blueprint.__init__", dict(name="u", target="y", exclude=["a"], lowercase=True, uppercase=True))
def _(m):
    df = mixed(m).rename({"c": "Cc"})

    def go(kw):
        p = Blueprint(df, **kw).scale(["a", "b"]).int_to_float().materialize()
        return [p.name, p.target, rows(p.transform(df))]
    return go


@recipe("pipeline.Blueprint.fit", dict(X=1))
def _(m):
    df = mixed(m)
    return lambda kw: rows(Blueprint(df, name="p", target="y").scale(["a"]).fit(**({"X": df} if kw.get("X") else {})).transform(df))


@recipe("pipeline.Blueprint.transform", dict(separate=True))
def _(m):
    df = mixed(m)

    def go(kw):
        out = Blueprint(df, name="p", target="y").scale(["a"]).transform(df, **kw)
        return [rows(x) for x in out] if isinstance(out, tuple) else rows(out)
    return go


@recipe("pipeline.Pipeline.transform", dict(separate=True, return_lazy=True))
def _(m):
    df = mixed(m)

    def go(kw):
        out = Blueprint(df, name="p", target="y").scale(["a"]).materialize().transform(df, **kw)
        return [[type(x).__name__, rows(x)] for x in (out if isinstance(out, tuple) else (out,))]
    return go


@recipe("pipeline.Pipeline.ensure_features_io", dict(ensure_in=False, ensure_out=False))
def _(m):
    df = mixed(m)

    def go(kw):
        p = Blueprint(df, name="p", target="y").scale(["a"]).materialize()
        q = p.ensure_features_io(**kw)
        q = p if q is None else q
        return [outcome(lambda: rows(q.transform(d)))[0] for d in (df, df.drop("c"), df.with_columns(extra=1))]
    return go


FITS = [
    ("impute", (["a", "b"],), dict(method="median")), ("linear_impute", (["c", "i"], "a"), dict(add_bias=True)), ("scale", (["a", "c"],), dict(method="min_max")),
    ("conditional_impute", ({"a": "a > 1", "c": "c < 2"},), dict(method="median")),
    ("robust_scale", (["a", "c"],), dict(q_low=0.1, q_high=0.9, method="nearest")), ("winsorize", (["a", "c"],), dict(q_low=0.2, q_high=0.7, method="linear")),
    ("one_hot_encode", (["k", "g"],), dict(separator="-", drop_first=True)), ("target_encode", (["k"], "y"), dict(min_samples_leaf=1, smoothing=2.0, default="zero")),
    ("woe_encode", (["k"], "y"), dict(default=0.0)), ("iv_encode", (["k"], "y"), dict(default=0.0)), ("polynomial_features", (["a", "b"], 2), dict(interaction_only=True)),
]
for _n, _a, _o in FITS:
    @recipe(f"transforms.{_n}", _o)
    def _(m, _n=_n, _a=_a):
        df = mixed(m)
        fn = getattr(TR, _n)
        lead = () if TABLE[f"transforms.{_n}"][0][0] not in ("df",) else (df,)
        new = df.with_columns(k=pl.when(pl.col("row") % 5 == 0).then(pl.lit("new")).otherwise(pl.col("k")))
        return lambda kw: rows(new.select(fn(*lead, *_a, **kw)))


@recipe("sample_and_split.volume_neutral", dict(control=pl.col("t"), target_volume=1))
def _(m):
    df = mixed(m)
    return lambda kw: rows(SS.volume_neutral(df, pl.col("i"), seed=5, **kw))


@recipe("sample_and_split.random_cols", dict(keep=["a"]))
def _(m):
    df = mixed(m)
    s = int(m.rng.integers(1000))
    return lambda kw: SS.random_cols(["a", "b", "c", "i", "k"], 3, seed=s, **kw)


@recipe("partition.PartitionHelper.__init__", dict(separator="/", whole_df_name="all"))
def _(m):
    df, by = mixed(m), m.pick(["k", "t"], None)

    def go(kw):
        p = PartitionHelper(df, by=by, **kw)
        return [[k, rows(p.get(k))] for k in sorted(p.names())]
    return go


@recipe("partition.PartitionHelper.head", dict(n=2))
def _(m):
    df = mixed(m, 130)

    def go(kw):
        return {k: rows(v) for k, v in PartitionHelper(df, by=["k"]).head(**kw).items()}
    return go


# (method, arguments, alternatives)
REPORTS = [
    ("numeric_profile", (), dict(n_bins=5, iqr_multiplier=0.5, histogram=False, gt=False)), ("null_corr", (), dict(subset=["a", "b", "mostly"], filter_by=pl.col("i") > 2)),
    ("corr", (["a", "b", "c"],), dict(method="kendall")), ("infer_high_null", (), dict(threshold=0.1)), ("infer_discrete", (), dict(threshold=0.5, max_val_cnt=2)),
    ("infer_const", (), dict(include_null=True)), ("infer_binary", (), dict(include_null=True)), ("infer_k_distinct", (2,), dict(include_null=True)),
    ("infer_corr", (), dict(method="kendall")), ("infer_dependency", (), dict(subset=["i", "k", "t"])),
    ("plot_feature_distr", ("a",), dict(n_bins=4, density=True, show_bad_values=False, min_=-1.0, max_=1.0, filter_by=pl.col("i") > 2)),
    ("plot_corr", (["a", "b", "c"],), dict(method="kendall")), ("plot_dependency", (), dict(threshold=0.7, subset=["i", "k", "t"])),
]
for _n, _a, _o in REPORTS:
    @recipe(f"diagnosis.DIA.{_n}", _o)
    def _(m, _n=_n, _a=_a):
        df = mixed(m)

        def go(kw):
            out = getattr(DIA(df), _n)(*_a, **kw)
            if isinstance(out, (pl.DataFrame, pl.LazyFrame)):
                got = rows(out)
                return [*got[:2], sorted(got[2], key=repr)]
            if isinstance(out, (list, dict, str)):
                return out
            if hasattr(out, "as_raw_html"):
                return ["gt", re.sub(r'"?#?[a-z]{10}\b', "", out.as_raw_html())]
            return chart(out)
        return go


@recipe("diagnosis.DIA.row_validation", dict(id_col="row", columns_to_keep=["a"], all_reasons=True))
def _(m):
    df = mixed(m)

    def go(kw):
        out = DIA(df).row_validation((pl.col("c") > 1.0, "pos"), (pl.col("i") < 4, "small"), **kw)
        return [rows(x) for x in out] if isinstance(out, tuple) else rows(out)
    return go


@recipe("plots.plot_feature_distr", dict(n_bins=4, density=True, show_bad_values=False))
def _(m):
    df = mixed(m)
    return lambda kw: chart(PL.plot_feature_distr(feature="a", df=df, **kw))


@recipe("plots.plot_lin_reg", dict(add_bias=True, show_lin_reg_eq=False, weights="i"))
def _(m):
    df = mixed(m)
    return lambda kw: chart(PL.plot_lin_reg(df, "c", "row", **kw))


@recipe("plots.plot_pca", dict(center=False, dim=3, filter_by=pl.col("i") > 2))
def _(m):
    df = mixed(m).fill_null(0.0)
    return lambda kw: chart(PL.plot_pca(df, ["a", "b", "c"], "k", **kw))


@recipe("plots.plot_prob_calibration", dict(n_bins=4))
def _(m):
    y = m.rng.integers(0, 2, 60)
    p = m.rng.uniform(0, 1, 60)
    return lambda kw: chart(PL.plot_prob_calibration(target=y, score=p, name="s", **kw))


@recipe("plots.plot_roc_auc", dict(show_auc=False, estimator_name="E", n_decimals=2))
def _(m):
    y = m.rng.integers(0, 2, 60)
    p = m.rng.uniform(0, 1, 60)
    return lambda kw: chart(PL.plot_roc_auc(target=y, pred=p, name="s", **kw))


def points(m):
    n = int(m.pick(10, 30))
    X = np.round(m.rng.normal(0, 1, (n, 2)), 4) * float(m.pick(1, 1, 1e4))
    return X, np.round(X @ [1.0, -2.0] + 1.5 + m.rng.normal(0, 0.3, n), 4), np.round(m.rng.normal(0, 1, (4, 2)), 4)


@recipe("linear_models.LR.__init__", dict(has_bias=True, lambda_=0.5, solver="svd", feature_names_in_=["u", "v"]))
def _(m):
    X, y, Q = points(m)

    def go(kw):
        r = LR(**kw).fit(X, y)
        return [r.coeffs().tolist(), r.bias(), r.predict(Q).tolist(), repr(r)]
    return go


@recipe("linear_models.ElasticNet.__init__", dict(has_bias=True, tol=0.3, max_iter=2, feature_names_in_=["u", "v"]))
def _(m):
    X, y, Q = points(m)

    def go(kw):
        r = ElasticNet(l1_reg=0.2, l2_reg=0.1, **kw).fit(X, y)
        return [r.coeffs().tolist(), r.bias(), r.predict(Q).tolist(), repr(r)]
    return go


@recipe("linear_models.OnlineLR.__init__", dict(lambda_=0.5, has_bias=True))
def _(m):
    X, y, Q = points(m)

    def go(kw):
        r = OnlineLR(**kw).fit(X, y.reshape(-1, 1))
        return [r.coeffs().tolist(), r.bias(), r.predict(Q).tolist(), r.inv().tolist()]
    return go


@recipe("linear_models.OnlineLR.update", dict(c=-1.0))
def _(m):
    X, y, Q = points(m)

    def go(kw):
        r = OnlineLR().fit(X, y.reshape(-1, 1))
        r.update(X[0] * 2, float(y[0]), **kw)
        return [r.coeffs().tolist(), r.inv().tolist()]
    return go


for _cls in (LR, ElasticNet):
    _args = {} if _cls is LR else dict(l1_reg=0.1, l2_reg=0.1)

    @recipe(f"linear_models.{_cls.__name__}.from_values", dict(bias=2.0, feature_names_in_=["u", "v"]))
    def _(m, _cls=_cls):
        Q = points(m)[2]

        def go(kw):
            r = _cls.from_values([1.5, -2.0], **kw)
            return [r.coeffs().tolist(), r.bias(), r.predict(Q).tolist(), repr(r)]
        return go

    @recipe(f"linear_models.{_cls.__name__}.fit", dict(null_policy="skip"))
    def _(m, _cls=_cls, _args=_args):
        X, y, Q = points(m)
        X = X.copy()
        X[1, 0] = np.nan

        def go(kw):
            r = _cls(**_args).fit(X, y, **kw)
            return [r.coeffs().tolist(), r.bias()]
        return go

    @recipe(f"linear_models.{_cls.__name__}.fit_df", dict(null_policy="zero"))
    def _(m, _cls=_cls, _args=_args):
        df = mixed(m)

        def go(kw):
            r = _cls(**_args).fit_df(df, ["a", "c"], "b", **kw)
            return [r.coeffs().tolist(), r.bias()]
        return go

    @recipe(f"linear_models.{_cls.__name__}.predict_df", dict(name="other"))
    def _(m, _cls=_cls, _args=_args):
        df = mixed(m)
        r = _cls(**_args).fit_df(df, ["c", "i"], "b")
        return lambda kw: rows(r.predict_df(df, **kw))


@recipe("spatial.KDTree.__init__", dict(distance="l1"))
def _(m):
    X, y, Q = points(m)

    def go(kw):
        a, b = KDTree(X, **kw).knn(Q, 3)
        return [a.tolist(), b.tolist()]
    return go


@recipe("spatial.KDTree.knn", dict(epsilon=0.5, max_dist_bound=0.2, parallel=True))
def _(m):
    X, y, Q = points(m)
    t = KDTree(X, distance="l2")

    def go(kw):
        a, b = t.knn(Q, 3, **kw)
        return [a.tolist(), b.tolist()]
    return go


@recipe("spatial.KDTree.within", dict(sort=True, return_dist=True, parallel=True))
def _(m):
    X, y, Q = points(m)
    t = KDTree(X)
    return lambda kw: repr(t.within(Q, 2.0, **kw))


@recipe("spatial.KDTree.within_count", dict(parallel=True))
def _(m):
    X, y, Q = points(m)
    t = KDTree(X)
    return lambda kw: t.within_count(Q, 2.0, **kw).tolist()


@case("P31", quick=2 * len(RECIPES), thorough=40 * len(RECIPES))
def methods(m):
    """Models, trees, pipelines, reports, plots and samples: an option left out is the option at its published default."""
    key, fn, more = RECIPES[m.i % len(RECIPES)]
    alts = more[0]
    m.note(key=key)
    m.seen(key)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        go = fn(m)
        base = {p: v for p, v in alts.items() if m.chance(0.25)}
        plain = outcome(lambda: go(dict(base)))
        m.note(base=base, plain=str(plain[0])[:200])
        for p in options(key):
            if p not in alts:
                continue
            rest = {k: v for k, v in base.items() if k != p}
            a = outcome(lambda: go(dict(rest)))
            b = outcome(lambda: go({**rest, p: default(key, p)}))
            m.seen(key, p)
            same(m, {}, f"{key}:{p}", ([a[0]], a[1]), ([b[0]], b[1]))
            c = outcome(lambda: go({**rest, p: alts[p]}))
            if (c[1] is None) != (a[1] is None) or a[1] is None and repr(a[0]) != repr(c[0]):
                m.seen("matters", key, p)
            else:
                m.seen("alike", key, p, repr(a[1])[:60], repr(c[1])[:60])


OLD = {"lin_reg": "query_lstsq", "lin_reg_w_rcond": "query_lstsq_w_rcond", "recursive_lin_reg": "query_recursive_lstsq",
       "rolling_lin_reg": "query_rolling_lstsq", "lin_reg_report": "query_lstsq_report"}
RENAMED = [n for n in NAMES if any(n.startswith(k) for k in OLD)]


class Renamer:
    def __init__(self, mod):
        self.mod = mod

    def __getattr__(self, fn):
        f, key = getattr(self.mod, OLD.get(fn, fn)), f"expr_linear.{OLD.get(fn)}"

        def call(*a, **k):
            # the old names do not have the options added since
            known = {p[0] for p in TABLE[key]} if key in TABLE else k
            if any(p not in known for p in k):
                raise Inconclusive("an option the old name does not have")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return f(*a, **k)
        return call


@case("P31", quick=6 * len(RENAMED), thorough=100 * len(RENAMED))
def old_names(m):
    """The former names of the regressions are the same functions."""
    name = RENAMED[m.i % len(RENAMED)]
    e, n = C.ENTRIES[name], int(m.pick(5, 12, 30))
    df, seed = C.to_df(C.plain(m.rng, n)), int(m.rng.integers(1 << 30))
    m.note(entry=name, rows=n, seed=seed, f0=df["f0"].to_list())
    m.seen(name)
    keep = C.L
    try:
        new = C.make(name, seed)
        C.L = Renamer(keep)
        old = C.make(name, seed)
    finally:
        C.L = keep
    same(m, e, f"{name}:old-name", ask(df, lambda: new), ask(df, lambda: old))


COLUMNS = [("impute", ()), ("scale", ()), ("robust_scale", (0.2, 0.8)), ("center", ()), ("winsorize", ()), ("select", ()), ("drop", ()), ("one_hot_encode", ()),
           ("target_encode", ("t",)), ("woe_encode", ("t",)), ("iv_encode", ("t",))]


@case("P31", quick=8 * len(COLUMNS), thorough=120 * len(COLUMNS))
def columns(m):
    """The columns of a pipeline step given as names, as a list, as pl.col or as a selector are the same columns."""
    step, more = COLUMNS[m.i % len(COLUMNS)]
    df = mixed(m)
    if step.endswith("_encode"):
        which = m.pick(["k"], ["k", "g"])
    else:
        which = m.pick(["a"], ["a", "c"], ["b", "a", "c"])
    if step == "select":
        which = which + ["y"]
    m.note(step=step, which=which, a=df["a"].to_list())
    m.seen(step, len(which))
    ways = {"list": which, "selector": cs.by_name(*which), "pl.col": pl.col(which), "cols": [pl.col(c) for c in which], "tuple": tuple(which)}
    if len(which) == 1:
        ways.update(name=which[0], expr=pl.col(which[0]))
    out = {}
    for k, v in ways.items():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = outcome(lambda: rows(getattr(Blueprint(df, name="p", target="y"), step)(v, *more).materialize().transform(df)))
        out[k] = got
    m.calls += len(ways)
    ref = out["selector"]
    m.ok(ref[1] is None, f"{step}:refused", lambda: repr(ref[1]))
    for k, got in out.items():
        m.seen("way", step, k, got[1] is None)
        if got[1] is None:      # not every way is accepted by every step
            d = agree({}, [got[0]], [ref[0]], 1e-9)
            m.ok(d is None, f"{step}:columns-as-{k}", lambda: f"{d}: {str(got)[:300]} / {str(ref)[:300]}")
