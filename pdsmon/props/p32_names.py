"""P32: what the columns are called changes nothing but names.

The catalogue is run twice on the same data: with its own column names, and with names taken from the words the library itself uses
(every string constant in its sources), empty names, digits, spaces, quotes, non-ASCII. Values must agree, and names must be those given."""
import ast, json, os, re, tempfile, types, warnings
import altair as alt
import polars as pl
import polars_ds as pds
from polars_ds.modeling import transforms as TR
from polars_ds.modeling.pipeline import Blueprint, Pipeline
from polars_ds.sample_and_split import sample_and_split as SS
from polars_ds.partition.partition import PartitionHelper
from polars_ds.eda.diagnosis import DIA
from polars_ds.eda import plots as PL
from polars_ds.linear_models import LR, ElasticNet
from polars_ds.exprs.metrics import calculate_ndcg
from pdsmon import catalog as C
from pdsmon.core import case, Inconclusive
from pdsmon.props.p24_context import agree, outcome
from pdsmon.props.p31_short import mixed

NAMES = sorted(C.ENTRIES)


class Names(ast.NodeTransformer):
    def visit_Constant(self, node):
        if isinstance(node.value, str) and node.value in C.SCHEMA:
            return ast.copy_location(ast.Call(ast.Name("_called", ast.Load()), [node], []), node)
        return node


class Called(str):
    """a column's new name"""


class Formulas:
    """The regressions read a string as an SQL expression: there, a column of any name is written pl.col(name)."""

    def __getattr__(self, fn):
        f = getattr(C.L, fn)
        turn = lambda v: pl.col(str(v)) if isinstance(v, Called) else [turn(x) for x in v] if isinstance(v, list) else v
        return lambda *a, **k: f(*[turn(v) for v in a], **{p: turn(v) for p, v in k.items()})


CODE = compile(ast.fix_missing_locations(Names().visit(ast.parse(open(C.__file__).read()))), "renamed_catalogue", "exec")


def renamed(names):
    """the catalogue, over columns of these names"""
    mod = types.ModuleType("renamed_catalogue")
    mod.__dict__["_called"] = lambda c: Called(names[c])
    exec(CODE, mod.__dict__)
    mod.L = Formulas()
    return mod


def dictionary():
    """the words the library uses"""
    root, out = os.environ.get("PDS_REPO", "/repo"), set()
    for top, ext in (("src", ".rs"), ("python/polars_ds", ".py")):
        for d, _, files in os.walk(os.path.join(root, top)):
            for f in files:
                if not f.endswith(ext):
                    continue
                text = open(os.path.join(d, f), encoding="utf-8").read()
                if ext == ".py":
                    for node in ast.walk(ast.parse(text)):
                        if isinstance(node, ast.Constant) and isinstance(node.value, str):
                            out.add(node.value)
                else:
                    out.update(re.findall(r'"([^"\\\n]*)"', text))
    return sorted(w for w in out if w and len(w) <= 16 and not w.startswith("^") and w != "*" and "\n" not in w)


FIXED = ["", " ", "0", "1", "2", "-1", "0.5", "literal", "len", "count", "cnt", "index", "idx", "row", "value", "values", "x", "y", "l", "r", "w", "target", "weights", "actual", "predicted", "pred", "resid",
         "threshold", "tp", "fp", "alpha", "beta", "cond_p", "to", "brk", "breakpoint", "category", "s1", "s2", "ob", "ex", "E[freq]", "baseline", "baseline_pct", "psi_bin", "features", "coeffs",
         "lr_pred", "__id", "__tt", "__index__", "__output__", "a b", "a\"b", "a'b", "a.b", "a*b", "a|b", "é", "日本", "😀", "null", "None", "true", "NaN", "element", "field", "struct", "name",
         "column", "corr", "f0", "y0", "k", "n", "c", "\t", "a\nb", "select", "x0", "x1", "x2", "p", "ref", "i", "n_samples", "key", "rank", "discount", "left", "right", "count_right",
         "target_right", "_", "__", "$x", "(x)", "[x]", "{x}", "%", "\\", "/", "UPPER", "Upper"]
WORDS = dictionary()


def hostile(m, cols):
    pool = FIXED if m.chance(0.6) else WORDS
    out = []
    while len(out) < len(cols):
        w = pool[int(m.rng.integers(len(pool)))]
        if w not in out:
            out.append(w)
    return dict(zip(cols, out))


def used(name, seed):
    """the columns of the table an entry reads"""
    return sorted(set(C.make(name, seed).meta.root_names()) & set(C.SCHEMA))


def inner(t):
    """names of the fields inside a type, in order"""
    if isinstance(t, pl.Struct):
        return [x for f in t.fields for x in [f.name] + inner(f.dtype)]
    return inner(t.inner) if isinstance(t, (pl.List, pl.Array)) else []


def unkeyed(v, names=None):
    if isinstance(v, dict):
        if isinstance(v.get("features"), str):        # a report names the columns it is about
            v = {**v, "features": (names or {}).get(v["features"], v["features"])}
        return [unkeyed(x, names) for x in v.values()]
    return [unkeyed(x, names) for x in v] if isinstance(v, (list, tuple)) else v


# fields of a result that also has a field for a column of the call
LAYOUT = {"chi2_full": {"E[freq]", "statistic", "pvalue", "dof"}, "query_knn_freq_cnt": {"count"}, "query_radius_freq_cnt": {"count"}}


def coarse(v):
    return [coarse(x) for x in v] if isinstance(v, list) else f"{v:.6g}" if isinstance(v, float) else v


def settled(v, top=True):
    """an order for what comes in no particular order, not swayed by rounding"""
    return sorted([settled(x, False) for x in v], key=lambda x: str(coarse(x))) if isinstance(v, list) and (top or v and isinstance(v[0], list)) else v


# names of results, and words in them, are compared after the names given
def put(v, names):
    if isinstance(v, dict):
        return {put(k, names): put(x, names) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [put(x, names) for x in v]
    if isinstance(v, str):
        return re.sub("¤[a-z0-9]+¤", lambda k: names.get(k[0], k[0]), v)
    return v


@case("P32", quick=3 * len(NAMES), thorough=40 * len(NAMES))
def expressions(m):
    name = NAMES[m.i % len(NAMES)]
    e, n = C.ENTRIES[name], 0
    n = int(m.pick(*((3, 8) if e.get("small") else (8, 20, 40))))
    seed = int(m.rng.integers(1 << 30))
    cols = C.plain(m.rng, n)
    df = C.to_df(cols)
    roots = used(name, seed)
    ctx = m.pick("select", "select", "agg", "over", "with_columns")
    if ctx in ("over", "with_columns") and e["shape"] == "vec":
        ctx = "agg"
    if name in ("psi", "psi_report"):
        ctx = "select"                                # Polars loses the struct fields psi reads inside groups
    if e.get("rand") and ctx in ("agg", "over"):
        ctx = "select"
    m.note(entry=name, rows=n, seed=seed, context=ctx, f0=cols["f0"])
    m.seen(name, ctx)

    def run(x, frame, by):
        if ctx == "select":
            return frame.select(x)
        if ctx == "agg":
            return frame.group_by(by, maintain_order=True).agg(x.alias("¤out¤"))
        if ctx == "over":
            return frame.select(x.over(by).alias("¤out¤"))
        return frame.with_columns(x.alias("¤out¤")).select("¤out¤")
    want, err = outcome(lambda: run(C.make(name, seed), df, "l0"))
    for trial in range(4):
        more = [c for c in C.SCHEMA if c not in roots]
        names = hostile(m, roots + more)
        m.note(names={c: names[c] for c in roots + ["l0"]})
        x = renamed(names).make(name, seed)
        got, bad = outcome(lambda: run(x, df.rename(names), names["l0"]))
        m.calls += 1
        if err is not None:
            m.ok(bad is not None, f"{name}:only-refused-by-name", lambda: f"{err!r:.200}")
            m.observed += 1
            continue
        if bad is not None and LAYOUT.get(name, set()) & {names[c] for c in roots}:
            continue                                  # two fields of one result would have the same name
        m.ok(bad is None, f"{name}:refused-by-name", lambda: f"{names} {bad!r:.400}")
        m.seen("word", *[names[c] for c in roots][:1])
        if ctx == "select":
            a, b = want.columns[0], got.columns[0]
            m.ok(b == (names[a] if a in roots else a) or b == a, f"{name}:output-name", lambda: f"{a!r} became {b!r} under {names}")
        p, q = want[:, -1].to_list(), got[:, -1].to_list()
        fields = list(zip(inner(want[:, -1].dtype), inner(got[:, -1].dtype)))
        m.ok(all(a == b or names.get(a) == b for a, b in fields), f"{name}:field-names", lambda: f"{fields} under {names}")
        p, q = unkeyed(p, names), unkeyed(q)
        if e.get("unordered"):
            p, q = settled(p), settled(q)
        d = agree(dict(e, unordered=False), p, q, 1e-9, 1e-12)
        m.observed += 1
        m.ok(d is None, f"{name}:values-depend-on-names", lambda: f"{d}: {names} {str(p)[:200]} / {str(q)[:200]}")


# ---- pipelines, samples, partitions, reports, models: n(column) is what the column is called
WAYS = {}


def way(*taken):
    """`taken`: names that are part of the result's own layout, or documented as reserved"""
    def deco(fn):
        WAYS[fn.__name__] = (fn, set(taken))
        return fn
    return deco


def step(name, go, taken=()):
    def fn(df, n):
        bp = go(Blueprint(df, name="p", target=n("y")), n)
        p = bp.materialize()
        q = Pipeline.from_json_str(p.to_json())
        return [frame(p.transform(df)), frame(q.transform(df))]
    fn.__name__ = "step_" + name
    way(*taken)(fn)


def frame(df):
    df = df.collect() if isinstance(df, pl.LazyFrame) else df
    return [df.columns, [str(t) for t in df.dtypes], [list(r) for r in df.rows()]]


def by_value(df):
    """rows in no particular order"""
    cols, types_, rows = frame(df)
    return ["unordered", cols, types_, [dict(zip(cols, r)) for r in rows]]


step("scale", lambda b, n: b.scale([n("a"), n("c")], method="standard"))
step("robust_scale", lambda b, n: b.robust_scale([n("a"), n("c")], 0.2, 0.8))
step("center", lambda b, n: b.center([n("a"), n("i")]))
step("impute", lambda b, n: b.impute([n("a"), n("b")], method="median"))
step("linear_impute", lambda b, n: b.linear_impute([n("c"), n("i")], target=n("a"), add_bias=True))
step("conditional_impute", lambda b, n: b.conditional_impute({n("a"): pl.col(n("c")) > 1.0}, method="mean"))
step("winsorize", lambda b, n: b.winsorize([n("a"), n("c")], q_low=0.1, q_high=0.8))
step("polynomial_features", lambda b, n: b.polynomial_features([n("a"), n("b"), n("c")], 2, interaction_only=False), ("", "a*b"))
step("one_hot_encode", lambda b, n: b.one_hot_encode([n("k"), n("g")], drop_first=True))
step("rank_hot_encode", lambda b, n: b.rank_hot_encode(n("k"), ["x", "y", "z"]))
step("target_encode", lambda b, n: b.target_encode([n("k"), n("g")], min_samples_leaf=3, smoothing=2.0))
step("woe_encode", lambda b, n: b.woe_encode([n("k")]))
step("iv_encode", lambda b, n: b.iv_encode([n("k")]))
step("nan_to_null", lambda b, n: b.nan_to_null())
step("int_to_float", lambda b, n: b.int_to_float())
step("cast_bools", lambda b, n: b.cast_bools())
step("select", lambda b, n: b.select(pl.col([n("c"), n("a"), n("y")])))
step("drop", lambda b, n: b.drop([n("c"), n("i")]))
step("rename", lambda b, n: b.rename({n("c"): n("new"), n("i"): n("other")}))
step("swap", lambda b, n: b.rename({n("c"): n("i"), n("i"): n("c")}))
step("filter", lambda b, n: b.filter(pl.col(n("c")) > 1.0))
step("with_columns", lambda b, n: b.append_expr((pl.col(n("c")) + pl.col(n("i"))).alias(n("new"))))
step("chain", lambda b, n: b.filter(pl.col(n("c")) > 0.2).impute([n("a"), n("b")], method="mean").scale([n("a"), n("b")], method="min_max")
     .linear_impute([n("c"), n("i")], target=n("a")).target_encode([n("k")]).one_hot_encode([n("g")]).int_to_float())


for _n, _a in (("impute", lambda df, n: ([n("a"), n("b")],)), ("scale", lambda df, n: ([n("a"), n("c")],)), ("linear_impute", lambda df, n: ([n("c"), n("i")], n("a"))),
               ("target_encode", lambda df, n: ([n("k")], n("y"))), ("woe_encode", lambda df, n: ([n("k")], n("y"))), ("iv_encode", lambda df, n: ([n("k")], n("y"))),
               ("one_hot_encode", lambda df, n: ([n("k"), n("g")],)), ("polynomial_features", lambda df, n: ([n("a"), n("b")], 2))):
    def _go(df, n, _n=_n, _a=_a):
        lead = () if _n == "polynomial_features" else (df,)
        return frame(df.select(getattr(TR, _n)(*lead, *_a(df, n))))
    _go.__name__ = "transforms_" + _n
    way()(_go)


@way()
def blueprint_roles(df, n):
    p = Blueprint(df, name="p", target=n("y"), exclude=[n("row")]).int_to_float().scale([n("a")]).materialize()
    x, y = p.transform(df, separate=True)
    return [frame(x), frame(y), ["unordered", list(p.feature_names_in_)]]


@way("__id", "__tt")
def split_by_ratio(df, n):
    return {str(k): frame(v) for k, v in dict(enumerate(SS.split_by_ratio(df, [0.2, 0.3, 0.5], seed=3))).items()}


@way("__id", "__tt")
def split_in_two(df, n):
    return [frame(x) for x in SS.split_by_ratio(df, 0.3, seed=3)]


@way()
def sampled(df, n):
    return [frame(SS.sample(df, 0.4, seed=2)), frame(SS.sample(df, 7, seed=2))]


@way()
def volume_neutral(df, n):
    return by_value(SS.volume_neutral(df, pl.col(n("i")), seed=5)), by_value(SS.volume_neutral(df, pl.col(n("i")), control=pl.col(n("t")), seed=5))


@way()
def downsample(df, n):
    return by_value(SS.downsample(df, (pl.col(n("k")) == "x", 0.5), (pl.col(n("i")) > 3, 3), seed=4))


@way()
def partition(df, n):
    p = PartitionHelper(df, by=[n("k"), n("t")])
    return [["unordered", sorted(p.names())], {k: by_value(p.get(k)) for k in p.names()}]


@way()
def lr_frames(df, n):
    r = LR(has_bias=True).fit_df(df, [n("c"), n("i")], n("b"), null_policy="skip")
    return [r.coeffs().tolist(), r.bias(), frame(r.predict_df(df, name="¤pred¤"))]


@way()
def enet_frames(df, n):
    r = ElasticNet(l1_reg=0.1, l2_reg=0.1, has_bias=True).fit_df(df, [n("c"), n("i")], n("b"), null_policy="skip")
    return [r.coeffs().tolist(), r.bias(), frame(r.predict_df(df, name="¤pred¤"))]


@way("_group", "_relevance", "_score")
def ndcg(df, n):
    d = df.filter(pl.col(n("k")).is_not_null() & pl.col(n("i")).is_not_null() & pl.col(n("c")).is_not_null()).with_columns(pl.col(n("i")) % 4)
    return [calculate_ndcg(d, n("i"), n("c"), n("k"), k=k, ignore_ties=t).item() for k in (None, 3) for t in (False, True)]


def report(name, go, taken=()):
    def fn(df, n):
        out = go(DIA(df), n)
        out = out.collect() if isinstance(out, pl.LazyFrame) else out
        return by_value(out) if isinstance(out, pl.DataFrame) else ["unordered", list(out)]
    fn.__name__ = "report_" + name
    way(*taken)(fn)


report("numeric_profile", lambda d, n: d.numeric_profile(gt=False))
report("special_values", lambda d, n: d.special_values_report())
report("null_corr", lambda d, n: d.null_corr())
report("str_stats", lambda d, n: d.str_stats())
report("corr", lambda d, n: d.corr([n("a"), n("b"), n("c")]), ("column",))
report("infer_prob", lambda d, n: d.infer_prob())
report("infer_high_null", lambda d, n: d.infer_high_null(0.5))
report("infer_discrete", lambda d, n: d.infer_discrete())
report("infer_const", lambda d, n: d.infer_const())
report("infer_binary", lambda d, n: d.infer_binary())
report("infer_k_distinct", lambda d, n: d.infer_k_distinct(3))
report("infer_corr", lambda d, n: d.infer_corr())
report("infer_dependency", lambda d, n: d.infer_dependency(subset=[n("i"), n("k"), n("t"), n("g")]))
report("row_validation", lambda d, n: d.row_validation((pl.col(n("c")) > 1.0, "pos"), (pl.col(n("i")) < 4, "small"), id_col=n("row"), columns_to_keep=[n("a")], all_reasons=True), ("__reason__",))
report("row_index", lambda d, n: d.row_validation((pl.col(n("c")) > 1.0, "pos")), ("__index__", "__reason__"))
report("col_validation", lambda d, n: d.col_validation((pl.col(n("c")).min() > 1.0, "c is small"), (pl.col(n("a")).null_count() > 0, "a is full"), (pl.col(n("i")).max() > 90, "i is small")))


def data(c):
    """the tables behind a chart"""
    with alt.data_transformers.enable("default", max_rows=None):
        return sorted((["unordered", [list(r.values()) for r in t]] for t in c.to_dict().get("datasets", {}).values()), key=str)


@way("", "*")
def plot_distr(df, n):
    return [data(DIA(df).plot_feature_distr(n("c"))), data(DIA(df).plot_feature_distr(n("c"), over=n("k"), min_=0.3)), data(PL.plot_feature_distr(df=df, feature=n("c")))]


ORDER = sorted(WAYS)


def like(a, b):
    """None, or where two results differ; parts marked unordered are compared as sets of rows"""
    if isinstance(a, list) and a and a[0] == "unordered" and isinstance(b, list):
        a, b = ([*v[:-1], sorted(v[-1], key=lambda r: repr(sorted(r.items(), key=str) if isinstance(r, dict) else r))] for v in (a, b))
        return agree({}, a[1:-1], b[1:-1]) or agree({}, [rounded(x) for x in a[-1]], [rounded(x) for x in b[-1]])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{sorted(a)} / {sorted(b)}"
        return next((d for k in a for d in [like(a[k], b[k])] if d), None)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{len(a)} against {len(b)}"
        return next((d for x, y in zip(a, b) for d in [like(x, y)] if d), None)
    return agree({}, [a], [b], 1e-9, 1e-12)


def rounded(r):
    return sorted(r.items()) if isinstance(r, dict) else r


@case("P32", quick=6 * len(ORDER), thorough=80 * len(ORDER))
def frames(m):
    """Steps of pipelines, samples, partitions, reports and models."""
    which = ORDER[m.i % len(ORDER)]
    fn, taken = WAYS[which]
    df = mixed(m)
    plain = {c: f"¤{c}¤" for c in df.columns + ["new", "other"]}
    m.note(which=which, rows=df.height, a=df["a"].to_list())
    m.seen(which)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want, err = outcome(lambda: fn(df.rename({c: plain[c] for c in df.columns}), plain.__getitem__))
        m.seen(which, err is None)
        for _ in range(3):
            names = hostile(m, list(plain))
            if taken & set(names.values()) or which.startswith("plot") and set(":\\[].") & set("".join(names.values())):
                continue                              # (these mean something to Altair)
            m.note(names=names)
            got, bad = outcome(lambda: fn(df.rename({c: names[c] for c in df.columns}), names.__getitem__))
            m.calls += 1
            m.observed += 1
            m.ok((bad is None) == (err is None), f"{which}:refused-by-name", lambda: f"{names} {bad!r:.400} / {err!r:.200}")
            if err is None:
                d = like(put(want, {plain[c]: names[c] for c in plain}), put(got, {}))
                m.ok(d is None, f"{which}:depends-on-names", lambda: f"{d}: {names} {str(want)[:200]} / {str(got)[:200]}")
