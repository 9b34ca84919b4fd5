"""P21: a fitted pipeline applies each step with what was learned from the training data, and nothing else."""
import math
import polars as pl
import numpy as np
from polars_ds.modeling.pipeline import Blueprint
from pdsmon.core import case, Inconclusive
from pdsmon import pipegen as G


def f32_anywhere(b):
    return any(x.f32 for x in b["S"].values()) or "int_to_float" in b["labels"]


def check(m, b):
    S, T, train, test = b["S"], b["T"], b["train"], b["test"]
    before = train.clone(), test.clone()
    if "int_to_float" in b["labels"]:
        for s in (S, T):
            for x in s.values():
                if x.kind == "float":
                    x.f32 = True                      # single precision may have entered any column
    pipe = m.call("materialize", b["bp"].materialize)
    m.eq(pipe.feature_names_in_, b["feats_in"], "pipeline:features_in")
    m.eq(pipe.feature_names_out_, list(S), "pipeline:features_out")
    lazy_in, lazy_out = m.chance(0.5), m.chance(0.5)

    def run(p, df, **k):
        out = p.transform(df.lazy() if lazy_in else df, **k)
        return out
    got = m.call("transform", lambda: run(pipe, train, return_lazy=lazy_out))
    m.eq(isinstance(got, pl.LazyFrame), lazy_out, "pipeline:laziness")
    G.compare(m, m.call("transform", lambda: got.lazy().collect()), S, "pipeline:train")
    G.compare(m, m.call("transform", lambda: run(pipe, test)), T, "pipeline:unseen")
    m.ok(train.equals(before[0], null_equal=True) and test.equals(before[1], null_equal=True), "pipeline:input_changed")
    k = m.pick("blueprint", "separate", "ensure", "again", "fit")
    m.seen("then", k)
    if k == "blueprint":
        G.compare(m, m.call("transform", lambda: b["bp"].transform(test)), T, "blueprint:transform")
    elif k == "again":
        p2 = m.call("materialize", b["bp"].materialize)
        G.compare(m, m.call("transform", lambda: run(p2, test)), T, "pipeline:again")
        G.compare(m, m.call("transform", lambda: run(pipe, test)), T, "pipeline:reuse")
    elif k == "fit":
        p2 = m.call("fit", lambda: b["bp"].fit(train))
        G.compare(m, m.call("transform", lambda: run(p2, test)), T, "pipeline:fit")
    elif k == "separate":
        t = b["kw"].get("target")
        if t is None or t not in S:
            if t is None:
                e = m.call("separate", lambda: pipe.transform(test, separate=True), expect_error=True)
                m.ok(isinstance(e, ValueError), "separate:no_target", repr(e))
            return
        x, y = m.call("separate", lambda: run(pipe, test, separate=True, return_lazy=lazy_out))
        G.compare(m, x.lazy().collect(), {c: v for c, v in T.items() if c != t}, "separate:features")
        G.compare(m, y.lazy().collect(), {t: T[t]}, "separate:target")
    elif k == "ensure":
        pipe.ensure_features_io()
        G.compare(m, m.call("ensure", lambda: run(pipe, test)), T, "ensure:same")
        order = m.rng.permutation(test.width).tolist()
        extra = test.with_columns(zz=pl.lit(1))
        e = m.call("ensure", lambda: run(pipe, extra).lazy().collect(), expect_error=True)
        m.ok(isinstance(e, ValueError), "ensure:extra", repr(e)[:200])
        e = m.call("ensure", lambda: run(pipe, test.drop(test.columns[0])).lazy().collect(), expect_error=True)
        m.ok(isinstance(e, ValueError), "ensure:missing", repr(e)[:200])
        pipe.ensure_features_io(ensure_in=False)
        if not any(l.startswith(("drop", "one_hot", "cast", "int_to", "nan", "append select")) for l in b["labels"]):
            G.compare(m, m.call("ensure", lambda: run(pipe, extra[[extra.columns[i] for i in order] + ["zz"]])), T, "ensure:order")


@case("P21", quick=500, thorough=12000)
def random_pipeline(m):
    check(m, G.build(m))


@case("P21", quick=420, thorough=6000)
def single_step(m):
    fn = G.STEPS[int(m.rng.integers(len(G.STEPS)))]
    b = G.build(m, 1, [fn])
    if not b["labels"]:
        raise Inconclusive("no applicable column")
    check(m, b)


@case("P21", quick=150, thorough=2000)
def rowwise(m):
    """Steps that map each row on its own give the same rows for a table and for its pieces."""
    b = G.build(m, 5, [s for s in G.STEPS if s not in (G.select, G.drop)])
    pipe = m.call("materialize", b["bp"].materialize)
    train = b["train"]
    k = int(m.rng.integers(0, train.height + 1))
    whole = m.call("transform", lambda: pipe.transform(train))
    parts = pl.concat([m.call("transform", lambda: pipe.transform(train.slice(0, k))), m.call("transform", lambda: pipe.transform(train.slice(k)))])
    m.eq(whole.schema, parts.schema, "rowwise:schema")
    for c in whole.columns:
        w = whole[c].to_list()
        if whole[c].dtype.is_float():  # polars divides a lone row and a longer column differently in the last bit
            big = max([abs(v) for v in w if v is not None and v == v and abs(v) < 1e300] + [1e-3])
            m.close(parts[c].to_list(), w, "rowwise:split", 1e-6, (1e-5 if whole[c].dtype == pl.Float32 else 1e-9) * big, f"split at {k}, {c}")
        else:
            m.eq(parts[c].to_list(), w, "rowwise:split", f"split at {k}, {c}")


@case("P21", quick=40, thorough=600)
def casts(m):
    """int_to_float, cast_bools and nan_to_null touch exactly the columns of their kind, whatever their width and size."""
    r = m.rng
    n = int(m.pick(1, 3, 8))
    types = [pl.Int8, pl.Int16, pl.Int32, pl.Int64, pl.UInt8, pl.UInt16, pl.UInt32, pl.UInt64]
    lim = {t: (0, 2 ** int(t.__name__[4:]) - 1) if t.__name__[0] == "U" else (-2 ** (int(t.__name__[3:]) - 1), 2 ** (int(t.__name__[3:]) - 1) - 1) for t in types}
    cols = {}
    for i in range(int(r.integers(1, 5))):
        t = types[int(r.integers(8))]
        lo, hi = lim[t]
        cols[f"i{i}"] = pl.Series([None if m.chance(0.2) else m.pick(lo, hi, 0, 1, hi - 1, lo + 1, hi // 3) for _ in range(n)], dtype=t)
    for i in range(int(r.integers(0, 3))):
        cols[f"b{i}"] = pl.Series([m.pick(True, False, None) for _ in range(n)], dtype=pl.Boolean)
    for i in range(int(r.integers(0, 3))):
        cols[f"f{i}"] = pl.Series([m.pick(math.nan, None, math.inf, -0.0, 1e300, 0.1) for _ in range(n)], dtype=m.pick(pl.Float64, pl.Float32))
    cols["s"] = pl.Series(["1"] * n)
    cols["d"] = pl.Series([1] * n).cast(m.pick(pl.Date, pl.Duration, pl.Datetime))
    cols["l"] = pl.Series([[1]] * n)
    cols["z"] = pl.Series([None] * n)
    df = pl.DataFrame([s.alias(c) for c, s in cols.items()])
    df = df.select([df.columns[i] for i in r.permutation(df.width)])
    k = m.pick("f32", "f64", "default", "bools", "bools-to", "nan")
    to = m.pick(pl.Int8, pl.Float64, pl.UInt32, pl.String)
    bp = Blueprint(df.lazy() if m.chance(0.5) else df)
    bp = {"f32": lambda: bp.int_to_float(f32=True), "f64": lambda: bp.int_to_float(f32=False), "default": lambda: bp.int_to_float(),
          "bools": lambda: bp.cast_bools(), "bools-to": lambda: bp.cast_bools(to), "nan": lambda: bp.nan_to_null()}[k]()
    m.note(df=df, k=k, to=to)
    m.seen(k)
    out = m.call("transform", lambda: bp.materialize().transform(df))
    m.eq(out.columns, df.columns, "casts:columns")
    for c in df.columns:
        t, v = df.schema[c], df[c].to_list()
        if k in ("f32", "f64", "default") and t.is_integer():
            t = pl.Float64 if k == "f64" else pl.Float32
            v = [None if x is None else float(x) if k == "f64" else float(np.float32(x)) for x in v]
        elif k.startswith("bools") and t == pl.Boolean:
            t = pl.UInt8 if k == "bools" else to
            v = [None if x is None else ("true" if x else "false") if t == pl.String else (float(x) if t == pl.Float64 else int(x)) for x in v]
        elif k == "nan" and t.is_float():
            v = [None if x is None or math.isnan(x) else x for x in v]
        m.eq(out.schema[c], t, "casts:type", c)
        m.eq(repr(out[c].to_list()), repr(v), "casts:values", c)


@case("P21", quick=80, thorough=1500)
def untaught(m):
    """Where the training column taught nothing (empty, all null, constant, one row), nothing is learned from the new table instead."""
    S = G.make_state(m, int(m.pick(1, 2, 6)), dict(f=3, i=1, b=1, s=1, k=2, nan=False), True)
    how = m.pick("null", "constant", "as is", "empty")
    for c in ("F0", "F1", "I0", "S0", "B0"):
        if m.chance(0.7) and how != "as is":
            v = None if how == "null" else S[c].v[0]
            S[c].v = [v] * len(S[c].v)
    train = G.to_df(S)
    if how == "empty":
        train = train.head(0)
    new = G.to_df(G.make_state(m, int(m.pick(2, 7)), dict(f=3, i=1, b=1, s=1, k=5, nan=False), True))
    num, txt = ["F0", "F1", "I0"], ["S0"]
    steps = {
        "impute": lambda b: b.impute(num, method=m.pick("mean", "median", "mode")), "mode": lambda b: b.impute(txt + num, method="mode"),
        "scale": lambda b: b.scale(num, method=m.pick("standard", "min_max", "abs_max")), "center": lambda b: b.center(num),
        "robust": lambda b: b.robust_scale(num, 0.2, 0.7), "winsorize": lambda b: b.winsorize(num, 0.1, 0.9),
        "conditional": lambda b: b.conditional_impute({"F0": pl.col("F2") > 0, "I0": pl.col("B0")}, method=m.pick("mean", "median", "mode")),
        "linear": lambda b: b.linear_impute(["I0", "F2"], target="F0", add_bias=True), "encode": lambda b: b.target_encode(txt, target="Yt", default="mean"),
        "woe": lambda b: b.woe_encode(txt, target="Yt"), "onehot": lambda b: b.one_hot_encode(txt),
    }
    k = m.pick(*steps)
    m.note(step=k, how=how, train=train.to_dict(as_series=False), new=new.to_dict(as_series=False))
    try:
        pipe = steps[k](Blueprint(train)).materialize()
    except Exception as e:
        m.seen("refused", k, how)
        return
    m.seen("fitted", k, how)
    whole = m.call("transform", lambda: pipe.transform(new))
    for i in range(new.height):
        one = m.call("transform", lambda: pipe.transform(new[i:i + 1]))
        m.eq(one.columns, whole.columns, "untaught:columns")
        for c in whole.columns:
            g, w = one[c].item(), whole[c][i]
            if isinstance(w, float) or isinstance(g, float):
                m.close([g], [w], "untaught:row", 1e-9, 1e-9, f"{c} row {i}")
            else:
                m.eq(g, w, "untaught:row", f"{c} row {i}")


@case("P21", quick=100, thorough=800)
def refused(m):
    """Unusable requests are refused with an error instead of being ignored."""
    df = pl.DataFrame({"a": [1.0, 2.0, 3.0], "s": ["x", "x", "y"], "t": [0, 1, 1]})
    bp = lambda **k: Blueprint(df, **k)
    bad = {
        "impute method": lambda: bp().impute(["a"], method="zzz").materialize(),
        "scale method": lambda: bp().scale(["a"], method="zzz").materialize(),
        "winsorize order": lambda: bp().winsorize(["a"], 0.9, 0.1).materialize(),
        "winsorize range": lambda: bp().winsorize(["a"], -0.1, 0.5).materialize(),
        "robust range": lambda: bp().robust_scale(["a"], 0.5, 1.5).materialize(),
        "one ranking": lambda: bp().rank_hot_encode("s", ["x"]).materialize(),
        "degree": lambda: bp().polynomial_features(["a"], 1).materialize(),
        "no target": lambda: bp().target_encode(["s"]).materialize(),
        "encode numeric": lambda: bp(target="t").target_encode(["a"]).materialize(),
        "one hot numeric": lambda: bp().one_hot_encode(["a"]).materialize(),
        "default": lambda: bp(target="t").woe_encode(["s"], default="zzz").materialize(),
        "missing column": lambda: bp().scale(["zz"]).materialize(),
        "unknown step": lambda: bp().append_step_from_dict({"name": "zzz"}),
        "private step": lambda: bp().append_step_from_dict({"name": "_get_target"}),
        "step args": lambda: bp().append_step_from_dict({"name": "scale", "args": "a"}),
        "step name": lambda: bp().append_step_from_dict({"args": ["a"]}),
    }
    k = m.pick(*bad)
    m.seen(k)
    e = m.call(k, bad[k], expect_error=True)
    m.ok(isinstance(e, Exception), "refused:" + k, lambda: f"{k} was accepted: {e}")
