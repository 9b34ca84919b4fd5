"""P27: nothing the caller passes in is changed, kept or handed out for change."""
import copy, hashlib, os, pickle
import numpy as np
import polars as pl
from polars_ds.eda.diagnosis import DIA
from polars_ds.linear_models import LR, ElasticNet, OnlineLR
from polars_ds.modeling.pipeline import Blueprint, Pipeline
from polars_ds.partition import PartitionHelper
from polars_ds.sample_and_split import sample, volume_neutral, downsample, random_cols, split_by_ratio
from polars_ds.spatial import KDTree
from polars_ds.exprs import num as N, string as Z, expr_knn as K, ts_features as T, expr_linear as L
from pdsmon import catalog as C, pipegen as G
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame
from pdsmon.props.p24_context import agree, outcome

NAMES = sorted(C.ENTRIES)


def buffers(s):
    """every byte a series is made of, chunk by chunk, behind nulls as well"""
    h = hashlib.blake2b(digest_size=12)
    h.update(repr((s.name, str(s.dtype), len(s), s.chunk_lengths(), s.flags, s.null_count())).encode())
    for ch in s.get_chunks():
        if ch.dtype.is_nested():
            h.update(pickle.dumps(ch.to_list()))
            continue
        try:
            for part in ch._get_buffers().values():
                if part is not None:
                    h.update(part.to_numpy().tobytes() if part.dtype != pl.Boolean else pickle.dumps(part.to_list()))
        except Exception:
            h.update(pickle.dumps(ch.to_list()))
    return h.hexdigest()


class Watch:
    """Digests of frames and of the frames they were sliced from."""

    def __init__(self, *frames):
        self.frames = [f for f in frames if f is not None]
        self.before = [self.take(f) for f in self.frames]

    @staticmethod
    def take(f):
        return (tuple(f.columns), f.height, tuple(buffers(f[c]) for c in f.columns))

    def check(self, m, sig):
        for k, (f, b) in enumerate(zip(self.frames, self.before)):
            now = self.take(f)
            m.ok(now == b, sig, lambda: f"frame {k}: columns {[c for c, x, y in zip(f.columns, now[2], b[2]) if x != y] or (now[:2], b[:2])} changed")


def behind_nulls(rng, df):
    """puts values behind nulls, as arithmetic on nullable columns does"""
    out = []
    for c in df.columns:
        s = df[c]
        if s.dtype.is_numeric() and c not in ("u0", "z0", "l0") and rng.random() < 0.3:
            keep = rng.random(len(s)) > 0.15
            s = pl.DataFrame({"a": s, "k": pl.Series(keep)}).select(pl.when("k").then("a").alias(c))[c]
        out.append(s)
    return pl.DataFrame(out)


@case("P27", quick=2 * len(NAMES), thorough=30 * len(NAMES))
def expressions(m):
    """No expression changes the frame it reads, the frame that one is a slice of, or frames sharing its buffers."""
    name = NAMES[m.i % len(NAMES)]
    e = C.ENTRIES[name]
    n = int(m.pick(*((3, 8) if e.get("small") else (1, 4, 9, 30))))
    parent = C.to_df(C.plain(m.rng, n + 4))
    if m.chance(0.5):
        parent = behind_nulls(m.rng, parent)
    how = m.pick("whole", "slice", "chunks")
    df = parent[:n].rechunk() if how == "whole" else parent.slice(2, n)
    if how == "chunks":
        df = frame(m.rng, {c: df[c] for c in df.columns})
    alias = df.clone()
    seed = int(m.rng.integers(1 << 30))
    m.note(entry=name, rows=n, how=how, seed=seed, f0=df["f0"])
    m.seen(name)
    x = C.make(name, seed)
    text = str(x)
    w = Watch(parent, df, alias)
    ctx = m.pick("select", "with_columns", "agg", "over", "lazy")
    if e["shape"] == "vec" and ctx in ("with_columns", "over"):
        ctx = "select"
    f = {"select": lambda: df.select(r=x), "with_columns": lambda: df.with_columns(r=x), "lazy": lambda: df.lazy().filter(pl.col("b0")).select(r=x).collect(),
         "agg": lambda: df.group_by("c0").agg(r=x), "over": lambda: df.with_columns(r=x.over("k0"))}[ctx]
    m.calls += 1
    out, err = outcome(f)
    m.seen(ctx, how, err is None)
    w.check(m, f"{name}:changes-input")
    m.eq(str(x), text, f"{name}:changes-expression")
    if out is not None:                               # what is returned keeps its value when the inputs go on being used
        kept = out["r"].to_list()
        again, _ = outcome(f)
        m.ok(agree(e, out["r"].to_list(), kept) is None, f"{name}:result-not-kept")
        w.check(m, f"{name}:changes-input")


@case("P27", quick=40, thorough=800)
def arguments(m):
    """Python lists, dicts and arrays given as options come back as they were."""
    n = int(m.pick(4, 12, 30))
    df = C.to_df(C.plain(m.rng, n))
    kern, bps, vocab, mapping = [1.0, -2.0, 0.5], [-1.0, 0.0, 2.0], ["kitten", "abc"], {"ab": "x", "some": "any"}
    pt, q, feats, targets = [0.1, 0.2], [1.0, 2.0, 1.5], ["f0", "f1"], ["y0", "f2"]
    ak, aq, ap = np.array(kern), np.array(q), np.array(pt)
    given = (kern, bps, vocab, mapping, pt, q, feats, targets, ak, aq, ap)
    before = copy.deepcopy(given)
    calls = dict(
        convolve=lambda: df.select(N.convolve("f0", kern, mode=m.pick("full", "same", "valid", "left", "right"), method=m.pick("fft", "direct"))),
        convolve_array=lambda: df.select(N.convolve("f0", ak)),
        psi_w_breakpoints=lambda: df.select(N.psi_w_breakpoints("f0", "f1", bps)),
        similar_to_vocab=lambda: df.select(Z.similar_to_vocab("s0", vocab, 0.5)),
        map_words=lambda: df.select(Z.map_words("s0", mapping)),
        is_knn_from=lambda: df.select(K.is_knn_from(*feats, pt=pt, k=2)),
        within_dist_from=lambda: df.select(K.within_dist_from(*feats, pt=pt, r=1.0)),
        query_similar_count=lambda: df.select(T.query_similar_count(q, "f0", 3.0, metric=m.pick("sql2", "sqzl2"))),
        query_similar_count_array=lambda: df.select(T.query_similar_count(aq, "f0", 3.0)),
        lin_reg_multi=lambda: df.select(L.lin_reg(*feats, target=targets)),
        random_cols=lambda: random_cols(feats + targets, 1, keep=feats),
        partition=lambda: PartitionHelper(df, by=["c0", "s1"]).names(),
        sample_ratio=lambda: split_by_ratio(df, [0.5, 0.5]),
        volume=lambda: volume_neutral(df, pl.col("c0"), control=[pl.col("b0")]),
        down=lambda: downsample(df, (pl.col("b0"), 0.5)),
        sample=lambda: sample(df, 0.5),
    )
    k = list(calls)[m.i % len(calls)]
    m.note(call=k, rows=n, f0=df["f0"])
    m.seen(k)
    w = Watch(df)
    m.call(k, lambda: outcome(calls[k]))
    for a, b in zip(given, before):
        same = np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b and type(a) is type(b)
        m.ok(same, f"{k}:changes-argument", lambda: f"{a} was {b}")
    w.check(m, f"{k}:changes-input")


def layout(m, a):
    """the same numbers, in C or Fortran order, as a view into something bigger, writable or not"""
    how = m.pick("c", "f", "view", "rows")
    m.seen("array", how, a.ndim)
    if a.ndim == 1:
        b = np.repeat(a, 2)[::2] if how == "view" else a.copy()
    elif how == "f":
        b = np.asfortranarray(a)
    elif how == "view":
        big = m.rng.normal(size=(a.shape[0], a.shape[1] + 3))
        big[:, 1:1 + a.shape[1]] = a
        b = big[:, 1:1 + a.shape[1]]
    elif how == "rows":
        big = m.rng.normal(size=(a.shape[0] * 2, a.shape[1]))
        big[::2] = a
        b = big[::2]
    else:
        b = a.copy()
    if m.chance(0.5):
        b.flags.writeable = False
    return b


@case("P27", quick=60, thorough=1500)
def arrays(m):
    """Models and trees read the caller's arrays, whatever their layout, without changing them or depending on them later."""
    n, d = int(m.pick(6, 12, 40)), int(m.pick(1, 2, 4))
    A = m.rng.normal(size=(n, d))
    y = A @ np.arange(1, d + 1) + 0.3 * m.rng.normal(size=n) + 1
    Q = m.rng.normal(size=(5, d))
    kind = m.pick("lr", "ridge", "enet", "online", "kdtree", "lr-nan")
    pol = "ignore"
    if kind == "lr-nan":
        A[int(m.rng.integers(n)), int(m.rng.integers(d))] = np.nan
        pol = m.pick("skip", "zero", "one", "0.5")
    X, Y, q = layout(m, A), layout(m, m.pick(y, y.reshape(-1, 1))), layout(m, Q)
    bases = [v if v.base is None else v.base for v in (X, Y, q)]
    before = [b.tobytes() for b in bases]
    m.note(kind=kind, X=A, y=y, Q=Q)
    m.seen(kind)

    def ask(mod, q):
        if kind == "kdtree":
            i, dd = mod.knn(np.ascontiguousarray(q), 3)
            return np.asarray(i).tolist(), np.asarray(dd).tolist()
        return mod.predict(q).tolist()

    def build(X, Y):
        if kind == "kdtree":
            return KDTree(X, distance="l2")
        bias = True
        if kind == "enet":
            return ElasticNet(0.01, 0.02, has_bias=bias).fit(X, Y)
        if kind == "online":
            Y2 = np.reshape(Y, (-1, 1))
            o = OnlineLR(has_bias=bias).fit(X[:-2], Y2[:-2])
            for r in (-2, -1):
                o.update(X[r], Y2[r])
            return o
        return LR(has_bias=bias, lambda_=0.1 if kind == "ridge" else 0.0).fit(X, Y, null_policy=pol)
    mod = m.call(kind, lambda: build(X, Y))
    want = m.call(kind, lambda: ask(mod, q))
    for b, was, nm in zip(bases, before, "XYq"):
        m.ok(b.tobytes() == was, f"{kind}:changes-array", nm)
    ref = m.call(kind, lambda: ask(build(np.ascontiguousarray(A), y.copy()), np.ascontiguousarray(Q)))
    m.close(np.ravel(np.array(want[-1] if kind == "kdtree" else want, dtype=float)),
            np.ravel(np.array(ref[-1] if kind == "kdtree" else ref, dtype=float)), f"{kind}:array-layout", rtol=1e-7, atol=1e-8)
    if kind == "kdtree":
        m.eq(want[0], ref[0], "kdtree:array-layout") if d > 1 or True else None
    X2, Y2 = np.array(A), np.array(y)                 # writable copies of the caller's
    mod = build(X2, Y2)
    want = ask(mod, Q)
    X2[:], Y2[:] = 7e5, -3e5
    m.eq(ask(mod, Q), want, f"{kind}:depends-on-array-afterwards")
    if kind != "kdtree":
        c = mod.coeffs()
        try:
            c[:] = 123.0
        except ValueError:
            pass
        if kind == "online":
            try:
                mod.inv()[:] = 5.0
            except ValueError:
                pass
        m.eq(ask(mod, Q), want, f"{kind}:hands-out-its-state")


@case("P27", quick=30, thorough=500)
def named_models(m):
    """Fitting on a frame leaves the frame and the list of names alone, including the model's own list."""
    n = int(m.pick(8, 20))
    df = behind_nulls(m.rng, C.to_df(C.plain(m.rng, n)))
    feats = [["f0", "f1"], ["f0"], ["f2", "h0", "t0"]][int(m.rng.integers(3))]
    src = df.lazy() if m.chance(0.3) else df
    mod = LR(has_bias=m.chance(0.5)) if m.chance(0.6) else ElasticNet(0.01, 0.1, has_bias=m.chance(0.5))
    pol = m.pick("skip", "zero", "one")
    m.note(feats=feats, rows=n, f0=df["f0"], pol=pol)
    given = list(feats)
    w = Watch(df)
    m.call("fit_df", lambda: mod.fit_df(src, given, "y0", null_policy=pol))
    m.eq(given, feats, "fit_df:changes-argument")
    names = mod.feature_names_in_
    first = m.call("predict_df", lambda: mod.predict_df(src).lazy().collect())
    how = m.pick("refit", "set", "other-list")
    m.seen(how, type(mod).__name__)
    if how == "refit":
        m.call("fit_df", lambda: mod.fit_df(src, mod.feature_names_in_, "y0", null_policy=pol))
    elif how == "set":
        m.call("set_input_features", lambda: mod.set_input_features(mod.feature_names_in_))
    else:
        given.append("zz")
    m.eq(list(mod.feature_names_in_), feats, f"{how}:loses-feature-names")
    m.eq(list(names), feats, f"{how}:changes-argument")
    second = m.call("predict_df", lambda: mod.predict_df(src).lazy().collect())
    m.close(second["prediction"], first["prediction"].to_list(), f"{how}:prediction", rtol=1e-9, atol=1e-9)
    w.check(m, "models:changes-input")


@case("P27", quick=40, thorough=800)
def pipelines(m):
    """Fitting and transforming leave the training and the new data alone; a pipeline is not changed by use."""
    b = G.build(m, 5)
    train, test = b["train"], b["test"]
    w = Watch(train, test)
    pipe = m.call("materialize", b["bp"].materialize)
    text = repr(pipe)
    one = m.call("transform", lambda: pipe.transform(test))
    w.check(m, "pipeline:changes-input")
    m.call("transform", lambda: pipe.transform(train))
    two = m.call("transform", lambda: pipe.transform(test))
    m.ok(one.equals(two, null_equal=True) or str(one.to_dict(as_series=False)) == str(two.to_dict(as_series=False)), "pipeline:changed-by-use")
    m.eq(repr(pipe), text, "pipeline:changed-by-use")
    m.call("materialize", b["bp"].materialize)
    m.eq(repr(pipe), text, "pipeline:changed-by-blueprint")
    m.seen("steps", len(b["labels"]))
    w.check(m, "pipeline:changes-input")


@case("P27", quick=12, thorough=200)
def reports(m):
    """The data report and the partition helper leave the frame alone."""
    df = C.to_df(C.plain(m.rng, int(m.pick(10, 30)))).drop("q0", "q1", "m0")
    if m.chance(0.5):
        df = behind_nulls(m.rng, df)
    w = Watch(df)
    dia = DIA(df)
    k = m.pick("numeric_profile", "plot_null", "infer", "special", "corr", "dependency", "partition", "gc")
    m.note(k=k, f0=df["f0"])
    m.seen(k)
    f = {"numeric_profile": lambda: dia.numeric_profile(), "plot_null": lambda: dia.null_corr(), "infer": lambda: dia.infer_prob(),
         "special": lambda: dia.special_values_report(), "corr": lambda: dia.corr(["f0", "f1", "f2"]),
         "dependency": lambda: dia.infer_dependency(["c0", "k0", "b0"]), "gc": lambda: dia.infer_const(),
         "partition": lambda: [d.height for d in PartitionHelper(df, by="c0").head(2).values()]}[k]
    m.calls += 1
    outcome(f)
    w.check(m, f"{k}:changes-input")


HOLD = {
    "impute": lambda c: ("impute", [c], {}), "scale": lambda c: ("scale", [c], {"method": "min_max"}), "center": lambda c: ("center", [c], {}),
    "robust_scale": lambda c: ("robust_scale", [c, 0.1, 0.9], {}), "winsorize": lambda c: ("winsorize", [c], {}),
    "select": lambda c: ("select", [c], {}), "drop": lambda c: ("drop", [c], {}), "poly": lambda c: ("polynomial_features", [c, 2], {}),
    "one_hot": lambda c: ("one_hot_encode", [c], {}), "target_encode": lambda c: ("target_encode", [c], {"target": "Yt"}),
    "woe_encode": lambda c: ("woe_encode", [c], {"target": "Yt"}), "iv_encode": lambda c: ("iv_encode", [c], {"target": "Yt"}),
    "linear_impute": lambda c: ("linear_impute", [c], {"target": "F0"}), "fit_func": lambda c: ("append_fit_func", [G.shift_by_max, c], {}),
    "rank_hot": lambda c: ("rank_hot_encode", ["S0", c], {}), "rename": lambda c: ("rename", [c], {}), "conditional": lambda c: ("conditional_impute", [c], {}),
    "exclude": lambda c: ("center", [["F1", "F2"]], {}), "append_select": lambda c: ("append_expr", c, {"is_select": True}),
}


@case("P27", quick=60, thorough=1000)
def blueprints(m):
    """A blueprint takes lists and dictionaries as they are when given: it neither changes them nor follows later changes."""
    S = G.make_state(m, int(m.pick(15, 40)), dict(f=3, i=1, b=0, s=2, k=3, nan=False), True)
    for c in ("F0", "F1", "F2", "S0", "S1"):
        S[c].v[:3] = [S[c].v[3] if S[c].v[3] is not None else (0.5 if c[0] == "F" else "a"), 2.5 if c[0] == "F" else "dd", -1.5 if c[0] == "F" else "é"]
    if m.chance(0.5):
        S["F1"].v = [0.25 if v is None else v for v in S["F1"].v]
        S["F2"].v = [0.75 if v is None else v for v in S["F2"].v]
    df = G.to_df(S)
    what = list(HOLD)[m.i % len(HOLD)]
    texts = what in ("one_hot", "target_encode", "woe_encode", "iv_encode")
    first, more = (["S0"], "S1") if texts else (["F1", "F2"], "I0")
    if what == "linear_impute":
        first, more = ["Yt"], "F1"
    if what == "rank_hot":
        first, more = ["a", "c"], "dd"
    if what in ("select", "append_select"):
        first, more = [pl.col("F1"), pl.col("S0")], pl.col("F0")
    if what == "rename":
        first, more = {"F1": "zz"}, ("F2", "ww")
    if what == "conditional":
        first, more = {"F1": pl.col("F1") > 1}, ("F2", pl.col("F2") > 1)
    if what == "exclude":
        first, more = ["F2"], "F1"
    exclude = first if what == "exclude" else m.pick(None, ["I0"])
    m.note(step=what, frame=df.to_dict(as_series=False))
    m.seen(what, exclude is None)

    def make(given, ex):
        bp = Blueprint(df, target=m_target, exclude=ex)
        name, a, k = HOLD[what](given)
        return getattr(bp, name)(*a, **k)

    def change(g):
        if isinstance(g, dict):
            g[more[0]] = more[1]
        else:
            g.append(more)
    m_target = "Yt" if m.chance(0.5) and what != "linear_impute" else None
    want, err = outcome(lambda: make(copy.copy(first), copy.copy(exclude)).materialize())
    if err is not None:
        raise Inconclusive(f"{what}: {err}"[:100])
    given, ex = copy.copy(first), copy.copy(exclude)
    if what == "exclude":
        ex = given
    bp = m.call(what, lambda: make(given, ex))
    m.eq(str(given), str(first), f"{what}:changes-argument")
    m.eq(ex, exclude, f"{what}:changes-argument")
    change(given)
    if ex is not None and what != "exclude":
        ex.append("F1")
    feats = m.chance(0.3)
    if feats:                                            # what a blueprint says it expects is not its pipelines' own list
        pipe = m.call(what, bp.materialize)
        bp.feature_names_in_.append("zz")
        m.eq(pipe.feature_names_in_, df.columns, f"{what}:shares-feature-names")
    else:
        pipe = m.call(what, bp.materialize)
        pipe.feature_names_in_.append("zz")
        m.eq(bp.feature_names_in_, df.columns, f"{what}:shares-feature-names")
        pipe.feature_names_in_.pop()
    a, b = outcome(lambda: pipe.transform(df)), outcome(lambda: want.transform(df))
    m.ok(a[0] is not None and a[0].columns == b[0].columns and str(a[0].to_dict(as_series=False)) == str(b[0].to_dict(as_series=False)), f"{what}:follows-argument", lambda: f"{a} {b}"[:400])


@case("P27", quick=30, thorough=300)
def saved_forms(m):
    """What a pipeline is written to, or read from, is not the pipeline: changing the one leaves the other."""
    b = G.build(m, 3)
    pipe = m.call("materialize", b["bp"].materialize)
    text = pipe.to_json()
    d = m.call("to_dict", pipe.to_dict)
    back = m.call("from_dict", lambda: Pipeline.from_dict(d))
    held = back.to_json()
    kinds = 0
    for k, v in d.items():
        if isinstance(v, list):
            kinds += 1
            v.append("zz")
            for x in v:
                if isinstance(x, dict):
                    x["context"] = "zz"
                    if isinstance(x.get("action"), list):
                        x["action"].append("zz")
    m.seen("lists", kinds, len(b["labels"]))
    m.eq(pipe.to_json(), text, "to_dict:hands-out-its-state")
    m.eq(back.to_json(), held, "from_dict:depends-on-dict-afterwards")
    d2 = pipe.to_dict()
    keep = copy.deepcopy(d2)
    back = m.call("from_dict", lambda: Pipeline.from_dict(d2))
    back.feature_names_out_.append("q")
    back.feature_names_in_.append("q")
    m.eq(d2, keep, "from_dict:changes-argument")
    m.eq(pipe.to_json(), text, "from_dict:shares-with-original")
