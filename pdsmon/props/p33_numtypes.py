"""P33: the type numbers are stored in changes nothing but precision.

Whole numbers are written once as Float64 and once in every other way polars stores numbers; the same call on both must
say the same. Sums, squares and differences that leave the range of a small or unsigned type show at once."""
import datetime as dt, json, math, warnings
import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.exprs import num as N, stats as S, metrics as M
from polars_ds.modeling.pipeline import Blueprint
from polars_ds.eda.diagnosis import DIA
from polars_ds.eda import plots as PL
from polars_ds.linear_models import LR, ElasticNet, OnlineLR
from polars_ds.sample_and_split import sample_and_split as SS
from pdsmon import catalog as C
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame
from pdsmon.props.p24_context import outcome
from pdsmon.props.p29_reports import frames_of

# random by nature, about the neighbours of a number in its own type, without a number among its columns
APART = {"next_up", "next_down", "corr", "chi2_full"} | {n for n, e in C.ENTRIES.items() if e.get("rand") or n.startswith(("str_", "random"))}
NUMERIC = ("f0", "f1", "f2", "h0", "n0", "n1", "i0", "i1", "y0", "t0", "w0")
NAMES = sorted(n for n in C.ENTRIES if n not in APART and any(
    set(C.make(n, s).meta.root_names()) & set(NUMERIC) for s in range(3)))
SINGLE = {"exp2", "expit", "gamma", "logit", "digamma", "sinc", "fract", "trunc"}     # whole numbers are answered in single precision
# refuses some pairs of types by design: the two columns have to be alike
ALIKE = {"jaccard_col", "product", "jaccard_row"}
SMALL = {"exp2", "gamma", "softmax", "expit"}

TYPES = [pl.Int8, pl.Int16, pl.Int32, pl.Int64, pl.UInt8, pl.UInt16, pl.UInt32, pl.UInt64, pl.Float32]
LOW = {pl.Int8: -128, pl.Int16: -2 ** 15, pl.Int32: -2 ** 31, pl.Int64: -2 ** 40, pl.Float32: -2 ** 22}
TOP = {pl.Int8: 127, pl.UInt8: 255, pl.Int16: 2 ** 15 - 1, pl.UInt16: 2 ** 16 - 1, pl.Int32: 2 ** 31 - 1, pl.UInt32: 2 ** 32 - 1,
       pl.Int64: 2 ** 40, pl.UInt64: 2 ** 40, pl.Float32: 2 ** 22}


def limits(m, types, small=False):
    """the numbers that all these types hold: a range that fills one of them, or a plain one"""
    lo, hi = max(LOW.get(t, 0) for t in types), min(TOP[t] for t in types)
    cap = int(m.pick(20, 120, 250, 30_000, 60_000)) if not small else 20
    if m.chance(0.3) and not small:
        cap = 10 ** 6 if hi < 10 ** 7 else 10 ** 5
        m.seen("full-range")
    return max(lo, -cap), min(hi, cap)


def whole(m, lo, hi, n, kind):
    r = m.rng
    if kind == "sorted":
        return sorted(int(v) for v in r.integers(lo, hi + 1, n))
    if kind == "positive":
        return [int(v) for v in r.integers(1, min(hi, 9) + 1, n)]
    v = [int(x) for x in r.integers(lo, hi + 1, n)]
    if m.chance(0.5) and n > 2:              # the ends themselves
        v[int(r.integers(n))], v[int(r.integers(n))] = lo, hi
    return [None if kind == "nulls" and r.random() < 0.2 else x for x in v]


def flat(v):
    if isinstance(v, dict):
        return [("fields", tuple(v))] + [z for x in v.values() for z in flat(x)]
    if isinstance(v, (list, tuple)):
        return [("len", len(v))] + [z for x in v for z in flat(x)]
    return [v]


def coarse(v):
    return {k: coarse(x) for k, x in v.items()} if isinstance(v, dict) else [coarse(x) for x in v] if isinstance(v, (list, tuple)) else f"{v:.4g}" if isinstance(v, (int, float)) else v


def differ(m, a, b, rtol, atol=1e-9, sign=False):
    x, y = flat(a), flat(b)
    if len(x) != len(y):
        return f"{len(y)} values in place of {len(x)}"
    m.observed += len(x)
    num = (int, float)
    for p, q in zip(x, y):
        if isinstance(p, num) and isinstance(q, num):
            p, q = float(p), float(q)
            if sign:
                p, q = abs(p), abs(q)
            if math.isnan(p) or math.isnan(q):
                if math.isnan(p) != math.isnan(q):
                    return f"{q} in place of {p}"
            elif p != q and not abs(p - q) <= atol + rtol * max(abs(p), abs(q)):
                return f"{q} in place of {p}"
        elif p != q:
            return f"{q!r} in place of {p!r}"


def draw_types(m, cols):
    """a type for every column: the same one, or one each"""
    t = m.pick(*TYPES)
    if m.chance(0.3):
        m.seen("mixed")
        other = [u for u in TYPES if (u in LOW) == (t in LOW)] if m.chance(0.8) else TYPES
        return {c: m.pick(*other) for c in cols}
    return {c: t for c in cols}


@case("P33", quick=3 * len(NAMES), thorough=40 * len(NAMES))
def expressions(m):
    name = NAMES[m.i % len(NAMES)]
    e = C.ENTRIES[name]
    n = int(m.pick(*((3, 8) if e.get("small") else (8, 20, 40))))
    seed = int(m.rng.integers(1 << 30))
    used = [c for c in NUMERIC if c in C.make(name, seed).meta.root_names()]
    if not used:
        raise Inconclusive("no number among the columns of this call")
    ty = draw_types(m, used)
    lo, hi = limits(m, list(ty.values()), name in SMALL)
    base = C.plain(m.rng, n)
    for c in used:
        base[c] = whole(m, lo, hi, n, "sorted" if c == "t0" else "positive" if c == "w0" else "nulls" if c[0] == "n" else "any")
    build = lambda types: pl.DataFrame([pl.Series(c, v, dtype=types.get(c, C.SCHEMA[c]), strict=False) for c, v in base.items()])
    wide, typed = build({c: pl.Float64 for c in used}), build(ty)
    m.note(entry=name, seed=seed, types={c: str(t) for c, t in ty.items()}, data={c: base[c] for c in used})
    m.seen(name)
    for t in set(ty.values()):
        m.seen("type", t)
    ctx = m.pick("select", "select", "lazy", "lazy" if e.get("unordered") else "group")
    run = {"select": lambda d: d.select(r=C.make(name, seed))["r"].to_list(),
           "lazy": lambda d: d.lazy().select(r=C.make(name, seed)).collect()["r"].to_list(),
           "group": lambda d: d.group_by(pl.lit(1)).agg(r=C.make(name, seed))["r"].to_list()}[ctx]
    m.calls += 2
    (a, ea), (b, eb) = outcome(lambda: run(wide)), outcome(lambda: run(typed))
    if ea is not None:
        raise Inconclusive(f"refused as floats too: {str(ea)[:80]}")
    if eb is not None:
        if name in ALIKE:
            m.seen("refused", name)
            raise Inconclusive("needs two columns of one type")
        m.ok(False, f"{name}:refused", f"types {ty}: {str(eb)[:160]}")
    if e.get("unordered"):
        a, b = (sorted(v, key=lambda x: str(coarse(x))) for v in (a, b))
    if name == "haversine" and pl.Float32 in ty.values():
        raise Inconclusive("angles lose kilometres in single precision")
    single = pl.Float32 in ty.values() or name in SINGLE
    if name in SINGLE and any(isinstance(x, float) and abs(x) > 1e30 for x in flat(a)):
        raise Inconclusive("beyond single precision")
    big = max(1, abs(lo), hi)
    atol = {True: 1e-3, False: 1e-9}[single] * (1 if single else big)
    if name == "winsorize":              # clipped whole numbers stay whole
        atol = max(1.0, atol)
    d = differ(m, a, b, 2e-3 if single else 1e-6, atol, e.get("sign"))
    m.ok(d is None, f"{name}:depends-on-type", f"{ctx}, types {({c: str(t) for c, t in ty.items()})}: {d}")


CORR = ("pearson", "spearman", "kendall", "bicor")


@case("P33", quick=60, thorough=900)
def correlations(m):
    """the methods of corr that have one answer"""
    n = int(m.pick(8, 20, 40))
    ty = draw_types(m, ["a", "b"])
    lo, hi = limits(m, list(ty.values()))
    cols = {c: whole(m, lo, hi, n, "any") for c in "ab"}
    meth = m.pick(*CORR)
    m.note(types={c: str(t) for c, t in ty.items()}, cols=cols, meth=meth)
    m.seen("corr", meth)
    out = []
    for types in ({c: pl.Float64 for c in "ab"}, ty):
        df = pl.DataFrame([pl.Series(c, v, dtype=types[c]) for c, v in cols.items()])
        out.append(m.call("corr", lambda: df.select(S.corr("a", "b", method=meth)).item()))
    d = differ(m, out[0], out[1], 1e-4 if pl.Float32 in ty.values() else 1e-7, 1e-4 if pl.Float32 in ty.values() else 1e-9)
    m.ok(d is None, f"corr-{meth}:depends-on-type", f"types {ty}: {d}")


def pipelines_of(m, df):
    """step -> a blueprint of that step over columns a and b"""
    bp = lambda: Blueprint(df, "t", target="y")
    q = float(m.pick(0.05, 0.25))
    return {
        "scale": lambda k=m.pick("standard", "min_max", "abs_max"): bp().scale(["a", "b"], method=k),
        "robust_scale": lambda: bp().robust_scale(["a", "b"], q_low=q, q_high=1 - q),
        "center": lambda: bp().center(["a", "b"]),
        "impute": lambda k=m.pick("mean", "median"): bp().impute(["a", "b"], method=k),
        "linear_impute": lambda: bp().linear_impute(features=["b", "y"], target="a"),
        "woe": lambda: bp().woe_encode(["c"]),
        "target": lambda: bp().target_encode(["c"], min_samples_leaf=3, smoothing=2.0),
        "polynomial": lambda: bp().polynomial_features(["a", "b"], degree=2) if hasattr(Blueprint, "polynomial_features") else None,
        "winsorize": lambda: bp().winsorize(["a", "b"], q_low=0.1, q_high=0.9, method="nearest"),
    }


@case("P33", quick=70, thorough=1000)
def pipelines(m):
    """What a step learns from a column, and does to new data, does not depend on how its numbers are stored."""
    n, k = int(m.pick(10, 30)), int(m.pick(1, 10))
    ty = draw_types(m, ["a", "b"])
    lo, hi = limits(m, list(ty.values()))
    r = m.rng
    narrow = lambda c: [int(v) for v in r.integers(lo + (hi - lo) // 4, hi - (hi - lo) // 4, c)] if m.chance(0.5) else whole(m, lo, hi, c, "any")
    train = {"a": narrow(n), "b": narrow(n), "c": ["pqr"[int(v)] for v in r.integers(0, 3, n)], "y": [int(v) for v in r.integers(0, 2, n)]}
    if m.chance(0.4):
        train["a"] = [None if r.random() < 0.2 else v for v in train["a"]]
    test = {"a": whole(m, lo, hi, k, "nulls"), "b": whole(m, lo, hi, k, "any"), "c": ["pqrs"[int(v)] for v in r.integers(0, 4, k)], "y": [0] * k}
    yt = m.pick(pl.Int64, pl.UInt8, pl.Int32)
    step = m.pick("scale", "scale", "scale", "robust_scale", "center", "impute", "linear_impute", "woe", "target", "winsorize")
    m.note(types={c: str(t) for c, t in ty.items()}, train=train, test=test, step=step)
    m.seen("pipeline", step)
    out = []
    state = m.rng.bit_generator.state
    for types in ({"a": pl.Float64, "b": pl.Float64, "y": pl.Float64}, {**ty, "y": yt}):
        m.rng.bit_generator.state = state
        mk = lambda d: pl.DataFrame([pl.Series(c, v, dtype=types.get(c, pl.String)) for c, v in d.items()])
        tr, te = mk(train), mk(test)
        pipe = m.call("blueprint", lambda: pipelines_of(m, tr)[step]().materialize())
        if m.chance(0.3):
            pipe = m.call("restored", lambda: type(pipe).from_json_str(pipe.to_json()))
        out.append([m.call("transform", lambda x=x: pipe.transform(x)).drop("y").to_dict(as_series=False) for x in (tr, te)])
    single = pl.Float32 in ty.values()
    big = max(1, abs(lo), hi)
    atol = (1e-3 if single else 1e-9) * (big if step not in ("scale", "robust_scale") else 1)
    d = differ(m, out[0], out[1], 2e-3 if single else 1e-7, atol)
    m.ok(d is None, f"{step}:depends-on-type", f"types {ty}: {d}")


@case("P33", quick=60, thorough=900)
def models(m):
    """Fits on frames and arrays of any numeric type are the fits of the same numbers."""
    r = m.rng
    n, p = int(m.pick(12, 40)), int(m.pick(1, 2, 3))
    t = m.pick(*TYPES)
    lo, hi = limits(m, [t])
    X = r.integers(lo, hi + 1, (n, p))
    y = r.integers(lo, hi + 1, n)
    kind = m.pick("lr-df", "lr-df", "lr-np", "enet-df")
    bias = m.chance(0.5)
    m.note(type=str(t), X=X, y=y, kind=kind, bias=bias)
    m.seen("model", kind, t)
    mk = lambda: LR(has_bias=bias, lambda_=0.0) if kind.startswith("lr") else ElasticNet(l1_reg=0.1, l2_reg=0.1, has_bias=bias)
    feats = [f"x{j}" for j in range(p)]
    out = []
    for ty in (pl.Float64, t):
        model = mk()
        df = pl.DataFrame([pl.Series(f, X[:, j].tolist(), dtype=ty) for j, f in enumerate(feats)] + [pl.Series("y", y.tolist(), dtype=ty)])
        if kind.endswith("df"):
            m.call("fit_df", lambda: model.fit_df(df, feats, "y"))
            out.append([model.coeffs().tolist(), float(model.bias()) if bias else 0.0])
        else:
            a = np.column_stack([df[f].to_numpy() for f in feats])
            fit, err = outcome(lambda: model.fit(a, df["y"].to_numpy()))
            if err is not None:
                if ty == pl.Float64:
                    raise Inconclusive(str(err)[:80])
                m.seen("refused", "lr-np", str(t))
                return
            out.append([model.coeffs().tolist(), float(model.bias()) if bias else 0.0])
    A = np.column_stack([X, np.ones(n)]) if bias else X
    if np.linalg.cond(A.astype(float)) > 1e5:
        raise Inconclusive("ill-conditioned")
    d = differ(m, out[0], out[1], 1e-5 if t == pl.Float32 else 1e-6, 1e-6 * max(1, abs(lo), hi) if bias else 1e-6)
    m.ok(d is None, f"{kind}:depends-on-type", f"type {t}: {d}")


@case("P33", quick=40, thorough=500)
def reports(m):
    """The numeric profile of a frame says the same of numbers however they are stored, and the plots are fitted to them."""
    n = int(m.pick(10, 40))
    ty = draw_types(m, ["a", "b"])
    lo, hi = limits(m, list(ty.values()))
    cols = {"a": whole(m, lo, hi, n, "nulls"), "b": whole(m, lo, hi, n, "any")}
    what = m.pick("profile", "corr", "lin_reg", "lin_reg")
    bias = m.chance(0.5)
    m.note(types={c: str(t) for c, t in ty.items()}, cols=cols, what=what, bias=bias)
    m.seen("report", what)
    out = []
    for types in ({c: pl.Float64 for c in "ab"}, ty):
        df = pl.DataFrame([pl.Series(c, v, dtype=types[c]) for c, v in cols.items()])
        if what == "profile":
            got = m.call("profile", lambda: DIA(df).numeric_profile(histogram=False, gt=False))
            got = got.select(c for c in got.columns if c not in ("NaN_count", "NaN%", "inf_count", "Inf%")).to_dict(as_series=False)
        elif what == "corr":
            got = m.call("corr", lambda: DIA(df.drop_nulls()).corr(["a", "b"]))
            got = got.to_dict(as_series=False)
        else:
            ch = m.call("plot_lin_reg", lambda: PL.plot_lin_reg(df.drop_nulls(), "b", "a", add_bias=bias, show_lin_reg_eq=False))
            got = frames_of(ch)[0]["y_pred"].to_list()
        out.append(got)
    single = pl.Float32 in ty.values()
    big = max(1, abs(lo), hi)
    d = differ(m, out[0], out[1], 2e-3 if single else 1e-6, (1e-3 if single else 1e-8) * big)
    m.ok(d is None, f"{what}:depends-on-type", f"types {ty}: {d}")
