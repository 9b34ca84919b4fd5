"""P16: elementwise numeric transforms equal their mathematical definitions, row by row, in every context."""
import math
import numpy as np
import polars as pl
import polars_ds as pds
from scipy import special
from polars_ds.exprs.num import sinc
from pdsmon.core import case
from pdsmon.gen import frame, series, ev_rows, ev_scalar, floats

INTS = [pl.Int8, pl.Int16, pl.Int32, pl.Int64, pl.UInt8, pl.UInt16, pl.UInt32, pl.UInt64]
SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e-9, -1e-9, 5e-324, 1e-300, 700.0, -700.0, 750.0, 1e17, -1e17,
           math.inf, -math.inf, math.nan, 2.0, 3.0, 170.5, 171.7, 34.9, 127.0, -1074.0, 1023.5, 0.9999999999999999, 1e-6, 11.99, 12.0]


def column(m, n, kind=None, nulls=None):
    """(values with None, dtype, series)"""
    r = m.rng
    dt = m.pick(pl.Float64, pl.Float64, pl.Float32, "int")
    p = m.pick(0.0, 0.0, 0.3, 0.95) if nulls is None else nulls
    if dt == "int":
        dt = INTS[int(r.integers(len(INTS)))]
        lo = 0 if not dt.is_signed_integer() else -m.pick(5, 40, 120)
        v = [int(x) for x in r.integers(lo, m.pick(3, 40, 120), n)]
        if m.chance(0.2) and dt in (pl.Int64, pl.UInt64):
            v = [x * (1 << 40) + 1 if x >= 0 else x for x in v]
    else:
        v = [float(x) for x in floats(r, n)]
        if m.chance(0.5):
            v = [SPECIAL[int(r.integers(len(SPECIAL)))] if r.random() < 0.5 else x for x in v]
        if kind == "prob":
            v = [float(r.random()) if r.random() < 0.7 else x for x in v]
        if dt == pl.Float32:
            with np.errstate(over="ignore"):
                v = [float(np.float32(x)) for x in v]
    v = [None if r.random() < p else x for x in v]
    m.seen("dtype", dt, "nulls", p > 0)
    return v, dt


def size(m):
    return int(m.pick(0, 1, 2, 3, 7, 20, 100))


def rows(m, df, expr, name, want, dtype, tol, ctxs=None):
    """want: list of references (None = null); tol: (rtol, atol) or a function of the index"""
    idx, got, dt = ev_rows(m, df, expr, name, **({"ctxs": ctxs} if ctxs else {}))
    sch = m.call(name + ":schema", lambda: df.lazy().select(__r=expr).collect_schema()["__r"])
    m.eq(dt, dtype, name + ":dtype")
    m.eq(sch, dtype, name + ":schema")
    for i, g in zip(idx, got):
        rt, at = tol(i) if callable(tol) else tol
        m.close(g, want[i], name + ":value", rt, at, detail=f"row {i}")


def f_logit(x):
    if math.isnan(x) or x < 0 or x > 1:
        return math.nan
    return -math.inf if x == 0 else math.inf if x == 1 else math.log(x) - math.log1p(-x)


def f_expit(x):
    return float(special.expit(x))


def f_gamma(x):
    if math.isnan(x) or x == -math.inf:
        return math.nan
    if x == 0:
        return math.copysign(math.inf, x)
    if x < 0 and x == math.floor(x):
        return math.nan
    return float(special.gamma(x))


def f_exp2(x):
    return float(np.exp2(x))


def f_fract(x):
    return math.nan if not math.isfinite(x) else math.fmod(x, 1.0)


def f_trunc(x):
    return x if not math.isfinite(x) else float(math.trunc(x))


def f_digamma(x):
    if math.isnan(x) or x == -math.inf:
        return math.nan
    if x == math.inf:
        return math.inf
    if x <= 0 and x == math.floor(x):
        return -math.inf
    return float(special.digamma(x))


@case("P16", quick=400, thorough=8000)
def unary(m):
    n = size(m)
    which = m.pick("logit", "expit", "gamma", "exp2", "fract", "trunc", "next_up", "next_down", "digamma")
    v, dt = column(m, n, "prob" if which == "logit" else None)
    m.seen(which, dt)
    m.note(v=v, dt=str(dt), which=which)
    df = frame(m.rng, {"x": series(m.rng, "x", v, dt), "o": list(range(n))})
    arg = "x" if m.chance(0.5) else pl.col("x")
    isint = dt in INTS
    out = {pl.Float64: pl.Float64}.get(dt, pl.Float32)
    f32 = out == pl.Float32
    with np.errstate(all="ignore"):
        if which == "trunc":
            return rows(m, df, pds.trunc(arg), which, [None if x is None else (x if isint else f_trunc(x)) for x in v], dt, (0, 0))
        if which == "digamma":
            # around the poles on the negative axis the reflection loses digits
            def tol(i):
                x = v[i]
                if x is None or not math.isfinite(x):
                    return (1e-9, 0)
                if x >= 0:
                    return (1e-9, 1e-9)
                d = max(abs(x - round(x)), 1e-7)
                return (1e-9, 1e-9 + 4e-15 * abs(x) / d ** 2)
            keep = [x is None or not (math.isfinite(x) and x < 0 and x != math.floor(x) and (abs(x) > 1e6 or abs(x - round(x)) < 1e-6)) for x in v]
            w = [None if x is None else f_digamma(float(x)) for x in v]
            idx, got, gd = ev_rows(m, df, pds.digamma(arg), which)
            m.eq(gd, pl.Float64, "digamma:dtype")
            m.eq(df.lazy().select(r=pds.digamma(arg)).collect_schema()["r"], pl.Float64, "digamma:schema")
            for i, g in zip(idx, got):
                if keep[i]:
                    m.close(g, w[i], "digamma:value", *tol(i), detail=f"digamma({v[i]!r})")
            return
        if which in ("next_up", "next_down"):
            t = np.float32 if f32 else np.float64
            to = t(np.inf if which == "next_up" else -np.inf)
            w = [None if x is None else float(np.nextafter(t(x), to)) for x in v]
            if which == "next_up":
                w = [x if x is None or y is None or y != math.inf else math.inf for x, y in zip(w, v)]
            return rows(m, df, getattr(pds, which)(arg), which, w, out, (0, 0))
        fn = {"logit": f_logit, "expit": f_expit, "gamma": f_gamma, "exp2": f_exp2, "fract": f_fract}[which]
        vv = [None if x is None else float(np.float32(x)) if f32 else x for x in v]
        w = [None if x is None else fn(x) for x in vv]
        if f32:
            w = [None if x is None else float(np.float32(x)) for x in w]
        if which == "fract" and not isint:
            return rows(m, df, pds.fract(arg), which, w, out, (0, 0))

        def tol(i):
            x = vv[i]
            eps = 1.2e-7 if f32 else 2.3e-16
            at = 1e-300 if not f32 else 1e-37
            if which == "logit" and x is not None and 0 < x < 1:
                at = 8 * eps
            if which == "gamma" and x is not None and math.isfinite(x) and x < 0:
                d = max(abs(x - round(x)), 1e-300)
                return (64 * eps * (1 + abs(x)) + 4 * eps * abs(x) / d * 0, at)
            if which == "expit":
                return (8 * eps, at)
            return (64 * eps * (1 + (min(abs(x), 200) if x is not None and math.isfinite(x) else 0)), at)
        idx, got, gd = ev_rows(m, df, getattr(pds, which)(arg), which)
        m.eq(gd, out, which + ":dtype")
        m.eq(df.lazy().select(r=getattr(pds, which)(arg)).collect_schema()["r"], out, which + ":schema")
        for i, g in zip(idx, got):
            x = vv[i]
            if which == "gamma" and x is not None and x < 0 and g is not None and math.isnan(g):
                m.observed += 1      # documented: NaN on the negative axis
                continue
            if w[i] is not None and g is not None and math.isfinite(w[i]) != math.isfinite(g):
                # at the edge of the range a last-digit difference overflows or not
                big = 3.0e38 if f32 else 1.7e308
                if abs(w[i] if math.isfinite(w[i]) else g) > big:
                    continue
            m.close(g, w[i], which + ":value", *tol(i), detail=f"{which}({v[i]!r})")


@case("P16", quick=200, thorough=3000)
def xlogy(m):
    n = size(m)
    x, dx = column(m, n)
    y, dy = column(m, n)
    if m.chance(0.4):
        x = [0 if v is not None and m.rng.random() < 0.5 else v for v in x]
    df = frame(m.rng, {"x": series(m.rng, "x", x, dx), "y": series(m.rng, "y", y, dy)})
    mode = m.pick("column", "column", "scalar y", "scalar x")
    c = float(m.pick(0.0, 2.5, 1.0, 0.1))
    m.seen(mode)
    m.note(x=x, y=y, mode=mode, c=c)
    e = pds.xlogy("x", pl.col("y") if mode != "scalar y" else pl.lit(c))
    if mode == "scalar y":
        y = [c] * n
    if mode == "scalar x":
        x = [c] * n
        e = pds.xlogy(pl.lit(c), "y")
    with np.errstate(all="ignore"):
        w = [None if a is None or b is None else float(special.xlogy(float(a), float(b))) for a, b in zip(x, y)]
    # (polars treats groups of one row under a literal root as scalars)
    rows(m, df, e, "xlogy", w, pl.Float64, (1e-14, 1e-300), ("select", "lazy", "with_columns", "filter", "slice") if mode == "scalar x" else None)


@case("P16", quick=200, thorough=3000)
def gcd_lcm(m):
    n = size(m)
    r = m.rng
    hi = m.pick(3, 30, 40000)
    p = m.pick(0.0, 0.3, 0.9)

    def col():
        dt = m.pick(pl.Int32, pl.Int64, pl.Int16, pl.UInt32)
        v = r.integers(0 if dt == pl.UInt32 else -min(hi, 30000), min(hi, 30000) + 1, n)
        return [None if r.random() < p else int(k) for k in v], dt
    x, dx = col()
    y, dy = col()
    df = frame(r, {"x": series(r, "x", x, dx), "y": series(r, "y", y, dy)})
    mode = m.pick("column", "column", "int", "null")
    which = m.pick("gcd", "lcm")
    yy = pl.col("y") if m.chance(0.5) else "y"
    if mode == "int":
        c = int(m.pick(0, 1, 2, 12, -6, 30000))
        y, yy = [c] * n, c
    elif mode == "null":
        y, yy = [None] * n, pl.lit(None, dtype=pl.Int32)
    m.seen(which, mode, p)
    m.note(x=x, y=y, which=which, mode=mode)
    f = math.gcd if which == "gcd" else math.lcm
    rows(m, df, getattr(pds, which)("x", yy), which, [None if a is None or b is None else f(a, b) for a, b in zip(x, y)], pl.Int32, (0, 0))


def great_circle(a, b, c, d):
    """Vincenty's form, well conditioned everywhere"""
    p1, l1, p2, l2 = map(math.radians, (a, b, c, d))
    dl = l2 - l1
    num = math.hypot(math.cos(p2) * math.sin(dl), math.cos(p1) * math.sin(p2) - math.sin(p1) * math.cos(p2) * math.cos(dl))
    den = math.sin(p1) * math.sin(p2) + math.cos(p1) * math.cos(p2) * math.cos(dl)
    return 6371.0 * math.atan2(num, den)


@case("P16", quick=250, thorough=4000)
def haversine(m):
    n = size(m)
    r = m.rng
    t = m.pick(pl.Float64, pl.Float64, pl.Float32)
    p = m.pick(0.0, 0.0, 0.3)
    A = [[float(a), float(b)] for a, b in zip(r.uniform(-90, 90, n), r.uniform(-180, 180, n))]
    B = []
    for la, lo in A:
        k = m.pick("any", "near", "antipode", "same", "pole", "meridian")
        m.seen("place", k)
        B.append({"any": [float(r.uniform(-90, 90)), float(r.uniform(-180, 180))],
                  "near": [la + float(r.normal()) * 1e-4, lo + float(r.normal()) * 1e-4],
                  "antipode": [-la + float(r.choice([0, 1e-7, 1e-3])), lo - 180 if lo > 0 else lo + 180],
                  "same": [la, lo], "pole": [float(r.choice([90, -90])), float(r.uniform(-180, 180))],
                  "meridian": [la, -lo]}[k])
    rnd = (lambda z: float(np.float32(z))) if t == pl.Float32 else float
    cols = {"a": [rnd(q[0]) for q in A], "b": [rnd(q[1]) for q in A], "c": [rnd(q[0]) for q in B], "d": [rnd(q[1]) for q in B]}
    cols = {k: [None if r.random() < p else z for z in v] for k, v in cols.items()}
    df = frame(r, {k: series(r, k, v, t) for k, v in cols.items()})
    mode = m.pick("columns", "columns", "point", "null point")
    args = ["c", "d"] if m.chance(0.5) else [pl.col("c"), pl.col("d")]
    c, d = cols["c"], cols["d"]
    if mode != "columns":
        c0, d0 = (rnd(B[0][0]), rnd(B[0][1])) if n else (1.0, 2.0)
        args, c, d = [c0, d0], [c0] * n, [d0] * n
        if t == pl.Float32 and m.chance(0.5):
            args = [pl.lit(c0, pl.Float32), pl.lit(d0, pl.Float32)]
        if mode == "null point":
            args[1], d = pl.lit(None, dtype=t), [None] * n
    m.seen(mode, t)
    m.note(cols=cols, args=args, mode=mode)
    e = pds.haversine("a", "b", *args)
    sch = m.call("haversine:schema", lambda: df.lazy().select(__r=e).collect_schema()["__r"])
    idx, got, gd = ev_rows(m, df, e, "haversine")
    m.ok(gd in (pl.Float32, pl.Float64) and (t == pl.Float32 or gd == pl.Float64), "haversine:dtype", str(gd))
    m.eq(sch, gd, "haversine:schema")
    eps = 1.2e-7 if t == pl.Float32 else 2.3e-16
    for i, g in zip(idx, got):
        q = (cols["a"][i], cols["b"][i], c[i], d[i])
        if any(z is None for z in q):
            m.ok(g is None, "haversine:null", f"{q} gave {g}")
            continue
        w = great_circle(*q)
        h = math.sin(w / 6371 / 2) ** 2
        # rounding of a (about 8 eps with its arguments' rounding) moved through 2 asin(sqrt a)
        da = 16 * eps * (h + math.sin(abs(math.radians(q[0] - q[2])) / 2) + abs(math.sin(math.radians(q[1] - q[3]) / 2))) + 16 * eps * eps
        err = min(2 * math.sqrt(da), 4 * da / max(math.sqrt(h * max(1 - h, 0)), 1e-300))
        m.close(g, w, "haversine:value", 32 * eps, 6371 * err + 6371 * 16 * eps, detail=str(q))
        m.ok(not math.isnan(g), "haversine:nan", str(q))


@case("P16", quick=150, thorough=2000)
def horizontal(m):
    n, k = size(m), int(m.pick(1, 2, 3, 6))
    r = m.rng
    X = np.array([floats(r, n) for _ in range(k)])
    df = frame(r, {f"x{i}": X[i] for i in range(k)})
    which = m.pick("l_inf_horizontal", "l1_horizontal", "l2_sq_horizontal")
    norm = m.chance(0.5)
    m.note(X=X, which=which, norm=norm)
    m.seen(which, norm, k)
    A = np.abs(X)
    w = (A.max(0) if which[1:4] == "_in" else A.sum(0) if which[1] == "1" else (X ** 2).sum(0)) / (k if norm else 1)
    args = [f"x{i}" if m.chance(0.5) else pl.col(f"x{i}") for i in range(k)]
    rows(m, df, getattr(pds, which)(*args, normalize=norm), which, w.tolist(), pl.Float64, (1e-13, 1e-300))


@case("P16", quick=250, thorough=4000)
def whole_column(m):
    """transforms that use the whole column: centring, scaling, softmax, detrending"""
    n = int(m.pick(2, 3, 7, 20, 100))
    r = m.rng
    which = m.pick("center", "z_normalize", "softmax", "detrend linear", "detrend mean", "sinc")
    p = m.pick(0.0, 0.0, 0.3)
    v = [None if r.random() < p else float(x) for x in floats(r, n, "uniform" if which == "softmax" else None)]
    if which == "sinc" and m.chance(0.5):
        v = [x if x is None else float(r.choice([0.0, 1.0, -2.0, 1e-8, 0.5])) for x in v]
    m.note(v=v, which=which)
    m.seen(which, p > 0)
    ok = [i for i in range(n) if v[i] is not None]
    x = np.array([v[i] for i in ok])
    if len(x) < 3:
        return
    if which == "center" or which == "detrend mean":
        w, sc = x - x.mean(), 1 + np.abs(x).max()
    elif which == "z_normalize":
        if np.std(x) < 1e-9:
            return
        w, sc = (x - x.mean()) / x.std(ddof=1), (1 + np.abs(x).max()) / x.std(ddof=1)
    elif which == "softmax":
        e = np.exp(x)
        w, sc = e / e.sum(), 1
    elif which == "sinc":
        w, sc = np.sinc(x), 1
    else:
        t = np.array(ok, float)
        b = np.polyfit(t - t.mean(), x, 1)
        w, sc = x - np.polyval(b, t - t.mean()), 1 + np.abs(x).max()
    want = [None] * n
    for i, z in zip(ok, w):
        want[i] = float(z)
    e = {"center": pds.center, "z_normalize": pds.z_normalize, "softmax": pds.softmax, "sinc": sinc,
         "detrend linear": lambda c: pds.detrend(c, "linear"), "detrend mean": lambda c: pds.detrend(c, "mean")}[which](m.pick("x", pl.col("x")))
    df = frame(r, {"x": series(r, "x", v, pl.Float64)}, "one")
    ctx = m.pick("select", "lazy", "with_columns", "over")
    d = df.with_columns(i=pl.int_range(pl.len()), g=pl.lit(0))
    if ctx == "select":
        got = m.call(which, lambda: d.select(r=e)["r"])
    elif ctx == "lazy":
        got = m.call(which, lambda: d.lazy().select(r=e).collect()["r"])
    elif ctx == "with_columns":
        got = m.call(which, lambda: d.with_columns(r=e)["r"])
    else:
        # decoy groups around it
        o = pl.concat([d, d.with_columns(g=pl.lit(1), x=pl.col("x") * 2 + 1)])
        o = o[r.permutation(o.height).tolist()].sort("i", maintain_order=True)
        got = m.call(which, lambda: o.lazy().with_columns(r=e.over("g")).collect().filter(pl.col("g") == 0).sort("i")["r"])
    m.seen(ctx)
    m.eq(got.dtype, pl.Float64, which + ":dtype")
    m.close(got, want, which + ":value", 1e-9, 1e-11 * sc)


@case("P16", quick=150, thorough=2500)
def monotone(m):
    n = int(m.pick(1, 2, 3, 10, 50))
    r = m.rng
    v = np.cumsum(r.choice([0, 1, 2] if m.chance(0.5) else [1, 3], n)).astype(float)
    if m.chance(0.5):
        v = -v
    if m.chance(0.4) and n > 1:
        i = int(r.integers(1, n))
        v[i] = v[i - 1] + m.pick(-1, 0, 1)
    strict = m.chance(0.5)
    dt = m.pick(pl.Float64, pl.Int64, pl.Float32)
    df = frame(r, {"x": pl.Series("x", v).cast(dt)})
    d = np.diff(v)
    which = m.pick("is_increasing", "is_decreasing")
    m.note(v=v, strict=strict, which=which)
    m.seen(which, strict, dt)
    if which == "is_decreasing":
        d = -d
    w = bool((d > 0).all() if strict else (d >= 0).all())
    m.eq(ev_scalar(m, df, getattr(pds, which)("x", strict=strict), which), w, which + ":value")


@case("P16", quick=100, thorough=1500)
def argmax_of_lists(m):
    n = size(m)
    r = m.rng
    v = [None if r.random() < 0.2 else [float(x) for x in floats(r, int(r.integers(1, 6)))] for _ in range(n)]
    df = frame(r, {"x": pl.Series("x", v, dtype=pl.List(pl.Float64))})
    m.note(v=v)
    idx, got, gd = ev_rows(m, df, pds.list_amax("x"), "list_amax", ("select", "lazy", "with_columns", "filter", "slice"))
    for i, g in zip(idx, got):
        if v[i] is None:
            m.ok(g is None, "list_amax:null", str(g))
        else:
            m.ok(g is not None and len(g) == 1 and v[i][g[0]] == max(v[i]), "list_amax:value", f"{v[i]} gave {g}")
