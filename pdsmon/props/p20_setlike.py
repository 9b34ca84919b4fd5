"""P20: set overlaps of columns and lists, combinations, products and target encodings equal their definitions."""
import math
from itertools import combinations, product
import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.exprs import num as N
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame, series, ev_scalar, ev_rows, ev_vec

INTS = [pl.Int8, pl.Int16, pl.Int32, pl.Int64, pl.UInt8, pl.UInt16, pl.UInt32, pl.UInt64]


def values(m, n, kind, nulls=0.2, k=None):
    r = m.rng
    k = k or int(m.pick(2, 5, 20))
    if kind == "str":
        pool = ["", "a", "b", "é", "ab", "a ", "A", "zz"] + [f"w{i}" for i in range(40)]
        v = [pool[i] for i in r.integers(0, min(k, len(pool)), n)]
    elif kind == "float":
        pool = [0.0, -1.5, 2.0, 1e300, 0.1, math.inf] + [float(i) for i in range(40)]
        v = [pool[i] for i in r.integers(0, min(k, len(pool)), n)]
    else:
        v = r.integers(0, k, n).tolist()
    p = nulls if m.chance(0.5) else 0
    return [None if r.random() < p else x for x in v]


@case("P20", quick=400, thorough=6000)
def jaccard_columns(m):
    kind = m.pick("str", "int", "int", "mixed", "float")
    n = int(m.pick(1, 2, 7, 40, 200))
    a, b = values(m, n, kind), values(m, n, kind)
    wide = kind in ("int", "mixed") and m.chance(0.3)
    if m.chance(0.1):
        b = [None] * n
    if m.chance(0.1):
        a = [None] * n
    if kind == "mixed":
        da, db = m.pick(*INTS), m.pick(*INTS)
    else:
        da = db = pl.String if kind == "str" else m.pick(pl.Float64, pl.Float32) if kind == "float" else m.pick(*INTS)
    if kind == "float" and da == pl.Float32:
        a, b = ([None if x is None or x > 1e30 else float(np.float32(x)) for x in v] for v in (a, b))
    if wide:                                          # numbers only the wider types can hold
        far = {t: [2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 40 + 3, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1] + ([2 ** 63, 2 ** 64 - 1] if t == pl.UInt64 else [-2 ** 63, -2 ** 31 - 1]) for t in (pl.Int64, pl.UInt64)}
        spread = lambda v, t: [x if x is None or t not in far else far[t][x % len(far[t])] if m.chance(0.5) else x for x in v]
        a, b = spread(a, da), spread(b, db)
        m.seen("far apart")
    cn = m.pick(False, False, True)
    df = frame(m.rng, {"a": series(m.rng, "a", a, da), "b": series(m.rng, "b", b, db)})
    m.note(a=a, b=b, da=da, db=db, count_null=cn)
    m.seen(kind, cn, None in a, None in b)
    sa, sb = set(a), set(b)
    if not cn:
        sa.discard(None), sb.discard(None)
    e = pds.jaccard_col(m.pick("a", pl.col("a")), m.pick("b", pl.col("b")), count_null=cn)
    got = ev_scalar(m, df, e, "jaccard_col")
    if not sa | sb:
        m.ok(got is None or math.isnan(got), "jaccard_col:empty", got)
        return
    m.close(got, len(sa & sb) / len(sa | sb), "jaccard_col:value", 1e-12, 1e-12)


@case("P20", quick=60, thorough=500)
def jaccard_columns_refused(m):
    n = int(m.pick(1, 5))
    a, b = m.pick(("int", "str"), ("int", "float"), ("str", "int"), ("float", "int"), ("float", "str"))
    D = {"int": m.pick(pl.Int64, pl.Int8), "str": pl.String, "float": pl.Float64}
    df = frame(m.rng, {"a": series(m.rng, "a", values(m, n, a), D[a]), "b": series(m.rng, "b", values(m, n, b), D[b])})
    m.seen(a, b)
    got = m.call("jaccard_col", lambda: df.select(pds.jaccard_col("a", "b")), expect_error=True)
    m.ok(isinstance(got, Exception), "jaccard_col:mixed", lambda: f"columns of {a} and {b} were compared: {got}")


@case("P20", quick=400, thorough=6000)
def jaccard_lists(m):
    kind = m.pick("str", "int", "int")
    n = int(m.pick(1, 2, 7, 60))
    dt = pl.String if kind == "str" else m.pick(*INTS)
    L = lambda: [None if m.chance(0.15) else values(m, int(m.pick(0, 1, 3, 8)), kind) for _ in range(n)]
    a, b = L(), L()
    df = frame(m.rng, {"a": pl.Series("a", a, dtype=pl.List(dt)), "b": pl.Series("b", b, dtype=pl.List(dt))})
    m.note(a=a, b=b, dt=dt)
    m.seen(kind, dt)
    one = m.chance(0.2)
    if one:
        lit = values(m, int(m.pick(0, 2, 4)), kind)
        b = [lit] * n
        e = pds.jaccard_row("a", pl.lit(pl.Series([lit], dtype=pl.List(dt))))
        m.seen("one list")
        m.note(lit=lit)
        ctxs = ("select", "lazy", "with_columns")
    else:
        e = pds.jaccard_row(m.pick("a", pl.col("a")), m.pick("b", pl.col("b")))
        ctxs = ("select", "lazy", "with_columns", "over", "group", "filter", "slice", "head")
    idx, got, dt = ev_rows(m, df, e, "jaccard_row", ctxs=ctxs)
    m.eq(dt, pl.Float64, "jaccard_row:dtype")
    for i, g in zip(idx, got):
        if a[i] is None or b[i] is None:
            m.ok(g is None, "jaccard_row:null", lambda: f"row {i}: {g}")
            continue
        sa, sb = set(a[i]), set(b[i])
        if not sa | sb:
            m.ok(g is None or math.isnan(g), "jaccard_row:empty", g)
            continue
        m.close(g, len(sa & sb) / len(sa | sb), "jaccard_row:value", 1e-12, 1e-12)


@case("P20", quick=300, thorough=4000)
def k_combinations(m):
    kind = m.pick("str", "int", "float")
    n = int(m.pick(1, 2, 4, 7, 10))
    a = values(m, n, kind, 0.3, k=30)
    dt = pl.String if kind == "str" else pl.Float64 if kind == "float" else m.pick(*INTS)
    uq = m.chance(0.4)
    src = [x for x in a if x is not None]
    if uq:
        src = sorted(set(src))
    k = int(m.pick(1, 2, 3, max(1, len(src))))
    df = frame(m.rng, {"a": series(m.rng, "a", a, dt)})
    m.note(a=a, dt=dt, k=k, unique=uq)
    m.seen(kind, min(k, 4), uq, len(src) < k)
    e = pds.combinations(m.pick("a", pl.col("a")), k, unique=uq)
    if len(src) < k:
        got = m.call("combinations", lambda: df.select(e), expect_error=True)
        m.ok(isinstance(got, Exception), "combinations:too_few", lambda: f"{len(src)} values, k={k}: {got}")
        return
    got, odt = ev_vec(m, df, e, "combinations")
    m.eq(odt, pl.List(dt), "combinations:dtype")
    m.eq(list(map(tuple, got)), list(combinations(src, k)), "combinations:value")


@case("P20", quick=300, thorough=4000)
def cartesian_product(m):
    kind = m.pick("str", "int", "float")
    n = int(m.pick(1, 2, 6, 15))
    a, b = values(m, n, kind, 0.3), values(m, n, kind, 0.3)
    dt = pl.String if kind == "str" else pl.Float64 if kind == "float" else m.pick(*INTS)
    df = frame(m.rng, {"a": series(m.rng, "a", a, dt), "b": series(m.rng, "b", b, dt)})
    m.note(a=a, b=b, dt=dt)
    m.seen(kind, None in a, None in b)
    got, odt = ev_vec(m, df, pds.product(m.pick("a", pl.col("a")), m.pick("b", pl.col("b"))), "product")
    m.eq(odt, pl.List(dt), "product:dtype")
    got = [] if list(got) == [None] else got          # an empty list, exploded
    m.eq(list(map(tuple, got)), [(x, y) for x in a if x is not None for y in b if y is not None], "product:value")


@case("P20", quick=400, thorough=6000)
def target_encoding(m):
    r = m.rng
    n = int(m.pick(1, 3, 20, 200))
    x = values(m, n, "str", 0.2, k=int(m.pick(1, 3, 12)))
    tdt = m.pick(pl.Int64, pl.Int32, pl.UInt8, pl.Float64, pl.Float32, pl.Boolean)
    t = (r.random(n) < m.pick(0.1, 0.5, 0.9)).astype(int).tolist()
    if m.chance(0.2):
        t = [1] * n
    msl, sm = int(m.pick(0, 1, 5, 20)), float(m.pick(0.5, 1.0, 10.0))
    outside = m.chance(0.25)
    df = frame(m.rng, {"x": series(m.rng, "x", x, pl.String), "t": pl.Series("t", t).cast(tdt)})
    m.note(x=x, t=t, tdt=tdt, min_samples_leaf=msl, smoothing=sm)
    m.seen(tdt, outside, None in x, msl)
    if outside:
        tgt = m.pick(t, pl.Series(t).cast(tdt), np.array(t))
        if isinstance(tgt, np.ndarray):
            m.seen("numpy target")
        got = m.call("target_encode", lambda: df.select(N.target_encode("x", tgt, msl, sm)).to_series())
    else:
        got, odt = ev_vec(m, df, N.target_encode(m.pick("x", pl.col("x")), m.pick("t", pl.col("t")), msl, sm), "target_encode")
        m.eq(odt, pl.Struct({"value": pl.String, "to": pl.Float64}), "target_encode:dtype")
    got = [d for d in got if d is not None]          # (an empty list, exploded)
    mean = float(np.mean(t))
    want = {}
    for v in set(x) - {None}:
        mine = [ti for xi, ti in zip(x, t) if xi == v]
        al = 1 / (1 + math.exp(-(len(mine) - msl) / sm))
        want[v] = al * float(np.mean(mine)) + (1 - al) * mean
    g = {d["value"]: d["to"] for d in got if d["value"] is not None}
    m.eq(len([d for d in got if d["value"] is not None]), len(g), "target_encode:repeats")
    m.eq(sorted(g), sorted(want), "target_encode:categories")
    for v in want:
        m.close(g[v], want[v], "target_encode:value", 1e-6 if tdt == pl.Float32 else 1e-12, 1e-12)


@case("P20", quick=1, thorough=12)
def long(m):
    """Sets and lists of more than 2^16 members."""
    r = m.rng
    n = 140_000
    lap = int(r.integers(60_000, 90_000))
    text = m.chance(0.3)
    a, b = np.arange(n), np.arange(n) + n - lap
    r.shuffle(a), r.shuffle(b)
    a, b = (([f"k{v}" for v in x] if text else [int(v) for v in x]) for x in (a, b))
    m.note(lap=lap, text=text)
    df = frame(r, {"a": a, "b": b})
    m.seen("long", text)
    want = lap / (2 * n - lap)
    m.close(ev_scalar(m, df, pds.jaccard_col("a", "b"), "jaccard_col", ctxs=("select", "lazy")), want, "jaccard_col:long", 1e-12, 0)
    rows = pl.DataFrame({"a": [a, a[:3]], "b": [b, b[:3]]})
    got = m.call("jaccard_row", lambda: rows.select(r=pds.jaccard_row("a", "b"))["r"].to_list())
    m.close(got[:1], [want], "jaccard_row:long", 1e-12, 0)
