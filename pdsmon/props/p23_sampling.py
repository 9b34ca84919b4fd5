"""P23: samples, splits and partitions: exact sizes, no row invented, duplicated or lost."""
import math
import numpy as np, polars as pl, scipy.stats as st
from polars_ds.sample_and_split import sample, volume_neutral, downsample, random_cols, split_by_ratio
from polars_ds.partition import PartitionHelper
from ..core import case, Inconclusive
from .. import gen

PMIN = 1e-12


def data(m, nmax=60):
    r = m.rng
    n = int(r.integers(1, m.pick(6, 20, nmax)))
    k = int(r.integers(1, 5))
    df = gen.frame(r, {"id": pl.Series(range(n)), "g": gen.series(r, "g", [f"g{i}" for i in r.integers(0, k, n)]),
                       "c": gen.series(r, "c", [int(i) for i in r.integers(0, 3, n)]),
                       "v": gen.series(r, "v", gen.with_nulls(r, r.normal(size=n), 0.2), pl.Float64)})
    lazy = m.chance(0.4)
    m.seen("lazy" if lazy else "eager")
    return df, (df.lazy() if lazy else df), n


def intact(m, df, out, sig, ordered=True):
    """out consists of distinct whole rows of df (in their order)"""
    m.eq(out.columns, df.columns, f"{sig}:columns")
    m.eq(dict(out.schema), dict(df.schema), f"{sig}:schema")
    ids = out["id"].to_list()
    m.eq(len(set(ids)), len(ids), f"{sig}:duplicates")
    src = {t[0]: t for t in df.rows()}
    for t in out.rows():
        m.ok(src.get(t[0]) == t, f"{sig}:row", lambda: f"{t} is not a row of the input")
    if ordered:
        m.eq(ids, sorted(ids), f"{sig}:order")
    return ids


def seeded(m, seed, fn, ids, sig):
    if seed is not None:
        m.eq(fn()["id"].to_list(), ids, f"{sig}:seeded")


@case("P23", quick=80, thorough=1000)
def sampling(m):
    df, src, n = data(m)
    val = m.pick(0.5, 0.1, 0.33, 0.999, 1, 3, 10, 1000)
    seed = m.pick(None, 1, int(m.rng.integers(0, 1 << 30)))
    m.note(df=df, val=val, seed=seed)
    out = m.call("sample", lambda: sample(src, val, seed=seed))
    want = int(np.floor(n * val)) if isinstance(val, float) else min(n, val)
    m.ok(abs(out.height - want) <= (0 if isinstance(val, int) or abs(n * val - round(n * val)) > 1e-9 else 1),
         "sample:size", lambda: f"{out.height} want {want}")
    m.seen("float" if isinstance(val, float) else "int", out.height == 0, out.height == n)
    ids = intact(m, df, out, "sample")
    seeded(m, seed, lambda: sample(src, val, seed=seed), ids, "sample")
    for bad in (0.0, 1.0, 1.5, -0.2, 0, -3, "x"):
        e = m.call("sample", lambda: sample(df, bad), expect_error=True)
        m.ok(isinstance(e, ValueError), "sample:refusal", lambda: f"{bad!r}: {e!r}")


@case("P23", quick=8, thorough=40)
def fairness(m):
    """Every row is equally likely to be kept."""
    n, N = 12, 400
    df = pl.DataFrame({"id": range(n), "g": [0] * 6 + [1] * 6})
    which = m.pick("sample", "down", "split", "neutral")
    base = int(m.rng.integers(0, 1 << 20))
    cnt = np.zeros(n)
    m.note(which=which, base=base)
    m.seen(which)
    for i in range(N):
        s = base + i
        out = m.call(which, lambda: {"sample": lambda: sample(df, 4, seed=s), "down": lambda: downsample(df, (pl.col("g") >= 0, 0.34), seed=s),
               "split": lambda: split_by_ratio(df, 0.34, seed=s)[0], "neutral": lambda: volume_neutral(df, pl.col("g"), target_volume=2, seed=s)}[which]())
        m.eq(out.height, 4, f"{which}:size")
        cnt[out["id"].to_numpy()] += 1
    p = st.chisquare(cnt).pvalue
    m.ok(p > 1e-9, f"{which}:fair", lambda: cnt.tolist())


@case("P23", quick=80, thorough=1000)
def down(m):
    df, src, n = data(m)
    seed = m.pick(None, 1, int(m.rng.integers(0, 1 << 30)))
    conds = m.pick([0], [1], [0, 1], [2], [3], [1, 4])
    specs = {0: (pl.col("c") == 0, 0.5), 1: (pl.col("c") == 1, 2), 2: (pl.col("v") > 0, 0.34), 3: (pl.col("g") == "g0", 1), 4: (pl.col("c") == 2, 0.75)}
    masks = {0: df["c"] == 0, 1: df["c"] == 1, 2: (df["v"] > 0).fill_null(False), 3: df["g"] == "g0", 4: df["c"] == 2}
    m.note(df=df, conds=conds, seed=seed)
    m.seen(*conds)
    out = m.call("downsample", lambda: downsample(src, *[specs[c] for c in conds], seed=seed))
    ids = set(intact(m, df, out, "downsample"))
    free = set(range(n))
    for c in conds:
        sub = set(df["id"].filter(masks[c]).to_list())
        free -= sub
        r = specs[c][1]
        want = int(np.floor(len(sub) * r)) if isinstance(r, float) else min(len(sub), r)
        got = len(sub & ids)
        m.ok(abs(got - want) <= (1 if isinstance(r, float) and abs(len(sub) * r - round(len(sub) * r)) < 1e-9 else 0),
             "downsample:size", lambda: f"{got} of {len(sub)} kept, want {want}")
    m.ok(free <= ids, "downsample:untouched", lambda: free - ids)
    seeded(m, seed, lambda: downsample(src, *[specs[c] for c in conds], seed=seed), out["id"].to_list(), "downsample")


@case("P23", quick=80, thorough=1000)
def neutral(m):
    df, src, n = data(m)
    seed = m.pick(None, 1, int(m.rng.integers(0, 1 << 30)))
    control = m.pick(None, "expr", "list")
    target = m.pick(None, None, 1, 3, 50)
    m.note(df=df, control=control, target=target, seed=seed)
    m.seen(control, target)
    ctrl = {None: None, "expr": pl.col("c"), "list": [pl.col("c"), pl.col("id") % 2]}[control]
    go = lambda: volume_neutral(src, pl.col("g"), control=ctrl, target_volume=target, seed=seed)
    out = m.call("volume_neutral", go)
    ids = set(intact(m, df, out, "volume_neutral"))
    cells = {}
    for i, (g, c) in enumerate(zip(df["g"], df["c"])):
        key = {None: (), "expr": (c,), "list": (c, i % 2)}[control]
        cells.setdefault(key, {}).setdefault(g, set()).add(i)
    for key, by in cells.items():
        want = min(len(s) for s in by.values())
        if target is not None:
            want = min(want, target)
        for g, s in by.items():
            m.eq(len(s & ids), want, "volume_neutral:size", f"{key} {g}")
    seeded(m, seed, go, out["id"].to_list(), "volume_neutral")


@case("P23", quick=120, thorough=1500)
def split(m):
    df, src, n = data(m)
    seed = m.pick(None, 1, int(m.rng.integers(0, 1 << 30)))
    ratio = m.pick(0.5, 0.1, 0.75, 0.999, [0.7, 0.2, 0.1], [0.33, 0.33, 0.34], [0.5, 0.5], [0.1] * 10, (0.25, 0.75), [0.6], [1 / 3, 1 / 3, 1 / 3])
    m.note(df=df, ratio=ratio, seed=seed)
    m.seen(repr(ratio), n < 4)
    parts = m.call("split", lambda: split_by_ratio(src, ratio, seed=seed))
    rs = [ratio, 1 - ratio] if isinstance(ratio, float) else [ratio[0], 1 - ratio[0]] if len(ratio) == 1 else list(ratio)
    m.eq(len(parts), len(rs), "split:parts")
    allids = []
    for q, (part, r) in enumerate(zip(parts, rs)):
        ids = intact(m, df, part, "split", ordered=False)
        allids += ids
        slack = 1 + 1e-9 if q < len(rs) - 1 else len(rs)
        m.ok(abs(len(ids) - n * r) <= slack, "split:size", lambda: f"part {q}: {len(ids)} of {n} rows for {r}")
    m.eq(sorted(allids), list(range(n)), "split:complete")
    if seed is not None:
        again = split_by_ratio(src, ratio, seed=seed)
        m.eq([p["id"].to_list() for p in again], [p["id"].to_list() for p in parts], "split:seeded")
    for bad in (0.0, 1.0, 1.2, [0.5, 0.2], [0.7, 0.7]):
        e = m.call("split", lambda: split_by_ratio(df, bad), expect_error=True)
        m.ok(isinstance(e, ValueError), "split:refusal", lambda: f"{bad!r}: {e!r}")


@case("P23", quick=40, thorough=400)
def columns(m):
    r = m.rng
    pool = [f"c{i}" for i in range(int(r.integers(1, 8)))]
    keep = m.pick(None, [], pool[:1], pool[-2:])
    avail = len(pool) - len(keep or [])
    k = int(r.integers(0, avail + 2))
    seed = m.pick(None, 1, int(r.integers(0, 1 << 30)))
    m.note(pool=pool, keep=keep, k=k, seed=seed)
    kept = list(keep) if keep is not None else None
    out = m.call("random_cols", lambda: random_cols(pool, k, keep=keep, seed=seed), expect_error=k > avail)
    m.seen(k > avail, k, len(keep or []))
    if k > avail:
        m.ok(isinstance(out, ValueError), "random_cols:refusal", repr(out))
        return
    m.eq(keep, kept, "random_cols:mutated")
    m.eq(out[:len(keep or [])], list(keep or []), "random_cols:keep")
    m.eq(len(out), k + len(keep or []), "random_cols:count")
    m.ok(len(set(out)) == len(out) and set(out) <= set(pool), "random_cols:columns", out)
    if seed is not None:
        m.eq(random_cols(pool, k, keep=keep, seed=seed), out, "random_cols:seeded")
    if avail >= 3 and 0 < k < avail:
        got = {tuple(random_cols(pool, k, keep=keep, seed=s)) for s in range(60)}
        m.ok(len(got) > 1, "random_cols:varies", got)
        m.eq({x for t in got for x in t}, set(pool), "random_cols:reach")


@case("P23", quick=60, thorough=600)
def partition(m):
    df, src, n = data(m)
    df = df.with_columns(b=pl.col("c") == 0, k=pl.col("g").cast(pl.Categorical))
    if m.chance(0.4):  # null is a group too
        df = df.with_columns(pl.when(pl.col("id") % m.pick(2, 3, 4) == 0).then(None).otherwise(pl.col(c)).alias(c) for c in ("g", "b", "k"))
    src = df.lazy() if isinstance(src, pl.LazyFrame) else df
    by = m.pick(None, "g", "b", "k", ["g"], ["g", "b"], ["b", "g"], "c", ["g", "v"])
    sep = m.pick("|", "-")
    m.note(df=df, by=by, sep=sep)
    m.seen(repr(by))
    bad = by == "c" or by == ["g", "v"]
    h = m.call("partition", lambda: PartitionHelper(src, by, separator=sep, whole_df_name="all"), expect_error=bad)
    if bad:
        m.ok(isinstance(h, Exception), "partition:refusal", repr(h))
        return
    names = h.names()
    keys = [] if by is None else [by] if isinstance(by, str) else by
    want = {}
    for row in df.to_dicts():
        want.setdefault(sep.join(str(row[c]) for c in keys) if keys else "all", []).append(row["id"])
    m.eq(sorted(names), sorted(want), "partition:names")
    for nm in names:
        m.eq(intact(m, df, h.get(nm), "partition"), want[nm], "partition:rows")
        m.eq(h.head(2)[nm]["id"].to_list(), want[nm][:2], "partition:head")
    m.ok(h.get("nosuch") is None, "partition:get")
    res = m.call("apply", lambda: h.apply(lambda nm, d: (nm, d.height)))
    m.eq(res, {k: (k, len(v)) for k, v in want.items()}, "partition:apply")
    some = names[0]

    def flaky(nm, d):
        if nm == some:
            raise RuntimeError("x")
        return d.height
    res = m.call("apply", lambda: h.apply(flaky))
    m.eq(res, {k: len(v) for k, v in want.items() if k != some}, "partition:apply-error")
    m.call("repr", lambda: repr(h))
