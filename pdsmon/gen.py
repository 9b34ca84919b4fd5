"""Workload generation: values, physical layouts (chunking, slicing, masked garbage under nulls)
and evaluation contexts."""
import numpy as np
import polars as pl


def floats(rng, n, kind=None):
    kind = kind or rng.choice(["normal", "uniform", "ties", "wide", "smallint", "offset"])
    if kind == "normal":
        v = rng.normal(size=n)
    elif kind == "uniform":
        v = rng.uniform(-5, 5, n)
    elif kind == "ties":
        v = rng.integers(-3, 4, n).astype(float) / 2
    elif kind == "smallint":
        v = rng.integers(-10, 11, n).astype(float)
    elif kind == "wide":
        v = rng.normal(size=n) * 10.0 ** rng.integers(-3, 4, n)
    else:
        v = rng.normal(size=n) + rng.choice([-50.0, 20.0, 100.0])
    return v


def with_nulls(rng, vals, p=0.2):
    """list of python values with None at random places"""
    mask = rng.random(len(vals)) < p
    return [None if m else (v.item() if isinstance(v, np.generic) else v) for v, m in zip(vals, mask)]


def series(rng, name, vals, dtype=None, layout=None, garbage=True):
    """A series with the given logical values and a random physical layout."""
    s = pl.Series(name, vals, dtype=dtype, strict=False)
    if garbage and s.null_count() and s.dtype in (pl.Float64, pl.Float32) and rng.random() < 0.5:
        # the slots behind nulls hold arbitrary values
        filled = s.fill_null(float(rng.choice([1e9, -7.25, np.nan, 1.0])))
        mask = s.is_null()
        s = pl.select(pl.when(~mask).then(filled).otherwise(None)).to_series().alias(name)
    return relayout(rng, s, layout)


def relayout(rng, s, layout=None):
    layout = layout or rng.choice(["one", "chunks", "slice", "chunks"])
    n = len(s)
    if layout == "one" or n == 0:
        return s.rechunk()
    if layout == "slice":
        pre, post = int(rng.integers(1, 5)), int(rng.integers(0, 5))
        pad = s.gather(rng.integers(0, n, pre)), s.gather(rng.integers(0, n, post)) if post else s.clear()
        return pl.concat([pad[0], s, pad[1]], rechunk=True).slice(pre, n)
    k = int(rng.integers(1, min(n, 5) + 1))
    cuts = [0] + sorted(set(int(c) for c in rng.integers(0, n + 1, k))) + [n]
    parts = [s.slice(a, b - a) for a, b in zip(cuts, cuts[1:]) if b > a]
    return pl.concat(parts, rechunk=False) if parts else s


def frame(rng, cols, layout=None):
    """cols: dict name -> list/array/Series. Random layout, same for all columns or per column."""
    out = []
    per = rng.random() < 0.3
    base = layout or rng.choice(["one", "chunks", "slice", "chunks"])
    ser = {k: (v if isinstance(v, pl.Series) else pl.Series(k, v, strict=False)).alias(k) for k, v in cols.items()}
    if layout == "each" or (per and layout is None):
        return pl.DataFrame([relayout(rng, s) for s in ser.values()])
    df = pl.DataFrame(list(ser.values()))
    n = df.height
    if n == 0 or base == "one":
        return df.rechunk()
    if base == "slice":
        pre = int(rng.integers(1, 5))
        idx = rng.integers(0, n, pre)
        return pl.concat([df[idx.tolist()], df, df[idx.tolist()]], rechunk=True).slice(pre, n)
    k = int(rng.integers(1, min(n, 5) + 1))
    cuts = [0] + sorted(set(int(c) for c in rng.integers(0, n + 1, k))) + [n]
    parts = [df.slice(a, b - a) for a, b in zip(cuts, cuts[1:]) if b > a]
    return pl.concat(parts, rechunk=False)


def ev(m, df, expr, label, expect_error=False, ctx=None):
    """Evaluates one expression against df in a random evaluation context; returns a Series."""
    ctx = ctx or m.pick("select", "select", "lazy", "with_columns")
    m.seen("ctx", ctx)

    def go():
        if ctx == "select":
            return df.select(__r=expr).to_series()
        if ctx == "lazy":
            return df.lazy().select(__r=expr).collect().to_series()
        if ctx == "with_columns":
            # forces a second plugin call in the same plan
            return df.lazy().select(__r=expr, __n=pl.len()).select("__r").collect().to_series()
        raise ValueError(ctx)
    return m.call(label, go, expect_error=expect_error)


def rand_words(rng, n, alpha="ab", lo=0, hi=7, nulls=0.0):
    out = []
    for _ in range(n):
        if nulls and rng.random() < nulls:
            out.append(None)
        else:
            L = int(rng.integers(lo, hi + 1))
            out.append("".join(rng.choice(list(alpha), L)) if L else "")
    return out


def ev_scalar(m, df, expr, label, expect_error=False, ctxs=("select", "lazy", "with_columns", "group", "over")):
    """Evaluates an expression that aggregates df to one value, in a random evaluation context in which
    it must give that same value: alone, broadcast, in one group among others, over a partition."""
    ctx = m.pick(*ctxs)
    if df.height == 0 and ctx != "select":
        ctx = "lazy"
    m.seen("ctx", ctx)

    def go():
        if ctx == "select":
            return df.select(__r=expr)["__r"]
        if ctx == "lazy":
            return df.lazy().select(__r=expr).collect()["__r"]
        if ctx == "with_columns":
            return df.with_columns(__r=expr)["__r"]
        # decoy groups of resampled rows, interleaved with ours; our own rows stay in order
        n = df.height
        # (the decoy contains all our rows too, so that whatever is defined for df is defined for it)
        idx = m.rng.permutation(np.concatenate([np.arange(n), m.rng.integers(0, n, int(m.rng.integers(1, n + 1)))]))
        k = len(idx)
        decoy = df[idx.tolist()].with_columns(__g=pl.lit(1, pl.Int32))
        both = pl.concat([df.with_columns(__g=pl.lit(0, pl.Int32)), decoy], rechunk=True)
        key = np.concatenate([np.sort(m.rng.random(n)), m.rng.random(k)])
        both = both[np.argsort(key, kind="stable").tolist()]
        if m.chance(0.5):
            both = pl.concat([both.slice(0, n // 2), both.slice(n // 2)], rechunk=False)
        if ctx == "group":
            out = both.lazy().group_by("__g").agg(__r=expr).collect().filter(pl.col("__g") == 0)
            return out["__r"]
        out = both.lazy().with_columns(__r=expr.over("__g")).collect().filter(pl.col("__g") == 0)
        return out["__r"]
    got = m.call(label, go, expect_error=expect_error)
    if isinstance(got, Exception):
        return got
    want_len = df.height if ctx in ("with_columns", "over") else 1
    m.ok(len(got) == want_len, f"{label}:length", lambda: f"{ctx}: {len(got)} rows, want {want_len}")
    vals = got.to_list()
    from .core import _same
    for v in vals[1:]:
        m.ok(_same(list(v.values()) if isinstance(v, dict) else v,
                   list(vals[0].values()) if isinstance(vals[0], dict) else vals[0]),
             f"{label}:broadcast", lambda: f"{ctx}: {vals[0]} vs {v}")
    return vals[0]


def ev_rows(m, df, expr, label, ctxs=("select", "lazy", "with_columns", "over", "group", "filter", "slice", "head")):
    """Evaluates an expression with one result per row in a random evaluation context in which each row must
    keep its own result. Returns (indices of the rows that came back, their values, dtype, schema dtype or None)."""
    ctx = m.pick(*ctxs)
    n = df.height
    if n == 0 and ctx in ("over", "group"):
        ctx = "lazy"
    m.seen("ctx", ctx)
    d = df.with_columns(__i=pl.Series("__i", np.arange(n), dtype=pl.Int64))
    if df.n_chunks() == 1:
        d = d.rechunk()
    if ctx in ("over", "group"):
        g = m.rng.integers(0, int(m.pick(1, 2, 5, max(1, n))), n)
        d = d.with_columns(__g=pl.Series("__g", g, dtype=pl.Int64))
    a = int(m.rng.integers(0, n + 1))
    b = int(m.rng.integers(0, n - a + 1))

    def go():
        if ctx == "select":
            return d.select("__i", __r=expr)
        if ctx == "lazy":
            return d.lazy().select("__i", __r=expr).collect()
        if ctx == "with_columns":
            return d.lazy().with_columns(__r=expr, __n=pl.len()).select("__i", "__r").collect()
        if ctx == "over":
            return d.lazy().with_columns(__r=expr.over("__g")).select("__i", "__r").collect()
        if ctx == "group":
            return d.lazy().group_by("__g").agg(pl.col("__i"), __r=expr).explode("__i", "__r").select("__i", "__r").collect()
        if ctx == "filter":
            return d.lazy().with_columns(__r=expr).filter(pl.col("__i") % 3 != a % 3).select("__i", "__r").collect()
        if ctx == "slice":
            return d.lazy().with_columns(__r=expr).slice(a, b).select("__i", "__r").collect()
        return d.lazy().select("__i", __r=expr).head(b).collect()
    out = m.call(label, go)
    idx = out["__i"].to_list()
    want = {"filter": [i for i in range(n) if i % 3 != a % 3], "slice": list(range(a, a + b)), "head": list(range(min(n, b)))}
    want = want.get(ctx, list(range(n)))
    m.ok((sorted(idx) if ctx == "group" else idx) == want, f"{label}:rows", lambda: f"{ctx}: rows {idx[:20]} want {want[:20]}")
    return idx, out["__r"].to_list(), out["__r"].dtype


def ev_vec(m, df, expr, label, expect_error=False, ctxs=("select", "lazy", "group", "group", "two")):
    """Evaluates an expression that turns df into a column of its own length: alone, lazily, or in one group
    among others. Returns (values, dtype)."""
    ctx = m.pick(*ctxs)
    n = df.height
    if n == 0 and ctx == "group":
        ctx = "lazy"
    m.seen("ctx", ctx)

    def go():
        if ctx == "select":
            return df.select(__r=expr)["__r"]
        if ctx == "lazy":
            return df.lazy().select(__r=expr).collect()["__r"]
        if ctx == "two":
            out = df.lazy().select(__r=expr, __s=expr).collect()
            if not out["__r"].equals(out["__s"], null_equal=True) and str(out["__r"].to_list()) != str(out["__s"].to_list()):
                m.fail(label + ":unstable", f"{out['__r']} {out['__s']}")
            return out["__r"]
        idx = m.rng.permutation(np.concatenate([np.arange(n), m.rng.integers(0, n, int(m.rng.integers(0, n + 1)))]))
        decoy = df[idx.tolist()].with_columns(__g=pl.lit(1, pl.Int32))
        both = pl.concat([df.with_columns(__g=pl.lit(0, pl.Int32)), decoy], rechunk=True)
        key = np.concatenate([np.sort(m.rng.random(n)), m.rng.random(len(idx))])
        both = both[np.argsort(key, kind="stable").tolist()]
        if m.chance(0.5):
            both = pl.concat([both.slice(0, n // 2), both.slice(n // 2)], rechunk=False)
        out = both.lazy().group_by("__g").agg(__r=expr).collect().filter(pl.col("__g") == 0)["__r"]
        return out.explode() if out.dtype == pl.List else out
    got = m.call(label, go, expect_error=expect_error)
    if isinstance(got, Exception):
        return got
    return got.to_list(), got.dtype
