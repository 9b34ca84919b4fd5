"""P24: what an expression announces is what it returns, and where it is evaluated does not change it."""
import io, math, pickle
import numpy as np
import polars as pl
from pdsmon import catalog as C
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame

NAMES = sorted(C.ENTRIES)
STABLE = [n for n in NAMES if not C.ENTRIES[n].get("rand")]


def flat(v):
    """nested python value -> list of leaves with structure markers"""
    if isinstance(v, dict):
        return [x for k in v for x in [("k", k)] + flat(v[k])]
    if isinstance(v, (list, tuple)):
        return [("l", len(v))] + [x for y in v for x in flat(y)]
    return [v]


def canon(e, values):
    """values in a comparable form: order-free where the function leaves the order open, sign-free for PCA"""
    if e.get("unordered"):
        values = [sorted(v, key=str) if isinstance(v, list) else v for v in values]
        if e["shape"] == "vec":
            values = sorted(values, key=str)
    return values


def agree(e, a, b, rtol=1e-6, atol=1e-8):
    x, y = flat(canon(e, a)), flat(canon(e, b))
    if len(x) != len(y):
        return f"{len(x)} against {len(y)} values"
    for p, q in zip(x, y):
        if isinstance(p, float) and isinstance(q, float):
            if e.get("sign"):
                p, q = abs(p), abs(q)
            if math.isnan(p) or math.isnan(q):
                if math.isnan(p) != math.isnan(q):
                    return f"{p} against {q}"
            elif p != q and not abs(p - q) <= atol + rtol * max(abs(p), abs(q)):
                return f"{p} against {q}"
        elif p != q:
            return f"{p!r} against {q!r}"
    return None


def outcome(f):
    try:
        return f(), None
    except Exception as e:          # a panic is not an Exception and is left to fly
        return None, e


def draw(m, names, ns=(3, 8, 20, 45)):
    name = names[m.i % len(names)]
    e = C.ENTRIES[name]
    n = int(m.pick(*((3, 8) if e.get("small") else ns)))
    cols = C.plain(m.rng, n)
    seed = int(m.rng.integers(1 << 30))
    df = C.to_df(cols)
    m.note(entry=name, rows=n, seed=seed, f0=cols["f0"])
    m.seen(name)
    return name, e, seed, df


@case("P24", quick=2 * len(NAMES), thorough=30 * len(NAMES))
def announced(m):
    """Names and types promised by the lazy schema are those of the result, in every context."""
    name, e, seed, df = draw(m, NAMES)
    x = C.make(name, seed)
    alias = m.chance(0.3)
    if alias:
        x = x.alias("out")
    ctx = m.pick("select", "select", "with_columns", "agg", "over")
    if ctx == "with_columns" and e["shape"] == "vec" or ctx == "over" and e["shape"] == "vec":
        ctx = "agg"
    m.seen(ctx)
    lf = df.lazy()
    if ctx == "select":
        q = lf.select(x)
    elif ctx == "with_columns":
        q = lf.with_columns(x)
    elif ctx == "agg":
        q = lf.group_by("c0", maintain_order=True).agg(x)
        if not alias and x.meta.output_name() == "c0":
            q = lf.group_by("k0", maintain_order=True).agg(x)
    else:
        q = lf.with_columns(x.over("k0"))
    schema = m.call(name, lambda: q.collect_schema())
    out, err = outcome(lambda: m.call(name, lambda: q.collect(), expect_error=True))
    if isinstance(out, Exception) or err is not None:
        raise Inconclusive("refused")
    inner = ctx in ("agg", "over")
    if inner and not alias and ("field_by_name" in str(x)):
        raise Inconclusive("Polars itself misnames struct fields here")
    m.eq(list(schema.names()), out.columns, f"{name}:announced-name", ctx)
    for c in out.columns:
        if inner and ".so:" not in str(x).rsplit("(", 2)[0][-60:] and schema[c] != out[c].dtype and pl.List(schema[c]) == out[c].dtype:
            continue                                  # Polars' own arithmetic between a group and its aggregate
        m.ok(schema[c] == out[c].dtype, f"{name}:announced-type", lambda: f"{ctx} {c}: announced {schema[c]}, got {out[c].dtype}")


@case("P24", quick=2 * len(STABLE), thorough=40 * len(STABLE))
def placed(m):
    """The same rows give the same result alone, in a group among others, in a filter, lazily, next to other expressions."""
    name, e, seed, df = draw(m, STABLE)
    n = df.height
    x = C.make(name, seed)
    want, err = outcome(lambda: df.select(r=x)["r"])
    ctx = m.pick("group", "group", "filter", "lazy", "beside", "slice", "twice", "over", "after_filter", "broadcast")
    if e["shape"] == "vec" and ctx in ("over", "after_filter", "broadcast", "beside"):
        ctx = "group"
    if e["shape"] == "rows" and ctx == "broadcast":
        ctx = "after_filter"
    if e["shape"] == "scalar" and ctx == "after_filter":
        ctx = "broadcast"
    if ctx == "over" and name.startswith("psi"):
        ctx = "group"                                 # Polars loses the struct fields psi reads inside over
    m.seen(ctx, e["shape"])
    k = int(m.rng.integers(1, n + 1))
    idx = np.concatenate([np.arange(n), m.rng.integers(0, n, k)])
    tag = np.concatenate([np.zeros(n), np.ones(k)])
    o = np.argsort(np.concatenate([np.sort(m.rng.random(n)), m.rng.random(k)]), kind="stable")
    both = df[idx[o].tolist()].with_columns(__g=pl.Series(tag[o], dtype=pl.Int64))
    if ctx == "group":
        f = lambda: both.lazy().group_by("__g").agg(r=x).filter(pl.col("__g") == 0).collect()["r"]
    elif ctx == "filter":
        f = lambda: both.lazy().filter(pl.col("__g") == 0).select(r=x).collect()["r"]
    elif ctx == "lazy":
        f = lambda: df.lazy().select(r=x).collect()["r"]
    elif ctx == "beside":
        other = C.make(m.pick(*[s for s in STABLE if C.ENTRIES[s]["shape"] != "vec"]), int(m.rng.integers(1 << 30)))
        f = lambda: df.lazy().select(a=pl.len(), r=x, b=pl.col("f0").sum(), d=pl.col("f0") * 2).collect()["r"]
        g, _ = outcome(lambda: df.select(other))
        if g is not None:
            f = lambda: df.lazy().with_columns(a=pl.len(), r=x, b=other).collect()["r"]
    elif ctx == "slice":
        pad = df[m.rng.integers(0, n, 3).tolist()]
        f = lambda: pl.concat([pad, df, pad]).lazy().slice(3, n).select(r=x).collect()["r"]
    elif ctx == "twice":
        f = lambda: df.lazy().select(r=x, s=x).collect()["s"]
    elif ctx == "over":
        f = lambda: both.lazy().with_columns(r=x.over("__g")).filter(pl.col("__g") == 0).collect()["r"]
    elif ctx == "after_filter":
        keep = m.rng.random(n) < 0.6
        d = df.with_columns(__k=pl.Series(keep))
        f = lambda: d.lazy().with_columns(r=x).filter("__k").collect()["r"]
    else:
        f = lambda: df.lazy().with_columns(r=x).collect()["r"]
    got, err2 = outcome(f)
    if err is not None or err2 is not None:
        m.eq(err2 is None, err is None, f"{name}:refused-in-some-places", f"{ctx}: {err!r} / {err2!r}"[:300])
        return
    w, g = want.to_list(), got.to_list()
    if ctx == "group" and e["shape"] != "scalar" and got.dtype == pl.List(want.dtype):
        g = g[0]
    if e["shape"] == "scalar" and ctx in ("over", "broadcast", "beside"):
        w = w * len(g)
    if ctx == "after_filter":
        w = [v for v, kk in zip(w, keep) if kk]
    m.calls += 2
    why = agree(e, g, w)
    m.ok(why is None, f"{name}:depends-on-place", lambda: f"{ctx}: {why}; got {str(g)[:200]} want {str(w)[:200]}")


@case("P24", quick=2 * len(STABLE), thorough=30 * len(STABLE))
def laid_out(m):
    """How the columns are laid out in memory does not show in the result."""
    name, e, seed, df = draw(m, STABLE)
    x = C.make(name, seed)
    want, err = outcome(lambda: df.rechunk().select(r=x)["r"])
    pure = ".so:" not in str(x)                       # Polars' own arithmetic loses chunks with one thread
    d2 = frame(m.rng, {c: df[c] for c in df.columns}, layout=m.pick("one", "slice") if pure else m.pick("each", "each", None))
    m.seen("chunks", d2["f0"].n_chunks() > 1, len({d2[c].n_chunks() for c in d2.columns}) > 1)
    if m.chance(0.3):
        d2 = d2[[d2.columns[i] for i in m.rng.permutation(d2.width).tolist()]]
    got, err2 = outcome(lambda: d2.lazy().select(r=x).collect()["r"])
    if err is not None or err2 is not None:
        m.eq(err2 is None, err is None, f"{name}:refused-in-some-layouts", f"{err!r} / {err2!r}"[:300])
        return
    m.calls += 2
    m.eq(str(got.dtype), str(want.dtype), f"{name}:type-depends-on-layout")
    why = agree(e, got.to_list(), want.to_list())
    m.ok(why is None, f"{name}:depends-on-layout", lambda: f"{why}; got {str(got.to_list())[:200]} want {str(want.to_list())[:200]}")


def ordered(vals, descending):
    v = [x for x in vals if x is not None]
    if any(isinstance(x, float) and math.isnan(x) for x in v):
        v = [(1, 0.0) if math.isnan(x) else (0, x) for x in v]      # NaN counts as the greatest
    return all((a >= b) if descending else (a <= b) for a, b in zip(v, v[1:]))


def leaves(s):
    """a series and the series inside it"""
    yield s
    if isinstance(s.dtype, pl.List):
        yield from leaves(s.explode())
    elif isinstance(s.dtype, pl.Struct):
        for f in s.struct.fields:
            yield from leaves(s.struct.field(f))


def attempt(f):
    """some of Polars' own operations panic on some types: the same must come of the same values"""
    try:
        return f(), None
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return None, type(e).__name__


@case("P24", quick=2 * len(NAMES), thorough=30 * len(NAMES))
def well_formed(m):
    """A result is a proper column: its null count, sortedness marks, lengths and buffers are what they claim to be,
    and whatever is done with it next treats it as the values it shows."""
    name, e, seed, df = draw(m, NAMES)
    if m.chance(0.4):
        hole = m.rng.random(df.height) < 0.3
        hole = pl.Series(hole if not hole.all() else ~hole)
        df = df.with_columns(pl.when(hole).then(None).otherwise(pl.col(c)).alias(c) for c in ("f0", "f1", "f2", "h0", "i0", "s0", "b0", "q0"))
        m.seen("nulls")
    lay = m.chance(0.4)
    d2 = frame(m.rng, {c: df[c] for c in df.columns}, layout=m.pick("one", "slice")) if lay else df
    got, err = outcome(lambda: d2.lazy().select(r=C.make(name, seed)).collect()["r"])
    m.calls += 1
    if err is not None:
        raise Inconclusive("refused")
    vals = got.to_list()
    m.seen(str(got.dtype)[:20], got.null_count() > 0, got.n_chunks() > 1)
    m.eq(len(got), len(vals), f"{name}:length")
    for k, s in enumerate(leaves(got)):
        v = s.to_list()
        m.eq(s.null_count(), sum(x is None for x in v), f"{name}:null-count", f"level {k}")
        m.eq(s.has_nulls(), any(x is None for x in v), f"{name}:has-nulls", f"level {k}")
        for flag, desc in (("SORTED_ASC", False), ("SORTED_DESC", True)):
            if s.flags.get(flag):
                m.seen("marked", flag)
                m.ok(ordered(v, desc), f"{name}:marked-sorted", lambda: f"{flag} on {str(v)[:300]}")
    arr = got.to_arrow()
    ok, why = outcome(lambda: arr.validate(full=True))
    m.ok(why is None, f"{name}:arrow", lambda: repr(why))
    m.eq(repr(arr.to_pylist()), repr(vals), f"{name}:arrow-values") if not isinstance(got.dtype, pl.Struct) else m.eq(len(arr), len(vals), f"{name}:arrow-length")
    buf = io.BytesIO()
    pl.DataFrame({"r": got}).write_ipc(buf)
    buf.seek(0)
    m.eq(repr(pl.read_ipc(buf)["r"].to_list()), repr(vals), f"{name}:ipc")
    m.eq(repr(pickle.loads(pickle.dumps(got)).to_list()), repr(vals), f"{name}:pickle")
    # the same values in a column Polars has built itself
    own = pl.Series("r", vals, dtype=got.dtype, strict=False)
    n = len(vals)
    idx = m.rng.integers(0, n, n).tolist() if n else []
    deeds = {
        "take": lambda s: s.gather(idx), "reverse": lambda s: s.reverse(), "slice": lambda s: s.slice(n // 3, n // 2), "rechunk": lambda s: s.rechunk(),
        "append": lambda s: pl.concat([s, s]), "is_null": lambda s: s.is_null(), "drop_nulls": lambda s: s.drop_nulls(), "shift": lambda s: s.shift(1),
        "filter": lambda s: s.filter(pl.Series([i % 2 == 0 for i in range(n)], dtype=pl.Boolean)), "fill": lambda s: s.fill_null(strategy="forward"),
    }
    if not isinstance(got.dtype, (pl.List, pl.Struct)):
        deeds.update(sort=lambda s: s.sort(), sort_desc=lambda s: s.sort(descending=True), arg_sort=lambda s: s.arg_sort(), unique=lambda s: s.unique().sort(),
                     min=lambda s: pl.Series([s.min()]), max=lambda s: pl.Series([s.max()]), rank=lambda s: s.rank("min"),
                     group=lambda s: s.to_frame("r").group_by("r", maintain_order=True).len()["len"], eq=lambda s: s.eq_missing(s.reverse()), n_unique=lambda s: pl.Series([s.n_unique()]))
    if isinstance(got.dtype, pl.List):
        deeds.update(lens=lambda s: s.list.len(), first=lambda s: s.list.first(), explode=lambda s: s.explode())
    if got.dtype == pl.Boolean:                       # Polars' own unique reads the bits under the nulls
        deeds.pop("unique", None), deeds.pop("n_unique", None)
    for k in m.rng.permutation(sorted(deeds))[:6].tolist():
        a, ea = attempt(lambda: deeds[k](got).to_list())
        b, eb = attempt(lambda: deeds[k](own).to_list())
        m.eq(ea is None, eb is None, f"{name}:{k}:refused", f"{ea!r} / {eb!r}"[:300])
        m.eq(repr(a), repr(b), f"{name}:then-{k}", lambda: "")


# a value per row that only depends on that row
ALONE = [n for n in STABLE if C.ENTRIES[n]["shape"] == "rows" and n in (
    "exp2 expit fract trunc digamma next_up next_down sinc gamma logit xlogy gcd lcm haversine list_amax l1_horizontal l2_sq_horizontal "
    "l_inf_horizontal jaccard_row str_leven str_osa str_d_leven str_lcs_seq str_fuzz str_jaro str_jw str_hamming str_jaccard "
    "str_sorensen_dice str_overlap_coeff str_tversky_sim filter_by_hamming filter_by_levenshtein str_snowball str_tokenize similar_to_vocab "
    "extract_numbers is_stopword map_words normalize_string normalize_whitespace remove_diacritics to_camel_case to_constant_case "
    "to_pascal_case to_snake_case replace_non_ascii within_dist_from").split()]


@case("P24", quick=len(ALONE) // 3, thorough=4 * len(ALONE))
def many_rows(m):
    """Tens of thousands of rows: a function of one row gives every copy of a row what it gives that row."""
    name = m.pick(*ALONE)
    e = C.ENTRIES[name]
    n = int(m.pick(7, 20, 41))
    k = int(m.pick(66_000, 9_000, 20_000, 140_000 if m.tier == "thorough" else 70_000)) // n
    df = C.to_df(C.plain(m.rng, n))
    seed = int(m.rng.integers(1 << 30))
    m.note(entry=name, rows=n, copies=k, seed=seed)
    m.seen(name, k * n > 65536)
    x = C.make(name, seed)
    want, err = outcome(lambda: df.select(r=x)["r"])
    big = pl.concat([df] * k, rechunk=True)
    if m.chance(0.3):
        cut = int(m.rng.integers(1, big.height))
        big = pl.concat([big.slice(0, cut), big.slice(cut)], rechunk=False)
        if ".so:" not in str(x):
            big = big.rechunk()
    got, err2 = outcome(lambda: big.lazy().select(r=x).collect()["r"])
    if err is not None or err2 is not None:
        m.eq(err2 is None, err is None, f"{name}:refused-with-many-rows", f"{err!r} / {err2!r}"[:300])
        return
    m.ok(len(got) == k * n, f"{name}:many-rows:length", f"{len(got)} want {k * n}")
    m.observed += len(got)
    want = pl.concat([want] * k, rechunk=True)
    if got.equals(want):
        return
    g, w = got.to_list(), want.to_list()
    for i in range(0, k * n, n):
        why = agree(e, g[i:i + n], w[i:i + n], rtol=1e-12, atol=1e-14)
        m.ok(why is None, f"{name}:many-rows", lambda: f"copy {i // n} of {k}: {why}")


@case("P24", quick=len(STABLE) // 3, thorough=4 * len(STABLE))
def many_groups(m):
    """Hundreds of groups of the same rows, evaluated side by side, all give what these rows give."""
    name, e, seed, df = draw(m, STABLE, (3, 8, 20))
    n, k = df.height, int(m.pick(50, 300))
    m.seen(name, k)
    m.note(groups=k)
    x = C.make(name, seed)
    want, err = outcome(lambda: df.select(r=x)["r"])
    if err is not None:
        raise Inconclusive("refused")
    parts = [df.with_columns(__g=pl.lit(2 * i, pl.Int32)) for i in range(k)]
    if m.chance(0.5):
        both = pl.concat(parts, rechunk=True)
        both = both[m.rng.permutation(k).repeat(n).__mul__(n).__add__(np.tile(np.arange(n), k)).tolist()]
    else:                                             # interleaved: first rows of all groups, then second rows of all ...
        both = pl.concat(parts, rechunk=True)[(np.arange(n)[:, None] + n * np.arange(k)[None, :]).ravel().tolist()]
        m.seen("interleaved")
    m.observed += k
    out, err2 = outcome(lambda: both.lazy().group_by("__g").agg(r=x).collect())
    m.ok(err2 is None, f"{name}:many-groups:refused", lambda: repr(err2)[:300])
    out = out.sort("__g")
    m.ok(out.height == k, f"{name}:many-groups:count", out.height)
    w = want.to_list()
    for g, v in zip(out["__g"].to_list(), out["r"].to_list()):
        v = v if e["shape"] != "scalar" and out["r"].dtype == pl.List(want.dtype) else [v]
        why = agree(e, v, w)
        m.ok(why is None, f"{name}:many-groups", lambda: f"group {g}: {why}; got {str(v)[:200]} want {str(w)[:200]}")
