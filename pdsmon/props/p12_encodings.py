"""P12: PSI, weight of evidence, information value and target encoding tables equal their definitions."""
import math
import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.exprs.num import target_encode
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame, ev_scalar, with_nulls, floats

EPS = 1e-4


def dirty(m, v, bad=True):
    """values with nulls and non-finite ones in between; and the finite ones"""
    r = m.rng
    l = with_nulls(r, v, m.pick(0, 0, 0.15))
    if bad and m.chance(0.3):
        m.seen("non-finite")
        l = [float(r.choice([math.nan, math.inf, -math.inf])) if r.random() < 0.1 else x for x in l]
    fin = np.array([x for x in l if x is not None and math.isfinite(x)], float)
    return l, fin


def psi_terms(b, a):
    b, a = np.maximum(np.asarray(b, float), EPS), np.maximum(np.asarray(a, float), EPS)
    return b, a, (b - a) * np.log(b / a)


def get_struct(m, df, expr, label):
    """A report (struct of several rows), eager, lazy, or as one of several groups."""
    ctx = m.pick("select", "lazy", "group")
    m.seen("ctx", ctx)

    def go():
        if ctx == "select":
            return df.select(__r=expr)["__r"].struct.unnest()
        if ctx == "lazy":
            return df.lazy().select(__r=expr).unnest("__r").collect()
        both = pl.concat([df.with_columns(__g=pl.lit(0)), df.sample(fraction=1.0, shuffle=True, seed=3).with_columns(__g=pl.lit(1))])
        both = both.sample(fraction=1.0, shuffle=True, seed=int(m.rng.integers(1 << 30)))
        out = both.lazy().group_by("__g").agg(__r=expr).collect().filter(pl.col("__g") == 0)
        return out["__r"].explode().struct.unnest()
    return m.call(label, go)


def arg(m, name, vals, df):
    """the column itself, an expression, or a plain iterable"""
    how = m.pick("name", "expr", "list", "series")
    m.seen("arg", how)
    if how == "name":
        return name
    if how == "expr":
        return pl.col(name)
    return list(vals) if how == "list" else df[name]


@case("P12", quick=160, thorough=2000)
def psi(m):
    r = m.rng
    n = int(m.pick(20, 60, 200, 500))
    base = floats(r, n) if m.chance(0.6) else np.where(r.random(n) < 0.4, 5.0, floats(r, n, "smallint"))   # heavy ties
    new = base + r.normal(size=n) * 0.3 if m.chance(0.5) else floats(r, n)
    lb, fb = dirty(m, base)
    ln, fn = dirty(m, new)
    if len(fb) < 5 or len(fn) < 2:
        raise Inconclusive("too few values")
    nb = int(m.pick(2, 3, 5, 10, 10))
    df = frame(r, {"b": pl.Series("b", lb, dtype=pl.Float64), "n": pl.Series("n", ln, dtype=pl.Float64)}, layout="one")
    m.note(b=lb, n=ln, nb=nb)
    # the documented bins: quantile breakpoints of the baseline, right-closed, equal ones grouped together
    q = pl.Series(fb).qcut(nb, left_closed=False, allow_duplicates=True, include_breaks=True).struct.field("breakpoint")
    brk = np.unique(q.to_numpy())
    cb = np.array([(q == b).sum() for b in brk])
    if not math.isinf(brk[-1]):
        brk, cb = np.append(brk, math.inf), np.append(cb, 0)
        m.seen("baseline maximum is a breakpoint")
    ca = np.bincount(np.searchsorted(brk, fn, side="left"), minlength=len(brk))
    wb, wa, terms = psi_terms(cb / cb.sum(), ca / ca.sum())
    group_ok = True
    a_new, a_base = arg(m, "n", ln, df), arg(m, "b", lb, df)
    e = pds.psi(a_new, a_base, n_bins=nb, return_report=m.chance(0.0) or False)
    got = m.call("psi", lambda: df.select(r=e)["r"].to_list())
    m.eq(len(got), 1, "psi:length")
    m.close(got[0], float(terms.sum()), "psi:value", 1e-9, 1e-12)
    if isinstance(a_new, (list, pl.Series)) or isinstance(a_base, (list, pl.Series)):
        rep = m.call("psi:report", lambda: df.select(r=pds.psi(a_new, a_base, n_bins=nb, return_report=True))["r"].struct.unnest())
    else:
        rep = get_struct(m, df, pds.psi("n", "b", n_bins=nb, return_report=True), "psi:report")
    rep = rep.filter(pl.col("<=").is_finite() | (pl.col("baseline_pct") > EPS) | (pl.col("actual_pct") > EPS))
    keep = [k for k in range(len(brk)) if math.isfinite(brk[k]) or wb[k] > EPS or wa[k] > EPS]
    m.close(rep["<="], brk[keep], "psi:breaks", 0, 0)
    m.close(rep["baseline_pct"], wb[keep], "psi:baseline", 1e-12, 0)
    m.close(rep["actual_pct"], wa[keep], "psi:actual", 1e-12, 0)
    m.close(rep["psi_bin"], terms[keep], "psi:bins", 1e-9, 1e-12)


@case("P12", quick=100, thorough=1200)
def psi_breakpoints(m):
    r = m.rng
    n = int(m.pick(1, 5, 50, 200))
    base, new = floats(r, n), floats(r, n)
    dt = m.pick(pl.Float64, pl.Float64, pl.Float32, pl.Int64)
    if dt == pl.Int64:
        base, new = np.round(base), np.round(new)
    if dt == pl.Float32:
        base, new = base.astype(np.float32).astype(float), new.astype(np.float32).astype(float)
    lb, fb = dirty(m, base, dt != pl.Int64)
    ln, fn = dirty(m, new, dt != pl.Int64)
    if not len(fb) or not len(fn):
        raise Inconclusive("no finite value")
    k = int(r.integers(1, 6))
    cand = np.concatenate([fb, fn, r.normal(size=3)])
    bp = sorted(set(float(x) for x in r.choice(cand, k)))
    ints = all(x == int(x) for x in bp) and m.chance(0.5)
    given = [int(x) for x in bp] if ints else bp
    cast = lambda l: pl.Series([None if x is None else (int(x) if dt == pl.Int64 else x) for x in l], dtype=dt)
    df = frame(r, {"b": cast(lb), "n": cast(ln)})
    m.note(b=lb, n=ln, bp=given, dt=str(dt))
    m.seen(str(dt), "int-breaks" if ints else "float-breaks")
    brk = np.array(bp + [math.inf])
    cb, ca = (np.bincount(np.searchsorted(brk, v, side="left"), minlength=len(brk)) for v in (fb, fn))
    wb, wa, terms = psi_terms(cb / cb.sum(), ca / ca.sum())
    a_new, a_base = m.pick("n", pl.col("n"), df["n"]), m.pick("b", pl.col("b"), df["b"])
    rep = m.call("psi_w_bp", lambda: df.select(r=pds.psi_w_breakpoints(a_new, a_base, given))["r"].struct.unnest())
    m.close(rep["<="], brk, "psi_w_bp:breaks", 0, 0)
    m.close(rep["baseline_pct"], wb, "psi_w_bp:baseline", 1e-12, 0)
    m.close(rep["actual_pct"], wa, "psi_w_bp:actual", 1e-12, 0)
    m.close(rep["psi_bin"], terms, "psi_w_bp:bins", 1e-9, 1e-12)


@case("P12", quick=100, thorough=1200)
def psi_categories(m):
    r = m.rng
    n = int(m.pick(3, 10, 50, 300))
    kind = m.pick("str", "int")
    cats = ["a", "b", "c", "dd", "", "é"] if kind == "str" else [0, 1, 2, 5, -7, 100]
    pick = lambda sub: [None if r.random() < 0.1 else cats[int(r.choice(sub))] for _ in range(n)]
    base, new = pick([0, 1, 2, 3]), pick(m.pick([0, 1, 2, 3], [1, 2, 4], [4, 5]))
    dt = pl.String if kind == "str" else pl.Int64
    df = frame(r, {"b": pl.Series("b", base, dtype=dt), "n": pl.Series("n", new, dtype=dt)})
    m.note(b=base, n=new)
    keys = sorted(set(base) | set(new), key=lambda x: (x is None, str(x)))
    wb, wa, terms = psi_terms([base.count(k) / n for k in keys], [new.count(k) / n for k in keys])
    m.seen("null in both" if None in base and None in new else "null in one" if None in keys else "no null")
    a_new, a_base = (m.pick(c, pl.col(c), df[c]) for c in ("n", "b"))
    got = m.call("psi_discrete", lambda: df.select(r=pds.psi_discrete(a_new, a_base))["r"].to_list())
    m.close(got, [float(terms.sum())], "psi_discrete:value", 1e-9, 1e-12)
    rep = get_struct(m, df, pds.psi_discrete("n", "b", return_report=True), "psi_discrete:report")
    m.eq(rep.columns, ["baseline_category", "actual_category", "baseline_pct", "actual_pct", "psi_bin"], "psi_discrete:fields")
    m.eq(rep.height, len(keys), "psi_discrete:rows", rep)
    for row in rep.iter_rows(named=True):
        cat = row["baseline_category"] if row["baseline_category"] is not None else row["actual_category"]
        k = keys.index(cat)
        m.close([row["baseline_pct"], row["actual_pct"], row["psi_bin"]], [wb[k], wa[k], terms[k]], "psi_discrete:row", 1e-9, 1e-12)
        if cat is not None:
            m.eq(row["baseline_category"] is not None, cat in base, "psi_discrete:baseline-presence")
            m.eq(row["actual_category"] is not None, cat in new, "psi_discrete:actual-presence")


def woe_table(keys, t):
    tab = {}
    for k, y in zip(keys, t):
        if k is None or y is None:
            continue
        c = tab.setdefault(k, [0, 0])
        c[0] += y
        c[1] += 1
    G = sum(c[0] for c in tab.values())
    B = sum(c[1] - c[0] for c in tab.values())
    out = {}
    for k, (g, n) in tab.items():
        gp, bp = (g + 1) / (G + 2), (n - g + 1) / (B + 2)
        out[k] = (math.log(gp / bp), (gp - bp) * math.log(gp / bp))
    return out


@case("P12", quick=140, thorough=1600)
def evidence(m):
    """Weight of evidence and information value, per category or per quantile bin."""
    r = m.rng
    n = int(m.pick(4, 10, 60, 300))
    t = (r.random(n) < r.choice([0.1, 0.5, 0.9])).astype(int).tolist()
    tn = with_nulls(r, t, 0.1) if m.chance(0.3) else t
    tdt = m.pick(pl.Int64, pl.UInt8, pl.Int32, pl.Float64)
    ts = pl.Series("t", tn).cast(tdt)
    targ = m.pick("t", pl.col("t"), "series")
    if m.chance(0.5):
        m.seen("discrete")
        kind = m.pick("str", "int")
        cats = [None if r.random() < 0.1 else (f"c{int(r.integers(0, 6))}" if kind == "str" else int(r.integers(0, 6))) for _ in range(n)]
        if all(c is None or y is None for c, y in zip(cats, tn)):
            raise Inconclusive("nothing left")
        df = frame(r, {"x": pl.Series("x", cats, dtype=pl.String if kind == "str" else pl.Int64), "t": ts})
        m.note(x=cats, t=tn)
        want = woe_table([None if c is None else str(c) for c in cats], tn)
        iv, woe = (lambda *a, **k: pds.info_value_discrete("x", *a, **k)), (lambda *a: pds.woe_discrete("x", *a))
        label = "discrete"
    else:
        m.seen("continuous")
        v = floats(r, n)
        lx, _ = dirty(m, v)
        fin = [i for i, x in enumerate(lx) if x is not None and math.isfinite(x)]
        if len(fin) < 2 or all(tn[i] is None for i in fin):
            raise Inconclusive("nothing left")
        nb = int(m.pick(2, 3, 5, 10))
        df = frame(r, {"x": pl.Series("x", lx, dtype=pl.Float64), "t": ts}, layout="one")
        m.note(x=lx, t=tn, nb=nb)
        lab = pl.Series([lx[i] for i in fin]).qcut(nb, left_closed=False, allow_duplicates=True).cast(pl.String).to_list()
        want = woe_table(lab, [tn[i] for i in fin])
        iv, woe = (lambda *a, **k: pds.info_value("x", *a, n_bins=nb, **k)), (lambda *a: pds.woe("x", *a, n_bins=nb))
        label = "binned"
    if isinstance(targ, str) and targ == "series":
        targ = df["t"]
        run = lambda e, l: m.call(l, lambda: df.select(r=e)["r"].struct.unnest())
    else:
        run = lambda e, l: get_struct(m, df, e, l)
    which = m.pick("woe", "iv", "sum")
    m.seen(label, which)
    if which == "sum":
        got = m.call("iv:sum", lambda: df.select(r=iv(targ))["r"].to_list())
        m.close(got, [sum(w[1] for w in want.values())], f"iv:{label}:sum", 1e-9, 1e-12)
        return
    out = run(woe(targ) if which == "woe" else iv(targ, return_sum=False), which)
    m.eq(sorted(out["value"].to_list()), sorted(want), f"{which}:{label}:values")
    for k, x in zip(out["value"].to_list(), out[which].to_list()):
        m.close(x, want[k][which == "iv"], f"{which}:{label}:row", 1e-9, 1e-12)


@case("P12", quick=80, thorough=1000)
def targets(m):
    r = m.rng
    n = int(m.pick(2, 10, 60, 300))
    k = int(r.integers(1, 6))
    cats = [None if r.random() < 0.1 else f"c{int(c)}" for c in r.integers(0, k, n)]
    t = (r.random(n) < 0.4).astype(int).tolist()
    tn = with_nulls(r, t, 0.1) if m.chance(0.3) else t
    if all(y is None for y in tn):
        raise Inconclusive("no target")
    msl, sm = int(m.pick(1, 5, 20, 50)), float(m.pick(0.5, 1.0, 10.0))
    df = frame(r, {"x": pl.Series("x", cats, dtype=pl.String), "t": pl.Series("t", tn).cast(m.pick(pl.Int64, pl.UInt8, pl.Float64))})
    m.note(x=cats, t=tn, msl=msl, sm=sm)
    ty = [y for y in tn if y is not None]
    mean = sum(ty) / len(ty)
    want = {}
    for c in set(cats) - {None}:
        y = [b for a, b in zip(cats, tn) if a == c and b is not None]
        if y:
            al = 1 / (1 + math.exp(-(len(y) - msl) / sm))
            want[c] = al * sum(y) / len(y) + (1 - al) * mean
    out = get_struct(m, df, target_encode("x", "t", min_samples_leaf=msl, smoothing=sm), "target_encode")
    out = out.filter(pl.col("value").is_not_null())
    m.eq(sorted(out["value"].to_list()), sorted(want), "target_encode:values")
    for c, x in zip(out["value"].to_list(), out["to"].to_list()):
        m.close(x, want[c], "target_encode:row", 1e-9, 1e-12)


@case("P12", quick=1, thorough=12)
def long(m):
    """Bins holding more rows than 16 bits count."""
    r = m.rng
    n = int(m.pick(140_000, 200_000))
    v, c = r.normal(size=n), np.where(r.random(n) < 0.9, "a", "b")
    d = np.where(r.random(n) < 0.8, "a", "b")
    y = (r.random(n) < np.where(c == "a", 0.7, 0.2)).astype(int)
    m.note(n=n, v=v[:10])
    which = ("psi", "psi_discrete", "woe", "target_encode")[m.i % 4]
    m.seen("long", which)
    df = frame(r, {"v": v, "u": v * 1.2 + 0.1, "c": c.tolist(), "d": d.tolist(), "y": y}, layout="one")
    if which == "psi":
        q = pl.Series(v).qcut(2, left_closed=False, allow_duplicates=True, include_breaks=True).struct.field("breakpoint").to_numpy()
        b = float(q[np.isfinite(q)][0])
        _, _, t = psi_terms([(v <= b).mean(), (v > b).mean()], [(v * 1.2 + 0.1 <= b).mean(), (v * 1.2 + 0.1 > b).mean()])
        got, want = m.call("psi", lambda: df.select(pds.psi("u", "v", n_bins=2)).item()), float(t.sum())
    elif which == "psi_discrete":
        _, _, t = psi_terms([(c == "a").mean(), (c == "b").mean()], [(d == "a").mean(), (d == "b").mean()])
        got, want = m.call("psi_discrete", lambda: df.select(pds.psi_discrete("d", "c")).item()), float(t.sum())
    elif which == "woe":
        ev_, ne = [((c == k) & (y == 1)).sum() for k in "ab"], [((c == k) & (y == 0)).sum() for k in "ab"]
        got = m.call("iv", lambda: df.select(pds.info_value_discrete("c", "y", return_sum=True)).item())
        e, f = (np.array(ev_) + 1) / (y.sum() + 2), (np.array(ne) + 1) / ((1 - y).sum() + 2)
        want = float(((e - f) * np.log(e / f)).sum())
        m.close(got, want, "info_value:long", 1e-3, 1e-6)       # (the smoothing constant is judged elsewhere)
        return
    else:
        t = m.call("target_encode", lambda: df.select(r=target_encode("c", "y", min_samples_leaf=20, smoothing=10.0))["r"].struct.unnest())
        got = dict(zip(t["value"].to_list(), t["to"].to_list()))
        m.close([got["a"], got["b"]], [y[c == "a"].mean(), y[c == "b"].mean()], "target_encode:long", 1e-9, 1e-12)
        return
    m.close(got, want, which + ":long", 1e-9, 1e-12)
