"""P02: radius queries return exactly the rows within the radius."""
import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.spatial import KDTree
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame, ev
from pdsmon.props.p01_knn import dist, points, setup, frame_values, haversine, METRICS


def exact(metric, X):
    """Coordinates that are small multiples of 1/4: distances and their comparison with the radius are exact."""
    return metric in ("l1", "sql2", "inf") and bool(np.all(X * 4 == np.round(X * 4)) and np.abs(X).max(initial=0) < 4096)


def slack(metric, X, r, Q=None):
    if exact(metric, X) and (Q is None or exact(metric, Q)):
        return 0.0
    return 1e-9 * (1 + abs(r))


def radius(m, metric, X):
    """A radius that separates the distances from one row (never ambiguous at the boundary itself)."""
    D = np.sort(dist(metric, X, X[int(m.rng.integers(len(X)))]))
    if exact(metric, X) and m.chance(0.6):
        r = float(D[int(m.rng.integers(len(D)))])
        if r > 0:           # r = 0 is refused by the API
            m.seen("radius-on-a-distance")
            return r
    q = float(np.quantile(D, m.rng.random()))
    r = q * float(m.pick(1.01, 0.7, 1.3)) + 1e-3
    return m.pick(r, r, float(D.max() * 2 + 1.0))


def judge(m, sig, got, D, r, ids, elig=None, order=False, t=None):
    t = 1e-9 * (1 + abs(r)) if t is None else t
    sure = {int(ids[p]) for p in range(len(D)) if (elig is None or elig[p]) and D[p] < r - t}
    may = {int(ids[p]) for p in range(len(D)) if (elig is None or elig[p]) and D[p] <= r + t}
    g = set(got)
    m.ok(len(g) == len(got), sig + ":duplicate", got)
    m.ok(sure <= g, sig + ":missed", lambda: f"missing {sorted(sure - g)[:5]} r={r}")
    m.ok(g <= may, sig + ":extra", lambda: f"extra {sorted(g - may)[:5]} r={r}")
    if order:
        pos = {int(v): p for p, v in enumerate(ids)}
        dd = [D[pos[x]] for x in got]
        m.ok(all(a <= b + t for a, b in zip(dd, dd[1:])), sig + ":not-sorted", dd)


@case("P02", quick=80, thorough=1500)
def ptwise(m):
    n, d, X, valid, ids, cols = setup(m)
    if valid.all() is False:
        pass
    X = X if cols["f0"].dtype == pl.Float64 else frame_values(cols, d)
    metric = m.pick(*METRICS)
    r = radius(m, metric, X)
    sort, par = m.chance(0.5), m.chance(0.5)
    df = frame(m.rng, cols)
    m.note(df=df, metric=metric, r=r, par=par)
    m.seen("radius", metric, par, sort)
    out = ev(m, df, pds.query_radius_ptwise(*[f"f{j}" for j in range(d)], index="id", r=r, dist=metric,
             sort=sort, parallel=par), "query_radius_ptwise").to_list()
    m.eq(len(out), n, "radius_ptwise:length")
    for i in range(n):
        if not valid[i]:
            m.ok(out[i] is None, "radius_ptwise:null-row", out[i])
        else:
            m.ok(out[i] is not None, "radius_ptwise:lost-row", i)
            judge(m, "radius_ptwise", out[i], dist(metric, X, X[i]), r, ids, valid, sort, slack(metric, X, r))


@case("P02", quick=25, thorough=300)
def freq(m):
    n, d, X, valid, ids, cols = setup(m)
    metric = m.pick(*METRICS)
    X = X if cols["f0"].dtype == pl.Float64 else frame_values(cols, d)
    r = radius(m, metric, X)
    df = frame(m.rng, cols)
    m.note(df=df, metric=metric, r=r)
    out = m.call("query_radius_freq_cnt", lambda: df.select(pds.query_radius_freq_cnt(
        *[f"f{j}" for j in range(d)], index="id", r=r, dist=metric, parallel=m.chance(0.5)).alias("o").struct.unnest()))
    want = {}
    for i in range(n):
        if valid[i]:
            D = dist(metric, X, X[i])
            if not exact(metric, X) and (np.abs(D[valid] - r) < 1e-9 * (1 + r)).any():
                raise Inconclusive("distance on the boundary")
            for p in np.nonzero((D <= r) & valid)[0]:
                want[int(ids[p])] = want.get(int(ids[p]), 0) + 1
    key = [c for c in out.columns if c != "count"][0]
    m.eq(dict(zip(out[key].to_list(), out["count"].to_list())), want, "radius_freq:counts")


@case("P02", quick=80, thorough=1200)
def nb_cnt(m):
    n, d, X, valid, ids, cols = setup(m)
    X = X if cols["f0"].dtype == pl.Float64 else frame_values(cols, d)
    metric = m.pick(*METRICS)
    how = m.pick("scalar", "column", "expr", "nullcol", "array")
    if how == "scalar":
        rad = [radius(m, metric, X)] * n
        arg = rad[0]
    else:
        rad = [radius(m, metric, X) for _ in range(n)]
        if how == "nullcol":
            rad = [None if m.chance(0.2) else v for v in rad]
        cols["r"] = pl.Series(rad, dtype=pl.Float64)
        arg = {"column": "r", "nullcol": "r", "expr": pl.col("r") * 2.0, "array": [v for v in rad]}[how]
        if how == "expr":
            rad = [v * 2.0 for v in rad]
    if n == 1 and how == "nullcol":
        raise Inconclusive("one row: a null radius is indistinguishable from a scalar")
    df = frame(m.rng, cols)
    par = m.chance(0.5)
    m.note(df=df, metric=metric, how=how, par=par)
    m.seen("nb_cnt", metric, how, par)
    out = ev(m, df, pds.query_nb_cnt(*[f"f{j}" for j in range(d)], r=arg, dist=metric, parallel=par),
             "query_nb_cnt").to_list()
    m.eq(len(out), n, "nb_cnt:length")
    for i in range(n):
        if not valid[i] or rad[i] is None:
            m.ok(out[i] is None, "nb_cnt:null-row", f"{out[i]}")
            continue
        D = dist(metric, X, X[i])[valid]
        t = slack(metric, X, rad[i])
        lo, hi = int((D < rad[i] - t).sum()), int((D <= rad[i] + t).sum())
        m.ok(out[i] is not None and lo <= out[i] <= hi, "nb_cnt:count",
             f"row {i}: {out[i]} expected {lo}..{hi} r={rad[i]} {metric} {how}")


@case("P02", quick=30, thorough=300)
def within_dist(m):
    n, d, X, valid, ids, cols = setup(m)
    X = frame_values(cols, d)
    rg = m.rng
    metric = m.pick("l1", "sql2", "l2", "inf", "cosine", "h")
    if metric == "h":
        X = np.column_stack([rg.uniform(-80, 80, n), rg.uniform(-180, 180, n)])
        d = 2
        cols = {"f0": pl.Series(X[:, 0]), "f1": pl.Series(X[:, 1])}
        valid[:] = True
        pt = [float(rg.uniform(-80, 80)), float(rg.uniform(-180, 180))]
        D = haversine(X, np.array(pt))
    elif metric == "cosine":
        pt = (rg.normal(size=d) * 2).tolist()
        nx = np.sqrt((X * X).sum(1)) * np.sqrt((np.array(pt) ** 2).sum())
        if (nx[valid] < 1e-6).any():
            raise Inconclusive("zero vector has no cosine distance")
        D = 1 - (X @ np.array(pt)) / nx
    else:
        pt = (rg.normal(size=d) * 2).tolist()
        D = dist(metric, X, np.array(pt))
    if not valid.any():
        raise Inconclusive("no eligible row")
    df = frame(rg, cols)
    if m.chance(0.3):
        rr = rg.random(n) * (D[valid].max() + 1)
        lost = rg.random(n) < 0.2
        df = df.with_columns(r=pl.Series([None if b else float(v) for b, v in zip(lost, rr)], dtype=pl.Float64))
        valid &= ~lost
        arg = pl.col("r")
    else:
        rr = np.full(n, float(np.quantile(D[valid], rg.random())) * 1.003 + 1e-4)
        arg = float(rr[0])
    m.note(df=df, metric=metric, pt=pt, r=rr)
    m.seen("within", metric)
    out = ev(m, df, pds.within_dist_from(*[f"f{j}" for j in range(d)], pt=pt, r=arg, dist=metric),
             "within_dist_from").to_list()
    for i in range(n):
        if not valid[i]:
            m.ok(out[i] is None, "within_dist_from:null-row", lambda: f"row {i}: {out[i]}")
        elif abs(D[i] - rr[i]) > 1e-8 * (1 + rr[i]):
            m.eq(out[i], bool(D[i] <= rr[i]), "within_dist_from:" + metric, f"distance {D[i]} r={rr[i]}")


@case("P02", quick=70, thorough=1000)
def kdtree(m):
    rg = m.rng
    d = int(m.pick(1, 2, 3, 5, 16))
    metric = m.pick(*METRICS)
    X = points(m, int(m.pick(1, 4, 60, 250)), d)
    tree = m.call("KDTree", lambda: KDTree(np.ascontiguousarray(X), distance=metric))
    m.note(X=X, metric=metric)
    for s in range(int(rg.integers(1, 4))):
        nq = int(m.pick(1, 3, 16, 17, 30))
        Q = np.ascontiguousarray(X[rg.integers(0, len(X), nq)] + rg.normal(size=(nq, d)) * m.pick(0, 0.5))
        par, sort, wd = m.chance(0.5), m.chance(0.5), m.chance(0.5)
        how = m.pick("scalar", "array", "array1")
        if how == "array":
            rad = np.array([radius(m, metric, X) for _ in range(nq)])
            arg = rad
        else:
            rad = np.full(nq, radius(m, metric, X))
            arg = float(rad[0]) if how == "scalar" else rad[:1].copy()
        m.seen("kdt-within", metric, how, par, sort, wd, s)
        got = m.call("KDTree.within", lambda: tree.within(Q, arg, sort=sort, return_dist=wd, parallel=par))
        cnt = m.call("KDTree.within_count", lambda: tree.within_count(Q, arg, parallel=par))
        m.ok(got is not None and len(got) == nq, "KDTree.within:rows", f"{type(got)} {how}")
        m.ok(cnt is not None and len(cnt) == nq, "KDTree.within_count:rows", f"{type(cnt)} {how}")
        for i in range(nq):
            D = dist(metric, X, Q[i])
            g = got[i]
            if wd:
                for j, dd in g:
                    m.ok(abs(dd - D[j]) <= 1e-9 * (1 + D[j]), "KDTree.within:wrong-distance", f"{j} {dd} {D[j]}")
                g = [j for j, _ in g]
            judge(m, "KDTree.within", g, D, float(rad[i]), np.arange(len(X)), None, sort, slack(metric, X, rad[i], Q))
            t = slack(metric, X, rad[i], Q)
            m.ok(int((D < rad[i] - t).sum()) <= int(cnt[i]) <= int((D <= rad[i] + t).sum()),
                 "KDTree.within_count:count", f"{cnt[i]} r={rad[i]}")
        if m.chance(0.6):
            A = points(m, int(m.pick(1, 10, 50)), d)
            m.call("KDTree.add", lambda: tree.add(np.ascontiguousarray(A)))
            X = np.vstack([X, A])
