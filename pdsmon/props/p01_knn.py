"""P01: k-nearest-neighbour answers are exactly the k closest eligible rows."""
import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.spatial import KDTree
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame, ev, with_nulls

METRICS = ["l1", "l2", "sql2", "inf"]


def dist(metric, A, b):
    D = np.abs(A - b)
    if metric == "l1":
        return D.sum(-1)
    if metric == "l2":
        return np.sqrt((D * D).sum(-1))
    if metric == "sql2":
        return (D * D).sum(-1)
    return D.max(-1)


def points(m, n, d):
    """Point clouds that stress a splitting tree: clusters, duplicates, lattices, near-degenerate axes."""
    r = m.rng
    kind = m.pick("normal", "uniform", "lattice", "clusters", "dups", "flat", "skewed", "big")
    m.seen("cloud", kind)
    if kind == "normal":
        X = r.normal(size=(n, d))
    elif kind == "uniform":
        X = r.random((n, d))
    elif kind == "lattice":
        X = r.integers(-2, 3, (n, d)).astype(float)
    elif kind == "clusters":
        X = r.normal(size=(4, d))[r.integers(0, 4, n)] * 20 + r.normal(size=(n, d)) * 0.1
    elif kind == "dups":
        X = r.normal(size=(max(1, n // 4), d))[r.integers(0, max(1, n // 4), n)]
    elif kind == "flat":
        X = r.normal(size=(n, d)); X[:, int(r.integers(d))] = 1.5
    elif kind == "skewed":
        X = np.exp(r.normal(size=(n, d)) * 1.2)
    else:
        X = r.normal(size=(n, d)) * 50 - 30
    return X


def judge_knn(m, sig, got_ids, got_d, ids, X, elig, q, k, metric, bound):
    """got_ids: list of ids. Judges set, order, distances and count against brute force."""
    D = dist(metric, X, q)
    tol = 1e-9 * (1 + abs(bound)) + 1e-10
    De = np.sort(D[elig])
    sure = int((De < bound - tol).sum())
    maybe = int((De <= bound + tol).sum())
    lo, hi = min(k, sure), min(k, maybe)
    m.ok(lo <= len(got_ids) <= hi, sig + ":count",
         lambda: f"{len(got_ids)} neighbours, expected {lo}..{hi} of k={k} bound={bound} metric={metric} q={q.tolist()}")
    m.ok(len(set(got_ids)) == len(got_ids), sig + ":duplicate-neighbour", got_ids)
    pos = {int(v): p for p, v in enumerate(ids)}
    prev = -np.inf
    for j, g in enumerate(got_ids):
        m.ok(int(g) in pos and elig[pos[int(g)]], sig + ":ineligible-neighbour", f"{g} metric={metric}")
        dj = D[pos[int(g)]]
        t = 1e-9 * (1 + abs(De[j]))
        m.ok(abs(dj - De[j]) <= t, sig + ":not-the-nearest",
             lambda: f"rank {j}: id {g} at {dj!r}, the {j}-th smallest eligible distance is {De[j]!r} metric={metric} k={k}")
        m.ok(dj >= prev - t, sig + ":not-in-distance-order", f"{got_ids}")
        prev = dj
        if got_d is not None:
            m.ok(abs(got_d[j] - dj) <= t, sig + ":wrong-distance", lambda: f"reported {got_d[j]} actual {dj}")


def setup(m, nmax=260, dims=(1, 2, 3, 4, 6, 9, 15, 16, 19), nulls=True):
    r = m.rng
    n = int(m.pick(1, 2, 3, 5, 17, 40, 90, 150, nmax, int(r.integers(1, nmax))))
    if m.tier == "thorough" and m.chance(0.1):
        n = int(r.integers(nmax, 2500))
    d = int(m.pick(*dims))
    X = points(m, n, d)
    cols = {}
    valid = np.ones(n, bool)
    hasnull = nulls and m.chance(0.4)
    for j in range(d):
        if hasnull and n > 2:
            mask = r.random(n) < 0.12
            vals = [None if b else float(v) for v, b in zip(X[:, j], mask)]
            valid &= ~mask
        else:
            vals = X[:, j].tolist()
        cols[f"f{j}"] = pl.Series(vals, dtype=pl.Float64)
    if m.chance(0.15) and not hasnull:      # non-float features
        X = np.round(X)
        fit = [t for t, top in ((pl.Int64, 1e15), (pl.Int32, 2e9), (pl.Int16, 3e4), (pl.Int8, 127), (pl.Float32, 1e7)) if np.abs(X).max(initial=0) <= top]
        if (X >= 0).all() and X.max(initial=0) < 256:
            fit.append(pl.UInt8)
        for j in range(d):
            cols[f"f{j}"] = pl.Series(X[:, j].astype(int).tolist(), dtype=m.pick(*fit))
            m.seen("type", cols[f"f{j}"].dtype)
    ids = r.permutation(n * 3)[:n].astype(np.uint32)
    cols["id"] = pl.Series(ids.tolist(), dtype=m.pick(pl.UInt32, pl.Int64, pl.UInt32))
    return n, d, X, valid, ids, cols


@case("P01", quick=90, thorough=1500)
def ptwise(m):
    n, d, X, valid, ids, cols = setup(m)
    r = m.rng
    metric = m.pick(*METRICS)
    k = int(m.pick(1, 2, 3, 5, 10, n + 3 if n < 600 else 60))
    par = m.chance(0.5)
    kw = {}
    elig = valid.copy()
    evalm = np.ones(n, bool)
    if m.chance(0.35):
        b = r.random(n) < 0.6
        vals = [None if x < 0.08 else bool(v) for x, v in zip(r.random(n), b)]
        cols["dm"] = pl.Series(vals, dtype=pl.Boolean)
        elig &= np.array([v is True for v in vals])
        kw["data_mask"] = m.pick("dm", pl.col("dm"))
    if m.chance(0.35):
        vals = [None if x < 0.08 else bool(x < 0.6) for x in r.random(n)]
        cols["em"] = pl.Series(vals, dtype=pl.Boolean)
        evalm = np.array([v is True for v in vals])
        kw["eval_mask"] = m.pick("em", pl.col("em"))
    if m.chance(0.04):
        cols["f0"] = pl.Series([None] * n, dtype=pl.Float64)
        valid[:] = False
        elig[:] = False
        m.seen("no-eligible-row")
    bound = 99999.0
    if m.chance(0.4):
        D0 = dist(metric, X, X[int(r.integers(n))])
        bound = float(max(1e-6, np.quantile(D0, r.random()) * 1.01 + 1e-3))
        kw["max_bound"] = bound
    wd = m.chance(0.6)
    df = frame(r, cols)
    m.note(df=df, metric=metric, k=k, par=par, bound=bound, masks=sorted(kw), wd=wd)
    m.seen("ptwise", metric, "par" if par else "seq", "dist" if wd else "idx", *sorted(kw))
    out = ev(m, df, pds.query_knn_ptwise(*[f"f{j}" for j in range(d)], index="id", k=k, dist=metric,
             parallel=par, return_dist=wd, **kw), "query_knn_ptwise")
    m.eq(len(out), n, "knn_ptwise:length")
    ii, dd = (out.struct.field("idx").to_list(), out.struct.field("dist").to_list()) if wd else (out.to_list(), None)
    for i in range(n):
        if not evalm[i] or not valid[i]:
            m.ok(ii[i] is None and (dd is None or dd[i] is None), "knn_ptwise:null-row",
                 f"row {i} eval={evalm[i]} valid={valid[i]} got {ii[i]}")
            continue
        m.ok(ii[i] is not None, "knn_ptwise:lost-row", f"row {i}")
        if dd is not None:
            m.eq(len(dd[i]), len(ii[i]), "knn_ptwise:dist-len")
        judge_knn(m, "knn_ptwise", ii[i], dd[i] if dd else None, ids, X, elig, X[i], k + 1, metric, bound)


@case("P01", quick=25, thorough=400)
def freq_cnt(m):
    n, d, X, valid, ids, cols = setup(m)
    if not valid.any():
        raise Inconclusive("no eligible row")
    r = m.rng
    X = r.normal(size=(n, d))   # no ties: the neighbour set is unique
    for j in range(d):
        cols[f"f{j}"] = pl.Series([float(v) if ok else None for v, ok in zip(X[:, j], valid)])
    metric = m.pick(*METRICS)
    k = int(m.pick(1, 2, 5))
    df = frame(r, cols)
    m.note(df=df, metric=metric, k=k)
    m.seen("freq", metric)
    out = m.call("query_knn_freq_cnt", lambda: df.select(pds.query_knn_freq_cnt(
        *[f"f{j}" for j in range(d)], index="id", k=k, dist=metric, parallel=m.chance(0.5)).alias("o").struct.unnest()))
    want = {}
    for i in range(n):
        if valid[i]:
            D = dist(metric, X, X[i]); D[~valid] = np.inf
            for p in np.argsort(D, kind="stable")[: min(k + 1, int(valid.sum()))]:
                want[int(ids[p])] = want.get(int(ids[p]), 0) + 1
    key, cnt = [c for c in out.columns if c != "count"][0], "count"
    got = dict(zip(out[key].to_list(), out[cnt].to_list()))
    m.eq(got, want, "knn_freq_cnt:counts")
    c = out[cnt].to_list()
    m.ok(all(a >= b for a, b in zip(c, c[1:])), "knn_freq_cnt:not-sorted", c)


@case("P01", quick=40, thorough=500)
def kth_dist(m):
    n, d, X, valid, ids, cols = setup(m)
    metric = m.pick(*METRICS)
    k = int(m.pick(1, 2, 5, 9))
    X = frame_values(cols, d)
    V = X[valid]
    bound, kw = 99999.0, {}
    if m.chance(0.4):
        bound = kw["max_bound"] = float(np.nan_to_num(np.quantile(dist(metric, V, V[0]), m.rng.random()), nan=1.0)) * 1.01 + 1e-3 if len(V) else 1.0
        m.seen("kth", "bound")
    df = frame(m.rng, cols)
    m.note(df=df, metric=metric, k=k)
    m.seen("kth", metric)
    out = ev(m, df, pds.query_dist_from_kth_nb(*[f"f{j}" for j in range(d)], k=k, dist=metric,
             parallel=m.chance(0.5), **kw), "query_dist_from_kth_nb").to_list()
    m.eq(len(out), n, "kth_nb:length")
    for i in range(n):
        if not valid[i]:
            m.ok(out[i] is None, "kth_nb:null-row", out[i])
            continue
        D = np.sort(dist(metric, V, X[i]))
        want = float(D[k]) if k < len(D) else np.inf
        if abs(want - bound) < 1e-8 * (1 + bound):
            continue
        if want > bound:
            m.seen("kth", "too few")
            m.ok(out[i] is None, "kth_nb:beyond-the-bound", lambda: f"row {i}: got {out[i]}, the neighbour is at {want}, the bound {bound}")
        else:
            m.close(out[i], want, "kth_nb:distance", rtol=1e-9, atol=1e-9)


def frame_values(cols, d):
    return np.column_stack([cols[f"f{j}"].cast(pl.Float64).to_numpy() for j in range(d)])


@case("P01", quick=40, thorough=500)
def knn_avg(m):
    n, d, X, valid, ids, cols = setup(m)
    r = m.rng
    X = r.normal(size=(n, d))
    for j in range(d):
        cols[f"f{j}"] = pl.Series([float(v) if ok else None for v, ok in zip(X[:, j], valid)])
    y = r.normal(size=n)
    cols["y"] = pl.Series(y)
    metric = m.pick(*METRICS)
    k, wt = int(m.pick(1, 3, 7)), m.chance(0.5)
    mb = float(m.pick(1e-9, 1e-9, 0.0, 0.3))
    df = frame(r, cols)
    m.note(df=df, metric=metric, k=k, wt=wt, mb=mb)
    m.seen("avg", metric, wt, mb)
    out = ev(m, df, pds.query_knn_avg(*[f"f{j}" for j in range(d)], target="y", k=k, dist=metric, weighted=wt,
             parallel=m.chance(0.5), min_bound=mb), "query_knn_avg").to_list()
    m.eq(len(out), n, "knn_avg:length")
    for i in range(n):
        if not valid[i]:
            m.ok(out[i] is None, "knn_avg:null-row", f"row {i} got {out[i]}")
            continue
        D = dist(metric, X, X[i]); D[~valid] = np.inf
        idx = [p for p in np.argsort(D, kind="stable")[: min(k + 1, int(valid.sum()))] if D[p] >= mb]
        if not idx:
            m.ok(out[i] is None, "knn_avg:empty", f"got {out[i]}")
            continue
        w = np.ones(len(idx)) if not wt else (1 / (1 + D[idx]) if mb <= 2.3e-16 else 1 / D[idx])
        m.close(out[i], float((w * y[idx]).sum() / w.sum()), "knn_avg:value", rtol=1e-8, atol=1e-9)


@case("P01", quick=30, thorough=300)
def is_knn(m):
    n, d, X, valid, ids, cols = setup(m)
    X = frame_values(cols, d)
    r = m.rng
    metric = m.pick("l1", "l2", "sql2", "inf", "cosine", "h")
    if metric == "h":
        X = np.column_stack([r.uniform(-80, 80, n), r.uniform(-180, 180, n)])
        d = 2
        cols = {"f0": pl.Series(X[:, 0]), "f1": pl.Series(X[:, 1])}
        valid[:] = True
    if not valid.any():
        raise Inconclusive("no eligible row")
    pt = (r.normal(size=d) * 2 if metric != "h" else np.array([r.uniform(-80, 80), r.uniform(-180, 180)])).tolist()
    k = int(m.pick(1, 2, 5, n + 1))
    df = frame(r, cols)
    m.note(df=df, metric=metric, k=k, pt=pt)
    m.seen("is_knn", metric)
    if metric == "cosine":
        nx = np.sqrt((X * X).sum(1)) * np.sqrt((np.array(pt) ** 2).sum())
        if (nx[valid] < 1e-6).any():
            raise Inconclusive("zero vector has no cosine distance")
        D = 1 - (X @ np.array(pt)) / nx
    elif metric == "h":
        D = haversine(X, np.array(pt))
    else:
        D = dist(metric, X, np.array(pt))
    D[~valid] = np.inf
    out = ev(m, df, pds.is_knn_from(*[f"f{j}" for j in range(d)], pt=pt, k=k, dist=metric), "is_knn_from").to_list()
    k = min(k, int(valid.sum()))
    kth = np.sort(D)[k - 1]
    t = 1e-9 * (1 + abs(kth))
    for i in range(n):
        if not valid[i]:
            m.ok(not out[i], "is_knn_from:null-row", lambda: f"row {i}: {out[i]}")
        elif D[i] < kth - t:
            m.ok(out[i] is True, "is_knn_from:missed", f"{D[i]} kth={kth} {metric}")
        elif D[i] > kth + t:
            m.ok(out[i] is False, "is_knn_from:extra", f"{D[i]} kth={kth} {metric}")
    m.ok(sum(bool(x) for x in out) >= k, "is_knn_from:too-few", sum(bool(x) for x in out))


def haversine(P, q):
    la1, lo1, la2, lo2 = map(np.radians, (P[:, 0], P[:, 1], q[0], q[1]))
    a = np.sin((la2 - la1) / 2) ** 2 + np.cos(la1) * np.cos(la2) * np.sin((lo2 - lo1) / 2) ** 2
    return 6371.0 * 2 * np.arctan2(np.sqrt(a), np.sqrt(1 - a))


@case("P01", quick=70, thorough=1200)
def kdtree_history(m):
    """A tree that grows: queries interleaved with additions must see exactly what was added so far."""
    r = m.rng
    d = int(m.pick(1, 2, 3, 5, 10, 16, 18))
    metric = m.pick(*METRICS)
    n0 = int(m.pick(1, 3, 20, 150, 300))
    X = points(m, n0, d)
    tree = m.call("KDTree", lambda: KDTree(np.ascontiguousarray(X), distance=metric))
    m.note(X=X, metric=metric)
    steps = int(r.integers(1, 6))
    for s in range(steps):
        m.eq(m.call("len", lambda: len(tree)), len(X), "KDTree:count")
        nq = int(m.pick(1, 3, 15, 16, 17, 40))
        Q = X[r.integers(0, len(X), nq)] + (r.normal(size=(nq, d)) * m.pick(0, 0.3, 3.0))
        k = int(m.pick(1, 2, 5, len(X), len(X) + 2)) if len(X) < 60 else int(m.pick(1, 2, 5, 11, 30))
        bound = 9999.0
        if m.chance(0.3):
            bound = float(np.quantile(dist(metric, X, Q[0]), r.random()) * 1.01 + 1e-3)
        par = m.chance(0.5)
        m.seen("kdt", metric, "par" if par else "seq", "bounded" if bound < 9999 else "free", "step%d" % s)
        a, b = m.call("KDTree.knn", lambda: tree.knn(np.ascontiguousarray(Q), k, max_dist_bound=bound, parallel=par))
        dm, im = (a, b) if np.asarray(a).dtype.kind == "f" else (b, a)
        m.eq(dm.shape, (nq, k), "KDTree.knn:shape")
        m.eq(im.shape, (nq, k), "KDTree.knn:shape")
        ids = np.arange(len(X))
        for i in range(nq):
            keep = np.isfinite(dm[i])
            m.ok(all(keep[j] or not keep[j + 1] for j in range(k - 1)), "KDTree.knn:padding", dm[i])
            judge_knn(m, "KDTree.knn", im[i][keep].tolist(), dm[i][keep].tolist(), ids, X,
                      np.ones(len(X), bool), Q[i], k, metric, bound)
        if m.chance(0.7):
            A = points(m, int(m.pick(1, 2, 10, 60)), d)
            if m.chance(0.3):
                A = X[r.integers(0, len(X), len(A))].copy()
            r0 = m.call("KDTree.add", lambda: tree.add(np.ascontiguousarray(A)))
            X = np.vstack([X, A])
