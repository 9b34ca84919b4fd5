"""P19: entropies and information estimates equal their definitions."""
import math
from collections import Counter
import numpy as np
import polars as pl
import polars_ds as pds
from scipy import special, stats
from polars_ds.exprs import ts_features as T
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame, series, ev_scalar, floats, rand_words


def discrete(m, n, kinds=("int", "str")):
    r = m.rng
    k = int(m.pick(1, 2, 3, 8))
    v = r.integers(0, k, n)
    t = m.pick(*kinds)
    if t == "str":
        return [["a", "b", "cc", "d", "e", "", "é", "h"][i] for i in v], pl.String
    if t == "bool":
        return [bool(i % 2) for i in v], pl.Boolean
    return [int(i) for i in v], m.pick(pl.Int64, pl.UInt8, pl.Int32)


def H(counts):
    p = np.array(list(counts), float)
    p = p / p.sum()
    return float(-(p * np.log(p)).sum())


@case("P19", quick=250, thorough=4000)
def discrete_entropy(m):
    n = int(m.pick(1, 2, 5, 30, 200))
    v, dt = discrete(m, n)
    base = m.pick(math.e, 2, 10)
    df = frame(m.rng, {"x": series(m.rng, "x", v, dt)})
    m.note(v=v, base=base)
    m.seen(dt, base)
    got = ev_scalar(m, df, T.query_entropy(m.pick("x", pl.col("x")), base=base), "entropy")
    m.close(got, H(Counter(v).values()) / math.log(base), "entropy:value", 1e-10, 1e-10)


@case("P19", quick=300, thorough=5000)
def conditional_entropy(m):
    n = int(m.pick(1, 2, 5, 30, 200))
    kinds = ("int", "str", "bool")
    x, dx = discrete(m, n, kinds)
    y, dy = discrete(m, n, kinds)
    if m.chance(0.3):
        x = y if m.chance(0.5) else x
        dx = dy if x is y else dx
    df = frame(m.rng, {"x": series(m.rng, "x", x, dx), "y": series(m.rng, "y", y, dy)})
    m.note(x=x, y=y)
    m.seen(dx, dy, x is y)
    w = H(Counter(zip(x, y)).values()) - H(Counter(y).values())
    got = ev_scalar(m, df, T.query_cond_entropy("x", m.pick("y", pl.col("y"))), "cond_entropy")
    m.close(got, w, "cond_entropy:value", 1e-9, 1e-9)


def walk(m, lo=1):
    r = m.rng
    n = int(m.pick(1, 2, 3, 4, 6, 12, 40, 120, 120, 600 if m.chance(0.3) else 50))
    n = max(n, lo)
    k = m.pick("noise", "sine", "walk", "levels", "const")
    x = {"noise": lambda: r.normal(size=n), "sine": lambda: np.sin(np.arange(n) * r.random()) + 0.1 * r.normal(size=n),
         "walk": lambda: np.cumsum(r.normal(size=n)), "levels": lambda: r.integers(0, 4, n).astype(float), "const": lambda: np.full(n, 2.5)}[k]()
    dt = m.pick(pl.Float64, pl.Float64, pl.Float32)
    if dt == pl.Float32:
        x = x.astype(np.float32).astype(float)
    if k == "levels" and m.chance(0.5):
        dt = pl.Int64
    m.seen(k, "n", min(n, 5), dt)
    return x, dt, n


def close_pairs(x, k, rows, r, m):
    """number of ordered pairs (self included) of length-k templates within r in the max norm, per template"""
    if rows <= 0:
        return np.zeros(0)
    W = np.lib.stride_tricks.sliding_window_view(x, k)[:rows]
    d = np.abs(W[:, None, :] - W[None, :, :]).max(2)
    if (np.abs(d - r) < 1e-6 * (1 + np.abs(x).max())).any():
        raise Inconclusive("a distance equals the tolerance")
    return (d <= r).sum(1)


@case("P19", quick=350, thorough=6000)
def sample_entropy(m):
    x, dt, n = walk(m)
    k = int(m.pick(2, 2, 3))
    ratio = float(m.pick(0.2, 0.1, 0.5, 1.0))
    par = m.chance(0.4)
    df = frame(m.rng, {"x": series(m.rng, "x", x.tolist(), pl.Float64).cast(dt)})
    m.note(x=x, k=k, ratio=ratio, par=par)
    m.seen(k, par)
    got = ev_scalar(m, df, T.query_sample_entropy(m.pick("x", pl.col("x")), ratio=ratio, m=k, parallel=par), "sample_entropy")
    r = ratio * x.std()
    if n - k + 1 < k + 1 or r <= 1e-12:
        if n - k + 1 < k + 1:
            m.ok(got is None or math.isnan(got), "sample_entropy:short", got)
        return
    b = close_pairs(x, k, n - k + 1, r, m).sum() - (n - k + 1)
    a = close_pairs(x, k + 1, n - k, r, m).sum() - (n - k)
    if b == 0:
        m.ok(got is None or math.isnan(got) or math.isinf(got), "sample_entropy:none", got)
        return
    m.close(got, math.inf if a == 0 else math.log(b / a), "sample_entropy:value", 1e-9, 1e-9)


@case("P19", quick=350, thorough=6000)
def approx_entropy(m):
    x, dt, n = walk(m)
    k = int(m.pick(2, 2, 3))
    lev = float(m.pick(0.2, 0.5, 1.03))
    scale, par = m.chance(0.6), m.chance(0.4)
    df = frame(m.rng, {"x": series(m.rng, "x", x.tolist(), pl.Float64).cast(dt)})
    m.note(x=x, k=k, lev=lev, scale=scale, par=par)
    m.seen(k, scale, par)
    got = ev_scalar(m, df, T.query_approx_entropy(m.pick("x", pl.col("x")), k, lev, scale_by_std=scale, parallel=par), "approx_entropy")
    r = lev * x.std(ddof=1) if scale and n > 1 else lev
    if n - k + 1 < k + 1 or (scale and (n < 2 or r < 1e-12)):
        if n - k + 1 < k + 1:
            m.ok(got is None or math.isnan(got), "approx_entropy:short", got)
        return
    c1 = close_pairs(x, k, n - k + 1, r, m) / (n - k + 1)
    c2 = close_pairs(x, k + 1, n - k, r, m) / (n - k)
    m.close(got, abs(np.log(c1).mean() - np.log(c2).mean()), "approx_entropy:value", 1e-9, 1e-9)


def kl_entropy(X, k, dist):
    n, d = X.shape
    D = np.abs(X[:, None] - X[None])
    D = D.max(2) if dist == "inf" else np.sqrt((D ** 2).sum(2))
    e = np.sort(D, 1)[:, k]
    ln_cd = 0.0 if dist == "inf" else (d / 2) * math.log(math.pi) - d * math.log(2) - math.lgamma(1 + d / 2)
    with np.errstate(divide="ignore"):
        return float(special.digamma(n) - special.digamma(k) + ln_cd + d / n * np.log(2 * e).sum())


def cloud(m, d, lo):
    r = m.rng
    n = max(lo, int(m.pick(5, 8, 20, 80)))
    X = r.normal(size=(n, d))
    if d > 1 and m.chance(0.5):
        X[:, 1] = X[:, 0] * 0.8 + 0.4 * X[:, 1]
    if m.chance(0.3):
        X = X * 10.0 ** r.integers(-2, 3, d)
    return X, n


@case("P19", quick=300, thorough=5000)
def knn_entropy(m):
    d, k = int(m.pick(1, 2, 3, 5)), int(m.pick(1, 2, 3, 4, 9, 17))
    X, n = cloud(m, d, 2)
    if m.chance(0.2):
        X[: n // 2] = X[0]
    dist, par = m.pick("l2", "inf"), m.chance(0.4)
    df = frame(m.rng, {f"x{i}": X[:, i] for i in range(d)})
    m.note(X=X, k=k, dist=dist, par=par)
    m.seen(d, k, dist, par)
    got = ev_scalar(m, df, T.query_knn_entropy(*[m.pick(f"x{i}", pl.col(f"x{i}")) for i in range(d)], k=k, dist=dist, parallel=par), "knn_entropy")
    if n <= k:
        m.ok(math.isnan(got), "knn_entropy:few", got)
        return
    m.close(got, kl_entropy(X, k, dist), "knn_entropy:value", 1e-9, 1e-9)


def copula(cols, k):
    R = np.column_stack([stats.rankdata(c) / len(c) for c in cols])
    return -kl_entropy(R, k, "l2")


@case("P19", quick=300, thorough=4000)
def copula_family(m):
    k = int(m.pick(2, 3))
    X, n = cloud(m, 3, 8)
    par = m.chance(0.4)
    which = m.pick("copula", "cond_indep", "transfer")
    df = frame(m.rng, {c: X[:, i] for i, c in enumerate("xyz")})
    m.note(X=X, k=k, which=which, par=par)
    m.seen(which, k, par)
    x, y, z = X.T
    ci = lambda a, b, c: copula([a, b, c], k) - copula([b, c], k) - copula([a, c], k)
    if which == "copula":
        got = ev_scalar(m, df, T.query_copula_entropy("x", "y", k=k, parallel=par), which)
        w = copula([x, y], k)
    elif which == "cond_indep":
        got = ev_scalar(m, df, T.query_cond_indep("x", "y", pl.col("z"), k=k, parallel=par), which)
        w = ci(x, y, z)
    else:
        lag = int(m.pick(1, 2))
        got = ev_scalar(m, df, T.query_transfer_entropy("x", "y", lag=lag, k=k, parallel=par), which, ctxs=("select", "lazy", "with_columns"))
        w = ci(x[lag:], y[:n - lag], x[:n - lag])
    if not np.isfinite(w):
        m.ok(not math.isfinite(got), which + ":undefined", got)
        return
    m.close(got, w, which + ":value", 1e-8, 1e-8)


@case("P19", quick=300, thorough=5000)
def permutation_entropy(m):
    d, tau = int(m.pick(2, 3, 4)), int(m.pick(1, 1, 2, 3))
    x, dt, n = walk(m, (d - 1) * tau + 1)
    if dt != pl.Int64:
        x = x + 1e-3 * m.rng.permutation(n)           # no ties: their order is not documented
    W = [tuple(np.argsort(x[i:i + (d - 1) * tau + 1:tau], kind="stable")) for i in range(n - (d - 1) * tau)]
    if any(len(set(x[i:i + (d - 1) * tau + 1:tau])) < d for i in range(n - (d - 1) * tau)):
        raise Inconclusive("ties")
    base = m.pick(math.e, 2)
    df = frame(m.rng, {"x": pl.Series("x", x)})
    m.note(x=x, d=d, tau=tau, base=base)
    m.seen(d, tau, base)
    got = ev_scalar(m, df, T.query_permute_entropy(m.pick("x", pl.col("x")), tau=tau, n_dims=d, base=base), "permute_entropy")
    m.close(got, H(Counter(W).values()) / math.log(base), "permute_entropy:value", 1e-9, 1e-9)


@case("P19", quick=1, thorough=12)
def long(m):
    """Counts of more than 2^16, and as many different values."""
    r = m.rng
    n = int(m.pick(140_000, 200_000))
    few, many = (r.random(n) < 0.2).astype(int), r.integers(0, 90_000, n)
    m.note(n=n)
    which = ("few", "many", "cond", "permute")[m.i % 4]
    m.seen("long", which)
    df = frame(r, {"few": few, "many": many, "x": r.permutation(n) / 7.0})
    get = lambda e, name: ev_scalar(m, df, e, name, ctxs=("select", "lazy"))
    if which in ("few", "many"):
        v = few if which == "few" else many
        m.close(get(T.query_entropy(which), "entropy"), H(Counter(v.tolist()).values()), "entropy:long", 1e-9)
    elif which == "cond":
        a, b = Counter(zip(few.tolist(), many.tolist())), Counter(many.tolist())
        m.close(get(T.query_cond_entropy("few", "many"), "cond_entropy"), H(a.values()) - H(b.values()), "cond_entropy:long", 1e-7, 1e-7)
    else:
        x = df["x"].to_numpy()
        W = np.argsort(np.column_stack([x[:-2], x[1:-1], x[2:]]), axis=1)
        m.close(get(T.query_permute_entropy("x", tau=1, n_dims=3), "permute_entropy"), H(np.unique(W, axis=0, return_counts=True)[1]), "permute_entropy:long", 1e-9)
