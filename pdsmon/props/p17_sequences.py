"""P17: integration, convolution, Fourier transform, isotonic regression and principal components equal their definitions."""
import math
import numpy as np
import polars as pl
import polars_ds as pds
from scipy import signal
from scipy.optimize import isotonic_regression as iso
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame, series, ev_rows, ev_scalar, ev_vec, floats


def vec(m, n, nulls=0.0, kind=None):
    v = [float(x) for x in floats(m.rng, n, kind)]
    return [None if m.rng.random() < nulls else x for x in v]


@case("P17", quick=300, thorough=5000)
def trapezoid(m):
    r = m.rng
    n = int(m.pick(1, 2, 3, 9, 33, 100))
    dt = m.pick(pl.Float64, pl.Float64, pl.Float32, pl.Int32)
    y = np.array(vec(m, n))
    x = np.cumsum(r.exponential(size=n)) - 3 if m.chance(0.7) else np.sort(r.integers(-5, 5, n)).astype(float)
    if dt == pl.Int32:
        y = np.round(y)
    if dt == pl.Float32:
        y = y.astype(np.float32).astype(float)
    df = frame(r, {"y": pl.Series("y", y).cast(dt), "x": x})
    mode = m.pick("column", "column", "dx", "null y", "null x")
    m.seen(mode, min(n, 3), dt)
    m.note(x=x, y=y, mode=mode)
    if mode == "dx":
        dx = float(m.pick(0.5, 2.0, 0.1))
        got = ev_scalar(m, df, pds.integrate_trapz("y", dx), "trapz")
        m.close(got, np.trapezoid(y, dx=dx), "trapz:dx", 1e-12, 1e-13 * (1 + np.abs(y).sum()) * dx)
        return
    if mode in ("null y", "null x"):
        i = int(r.integers(n))
        c = mode[-1]
        df = df.with_columns(pl.when(pl.int_range(pl.len()) != i).then(pl.col(c)).alias(c))
        got = ev_scalar(m, df, pds.integrate_trapz("y", "x"), "trapz null")
        m.ok(got is None or math.isnan(got), "trapz:null", got)
        return
    got = ev_scalar(m, df, pds.integrate_trapz("y", m.pick("x", pl.col("x"))), "trapz")
    m.close(got, np.trapezoid(y, x), "trapz:value", 1e-12, 1e-13 * (1 + np.abs(y).sum()) * (1 + np.ptp(x)))


@case("P17", quick=400, thorough=6000)
def convolution(m):
    r = m.rng
    n = int(m.pick(2, 3, 5, 20, 64, 300))
    k = int(r.integers(2, min(n, int(m.pick(2, 3, 6, 40, 300))) + 1))
    x = vec(m, n, m.pick(0.0, 0.0, 0.3))
    ker = vec(m, k)
    fill = float(m.pick(0.0, 0.0, 1.5))
    method, mode = m.pick("direct", "direct", "fft"), m.pick("full", "same", "left", "right", "valid")
    par = m.chance(0.4)
    how = m.pick("list", "numpy", "series", "expr", "nonfinite")
    kk = {"list": ker, "numpy": np.array(ker), "series": pl.Series("k", ker), "expr": pl.col("k"),
          "nonfinite": ker[:1] + [math.nan] + ker[1:] + [math.inf, None]}[how]
    pos = np.sort(r.choice(n, k, replace=False))
    col = [None] * n
    for i, z in zip(pos, ker):
        col[i] = z
    df = frame(r, {"x": series(r, "x", x, pl.Float64), "k": pl.Series("k", col, dtype=pl.Float64)})
    m.seen(method, mode, how, par, "k", min(k, 4), "odd" if k % 2 else "even", "n=k" if n == k else "")
    m.note(x=x, ker=ker, fill=fill, method=method, mode=mode, how=how)
    xx = np.array([fill if v is None else v for v in x])
    full = np.convolve(xx, ker)
    w = {"full": full, "valid": full[k - 1:n], "left": full[:n], "right": full[k - 1:], "same": full[(k - 1) // 2:(k - 1) // 2 + n]}[mode]
    got, dt = ev_vec(m, df, pds.convolve("x", kk, fill_value=fill, method=method, mode=mode, parallel=par), "convolve")
    m.eq(dt, pl.Float64, "convolve:dtype")
    m.close(got, w, f"convolve:{method}", 1e-10, 1e-13 * (1 + np.abs(xx).max() * np.abs(ker).sum()) * (math.log2(n + k) + 1) * (n if method == "fft" else 1))


@case("P17", quick=60, thorough=600)
def convolution_refused(m):
    """a kernel longer than the column, or of one tap, is refused"""
    r = m.rng
    n = int(m.pick(0, 1, 2, 5))
    k = int(m.pick(0, 1, n + 1))
    if 2 <= k <= n:
        return
    df = frame(r, {"x": np.array(vec(m, n))})
    m.note(n=n, k=k)
    got = ev_vec(m, df, pds.convolve("x", vec(m, k), method=m.pick("fft", "direct"), mode=m.pick("full", "same")), "convolve", expect_error=True, ctxs=("select", "lazy"))
    m.ok(isinstance(got, Exception) and "panick" not in str(got) or (not isinstance(got, Exception) and k == 1), "convolve:refused", str(got)[:200])


@case("P17", quick=300, thorough=5000)
def fourier(m):
    r = m.rng
    n = int(m.pick(1, 2, 3, 4, 5, 8, 12, 17, 64, 100, 128, 257))
    x = np.array(vec(m, n))
    nn = None if m.chance(0.5) else int(m.pick(2, 3, 4, 7, n + 1, 2 * n, max(2, n // 2), 128))
    full = m.chance(0.5)
    df = frame(r, {"x": series(r, "x", x.tolist(), pl.Float64)})
    m.seen("n", min(n, 5), "even" if n % 2 == 0 else "odd", "pad", nn is not None and ("crop" if nn < n else "pad"), full)
    m.note(x=x, nn=nn, full=full)
    got, dt = ev_vec(m, df, pds.rfft(m.pick("x", pl.col("x")), n=nn, return_full=full), "rfft", ctxs=("select", "lazy", "two", "group"))
    w = np.fft.fft(x, nn) if full else np.fft.rfft(x, nn)
    if dt == pl.Array(pl.Float64, 2) or dt == pl.Array(pl.Float64, (2,)):
        m.observed += 1
    else:
        m.fail("rfft:dtype", str(dt))
    m.ok(len(got) == len(w), "rfft:length", lambda: f"{len(got)} want {len(w)}")
    g = np.array([complex(a, b) for a, b in got])
    m.observed += len(w)
    err = np.abs(g - w).max()
    m.ok(err <= 1e-13 * (1 + np.abs(x).sum()) * (1 + math.log2(len(x) + 1)), "rfft:value", lambda: f"max error {err}")


@case("P17", quick=300, thorough=6000)
def isotonic(m):
    r = m.rng
    n = int(m.pick(1, 2, 3, 5, 20, 100))
    y = np.array(vec(m, n, kind=m.pick("ties", "normal", "smallint", "wide")))
    if m.chance(0.4):
        y = np.sort(y)
        if m.chance(0.5):
            y = y[::-1].copy()
    inc = m.chance(0.5)
    w = None
    if m.chance(0.6):
        w = r.exponential(size=n) + 0.01 if m.chance(0.5) else r.integers(1, 5, n).astype(float)
    df = frame(r, {"y": y, "w": np.ones(n) if w is None else w})
    m.note(y=y, w=w, inc=inc)
    m.seen(inc, w is not None, min(n, 3))
    e = pds.isotonic_regression("y", None if w is None else m.pick("w", pl.col("w")), increasing=inc)
    if m.chance(0.5):
        got, dt = ev_vec(m, df, e, "isotonic")
    else:
        got = m.call("isotonic", lambda: df.lazy().with_columns(r=e).collect()["r"])
        dt, got = got.dtype, got.to_list()
    m.eq(dt, pl.Float64, "isotonic:dtype")
    want = iso(y, weights=w, increasing=inc).x
    m.close(got, want, "isotonic:value", 1e-9, 1e-11 * (1 + np.abs(y).max()))
    g = np.array(got)
    d = np.diff(g) if inc else -np.diff(g)
    m.ok((d >= 0).all(), "isotonic:order", lambda: str(g))


def matrix(m, nulls=True):
    r = m.rng
    p = int(m.pick(1, 2, 3, 5, 8))
    n = int(m.pick(2, 3, 4, 6, 10, 40, 200))
    X = r.normal(size=(n, p)) * 10.0 ** r.integers(-1, 2, p) + r.normal(size=p) * m.pick(0, 5)
    if m.chance(0.3) and p > 1:
        X[:, -1] = X[:, 0] + r.normal(size=n) * m.pick(0.1, 1.0)
    if m.chance(0.2):
        X = np.round(X)
    cols = {}
    frac = m.pick(0.0, 0.0, 0.15) if nulls else 0.0
    mask = r.random((n, p)) < frac
    for i in range(p):
        cols[f"x{i}"] = series(r, f"x{i}", [None if mask[j, i] else float(X[j, i]) for j in range(n)], pl.Float64)
    keep = ~mask.any(1)
    m.seen("shape", "tall" if n > p else "square" if n == p else "wide", "nulls", frac > 0)
    return frame(r, cols, "one" if m.chance(0.5) else None), X, keep, p, n


def centred(X, center):
    return X - X.mean(0) if center else X


@case("P17", quick=300, thorough=5000)
def singular_values(m):
    df, X, keep, p, n = matrix(m)
    center = m.chance(0.6)
    ev, ratio = m.chance(0.5), m.chance(0.4)
    Z = centred(X[keep], center)
    m.note(X=X, keep=keep, center=center, ev=ev, ratio=ratio)
    m.seen(center, ev, ratio)
    if len(Z) < 2:
        raise Inconclusive("fewer than two complete rows")
    s = np.linalg.svd(Z, compute_uv=False)
    w = s ** 2 / (len(Z) - 1) if ev else s
    sc = w.max()
    if sc < 1e-9:
        raise Inconclusive("constant")
    if ratio:
        w, sc = w / w.sum(), 1
    feats = [m.pick(f"x{i}", pl.col(f"x{i}")) for i in range(p)]
    ctxs = ("select", "lazy", "with_columns", "group") if df.n_chunks() == 1 else ("select", "lazy", "group")
    got = ev_scalar(m, df, pds.singular_values(*feats, center=center, as_explained_var=ev, as_ratio=ratio), "singular_values", ctxs=ctxs)
    m.ok(got is not None and len(got) == len(w), "singular_values:length", lambda: f"{got} want {w}")
    m.close(got, w, "singular_values:value", 1e-9, 1e-12 * sc * (1 + np.abs(X).max() if center else 1))
    m.ok(all(a >= b for a, b in zip(got, got[1:])), "singular_values:order", str(got))


@case("P17", quick=300, thorough=5000)
def pca(m):
    df, X, keep, p, n = matrix(m)
    center = m.chance(0.6)
    Z = centred(X[keep], center)
    m.note(X=X, keep=keep, center=center)
    m.seen(center)
    if len(Z) < 2:
        raise Inconclusive("fewer than two complete rows")
    s = np.linalg.svd(Z, compute_uv=False)
    if s.max() < 1e-9:
        raise Inconclusive("constant")
    feats = [m.pick(f"x{i}", pl.col(f"x{i}")) for i in range(p)]
    got, dt = ev_vec(m, df, pds.pca(*feats, center=center), "pca")
    m.eq(dt, pl.Struct({"singular_value": pl.Float64, "weight_vector": pl.List(pl.Float64)}), "pca:dtype")
    m.ok(len(got) == len(s), "pca:length", lambda: f"{len(got)} want {len(s)}")
    sc = s.max() * (1 + np.abs(X).max() if center else 1)
    m.close([q["singular_value"] for q in got], s, "pca:singular_value", 1e-9, 1e-12 * sc)
    V = np.array([q["weight_vector"] for q in got])
    m.ok(V.shape == (len(s), p), "pca:weights shape", str(V.shape))
    m.observed += V.size
    m.ok(np.abs(V @ V.T - np.eye(len(s))).max() < 1e-9, "pca:orthonormal", lambda: str(V @ V.T))
    # each weight vector is an eigenvector of Z'Z for the square of its singular value
    R = Z.T @ (Z @ V.T) - V.T * (s ** 2)
    m.ok(np.abs(R).max() <= 1e-10 * sc ** 2 + 1e-300, "pca:vectors", lambda: f"{np.abs(R).max()} for {s}")


@case("P17", quick=300, thorough=5000)
def principal_components(m):
    df, X, keep, p, n = matrix(m, nulls=False)
    center = m.chance(0.6)
    k = int(m.rng.integers(1, p + 1))
    Z = centred(X, center)
    m.note(X=X, center=center, k=k)
    m.seen(center, k, p)
    s = np.linalg.svd(Z, compute_uv=False)
    e = pds.principal_components(*[m.pick(f"x{i}", pl.col(f"x{i}")) for i in range(p)], k=k, center=center)
    ctxs = ("select", "lazy", "with_columns", "unnest") if df.n_chunks() == 1 or not center else ("select", "lazy")
    ctx = m.pick(*ctxs)
    m.seen(ctx)
    if ctx == "unnest":
        got = m.call("pcs", lambda: df.lazy().select(r=e).unnest("r").collect())
        cols = got.columns
        P = got.to_numpy()
    else:
        got = m.call("pcs", lambda: (df.select(r=e) if ctx == "select" else df.lazy().select(r=e).collect() if ctx == "lazy" else df.lazy().with_columns(r=e).collect())["r"])
        sch = m.call("pcs:schema", lambda: df.lazy().select(r=e).collect_schema()["r"])
        m.eq(got.dtype, sch, "pcs:schema")
        cols = [f.name for f in got.dtype.fields]
        P = got.struct.unnest().to_numpy()
    m.eq(cols, [f"pc{i + 1}" for i in range(k)], "pcs:names")
    m.ok(P.shape == (n, k), "pcs:shape", str(P.shape))
    m.observed += P.size
    if n < k:
        m.ok(np.isnan(P).all(), "pcs:nan", str(P))
        return
    s = np.concatenate([s, np.zeros(max(0, k - len(s)))])
    sc = (s.max() + 1e-300) * (1 + np.abs(X).max() if center else 1)
    # columns are orthogonal, with norms the singular values, and lie in the right eigenspace of ZZ'
    G = P.T @ P
    m.ok(np.abs(G - np.diag(s[:k] ** 2)).max() <= 1e-9 * sc ** 2, "pcs:gram", lambda: f"{G} for {s}")
    R = Z @ (Z.T @ P) - P * s[:k] ** 2
    m.ok(np.abs(R).max() <= 1e-9 * sc ** 3, "pcs:vectors", lambda: f"{np.abs(R).max()} for {s}")


@case("P17", quick=1, thorough=16)
def long(m):
    """Sequences of more than 2^16 values."""
    r = m.rng
    n = int(m.pick(65_537, 70_000, 131_072 + 3))
    x = r.normal(size=n)
    which = ("fft", "convolve", "isotonic", "trapz", "detrend")[m.i % 5]
    m.note(n=n, which=which, x=x[:20])
    m.seen("long", which)
    df = frame(r, {"x": x, "i": np.arange(n) * 0.5}, layout="one")
    if which == "fft":
        got = m.call("rfft", lambda: df.select(r=pds.rfft("x"))["r"].to_list())
        w = np.fft.rfft(x)
        m.eq(len(got), len(w), "rfft:long-length")
        g = np.array(got)
        m.close(g[:, 0], w.real, "rfft:long", 1e-8, 1e-6)
        m.close(g[:, 1], w.imag, "rfft:long", 1e-8, 1e-6)
    elif which == "convolve":
        k = [float(v) for v in r.normal(size=7)]
        mode, method = m.pick("full", "same", "valid"), m.pick("fft", "direct")
        got = m.call("convolve", lambda: df.select(r=pds.convolve("x", k, mode=mode, method=method))["r"].to_numpy())
        m.close(got, signal.convolve(x, k, mode=mode, method="direct"), f"convolve-{mode}:long", 1e-8, 1e-8)
    elif which == "isotonic":
        got = m.call("isotonic", lambda: df.select(r=pds.isotonic_regression(pl.col("x") + pl.col("i") * (6.0 / n)))["r"].to_numpy())
        m.close(got, iso(x + np.arange(n) * 0.5 * (6.0 / n)).x, "isotonic:long", 1e-7, 1e-9)
    elif which == "trapz":
        got = m.call("trapz", lambda: df.select(pds.integrate_trapz("x", pl.col("i"))).item())
        m.close(got, float(np.trapezoid(x, np.arange(n) * 0.5)), "trapz:long", 1e-9, 1e-7)
    else:
        got = m.call("detrend", lambda: df.select(r=pds.detrend("x"))["r"].to_numpy())
        m.close(got, signal.detrend(x), "detrend:long", 1e-6, 1e-8)
