"""P18: time-series features equal their definitions over the series given."""
import itertools
import math
import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.exprs import ts_features as T
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame, series, ev_scalar, ev_vec, floats


def sequence(m, lo=1):
    r = m.rng
    n = int(m.pick(1, 2, 3, 5, 8, 20, 60, 150))
    n = max(n, lo)
    dt = m.pick(pl.Float64, pl.Float64, pl.Float32, pl.Int64, pl.Int32)
    x = floats(r, n)
    if m.chance(0.15):
        x = np.full(n, x[0])
    if dt in (pl.Int64, pl.Int32):
        x = np.clip(np.round(x), -300, 300)      # (products of three stay inside an Int32)
    if dt == pl.Float32:
        x = x.astype(np.float32).astype(float)
    m.seen("n", min(n, 4), dt)
    return x, dt, n, (1e-5 if dt == pl.Float32 else 1e-9)


@case("P18", quick=500, thorough=10000)
def simple_features(m):
    which = m.pick("mid_range", "symm", "energy", "abs_change", "n_max", "cv", "uniques", "range", "c3", "cid", "asym", "acorr", "acorr_raw")
    x, dt, n, rt = sequence(m, 2)
    r = m.rng
    df = frame(r, {"x": pl.Series("x", x).cast(dt)}, "one")
    c = m.pick("x", pl.col("x"))
    m.note(x=x, dt=str(dt), which=which)
    m.seen(which)
    A = np.abs(x)
    sc = 1 + A.max()
    lag = int(m.pick(1, 1, 2, 3))
    if lag * 2 >= n:
        lag = 1
    with np.errstate(all="ignore"):
        if which == "mid_range":
            e, w, s = T.query_mid_range(c), (x.max() - x.min()) / 2, sc
        elif which == "symm":
            e, w, s = T.query_symm_ratio(c), abs(x.mean() - np.median(x)) / np.ptp(x), sc / max(np.ptp(x), 1e-9)
        elif which == "energy":
            e, w, s = T.query_abs_energy(c), (x ** 2).sum(), (x ** 2).sum()
        elif which == "abs_change":
            e, w, s = T.query_mean_abs_change(c), np.abs(np.diff(x)).mean(), sc
        elif which == "n_max":
            k = int(m.pick(1, 2, 5, 200))
            e, w, s = T.query_mean_n_abs_max(c, k), np.sort(A)[::-1][:k].mean(), sc
        elif which == "cv":
            dd = int(m.pick(0, 1))
            e, w, s = T.query_cv(c, ddof=dd), x.std(ddof=dd) / x.mean(), sc / max(abs(x.mean()), 1e-12)
            if abs(x.mean()) < 1e-6 * sc:
                raise Inconclusive("mean 0")
        elif which == "uniques":
            _, cnt = np.unique(x, return_counts=True)
            e, w, s = T.query_count_uniques(c), int((cnt == 1).sum()), 0
        elif which == "range":
            lo, hi = sorted(float(v) for v in r.choice(x, 2))
            e, w, s = T.query_range_count(c, lo, hi), int(((x >= lo) & (x <= hi)).sum()), 0
        elif which == "c3":
            if n <= 2 * lag:
                return
            t = x[2 * lag:] * x[lag:n - lag] * x[:n - 2 * lag]
            e, w, s = T.query_c3_stats(c, lag), t.sum() / (n - 2 * lag), np.abs(t).max() + 1e-12
        elif which == "cid":
            norm = m.chance(0.5)
            if norm and x.std() < 1e-6 * sc:
                raise Inconclusive("constant")
            z = (x - x.mean()) / x.std(ddof=1) if norm else x
            e, w, s = T.query_cid_ce(c, normalize=norm), math.sqrt((np.diff(z) ** 2).sum()), sc / x.std(ddof=1) * n if norm else sc
        elif which == "asym":
            if n <= 2 * lag:
                return
            t = x[2 * lag:] ** 2 * x[lag:n - lag] - x[lag:n - lag] * x[:n - 2 * lag] ** 2
            e, w, s = T.query_time_reversal_asymmetry_stats(c, lag), t.mean(), sc ** 3
        elif which == "acorr":
            dd = int(m.pick(0, 1))
            if x.std() < 1e-6 * sc or lag >= n:
                raise Inconclusive("constant")
            d = x - x.mean()
            e, w, s = T.query_auto_corr(c, lag, ddof=dd), (d[lag:] * d[:n - lag]).sum() / ((n - lag) * x.var(ddof=dd)), (sc / x.std()) ** 2
        else:
            if lag >= n:
                return
            e, w, s = T.query_auto_corr(c, lag, normalize=False), (x[lag:] * x[:n - lag]).mean(), sc ** 2
    got = ev_scalar(m, df, e, which)
    if not np.isfinite(w):
        m.ok(got is None or not math.isfinite(got), which + ":undefined", f"got {got} want {w}")
        return
    m.close(got, w, which + ":value", rt, rt * (0.3 if dt == pl.Float32 else 1e-2) * s)


def streaks(b):
    return [(k, len(list(g))) for k, g in itertools.groupby(b)]


@case("P18", quick=250, thorough=4000)
def streak_features(m):
    r = m.rng
    n = int(m.pick(1, 2, 5, 20, 100))
    p = m.pick(0.1, 0.5, 0.9, 1.0, 0.0)
    b = [bool(v) for v in r.random(n) < p]
    if m.chance(0.3):
        b = [None if r.random() < 0.2 else v for v in b]
    df = frame(r, {"b": series(r, "b", b, pl.Boolean)})
    S = streaks(b)
    t = [k for v, k in S if v]
    m.note(b=b)
    which = m.pick("longest", "avg", "streak", "expr")
    m.seen(which, None in b, p)
    if which == "longest":
        m.eq(ev_scalar(m, df, T.query_longest_streak(m.pick("b", pl.col("b"))), which), max(t, default=0), "longest:value")
    elif which == "avg":
        m.close(ev_scalar(m, df, T.query_avg_streak("b"), which), sum(t) / len(t) if t else 0, "avg:value", 1e-12)
    elif which == "expr":
        x = floats(r, n, "ties")
        d = df.with_columns(x=pl.Series(x))
        t = [k for v, k in streaks([bool(v) for v in x > 0]) if v]
        m.eq(ev_scalar(m, d, T.query_longest_streak(pl.col("x") > 0), which), max(t, default=0), "longest:value")
    else:
        got, _ = ev_vec(m, df, T.query_streak("b"), which)
        m.eq(got, [k for _, k in S], "streak:value")


@case("P18", quick=350, thorough=6000)
def similar_windows(m):
    r = m.rng
    x, dt, n, _ = sequence(m, 3)
    k = int(r.integers(2, min(n, int(m.pick(3, 17, 40))) + 1))
    q = x[:k] + r.normal(size=k) * 0.3 if m.chance(0.5) else r.normal(size=k) * x.std()
    metric = m.pick("sql2", "sqzl2")
    par, ratio = m.chance(0.4), m.chance(0.3)
    W = np.lib.stride_tricks.sliding_window_view(x, k)
    qq = q
    slack = np.zeros(len(W))
    if metric == "sqzl2":
        v = W.var(1, ddof=1)
        vq = q.std(ddof=1)
        if vq < 1e-6:
            raise Inconclusive("flat query")
        qq = (q - q.mean()) / vq
        Z = (W - W.mean(1, keepdims=True)) / np.sqrt(np.maximum(v, 1e-10))[:, None]
        d = ((Z - qq) ** 2).sum(1)
        # rolling sums lose digits where the window is nearly flat
        slack = np.where(v < 1e-6 * (1 + np.abs(x).max() ** 2), np.inf, 1e-6 * (1 + d) * (1 + np.abs(x).max() ** 2 / np.maximum(v, 1e-300)) * (100 if dt == pl.Float32 else 1e-3))
    else:
        d = ((W - q) ** 2).sum(1)
        slack = 1e-9 * (1 + d)
    thr = float(m.pick(np.quantile(d, 0.3), np.quantile(d, 0.8), d.max() * 2 + 1, 0.5)) * 1.0001 + 1e-9
    lo, hi = int((d + slack < thr).sum()), int((d - slack < thr).sum())
    df = frame(r, {"x": series(r, "x", x.tolist(), pl.Float64).cast(dt)})
    if hi - lo > max(2, 0.2 * len(d)):
        raise Inconclusive("nearly flat windows")
    m.seen(metric, par, ratio, "k", min(k, 4), k >= 16)
    m.note(x=x, q=q, metric=metric, thr=thr, par=par)
    got = ev_scalar(m, df, T.query_similar_count(m.pick(q, q.tolist(), pl.Series(q)), m.pick("x", pl.col("x")), thr, metric=metric, parallel=par, return_ratio=ratio), "similar")
    if ratio:
        got = got * len(d)
        m.ok(lo - 1e-6 <= got <= hi + 1e-6, "similar:ratio", f"{got} not in {lo}..{hi}")
    else:
        m.ok(lo <= got <= hi, "similar:count", f"{got} not in {lo}..{hi}, {metric} thr {thr}")


@case("P18", quick=60, thorough=500)
def similar_windows_refused(m):
    x = floats(m.rng, int(m.pick(2, 3, 5)))
    q = floats(m.rng, len(x) + int(m.pick(1, 2, 5)))
    df = frame(m.rng, {"x": x})
    m.note(x=x, q=q)
    got = ev_scalar(m, df, T.query_similar_count(q, "x", 1.0, metric=m.pick("sql2", "sqzl2"), parallel=m.chance(0.5)), "similar too short",
                    expect_error=True, ctxs=("select", "lazy"))
    m.ok((isinstance(got, Exception) and "panick" not in str(got)) or got == 0, "similar:refused", str(got)[:200])


@case("P18", quick=250, thorough=4000)
def lempel_ziv(m):
    r = m.rng
    n = int(m.pick(1, 2, 3, 10, 60, 300))
    b = [bool(v) for v in r.random(n) < m.pick(0.1, 0.5, 1.0, 0.0)]
    if m.chance(0.3):
        b = [None if r.random() < 0.3 else v for v in b]
    df = frame(r, {"b": series(r, "b", b, pl.Boolean)})
    ratio = m.chance(0.5)
    m.note(b=b, ratio=ratio)
    m.seen(ratio, None in b, min(n, 4))
    seq = "".join("1" if v else "0" for v in b)
    seen, i, k = set(), 0, 1
    while i + k <= n:
        w = seq[i:i + k]
        if w in seen:
            k += 1
        else:
            seen.add(w)
            i, k = i + k, 1
    got = ev_scalar(m, df, T.query_lempel_ziv(m.pick("b", pl.col("b")), as_ratio=ratio), "lempel_ziv")
    m.close(got, len(seen) / n if ratio else len(seen), "lempel_ziv:value", 1e-12)


@case("P18", quick=200, thorough=3000)
def ar_coefficients(m):
    r = m.rng
    lag = int(m.pick(1, 2, 3))
    n = int(m.pick(12, 30, 100))
    x = [float(v) for v in r.normal(size=lag)]
    for i in range(n - lag):
        x.append(0.5 * x[-1] - (0.2 * x[-2] if lag > 1 else 0) + float(r.normal()) + m.pick(0, 0.3))
    x = np.array(x)
    bias = m.chance(0.5)
    df = frame(r, {"x": x})
    m.note(x=x, lag=lag, bias=bias)
    m.seen(lag, bias)
    X = np.column_stack([x[lag - i:n - i] for i in range(1, lag + 1)] + ([np.ones(n - lag)] if bias else []))
    w = np.linalg.lstsq(X, x[lag:], rcond=None)[0]
    if np.linalg.cond(X) > 1e3:
        raise Inconclusive("ill conditioned")
    got = ev_scalar(m, df, T.query_ar_coeffs(m.pick("x", pl.col("x")), lag, add_bias=bias), "ar", ctxs=("select", "lazy", "with_columns", "group"))
    m.close(got, w, "ar:value", 1e-7, 1e-8)


@case("P18", quick=60, thorough=600)
def first_digit(m):
    r = m.rng
    n = int(m.pick(1, 5, 40))
    if m.chance(0.5):
        v = [int(k) for k in r.integers(-1200, 1200, n)]
        dt = m.pick(pl.Int64, pl.Int32, pl.Int16)
    else:
        v = [float(k) for k in r.normal(size=n) * 10.0 ** r.integers(-8, 9, n)]
        if m.chance(0.3):
            v = [float(f"{m.pick(1, 2, 3, 9)}e{m.pick(-3, 0, 1, 5)}") if r.random() < 0.5 else k for k in v]
        dt = pl.Float64
    if m.chance(0.4):
        v = [None if r.random() < 0.3 else k for k in v]
    df = frame(r, {"x": series(r, "x", v, dt)})
    w = [0] * 9
    for k in v:
        if k is not None and k != 0:
            w[int(f"{abs(k):.17e}"[0] if isinstance(k, int) else repr(abs(k)).replace("0.", "").lstrip("0.")[0]) - 1] += 1
    m.note(v=v)
    m.seen(dt, None in v)
    got = ev_scalar(m, df, T.query_first_digit_cnt("x"), "first_digit", ctxs=("select", "lazy", "group"))
    m.eq(got, w, "first_digit:value")


@case("P18", quick=1, thorough=12)
def long(m):
    """Runs and counts of more than 2^16."""
    r = m.rng
    n = 140_000
    k = int(r.integers(66_000, 130_000))
    at = int(r.integers(0, n - k))
    b = np.zeros(n, bool)
    b[at:at + k] = True
    which = ("streaks", "uniques", "digits", "energy", "lempel_ziv")[m.i % 5]
    x = np.where(b, 1.5, r.integers(2, 10, n))
    m.note(k=k, at=at, which=which)
    m.seen("long", which)
    df = frame(r, {"b": pl.Series("b", b.tolist()), "x": x, "i": np.arange(n)})
    get = lambda e, name: ev_scalar(m, df, e, name, ctxs=("select", "lazy"))
    if which == "streaks":
        m.eq(get(T.query_longest_streak("b"), "longest"), k, "longest:long")
        m.close(get(T.query_avg_streak("b"), "avg"), k, "avg:long", 1e-12)
        got, _ = ev_vec(m, df, T.query_streak("b"), "streak")
        m.eq(got, [v for v in (at, k, n - k - at) if v], "streak:long") if len(got) < 10 else m.eq(got[at] if len(got) == n else None, k, "streak:long")
    elif which == "uniques":
        m.close(get(T.query_range_count("x", 1.0, 1.9), "range_count"), k, "range_count:long", 0)
        m.close(get(T.query_count_uniques("i"), "count_uniques"), n, "count_uniques:long", 0)
    elif which == "digits":
        got = get(T.query_first_digit_cnt("x"), "first_digit")
        m.eq([int(v) for v in got], [k] + [int((x == d).sum()) for d in range(2, 10)], "first_digit:long")
    elif which == "energy":
        m.close(get(T.query_abs_energy("x"), "abs_energy"), float((x ** 2).sum()), "abs_energy:long", 1e-9)
        m.close(get(T.query_c3_stats("x", 2), "c3"), float((x[4:] * x[2:-2] * x[:-4]).mean()), "c3:long", 1e-9)
    else:
        seq = r.random(n) < 0.5
        df = frame(r, {"b": pl.Series("b", seq.tolist())})
        s, words, i, j = "".join("1" if v else "0" for v in seq), set(), 0, 1
        while i + j <= n:
            w = s[i:i + j]
            if w in words:
                j += 1
            else:
                words.add(w)
                i, j = i + j, 1
        m.close(ev_scalar(m, df, T.query_lempel_ziv("b", as_ratio=False), "lempel_ziv", ctxs=("select", "lazy")), len(words), "lempel_ziv:long", 0)
