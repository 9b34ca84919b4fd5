"""P11: regression and forecast metrics equal their definitions over the rows that have both values."""
import math
import numpy as np
import polars as pl
import polars_ds as pds
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame, ev_scalar, with_nulls, floats

CTX = ("select", "lazy", "with_columns", "group", "over")


INTS = {pl.Int64: 10 ** 4, pl.Int32: 10 ** 4, pl.Int8: 120, pl.UInt8: 250, pl.Int16: 30000, pl.UInt16: 60000, pl.UInt32: 10 ** 4, pl.UInt64: 10 ** 4}


def pair(m, positive=False, nonzero=False):
    """Two columns; nulls anywhere; the rows with both."""
    r = m.rng
    n = int(m.pick(2, 3, 5, 10, 50, 200))
    a = floats(r, n)
    p = a + r.normal(size=n) * r.choice([0.01, 0.5, 3.0]) if m.chance(0.7) else floats(r, n)
    if positive:
        a, p = np.abs(a) + 0.01, np.abs(p) + 0.01
    dt = m.pick(pl.Float64, pl.Float64, pl.Float64, *INTS)
    if dt != pl.Float64:
        top = INTS[dt]
        low = -top if dt.is_signed_integer() else 0
        if m.chance(0.3):        # over the whole range of the type
            a, p = r.uniform(low, top, n), r.uniform(low, top, n)
        a, p = np.round(np.clip(a, low, top)), np.round(np.clip(p, low, top))
        if positive:
            a, p = a + 1, p + 1
    elif m.chance(0.1):          # far apart
        p = p * 10.0 ** r.integers(2, 6)
    if nonzero:
        a[a == 0] = 1
    nulls = m.pick("none", "none", "actual", "pred", "both")
    m.seen("nulls", nulls, str(dt))
    la = with_nulls(r, a, 0.2) if nulls in ("actual", "both") else a.tolist()
    lp = with_nulls(r, p, 0.2) if nulls in ("pred", "both") else p.tolist()
    keep = np.array([x is not None and y is not None for x, y in zip(la, lp)])
    if keep.sum() < 2:
        raise Inconclusive("fewer than two rows")
    m.note(a=la, p=lp, dt=str(dt))
    cast = lambda v: pl.Series([None if x is None else (int(x) if dt.is_integer() else x) for x in v], dtype=dt)
    # (pure polars expressions: polars itself mishandles dot over many chunks with one thread)
    df = frame(r, {"a": cast(la), "p": cast(lp)}, layout="one")
    return df, a[keep], p[keep]


def check(m, df, expr, want, name, rtol=1e-8):
    got = ev_scalar(m, df, expr, name, ctxs=CTX)
    m.close(got, want, name + ":value", rtol, 1e-10 * (1 + abs(want) if math.isfinite(want) else 1))


@case("P11", quick=300, thorough=4000)
def losses(m):
    which = m.pick("l1", "l2", "l_inf", "log_cosh", "huber", "mad", "mape", "wmape", "smape", "msle")
    m.seen(which)
    norm = m.chance(0.5)
    m.note(which=which, norm=norm)
    df, a, p = pair(m, positive=which == "msle", nonzero=which in ("mape", "wmape", "smape"))
    d = a - p
    n = len(d)
    if which == "l1":
        check(m, df, pds.query_l1("a", "p", normalize=norm), float(np.abs(d).sum() / (n if norm else 1)), which)
    elif which == "l2":
        check(m, df, pds.query_l2("a", "p", normalize=norm), float((d ** 2).sum() / (n if norm else 1)), which)
    elif which == "l_inf":
        check(m, df, pds.query_l_inf("a", "p"), float(np.abs(d).max()), which)
    elif which == "log_cosh":
        v = np.abs(d) + np.log1p(np.exp(-2 * np.abs(d))) - math.log(2)
        got = ev_scalar(m, df, pds.query_log_cosh("a", "p", normalize=norm), which, ctxs=CTX)
        m.close(got, float(v.sum() / (n if norm else 1)), which + ":value", 1e-7, 1e-13 * n)
    elif which == "huber":
        delta = float(m.pick(0.1, 1.0, 2.5, float(np.abs(d).max()) or 1.0))
        v = np.where(np.abs(d) <= delta, 0.5 * d * d, delta * (np.abs(d) - 0.5 * delta))
        check(m, df, pds.query_hubor_loss("a", "p", delta), float(v.mean()), which)
    elif which == "mad":
        x = df["a"].drop_nulls().cast(pl.Float64).to_numpy()
        mean = m.chance(0.5)
        want = np.abs(x - x.mean()).mean() if mean else np.median(np.abs(x - np.median(x)))
        check(m, df, pds.query_mad("a", use_mean=mean), float(want), which)
    elif which == "mape":
        check(m, df, pds.query_mape("a", "p"), float(np.abs(d / a).mean()), which)
    elif which == "wmape":
        check(m, df, pds.query_mape("a", "p", weighted=True), float(np.abs(d).sum() / np.abs(a).sum()), which)
    elif which == "smape":
        v = float((np.abs(d) / (np.abs(a) + np.abs(p))).mean())
        check(m, df, pds.query_smape("a", "p"), v, which)
    else:
        v = (np.log1p(a) - np.log1p(p)) ** 2
        check(m, df, pds.query_msle("a", "p", normalize=norm), float(v.sum() / (n if norm else 1)), which)


@case("P11", quick=120, thorough=1500)
def rsquared(m):
    df, a, p = pair(m)
    n = len(a)
    tot = float(((a - a.mean()) ** 2).sum())
    if tot < 1e-9 * (1 + (a ** 2).sum()):
        raise Inconclusive("constant target")
    res = float(((a - p) ** 2).sum())
    slack = 1e-8 * (1 + res / tot) * (1 + (a ** 2).sum() / tot)
    if m.chance(0.5):
        got = ev_scalar(m, df, pds.query_r2("a", "p"), "r2", ctxs=CTX)
        m.close(got, 1 - res / tot, "r2:value", 0, slack)
    else:
        k = int(m.rng.integers(1, n))
        got = ev_scalar(m, df, pds.query_adj_r2("a", "p", k), "adj_r2", ctxs=CTX)
        m.close(got, 1 - (res / (n - k)) / (tot / (n - 1)), "adj_r2:value", 0, slack * n)


@case("P11", quick=100, thorough=1200)
def mase(m):
    """Errors of the test part scaled by the naive seasonal forecast's errors on the training part."""
    r = m.rng
    df, a, p = pair(m)
    mean = m.chance(0.5)
    f = np.mean if mean else np.median
    num = float(f(np.abs(a - p)))
    if m.chance(0.3):
        scale = float(r.uniform(0.1, 5))
        check(m, df, pds.query_mase("a", "p", scale, use_mean=mean), num / scale, "mase")
        m.seen("precomputed")
        return
    freq = int(m.pick(1, 1, 2, 3, 7))
    N = int(r.integers(freq + 2, 60))
    T = int(r.integers(freq + 1, N))
    y, yp = floats(r, N), floats(r, N)
    m.note(y=y, yp=yp, T=T, freq=freq)
    df = frame(r, {"t": np.arange(N), "y": y, "yp": yp}, layout="one")
    num, den = float(f(np.abs(y[T:] - yp[T:]))), float(f(np.abs(y[freq:T] - y[:T - freq])))
    if den == 0:
        raise Inconclusive("constant training part")
    m.seen("train", freq)
    e = pds.query_mase(pl.col("y").filter(pl.col("t") >= T), pl.col("yp").filter(pl.col("t") >= T),
                       pl.col("y").filter(pl.col("t") < T), freq=freq, use_mean=mean)
    got = ev_scalar(m, df, e, "mase", ctxs=("select", "lazy", "with_columns"))
    m.close(got, num / den, "mase:value", 1e-8, 1e-12)
