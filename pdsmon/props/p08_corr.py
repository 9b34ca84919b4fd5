"""P08: correlations and weighted statistics follow their definitions."""
import numpy as np, polars as pl, polars_ds as pds, scipy.stats as st
from astropy.stats import biweight_midcorrelation
from polars_ds.exprs.stats import winsorize as winsorize_
from ..core import case, Inconclusive
from .. import gen
from .p07_tests import sample

ONE = "one"      # polars 1.27 mis-evaluates pure expressions on chunked frames with one thread


def pair(m, n):
    x = sample(m, n)
    y = sample(m, n)
    if m.chance(0.5):
        y = y + float(m.pick(-2, -1, 1, 2)) * (x - x.mean()) / (x.std() + 1e-9)
    return x, y


@case("P08", quick=120, thorough=1500)
def kendall(m):
    r = m.rng
    n = int(r.integers(1, m.pick(6, 20, 80, 600)))
    x, y = pair(m, n)
    if m.chance(0.3):
        x, y = np.round(x), np.round(y)
    p = m.pick(0, 0, 0.2)
    bad = lambda v: [None if r.random() < p else float("nan") if r.random() < p / 2 else float(a) for a in v]
    lx, ly = bad(x), bad(y)
    dt = pl.Float64
    if m.chance(0.3):
        lx, ly, dt = [None if a is None or np.isnan(a) else int(a) for a in lx], [None if a is None or np.isnan(a) else int(a) for a in ly], pl.Int64
    df = gen.frame(r, {"x": gen.series(r, "x", lx, dt), "y": gen.series(r, "y", ly, dt)})
    m.note(df=df)
    k = [(a, b) for a, b in zip(lx, ly) if a is not None and b is not None and a == a and b == b]
    e = pds.kendall_tau("x", "y") if m.chance(0.7) else pds.corr("x", "y", method="kendall")
    if dt == pl.Int64:
        e = pds.kendall_tau(pl.col("x").cast(pl.Float64), pl.col("y").cast(pl.Float64))
    got = gen.ev_scalar(m, df, e, "kendall_tau")
    a, b = np.array([t[0] for t in k]), np.array([t[1] for t in k])
    if len(k) < 2 or len(set(a)) == 1 or len(set(b)) == 1:
        m.seen("undefined")
        m.ok(got is None or np.isnan(got), "kendall:undefined", lambda: repr(got))
        return
    d1, d2 = np.sign(a[:, None] - a[None, :]), np.sign(b[:, None] - b[None, :])
    want = (d1 * d2).sum() / np.sqrt((d1 ** 2).sum() * (d2 ** 2).sum())
    m.seen("ties" if (d1 == 0).sum() > len(a) else "noties", "n>100" if n > 100 else "n<=100")
    m.close([got], [want], "kendall", 1e-9, 1e-12)
    m.ok(-1 - 1e-12 <= got <= 1 + 1e-12, "kendall:range", got)


@case("P08", quick=80, thorough=1000)
def xi(m):
    r = m.rng
    n = int(r.integers(3, m.pick(20, 60, 400)))
    x, y = r.permutation(n) * float(r.uniform(0.1, 3)), None
    y = m.pick(lambda: r.normal(size=n), lambda: np.round(np.sin(x) * 3), lambda: r.integers(0, 4, n).astype(float), lambda: x * x)()
    if len(set(y.tolist())) < 2:
        raise Inconclusive("constant y")
    df = gen.frame(r, {"x": x, "y": y})
    m.note(df=df)
    yo = y[np.argsort(x)]
    rk = np.array([(yo <= v).sum() for v in yo])
    lk = np.array([(yo >= v).sum() for v in yo])
    want = 1 - n * np.abs(np.diff(rk)).sum() / (2 * (lk * (n - lk)).sum())
    seed = m.pick(None, 3)
    kind = m.pick("plain", "p", "corr")
    m.seen(kind, "n<30" if n < 30 else "n>=30", "ties" if len(set(y)) < n else "noties")
    if kind == "p":
        got = gen.ev_scalar(m, df, pds.xi_corr("x", "y", seed=seed, return_p=True), "xi_corr")
        m.eq(list(got), ["statistic", "pvalue"], "xi:fields")
        m.close([got["statistic"]], [want], "xi", 1e-9, 1e-12)
        wp = float("nan") if n < 30 else 2 * st.norm.sf(abs(want) * np.sqrt(n) / np.sqrt(0.4))
        m.close([got["pvalue"]], [wp], "xi:pvalue", 1e-6, 1e-12)
    else:
        e = pds.xi_corr("x", pl.col("y"), seed=seed) if kind == "plain" else pds.corr("x", "y", method="xi")
        m.close([gen.ev_scalar(m, df, e, "xi_corr")], [want], "xi", 1e-9, 1e-12)


@case("P08", quick=60, thorough=600)
def xi_ties_in_x(m):
    """Ties of x are broken at random: the answer is that of some order of the tied rows."""
    r = m.rng
    n = int(r.integers(3, 7))
    x = r.integers(0, 3, n).astype(float)
    y = r.normal(size=n).round(1)
    if len(set(y.tolist())) < 2:
        raise Inconclusive("constant y")
    df = gen.frame(r, {"x": x, "y": y})
    m.note(df=df)
    import itertools
    allowed = set()
    for p in itertools.permutations(range(n)):
        if all(x[p[i]] <= x[p[i + 1]] for i in range(n - 1)):
            yo = y[list(p)]
            rk = np.array([(yo <= v).sum() for v in yo])
            lk = np.array([(yo >= v).sum() for v in yo])
            allowed.add(round(1 - n * np.abs(np.diff(rk)).sum() / (2 * (lk * (n - lk)).sum()), 9))
    seed = m.pick(None, int(r.integers(0, 1000)))
    a = gen.ev_scalar(m, df, pds.xi_corr("x", "y", seed=seed), "xi_corr")
    m.seen(len(allowed))
    m.ok(any(abs(a - w) < 1e-8 for w in allowed), "xi:ties", lambda: f"{a} not in {allowed}")
    if seed is not None:
        b = df.select(pds.xi_corr("x", "y", seed=seed)).item()
        c = df.select(pds.xi_corr("x", "y", seed=seed)).item()
        m.eq(b, c, "xi:seeded")


@case("P08", quick=60, thorough=600)
def robust(m):
    r = m.rng
    n = int(r.integers(5, m.pick(20, 200)))
    x, y = pair(m, n)
    which = m.pick("bicor", "pearson", "spearman", "bicor_corr")
    df = gen.frame(r, {"x": x, "y": y}, layout=ONE)
    m.note(df=df, which=which)
    m.seen(which)
    if which.startswith("bicor"):
        if np.median(np.abs(x - np.median(x))) < 1e-9 or np.median(np.abs(y - np.median(y))) < 1e-9:
            raise Inconclusive("zero MAD")
        c = m.pick(9.0, 6.0, 12.5) if which == "bicor" else 9.0
        # values on the edge of the weight function
        for v in (x, y):
            u = np.abs(v - np.median(v)) / (c * np.median(np.abs(v - np.median(v))))
            if np.any(np.abs(u - 1) < 1e-9):
                raise Inconclusive("value on the cut")
        e = pds.bicor("x", "y", c=c) if which == "bicor" else pds.corr("x", "y", method="bicor")
        want = biweight_midcorrelation(x, y, c=c)
    else:
        if x.std() < 1e-9 or y.std() < 1e-9:
            raise Inconclusive("constant")
        e = pds.corr("x", "y", method=which)
        want = (st.pearsonr if which == "pearson" else st.spearmanr)(x, y).statistic
    m.close([gen.ev_scalar(m, df, e, which)], [want], which, 1e-7, 1e-9)


@case("P08", quick=200, thorough=2500)
def weighted(m):
    r = m.rng
    n = int(r.integers(2, m.pick(6, 60)))
    x, y = pair(m, n)
    w = r.uniform(0.05, 3, n)
    if m.chance(0.2):
        w[r.integers(0, n)] = 0.0
    pos = np.abs(x) + 0.1
    which = m.pick("mean", "mean_n", "var", "var_f", "cov", "corr", "hmean", "hmean_n", "gmean", "gmean_n", "cos", "wcos", "h", "g")
    if which == "var_f":
        w = r.integers(1, 6, n).astype(float)
    wn = w / w.sum()
    df = gen.frame(r, {"x": x, "y": y, "w": wn if which.endswith("_n") else w, "p": pos}, layout=ONE)
    m.note(df=df, which=which)
    m.seen(which, "w0" if (w == 0).any() else "")
    mx, my = (x * wn).sum(), (y * wn).sum()
    vx, vy, cxy = (wn * (x - mx) ** 2).sum(), (wn * (y - my) ** 2).sum(), (wn * (x - mx) * (y - my)).sum()
    sc = 1 + np.abs(x).max() ** 2 + np.abs(y).max() ** 2
    at = 1e-10
    if which in ("mean", "mean_n"):
        e, want = pds.weighted_mean("x", "w", is_normalized=which == "mean_n"), mx
        at *= np.sqrt(sc)
    elif which in ("var", "var_f"):
        e = pds.weighted_var("x", "w", freq_weights=which == "var_f")
        want = vx if which == "var" else np.repeat(x, w.astype(int)).var(ddof=1)
        at *= sc
    elif which == "cov":
        e, want, at = pds.weighted_cov("x", "y", pl.col("w")), cxy, at * sc
    elif which == "corr":
        if min(vx, vy) < 1e-6 * sc:
            raise Inconclusive("constant")
        e, want = pds.weighted_corr("x", "y", "w"), cxy / np.sqrt(vx * vy)
    elif which.startswith("hmean"):
        e, want = pds.weighted_hmean("p", "w", is_normalized=which == "hmean_n"), 1 / (wn / pos).sum()
    elif which.startswith("gmean"):
        e, want = pds.weighted_gmean("p", "w", is_normalized=which == "gmean_n"), np.exp((wn * np.log(pos)).sum())
    elif which in ("cos", "wcos"):
        u = w if which == "wcos" else np.ones(n)
        d = np.sqrt((u * x * x).sum() * (u * y * y).sum())
        if d < 1e-9:
            raise Inconclusive("zero vector")
        e = pds.cosine_sim("x", "y") if which == "cos" else pds.weighted_cosine_sim("x", "y", "w")
        want = (u * x * y).sum() / d
    else:
        pn = gen.with_nulls(r, pos, m.pick(0, 0.2))
        kept = np.array([v for v in pn if v is not None])
        if not len(kept):
            raise Inconclusive("all null")
        df = gen.frame(r, {"p": gen.series(r, "p", pn, pl.Float64, "one")}, layout=ONE)
        e = pds.hmean("p") if which == "h" else pds.gmean("p")
        want = st.hmean(kept) if which == "h" else st.gmean(kept)
    got = gen.ev_scalar(m, df, e, which)
    m.close([got], [want], which, 1e-8, max(at, 1e-10))


@case("P08", quick=50, thorough=500)
def winsorize(m):
    r = m.rng
    n = int(r.integers(3, m.pick(10, 100)))
    x = sample(m, n)
    xs = gen.with_nulls(r, x, m.pick(0, 0.15))
    kept = np.array([v for v in xs if v is not None])
    if not len(kept):
        raise Inconclusive("all null")
    lo, hi = m.pick((0.05, 0.95), (0.1, 0.9), (0.25, 0.6), (0.01, 0.5))
    meth = m.pick("lower", "higher", "midpoint", "linear", "nearest")
    df = gen.frame(r, {"x": gen.series(r, "x", xs, pl.Float64, "one")}, layout=ONE)
    m.note(df=df, lo=lo, hi=hi, meth=meth)
    m.seen(meth, lo)
    got = gen.ev(m, df, winsorize_("x", q_low=lo, q_high=hi, method=meth), "winsorize").to_list()
    for q in (lo, hi):
        if abs(q * (len(kept) - 1) - round(q * (len(kept) - 1))) < 1e-9 or (meth == "nearest" and abs((q * (len(kept) - 1)) % 1 - 0.5) < 1e-9):
            raise Inconclusive("quantile on a rank")
    a, b = (np.quantile(kept, q, method=meth) for q in (lo, hi))
    m.close(got, [None if v is None else min(max(v, a), b) for v in xs], f"winsorize:{meth}", 1e-9, 1e-9)
    for bad in ((0.0, 0.5), (0.5, 1.0), (0.6, 0.4), (-0.1, 0.4)):
        try:
            winsorize_("x", q_low=bad[0], q_high=bad[1])
        except ValueError:
            continue
        m.fail("winsorize:refusal", bad)


@case("P08", quick=1, thorough=12)
def long(m):
    """Numbers of pairs and of ranks that leave 16 and 32 bits."""
    r = m.rng
    n = int(m.pick(66_000, 100_000))
    x = r.permutation(n) * 0.5
    y = x * r.choice([0, 1e-5, -1e-4]) + r.normal(size=n)
    if m.chance(0.5):
        y = np.round(y * 2)
    df = gen.frame(r, {"x": x, "y": y})
    which = ("kendall", "xi", "weighted")[m.i % 3]
    m.note(n=n, which=which, x=x[:20], y=y[:20])
    m.seen("long", which)
    if which == "kendall":
        got, want = gen.ev_scalar(m, df, pds.kendall_tau("x", "y"), "kendall_tau", ctxs=("select", "lazy")), st.kendalltau(x, y).statistic
    elif which == "xi":
        yo = np.sort(y)
        o = y[np.argsort(x)]
        rk, lk = np.searchsorted(yo, o, "right").astype(float), n - np.searchsorted(yo, o, "left").astype(float)
        got, want = gen.ev_scalar(m, df, pds.xi_corr("x", "y"), "xi_corr", ctxs=("select", "lazy")), 1 - n * np.abs(np.diff(rk)).sum() / (2 * (lk * (n - lk)).sum())
    else:
        w = np.floor(x)
        want = (w * y).sum() / w.sum()
        got = gen.ev_scalar(m, df.with_columns(w=pl.Series(w)), pds.weighted_mean("y", "w"), "weighted_mean", ctxs=("select", "lazy"))
    m.close([got], [want], which + ":long", 1e-7, 1e-10)
