"""P09: random columns follow the stated distribution, inside its support, reproducibly under a seed."""
import string
import numpy as np, polars as pl, polars_ds as pds, scipy.stats as st
from ..core import case, Inconclusive
from .. import gen

PMIN = 1e-12          # unseeded draws: the chance of a false alarm is below this per judgement
ALNUM = set(string.ascii_letters + string.digits)


def draw(m, make, n, label):
    """make(seed, length) -> expr. Draws in a random context; returns the series and the seed."""
    seed = m.pick(None, int(m.rng.integers(0, 1 << 40)), 0)
    df = pds.frame(n)
    how = m.pick("with_columns", "lazy", "length", "select_two")
    m.seen(label, how, "seeded" if seed is not None else "unseeded")
    m.note(label=label, n=n, seed=seed, how=how)

    def go(s):
        if how == "with_columns":
            return df.with_columns(r=make(s, None))["r"]
        if how == "lazy":
            lf = df.lazy().with_columns(r=make(s, None))
            out = lf.collect()["r"]
            m.eq(lf.collect_schema()["r"], out.dtype, f"{label}:schema")
            return out
        if how == "length":
            return pl.select(r=make(s, n))["r"]
        two = df.lazy().select("row_num", r=make(s, None), q=make(None, None)).collect()
        if n >= 200 and two["r"].n_unique() > 20:
            m.ok(two["r"].to_list() != two["q"].to_list(), f"{label}:independent")
        return two["r"]
    a = m.call(label, lambda: go(seed))
    m.eq(len(a), n, f"{label}:length")
    m.eq(a.null_count(), 0, f"{label}:nulls")
    b = m.call(label, lambda: go(seed))
    if seed is not None:
        m.eq(a.to_list(), b.to_list(), f"{label}:seeded")
        c = m.call(label, lambda: go(seed + 1))
    else:
        c = b
    if n >= 200 and a.n_unique() > 20:
        m.ok(a.to_list() != c.to_list(), f"{label}:varies")
    return a


def kw(s, length):
    d = {"seed": s}
    if length is not None:
        d["length"] = length
    return d


def size(m):
    return int(m.rng.integers(1, 12)) if m.chance(0.3) else int(m.rng.integers(300, 3000))


def fits(m, v, cdf, label):
    if len(v) >= 100:
        p = st.kstest(np.asarray(v), cdf).pvalue
        m.ok(p > PMIN, f"{label}:distribution", lambda: f"KS p={p} n={len(v)} mean={np.mean(v)} sd={np.std(v)}")
        # successive draws are not related
        v = np.asarray(v)
        lag = st.spearmanr(v[1:], v[:-1]).pvalue
        m.ok(lag > PMIN, f"{label}:independence", lambda: f"lag-1 p={lag}")


@case("P09", quick=60, thorough=800)
def uniform(m):
    lo = float(m.pick(0.0, -3.5, 10.0))
    hi = lo + float(m.pick(1.0, 0.001, 50.0))
    if m.chance(0.2):
        lo, hi = int(m.rng.integers(-4, 3)), int(m.rng.integers(4, 9))
    n = size(m)
    if m.chance(0.2):
        df = pl.DataFrame({"a": [float(lo), (lo + hi) / 2, float(hi)]})
        e = lambda s, L: pds.random(df["a"].min() if L else pl.lit(float(lo)), pl.lit(float(hi)), **kw(s, L))
    else:
        e = lambda s, L: pds.random(lo, hi, **kw(s, L))
    v = draw(m, e, n, "random").to_numpy()
    m.ok(v.min() >= lo and v.max() < hi, "random:range", lambda: f"{v.min()} {v.max()} not in [{lo},{hi})")
    fits(m, v, st.uniform(lo, hi - lo).cdf, "random")


@case("P09", quick=60, thorough=800)
def integers(m):
    lo = int(m.pick(0, -5, 100, -(1 << 20)))
    w = int(m.pick(1, 2, 7, 40, 1 << 20))
    n = size(m)
    swap = m.chance(0.2)
    a, b = (lo + w, lo) if swap else (lo, lo + w)
    e = lambda s, L: pds.random_int(a, b, **kw(s, L)) if not swap or L else pds.random_int(pl.lit(a), pl.lit(b), **kw(s, L))
    s = draw(m, e, n, "random_int")
    m.eq(s.dtype, pl.Int32, "random_int:dtype")
    v = s.to_numpy()
    m.ok(v.min() >= lo and v.max() < lo + w, "random_int:range", lambda: f"{v.min()} {v.max()} not in [{lo},{lo + w})")
    if w <= 40 and n > 20 * w:
        p = st.chisquare(np.bincount(v - lo, minlength=w)).pvalue if w > 1 else 1
        m.ok(p > PMIN, "random_int:distribution", p)
    try:
        pds.random_int(3, 3)
    except ValueError:
        return
    m.fail("random_int:refusal")


@case("P09", quick=50, thorough=600)
def strings(m):
    lo = int(m.pick(0, 1, 5, 30))
    hi = lo + int(m.pick(0, 1, 4))
    n = size(m)
    a, b = (hi, lo) if m.chance(0.2) else (lo, hi)
    s = draw(m, lambda sd, L: pds.random_str(a, b, **kw(sd, L)), n, "random_str")
    m.eq(s.dtype, pl.String, "random_str:dtype")
    vals = s.to_list()
    ln = np.array([len(x) for x in vals])
    m.ok(ln.min() >= lo and ln.max() <= hi, "random_str:size", lambda: f"{ln.min()} {ln.max()} not in [{lo},{hi}]")
    ch = "".join(vals)
    m.ok(set(ch) <= ALNUM, "random_str:alphabet", lambda: set(ch) - ALNUM)
    if hi > lo and n >= 200:
        m.ok(st.chisquare(np.bincount(ln - lo, minlength=hi - lo + 1)).pvalue > PMIN, "random_str:sizes")
    if len(ch) > 2000:
        cnt = [ch.count(c) for c in sorted(ALNUM)]
        m.ok(st.chisquare(cnt).pvalue > PMIN, "random_str:distribution", cnt)


@case("P09", quick=50, thorough=600)
def discrete(m):
    k, p = int(m.pick(1, 3, 12, 200)), float(m.pick(0.05, 0.5, 0.9, 0.999))
    n = size(m)
    v = draw(m, lambda s, L: pds.random_binomial(k, p, **kw(s, L)), n, "random_binomial").to_numpy().astype(int)
    m.ok(v.min() >= 0 and v.max() <= k, "random_binomial:range", lambda: f"{v.min()} {v.max()}")
    if n >= 200:
        cdf = st.binom(k, p).cdf
        d = max(abs((v <= q).mean() - cdf(q)) for q in range(k + 1))
        # DKW inequality
        m.ok(2 * np.exp(-2 * n * d * d) > PMIN, "random_binomial:distribution", lambda: f"D={d} n={n}")
    try:
        pds.random_binomial(0, 0.5)
    except ValueError:
        return
    m.fail("random_binomial:refusal")


@case("P09", quick=80, thorough=800)
def continuous(m):
    n = size(m)
    if m.chance(0.4):
        lam = float(m.pick(1.0, 0.1, 7.0))
        v = draw(m, lambda s, L: pds.random_exp(lam, **kw(s, L)), n, "random_exp").to_numpy()
        m.ok(v.min() >= 0, "random_exp:range", v.min())
        fits(m, v, st.expon(scale=1 / lam).cdf, "random_exp")
    else:
        mu, sd = m.pick((0.0, 1.0), (0, 1), (5.0, 0.1), (-2.0, 30.0), (0.0, 2.0), (3.0, 1.0))
        e = m.pick(lambda s, L: pds.random_normal(mu, sd, **kw(s, L)),
                   lambda s, L: pds.random_normal(pl.lit(float(mu)), pl.lit(float(sd)), **kw(s, L)))
        v = draw(m, e, n, "random_normal").to_numpy()
        fits(m, v, st.norm(mu, sd).cdf, "random_normal")


@case("P09", quick=120, thorough=1500)
def noise(m):
    """perturb, jitter and random nulls: what they may change, and by how much."""
    r = m.rng
    n = size(m)
    f32 = m.chance(0.3)
    dt = pl.Float32 if f32 else pl.Float64
    x = gen.with_nulls(r, r.normal(size=n) * 3, m.pick(0, 0.2))
    df = gen.frame(r, {"x": gen.series(r, "x", x, dt), "o": pl.Series("o", range(n))})
    seed = m.pick(None, int(r.integers(0, 1 << 30)))
    which = m.pick("perturb", "jitter", "null", "noise_g", "noise_u")
    m.note(df=df, which=which, seed=seed)
    m.seen(which, "f32" if f32 else "f64", "nulls" if None in x else "")
    X = df["x"].cast(pl.Float64).to_numpy()
    if which == "null":
        pct = float(m.pick(0.05, 0.4, 0.9))
        e = lambda: pds.random_null("x", pct, seed=seed)
    elif which in ("perturb", "noise_u"):
        eps, pos = float(m.pick(1.0, 0.5, -0.25)), m.chance(0.5)
        e = (lambda: pds.perturb("x", eps, positive=pos, seed=seed)) if which == "perturb" else \
            (lambda: pds.add_noise("x", noise_type="uniform", epsilon=eps, positive=pos, seed=seed))
    else:
        sd = m.pick(1.0, 0.25, 3.0, 2, 0.0, pl.col("o").max() * 0.0 + 0.5)
        e = (lambda: pds.jitter("x", sd, seed=seed)) if which == "jitter" else \
            (lambda: pds.add_noise(pl.col("x"), noise_type="gaussian", std=sd, seed=seed))
    out = m.call(which, lambda: df.lazy().with_columns(r=e()).collect())
    s = out["r"]
    m.eq(s.dtype, dt, f"{which}:dtype")
    m.eq(out["o"].to_list(), df["o"].to_list(), f"{which}:rows")
    if seed is not None:
        m.eq(m.call(which, lambda: df.with_columns(r=e()))["r"].to_list(), s.to_list(), f"{which}:seeded")
    isn = df["x"].is_null().to_numpy()
    if which == "null":
        m.ok((~isn | s.is_null().to_numpy()).all(), "random_null:nulls-stay")
        keep = s.is_not_null().to_numpy()
        m.eq(s.filter(pl.Series(keep)).to_list(), df["x"].filter(pl.Series(keep)).to_list(), "random_null:values")
        k, t = int((s.is_null().to_numpy() & ~isn).sum()), int((~isn).sum())
        if t >= 100:
            m.ok(st.binomtest(k, t, pct).pvalue > PMIN, "random_null:rate", lambda: f"{k}/{t} for {pct}")
        return
    m.eq(s.is_null().to_list(), isn.tolist(), f"{which}:nulls")
    d = (s.cast(pl.Float64).to_numpy() - X)[~isn]
    if not len(d):
        raise Inconclusive("no value")
    tol = 1e-5 if f32 else 1e-12
    if which in ("perturb", "noise_u"):
        lo, hi = (0.0, abs(eps)) if pos else (-abs(eps) / 2, abs(eps) / 2)
        m.ok(d.min() >= lo - tol and d.max() <= hi + tol, f"{which}:range", lambda: f"{d.min()} {d.max()} not in [{lo},{hi})")
        fits(m, d, st.uniform(lo, hi - lo).cdf, which)
    else:
        s_ = 0.5 if isinstance(sd, pl.Expr) else float(sd)
        if s_ == 0:
            m.eq(s.to_list(), df["x"].to_list(), f"{which}:zero")
        else:
            fits(m, d, st.norm(0, s_).cdf, which)
