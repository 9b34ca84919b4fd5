"""P07: hypothesis tests give the statistic and p-value of the documented test, on the documented rows."""
import numpy as np, polars as pl, polars_ds as pds, scipy.stats as st
from ..core import case, Inconclusive
from .. import gen

RT, AT = 1e-6, 1e-10
ALTS = ("two-sided", "less", "greater")


def sample(m, n, kind=None):
    r = m.rng
    kind = kind or m.pick("normal", "ties", "skew", "offset", "heavy")
    m.seen("kind", kind)
    if kind == "normal":
        return r.normal(size=n) * r.uniform(0.1, 5) + r.normal()
    if kind == "ties":
        return r.integers(0, int(r.integers(2, 8)), n).astype(float)
    if kind == "skew":
        return r.exponential(size=n) * r.uniform(0.5, 3)
    if kind == "heavy":
        return np.clip(r.standard_cauchy(size=n), -1e3, 1e3)
    return r.normal(size=n) + 100


def dirty(m, v, p):
    """null/NaN/inf at random places; returns (python list, kept values)"""
    v = [float(x) for x in v]
    out = []
    for x in v:
        u = m.rng.random()
        out.append(x if u >= p else m.pick(None, float("nan"), float("inf"), float("-inf")))
    return out, np.array([x for x in out if x is not None and np.isfinite(x)])


def judge(m, got, want_s, want_p, sig, rt=RT, at=AT):
    m.ok(isinstance(got, dict) and list(got) == ["statistic", "pvalue"], f"{sig}:shape", lambda: repr(got))
    m.close([got["statistic"]], [float(want_s)], f"{sig}:statistic", rt, 1e-9)
    m.close([got["pvalue"]], [float(want_p)], f"{sig}:pvalue", rt, at, detail=f"stat={want_s}")


def two(m, n1, n2, p):
    """two columns of one frame, with n1 and n2 usable values at most"""
    n = max(n1, n2)
    a, b = sample(m, n1), sample(m, n2)
    if m.chance(0.3):
        b = b - b.mean() + a.mean()
    da, ka = dirty(m, a, p)
    db, kb = dirty(m, b, p)
    da += [None] * (n - n1)
    db += [None] * (n - n2)
    df = gen.frame(m.rng, {"a": gen.series(m.rng, "a", da, pl.Float64), "b": gen.series(m.rng, "b", db, pl.Float64)})
    return df, ka, kb


@case("P07", quick=120, thorough=1500)
def ttest(m):
    r = m.rng
    alt = m.pick(*ALTS)
    which = m.pick("welch", "equal", "one", "stats", "stats_equal")
    n1 = int(r.integers(3, m.pick(8, 40, 300)))
    if which == "equal":
        df, a, b = two(m, n1, n1, 0.0)
        m.note(which=which, alt=alt, df=df)
        if a.var() + b.var() < 1e-12:
            raise Inconclusive("zero variance")
        got = gen.ev_scalar(m, df, pds.ttest_ind("a", "b", alternative=alt, equal_var=True), "ttest_ind")
        w = st.ttest_ind(a, b, equal_var=True, alternative=alt)
    elif which == "welch":
        df, a, b = two(m, n1, int(r.integers(3, 2 * n1 + 3)), m.pick(0, 0.2))
        m.note(which=which, alt=alt, df=df)
        if len(a) < 2 or len(b) < 2 or a.var() + b.var() < 1e-12:
            raise Inconclusive("too few")
        got = gen.ev_scalar(m, df, pds.ttest_ind(pl.col("a"), "b", alternative=alt, equal_var=False), "welch")
        w = st.ttest_ind(a, b, equal_var=False, alternative=alt)
    elif which == "one":
        df, a, _ = two(m, n1, 3, m.pick(0, 0.2))
        mu = float(m.pick(0.0, a.mean() if len(a) else 0.0, r.normal(), 100.0))
        m.note(which=which, alt=alt, df=df, mu=mu)
        if len(a) < 2 or a.var() < 1e-12:
            raise Inconclusive("too few")
        got = gen.ev_scalar(m, df, pds.ttest_1samp("a", mu, alternative=alt), "ttest_1samp")
        w = st.ttest_1samp(a, mu, alternative=alt)
    else:
        eqv = which == "stats_equal"
        df, a, _ = two(m, n1, 3, 0 if eqv else m.pick(0, 0.2))
        n2 = len(a) if eqv else int(r.integers(2, 60))
        mean, var = float(r.normal()), float(r.uniform(0.1, 4))
        m.note(which=which, alt=alt, df=df, mean=mean, var=var, n2=n2)
        if len(a) < 2 or a.var() < 1e-12:
            raise Inconclusive("too few")
        got = gen.ev_scalar(m, df, pds.ttest_ind_from_stats("a", mean=mean, var=var, cnt=n2, alternative=alt, equal_var=eqv), which)
        w = st.ttest_ind_from_stats(a.mean(), a.std(ddof=1), len(a), mean, var ** 0.5, n2, equal_var=eqv, alternative=alt)
    m.seen(which, alt, "n<10" if n1 < 10 else "n>=10")
    judge(m, got, w.statistic, w.pvalue, which)


@case("P07", quick=100, thorough=1200)
def mann_whitney(m):
    r = m.rng
    n1, n2 = int(r.integers(1, m.pick(6, 30, 200))), int(r.integers(1, m.pick(6, 30, 200)))
    df, a, b = two(m, n1, n2, m.pick(0, 0.2))
    if m.chance(0.1):
        c = float(r.integers(0, 3))
        df = df.with_columns(pl.when(pl.col("a").is_not_null()).then(c).alias("a"), pl.when(pl.col("b").is_not_null()).then(c).alias("b"))
        a, b = np.full(df["a"].count(), c), np.full(df["b"].count(), c)
    alt = m.pick(*ALTS)
    m.note(alt=alt, df=df)
    if not len(a) or not len(b):
        raise Inconclusive("empty sample")
    allv = np.concatenate([a, b])
    ties = "none" if len(set(allv)) == len(allv) else "all" if len(set(allv)) == 1 else "top" if (allv == allv.max()).sum() > 1 else "some"
    m.seen("ties", ties, alt)
    got = gen.ev_scalar(m, df, pds.mann_whitney_u("a", "b", alternative=alt), "mann_whitney_u")
    with np.errstate(all="ignore"):
        w = st.mannwhitneyu(a, b, alternative=alt, method="asymptotic", use_continuity=True)
    judge(m, got, w.statistic, 1.0 if ties == "all" and alt == "two-sided" else w.pvalue, f"mann_whitney_u:{ties}")


@case("P07", quick=80, thorough=800)
def ks(m):
    r = m.rng
    n1, n2 = int(r.integers(20, m.pick(45, 120))), int(r.integers(20, m.pick(45, 120)))
    alpha = m.pick(0.01, 0.05, 0.1, 0.5)
    binary = m.chance(0.4)
    p = m.pick(0, 0.15)
    if binary:
        n = n1 + n2
        g = [int(x) for x in r.permutation([0] * n1 + [1] * n2)]
        gl = gen.with_nulls(r, g, m.pick(0, 0.1))
        v, _ = dirty(m, sample(m, n), p)
        if m.chance(0.2):
            gl = [None if x is None else m.pick(0, 1, 2, x) for x in gl]
        z = lambda k: np.array([x for x, y in zip(v, gl) if y == k and x is not None and np.isfinite(x)])
        a, b = z(1), z(0)
        df = gen.frame(r, {"a": pl.Series("a", gl, dtype=m.pick(pl.Int64, pl.UInt8, pl.Float64), strict=False),
                           "b": gen.series(r, "b", v, pl.Float64)})
    else:
        df, a, b = two(m, n1, n2, p)
    m.note(df=df, alpha=alpha, binary=binary)
    if 30 in (len(a), len(b)):
        raise Inconclusive("boundary of the documented minimum size")
    got = gen.ev_scalar(m, df, pds.ks_2samp("a", "b", alpha=alpha, is_binary=binary), "ks_2samp")
    if min(len(a), len(b)) < 30:
        m.seen("small", binary)
        judge(m, got, 0.0, float("nan"), "ks:small")
        return
    m.seen("large", binary)
    s = st.ks_2samp(a, b).statistic
    thr = np.sqrt(-0.5 * np.log(alpha / 2) * (len(a) + len(b)) / (len(a) * len(b)))
    judge(m, got, s, thr, "ks", 1e-9)


@case("P07", quick=80, thorough=800)
def anova(m):
    r = m.rng
    k = int(r.integers(2, 6))
    n = int(r.integers(k + 3, m.pick(20, 200)))
    g = np.concatenate([np.arange(k), r.integers(0, k, n - k)])
    r.shuffle(g)
    nv = m.pick(1, 1, 2, 3)
    lab = m.pick("int", "str", "bool", "gap")
    names = {"int": list(range(k)), "gap": [int(x) for x in r.choice(1000, k, replace=False)]}.get(lab, ["g" + str(i) for i in range(k)])
    cols = {f"x{i}": sample(m, n) + r.normal() * (g == 0) for i in range(nv)}
    gs = pl.Series("g", [names[i] for i in g])
    if lab == "bool" and k == 2:
        gs = gs == "g1"
    df = gen.frame(r, {"g": gs, **{c: pl.Series(c, v) for c, v in cols.items()}})
    m.note(df=df, nv=nv)
    m.seen(lab, k, nv)
    expr = pds.f_test(*cols, group="g")
    if nv == 1:
        rows = [gen.ev_scalar(m, df, expr, "f_test")]
    else:
        rows = gen.ev(m, df, expr, "f_test", ctx="select").to_list()
        m.ok(len(rows) == nv, "f_test:rows", len(rows))
    for row, v in zip(rows, cols.values()):
        within = sum(((v[g == i] - v[g == i].mean()) ** 2).sum() for i in range(k))
        if within < 1e-9 * max(1.0, (v ** 2).sum()):
            continue
        w = st.f_oneway(*[v[g == i] for i in range(k)])
        judge(m, row, w.statistic, w.pvalue, "f_test", 1e-5, 1e-9)


@case("P07", quick=80, thorough=800)
def chi_squared(m):
    r = m.rng
    k1, k2 = int(r.integers(2, 5)), int(r.integers(2, 6))
    n = int(r.integers(k1 + k2 + 2, m.pick(30, 300)))
    a = np.concatenate([np.arange(k1), r.integers(0, k1, n - k1)])
    b = np.concatenate([np.arange(k2), r.integers(0, k2, n - k2)])
    r.shuffle(b)
    if m.chance(0.3):
        b = np.where(r.random(n) < 0.7, a % k2, b)
        k2 = len(set(b.tolist()))
        b = np.unique(b, return_inverse=True)[1]
    if k2 < 2:
        raise Inconclusive("one category")
    kinds = [m.pick("int", "str", "bool", "float") for _ in range(2)]

    def col(v, kind, nm):
        if kind == "bool" and v.max() < 2:
            return pl.Series(nm, v == 1)
        if kind in ("int", "bool"):
            return pl.Series(nm, v * 7 - 3)
        if kind == "float":
            return pl.Series(nm, v / 4)
        return pl.Series(nm, ["k" + str(x) for x in v])
    df = gen.frame(r, {"a": col(a, kinds[0], "a"), "b": col(b, kinds[1], "b")})
    m.note(df=df)
    m.seen(*kinds, k1, k2)
    tab = np.array([[((a == i) & (b == j)).sum() for j in range(k2)] for i in range(k1)])
    w = st.chi2_contingency(tab, correction=False)
    judge(m, gen.ev_scalar(m, df, pds.chi2("a", "b"), "chi2"), w.statistic, w.pvalue, "chi2")
    full = m.call("chi2_full", lambda: df.select(r=pds.chi2("a", "b", return_full=True))["r"].struct.unnest())
    m.eq(full.columns, ["statistic", "pvalue", "dof", "a", "b", "E[freq]"], "chi2_full:fields")
    m.eq(full.height, k1 * k2, "chi2_full:rows")
    key = lambda v: str(v)
    val1 = {key(v): i for v, i in zip(df["a"].to_list(), a)}
    val2 = {key(v): i for v, i in zip(df["b"].to_list(), b)}
    seen = set()
    for row in full.to_dicts():
        m.close([row["statistic"], row["pvalue"]], [w.statistic, w.pvalue], "chi2_full:stat", RT, AT)
        m.eq(row["dof"], w.dof, "chi2_full:dof")
        i, j = val1[key(row["a"])], val2[key(row["b"])]
        seen.add((i, j))
        m.close([row["E[freq]"]], [w.expected_freq[i][j]], "chi2_full:expected", 1e-9, 1e-9)
    m.eq(len(seen), k1 * k2, "chi2_full:cells")


@case("P07", quick=60, thorough=600)
def normality(m):
    r = m.rng
    n = int(r.integers(15, m.pick(30, 100, 1000)))
    v, a = dirty(m, sample(m, n), m.pick(0, 0.2))
    df = gen.frame(r, {"a": gen.series(r, "a", v, pl.Float64)})
    m.note(df=df)
    e = pds.normal_test("a")
    if len(a) < 20:
        got = gen.ev_scalar(m, df, e, "normal_test", expect_error=True, ctxs=("select", "lazy", "with_columns"))
        m.seen("refused")
        m.ok(isinstance(got, pl.exceptions.ComputeError), "normal_test:small", lambda: repr(got))
        return
    if a.var() < 1e-12:
        raise Inconclusive("constant")
    m.seen("ok", "n>100" if len(a) > 100 else "n<=100")
    normal_judge(m, df, e, a)


def normal_judge(m, df, e, a):
    n = len(a)
    if abs(st.skew(a)) < 1e-13:
        # scipy's skewtest replaces a skew of exactly 0 by 1; the formula gives z = 0
        zs = 0.0
        m.seen("symmetric")
    else:
        zs = st.skewtest(a).statistic
    k2 = zs ** 2 + st.kurtosistest(a).statistic ** 2
    got = gen.ev_scalar(m, df, e, "normal_test")
    wrong, denom = kurtosis_without_sign(a)
    if denom < 0 and got is not None:
        m.seen("negative denominator")
        w = zs ** 2 + wrong ** 2
        if abs(list(got.values())[0] - w) < 1e-6 * (1 + w):
            # exactly the recorded finding; anything else is judged as usual
            m.fail("normal_test:kurtosis-sign", f"got {got} want {k2}")
    judge(m, got, k2, np.exp(-k2 / 2), "normal_test", 1e-6, 1e-10)


def kurtosis_without_sign(a):
    n, b2 = len(a), st.kurtosis(a, fisher=False)
    E = 3.0 * (n - 1) / (n + 1)
    V = 24.0 * n * (n - 2) * (n - 3) / ((n + 1) ** 2 * (n + 3) * (n + 5))
    x = (b2 - E) / V ** 0.5
    rb = 6.0 * (n * n - 5 * n + 2) / ((n + 7) * (n + 9)) * (6.0 * (n + 3) * (n + 5) / (n * (n - 2) * (n - 3))) ** 0.5
    A = 6.0 + 8.0 / rb * (2.0 / rb + (1 + 4.0 / rb ** 2) ** 0.5)
    denom = 1 + x * (2 / (A - 4.0)) ** 0.5
    return (1 - 2 / (9.0 * A) - ((1 - 2.0 / A) / abs(denom)) ** (1 / 3)) / (2 / (9.0 * A)) ** 0.5, denom


@case("P07", quick=3, thorough=3)
def normality_two_point(m):
    """The input of the recorded finding."""
    a = np.array([-1.0, 1.0] * (15 + m.i))
    df = gen.frame(m.rng, {"a": a}, layout="one")
    m.note(a=a)
    normal_judge(m, df, pds.normal_test("a"), a)


@case("P07", quick=24, thorough=100)
def refusals(m):
    """Statistics that do not exist are refused or NaN, never a number."""
    r = m.rng
    n = int(r.integers(3, 12))
    c = float(r.integers(-3, 4))
    df = gen.frame(r, {"a": pl.Series([c] * n), "b": pl.Series([c] * n), "g": pl.Series([1] * n), "x": pl.Series(r.normal(size=n))})
    m.note(df=df)
    which = m.pick("equal", "welch", "one", "f1")
    m.seen(which)
    e = {"equal": lambda: pds.ttest_ind("a", "b", equal_var=True), "welch": lambda: pds.ttest_ind("a", "b"),
         "one": lambda: pds.ttest_1samp("a", c), "f1": lambda: pds.f_test("x", group="g")}[which]()
    got = gen.ev_scalar(m, df, e, which, expect_error=True, ctxs=("select", "lazy"))
    if isinstance(got, Exception):
        m.ok(isinstance(got, pl.exceptions.ComputeError) and "panic" not in str(got), f"{which}:refusal", lambda: repr(got))
    else:
        m.ok(np.isnan(got["statistic"]) and np.isnan(got["pvalue"]), f"{which}:refusal", lambda: repr(got))


@case("P07", quick=1, thorough=16)
def long(m):
    """Samples whose counts, and products of counts, leave 16 and 32 bits."""
    r = m.rng
    n = int(m.pick(70_000, 100_000, 140_000))
    a, b = r.normal(size=n), r.normal(size=n) * 1.1 + 0.01
    if m.chance(0.5):
        a, b = np.round(a * 2), np.round(b * 2)
        m.seen("long-ties")
    g, h = (r.random(n) < 0.97).astype(int), (r.random(n) < 0.9).astype(int)
    df = gen.frame(r, {"a": a, "b": b, "g": g, "h": h})
    which = ("mwu", "chi2", "ks", "ttest", "f")[m.i % 5]
    m.seen("long", which)
    m.note(n=n, which=which, a=a[:20], b=b[:20])
    if which == "mwu":
        got = gen.ev_scalar(m, df, pds.mann_whitney_u("a", "b"), "mann_whitney_u", ctxs=("select", "lazy"))
        w = st.mannwhitneyu(a, b, method="asymptotic", use_continuity=True)
        judge(m, got, w.statistic, w.pvalue, "mann_whitney_u:long")
    elif which == "chi2":
        got = gen.ev_scalar(m, df, pds.chi2("g", "h"), "chi2", ctxs=("select", "lazy"))
        t = np.array([[((g == i) & (h == j)).sum() for j in (0, 1)] for i in (0, 1)])
        w = st.chi2_contingency(t, correction=False)
        judge(m, got, w.statistic, w.pvalue, "chi2:long")
    elif which == "ks":
        got = gen.ev_scalar(m, df, pds.ks_2samp("a", "b", alpha=0.05), "ks_2samp", ctxs=("select", "lazy"))
        judge(m, got, st.ks_2samp(a, b, method="asymp").statistic, np.sqrt(-0.5 * np.log(0.025) * 2 / n), "ks:long", 1e-9)
    elif which == "ttest":
        got = gen.ev_scalar(m, df, pds.ttest_ind("a", "b", equal_var=False), "ttest_ind", ctxs=("select", "lazy"))
        w = st.ttest_ind(a, b, equal_var=False)
        judge(m, got, w.statistic, w.pvalue, "ttest_ind:long")
    else:
        got = gen.ev_scalar(m, df, pds.f_test("a", group="g"), "f_test", ctxs=("select", "lazy"))
        w = st.f_oneway(a[g == 0], a[g == 1])
        judge(m, got, w.statistic, w.pvalue, "f_test:long")
