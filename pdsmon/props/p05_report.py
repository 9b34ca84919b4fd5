"""P05: the regression report is the textbook inference on the rows that were fitted."""
import numpy as np
import polars as pl
import polars_ds as pds
from scipy import stats as st
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame, ev
from pdsmon.props.p03_linreg import regression_data, col_frame, used_rows, design, ols, F32, POLICIES


def reference(A, y, w, bias, se):
    n, k = A.shape
    W = np.ones(n) if w is None else w
    inv = np.linalg.inv((A * W[:, None]).T @ A)
    b = ols(A, y, 0, w, bias)[0]
    r = y - A @ b
    dof = n - k
    if se == "se":
        s = np.sqrt((W * r * r).sum() / dof * np.diag(inv))
    else:
        P = inv @ A.T
        h = np.einsum("ij,ji->i", A, P)
        f = {"hc0": np.ones(n), "hc1": np.full(n, n / dof), "hc2": 1 / (1 - h), "hc3": 1 / (1 - h) ** 2}[se]
        if se in ("hc2", "hc3") and (1 - h).min() < 1e-6:
            raise Inconclusive("a row with full leverage")
        s = np.sqrt(np.diag(P @ np.diag(r * r * f) @ P.T))
    tss = ((y - y.mean()) ** 2).sum()
    r2 = 1 - (r * r).sum() / tss
    adj = 1 - (1 - r2) * (n - 1) / (n - (k - bias) - 1)
    t = b / s
    q = st.t.ppf(0.975, dof)
    return dict(beta=b, se=s, t=t, p=2 * st.t.sf(np.abs(t), dof), lo=b - q * s, hi=b + q * s, r2=r2, adj=adj,
                noise=(r * r).sum() / max((y * y).sum(), 1e-300))


def judge(m, df, e, label, names, ref, se, tol, ptol, layoutlen):
    out = ev(m, df, e, label)
    m.eq([f.name for f in out.dtype.fields],
         ["features", "beta", "std_err" if se == "se" else se + "_se", "t", "p>|t|", "0.025", "0.975", "r2", "adj_r2"],
         label + ":fields")
    F = lambda k: np.array(out.struct.field(k).to_list(), dtype=float if k != "features" else object)
    m.eq(list(F("features")), names, label + ":features")
    sc = np.abs(ref["beta"]).max() + ref["se"].max()
    m.close(F("beta"), ref["beta"], label + ":beta", rtol=tol, atol=tol * sc)
    m.close(F("std_err" if se == "se" else se + "_se"), ref["se"], label + ":std_err:" + se, rtol=tol * 20, atol=tol * 1e-3 * sc)
    m.close(F("t"), ref["t"], label + ":t", rtol=tol * 50, atol=tol * 50 * np.abs(ref["t"]).max())
    # what an error in t does to the p value
    m.close(F("p>|t|"), ref["p"], label + ":p", rtol=0, atol=ptol)
    m.close(F("0.025"), ref["lo"], label + ":ci_lower", rtol=tol * 20, atol=tol * 20 * sc)
    m.close(F("0.975"), ref["hi"], label + ":ci_upper", rtol=tol * 20, atol=tol * 20 * sc)
    m.close(F("r2"), [ref["r2"]] * len(names), label + ":r2", rtol=tol, atol=tol * 10)
    m.close(F("adj_r2"), [ref["adj"]] * len(names), label + ":adj_r2", rtol=tol, atol=tol * 50)


@case("P05", quick=150, thorough=2000)
def report(m):
    n, p, X, y = regression_data(m, nmin_extra=3)
    y = y + m.rng.normal(size=n) * (0.3 + 0.1 * np.abs(y).mean())
    nulls = m.pick(0, 0, 0.1)
    df = col_frame(m, X, y, nulls, m.pick(0, nulls))
    policy = m.pick("skip", "zero", "1.25") if df.null_count().sum_horizontal()[0] else m.pick(*POLICIES)
    bias = m.chance(0.5)
    se = m.pick("se", "hc0", "hc1", "hc2", "hc3")
    f32 = m.chance(0.15)
    xs = [f"x{j}" for j in range(p)]
    Xu, yu, _ = used_rows(df, xs, policy)
    if len(Xu) <= p + bias + 1:
        raise Inconclusive("no degree of freedom")
    A = design(Xu, bias)
    c = np.linalg.cond(A.T @ A)
    if c > (1e8 if not f32 else 200):
        raise Inconclusive("ill-conditioned")
    m.note(df=df, policy=policy, bias=bias, se=se, f32=f32)
    m.seen("report", policy, bias, se, f32)
    ref = reference(A, yu, None, bias, se)
    tol = (1e-11 * c + 1e-9) if not f32 else 2e-5 * c + 1e-3
    with F32(f32):
        e = pds.lin_reg_report(*xs, target="y", add_bias=bias, std_err=se, null_policy=policy)
    judge(m, df, e, "lin_reg_report", xs + ["__bias__"] * bias, ref, se, tol, 1e-7 if not f32 else max(0.02, tol * 5), n)


@case("P05", quick=60, thorough=800)
def weighted_report(m):
    n, p, X, y = regression_data(m, nmin_extra=3)
    y = y + m.rng.normal(size=n) * 0.5
    w = (m.rng.uniform(0.1, 3, n) if m.chance(0.6) else 10.0 ** m.rng.uniform(-1, 2, n)) * m.pick(1, 1, 1e-3, 1e4)
    bias = m.chance(0.5)
    df = col_frame(m, X, y, extra={"w": pl.Series("w", w)})
    xs = [f"x{j}" for j in range(p)]
    A = design(X, bias)
    c = np.linalg.cond((A * w[:, None]).T @ A)
    if c > 1e8 or n <= A.shape[1] + 1:
        raise Inconclusive("ill-conditioned")
    m.note(df=df, bias=bias)
    m.seen("wls", bias, p)
    ref = reference(A, y, w, bias, "se")
    e = pds.lin_reg_report(*xs, target="y", weights=m.pick("w", pl.col("w")), add_bias=bias, null_policy=m.pick("raise", "skip"))
    judge(m, df, e, "wls_report", xs + ["__bias__"] * bias, ref, "se", 1e-11 * c + 1e-9, 1e-7, n)


@case("P05", quick=30, thorough=300)
def refusal(m):
    n, p, X, y = regression_data(m)
    df = col_frame(m, X, y, 0.2, 0.1)
    if not df.null_count().sum_horizontal()[0]:
        raise Inconclusive("no null")
    m.note(df=df)
    m.seen("refusal", p)
    e = ev(m, df, pds.lin_reg_report(*[f"x{j}" for j in range(p)], target="y", null_policy="raise"), "lin_reg_report", expect_error=True, ctx="select")
    m.ok(isinstance(e, Exception), "lin_reg_report:nulls-not-refused", repr(e))
