"""P04: lasso and elastic net solutions satisfy the optimality (KKT) conditions of their objective."""
import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.linear_models import ElasticNet
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame, ev
from pdsmon.props.p03_linreg import regression_data, col_frame, used_rows, F32, POLICIES


def sweeps_needed(X, y, l1, l2, bias, tol, cap):
    """How many sweeps plain coordinate descent needs here (None: more than cap)."""
    m_, p = X.shape
    b, c = np.zeros(p), 0.0
    G, q, mu = X.T @ X, X.T @ y, X.mean(0)
    ym = y.mean()
    N = np.diag(G) + m_ * l2
    if np.any(N <= 0):
        return None
    for it in range(cap):
        ch = 0.0
        for j in range(p):
            z = q[j] - G[j] @ b + G[j, j] * b[j] - m_ * mu[j] * c
            nb = np.sign(z) * max(abs(z) - m_ * l1, 0) / N[j]
            ch = max(ch, abs(nb - b[j]))
            b[j] = nb
        if bias:
            c = ym - mu @ b
        if ch < tol:
            return it + 1
    return None


def kkt(m, sig, X, y, b, c, l1, l2, bias, tol, eps):
    n, p = X.shape
    G, mu = X.T @ X, X.mean(0)
    r = y - X @ b - c
    slack = 3 * tol * (np.abs(G).sum(1) + n * np.abs(mu) * np.abs(mu).sum() * bias + n * l2)
    slack = slack + 3e3 * eps * (np.abs(X).T @ np.abs(y) + np.abs(G) @ np.abs(b) + n * np.abs(mu) * abs(c))
    if bias:
        bs = 3e3 * eps * (np.abs(y).mean() + np.abs(mu) @ np.abs(b) + abs(c)) + 1e-12
        m.ok(abs(r.mean()) <= bs, sig + ":bias-not-optimal", lambda: f"mean residual {r.mean()} bias={c}")
    g = X.T @ r - n * l2 * b
    for j in range(p):
        if b[j] == 0:
            m.ok(abs(g[j]) <= n * l1 + slack[j], sig + ":zero-coefficient-not-optimal",
                 lambda: f"coefficient {j}: |gradient| {abs(g[j])} > {n * l1} (+{slack[j]}) l1={l1} l2={l2} bias={bias}")
        else:
            m.ok(abs(g[j] - n * l1 * np.sign(b[j])) <= slack[j], sig + ":coefficient-not-optimal",
                 lambda: f"coefficient {j}={b[j]}: gradient {g[j]} want {n * l1 * np.sign(b[j])} (+-{slack[j]}) l1={l1} l2={l2} bias={bias}")
    m.seen("active", int((b != 0).sum()), p)


def regs(m, X, y, need_l1):
    n = len(X)
    top = np.abs(X.T @ (y - y.mean())).max() / n + 1e-6
    l1 = float(top * m.pick(0.001, 0.05, 0.3, 0.9, 1.5))
    if not need_l1 and m.chance(0.25):
        l1 = 0.0
    l2 = float(m.pick(0.0, 0.05, 0.7)) if l1 > 0 else 0.3
    return l1, l2


@case("P04", quick=110, thorough=1200)
def expression(m):
    n, p, X, y = regression_data(m)
    nulls = m.pick(0, 0, 0.15)
    df = col_frame(m, X, y, nulls, m.pick(0, nulls))
    policy = m.pick("skip", "zero", "one", "1.25") if df.null_count().sum_horizontal()[0] else m.pick(*POLICIES)
    bias = m.chance(0.5)
    xs = [f"x{j}" for j in range(p)]
    Xu, yu, idx = used_rows(df, xs, policy)
    if len(Xu) < max(p, 2):
        raise Inconclusive("too few rows")
    l1, l2 = regs(m, Xu, yu, True)
    f32 = m.chance(0.15)
    tol = float(m.pick(1e-5, 1e-8, 1e-10)) if not f32 else 1e-4
    m.note(df=df, policy=policy, bias=bias, l1=l1, l2=l2, tol=tol, f32=f32)
    k = sweeps_needed(Xu, yu, l1, l2, bias, tol / 2, 900)
    if k is None:
        raise Inconclusive("coordinate descent is slow here")
    m.seen("net", policy, bias, l2 > 0, f32, min(k // 20, 5))
    with F32(f32):
        co = pds.lin_reg(*xs, target="y", add_bias=bias, l1_reg=l1, l2_reg=l2, tol=tol, null_policy=policy)
        pr = pds.lin_reg(*xs, target="y", add_bias=bias, l1_reg=l1, l2_reg=l2, tol=tol, null_policy=policy, return_pred=True)
    b = np.array(ev(m, df, co, "lin_reg_l1")[0].to_list(), float)
    m.ok(len(b) == p + bias, "lin_reg_l1:length", len(b))
    c = b[p] if bias else 0.0
    eps = 1.2e-7 if f32 else 2.2e-16
    kkt(m, "lin_reg_l1", Xu, yu, b[:p], c, l1, l2, bias, tol, eps)
    out = ev(m, df, pr, "lin_reg_l1_pred")
    m.ok(len(out) == n, "lin_reg_l1_pred:length", len(out))
    want = np.full(n, np.nan)
    want[idx] = Xu @ b[:p] + c
    sc = 1e3 * eps * (np.abs(Xu) @ np.abs(b[:p]) + abs(c) + np.abs(yu)).max() + 1e-12
    m.close(out.struct.field("pred"), want, "lin_reg_l1:pred", rtol=1e3 * eps, atol=sc)
    res = np.full(n, np.nan)
    res[idx] = yu - (Xu @ b[:p] + c)
    m.close(out.struct.field("resid"), res, "lin_reg_l1:resid", rtol=1e3 * eps, atol=sc)


@case("P04", quick=90, thorough=1000)
def estimator(m):
    n, p, X, y = regression_data(m)
    if m.chance(0.2):
        n = max(2, p - 1)                    # fewer rows than features is allowed here
        X, y = X[:n], y[:n]
    bias = m.chance(0.5)
    df = col_frame(m, X, y, m.pick(0, 0, 0.1), m.pick(0, 0, 0.1)).cast({f"x{j}": pl.Float64 for j in range(p)})
    policy = m.pick("skip", "zero", "2.5")
    xs = [f"x{j}" for j in range(p)]
    Xu, yu, _ = used_rows(df, xs, policy)
    if len(Xu) < 2:
        raise Inconclusive("too few rows")
    l1, l2 = regs(m, Xu, yu, False)
    tol = float(m.pick(1e-5, 1e-9))
    m.note(df=df, bias=bias, l1=l1, l2=l2, tol=tol, policy=policy)
    k = sweeps_needed(Xu, yu, l1, l2, bias, tol / 2, 1500)
    if k is None:
        raise Inconclusive("coordinate descent is slow here")
    en = m.call("ElasticNet", lambda: ElasticNet(l1, l2, has_bias=bias, tol=tol, max_iter=4000))
    m.ok(en.is_fit() is False, "ElasticNet.is_fit:unfitted")
    repr(en)
    via = m.pick("df", "numpy")
    m.seen("ElasticNet", via, policy, bias, l1 > 0, l2 > 0, n < p)
    if via == "df":
        m.call("ElasticNet.fit_df", lambda: en.fit_df(df, xs, "y", null_policy=policy))
    else:
        Xn = np.ascontiguousarray(df.select(xs).to_numpy())
        m.call("ElasticNet.fit", lambda: en.fit(Xn, df["y"].cast(pl.Float64).to_numpy().copy(), null_policy=policy))
    m.ok(en.is_fit() is True, "ElasticNet.is_fit:fitted")
    b, c = np.array(en.coeffs()), en.bias()
    m.ok(len(b) == p and en.has_bias() == bias and (bias or c == 0), "ElasticNet:shape", f"{b} {c}")
    kkt(m, "ElasticNet", Xu, yu, b, c, l1, l2, bias, tol, 2.2e-16)
    Q = m.rng.normal(size=(6, p))
    m.close(m.call("ElasticNet.predict", lambda: en.predict(Q)), Q @ b + c, "ElasticNet.predict", rtol=1e-9, atol=1e-9)
    if via == "df":
        out = m.call("ElasticNet.predict_df", lambda: en.predict_df(pl.DataFrame(Q, schema=xs), name="pp"))
        m.close(out["pp"], Q @ b + c, "ElasticNet.predict_df", rtol=1e-9, atol=1e-9)
    e2 = m.call("ElasticNet.from_values", lambda: ElasticNet.from_values(b, c))
    m.close(e2.predict(Q), Q @ b + c, "ElasticNet.from_values:predict", rtol=1e-9, atol=1e-9)
    m.close([e2.bias()], [c], "ElasticNet.from_values:bias", rtol=1e-12)


@case("P04", quick=20, thorough=200)
def limits(m):
    """The two ends of the path: no coefficient survives a huge l1; a vanishing l1 gives least squares."""
    n, p, X, y = regression_data(m)
    df = col_frame(m, X, y)
    xs = [f"x{j}" for j in range(p)]
    big = float(np.abs(X.T @ y).max() / n * 1.5 + np.abs(X.T @ (y - y.mean())).max() / n * 1.5 + 1)
    m.note(df=df, big=big)
    m.seen("limit", p)
    b = np.array(ev(m, df, pds.lin_reg(*xs, target="y", l1_reg=big), "lin_reg_l1")[0].to_list())
    m.close(b, np.zeros(p), "lin_reg_l1:huge-penalty", atol=0)
    if np.linalg.cond(X) < 5 and sweeps_needed(X, y, 1e-12, 0, False, 1e-13, 1500):
        b = np.array(ev(m, df, pds.lin_reg(*xs, target="y", l1_reg=1e-12, tol=1e-12), "lin_reg_l1")[0].to_list())
        w = np.linalg.lstsq(X, y, rcond=None)[0]
        m.close(b, w, "lin_reg_l1:vanishing-penalty", rtol=1e-6, atol=1e-7 * (1 + np.abs(w).max()))
