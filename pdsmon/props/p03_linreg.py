"""P03: least squares coefficients, predictions and residuals are those of the normal equations."""
import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.linear_models import LR
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame, ev, with_nulls, series

POLICIES = ["raise", "skip", "zero", "one", "1.25", "-3"]


class F32:
    """The single precision configuration for the duration of a block."""
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        pds.config.LIN_REG_EXPR_F64 = not self.on

    def __exit__(self, *a):
        pds.config.LIN_REG_EXPR_F64 = True


def design(X, bias):
    return np.column_stack([X, np.ones(len(X))]) if bias else X


def normal_tol(A, lam, w, bias, eps=2.2e-16):
    """Conditioning of the normal matrix, and the relative error it allows."""
    D = np.full(A.shape[1], float(lam))
    if bias:
        D[-1] = 0
    W = np.ones(len(A)) if w is None else w
    M = (A * W[:, None]).T @ A + np.diag(D)
    c = np.linalg.cond(M)
    if not np.isfinite(c) or c * eps > 1e-6 * (1 if eps < 1e-10 else 2000):
        raise Inconclusive("ill-conditioned design")
    return M, 200 * c * eps + (1e-10 if eps < 1e-10 else 1e-4)


def ols(A, y, lam=0.0, w=None, bias=False, eps=2.2e-16):
    """Augmented least squares, computed by numpy, with the tolerance that a solver may use up."""
    M, tol = normal_tol(A, lam, w, bias, eps)
    W = np.ones(len(A)) if w is None else w
    D = np.full(A.shape[1], np.sqrt(lam))
    if bias:
        D[-1] = 0
    AA = np.vstack([A * np.sqrt(W)[:, None], np.diag(D)])
    yy = np.concatenate([y * np.sqrt(W), np.zeros(A.shape[1])])
    b = np.linalg.lstsq(AA, yy, rcond=None)[0]
    # absolute scale: what the data could produce
    scale = np.abs(b).max() + np.linalg.norm(yy) / max(np.sqrt(np.linalg.eigvalsh(M).max()), 1e-300)
    return b, tol * scale


def regression_data(m, nmin_extra=0, pmax=6):
    r = m.rng
    p = int(r.integers(1, pmax + 1))
    n = int(m.pick(p + 1 + nmin_extra, p + 2 + nmin_extra, p + 10, 40, 120))
    if m.chance(0.04):
        n = int(r.integers(1500, 6000))
    X = r.normal(size=(n, p))
    kind = m.pick("plain", "scaled", "shifted", "ints", "correlated")
    if kind == "scaled":
        X = X * 10.0 ** r.integers(-2, 3, p)
    elif kind == "shifted":
        X = X + r.normal(size=p) * 5
    elif kind == "ints":
        X = r.integers(-5, 6, (n, p)).astype(float)
    elif kind == "correlated":
        X = X + X[:, :1] * 2
    y = X @ (r.normal(size=p) * m.pick(0.1, 1, 5)) + r.normal() * 2 + r.normal(size=n) * m.pick(0.0, 0.1, 1, 10)
    m.seen("data", kind, n <= p + 2)
    return n, p, X, y


def col_frame(m, X, y, null_p=0.0, ynull_p=0.0, extra=None):
    r = m.rng
    cols = {}
    for j in range(X.shape[1]):
        v = X[:, j]
        cols[f"x{j}"] = series(r, f"x{j}", with_nulls(r, v, null_p) if null_p else v.tolist(), dtype=pl.Float64, layout="one")
        if null_p == 0 and np.all(v == v.round()) and m.chance(0.5):
            cols[f"x{j}"] = cols[f"x{j}"].cast(pl.Int32)
    cols["y"] = series(r, "y", with_nulls(r, y, ynull_p) if ynull_p else y.tolist(), dtype=pl.Float64, layout="one")
    for k, v in (extra or {}).items():
        cols[k] = v
    return frame(r, cols)


def used_rows(df, xs, policy):
    """(X, y, index of the rows used) after the null policy; None if the policy refuses."""
    Xm = df.select(xs).cast(pl.Float64).to_numpy().astype(float).copy()
    yv = df["y"].to_numpy().astype(float)
    xn = np.column_stack([df[c].is_null().to_numpy() for c in xs])
    yn = df["y"].is_null().to_numpy()
    if policy == "raise":
        if xn.any() or yn.any():
            return None
        keep = np.ones(df.height, bool)
    elif policy == "skip":
        keep = ~(xn.any(1) | yn)
    else:
        v = {"zero": 0.0, "one": 1.0}.get(policy)
        Xm[xn] = float(policy) if v is None else v
        keep = ~yn
    return Xm[keep], yv[keep], np.nonzero(keep)[0]


@case("P03", quick=110, thorough=1500)
def lin_reg(m):
    n, p, X, y = regression_data(m)
    nulls = m.pick(0, 0, 0.1, 0.25)
    df = col_frame(m, X, y, nulls, m.pick(0, nulls))
    policy = m.pick(*POLICIES)
    bias, lam = m.chance(0.5), float(m.pick(0.0, 0.0, 0.1, 3.0))
    f32 = m.chance(0.2)
    eps = 1.2e-7 if f32 else 2.2e-16
    solver = m.pick("qr", "svd", "choleskey")
    xs = [f"x{j}" for j in range(p)]
    args = [m.pick(c, pl.col(c), pl.col(c)) for c in xs]
    m.note(df=df, policy=policy, bias=bias, lam=lam, solver=solver, f32=f32)
    m.seen("lin_reg", policy, bias, lam > 0, solver, f32, df.null_count().sum_horizontal()[0] > 0)
    u = used_rows(df, xs, policy)
    with F32(f32):
        co = pds.lin_reg(*args, target="y", add_bias=bias, l2_reg=lam, solver=solver, null_policy=policy)
        pr = pds.lin_reg(*args, target="y", add_bias=bias, l2_reg=lam, solver=solver, null_policy=policy, return_pred=True)
    if u is None or len(u[0]) < p:
        e = ev(m, df, co, "lin_reg", expect_error=True, ctx="select")
        m.ok(isinstance(e, Exception), "lin_reg:no-refusal", f"{policy} got {e}")
        return
    if len(u[0]) < p + bias and lam == 0:
        raise Inconclusive("underdetermined")
    A = design(u[0], bias)
    want, tol = ols(A, u[1], lam, None, bias, eps)
    got = ev(m, df, co, "lin_reg")
    m.ok(len(got) == 1, "lin_reg:one-row", len(got))
    b = np.array(got[0].to_list())
    m.close(b, want, "lin_reg:coefficients", rtol=tol, atol=tol, detail=f"{policy} bias={bias} l2={lam} {solver}")
    out = ev(m, df, pr, "lin_reg_pred")
    m.eq([f.name for f in out.dtype.fields], ["pred", "resid"], "lin_reg_pred:fields")
    pred, resid = out.struct.field("pred").to_numpy(), out.struct.field("resid").to_numpy()
    m.ok(len(pred) == df.height, "lin_reg_pred:length", len(pred))
    ptol = tol * (np.abs(A).sum(1).max() + 1) * 4
    wp = np.full(df.height, np.nan)
    wp[u[2]] = A @ want
    wr = np.full(df.height, np.nan)
    wr[u[2]] = u[1] - A @ want
    m.close(np.where(np.isnan(pred), np.nan, pred), wp, "lin_reg_pred:pred", rtol=tol, atol=ptol, detail=policy)
    m.close(resid, wr, "lin_reg_pred:resid", rtol=tol, atol=ptol, detail=policy)


@case("P03", quick=50, thorough=700)
def weighted(m):
    n, p, X, y = regression_data(m)
    bias = m.chance(0.5)
    f32 = m.chance(0.15)
    eps = 1.2e-7 if f32 else 2.2e-16
    w = m.rng.uniform(0.05, 3, n) if m.chance(0.7) else m.rng.integers(1, 5, n)
    if m.chance(0.2):
        w = w * (m.rng.random(n) > 0.3)
    w = w * m.pick(1, 1, 1000)
    df = col_frame(m, X, y, extra={"w": pl.Series("w", w)})
    solver = m.pick("qr", "svd", "choleskey")
    m.note(df=df, bias=bias, solver=solver, f32=f32)
    m.seen("weighted", bias, solver, f32)
    A = design(X, bias)
    want, tol = ols(A, y, 0.0, w.astype(float), bias, eps)
    xs = [f"x{j}" for j in range(p)]
    policy = m.pick("raise", "skip", "zero")
    with F32(f32):
        co = pds.lin_reg(*xs, target="y", weights="w", add_bias=bias, solver=solver, null_policy=policy)
        pr = pds.lin_reg(*xs, target="y", weights="w", add_bias=bias, solver=solver, null_policy=policy, return_pred=True)
    m.close(ev(m, df, co, "weighted_lin_reg")[0], want, "weighted_lin_reg:coefficients", rtol=tol, atol=tol)
    out = ev(m, df, pr, "weighted_lin_reg_pred")
    pt = tol * (np.abs(A).sum(1).max() + 1) * 4
    m.close(out.struct.field("pred"), A @ want, "weighted_lin_reg:pred", rtol=tol, atol=pt)
    m.close(out.struct.field("resid"), y - A @ want, "weighted_lin_reg:resid", rtol=tol, atol=pt)


@case("P03", quick=40, thorough=600)
def multi_target(m):
    n, p, X, y = regression_data(m)
    k = int(m.pick(2, 3))
    Y = np.column_stack([y, m.rng.normal(size=(n, k - 1)) * 3])
    bias, lam = m.chance(0.5), float(m.pick(0.0, 0.5))
    policy = m.pick("raise", "zero", "2.5")
    df = col_frame(m, X, y, m.pick(0, 0.15) if policy != "raise" else 0)
    df = df.with_columns([pl.Series(f"t{i}", Y[:, i]) for i in range(k)])
    xs = [f"x{j}" for j in range(p)]
    m.note(df=df, bias=bias, lam=lam, policy=policy, k=k)
    m.seen("multi", k, bias, lam > 0, policy)
    Xm, _, _ = used_rows(df, xs, policy)
    A = design(Xm, bias)
    if len(A) < A.shape[1]:
        raise Inconclusive("underdetermined")
    t = [f"t{i}" for i in range(k)]
    co = ev(m, df, pds.lin_reg(*xs, target=t, add_bias=bias, l2_reg=lam, null_policy=policy), "multi_lin_reg")
    pr = ev(m, df, pds.lin_reg(*xs, target=t, add_bias=bias, l2_reg=lam, null_policy=policy, return_pred=True), "multi_lin_reg_pred")
    m.ok(len(co) == 1 and len(pr) == n, "multi_lin_reg:length", f"{len(co)} {len(pr)}")
    for i in range(k):
        want, tol = ols(A, Y[:, i], lam, None, bias)
        pt = tol * (np.abs(A).sum(1).max() + 1) * 4
        m.close(co.struct.field(f"target_{i}")[0], want, "multi_lin_reg:coefficients", rtol=tol, atol=tol)
        m.close(pr.struct.field(f"target_{i}_pred"), A @ want, "multi_lin_reg:pred", rtol=tol, atol=pt)
        m.close(pr.struct.field(f"target_{i}_resid"), Y[:, i] - A @ want, "multi_lin_reg:resid", rtol=tol, atol=pt)


@case("P03", quick=40, thorough=600)
def rcond(m):
    """Singular values below rcond * max are cut, the reported ones are those of X."""
    n, p, X, y = regression_data(m)
    bias = m.chance(0.4)
    A = design(X, bias)
    if m.chance(0.3) and p >= 3:
        X[:, p - 1] = X[:, 0] + X[:, 1]       # rank deficient
        A = design(X, bias)
    df = col_frame(m, X, y)
    rc = float(m.pick(0.0, 0.01, 0.2, 0.5, 0.9))
    l2 = float(m.pick(0, 0, 0.5, 20, n * 0.5))
    # ridge is ordinary least squares with extra rows sqrt(l2) * I (none for the bias) and zero targets
    if l2:
        A = np.vstack([A, np.sqrt(l2) * np.eye(p + bias)[:p]])
        y = np.concatenate([y, np.zeros(p)])
    U, S, Vt = np.linalg.svd(A, full_matrices=False)
    m.note(df=df, rcond=rc, bias=bias, l2=l2)
    rel = S / S[0]
    deficient = rel < 1e-12
    if np.any((rel > 1e-12) & (rel < 1e-5)) or np.any(np.abs(rel - rc) < 1e-6 * (1 + rc)):
        raise Inconclusive("singular value near the cut")
    keep = (rel >= rc) & ~deficient
    m.seen("rcond", rc, l2 > 0, int(keep.sum()) < len(S), bool(deficient.any()))
    want = Vt[keep].T @ ((U[:, keep].T @ y) / S[keep])
    got = ev(m, df, pds.lin_reg_w_rcond(*[f"x{j}" for j in range(p)], target="y", add_bias=bias, rcond=rc, **({"l2_reg": l2} if l2 else {})), "lin_reg_w_rcond")
    row = got[0]
    # gaps between kept and dropped directions bound the error of the projector
    gap = 1.0
    if keep.any() and (~keep).any():
        gap = (S[keep].min() ** 2 - S[~keep].max() ** 2) / S[0] ** 2
    c = (S[0] / S[keep].min()) ** 2 if keep.any() else 1
    if gap < 1e-4:
        raise Inconclusive("tiny gap")
    tol = 1e-12 * c / gap + 1e-9
    scale = np.abs(want).max() + np.linalg.norm(y) / S[0]
    m.close(row["coeffs"], want, "lin_reg_w_rcond:coefficients", rtol=tol, atol=tol * scale, detail=f"rcond={rc} s={S}")
    m.close(sorted(v for v in row["singular_values"]), sorted(S), "lin_reg_w_rcond:singular-values", rtol=1e-6, atol=1e-6 * S[0])


@case("P03", quick=40, thorough=500)
def simple(m):
    n, _, X, y = regression_data(m, pmax=1)
    bias, wt = m.chance(0.5), m.chance(0.4)
    w = m.rng.uniform(0.1, 2, n) * m.pick(1, 1, 1e-3, 1e4)
    # These are plain polars expressions. polars 1.27 itself fails on this shape of expression when it
    # has one thread and many chunks, so the chunks are merged.
    df = col_frame(m, X, y, extra={"w": pl.Series("w", w)}).rechunk()
    m.note(df=df, bias=bias, weighted=wt)
    m.seen("simple", bias, wt)
    A = design(X, bias)
    want, tol = ols(A, y, 0, w if wt else None, bias)
    co = ev(m, df, pds.simple_lin_reg("x0", target="y", add_bias=bias, weights="w" if wt else None), "simple_lin_reg")
    m.close(co[0], want, "simple_lin_reg:coefficients", rtol=tol, atol=tol)
    pr = ev(m, df, pds.simple_lin_reg("x0", target="y", add_bias=bias, weights="w" if wt else None, return_pred=True), "simple_lin_reg_pred")
    pt = tol * (np.abs(A).sum(1).max() + 1) * 4
    m.close(pr.struct.field("pred"), A @ want, "simple_lin_reg:pred", rtol=tol, atol=pt)
    m.close(pr.struct.field("resid"), y - A @ want, "simple_lin_reg:resid", rtol=tol, atol=pt)


@case("P03", quick=40, thorough=500)
def per_group(m):
    """One fit per group, each on the group's own rows."""
    r = m.rng
    p = int(r.integers(1, 4))
    g = np.repeat(np.arange(int(m.pick(1, 3, 6))), int(m.pick(8, 20)))
    r.shuffle(g)
    n = len(g)
    X = r.normal(size=(n, p))
    y = X.sum(1) * (g + 1) + r.normal(size=n) * 0.2
    bias = m.chance(0.5)
    df = col_frame(m, X, y, extra={"g": pl.Series("g", g)})
    m.note(df=df, bias=bias)
    e = pds.lin_reg(*[f"x{j}" for j in range(p)], target="y", add_bias=bias)
    ep = pds.lin_reg(*[f"x{j}" for j in range(p)], target="y", add_bias=bias, return_pred=True)
    how = m.pick("agg", "over")
    m.seen("groups", how, len(set(g)))
    if how == "agg":
        out = m.call("lin_reg:group_by", lambda: df.lazy().group_by("g").agg(b=e).collect())
        m.ok(out.height == len(set(g)), "lin_reg:groups", out.height)
        for gi, b in out.iter_rows():
            k = g == gi
            want, tol = ols(design(X[k], bias), y[k], 0, None, bias)
            b = list(b)
            if len(b) == 1 and isinstance(b[0], list):
                b = b[0]
            m.close(b, want, "lin_reg:group-coefficients", rtol=tol, atol=tol)
    else:
        out = m.call("lin_reg:over", lambda: df.select(ep.over("g")).to_series()).struct.field("pred").to_numpy()
        for gi in set(g):
            k = g == gi
            A = design(X[k], bias)
            want, tol = ols(A, y[k], 0, None, bias)
            m.close(out[k], A @ want, "lin_reg:over-pred", rtol=tol, atol=tol * (np.abs(A).sum(1).max() + 1) * 4)


@case("P03", quick=50, thorough=700)
def estimator(m):
    """The estimator class: histories of refits, predictions, repr, construction from values."""
    r = m.rng
    bias, lam = m.chance(0.5), float(m.pick(0.0, 0.4))
    lr = m.call("LR", lambda: LR(has_bias=bias, lambda_=lam, solver=m.pick("qr", "svd", "choleskey")))
    m.ok(m.call("LR.is_fit", lr.is_fit) is False, "LR.is_fit:unfitted")
    m.call("LR.repr", lambda: repr(lr))
    e = m.call("LR.predict:unfitted", lambda: lr.predict(np.ones((2, 2))), expect_error=True)
    m.ok(isinstance(e, ValueError), "LR.predict:unfitted", repr(e))
    for s in range(int(r.integers(1, 4))):
        n, p, X, y = regression_data(m)
        via = m.pick("numpy", "df")
        policy = m.pick("skip", "zero", "0.5", "raise")
        if m.chance(0.12) and p > 1:
            k = int(r.integers(1, p))
            X, y = X[:k], y[:k]
        df = col_frame(m, X, y, m.pick(0, 0.15), m.pick(0, 0.1)).cast({f"x{j}": pl.Float64 for j in range(p)})
        xs = [f"x{j}" for j in range(p)]
        u = used_rows(df, xs, policy)
        m.note(**{f"df{s}": df, f"policy{s}": policy, f"via{s}": via, "bias": bias, "lam": lam})
        m.seen("LR", via, policy, bias, lam > 0, s)
        Xn = df.select(xs).cast(pl.Float64).to_numpy()
        yn = df["y"].cast(pl.Float64).to_numpy()
        Xn, yn = (np.asfortranarray(Xn) if m.chance(0.5) else np.ascontiguousarray(Xn)), np.array(yn)
        fit = (lambda: lr.fit_df(df if m.chance(0.5) else df.lazy(), xs, "y", null_policy=policy)) if via == "df" else \
              (lambda: lr.fit(Xn, yn, null_policy=policy))
        if u is None:
            e = m.call("LR.fit", fit, expect_error=True)
            m.ok(isinstance(e, ValueError), "LR.fit:nulls-not-refused", repr(e))
            continue
        if len(u[0]) < p:      # no conclusive answer: refused, and what was learned before stays
            was = [lr.is_fit(), lr.coeffs().tolist() if lr.is_fit() else None]
            e = m.call("LR.fit", fit, expect_error=True)
            m.ok(isinstance(e, ValueError), "LR.fit:too-few-rows-accepted", f"{len(u[0])} rows, {p} features: {e!r}")
            m.eq([lr.is_fit(), lr.coeffs().tolist() if lr.is_fit() else None], was, "LR.fit:refused-but-changed")
            m.seen("too few rows", via, policy, bias)
            continue
        if len(u[0]) < p + bias:
            continue
        A = design(u[0], bias)
        want, tol = ols(A, u[1], lam, None, bias)
        m.call("LR.fit", fit)
        m.ok(lr.is_fit() is True, "LR.is_fit:fitted")
        m.close(lr.coeffs(), want[:p], "LR.coeffs", rtol=tol, atol=tol)
        m.close([lr.bias()], [want[p] if bias else 0.0], "LR.bias", rtol=tol, atol=tol)
        m.ok(str(round(float(lr.coeffs()[0]), 5)) in repr(lr), "LR.repr", repr(lr))
        Q = r.normal(size=(int(m.pick(1, 5, 30)), p))
        pt = tol * (np.abs(Q).sum(1).max() + 1) * 4
        pred = m.call("LR.predict", lambda: lr.predict(Q))
        m.ok(pred.shape == (len(Q), 1), "LR.predict:shape", pred.shape)
        m.close(pred, design(Q, bias) @ want, "LR.predict", rtol=tol, atol=pt)
        e = m.call("LR.predict:dim", lambda: lr.predict(np.ones((3, p + 1))), expect_error=True)
        m.ok(isinstance(e, ValueError), "LR.predict:dimension-accepted", repr(e))
        if via == "df":
            qd = pl.DataFrame(Q, schema=xs)
            out = m.call("LR.predict_df", lambda: lr.predict_df(qd, name="pp"))
            m.close(out["pp"], design(Q, bias) @ want, "LR.predict_df", rtol=tol, atol=pt)
        if m.chance(0.4):
            l2 = LR.from_values(lr.coeffs(), lr.bias(), feature_names_in_=xs)
            m.close(l2.coeffs(), lr.coeffs(), "LR.from_values:coeffs", rtol=1e-12)
            m.close([l2.bias()], [lr.bias()], "LR.from_values:bias", rtol=1e-12)
            m.close(l2.predict(Q), pred, "LR.from_values:predict", rtol=1e-9, atol=1e-9)
