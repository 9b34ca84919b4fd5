"""P06: rolling, recursive and online regressions equal a fresh fit on exactly the rows they cover."""
import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.linear_models import OnlineLR
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame, ev, with_nulls, series
from pdsmon.props.p03_linreg import design, ols, F32


def cond(A, lam, bias):
    if len(A) < A.shape[1] and lam == 0:
        return np.inf
    D = np.full(A.shape[1], float(lam))
    if bias:
        D[-1] = 0
    return np.linalg.cond(A.T @ A + np.diag(D))


class Spread:
    """The errors of a chain of updates and removals are bounded by the largest over the smallest
    eigenvalue met anywhere along the chain, not by the conditioning of each window."""
    def __init__(self):
        self.hi, self.lo = 0.0, np.inf

    def add(self, A, lam, bias):
        if len(A) < A.shape[1] and lam == 0:
            self.lo = 0.0
            return self.value
        D = np.full(A.shape[1], float(lam))
        if bias:
            D[-1] = 0
        e = np.linalg.eigvalsh(A.T @ A + np.diag(D))
        self.hi, self.lo = max(self.hi, e[-1]), min(self.lo, max(e[0], 0.0))
        return self.value

    @property
    def value(self):
        return self.hi / self.lo if self.lo > 0 else np.inf


def data(m, n, p):
    r = m.rng
    X = r.normal(size=(n, p))
    if m.chance(0.3):
        X = X * 3 + r.normal(size=p)
    if m.chance(0.2):
        X = r.integers(-4, 5, (n, p)).astype(float)
    y = X @ r.normal(size=p) + r.normal(size=n) * m.pick(0.1, 1) + np.linspace(0, m.pick(0, 4), n)
    return X, y


def fr(m, X, y, pn, yn):
    r = m.rng
    cols = {f"x{j}": series(r, f"x{j}", with_nulls(r, X[:, j], pn) if pn else X[:, j].tolist(), dtype=pl.Float64, layout="one")
            for j in range(X.shape[1])}
    cols["y"] = series(r, "y", with_nulls(r, y, yn) if yn else y.tolist(), dtype=pl.Float64, layout="one")
    return frame(r, cols)


def judge(m, sig, out, i, A, y, row, lam, bias, worst, eps=2.2e-16):
    """Row i of out against the fit on (A, y); row: the design row the prediction is for."""
    want, _ = ols(A, y, lam, None, bias, eps)
    tol = 50 * eps * worst ** 2 * (1 + len(A) ** 0.5) + (1e-7 if eps < 1e-10 else 1e-3)
    sc = 1 + np.abs(want).max()
    b = out.struct.field("coeffs")[i]
    m.ok(b is not None, sig + ":missing-fit", f"row {i}")
    m.close(b, want, sig + ":coefficients", rtol=tol, atol=tol * sc, detail=f"row {i} bias={bias} l2={lam} n={len(A)}")
    m.close([out.struct.field("pred")[i]], [row @ want], sig + ":pred", rtol=tol,
            atol=tol * sc * (np.abs(row).sum() + 1), detail=f"row {i}")


LIM = 1e4


@case("P06", quick=110, thorough=1500)
def rolling(m):
    r = m.rng
    p = int(r.integers(1, 4))
    bias = m.chance(0.4)
    k = p + bias
    w = int(m.pick(max(2, k), k + 1, k + 4, 12))
    w = max(w, 2)
    n = w + int(m.pick(0, 1, 7, 30))
    X, y = data(m, n, p)
    lam = float(m.pick(0.0, 0.0, 0.2))
    policy = m.pick("raise", "skip", "skip", "zero", "1.5")
    pn = 0 if policy == "raise" else m.pick(0.0, 0.1, 0.3)
    yn = m.pick(0.0, pn)
    df = fr(m, X, y, pn, yn)
    xs = [f"x{j}" for j in range(p)]
    mv = m.pick(None, k, min(k + 1, w))
    f32 = m.chance(0.1)
    m.note(df=df, w=w, policy=policy, bias=bias, lam=lam, mv=mv, f32=f32)
    xm = df.select(xs).to_numpy().astype(float).copy()
    ym = df["y"].to_numpy().astype(float)
    if policy in ("zero", "1.5"):
        xm[np.isnan(xm)] = 0.0 if policy == "zero" else 1.5
    ok = ~(np.isnan(xm).any(1) | np.isnan(ym))
    minsize = p if mv is None else mv
    A = design(xm, bias)
    # every window the updates run through must be well-posed for floats to be comparable
    conds = {}
    for i in range(w - 1, n):
        s = slice(i - w + 1, i + 1)
        z = ok[s]
        conds[i] = cond(A[s][z], lam, bias) if z.sum() >= minsize else None
    if f32:
        sp = Spread()
        for i in conds:
            if conds[i] is not None:
                z = ok[i - w + 1:i + 1]
                sp.add(A[i - w + 1:i + 1][z], lam, bias)
    if f32 and sp.value > 50:
        raise Inconclusive("ill-conditioned for single precision")
    with F32(f32):
        e = pds.rolling_lin_reg(*xs, target="y", window_size=w, add_bias=bias, l2_reg=lam, min_valid_rows=mv, null_policy=policy)
    out = ev(m, df, e, "rolling_lin_reg")
    m.ok(len(out) == n, "rolling_lin_reg:length", len(out))
    m.seen("rolling", policy, bias, lam > 0, w == k, mv is None, bool((~ok).any()), f32)
    spread, judged, gaps = Spread(), 0, 0
    for i in range(n):
        if i < w - 1 or conds[i] is None:
            gaps += i >= w - 1
            m.ok(out.struct.field("coeffs")[i] is None and out.struct.field("pred")[i] is None,
                 "rolling_lin_reg:fit-without-enough-rows", f"row {i}: {out[i]} w={w} min={minsize}")
            continue
        if len(A[i - w + 1:i + 1][ok[i - w + 1:i + 1]]) < k and lam == 0:
            continue                          # fewer rows than coefficients: anything may come out, once
        s = slice(i - w + 1, i + 1)
        worst = spread.add(A[s][ok[s]], lam, bias)
        if worst > LIM:
            break
        if not ok[i]:
            # the newest row is itself incomplete: only the coefficients are defined
            want, _ = ols(A[s][ok[s]], ym[s][ok[s]], lam, None, bias)
            b = out.struct.field("coeffs")[i]
            m.ok(b is not None, "rolling_lin_reg:missing-fit", f"row {i}")
            t = 1e-13 * worst ** 2 + (1e-7 if not f32 else 1e-2)
            m.close(b, want, "rolling_lin_reg:coefficients", rtol=t, atol=t * (1 + np.abs(want).max()), detail=f"row {i} (null row)")
        else:
            judge(m, "rolling_lin_reg", out, i, A[s][ok[s]], ym[s][ok[s]], A[i], lam, bias, worst, 1.2e-7 if f32 else 2.2e-16)
        judged += 1
    if gaps and judged:
        m.seen("rolling-gap")
    if not judged:
        raise Inconclusive("nothing well-posed")


@case("P06", quick=90, thorough=1200)
def recursive(m):
    r = m.rng
    p = int(r.integers(1, 4))
    bias = m.chance(0.4)
    k = p + bias
    s0 = int(m.pick(k, k + 1, k + 5))
    n = s0 + int(m.pick(0, 1, 10, 40))
    X, y = data(m, n, p)
    lam = float(m.pick(0.0, 0.0, 0.3))
    policy = m.pick("raise", "skip", "zero", "2")
    pn = 0 if policy == "raise" else m.pick(0.0, 0.15)
    df = fr(m, X, y, pn, m.pick(0.0, pn))
    xs = [f"x{j}" for j in range(p)]
    xm = df.select(xs).to_numpy().astype(float).copy()
    ym = df["y"].to_numpy().astype(float)
    if policy in ("zero", "2"):
        xm[np.isnan(xm)] = 0.0 if policy == "zero" else 2.0
    ok = ~(np.isnan(xm).any(1) | np.isnan(ym))
    m.note(df=df, start=s0, policy=policy, bias=bias, lam=lam)
    if ok.sum() < s0:
        raise Inconclusive("not enough rows")
    A = design(xm, bias)
    f32 = m.chance(0.1)
    with F32(f32):
        e = pds.recursive_lin_reg(*xs, target="y", start_with=s0, add_bias=bias, l2_reg=lam, null_policy=policy)
    first = np.nonzero(ok)[0][s0 - 1]
    worst = cond(A[:first + 1][ok[:first + 1]], lam, bias)
    if worst > (LIM if not f32 else 50):
        raise Inconclusive("ill-conditioned start")
    out = ev(m, df, e, "recursive_lin_reg")
    m.ok(len(out) == n, "recursive_lin_reg:length", len(out))
    m.seen("recursive", policy, bias, lam > 0, s0 == k, bool((~ok).any()), f32)
    for i in range(n):
        if i < first or not ok[i]:
            m.ok(out.struct.field("coeffs")[i] is None and out.struct.field("pred")[i] is None,
                 "recursive_lin_reg:fit-on-excluded-row", f"row {i}: {out[i]} start={s0}")
            continue
        z = ok[:i + 1]
        judge(m, "recursive_lin_reg", out, i, A[:i + 1][z], ym[:i + 1][z], A[i], lam, bias, worst, 1.2e-7 if f32 else 2.2e-16)


@case("P06", quick=80, thorough=1200)
def online(m):
    """Histories of updates and removals on the estimator class."""
    r = m.rng
    p = int(r.integers(1, 4))
    bias, lam = m.chance(0.4), float(m.pick(0.0, 0.0, 0.3))
    k = p + bias
    n0 = k + int(m.pick(0, 1, 6))
    X, y = data(m, n0, p)
    if cond(design(X, bias), lam, bias) > LIM:
        raise Inconclusive("ill-conditioned start")
    lr = m.call("OnlineLR", lambda: OnlineLR(lambda_=lam, has_bias=bias))
    m.ok(m.call("OnlineLR.is_fit", lr.is_fit) is False, "OnlineLR.is_fit:unfitted")
    m.call("OnlineLR.repr", lambda: repr(lr))
    e = m.call("OnlineLR.update:unfitted", lambda: lr.update(X[0], y[0]), expect_error=True)
    m.ok(isinstance(e, ValueError), "OnlineLR.update:unfitted-accepted", repr(e))
    if p > 1 and m.chance(0.3):
        j = int(r.integers(1, p))
        e = m.call("OnlineLR.fit:few", lambda: lr.fit(X[:j], y[:j].reshape(-1, 1)), expect_error=True)
        m.ok(isinstance(e, ValueError) and lr.is_fit() is False, "OnlineLR.fit:too-few-rows-accepted", f"{j} rows, {p} features: {e!r}")
    m.call("OnlineLR.fit", lambda: lr.fit(X, y.reshape(-1, 1)))
    rows = [(X[i], float(y[i])) for i in range(n0)]
    m.note(X=X, y=y, bias=bias, lam=lam)
    spread = Spread()
    spread.add(design(X, bias), lam, bias)
    steps = []
    for s in range(int(m.pick(3, 10, 25))):
        op = m.pick("add", "add", "add", "nan", "remove", "check", "rebuild")
        if op == "add":
            x, v = r.normal(size=p) * 1.5, float(r.normal())
            m.call("OnlineLR.update", lambda: lr.update(x.copy(), v if m.chance(0.5) else np.array([v])))
            rows.append((x, v))
        elif op == "nan":
            x, v = r.normal(size=p), float(r.normal())
            if m.chance(0.5):
                x[int(r.integers(p))] = np.nan
            else:
                v = float("nan")
            m.call("OnlineLR.update", lambda: lr.update(x, v))       # ignored
        elif op == "remove":
            if len(rows) <= k + 1:
                continue
            i = int(r.integers(len(rows)))
            rest = rows[:i] + rows[i + 1:]
            if cond(design(np.array([a for a, _ in rest]), bias), lam, bias) > 1e3:
                continue
            x, v = rows[i]
            m.call("OnlineLR.update", lambda: lr.update(x.copy(), v, c=-1.0))
            rows = rest
        elif op == "rebuild":
            if bias and abs(lr.bias()) < 1e-6 or lam > 0:
                continue
            inv = m.call("OnlineLR.inv", lr.inv)
            if bias and lr.bias() == 0:
                continue
            l2 = m.call("OnlineLR.from_coeffs_bias_inverse",
                        lambda: OnlineLR.from_coeffs_bias_inverse(lr.coeffs(), lr.bias() if bias else 0.0, np.ascontiguousarray(inv)))
            lr = l2
        steps.append(op)
        m.seen("online", op, bias, lam > 0)
        A = design(np.array([a for a, _ in rows]), bias)
        Y = np.array([b for _, b in rows])
        worst = spread.add(A, lam, bias)
        if worst > LIM:
            raise Inconclusive("ill-conditioned history")
        want, _ = ols(A, Y, lam, None, bias)
        tol = 1e-14 * worst ** 2 * 30 + 1e-7
        sc = 1 + np.abs(want).max()
        m.close(lr.coeffs(), want[:p], "OnlineLR.coeffs", rtol=tol, atol=tol * sc, detail=f"after {steps}")
        m.close([lr.bias()], [want[p] if bias else 0.0], "OnlineLR.bias", rtol=tol, atol=tol * sc, detail=f"after {steps}")
        D = np.full(k, lam)
        if bias:
            D[-1] = 0
        iv = np.linalg.inv(A.T @ A + np.diag(D))
        m.close(lr.inv(), iv, "OnlineLR.inv", rtol=tol * 10, atol=tol * 10 * np.abs(iv).max(), detail=f"after {steps}")
        Q = r.normal(size=(3, p))
        m.close(lr.predict(Q), design(Q, bias) @ want, "OnlineLR.predict", rtol=tol, atol=tol * sc * 10)
