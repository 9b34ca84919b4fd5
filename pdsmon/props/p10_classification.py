"""P10: classification and ranking metrics equal their definitions on the rows given."""
import math
import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.exprs.metrics import calculate_ndcg, query_gini
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame, ev, ev_scalar

INT = [pl.Int8, pl.Int32, pl.UInt8, pl.UInt32, pl.Int64, pl.Float64, pl.Boolean]


def binary(m, allow=("mixed", "mixed", "mixed", "mixed", "allpos", "nopos"), nmax=120):
    """(df, y, p): labels, scores with ties, hidden in a random layout."""
    r = m.rng
    n = int(m.pick(1, 2, 3, 5, 8, 20, 60, nmax))
    shape = m.pick(*allow)
    m.seen("classes", shape)
    if shape == "mixed":
        y = (r.random(n) < r.choice([0.1, 0.5, 0.8])).astype(int)
    else:
        y = np.full(n, int(shape == "allpos"))
    kind = m.pick("cont", "ties", "coarse", "one", "separated", "inverted", "beyond")
    m.seen("scores", kind)
    p = {"cont": lambda: r.random(n), "ties": lambda: r.integers(0, 6, n) / 5, "coarse": lambda: r.integers(0, 2, n) * 1.0,
         "one": lambda: np.full(n, 0.5), "separated": lambda: np.where(y == 1, 0.6, 0.1) + 0.3 * r.random(n),
         "inverted": lambda: np.where(y == 1, 0.1, 0.6) + 0.3 * r.integers(0, 4, n) / 4,
         "beyond": lambda: r.normal(size=n) * 3}[kind]()
    pdt = m.pick(pl.Float64, pl.Float64, pl.Float64, pl.Float32, pl.Int64)
    if pdt == pl.Int64:
        p = np.round(p * 4)
    s = pl.Series("p", p).cast(pdt)
    p = s.cast(pl.Float64).to_numpy()
    m.seen("dtype", str(pdt))
    ydt = m.pick(*INT)
    df = frame(r, {"y": pl.Series("y", y).cast(ydt), "p": s})
    m.note(y=y, p=p, ydt=str(ydt), pdt=str(pdt))
    return df, y, p


def auc_ref(y, p):
    pos, neg = p[y == 1], p[y == 0]
    if not len(pos) or not len(neg):
        return math.nan
    d = pos[:, None] - neg[None, :]
    return float(((d > 0).sum() + 0.5 * (d == 0).sum()) / d.size)


def ap_ref(y, p):
    out, prev = 0.0, 0.0
    P = (y == 1).sum()
    for t in np.sort(np.unique(p))[::-1]:
        sel = p >= t
        rec = (y[sel] == 1).sum() / P
        out += (rec - prev) * (y[sel] == 1).mean()
        prev = rec
    return float(out)


@case("P10", quick=200, thorough=2500)
def auc(m):
    df, y, p = binary(m)
    want = auc_ref(y, p)
    which = m.pick("auc", "auc", "gini")
    if which == "auc":
        got = ev_scalar(m, df, pds.query_roc_auc("y", "p"), "roc_auc")
    else:
        got = ev_scalar(m, df, query_gini("y", "p"), "gini")
        want = 2 * want - 1
    m.close(got, want, which + ":value", rtol=1e-9, atol=1e-9)


@case("P10", quick=150, thorough=2000)
def binary_metrics(m):
    df, y, p = binary(m)
    thr = float(m.pick(0.5, 0.5, float(m.rng.choice(p)), float(np.max(p) + 0.1), float(np.min(p) - 0.1), float(m.rng.random())))
    m.note(thr=thr)
    m.seen("thr", "above" if thr > p.max() else "below" if thr < p.min() else "on" if thr in p else "between")
    got = ev_scalar(m, df, pds.query_binary_metrics("y", "p", threshold=thr), "binary_metrics")
    m.eq(sorted(got), sorted(["precision", "recall", "f", "average_precision", "roc_auc"]), "binary_metrics:fields")
    if not (y == 1).any():
        m.ok(all(v is not None and math.isnan(v) for v in got.values()), "binary_metrics:no-positives", got)
        return
    sel = p >= thr
    prec = float((y[sel] == 1).mean()) if sel.any() else math.nan
    rec = float((y[sel] == 1).sum() / (y == 1).sum())
    m.close(got["precision"], prec, "binary_metrics:precision", 1e-9, 1e-12)
    m.close(got["recall"], rec, "binary_metrics:recall", 1e-9, 1e-12)
    f = math.nan if not sel.any() or prec + rec == 0 else 2 * prec * rec / (prec + rec)
    m.close(got["f"], f, "binary_metrics:f", 1e-9, 1e-12)
    m.close(got["average_precision"], ap_ref(y, p), "binary_metrics:average_precision", 1e-9, 1e-9)
    m.close(got["roc_auc"], auc_ref(y, p), "binary_metrics:roc_auc", 1e-9, 1e-9)
    fld = m.pick("precision", "recall", "f", "average_precision", "roc_auc")
    one = m.call("binary_metrics:lazy-field", lambda: df.lazy().select(
        r=pds.query_binary_metrics("y", "p", threshold=thr).struct.field(fld)).collect()["r"].to_list())
    m.eq(one, [got[fld]], "binary_metrics:lazy-field")


@case("P10", quick=80, thorough=1000)
def curve(m):
    df, y, p = binary(m)
    out = ev(m, df, pds.query_tpr_fpr("y", "p"), "tpr_fpr", ctx=m.pick("select", "lazy"))
    m.eq(out.struct.fields, ["threshold", "tpr", "fpr"], "tpr_fpr:fields")
    d = out.struct.unnest()
    ts = np.sort(np.unique(p))
    m.close(d["threshold"], ts, "tpr_fpr:thresholds", 0, 0)
    P, N = (y == 1).sum(), (y == 0).sum()
    with np.errstate(all="ignore"):
        m.close(d["tpr"], [float(np.float64((y[p >= t] == 1).sum()) / P) for t in ts], "tpr_fpr:tpr", 1e-12, 1e-12)
        m.close(d["fpr"], [float(np.float64((y[p >= t] == 0).sum()) / N) for t in ts], "tpr_fpr:fpr", 1e-12, 1e-12)


def div(a, b):
    return a / b if b != 0 else math.nan


@case("P10", quick=160, thorough=2000)
def confusion(m):
    df, y, p = binary(m)
    n = len(y)
    thr = float(m.pick(0.5, 0.5, float(m.rng.choice(p)), float(m.rng.random()), float(p.max()), float(p.min() - 1)))
    valid = np.ones(n, bool)
    if m.chance(0.4):
        m.seen("nulls")
        ky, kp = m.rng.random(n) < 0.2, m.rng.random(n) < 0.2
        if m.chance(0.3):
            kp[:] = False
        yy = pl.Series("y", [None if k else int(v) for k, v in zip(ky, y)], dtype=pl.Int64)
        pp = pl.Series("p", [None if k else float(v) for k, v in zip(kp, p)], dtype=pl.Float64)
        df, valid = frame(m.rng, {"y": yy, "p": pp}), ~ky & ~kp
        m.note(valid=valid)
    m.note(thr=thr)
    t = p > thr
    Y, T = y[valid] == 1, t[valid]
    tp, tn, fp, fn = (int(v) for v in ((Y & T).sum(), (~Y & ~T).sum(), (~Y & T).sum(), (Y & ~T).sum()))
    full = m.chance(0.6)
    got = ev_scalar(m, df, pds.query_confusion_matrix("y", "p", threshold=thr, all_metrics=full), "confusion_matrix")
    m.eq({k: got[k] for k in ("tp", "tn", "fp", "fn")}, dict(tp=tp, tn=tn, fp=fp, fn=fn), "confusion_matrix:counts")
    m.ok(all(type(got[k]) is int for k in ("tp", "tn", "fp", "fn")), "confusion_matrix:count-type", got)
    if not full:
        m.eq(len(got), 4, "confusion_matrix:fields")
        return
    P, N = tp + fn, fp + tn
    w = {"tpr": div(tp, P), "fpr": div(fp, N), "precision": div(tp, tp + fp), "false_omission_rate": div(fn, fn + tn),
         "prevalence": div(P, P + N), "threat_score": div(tp, tp + fn + fp), "acc": div(tp + tn, P + N)}
    w |= {"fnr": 1 - w["tpr"], "tnr": 1 - w["fpr"], "npv": 1 - w["false_omission_rate"], "fdr": 1 - w["precision"]}
    # rates which are exactly zero must be recognised as such
    fnr, tnr = div(fn, P), div(tn, N)
    w |= {"plr": div(w["tpr"], w["fpr"]), "nlr": div(fnr, tnr), "informedness": w["tpr"] + w["tnr"] - 1,
          "markedness": w["precision"] - w["false_omission_rate"], "balanced_accuracy": (w["tpr"] + w["tnr"]) / 2,
          "prevalence_threshold": div(math.sqrt(w["tpr"] * w["fpr"]) - w["fpr"], w["tpr"] - w["fpr"]) if not math.isnan(w["tpr"] * w["fpr"]) else math.nan,
          "f1": div(2 * w["precision"] * w["tpr"], w["precision"] + w["tpr"]),
          "folkes_mallows_index": math.sqrt(w["precision"] * w["tpr"]) if not math.isnan(w["precision"] * w["tpr"]) else math.nan}
    w["dor"] = div(w["plr"], w["nlr"])
    den = float(tp + fp) * (tp + fn) * (tn + fp) * (tn + fn)
    w["mcc"] = (tp * tn - fp * fn) / math.sqrt(den) if den else math.nan
    m.eq(set(got), set(w) | {"tp", "tn", "fp", "fn"}, "confusion_matrix:fields")
    for k, v in w.items():
        if k in ("f1", "threat_score") and tp == 0 and fp + fn > 0:
            m.ok(got[k] is not None and (math.isnan(got[k]) or got[k] == 0), f"confusion_matrix:{k}", got)
            continue
        if k == "prevalence_threshold" and abs(w["tpr"] - w["fpr"]) < 1e-9:
            continue
        m.close(got[k], v, f"confusion_matrix:{k}", 1e-9, 1e-12, detail=f"tp={tp} tn={tn} fp={fp} fn={fn}")


@case("P10", quick=60, thorough=600)
def mcc(m):
    r = m.rng
    big = m.chance(0.15)
    n = int(r.integers(150_000, 300_000)) if big else int(m.pick(2, 3, 10, 100, 1000))
    m.seen("big" if big else "small")
    y = (r.random(n) < r.choice([0.3, 0.5, 0.6])).astype(int)
    t = np.where(r.random(n) < r.choice([0.5, 0.8, 0.95, 0.1]), y, 1 - y)
    dt = m.pick(pl.Int64, pl.UInt32, pl.Int8, pl.Float64, pl.Boolean)
    df = frame(r, {"y": pl.Series("y", y).cast(dt), "t": pl.Series("t", t).cast(dt)})
    m.note(y=y[:50], t=t[:50], n=n, dt=str(dt))
    tp, tn, fp, fn = (int(v) for v in ((y & t).sum(), ((1 - y) & (1 - t)).sum(), ((1 - y) & t).sum(), (y & (1 - t)).sum()))
    den = float(tp + fp) * (tp + fn) * (tn + fp) * (tn + fn)
    got = ev_scalar(m, df, pds.query_mcc("y", "t"), "mcc", ctxs=("select", "lazy") if big else ("select", "lazy", "with_columns", "group", "over"))
    if den == 0:
        m.ok(got is not None and math.isnan(got), "mcc:undefined", got)
    else:
        m.close(got, (tp * tn - fp * fn) / math.sqrt(den), "mcc:value", 1e-9, 1e-12)


@case("P10", quick=60, thorough=600)
def multi_auc(m):
    r = m.rng
    k = int(r.integers(2, 6))
    n = int(m.pick(k, 10, 40, 100)) + k
    y = np.concatenate([np.arange(k), r.integers(0, k, n - k)])
    P = r.integers(1, 5, (n, k)).astype(float) if m.chance(0.4) else r.random((n, k)) + 0.3 * np.eye(k)[y]
    P /= P.sum(1, keepdims=True)
    perm = r.permutation(n)
    y, P = y[perm], P[perm]
    strat = m.pick("macro", "weighted")
    m.seen(strat, k)
    m.note(y=y, P=P)
    df = frame(r, {"y": pl.Series("y", y, dtype=m.pick(pl.Int64, pl.UInt8, pl.Int32)), "p": pl.Series("p", P.tolist())}, layout="one")
    a = [auc_ref((y == i).astype(int), P[:, i]) for i in range(k)]
    want = float(np.mean(a)) if strat == "macro" else float(sum((y == i).sum() * a[i] for i in range(k)) / n)
    m.close(ev_scalar(m, df, pds.query_multi_roc_auc("y", "p", k, strat), "multi_roc_auc", ctxs=("select", "lazy")), want, "multi_roc_auc:" + strat, 1e-9, 1e-9)


@case("P10", quick=100, thorough=1200)
def losses(m):
    r = m.rng
    n = int(m.pick(1, 2, 5, 30, 100))
    norm = m.chance(0.5)
    if m.chance(0.5):
        y = r.integers(0, 2, n)
        p = np.clip(r.random(n), 1e-3, 1 - 1e-3)
        if m.chance(0.3):        # certain and right: contributes nothing
            p = np.where(r.random(n) < 0.5, y, p).astype(float)
            m.seen("certain")
        ydt, pdt = m.pick(pl.Int64, pl.UInt8, pl.Float64, pl.Boolean), m.pick(pl.Float64, pl.Float64, pl.Float32)
        s = pl.Series("p", p).cast(pdt)
        q = s.cast(pl.Float64).to_numpy()
        m.note(y=y, p=q, norm=norm)
        df = frame(r, {"y": pl.Series("y", y).cast(ydt), "p": s})
        full = np.ones(n, bool)
        if n > 2 and m.chance(0.3):      # rows without label or prediction do not take part
            ny, np_ = r.random(n) < 0.2, r.random(n) < 0.2
            full = ~(ny | np_)
            if not full.any():
                raise Inconclusive("no complete row")
            df = df.with_columns(y=pl.Series("y", y).cast(ydt).set(pl.Series(ny), None) if ydt != pl.Boolean else pl.Series("y", [None if z else bool(v) for z, v in zip(ny, y)]),
                                 p=s.set(pl.Series(np_), None))
            m.seen("log_loss-nulls")
            m.note(missing=~full)
        terms = [-(math.log(b) if a == 1 else math.log(1 - b)) for a, b in zip(y[full], q[full])]
        got = ev_scalar(m, df, pds.query_log_loss("y", "p", normalize=norm), "log_loss", ctxs=("select", "lazy", "with_columns", "group", "over"))
        m.close(got, sum(terms) / (full.sum() if norm else 1), "log_loss:value", 1e-9, 1e-12)
        return
    k = int(r.integers(2, 6))
    y = r.integers(0, k, n)
    P = r.random((n, k)) + 0.05
    P /= P.sum(1, keepdims=True)
    dense = m.chance(0.5)
    arr = m.pick("list", "array")
    m.seen("dense" if dense else "onehot", arr)
    m.note(y=y, P=P, norm=norm)
    ps = pl.Series("p", P.tolist(), dtype=pl.List(pl.Float64) if arr == "list" else pl.Array(pl.Float64, k))
    if dense:
        ys = pl.Series("y", y, dtype=m.pick(pl.Int64, pl.UInt32, pl.UInt8, pl.Int32))
    else:
        inner = m.pick(pl.Int64, pl.UInt8)
        ys = pl.Series("y", np.eye(k, dtype=int)[y].tolist(), dtype=pl.List(inner) if arr == "list" else pl.Array(inner, k))
    df = frame(r, {"y": ys, "p": ps}, layout="one")
    full = np.ones(n, bool)
    if n > 2 and m.chance(0.3):
        ny, np_ = r.random(n) < 0.2, r.random(n) < 0.2
        full = ~(ny | np_)
        if not full.any():
            raise Inconclusive("no complete row")
        df = pl.DataFrame([pl.Series(c, [None if z else v for z, v in zip(hole, x.to_list())], dtype=x.dtype) for c, hole, x in (("y", ny, ys), ("p", np_, ps))])
        m.seen("cce-nulls")
        m.note(missing=~full)
    want = -float(np.log(P[np.arange(n), y])[full].sum()) / (full.sum() if norm else 1)
    got = ev_scalar(m, df, pds.query_cat_cross_entropy("y", "p", normalize=norm, dense=dense), "cat_cross_entropy", ctxs=("select", "lazy"))
    m.close(got, want, "cat_cross_entropy:value", 1e-9, 1e-12)


@case("P10", quick=60, thorough=600)
def fairness(m):
    r = m.rng
    n = int(m.pick(2, 5, 30, 100))
    share = m.chance(0.5)
    p = r.random(n) + 0.01
    if share and m.chance(0.7):          # predicted classes
        p = (r.random(n) < 0.6).astype(float)
        m.seen("classes")
    g = r.integers(0, 2, n)
    g[0], g[-1] = 0, 1
    hp, hg = np.zeros(n, bool), np.zeros(n, bool)
    if n > 4 and m.chance(0.4):          # rows without prediction, rows of neither group
        hp[1:-1], hg[1:-1] = r.random(n - 2) < 0.2, r.random(n - 2) < 0.2
        m.seen("fairness-nulls")
    df = frame(r, {"p": [None if h else v for h, v in zip(hp, p.tolist())], "g": [None if h else v for h, v in zip(hg, g.tolist())]}, layout="one")
    m.note(p=p, g=g, hp=hp, hg=hg)
    a, b = float(p[(g == 1) & ~hg & ~hp].mean()), float(p[(g == 0) & ~hg & ~hp].mean())
    if not share:
        got = ev_scalar(m, df, pds.query_fairness("p", pl.col("g") == 1), "fairness", ctxs=("select", "lazy", "group"))
        m.close(got, abs(a - b), "fairness:value", 1e-9, 1e-12)
    else:
        if a == 0 and b == 0:
            raise Inconclusive("no positive prediction in either group")
        got = ev_scalar(m, df, pds.query_p_pct_score("p", pl.col("g") == 1), "p_pct", ctxs=("select", "lazy", "group"))
        m.close(got, (0.0 if 0 in (a, b) else min(a / b, b / a)), "p_pct:value", 1e-9, 1e-12)


def dcg(rel, score, k, average):
    n = len(rel)
    disc = np.array([1 / math.log2(i + 2) if k is None or i < k else 0.0 for i in range(n)])
    order = np.argsort(-score, kind="stable")
    if not average:
        return float((rel[order] * disc).sum())
    out, i = 0.0, 0
    while i < n:
        j = i
        while j < n and score[order[j]] == score[order[i]]:
            j += 1
        out += rel[order[i:j]].mean() * disc[i:j].sum()
        i = j
    return float(out)


@case("P10", quick=80, thorough=800)
def ndcg(m):
    """Mean over the groups of at least two items; the group key is any column of any name and type."""
    r = m.rng
    G = int(r.integers(1, 6))
    avg = m.chance(0.5)
    k = m.pick(None, None, 1, 2, 3, 10)
    key = m.pick("example_id", "query_id", "g")
    names = m.pick(True, False)
    rows, want = [], []
    for g in range(G):
        n = int(r.integers(1, 9))
        rel = r.integers(0, 4, n).astype(float)
        s = r.integers(0, 3, n).astype(float) if avg and m.chance(0.7) else r.permutation(n) / 7.0
        rows += [(f"q{g}" if names else g, a, b) for a, b in zip(rel, s)]
        if n > 1:
            best = dcg(rel, rel, k, False)
            want.append(dcg(rel, s, k, avg) / best if best > 0 else 0.0)
    if not want:
        raise Inconclusive("every group has one item")
    rows = [rows[i] for i in r.permutation(len(rows))]
    m.seen("avg" if avg else "seq", k, key)
    m.note(rows=rows, k=k, avg=avg, key=key)
    df = frame(r, {key: [x[0] for x in rows], "rel": [x[1] for x in rows], "s": [x[2] for x in rows]}, layout="one")
    out = m.call("ndcg", lambda: calculate_ndcg(df, "rel", "s", key, k=k, ignore_ties=avg))
    m.close(out.item(), float(np.mean(want)), "ndcg:value", 1e-9, 1e-9)


@case("P10", quick=1, thorough=12)
def long(m):
    """Counts of positives and negatives that leave 16 bits, and their product 32 bits."""
    r = m.rng
    n = int(m.pick(140_000, 200_000))
    y = (r.random(n) < m.pick(0.02, 0.5, 0.95)).astype(int)
    p = r.random(n) * 0.8 + 0.2 * y if m.chance(0.5) else r.integers(0, 4, n) / 4
    if m.chance(0.3):
        p = np.round(p, 2)
    df = frame(r, {"y": pl.Series("y", y, dtype=m.pick(pl.Int64, pl.UInt8)), "p": p})
    m.note(n=n, y=y[:30], p=p[:30])
    m.seen("long", len(np.unique(p)) > 1000)
    P, N = int(y.sum()), n - int(y.sum())
    ts, inv = np.unique(p, return_inverse=True)
    tp = np.bincount(inv, weights=y, minlength=len(ts))[::-1].cumsum()[::-1]
    fp = np.bincount(inv, weights=1 - y, minlength=len(ts))[::-1].cumsum()[::-1]
    nxt_t, nxt_f = np.append(tp[1:], 0), np.append(fp[1:], 0)
    auc_ = float(((fp - nxt_f) * (tp + nxt_t) / 2).sum() / (P * N))
    ap_ = float(((tp - nxt_t) / P * tp / (tp + fp)).sum())
    got = ev_scalar(m, df, pds.query_roc_auc("y", "p"), "roc_auc", ctxs=("select", "lazy"))
    m.close(got, auc_, "auc:long", 1e-9, 1e-9)
    got = ev_scalar(m, df, pds.query_binary_metrics("y", "p", threshold=0.5), "binary_metrics", ctxs=("select", "lazy"))
    sel = p >= 0.5
    m.close([got["roc_auc"], got["average_precision"], got["precision"], got["recall"]], [auc_, ap_, float(y[sel].mean()), float(y[sel].sum() / P)], "binary_metrics:long", 1e-9, 1e-9)
    c = m.call("tpr_fpr", lambda: df.select(r=pds.query_tpr_fpr("y", "p"))["r"].struct.unnest())
    m.close(c["threshold"], ts, "tpr_fpr:long-thresholds", 0, 0)
    m.close(c["tpr"], tp / P, "tpr_fpr:long-tpr", 1e-12, 1e-12)
    m.close(c["fpr"], fp / N, "tpr_fpr:long-fpr", 1e-12, 1e-12)
    t = p > 0.5
    cm = ev_scalar(m, df, pds.query_confusion_matrix("y", "p", threshold=0.5), "confusion_matrix", ctxs=("select", "lazy"))
    want = dict(tp=int((y & t).sum()), tn=int(((1 - y) & ~t).sum()), fp=int(((1 - y) & t).sum()), fn=int((y & ~t).sum()))
    m.eq({k: cm[k] for k in want}, want, "confusion_matrix:long")
