"""P14: substring-set similarities, nearest strings and vocabulary matching equal their definitions."""
import math
import polars as pl
import polars_ds as pds
from pdsmon.core import case
from pdsmon.gen import frame, series, ev_scalar, rand_words
from pdsmon import strref as R
from .p13_editdist import two, judge, words, mutate


def div(x, y):
    return x / y if y else math.nan


@case("P14", quick=300, thorough=5000)
def set_similarity(m):
    df, other, a, b = two(m, long_ok=m.chance(0.2))
    par = m.chance(0.4)
    k = int(m.pick(1, 2, 2, 3, 5))
    which = m.pick("jaccard", "dice", "overlap", "tversky")
    m.seen(which, k, par)
    m.note(k=k, which=which)
    def parts(x, y):
        s, t = R.grams(x, k), R.grams(y, k)
        return len(s), len(t), len(s & t)
    if which == "jaccard":
        fn = lambda x, y: (lambda s, t, i: div(i, s + t - i))(*parts(x, y))
        e = pds.str_jaccard("a", other, substr_size=k, parallel=par)
    elif which == "dice":
        fn = lambda x, y: (lambda s, t, i: div(2 * i, s + t))(*parts(x, y))
        e = pds.str_sorensen_dice("a", other, substr_size=k, parallel=par)
    elif which == "overlap":
        from polars_ds.exprs.string import str_overlap_coeff
        fn = lambda x, y: (lambda s, t, i: div(i, min(s, t)))(*parts(x, y))
        e = str_overlap_coeff("a", other, substr_size=k, parallel=par)
    else:
        al, be = float(m.pick(0.0, 0.5, 1.0, 2.0)), float(m.pick(0.0, 0.3, 1.0))
        m.note(al=al, be=be)
        fn = lambda x, y: (lambda s, t, i: div(i, i + al * (s - i) + be * (t - i)))(*parts(x, y))
        e = pds.str_tversky_sim("a", other, alpha=al, beta=be, substr_size=k, parallel=par)
    judge(m, df, e, which, a, b, fn, pl.Float64)


@case("P14", quick=250, thorough=4000)
def nearest(m):
    r = m.rng
    n = int(m.pick(1, 2, 5, 20))
    metric = m.pick("lv", "hamming")
    w = words(m, 1, "short" if m.chance(0.8) else "long")[0]
    vals = [(w if m.chance(0.1) else mutate(m, w)) if r.random() < 0.7 else x for x in words(m, n, "short")]
    vals = [None if r.random() < 0.2 else x for x in vals]
    thr = int(m.pick(1, 2, 3, 100))
    s = series(r, "a", vals, pl.String)
    df = frame(r, {"a": s})
    if m.chance(0.5):
        mask = pl.Series("k", [x is None for x in vals])
        df = df.with_columns(a=pl.when(~mask).then(pl.col("a").fill_null(w)).otherwise(None))
    m.note(vals=vals, w=w, thr=thr, metric=metric)
    got = ev_scalar(m, df, pds.str_nearest("a", w, threshold=thr, metric=metric), "nearest")
    f = R.leven if metric == "lv" else R.hamming
    ds = [f(x, w) for x in vals if x is not None]
    ds = [d for d in ds if d is not None and d <= thr]
    m.seen("nearest", metric, "hit" if ds else "none", "exact" if 0 in ds else "")
    if not ds:
        m.eq(got, None, "nearest:none", f"{vals} {w!r}")
    else:
        m.ok(got in [v for v in vals if v is not None], "nearest:member", lambda: f"{got!r} of {vals}")
        m.eq(f(got, w), min(ds), "nearest:distance", f"{got!r} for {w!r} of {vals}")


@case("P14", quick=150, thorough=2000)
def vocabulary(m):
    r = m.rng
    n = int(m.pick(1, 4, 15))
    a = words(m, n, "short")
    a = [None if r.random() < 0.15 else x for x in a]
    vocab = [mutate(m, x or "ab") for x in words(m, int(m.pick(1, 2, 4)), "short")]
    metric, strat = m.pick("lv", "dlv", "osa", "jw"), m.pick("avg", "all", "any")
    thr = float(m.pick(0.25, 0.5, 0.6123, 0.8, 1.0))
    m.seen(metric, strat)
    m.note(a=a, vocab=vocab, thr=thr, metric=metric, strat=strat)
    df = frame(r, {"a": series(r, "a", a, pl.String)}, layout="one")
    sim = {"lv": lambda x, y: R.norm_sim(R.leven(x, y), x, y), "dlv": lambda x, y: R.norm_sim(R.dleven(x, y), x, y),
           "osa": lambda x, y: R.norm_sim(R.osa(x, y), x, y), "jw": lambda x, y: R.jw(x, y, 0.1)}[metric]
    got = m.call("vocab", lambda: df.select(r=pds.similar_to_vocab("a", vocab, thr, metric, strat))["r"].to_list())
    m.eq(len(got), n, "vocab:length")
    for x, g in zip(a, got):
        if x is None:
            m.ok(not g, "vocab:null")
            continue
        s = [sim(x, y) for y in vocab]
        v = {"avg": sum(s) / len(s), "all": min(s), "any": max(s)}[strat]
        if abs(v - thr) < 1e-9 and not (v == thr == 1.0 and strat != "avg"):
            continue
        m.eq(g, v >= thr - 1e-12, "vocab:value", f"{x!r} {vocab} {s} {thr}")
