"""P13: edit distances and their similarities equal their definitions, row by row, in every context."""
import numpy as np
import polars as pl
import polars_ds as pds
from pdsmon.core import case
from pdsmon.gen import frame, series, ev_rows, rand_words
from pdsmon import strref as R

ALPHAS = ["ab", "abc", "abcdefghij", "ab é", "äöüßñ", "日本語中文", "a😀b👍c", "e\u0301a\u0300", "AaBb ", "\x00a\n\t"]


def words(m, n, kind=None):
    r = m.rng
    al = list(m.pick(*ALPHAS))
    kind = kind or m.pick("short", "short", "short", "mixed", "long", "long" if m.chance(0.3) else "short")
    m.seen("kind", kind)

    def rnd(lo, hi):
        return "".join(r.choice(al, int(r.integers(lo, hi + 1))))
    if kind == "short":
        out = [rnd(0, 6) for _ in range(n)]
    elif kind == "mixed":
        out = [rnd(0, int(r.choice([2, 12, 30]))) for _ in range(n)]
    else:
        # around the block sizes of the bit-parallel kernels
        out = [rnd(*r.choice([[60, 66], [126, 130], [30, 70], [0, 5]])) for _ in range(n)]
    return out


def mutate(m, s):
    """a string a few edits away"""
    r = m.rng
    t = list(s)
    only = r.random() < 0.25
    for _ in range(1 if only else int(r.integers(0, 5))):
        k = 4 if only else int(r.integers(0, 5))
        i = int(r.integers(0, len(t) + 1))
        if k == 0:
            t.insert(i, str(r.choice(list("abé日"))))
        elif k == 1 and t:
            del t[min(i, len(t) - 1)]
        elif k == 2 and len(t) > 1:
            i = min(i, len(t) - 2)
            t[i], t[i + 1] = t[i + 1], t[i]
        elif k == 4 and len(t) > 1:      # neighbours exchanged and something put between them
            i = min(i, len(t) - 2)
            t[i:i + 2] = [t[i + 1]] + [str(r.choice(list("abé日")))] * int(r.integers(1, 3)) + [t[i]]
        elif t:
            t[min(i, len(t) - 1)] = str(r.choice(list("abé日")))
    return "".join(t)


def two(m, long_ok=True):
    """(df, expression for the other side, left values, right values)"""
    r = m.rng
    n = int(m.pick(0, 1, 1, 2, 5, 9, 30))
    kind = None if long_ok else "short"
    a = words(m, n, kind)
    if any(len(x) > 100 for x in a):
        a = a[:4]
        n = len(a)
    b = [mutate(m, x) if r.random() < 0.6 else y for x, y in zip(a, words(m, n, kind))]
    nulls = m.pick(0.0, 0.0, 0.3, 0.9)
    a = [None if r.random() < nulls else x for x in a]
    b = [None if r.random() < nulls else x for x in b]
    mode = m.pick("column", "column", "literal", "null literal" if m.chance(0.2) else "literal")
    m.seen("other", mode, "n", min(n, 2), "nulls", nulls > 0)
    df = frame(r, {"a": series(r, "a", a, pl.String), "b": series(r, "b", b, pl.String)})
    if m.chance(0.3) and n:
        # the slots behind nulls hold text
        mask = pl.Series("k", [x is None for x in a])
        df = df.with_columns(a=pl.when(~mask).then(pl.col("a").fill_null("garbage")).otherwise(None))
    if mode == "column":
        other, rb = ("b" if m.chance(0.5) else pl.col("b")), b
    elif mode == "null literal":
        other, rb = pl.lit(None, dtype=pl.String), [None] * n
    else:
        w = mutate(m, a[0]) if n and a[0] is not None and m.chance(0.7) else words(m, 1, kind)[0]
        other, rb = pl.lit(w), [w] * n
    m.note(a=a, b=rb, mode=mode)
    return df, other, a, rb


def judge(m, df, expr, name, a, b, fn, dtype, rtol=1e-12):
    idx, got, dt = ev_rows(m, df, expr, name)
    m.eq(dt, dtype, name + ":dtype")
    sch = m.call(name + ":schema", lambda: df.lazy().select(__r=expr).collect_schema()["__r"])
    m.eq(sch, dtype, name + ":schema")
    for i, g in zip(idx, got):
        w = None if a[i] is None or b[i] is None else fn(a[i], b[i])
        if isinstance(w, float):
            m.close(g, w, name + ":value", rtol, 1e-12, detail=f"{a[i]!r} {b[i]!r}")
        else:
            m.eq(g, w, name + ":value", f"{a[i]!r} {b[i]!r}")


@case("P13", quick=400, thorough=6000)
def distances(m):
    df, other, a, b = two(m)
    par = m.chance(0.4)
    which = m.pick("leven", "d_leven", "osa", "lcs")
    m.seen(which, "par", par)
    f, d = {"leven": (pds.str_leven, R.leven), "d_leven": (pds.str_d_leven, R.dleven), "osa": (pds.str_osa, R.osa),
            "lcs": (pds.str_lcs_seq, lambda x, y: max(len(x), len(y)) - R.lcs(x, y))}[which]
    if m.chance(0.5):
        judge(m, df, f("a", other, parallel=par, return_sim=False), which, a, b, d, pl.UInt32)
    else:
        judge(m, df, f("a", other, parallel=par, return_sim=True), which + "_sim", a, b,
              lambda x, y: float(R.norm_sim(d(x, y), x, y)), pl.Float64)


@case("P13", quick=200, thorough=3000)
def hamming(m):
    df, other, a, b = two(m)
    par, pad = m.chance(0.4), m.chance(0.5)
    m.seen("pad", pad, par)
    judge(m, df, pds.str_hamming("a", other, pad=pad, parallel=par), "hamming", a, b,
          lambda x, y: R.hamming(x, y, pad), pl.UInt32)


@case("P13", quick=200, thorough=3000)
def filters(m):
    df, other, a, b = two(m)
    par = m.chance(0.4)
    bound = int(m.pick(0, 1, 2, 3, 5, 10, 64, 200))
    m.note(bound=bound)
    if m.chance(0.5):
        m.seen("leven", min(bound, 4))
        judge(m, df, pds.filter_by_levenshtein("a", other, bound, parallel=par), "filter_leven", a, b,
              lambda x, y: R.leven(x, y) <= bound, pl.Boolean)
    else:
        m.seen("hamming", min(bound, 4))
        judge(m, df, pds.filter_by_hamming("a", other, bound, parallel=par), "filter_hamming", a, b,
              lambda x, y: len(x) == len(y) and R.hamming(x, y) <= bound, pl.Boolean)


@case("P13", quick=200, thorough=3000)
def jaro_family(m):
    df, other, a, b = two(m)
    par = m.chance(0.4)
    which = m.pick("jaro", "jw", "jw", "fuzz")
    m.seen(which, par)
    if which == "jaro":
        judge(m, df, pds.str_jaro("a", other, parallel=par), which, a, b, R.jaro, pl.Float64, 1e-9)
    elif which == "jw":
        w = float(m.pick(0.1, 0.1, 0.0, 0.05, 0.2, 0.25))
        judge(m, df, pds.str_jw("a", other, weight=w, parallel=par), which, a, b, lambda x, y: R.jw(x, y, w), pl.Float64, 1e-9)
    else:
        judge(m, df, pds.str_fuzz("a", other, parallel=par), which, a, b, lambda x, y: float(R.ratio(x, y)), pl.Float64, 1e-9)


@case("P13", quick=6, thorough=60)
def many_rows(m):
    """enough rows for every thread of a parallel evaluation to own a slice"""
    r = m.rng
    n = int(m.pick(100, 1001, 4097))
    a, b = rand_words(r, n, "abc", 0, 6, 0.1), rand_words(r, n, "abc", 0, 6, 0.1)
    df = frame(r, {"a": series(r, "a", a, pl.String), "b": series(r, "b", b, pl.String)})
    m.note(n=n, a=a[:20])
    lit = m.chance(0.5)
    other, rb = (pl.lit("abcab"), ["abcab"] * n) if lit else ("b", b)
    for name, e, fn, dt in [
            ("leven", pds.str_leven("a", other, parallel=True), R.leven, pl.UInt32),
            ("osa", pds.str_osa("a", other, parallel=True), R.osa, pl.UInt32),
            ("hamming", pds.str_hamming("a", other, parallel=True), R.hamming, pl.UInt32),
            ("hamming_pad", pds.str_hamming("a", other, pad=True, parallel=True), lambda x, y: R.hamming(x, y, True), pl.UInt32),
            ("filter", pds.filter_by_levenshtein("a", other, 2, parallel=True), lambda x, y: R.leven(x, y) <= 2, pl.Boolean),
            ("hfilter", pds.filter_by_hamming("a", other, 2, parallel=True), lambda x, y: len(x) == len(y) and R.hamming(x, y) <= 2, pl.Boolean),
            ("jw", pds.str_jw("a", other, parallel=True), lambda x, y: R.jw(x, y, 0.1), pl.Float64)]:
        judge(m, df, e, name, a, rb, fn, dt, 1e-9)
