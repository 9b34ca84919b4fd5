"""P15: text cleaning, case conversion, stemming, tokens and number extraction equal their definitions."""
import re
import unicodedata
import warnings
import polars as pl
import polars_ds as pds
from pdsmon.core import case
from pdsmon.gen import frame, series, ev_rows
from pdsmon import porter2

STOP = set("""
a about above after again against ain all am an and any are aren aren't as at be because been before being
below between both but by can couldn couldn't d did didn didn't do does doesn doesn't doing don don't down
during each few for from further had hadn hadn't has hasn hasn't have haven haven't having he her here hers
herself him himself his how i if in into is isn isn't it it's its itself just ll m ma me mightn mightn't more
most mustn mustn't my myself needn needn't no nor not now o of off on once only or other our ours ourselves
out over own re s same shan shan't she she's should should've shouldn shouldn't so some such t than that
that'll the their theirs them themselves then there these they this those through to too under until up ve
very was wasn wasn't we were weren weren't what when where which while who whom why will with won't wouldn
wouldn't y you you'd you'll you're you've your yours yourself yourselves
""".split())
ROOTS = ("gener commun arsen cat hop hopp happ fall rat yell sky b be at bl oyster troubl beauti relat condition digit oper sens "
         "hope form electri good adopt prob cease contro ind nation infin").split() + list(porter2.EXC1) + list(porter2.EXC2) + list(porter2.INV)
SUF = list(porter2.S2) + list(porter2.S3) + porter2.S4 + "ed ing ly edly eed eedly ingly s es ies ied sses us ss ' 's y e ll l".split()
CHARS = {
    "latin": list("abcXYZ 09éèüñçøßÅĤŇƏ"),
    "combining": list("aeo") + ["\u0301", "\u0308", "\u0327", "e\u0301", "ﬁ", "①", "Å", "Å", "½", "ﬀ"],
    "cjk": list("日本語한글가각힣ｱﾞ全角ＡＢ") + ["\u1100", "\u1161", "\u11a8"],
    "ascii": list("ab cd_-.,!?$%"),
    "emoji": list("a😀👍🏽é") + ["\u200d"],
    "control": list("ab ") + ["\x00", "\x7f", "\x1f", "\x80", "\x9f", "\ufeff", "\u00ad", "\n"],
    "singleton": ["\u212b", "\u2126", "\u0958", "\ufb1d", "\u0344", "\u1e9b", "\u0323", "\u0340", "\u2000", "\uf900", "a"],
}
WS = [" ", "  ", "\t", "\n", "\r\n", "\u3000", "\u00a0", "\u2009"]


def judge(m, df, expr, name, a, fn, dtype=pl.String):
    idx, got, dt = ev_rows(m, df, expr, name)
    m.eq(dt, dtype, name + ":dtype")
    m.eq(m.call(name + ":schema", lambda: df.lazy().select(__r=expr).collect_schema()["__r"]), dtype, name + ":schema")
    for i, g in zip(idx, got):
        m.eq(g, None if a[i] is None else fn(a[i]), name + ":value", f"for {a[i]!r}")


def column(m, vals):
    r = m.rng
    vals = [None if r.random() < 0.15 else v for v in vals]
    df = frame(r, {"a": series(r, "a", vals, pl.String)})
    if m.chance(0.3) and vals:
        mask = pl.Series("k", [x is None for x in vals])
        df = df.with_columns(a=pl.when(~mask).then(pl.col("a").fill_null("gärbage 12 running")).otherwise(None))
    m.note(vals=vals)
    return df, vals


def size(m):
    return int(m.pick(0, 1, 2, 6, 25))


def text(m, pool, lo=0, hi=12):
    return "".join(m.rng.choice(pool, int(m.rng.integers(lo, hi + 1))))


@case("P15", quick=250, thorough=4000)
def cleaning(m):
    kind = m.pick(*CHARS)
    df, a = column(m, [text(m, CHARS[kind], hi=int(m.pick(12, 12, 2, 1))) for _ in range(size(m))])
    which = m.pick("ascii", "replace", "diacritics", "normalize")
    m.seen(which, kind)
    if which == "ascii":
        judge(m, df, pds.replace_non_ascii("a"), which, a, lambda s: "".join(c for c in s if ord(c) < 128))
    elif which == "replace":
        v = m.pick("?", "<x>", "é", "ab")
        judge(m, df, pds.replace_non_ascii("a", v), which, a, lambda s: "".join(c if ord(c) < 128 else v for c in s))
    elif which == "diacritics":
        judge(m, df, pds.remove_diacritics("a"), which, a,
              lambda s: "".join(c for c in unicodedata.normalize("NFD", s) if ord(c) < 128))
    else:
        form = m.pick("NFC", "NFKC", "NFD", "NFKD")
        m.seen(form)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            e = pds.normalize_string("a", form)
        judge(m, df, e, which, a, lambda s: unicodedata.normalize(form, s))


@case("P15", quick=150, thorough=2500)
def whitespace_and_words(m):
    r = m.rng
    vocab = ["one", "two", "three", "é", "a-b", "Two", "1"]
    def sentence():
        out = m.pick("", "", m.pick(*WS))
        for _ in range(int(r.integers(0, 6))):
            out += m.pick(*vocab) + m.pick(*WS)
        return out.rstrip() if m.chance(0.5) else out
    df, a = column(m, [sentence() for _ in range(size(m))])
    which = m.pick("map", "ws", "spaces")
    m.seen(which)
    if which == "map":
        mp = {k: str(r.choice(["", "x", "two", "long er"])) for k in vocab if m.chance(0.5)}
        m.note(mp=mp)
        judge(m, df, pds.map_words("a", mp), which, a, lambda s: " ".join(mp.get(w, w) for w in s.split()))
    elif which == "ws":
        judge(m, df, pds.normalize_whitespace("a"), which, a, lambda s: " ".join(s.split()))
    else:
        judge(m, df, pds.normalize_whitespace("a", only_spaces=True), which, a, lambda s: re.sub(" +", " ", s))


@case("P15", quick=150, thorough=2500)
def cases(m):
    r = m.rng
    styles = {
        "snake": lambda w: "_".join(w), "constant": lambda w: "_".join(x.upper() for x in w), "kebab": lambda w: "-".join(w),
        "title": lambda w: " ".join(x.capitalize() for x in w), "sentence": lambda w: " ".join(w),
        "camel": lambda w: "".join(x if i == 0 else x.capitalize() for i, x in enumerate(w)),
        "pascal": lambda w: "".join(x.capitalize() for x in w),
    }
    pool = list("abcdexyz") if m.chance(0.7) else list("aéüñøb")
    words = [[text(m, pool, 2, 6) for _ in range(int(r.integers(1, 5)))] for _ in range(size(m))]
    src = [m.pick(*styles) for _ in words]
    df, a = column(m, [styles[s](w) for s, w in zip(src, words)])
    back = {styles[s](w): w for s, w in zip(src, words)}
    if len(back) < len(words):
        back.update({styles[s](w): w for s, w in zip(src, words)})
    tgt = m.pick("snake", "camel", "pascal", "constant")
    m.seen(tgt, *sorted(set(src))[:2])
    e = {"snake": pds.to_snake_case, "camel": pds.to_camel_case, "pascal": pds.to_pascal_case, "constant": pds.to_constant_case}[tgt]("a")
    judge(m, df, e, "to_" + tgt, a, lambda s: styles[tgt](back[s]))


@case("P15", quick=200, thorough=4000)
def stemming(m):
    r = m.rng
    def word():
        k = r.random()
        if k < 0.12:
            return m.pick(*sorted(STOP))
        if k < 0.25:
            return m.pick("1", "-3.5", "1e9", "12", ".5", "inf", "nan", "infinity", "1,000", "", "a", "ab", "+7")
        if k < 0.6:
            return m.pick(*ROOTS) + "".join(m.pick(*SUF) for _ in range(int(r.integers(0, 4))))
        return text(m, list("aeioubcdlmnrstyygwx'"), 0, 7) + "".join(m.pick(*SUF) for _ in range(int(r.integers(0, 3))))
    df, a = column(m, [word() for _ in range(int(m.pick(0, 1, 5, 40)))])
    no_stop = m.chance(0.5)
    def number(w):
        return re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", w) is not None
    def want(w):
        return "" if number(w) or (no_stop and w in STOP) else porter2.stem(w)
    if m.chance(0.8):
        m.seen("stem", no_stop)
        judge(m, df, pds.str_snowball("a", no_stopwords=no_stop), "snowball", a, want)
    else:
        m.seen("is_stopword")
        judge(m, df, pds.is_stopword("a"), "is_stopword", a, lambda w: w in STOP, pl.Boolean)


@case("P15", quick=100, thorough=1500)
def tokens(m):
    r = m.rng
    pool = ["the", "cats", "cat", "running", "run", "runs", "a", "12", "é", "naïve", "x1", "of", "hopes", "hope", "infinity"]
    df, a = column(m, [m.pick("", " ", "...") + m.pick(" ", ", ", "-", "\n").join(m.pick(*pool) for _ in range(int(r.integers(0, 7))))
                       for _ in range(size(m))])
    df = df.rechunk()
    stem = m.chance(0.5)
    pat = m.pick(None, r"[a-z]+", r"\d+")
    kw = {} if pat is None else {"pattern": pat}
    m.seen("tokens", stem, str(pat))
    m.note(stem=stem, pat=pat)
    rx = re.compile(pat or r"\b\w\w+\b")
    def want(s):
        t = rx.findall(s)
        if not stem:
            return t
        out = []
        for w in t:
            x = "" if (re.fullmatch(r"\d+", w) or w in STOP) else porter2.stem(w)
            if x and x not in out:
                out.append(x)
        return out
    got = m.call("tokenize", lambda: df.select(r=pds.str_tokenize("a", stem=stem, **kw))["r"].to_list())
    for s, g in zip(a, got):
        w = None if s is None else want(s)
        m.eq(sorted(g) if stem and g is not None else g, sorted(w) if stem and w is not None else w, "tokenize:value", repr(s))


@case("P15", quick=100, thorough=1500)
def numbers(m):
    r = m.rng
    dt = m.pick(pl.String, pl.String, pl.Float64, pl.Int64, pl.UInt32)
    comma = m.chance(0.5)
    if dt in (pl.Int64, pl.UInt32):
        pool = ["1", "25%", "x7y", "time", "075", "99 "] + (["1,000"] if comma else [])
    else:
        pool = ["1", "25%", "3.5", ".75", "a", "1.2.3", "-4", "7.", "1,000", "1,234.5"]
    df, a = column(m, [" ".join(m.pick(*pool) for _ in range(int(r.integers(0, 5)))) for _ in range(size(m))])
    join = m.pick("", "-", ", ") if dt == pl.String else ""
    m.seen(str(dt), comma, bool(join))
    m.note(dt=str(dt), comma=comma, join=join)
    def want(s):
        if comma:
            s = s.replace(",", "")
        t = re.findall(r"\d*\.?\d+", s)
        if dt == pl.String:
            return join.join(t) if join else t
        return [float(x) if dt == pl.Float64 else int(x) for x in t]
    judge(m, df.rechunk(), pds.extract_numbers("a", ignore_comma=comma, join_by=join, dtype=dt), "numbers", a, want,
          pl.String if join else pl.List(dt))
