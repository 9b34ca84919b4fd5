"""Random data pipelines with a plain-Python reference of every step.

A state is an ordered dict  name -> Col(kind, values)  with kind in float, int, bool, str; values are Python
values with None for null. A step is generated against the current training state and gives
(what to do to the Blueprint, function of a state -> state). Parameters are learned from the training state."""
import math
from collections import Counter
from itertools import combinations_with_replacement
import numpy as np
import polars as pl
import polars.selectors as cs


class Col:
    def __init__(self, kind, v, f32=False):
        self.kind, self.v, self.f32 = kind, list(v), f32

    def __repr__(self):
        return f"{self.kind}{self.v}"


CATS = ["a", "b", "c", "dd", "é", "", "z z"]


def make_state(m, n, names, y):
    r = m.rng
    nul = lambda v, p: [None if r.random() < p else x for x in v]
    p = m.pick(0, 0.15, 0.4)
    S = {}
    for i in range(names["f"]):
        v = r.normal(size=n) * 10.0 ** int(r.integers(-1, 3)) + r.choice([0, 5, -20])
        v = [float(x) for x in v]
        if names["nan"] and i == 0:
            v = [math.nan if r.random() < 0.2 else x for x in v]
        S[f"F{i}"] = Col("float", nul(v, p if i != 1 else 0))
    for i in range(names["i"]):
        S[f"I{i}"] = Col("int", nul([int(x) for x in r.integers(-5, 6, n)], p if i else 0))
    for i in range(names["b"]):
        S[f"B{i}"] = Col("bool", nul([bool(x) for x in r.random(n) < 0.5], p))
    for i in range(names["s"]):
        S[f"S{i}"] = Col("str", nul([CATS[x] for x in r.integers(0, names["k"], n)], p))
    if y:
        t = (r.random(n) < 0.5).astype(int)
        if n >= 2:
            t[:2] = [0, 1]
        S["Yt"] = Col("int", t.tolist())
    return S


def to_df(S):
    T = {"float": pl.Float64, "int": pl.Int64, "bool": pl.Boolean, "str": pl.String}
    return pl.DataFrame([pl.Series(c, x.v, dtype=T[x.kind]) for c, x in S.items()])


def nn(v):
    return [x for x in v if x is not None]


def num(S, ban=(), nanless=True):
    return [c for c, x in S.items() if c not in ban and x.kind in ("float", "int") and nn(x.v)
            and not (nanless and any(isinstance(t, float) and not math.isfinite(t) for t in nn(x.v)))]


def some(m, l, lo=1):
    k = int(m.rng.integers(min(lo, len(l)), len(l) + 1))
    return [l[i] for i in m.rng.permutation(len(l))[:k]]


def setc(S, c, col):
    S = dict(S)
    S[c] = col
    return S


def mapcol(S, c, f, kind=None, f32=None):
    x = S[c]
    return setc(S, c, Col(kind or x.kind, [None if v is None else f(v) for v in x.v], x.f32 if f32 is None else f32))


def polars_quantile(v, q, how):
    v = sorted(v)
    pos = q * (len(v) - 1)
    lo, hi = math.floor(pos), math.ceil(pos)
    if how == "nearest":
        if abs(pos - lo - 0.5) < 1e-9:
            return None
        return float(v[lo if pos - lo < 0.5 else hi])
    if how == "lower":
        return float(v[lo])
    if how == "higher":
        return float(v[hi])
    if abs(pos - round(pos)) < 1e-9 and abs(pos - round(pos)) > 0 and how != "linear":
        return None
    if how == "midpoint":
        return (v[lo] + v[hi]) / 2
    return v[lo] + (v[hi] - v[lo]) * (pos - lo)


# ---- steps: fn(m, S, T, X) -> (label, dict form or callable, ref) or None
# S: training state, T: state of the unseen data, X: columns protected from column-set steps

def colarg(m, cols, X, S):
    """cols in one of the accepted spellings; protected columns may be named and must be left alone"""
    extra = [c for c in X if c in S and m.chance(0.4)]
    allc = cols + extra
    k = m.pick("names", "names", "expr", "exprs")
    if k == "names":
        return allc
    if k == "expr":
        return pl.col(allc)
    return [pl.col(c) for c in allc]


def call(name, *a, **k):
    return dict(name=name, args=list(a), kwargs=k)


def centre_of(v, method):
    if method == "mean":
        return float(np.mean(v))
    if method == "median":
        return float(np.median(v))
    top = Counter(v).most_common(2)
    return top[0][0] if top and (len(top) == 1 or top[0][1] > top[1][1]) else None


def texts(S, ban=()):
    return [c for c, x in S.items() if c not in ban and x.kind == "str" and nn(x.v)]


def impute(m, S, T, X):
    how = m.pick("mean", "median", "mode")
    cols = num(S, X) + (texts(S, X) if how == "mode" else [])
    if not cols:
        return
    cols = some(m, cols)
    par = {c: centre_of(nn(S[c].v), how) for c in cols}
    if any(v is None for v in par.values()):
        return

    def ref(S):
        for c in cols:
            x = S[c]
            S = setc(S, c, Col("float" if how != "mode" else x.kind, [par[c] if v is None else v for v in x.v], x.f32))
        return S
    return "impute " + how, call("impute", colarg(m, cols, X, S), method=how), ref


def conditional_impute(m, S, T, X):
    cols = texts(S, X)
    if cols and m.chance(0.25):
        c, how = m.pick(*cols), "mode"
        word = m.pick(*nn(S[c].v))
        null = m.chance(0.5)
        rule = pl.col(c) == word
        rule = (rule | pl.col(c).is_null()) if null else rule
        if not null and m.chance(0.5) and word.isalnum():
            rule = f"\"{c}\" = '{word}'"
        par = centre_of([x for x in S[c].v if x != word and x is not None], how)
        if par is None:
            return
        return "conditional mode text", call("conditional_impute", {c: rule}, method=how), \
            lambda S: setc(S, c, Col("str", [par if x == word or null and x is None else x for x in S[c].v]))
    cols = num(S, X)
    if not cols:
        return
    if m.chance(0.35):
        return conditional_on_others(m, S, cols)
    c = m.pick(*cols)
    v = nn(S[c].v)
    thr = float(np.quantile(v, m.pick(0.3, 0.7))) + 0.123456
    if min(abs(t - thr) for t in v) < 1e-6:
        return
    how = m.pick("mean", "median", "mode")
    kind = m.pick("gt", "lt", "null")
    hit = {"gt": lambda x: None if x is None else x > thr, "lt": lambda x: None if x is None else x < thr,
           "null": lambda x: x is None or x > thr}[kind]
    rule = {"gt": pl.col(c) > thr, "lt": pl.col(c) < thr, "null": pl.col(c).is_null() | (pl.col(c) > thr)}[kind]
    if kind != "null" and m.chance(0.5) and S[c].kind == "float":
        rule = f'"{c}" {">" if kind == "gt" else "<"} {thr!r}'
        if "e" in repr(thr):
            return
    learn = [x for x in S[c].v if hit(x) is False]
    if not learn:
        return
    par = centre_of(learn, how)
    if par is None:
        return
    k2 = "float" if how != "mode" else S[c].kind
    return "conditional " + how, call("conditional_impute", {c: rule}, method=how), \
        lambda S: setc(S, c, Col(k2, [par if hit(x) else x for x in S[c].v], S[c].f32))


def conditional_on_others(m, S, cols):
    """one or more columns at once, each replaced where a rule about any column of the table holds"""
    how = m.pick("mean", "median", "mode")
    rules, hits, par = {}, {}, {}
    for c in some(m, cols)[:3]:
        d = m.pick(*S)
        x = S[d]
        if x.kind == "bool":
            rule, hit = pl.col(d), lambda t: t
        elif x.kind == "str":
            word = m.pick(*CATS[:4])
            rule, hit = pl.col(d) == word, lambda t, w=word: None if t is None else t == w
        elif x.kind == "int":
            thr = int(m.rng.integers(-4, 4))
            rule, hit = pl.col(d) > thr, lambda t, w=thr: None if t is None else t > w
            if m.chance(0.4):
                rule = f'"{d}" > {thr}'
        else:
            rule, hit = pl.col(d).is_nan(), lambda t: None if t is None else math.isnan(t)
        if m.chance(0.2):
            rule, hit = pl.col(d).is_null(), lambda t: t is None
        learn = [a for a, b in zip(S[c].v, x.v) if hit(b) is False and a is not None]
        if not learn:
            return
        v = centre_of(learn, how)
        if v is None:
            return
        rules[c], hits[c], par[c] = rule, (d, hit), v

    def ref(S):
        out = dict(S)
        for c, (d, hit) in hits.items():
            k = "float" if how != "mode" else S[c].kind
            out[c] = Col(k, [par[c] if hit(b) is True else a for a, b in zip(S[c].v, S[d].v)], S[c].f32)
        return out
    return f"conditional others {how} {len(rules)}", call("conditional_impute", rules, method=how), ref


def nan_to_null(m, S, T, X):
    def ref(S):
        for c, x in S.items():
            if x.kind == "float":
                S = setc(S, c, Col("float", [None if v is None or math.isnan(v) else v for v in x.v], x.f32))
        return S
    return "nan_to_null", call("nan_to_null"), ref


def int_to_float(m, S, T, X):
    f32 = m.chance(0.3)

    def ref(S):
        for c, x in S.items():
            if x.kind == "int":
                S = setc(S, c, Col("float", x.v, f32))
        return S
    return "int_to_float", call("int_to_float", f32=f32), ref


def cast_bools(m, S, T, X):
    to = m.pick(pl.UInt8, pl.Int64, pl.Float64)
    k = "float" if to == pl.Float64 else "int"
    if k == "int":
        to = pl.Int64

    def ref(S):
        for c, x in list(S.items()):
            if x.kind == "bool":
                S = mapcol(S, c, int, k)
        return S
    return "cast_bools", call("cast_bools", to), ref


def linear_impute(m, S, T, X):
    ok = [c for c in num(S, X) if None not in S[c].v and None not in T[c].v]
    tgt = [c for c in num(S) if S[c].kind == "float" and c not in ok]
    if len(ok) < 1 or not tgt:
        return
    feats, t, bias = some(m, ok)[:3], m.pick(*tgt), m.chance(0.5)
    A = np.array([S[c].v for c in feats], float).T
    if bias:
        A = np.column_stack([A, np.ones(len(A))])
    keep = np.array([x is not None for x in S[t].v])
    if keep.sum() < A.shape[1] + 3 or np.linalg.cond(A[keep]) > 1e4:
        return
    beta = np.linalg.lstsq(A[keep], np.array(nn(S[t].v), float), rcond=None)[0]

    def ref(S):
        B = np.array([S[c].v for c in feats], float).T.reshape(-1, len(feats))
        if bias:
            B = np.column_stack([B, np.ones(len(B))])
        p = B @ beta
        return setc(S, t, Col("float", [float(p[i]) if v is None else v for i, v in enumerate(S[t].v)], S[t].f32))
    return f"linear_impute {bias}", call("linear_impute", colarg(m, feats, X, S), target=t, add_bias=bias), ref


def spread_ok(v):
    return len(v) > 2 and (max(v) - min(v)) > 1e-3 * max(1e-6, max(abs(x) for x in v)) and max(abs(x) for x in v) > 1e-6


def scale(m, S, T, X):
    cols = [c for c in num(S, X) if spread_ok(nn(S[c].v))]
    if not cols:
        return
    cols = some(m, cols)
    how = m.pick("standard", "min_max", "abs_max")
    par = {}
    for c in cols:
        v = np.array(nn(S[c].v), float)
        par[c] = {"standard": (v.mean(), v.std()), "min_max": (v.min(), v.max() - v.min()), "abs_max": (0.0, np.abs(v).max())}[how]

    def ref(S):
        for c in cols:
            a, b = par[c]
            S = mapcol(S, c, lambda x: float((x - a) / b), "float")
        return S
    return "scale " + how, call("scale", colarg(m, cols, X, S), method=how), ref


def robust_scale(m, S, T, X):
    lo, hi = m.pick((0.25, 0.75), (0.1, 0.9), (0.0, 1.0), (0.4, 0.6))
    par = {}
    for c in num(S, X):
        v = nn(S[c].v)
        a, b = polars_quantile(v, lo, "midpoint"), polars_quantile(v, hi, "midpoint")
        if a is not None and b is not None and b - a > 1e-3 * max(abs(x) for x in v):
            par[c] = (a, b)
    if not par:
        return
    cols = some(m, list(par))

    def ref(S):
        for c in cols:
            a, b = par[c]
            S = mapcol(S, c, lambda x: (x - a) / (b - a), "float")
        return S
    return "robust_scale", call("robust_scale", colarg(m, cols, X, S), lo, hi), ref


def center(m, S, T, X):
    cols = num(S, X)
    if not cols:
        return
    cols = some(m, cols)
    par = {c: float(np.mean(nn(S[c].v))) for c in cols}

    def ref(S):
        for c in cols:
            S = mapcol(S, c, lambda x: x - par[c], "float")
        return S
    return "center", call("center", colarg(m, cols, X, S)), ref


def winsorize(m, S, T, X):
    how = m.pick("nearest", "nearest", "lower", "higher", "midpoint", "linear")
    lo, hi = m.pick((0.05, 0.95), (0.2, 0.8), (0.0, 1.0), (0.1, 0.55))
    par = {}
    for c in num(S, X):
        if S[c].kind == "int" and how in ("midpoint", "linear"):
            continue                                   # an integer column keeps its type
        v = nn(S[c].v)
        a, b = polars_quantile(v, lo, how), polars_quantile(v, hi, how)
        if a is not None and b is not None:
            par[c] = (a, b)
    if not par:
        return
    cols = some(m, list(par))

    def ref(S):
        for c in cols:
            a, b = par[c]
            S = mapcol(S, c, lambda x: x if math.isnan(x) else min(max(x, a), b))
        return S
    return "winsorize " + how, call("winsorize", colarg(m, cols, X, S), lo, hi, how), ref


def select(m, S, T, X):
    keep = some(m, list(S), lo=max(1, len(S) - 2))
    return "select", call("select", pl.col(keep) if m.chance(0.5) else [pl.col(c) for c in keep]), lambda S: {c: S[c] for c in keep}


def drop(m, S, T, X):
    cand = [c for c in S if c not in X]
    if len(cand) < 4:
        return
    gone = some(m, cand)[:2]
    arg = m.pick(gone, gone[0], cs.by_name(*gone), [cs.by_name(gone[0])], pl.col(gone[0]), [])
    if isinstance(arg, list):
        gone = gone[:1] if arg and not isinstance(arg[0], str) else (gone if arg else [])
    elif isinstance(arg, str) or not cs.is_selector(arg):
        gone = gone[:1]
    if m.chance(0.2):
        kinds = {"string": ("str",), "boolean": ("bool",), "float": ("float",)}
        k = m.pick(*kinds)
        g2 = [c for c in S if S[c].kind in kinds[k]]
        if len(g2) < len(S) - 3 and not set(g2) & set(X) and not any(c in X for c in g2):
            gone, arg = g2, getattr(cs, k)()
    return "drop " + type(arg).__name__, call("drop", arg), lambda S: {c: x for c, x in S.items() if c not in gone}


def rename(m, S, T, X):
    cand = [c for c in S if c not in X]
    if len(cand) < 2:
        return
    a, b = some(m, cand, 2)[:2]
    k = m.pick("one", "two", "swap", "chain")
    tag = f"_{m.rng.integers(1000)}"
    d = {"one": {a: a + tag}, "two": {a: a + tag, b: b + tag}, "swap": {a: b, b: a}, "chain": {a: b, b: b + tag}}[k]
    if len(cand) > 2 and m.chance(0.5):
        k = "more"
        l = some(m, cand, 3)
        to = [l[i] for i in m.rng.permutation(len(l))]        # a permutation of the names, part of them new
        d = {o: (nw if m.chance(0.7) else nw + tag) for o, nw in zip(l, to)}
        d = {o: d[o] for o in (l[i] for i in m.rng.permutation(len(l)))}

    def ref(S):
        out = dict(S)
        for o, nw in d.items():
            out[nw] = S[o]
        return {c: x for c, x in out.items() if c not in d or c in d.values()}
    return "rename " + k, call("rename", d), ref


def polynomial_features(m, S, T, X):
    cols = [c for c in num(S, X) if max(abs(x) for x in nn(S[c].v)) < 1e4]
    if len(cols) < 2:
        return
    cols, deg, only = some(m, cols, 2)[:3], m.pick(2, 2, 3), m.chance(0.5)
    combs = [c for c in combinations_with_replacement(cols, deg) if not only or len(set(c)) > 1]
    if any("*".join(c) in S for c in combs):
        return

    def ref(S):
        for cb in combs:
            v = []
            for row in zip(*(S[c].v for c in cb)):
                v.append(None if None in row else math.prod(row))
            S = setc(S, "*".join(cb), Col("float" if any(S[c].kind == "float" for c in cb) else "int", v, any(S[c].f32 for c in cb)))
        return S
    return f"poly {deg} {only}", call("polynomial_features", cols, deg, interaction_only=only), ref


def one_hot_encode(m, S, T, X):
    cols = [c for c in S if S[c].kind == "str" and c not in X]
    sel = m.pick("names", "names", "selector")
    if sel == "names":
        cols = some(m, cols)
        if len(cols) < len(S) and m.chance(0.2):
            cols = cols + [m.pick(*[c for c in S if S[c].kind != "str" and c not in X] or cols[:1])]
        cols = list(dict.fromkeys(cols))
    hot = {c: sorted(set(nn(S[c].v))) for c in cols if S[c].kind == "str"}
    hot = {c: u for c, u in hot.items() if len(u) > 1}
    first, sep, dropc = m.chance(0.4), m.pick("_", "__", "="), m.chance(0.6)
    new = [(c, v, c + sep + v) for c in S for cc, u in hot.items() if cc == c for v in u[int(first):]]
    if sel == "names":
        new = [(c, v, c + sep + v) for c in cols if c in hot for v in hot[c][int(first):]]
    if not new or len({x[2] for x in new} | set(S)) < len(new) + len(S):
        return
    arg = cs.string() if sel == "selector" else cols + [c for c in X if c in S and m.chance(0.3)]

    def ref(S):
        for c, v, name in new:
            S = setc(S, name, Col("int", [int(x == v) for x in S[c].v]))
        return {c: x for c, x in S.items() if not (dropc and c in cols)}
    return f"one_hot {sel} {first} {dropc}", call("one_hot_encode", arg, separator=sep, drop_first=first, drop_cols=dropc), ref


def rank_hot_encode(m, S, T, X):
    cols = [c for c in S if S[c].kind == "str" and c not in X]
    if not cols:
        return
    c = m.pick(*cols)
    rank = [CATS[i] for i in m.rng.permutation(len(CATS))][:int(m.pick(2, 3, 5))]
    dropc = m.chance(0.6)
    if any(f"{c}>={v}" in S for v in rank):
        return

    def ref(S):
        for i, v in enumerate(rank):
            if i:
                S = setc(S, f"{c}>={v}", Col("int", [-1 if x not in rank else int(rank.index(x) >= i) for x in S[c].v]))
        return {k: x for k, x in S.items() if not (dropc and k == c)}
    return f"rank_hot {dropc}", call("rank_hot_encode", c, rank, drop_cols=dropc), ref


def encode(m, S, T, X):
    cols = [c for c in S if S[c].kind == "str" and c not in X and nn(S[c].v)]
    tgts = [c for c in S if S[c].kind in ("int", "bool", "float") and set(S[c].v) == {0, 1} and not S[c].f32]
    if not cols or not tgts:
        return
    cols = some(m, cols)
    given = "Yt" if "Yt" in X else "yt" if "yt" in X else "YT" if "YT" in X else None
    tgt = m.pick(*tgts)
    kw = {"target": tgt}
    if given in tgts and m.chance(0.6):
        tgt, kw = given, {}
    which = m.pick("target", "woe", "iv")
    default = m.pick(None, "null", "zero", "mean", 0.25, 3)
    t = [int(x) for x in S[tgt].v]
    d = {None: None, "null": None, "zero": 0.0, "mean": float(np.mean(t))}.get(default, default)
    if S[tgt].kind == "bool" and which != "target":
        return
    if which == "target":
        msl, sm = int(m.pick(1, 5, 20)), float(m.pick(1.0, 10.0))
        kw.update(min_samples_leaf=msl, smoothing=sm)
    maps = {}
    for c in cols:
        tab = {}
        for k, y in zip(S[c].v, t):
            if k is not None:
                g = tab.setdefault(k, [0, 0])
                g[0] += y
                g[1] += 1
        G, B = sum(g for g, _ in tab.values()), sum(n - g for g, n in tab.values())
        M = {}
        for k, (g, n) in tab.items():
            if which == "target":
                al = 1 / (1 + math.exp(-(n - msl) / sm))
                M[k] = al * g / n + (1 - al) * float(np.mean(t))
            else:
                gp, bp = (g + 1) / (G + 2), (n - g + 1) / (B + 2)
                M[k] = math.log(gp / bp) * (1 if which == "woe" else gp - bp)
        maps[c] = M

    def ref(S):
        for c in cols:
            S = setc(S, c, Col("float", [d if x is None else maps[c].get(x, d) for x in S[c].v]))
        return S
    kw["default"] = default
    return f"{which}_encode {default}", call(which + "_encode", colarg(m, cols, X, S), **kw), ref


def append_expr(m, S, T, X):
    cols = num(S, nanless=False)
    if len(cols) < 1:
        return
    a, b = m.pick(*cols), m.pick(*cols)
    name = f"e{m.rng.integers(1000)}"
    if name in S:
        return
    e = (pl.col(a) + 2 * pl.col(b)).alias(name)
    kind = "float" if "float" in (S[a].kind, S[b].kind) else "int"

    def comb(S):
        return Col(kind, [None if x is None or y is None else x + 2 * y for x, y in zip(S[a].v, S[b].v)], S[a].f32 or S[b].f32)
    if m.chance(0.3):
        rest = [c for c in S]
        return "append select", call("append_expr", pl.col(rest), e, is_select=True), lambda S: setc(S, name, comb(S))
    return "append", call("append_expr", e), lambda S: setc(S, name, comb(S))


def shift_by_max(df, cols, by=1.0):
    mx = df.lazy().select(pl.col(cols).max()).collect().row(0)
    return [pl.col(c) - v * by for c, v in zip(cols, mx)]


def minus_target(df, cols, target):
    mu = df.lazy().select(pl.col(target).mean()).collect().item()
    return [pl.col(c) + mu for c in cols]


def append_fit_func(m, S, T, X):
    cols = num(S, X)
    if not cols:
        return
    cols = some(m, cols)
    if m.chance(0.5):
        by = m.pick(1.0, 0.5)
        par = {c: float(max(nn(S[c].v))) * by for c in cols}
        kw = {} if by == 1.0 else {"by": by}
        fn = shift_by_max
    else:
        y = [c for c in X if c in S and c.lower() == "yt"]
        others = num(S)
        if y and m.chance(0.6):
            t, kw = y[0], {}
        else:
            t = m.pick(*others)
            kw = {"target": t}
        mu = float(np.mean(nn(S[t].v)))
        par = {c: -mu for c in cols}
        fn = minus_target

    def ref(S):
        for c in cols:
            S = mapcol(S, c, lambda x: x - par[c], "float")
        return S
    return "fit_func " + fn.__name__, call("append_fit_func", fn, colarg(m, cols, X, S), **kw), ref


def rows(S, keep):
    return {c: Col(x.kind, [v for v, k in zip(x.v, keep) if k is True], x.f32) for c, x in S.items()}


def row_filter(m, S, T, X):
    c = m.pick(*[c for c in S if S[c].kind in ("int", "str", "bool")] or [None])
    if c is None:
        return
    if S[c].kind == "int":
        q, f = pl.col(c) > -2, lambda x: None if x is None else x > -2
        if m.chance(0.5):
            q = f'"{c}" > -2'
    elif S[c].kind == "str":
        q, f = pl.col(c) != "a", lambda x: None if x is None else x != "a"
    else:
        q, f = pl.col(c), lambda x: x
        if m.chance(0.5):
            q, f = pl.col(c).is_not_null(), lambda x: x is not None
    if sum(f(x) is True for x in S[c].v) < 8:
        return
    return "filter", call("filter", q), lambda S: rows(S, [f(x) for x in S[c].v])


def sql(m, S, T, X):
    c = m.pick(*[c for c in num(S, nanless=False)] or [None])
    if c is None or c + "_d" in S or not all(ch.isalnum() or ch == "_" for ch in c):
        return
    return "sql", call("sql_transform", f'SELECT *, "{c}" * 2 AS "{c}_d" FROM df'), \
        lambda S: setc(S, c + "_d", Col(S[c].kind, [None if x is None else x * 2 for x in S[c].v], S[c].f32))


STEPS = [impute, conditional_impute, nan_to_null, int_to_float, cast_bools, linear_impute, scale, robust_scale, center, winsorize,
         select, drop, rename, polynomial_features, one_hot_encode, rank_hot_encode, encode, append_expr, append_fit_func, row_filter, sql]


def jsonable(x):
    return isinstance(x, (str, int, float, bool)) or x is None or isinstance(x, list) and all(map(jsonable, x))


def build(m, max_steps=6, steps=None):
    """-> dict(train, tests, blueprint, ref outputs). Everything random is drawn here."""
    from polars_ds.modeling.pipeline import Blueprint
    r = m.rng
    names = dict(f=int(m.pick(2, 3)), i=int(m.pick(1, 2)), b=int(m.pick(0, 1)), s=int(m.pick(1, 2)), k=int(m.pick(2, 4, 7)), nan=m.chance(0.15))
    y = m.chance(0.7)
    case_ = m.pick("", "", "", "lower", "upper")
    fold = {"": lambda s: s, "lower": str.lower, "upper": str.upper}[case_]
    S = make_state(m, int(m.pick(12, 30, 80)), names, y)
    T = make_state(m, int(m.pick(0, 1, 5, 20)), dict(names, k=7), y)
    train, test = to_df(S), to_df(T)
    X = []
    kw = {}
    if y and m.chance(0.8):
        X, kw["target"] = [fold("Yt")], fold("Yt")
    if m.chance(0.3):
        ex = m.pick("F1", "I0", "S0")
        X, kw["exclude"] = X + [fold(ex)], [fold(ex)]
    if case_:
        kw[case_ + "case"] = True
    name = m.pick("test", "p1")
    bp = Blueprint(train.lazy() if m.chance(0.4) else train, name=name, **kw)
    S = {fold(c): x for c, x in S.items()}
    T = {fold(c): x for c, x in T.items()}
    feats_in = list(S)
    labels = []
    todo = [nan_to_null] if names["nan"] else []
    pool = steps or STEPS
    want = int(r.integers(1, max_steps + 1))
    for _ in range(want * 4):
        if len(labels) >= want + names["nan"]:
            break
        fn = todo.pop() if todo else pool[int(r.integers(len(pool)))]
        got = fn(m, S, T, X)
        if got is None:
            continue
        label, c, ref = got
        if m.chance(0.25) and jsonable(c["args"]):
            m.seen("from_dict")
            m.call(label, lambda: bp.append_step_from_dict(c))
        else:
            m.call(label, lambda: getattr(bp, c["name"])(*c["args"], **c["kwargs"]))
        labels.append(label)
        m.seen("step", label)
        S, T = ref(S), ref(T)
    m.note(train=train.to_dict(as_series=False), test=test.to_dict(as_series=False), steps=labels, blueprint=kw)
    return dict(train=train, test=test, bp=bp, S=S, T=T, kw=kw, feats_in=feats_in, labels=labels, fold=case_, name=name)


def compare(m, got, S, sig, n=None):
    m.eq(got.columns, list(S), sig + ":columns")
    top = max([abs(v) for x in S.values() if x.kind != "str" for v in x.v if v is not None and abs(v) < 1e300] + [1.0])
    for c, x in S.items():
        g = got[c].to_list()
        m.eq(len(g), len(x.v), sig + ":rows", c)
        if x.kind == "str":
            m.eq(g, x.v, sig + ":values", c)
            m.ok(got[c].dtype == pl.String, sig + ":type", lambda: f"{c}: {got[c].dtype}")
            continue
        big = max([abs(v) for v in x.v if v is not None and v == v] + [1e-3 * top])
        tol = 3e-4 if x.f32 else 1e-8
        m.close(g, x.v, sig + ":values", tol, tol * big, c)
