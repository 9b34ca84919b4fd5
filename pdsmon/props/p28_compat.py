"""P28: the array compatibility layer gives what the expression gives on the same columns."""
import itertools, warnings
import numpy as np
import pandas as pd
import polars as pl
import polars_ds as pds
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from polars_ds.compat import compat
from pdsmon import catalog as C
from pdsmon.core import case, Inconclusive
from pdsmon.props.p24_context import agree, outcome

MODS = ("N", "S", "Z", "M", "T", "L", "K", "I")


class Recorder:
    """Stands in for a module of expressions and keeps the last outermost call."""

    def __init__(self, mod, log):
        self.mod, self.log = mod, log

    def __getattr__(self, name):
        f = getattr(self.mod, name)

        def call(*a, **k):
            self.log.append((name, a, k))
            return f(*a, **k)
        return call


def recorded(name, seed):
    """(expression, function name, args, kwargs) of one catalogue entry"""
    log, keep = [], {k: getattr(C, k) for k in MODS}
    try:
        for k in MODS:
            setattr(C, k, Recorder(keep[k], log))
        x = C.make(name, seed)
    finally:
        for k in MODS:
            setattr(C, k, keep[k])
    return (x,) + log[-1]


COUNT = itertools.count()
NAMES = []
for _n in sorted(C.ENTRIES):
    if hasattr(pds, recorded(_n, 0)[1]):
        NAMES.append(_n)


def strip_names(v):
    """struct field names come from the names of the columns, which arrays do not have"""
    if isinstance(v, dict):
        return [strip_names(x) for k, x in v.items() if k != "features"]
    if isinstance(v, list):
        return [strip_names(x) for x in v]
    return v


class Ducky:
    """some other library's column: only the array protocol"""

    def __init__(self, s):
        self.a = s.to_numpy()

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)


def carry(m, s):
    """one column as an object of another library"""
    if isinstance(s.dtype, pl.List):
        return s
    hasnull = s.null_count() > 0
    k = m.pick("polars", "numpy", "pandas", "duck") if not hasnull else "polars"
    m.seen(f"as-{k}")
    if k == "numpy":
        a = s.to_numpy()
        return a.copy() if m.chance(0.5) else np.repeat(a, 2)[::2]
    if k == "pandas":
        p = pd.Series(s.to_list(), index=m.rng.permutation(len(s)), dtype=None if s.dtype == pl.String else s.to_numpy().dtype)
        return p
    if k == "duck":
        return Ducky(s)
    return m.pick(s, s.alias(f"else{next(COUNT)}"))


@case("P28", quick=2 * len(NAMES), thorough=30 * len(NAMES))
def same(m):
    """compat.f(arrays) is df.select(f(columns))"""
    name = NAMES[m.i % len(NAMES)]
    e = C.ENTRIES[name]
    n = int(m.pick(*((3, 8) if e.get("small") else (5, 9, 30))))
    cols = C.plain(m.rng, n)
    seed = int(m.rng.integers(1 << 30))
    df = C.to_df(cols)
    x, fn, args, kw = recorded(name, seed)
    m.note(entry=name, rows=n, seed=seed, f0=cols["f0"])
    m.seen(name)

    def arg(v):
        if isinstance(v, str) and v in C.SCHEMA:
            return carry(m, df[v])
        if isinstance(v, pl.Expr) and v.meta.root_names():
            return carry(m, df.select(v).to_series())
        if isinstance(v, list) and v and isinstance(v[0], str) and v[0] in C.SCHEMA:
            raise Inconclusive("columns inside a list")
        if isinstance(v, (float, int)) and m.chance(0.3):
            m.seen("numpy-scalar")
            return np.asarray(v)[()]
        return v
    a, k = [arg(v) for v in args], {p: arg(v) for p, v in kw.items()}
    want, err = outcome(lambda: df.select(x.alias("o")).to_series())
    if a and not any(isinstance(v, pl.Series) or hasattr(v, "__array__") and np.ndim(v) for v in a):
        raise Inconclusive("no column among the arguments")
    if not a:
        e2 = m.call(f"compat.{fn}", lambda: getattr(compat, fn)(*a, **k), expect_error=True)
        m.ok(isinstance(e2, ValueError), f"{name}:no-positional", repr(e2))
        return
    if err is not None:
        m.ok(outcome(lambda: getattr(compat, fn)(*a, **k))[1] is not None, f"{name}:answers-where-the-expression-does-not", repr(err))
        return
    got = m.call(f"compat.{fn}", lambda: getattr(compat, fn)(*a, **k))
    m.ok(isinstance(got, pl.Series), f"{name}:series", type(got).__name__)
    m.eq(got.name, fn.replace("query_", ""), f"{name}:name")
    m.eq(str(got.dtype).count("Struct"), str(want.dtype).count("Struct"), f"{name}:type")
    d = agree(e, strip_names(got.to_list()), strip_names(want.to_list()), rtol=1e-5 if "h0" in repr(args) else 1e-9)
    m.ok(d is None, f"{name}:value", lambda: f"{d}: {str(got.to_list())[:300]} against {str(want.to_list())[:300]}")


@case("P28", quick=20, thorough=40)
def refusals(m):
    """Names that cannot be called are refused, unknown names are unknown."""
    bad = m.pick("frame", "str_to_expr", "pl", "annotations", "__version__", "warn_len_compare")
    e = m.call(bad, lambda: getattr(compat, bad), expect_error=True)
    m.ok(isinstance(e, ValueError), "refused", f"{bad}: {e!r}")
    e = m.call("unknown", lambda: getattr(compat, m.pick("no_such", "query_nothing")), expect_error=True)
    m.ok(isinstance(e, AttributeError), "unknown", repr(e))
    e = m.call("no-args", lambda: getattr(compat, m.pick("query_r2", "lin_reg", "str_leven"))(), expect_error=True)
    m.ok(isinstance(e, ValueError), "no-args", repr(e))
    m.note(bad=bad, i=m.i)
