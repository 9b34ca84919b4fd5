"""P22: a pipeline written out and read back is the same pipeline."""
import datetime as dt
import json
import os
import shutil
import subprocess
import sys
import tempfile
import polars as pl
import polars.selectors as cs
import polars_ds as pds
from polars_ds.exprs import num as N
from polars_ds.modeling.pipeline import Blueprint, Pipeline
from pdsmon.core import case
from pdsmon import pipegen as G

ATTRS = ["name", "target", "feature_names_in_", "feature_names_out_", "ensure_features_in", "ensure_features_out", "lowercase", "uppercase"]


def same(m, got, want, sig):
    m.eq(got.schema, want.schema, sig + ":schema")
    flo = want.select(cs.float())
    top = max([abs(v) for c in flo for v in c.to_list() if v is not None and abs(v) < 1e300] + [1.0])
    for c in want.columns:
        w = want[c].to_list()
        if want[c].dtype.is_float():        # numbers pass through decimal text: the last bit may differ
            big = max([abs(v) for v in w if v is not None and v == v and abs(v) < 1e300] + [1e-3 * top])
            f32 = want[c].dtype == pl.Float32
            m.close(got[c].to_list(), w, sig + ":values", 1e-5 if f32 else 1e-11, (1e-5 if f32 else 1e-11) * big, c)
        else:
            m.eq(str(got[c].to_list()), str(w), sig + ":values", c)


def outcome(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


FORMS = ["dict", "dict_json", "json", "json_indent", "path"]


def through(m, pipe, form):
    """The pipeline, after going out and coming back through one form."""
    m.seen("form", form)
    if form == "dict":
        return m.call("from_dict", lambda: Pipeline.from_dict(pipe.to_dict()))
    if form == "dict_json":
        return m.call("from_dict", lambda: Pipeline.from_dict(json.loads(json.dumps(pipe.to_dict()))))
    if form in ("json", "json_indent"):
        kw = {} if form == "json" else m.pick({"indent": 2}, {"indent": 0}, {"indent": "\t"}, {"sort_keys": True}, {"ensure_ascii": False}, {"separators": (",", ":")}, {"indent": 0, "sort_keys": True})
        s = m.call("to_json", lambda: pipe.to_json(**kw))
        m.ok(isinstance(s, str), "to_json:type")
        return m.call("from_json_str", lambda: Pipeline.from_json_str(s))
    d = tempfile.mkdtemp(prefix="pdsmon-p22-")
    try:
        p = os.path.join(d, "pipe.json")
        if m.chance(0.5):                       # a file that was there is replaced, not added to
            with open(p, "w") as f:
                f.write(m.pick("", "{}", "x" * 20000, pipe.to_json(), pipe.to_json() + "}"))
            m.seen("over an existing file")
        r = m.call("to_json", lambda: pipe.to_json(p))
        m.ok(r is None, "to_json:path", repr(r)[:80])
        return m.call("from_json", lambda: Pipeline.from_json(p))
    finally:
        shutil.rmtree(d)


def flags(m, pipe):
    if m.chance(0.5):
        i, o = m.chance(0.5), m.chance(0.5)
        pipe.ensure_features_io(i, o)
        m.seen("flags", i, o)


def judge(m, pipe, back, tables, target):
    for a in ATTRS:
        m.eq(getattr(back, a), getattr(pipe, a), "attributes", a)
    m.eq(len(back.transforms), len(pipe.transforms), "steps:count")
    for s, t in zip(back.transforms, pipe.transforms):
        m.eq(s.context, t.context, "steps:context")
        m.eq(len(s.exprs), len(t.exprs), "steps:expressions")
    for tag, df in tables.items():
        w, e = outcome(lambda: pipe.transform(df))
        g, f = outcome(lambda: back.transform(df))
        m.seen(tag, "refused" if e is not None else "answered")
        m.eq(type(f), type(e), "refusal:" + tag, f"{e!r} {f!r}"[:300])
        if e is None:
            same(m, g, w, "transform:" + tag)
            if target is not None and target in w.columns:
                x, y = m.call("separate", lambda: back.transform(df, separate=True))
                same(m, x, w.drop(target), "separate:" + tag)
                same(m, y, w.select(target), "separate:" + tag)


def tables(m, b):
    t = {"train": b["train"], "unseen": b["test"]}
    t["extra"] = b["test"].with_columns(zz_extra=pl.lit(1))
    t["missing"] = b["test"].drop(b["test"].columns[0])
    t["reordered"] = b["test"][[b["test"].columns[i] for i in m.rng.permutation(b["test"].width).tolist()]]
    return t


@case("P22", quick=300, thorough=8000)
def round_trip(m):
    """Any mixture of steps."""
    b = G.build(m)
    pipe = m.call("materialize", b["bp"].materialize)
    flags(m, pipe)
    before = pipe.to_json()
    back = through(m, pipe, m.pick(*FORMS))
    m.eq(pipe.to_json(), before, "original:changed")
    judge(m, pipe, back, tables(m, b), b["kw"].get("target"))
    if m.chance(0.3):
        judge(m, pipe, through(m, back, m.pick(*FORMS)), {"unseen": b["test"]}, b["kw"].get("target"))
    flags(m, back)                                   # what is restored can be used like what was saved
    m.eq([getattr(pipe, a) for a in ATTRS[:4]], [getattr(back, a) for a in ATTRS[:4]], "attributes:after")


@case("P22", quick=250, thorough=5000)
def each_step(m):
    fn = G.STEPS[int(m.rng.integers(len(G.STEPS)))]
    b = G.build(m, 1, [fn])
    pipe = m.call("materialize", b["bp"].materialize)
    flags(m, pipe)
    judge(m, pipe, through(m, pipe, m.pick(*FORMS)), tables(m, b), b["kw"].get("target"))


HOSTILE = {
    "i64 max": lambda: pl.lit(2**63 - 1), "i64 min": lambda: pl.lit(-2**63), "u64 max": lambda: pl.lit(2**64 - 1, dtype=pl.UInt64),
    "null": lambda: pl.lit(None), "date": lambda: pl.lit(dt.date(1969, 12, 31)),
    "datetime": lambda: pl.lit(dt.datetime(2020, 1, 1, 2, 3, 4, 5)), "duration": lambda: pl.lit(dt.timedelta(seconds=1.5)),
    "f32": lambda: pl.lit(0.1, dtype=pl.Float32), "quotes": lambda: pl.lit("a\"b'c\\n\n\t\u0000é☃"),
    "is_in": lambda: pl.col("s").is_in(["x", "é\"'"]), "not in": lambda: ~pl.col("i").is_in([1, 3]),
    "replace": lambda: pl.col("s").replace_strict(["x", "\\n\n"], [1.5, -2.0], default=None),
    "replace2": lambda: pl.col("s").replace({"x": "", "y": "\""}),
    "over": lambda: pl.col("a").mean().over("s"), "plugin": lambda: pds.str_leven("s", pl.lit("x")),
    "plugin agg": lambda: pds.query_r2("a", "i"), "plugin kwargs": lambda: pds.str_jw("s", pl.lit("xy"), weight=0.2),
    "plugin softmax": lambda: N.softmax("i"), "plugin list": lambda: N.rfft("i") if hasattr(N, "rfft") else pl.col("i"),
    "plugin lr": lambda: pds.lin_reg("i", target="a", add_bias=True, return_pred=True, null_policy="zero"),
    "cast": lambda: pl.col("a").cast(pl.Int32, strict=False), "when": lambda: pl.when(pl.col("a") > 1).then(pl.lit("q")).otherwise(pl.col("s")),
    "struct": lambda: pl.struct("a", "s"), "concat": lambda: pl.concat_list("a", "i").list.sum(), "regex": lambda: pl.col("s").str.contains("x|é"),
    "dates": lambda: pl.col("d").dt.offset_by("1mo"), "clip": lambda: pl.col("a").clip(-1.5, 2.5), "shift": lambda: pl.col("i").shift(1, fill_value=-9),
    "rank": lambda: pl.col("a").rank("dense"), "sort": lambda: pl.col("a").sort(nulls_last=True), "fold": lambda: pl.max_horizontal("a", "i"),
    "strftime": lambda: pl.col("d").dt.strftime("%Y|%m"), "neg": lambda: -pl.col("a") ** 3, "cut": lambda: pl.col("a").cut([1.0, 2.5]).cast(pl.String),
}


@case("P22", quick=150, thorough=3000)
def hostile(m):
    """Expressions of every kind, including the package's own plugins."""
    r = m.rng
    df = pl.DataFrame({
        "a": [None if r.random() < 0.2 else float(v) for v in r.normal(0, 3, 8)],
        "s": [["x", "é\"'", "\\n\n", None, "", "y"][i] for i in r.integers(0, 6, 8)],
        "i": [int(v) for v in r.integers(-5, 5, 8)],
        "d": [dt.date(2020, 1, 1) + dt.timedelta(days=int(v)) for v in r.integers(0, 400, 8)],
    }, schema={"a": pl.Float64, "s": pl.String, "i": pl.Int64, "d": pl.Date})
    bp = Blueprint(df, name=m.pick("x", "é\"\\", ""), target=m.pick(None, "i"))
    used = []
    for k in range(int(r.integers(1, 4))):
        what = m.pick("expr", "expr", "selector", "filter", "sql", "select")
        if what == "selector":
            e = m.pick(cs.numeric() - 1, cs.string().str.to_uppercase(), pl.col("^a|i$") * 2, pl.all().exclude("a", "s", "d"), pl.col(pl.Int64) + 1, (~cs.by_name("a") & cs.string()))
            bp.append_expr(e)
            used.append("selector " + str(e)[:30])
        elif what == "filter":
            e = m.pick(pl.col("i") > -4, pl.col("s").is_not_null(), '"i" > -4', "s != 'y' OR a IS NULL", pl.col("d") < dt.date(2021, 6, 1))
            bp.filter(e)
            used.append("filter")
        elif what == "sql":
            bp.sql_transform(m.pick("SELECT *, i + 1 AS i1 FROM df", "SELECT * FROM df WHERE s <> 'q''' OR s IS NULL", "SELECT *, \"a\" AS \"é %d\" FROM df ORDER BY i LIMIT 5" % k))
            used.append("sql")
        else:
            if m.chance(0.15):                   # many at once
                k0 = int(r.integers(5, 30))
                m.seen("many", what, k0 // 8)
                bp.append_expr(*[(pl.col(m.pick("a", "i")) * j).alias(f"o{k}_{j}") for j in range(k0)], *([pl.all()] if what == "select" else []), is_select=what == "select")
                used.append(f"many {k0}")
                continue
            n = m.pick(*HOSTILE)
            m.seen(n)
            bp.append_expr(HOSTILE[n]().alias(f"o{k}"), *([pl.all()] if what == "select" else []), is_select=what == "select")
            used.append(n)
    m.note(df=df.to_dict(as_series=False), steps=used)
    pipe = m.call("materialize", bp.materialize)
    flags(m, pipe)
    judge(m, pipe, through(m, pipe, m.pick(*FORMS)), {"train": df, "head": df.head(3), "empty": df.head(0)}, None)


CHILD = """
import sys, polars as pl
from polars_ds.modeling.pipeline import Pipeline
d = sys.argv[1]
for k in range(int(sys.argv[2])):
    Pipeline.from_json(f"{d}/{k}.json").transform(pl.read_ipc(f"{d}/{k}.in", memory_map=False)).write_ipc(f"{d}/{k}.out")
"""


@case("P22", quick=3, thorough=60)
def other_process(m):
    """A saved pipeline gives the same answers in a process that never saw the blueprint."""
    d = tempfile.mkdtemp(prefix="pdsmon-p22-")
    want = []
    try:
        for k in range(12):
            b = G.build(m)
            pipe = m.call("materialize", b["bp"].materialize)
            want.append(m.call("transform", lambda: pipe.transform(b["test"])))
            b["test"].write_ipc(f"{d}/{k}.in")
            pipe.to_json(f"{d}/{k}.json")
        p = subprocess.run([sys.executable, "-c", CHILD, d, str(len(want))], capture_output=True, text=True, timeout=120)
        m.ok(p.returncode == 0, "process:failed", p.stderr[-400:])
        for k, w in enumerate(want):
            same(m, pl.read_ipc(f"{d}/{k}.out", memory_map=False), w, "process")
    finally:
        shutil.rmtree(d)


@case("P22", quick=40, thorough=200)
def unusable(m):
    """What is not a pipeline is refused."""
    df = pl.DataFrame({"a": [1.0, 2.0, None], "t": [0, 1, 1]})
    pipe = Blueprint(df, name="p", target="t").impute(["a"]).materialize()
    d = pipe.to_dict()
    need = [k for k in d if k not in ("lowercase", "uppercase")]
    k = m.pick(*need, "context", "garbage", "no action")
    m.seen(k)
    bad = json.loads(json.dumps(d))
    if k == "context":
        bad["transforms"][0]["context"] = "zzz"
    elif k == "garbage":
        bad["transforms"][0]["action"] = ["{}"]
    elif k == "no action":
        del bad["transforms"][0]["action"]
    else:
        del bad[k]
    e = m.call(k, lambda: Pipeline.from_dict(bad), expect_error=True)
    m.ok(isinstance(e, Exception), "unusable:" + k, lambda: f"accepted: {e}")
    old = {q: v for q, v in d.items() if q not in ("lowercase", "uppercase")}   # written before the flags existed
    back = m.call("older", lambda: Pipeline.from_dict(old))
    same(m, back.transform(df), pipe.transform(df), "older")
