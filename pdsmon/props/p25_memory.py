"""P25: no call reads or writes memory it does not own, reads memory nobody wrote, or keeps memory for ever.

Runs on two builds of the extension: one with AddressSanitizer and the standard library's checks of
unsafe preconditions, one with these checks, debug assertions and the C library's poisoned allocations.
The deciding events are the reports of these run-time checks (they end the worker, which the driver
reports with the case), the bytes still allocated, and values that change with what fresh or freed memory holds."""
import ctypes, gc, os, pickle, subprocess, sys, threading
import numpy as np
import polars as pl
import pyarrow as pa
from polars_ds.linear_models import LR, ElasticNet, OnlineLR
from polars_ds.spatial import KDTree
from pdsmon import catalog as C, core, props
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame
from pdsmon.props.p24_context import agree, outcome
from pdsmon.props.p30_degenerate import column, KINDS as DEGENERATE

KIND = os.environ.get("PDSMON_KIND", "")
NAMES = sorted(C.ENTRIES)
RANDOM = {n for n in NAMES if C.ENTRIES[n].get("rand")}
SIZES = (0, 1, 2, 3, 5, 17, 40, 129)
ASAN = hasattr(ctypes.CDLL(None), "__asan_region_is_poisoned")
if ASAN:
    allocated = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    allocated.restype = ctypes.c_size_t
NP = {pl.Float64: (np.float64, pa.float64()), pl.Float32: (np.float32, pa.float32()), pl.Int64: (np.int64, pa.int64()), pl.Int32: (np.int32, pa.int32()),
      pl.UInt32: (np.uint32, pa.uint32()), pl.UInt64: (np.uint64, pa.uint64())}


def guarded(df):
    """The same frame with its numbers in buffers of exactly their size, which the sanitizer fences in."""
    out = []
    for c in df.columns:
        s = df[c]
        if s.dtype in NP and len(s):
            t, at = NP[s.dtype]
            vals = np.array(s.fill_null(0).to_numpy(), dtype=t)
            mask = None
            if s.null_count():
                mask = pa.py_buffer(np.packbits(s.is_not_null().to_numpy(), bitorder="little"))
            out.append(pl.from_arrow(pa.Array.from_buffers(at, len(s), [mask, pa.py_buffer(vals)])).alias(c))
        else:
            out.append(s)
    return pl.DataFrame(out)


def draw(m, sizes=SIZES, hostile=0.3):
    name = NAMES[m.i % len(NAMES)]
    e = C.ENTRIES[name]
    n = int(m.pick(*[s for s in sizes if s <= 40 or not e.get("small")]))
    cols = C.plain(m.rng, n)
    if m.chance(hostile):
        cols = {c: column(m.rng, c, n, m.pick(*DEGENERATE)) for c in C.SCHEMA}
    seed = int(m.rng.integers(1 << 30))
    m.note(entry=name, rows=n, seed=seed, f0=cols["f0"], s0=cols["s0"])
    m.seen(name, n)
    return name, seed, cols, n


def judged(m, sig, got):
    """An answer or an error are both fine here, a failed internal assertion is not"""
    m.observed += 1
    if got[1] is not None and "panicked" in str(got[1]):
        m.fail(f"{sig}:assertion", str(got[1])[:300])


@case("P25", quick=2 * len(NAMES), thorough=40 * len(NAMES))
def expressions(m):
    """Every expression, all sizes and layouts, columns in fenced buffers."""
    name, seed, cols, n = draw(m)
    lay = m.pick("fenced", "fenced", "pieces", "sliced")
    df = C.to_df(cols)
    if lay == "pieces":
        df = frame(m.rng, {c: df[c] for c in df.columns})
    elif lay == "sliced":
        df = guarded(pl.concat([df, df, df]).rechunk()).slice(int(m.rng.integers(0, n + 1)), n)
    else:
        df = guarded(df)
    how = m.pick("select", "select", "group", "over", "filter")
    if how in ("group", "over") and name in ("psi", "psi_report", "woe", "info_value"):
        how = "select"
    m.seen(lay, how)
    x = C.make(name, seed).alias("r")
    m.calls += 1
    if how == "group":
        df = df.with_columns(gg=pl.Series([int(v) for v in m.rng.integers(0, 3, df.height)], dtype=pl.Int64))
        got = outcome(lambda: df.group_by("gg").agg(x))
    elif how == "over":
        got = outcome(lambda: df.select(x.over(pl.lit(1))))
    elif how == "filter":
        got = outcome(lambda: df.lazy().filter(pl.col("b0")).select(x).collect())
    else:
        got = outcome(lambda: df.select(x))
    judged(m, name, got)


@case("P25", quick=len(NAMES), thorough=10 * len(NAMES))
def outlives(m):
    """A result stays what it is after its inputs, and the expression, are gone and their memory has been used again."""
    name, seed, cols, n = draw(m, (1, 3, 17, 40), hostile=0.0)
    df = guarded(C.to_df(cols))
    x = C.make(name, seed).alias("r")
    m.calls += 1
    res, err = outcome(lambda: df.select(x))
    if err is not None:
        raise Inconclusive("refused")
    before = res["r"].to_list()
    part = res["r"].slice(res.height // 2)
    tail = part.to_list()
    del df, x, cols
    gc.collect()
    junk = [np.full(k, 7.25) for k in (1, 8, 40, 129, 1000) for _ in range(20)]
    other = outcome(lambda: C.to_df(C.plain(m.rng, n or 1)).select(C.make(m.pick(*NAMES), seed)))
    m.ok(repr(res["r"].to_list()) == repr(before), f"{name}:changes-later", lambda: f"{before} / {res['r'].to_list()}"[:400])
    del res, other, junk
    gc.collect()
    junk = [np.full(k, 8.25) for k in (1, 8, 40, 129) for _ in range(20)]
    m.ok(repr(part.to_list()) == repr(tail), f"{name}:slice-changes-later", lambda: f"{tail} / {part.to_list()}"[:400])


@case("P25", quick=len(NAMES), thorough=6 * len(NAMES))
def keeps(m):
    """The bytes allocated stop growing when the same call is repeated."""
    if not ASAN:
        raise Inconclusive("the allocator of the other build counts bytes")
    name, seed, cols, n = draw(m, (1, 5, 17), hostile=0.3)
    df = C.to_df(cols)
    x = C.make(name, seed).alias("r")

    def used(k):
        for _ in range(k):
            outcome(lambda: df.select(x))
        gc.collect()
        return int(allocated())
    m.calls += 1
    at = [used(3)] + [used(2) for _ in range(4)]
    grown = [b - a for a, b in zip(at, at[1:])]
    if min(grown) > 0:
        more = [used(6) for _ in range(6)]
        grown = [b - a for a, b in zip(more, more[1:])]
        m.ok(not all(g >= 6 * 8 for g in grown), f"{name}:keeps-memory", lambda: f"bytes kept by each 6 calls: {grown}")
    else:
        m.ok(True, "")
    m.seen("bytes", min(grown) <= 0)


def array(m, n, d, dtype=np.float64):
    """(an array laid out oddly, an ordinary copy of it)"""
    a = np.round(m.rng.normal(size=(n, d)), 6)
    lay = m.pick("c", "f", "rows", "cols", "reversed", "offset", "readonly", "broadcast", "unaligned", "transposed")
    m.seen("array", lay)
    if lay == "f":
        x = np.asfortranarray(a)
    elif lay == "rows":
        x = np.repeat(a, 2, axis=0)[::2]
    elif lay == "cols":
        x = np.repeat(a, 3, axis=1)[:, ::3]
    elif lay == "reversed":
        x = np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    elif lay == "offset":
        x = np.vstack([np.full((2, d), np.nan), a, np.full((1, d), np.nan)])[2:2 + n]
    elif lay == "readonly":
        x = a.copy()
        x.flags.writeable = False
    elif lay == "broadcast":
        a = np.broadcast_to(a[:1], (n, d)) if n else a
        x, a = a, a.copy()
    elif lay == "unaligned":
        raw = np.zeros(a.nbytes + 1, dtype=np.uint8)
        raw[1:] = np.ascontiguousarray(a).view(np.uint8).ravel() if a.size else 0
        x = raw[1:].view(np.float64).reshape(n, d)
    elif lay == "transposed":
        x = np.ascontiguousarray(a.T).T
    else:
        x = a
    return x, np.ascontiguousarray(a).copy(), lay


@case("P25", quick=240, thorough=6000)
def arrays(m):
    """Models and trees read arrays of any layout as the values they hold, and keep no hold of them."""
    n, d = int(m.pick(1, 2, 5, 17, 40)), int(m.pick(1, 2, 3))
    (X, X0, lx), (y, y0, ly) = array(m, n, d), array(m, n, 1)
    Q, Q0, lq = array(m, int(m.pick(1, 3, 20)), d)
    what = m.pick("LR", "EN", "Online", "tree", "tree")
    m.note(what=what, X=X0, y=y0, layouts=(lx, ly, lq))
    m.seen(what, lx)
    bias = m.chance(0.5)

    def ask(X, y, Q):
        if what == "LR":
            mod = LR(has_bias=bias, lambda_=0.5).fit(X, y)
            return mod.coeffs(), mod.bias(), mod.predict(Q)
        if what == "EN":
            mod = ElasticNet(l1_reg=0.1, l2_reg=0.1, has_bias=bias).fit(X, y)
            return mod.coeffs(), mod.bias(), mod.predict(Q)
        if what == "Online":
            mod = OnlineLR(lambda_=0.5, has_bias=bias).fit(X, y)
            for r in Q:
                mod.update(r, 1.0)
            return mod.coeffs(), mod.bias(), mod.inv(), mod.predict(Q)
        t = KDTree(X, distance="sql2")
        if Q.flags["C_CONTIGUOUS"]:
            t.add(Q)
        return (*t.knn(Q, 2), t.within_count(Q, 1.0), t.within(Q, 1.0, sort=True), t.count())
    m.calls += 2
    got = outcome(lambda: ask(X, y, Q))
    judged(m, f"arrays-{what}", got)
    if got[1] is not None:
        return
    held = [np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in got[0]]
    ref = outcome(lambda: ask(X0, y0, Q0))
    if ref[1] is not None or what == "tree" and not Q.flags["C_CONTIGUOUS"]:
        return
    del X, y, Q
    gc.collect()
    for k, (g, h, r) in enumerate(zip(got[0], held, ref[0])):
        if isinstance(g, np.ndarray):
            m.ok(np.array_equal(g, h, equal_nan=True), f"arrays-{what}:changes-later", f"part {k}")
            m.ok(np.allclose(g.astype(float), r.astype(float), rtol=1e-6, atol=1e-8, equal_nan=True), f"arrays-{what}:layout-{lx}", lambda: f"part {k}: {g} / {r}"[:400])


def jobs(seed, k):
    rng = np.random.default_rng(seed)
    out = []
    while len(out) < k:
        name = NAMES[int(rng.integers(len(NAMES)))]
        s, n = int(rng.integers(1 << 30)), int(rng.choice([1, 2, 3, 5, 17, 40]))
        kind = DEGENERATE[int(rng.integers(len(DEGENERATE)))] if rng.random() < 0.4 else "plain"
        df = C.to_df({c: column(rng, c, n, kind) for c in C.SCHEMA})
        out.append((name, s, df))
    return out


def child(argv):
    out = []
    for name, s, df in jobs(int(argv[0]), int(argv[1])):
        r, err = outcome(lambda: df.select(r=C.make(name, s))["r"])
        out.append((name, None if err else r.to_list()))
    sys.stdout.buffer.write(pickle.dumps(out))
    sys.stdout.buffer.flush()
    os._exit(0)


def poisoned(seed, k, byte):
    env = dict(os.environ)
    if ASAN:
        env["ASAN_OPTIONS"] = env.get("ASAN_OPTIONS", "") + f":max_malloc_fill_size=1048576:malloc_fill_byte={byte}:max_free_fill_size=1048576:free_fill_byte={byte ^ 85}"
    else:
        env["MALLOC_PERTURB_"] = str(byte)
    return subprocess.Popen([sys.executable, "-c", "from pdsmon.props import p25_memory as t; import sys; t.child(sys.argv[1:])", str(seed), str(k)],
                            env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)


@case("P25", quick=6, thorough=60)
def unwritten(m):
    """What fresh and freed memory holds never shows in an answer."""
    seed, k = int(m.rng.integers(1 << 30)), 120
    b1, b2 = m.pick((255, 63), (127, 1), (191, 200))
    m.note(seed=seed, bytes=(b1, b2))
    m.calls += 2
    p = [poisoned(seed, k, b) for b in (b1, b2)]
    out = []
    for q in p:
        raw, err = q.communicate(timeout=85)
        if q.returncode:
            m.fail("unwritten:process-crash", f"exit {q.returncode}; {err[-1500:]}")
            return
        out.append(pickle.loads(raw))
    for (name, a), (_, b) in zip(*out):
        m.seen(name)
        m.eq(a is None, b is None, f"{name}:refusal-depends-on-memory", "")
        if a is not None and b is not None and name not in RANDOM:
            why = agree(C.ENTRIES[name], a, b, 1e-9, 1e-10)
            m.ok(why is None, f"{name}:depends-on-memory", lambda: f"{why}; {str(a)[:200]} / {str(b)[:200]}")


@case("P25", quick=40, thorough=800)
def together(m):
    """Threads sharing frames, a tree and models, some of them dropping theirs, under the same checks."""
    rng, n = m.rng, int(m.pick(5, 40, 129))
    df = guarded(C.to_df(C.plain(rng, n)))
    X = np.round(rng.normal(size=(n, 2)), 6)
    tree = KDTree(X, distance="l2")
    names = [NAMES[int(i)] for i in rng.integers(0, len(NAMES), 6)]
    names = [x for x in names if not C.ENTRIES[x].get("small") or n <= 40]
    seeds = [int(s) for s in rng.integers(0, 1 << 30, len(names))]
    m.note(names=names, seeds=seeds, rows=n)
    go, bad = threading.Barrier(len(names) + 1), []

    def work(name, seed):
        local = df.clone()
        go.wait()
        for _ in range(3):
            got = outcome(lambda: local.select(r=C.make(name, seed)))
            if got[1] is not None and "panicked" in str(got[1]):
                bad.append((name, str(got[1])[:200]))
            got = tree.knn(X[:4], 2, parallel=True)
    ts = [threading.Thread(target=work, args=a) for a in zip(names, seeds)]
    for t in ts:
        t.start()
    go.wait()
    del df
    gc.collect()
    for t in ts:
        t.join()
    m.calls += 6 * len(ts)
    m.seen(len(ts), n)
    m.ok(not bad, "together:assertion", lambda: str(bad))


OTHERS = ["P%02d" % i for i in (*range(1, 25), 26, 27, 28, 29, 30, 33)]
SLOW = {("P26", "thread_count"), ("P30", "unsupported")}


@case("P25", quick=420, thorough=20000)
def others(m):
    """The workloads of all other properties, run for what the checks of this build report."""
    if not any(k in core.REGISTRY for k in OTHERS[:3]):
        for k in OTHERS:
            props.load(k)
    plan = [(k, name, fn) for k in OTHERS for name, fn, *_ in core.REGISTRY[k] if (k, name) not in SLOW]
    k, name, fn = plan[m.i % len(plan)]
    i = int(m.rng.integers(1 << 20))
    m.note(of=k, case=name, i=i)
    m.seen(k, name)
    r = core.run_case(k, name, fn, i, m.seed, "quick")
    m.calls += 1
    for v in r["violations"]:
        if "panic" in v["detail"] and k != "P30":
            m.fail(f"others-{k}:assertion", v["detail"][:300])
    m.ok(True, "")


@case("P25", quick=3, thorough=3)
def armed(m):
    """The checks themselves are on: a deliberate overrun of a fenced buffer is reported, in a process of its own."""
    if not ASAN:
        so = open(sys.modules["polars_ds._polars_ds"].__file__, "rb").read()
        if b"unsafe precondition(s) violated" not in so:
            raise RuntimeError("the build has no checks of unsafe preconditions")
        m.ok(True, "")
        return
    code = "import ctypes, numpy as np; a = np.zeros(3); ctypes.memset(a.ctypes.data, 1, 25 + %d)" % (8 * m.i)
    p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=dict(os.environ))
    m.calls += 1
    so = open(sys.modules["polars_ds._polars_ds"].__file__, "rb").read()
    if "AddressSanitizer" not in p.stderr or b"__asan_report_store8" not in so:
        raise RuntimeError("AddressSanitizer is not watching")
    m.ok(True, "")
