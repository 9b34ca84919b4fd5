"""P26: parallel options, thread counts, concurrent callers and repetition never show in the answer."""
import os, pickle, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import polars as pl
from polars_ds.linear_models import LR
from polars_ds.spatial import KDTree
from pdsmon import catalog as C
from pdsmon.core import case, Inconclusive
from pdsmon.gen import frame
from pdsmon.props.p24_context import agree, outcome

NAMES = sorted(C.ENTRIES)
STABLE = [n for n in NAMES if not C.ENTRIES[n].get("rand")]
SIZES = (1, 2, 3, 2000, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 257)
BIG = (3, 16, 17, 64, 100, 257, 700)


class Probe(C.Draw):
    used = False

    @property
    def par(self):
        self.used = True
        return C.Draw.par.fget(self)


def uses_parallel(name):
    for s in range(3):
        d = Probe(s)
        C.ENTRIES[name]["make"](d)
        if d.used:
            return True
    return False


PAR = [n for n in NAMES if uses_parallel(n)]


def table(rng, n, spice):
    """plain columns; `spice` adds what parallel splitting could trip over: nulls and repeated values"""
    cols = C.plain(rng, n)
    if "nulls" in spice:
        for c in ("s0", "s1", "c0"):
            cols[c] = [None if rng.random() < 0.15 else v for v in cols[c]]
    if "fnulls" in spice:
        for c in ("f0", "f1", "y0"):
            cols[c] = [None if rng.random() < 0.1 else v for v in cols[c]]
    if "ties" in spice:
        for c in ("f0", "f1", "f2", "h0", "y0", "t0"):
            cols[c] = [None if v is None else float(round(v)) for v in cols[c]]
    return C.to_df(cols)


def draw(m, names, sizes=SIZES):
    name = names[m.i % len(names)]
    e = C.ENTRIES[name]
    n = int(m.pick(*((2, 5, 9) if e.get("small") else sizes)))
    spice = [s for s in ("nulls", "fnulls", "ties") if m.chance(0.35)]
    seed = int(m.rng.integers(1 << 30))
    df = table(m.rng, n, spice)
    m.note(entry=name, rows=n, spice=spice, seed=seed, f0=df["f0"])
    m.seen(name)
    return name, e, seed, df


def same(m, e, name, sig, a, b, exact=False):
    """a, b: (series, error)"""
    m.eq(a[1] is None, b[1] is None, f"{name}:{sig}-refused", f"{a[1]!r} / {b[1]!r}"[:300])
    if a[1] is not None:
        return
    x, y = a[0], b[0]
    m.eq(str(x.dtype), str(y.dtype), f"{name}:{sig}-type")
    why = agree(e, x.to_list(), y.to_list(), *((0.0, 0.0) if exact else (1e-9, 1e-10)))
    m.ok(why is None, f"{name}:{sig}", lambda: f"{why}; {str(x.to_list())[:200]} / {str(y.to_list())[:200]}")


@case("P26", quick=8 * len(PAR), thorough=150 * len(PAR))
def parallel_option(m):
    """parallel=True and parallel=False give the same answer, row for row."""
    name, e, seed, df = draw(m, PAR)
    a, b = C.make(name, seed, True), C.make(name, seed, False)
    how = m.pick("select", "lazy", "layout", "group", "filter")
    if how == "group" and e["shape"] == "vec":
        how = "select"
    m.seen(how, df.height > 8)
    if how == "layout":
        d2 = frame(m.rng, {c: df[c] for c in df.columns})
        f = lambda x: d2.select(r=x)["r"]
    elif how == "lazy":
        f = lambda x: df.lazy().select(r=x, s=pl.col("f0").sum()).collect()["r"]
    elif how == "group":
        f = lambda x: df.lazy().group_by("k0", maintain_order=True).agg(r=x).collect()["r"]
    elif how == "filter":
        f = lambda x: df.lazy().filter(pl.col("b0")).select(r=x).collect()["r"]
    else:
        f = lambda x: df.select(r=x)["r"]
    m.calls += 2
    same(m, e, name, "parallel-differs", outcome(lambda: f(a)), outcome(lambda: f(b)))


@case("P26", quick=2 * len(NAMES), thorough=30 * len(NAMES))
def repeated(m):
    """The same call on the same data gives the same answer (to the last digit's rounding; the same draws from a seed), whatever ran in between; seeded random functions included."""
    name, e, seed, df = draw(m, NAMES, (2, 9, 40))
    if name == "corr" and "xi" in str(C.make(name, seed)):
        raise Inconclusive("drawn without a seed")
    first = outcome(lambda: df.select(r=C.make(name, seed))["r"])
    for _ in range(int(m.rng.integers(0, 3))):
        o = C.make(m.pick(*NAMES), int(m.rng.integers(1 << 30)))
        outcome(lambda: df.select(o))
    m.calls += 2
    second = outcome(lambda: df.select(r=C.make(name, seed))["r"])
    same(m, e, name, "not-repeatable", first, second, exact=bool(e.get("rand")))


def batch(seed, n_entries, big):
    """[(name, seed, frame)] of one batch, the same in every process"""
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(n_entries):
        name = STABLE[int(rng.integers(len(STABLE)))]
        e = C.ENTRIES[name]
        n = int(rng.choice([2, 5, 9] if e.get("small") else big))
        spice = [s for s in ("nulls", "ties") if rng.random() < 0.3]
        out.append((name, int(rng.integers(1 << 30)), table(rng, n, spice)))
    return out


def answers(jobs):
    out = []
    for name, seed, df in jobs:
        r, err = outcome(lambda: df.lazy().select(r=C.make(name, seed)).collect()["r"])
        g, gerr = None, None
        if C.ENTRIES[name]["shape"] == "scalar":
            g, gerr = outcome(lambda: df.lazy().group_by("k0", maintain_order=True).agg(r=C.make(name, seed)).collect()["r"])
        out.append([None if r is None else r.to_list(), err is None, None if g is None else g.to_list(), gerr is None])
    return out


def child(argv):
    sys.stdout.buffer.write(pickle.dumps(answers(batch(int(argv[0]), int(argv[1]), BIG))))
    sys.stdout.buffer.flush()
    os._exit(0)


@case("P26", quick=6, thorough=90)
def thread_count(m):
    """A process with another number of threads computes the same answers."""
    here = os.environ.get("POLARS_MAX_THREADS", "8")
    there = m.pick(*[t for t in ("1", "2", "3", "5", "8", "16") if t != here])
    seed, n = int(m.rng.integers(1 << 30)), 60
    m.note(here=here, there=there, seed=seed)
    m.seen("threads", here, there)
    env = dict(os.environ, POLARS_MAX_THREADS=there, RAYON_NUM_THREADS=there)
    p = subprocess.Popen([sys.executable, "-c", "from pdsmon.props import p26_threads as t; import sys; t.child(sys.argv[1:])", str(seed), str(n)],
                         env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    jobs = batch(seed, n, BIG)
    mine = answers(jobs)
    raw, err = p.communicate(timeout=80)
    m.calls += 4 * n
    m.ok(p.returncode == 0, "child:failed", err.decode(errors="replace")[-400:])
    theirs = pickle.loads(raw)
    for (name, s, df), a, b in zip(jobs, mine, theirs):
        e = C.ENTRIES[name]
        m.eq(a[1::2], b[1::2], f"{name}:refused-with-some-thread-count", (here, there, s, df.height))
        for x, y in ((a[0], b[0]), (a[2], b[2])):
            if x is not None and y is not None:
                why = agree(e, x, y, 1e-9, 1e-10)
                m.ok(why is None, f"{name}:depends-on-thread-count", lambda: f"{here} vs {there} threads, rows {df.height}, seed {s}: {why}")
                m.seen(name)


@case("P26", quick=24, thorough=600)
def concurrent_callers(m):
    """Python threads calling at once, and expressions side by side in one query, get what each gets alone."""
    k = int(m.pick(4, 8, 16))
    n = int(m.pick(9, 33, 100))
    df = table(m.rng, n, ["ties"] if m.chance(0.3) else [])
    jobs = []
    while len(jobs) < k:
        name = STABLE[int(m.rng.integers(len(STABLE)))]
        e = C.ENTRIES[name]
        if not e.get("small"):
            jobs.append((name, int(m.rng.integers(1 << 30)), e))
    if m.chance(0.3):
        jobs = jobs[:2] * (k // 2)                    # many callers of the same function
    alone = [outcome(lambda: df.select(r=C.make(nm, s))["r"]) for nm, s, _ in jobs]
    mode = m.pick("threads", "threads", "one-query", "collect_all")
    m.note(mode=mode, jobs=[(nm, s) for nm, s, _ in jobs], rows=n, f0=df["f0"])
    m.seen(mode, k)
    m.calls += 2 * k
    if mode == "threads":
        with ThreadPoolExecutor(k) as ex:
            got = list(ex.map(lambda j: outcome(lambda: df.lazy().select(r=C.make(j[0], j[1])).collect()["r"]), jobs * 2))
        alone, jobs = alone * 2, jobs * 2
    else:
        good = [i for i, a in enumerate(alone) if a[1] is None]
        jobs, alone = [jobs[i] for i in good], [alone[i] for i in good]
        if not jobs:
            raise Inconclusive("nothing to run")
        if mode == "collect_all":
            got = [(d["r"], None) for d in pl.collect_all([df.lazy().select(r=C.make(nm, s)) for nm, s, _ in jobs])]
        else:
            one = {f"r{i}": C.make(nm, s) if e["shape"] == "scalar" else C.make(nm, s).implode() for i, (nm, s, e) in enumerate(jobs)}
            out = df.lazy().select(**one).collect()
            got = [(out[f"r{i}"] if jobs[i][2]["shape"] == "scalar" else out[f"r{i}"][0], None) for i in range(len(jobs))]
    for (nm, s, e), a, g in zip(jobs, alone, got):
        m.seen(nm)
        same(m, e, nm, "disturbed-by-others", a, g)


def py(v):
    """numpy results as plain lists"""
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [py(x) for x in v]
    return v


@case("P26", quick=10, thorough=200)
def shared_tree(m):
    """One search tree, one fitted model, queried by several Python threads at once."""
    n, dim = int(m.pick(20, 200)), int(m.pick(1, 2, 3))
    pts = m.rng.normal(size=(n, dim))
    if m.chance(0.3):
        pts = np.round(pts)
    q = [m.rng.normal(size=(int(m.pick(1, 5, 40)), dim)) for _ in range(12)]
    k = int(m.pick(1, 3, 8))
    m.note(pts=pts, k=k)
    t = KDTree(pts, distance=m.pick("l1", "l2", "sql2", "inf"))
    y = pts @ np.arange(1, dim + 1) + m.rng.normal(size=n)
    lr = LR(has_bias=True)
    lr.fit(pts, y)
    f = lambda x, p: [py(t.knn(x, k, parallel=p)), py(t.within(x, 0.8, parallel=p)), py(t.within(x, 0.8, return_dist=True, sort=True, parallel=p)), py(lr.predict(x))]
    want = [f(x, False) for x in q]
    with ThreadPoolExecutor(6) as ex:
        got = list(ex.map(lambda j: f(q[j % 12], j % 2 == 0), range(36)))
    m.calls += 48
    for j, g in enumerate(got):
        for a, b, nm in zip(g, want[j % 12], ("KDTree.knn", "KDTree.within", "KDTree.within_dist", "LR.predict")):
            m.ok(a == b, f"{nm}:disturbed-by-others", lambda: f"query {j}: {str(a)[:200]} / {str(b)[:200]}")
