"""check PROP: builds /repo, drives the workloads of PROP in worker processes, judges, reports.

exit 0  held on everything observed
exit 1  VIOLATION line(s)
exit 3  inconclusive (build failure, harness error, nothing observed)"""
import json, os, shutil, signal, subprocess, sys, tempfile, time
from . import build as B

HERE = B.HERE
KNOWN = os.path.join(HERE, "known_findings.jsonl")
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}
THREADS = ["1", "8", "2", "4", "8", "3"]


def say(*a):
    print(*a, flush=True)


def known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("kind") == "finding":
                    out[(d["property"], d["sig"])] = d
    return out


class Shard:
    def __init__(self, prop, idx, n, seed, tier, pkg, kind, budget, scratch):
        self.prop, self.idx, self.n, self.seed, self.tier = prop, idx, n, seed, tier
        self.pkg, self.kind, self.budget, self.scratch = pkg, kind, budget, scratch
        self.out = os.path.join(scratch, f"out.{idx}.jsonl")
        open(self.out, "w").close()
        self.crashes, self.skip, self.restarts, self.done = [], None, 0, False
        self.errors = []

    def start(self, only=None, out=None):
        env = B._base_env()
        env["PYTHONPATH"] = self.pkg + ":" + HERE
        env["POLARS_MAX_THREADS"] = THREADS[self.idx % len(THREADS)]
        env["RAYON_NUM_THREADS"] = env["POLARS_MAX_THREADS"]
        env.update(RUST_BACKTRACE="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   PDSMON_BUDGET=str(self.budget), PDSMON_KIND=self.kind, HOME=self.scratch,
                   TMPDIR=self.scratch, VERIF_SEED=str(self.seed))
        env.update(kind_env(self.kind))
        argv = [B.VENV_PY, "-X", "faulthandler", "-m", "pdsmon.worker", self.prop, str(self.idx), str(self.n),
                str(self.seed), self.tier, out or self.out]
        if only:
            argv.append(f"only={only[0]}:{only[1]}")
        elif self.skip is not None:
            argv.append(f"skip={self.skip}")
        err = open(os.path.join(self.scratch, f"err.{self.idx}"), "ab")
        return subprocess.Popen(argv, env=env, cwd=self.scratch, stdout=err, stderr=err, stdin=subprocess.DEVNULL)

    def tail(self):
        last = None
        with open(self.out) as f:
            for line in f:
                try:
                    last = json.loads(line)
                except ValueError:
                    pass
        return last

    def errtail(self, n=1500):
        p = os.path.join(self.scratch, f"err.{self.idx}")
        return open(p, errors="replace").read()[-n:] if os.path.exists(p) else ""


def kind_env(kind):
    if kind == "asan":
        rt = asan_runtime()
        return {"LD_PRELOAD": rt, "PDSMON_NOLIMIT": "1",
                "ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:abort_on_error=1:handle_segv=1:"
                                "allocator_may_return_null=1:detect_odr_violation=0:verify_asan_link_order=0:"
                                "allow_user_segv_handler=1"}
    return {}


def asan_runtime():
    for p in ("/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so",):
        if os.path.exists(p):
            return p
    raise B.BuildError("no shared asan runtime")


def cpu_of(pid):
    try:
        s = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return None


STALL = float(os.environ.get("PDSMON_STALL", "90"))


def confirm_hang(sh, case):
    """A case that never came back is re-run alone twice with a generous limit; only a case that
    normally takes milliseconds and fails to return every time is reported."""
    for _ in range(2):
        out = os.path.join(sh.scratch, "hang.jsonl")
        open(out, "w").close()
        p = sh.start(only=case, out=out)
        try:
            p.wait(STALL)
            return False
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    return True


def run_shards(shards, hard_deadline):
    live = {}
    for s in shards:
        live[s] = [s.start(), 0, time.time()]     # proc, size at last progress, time of it
    inconclusive = []
    while live:
        time.sleep(0.1)
        for s in list(live):
            p, size, t = live[s]
            rc = p.poll()
            now = time.time()
            if rc is None:
                sz = os.path.getsize(s.out)
                if sz != size:
                    live[s][1:] = [sz, now]
                elif now - t > STALL and sz > 0:
                    p.kill(); p.wait()
                    last = s.tail()
                    if last and "begin" in last:
                        c = (last["begin"], last["i"])
                        if confirm_hang(s, c):
                            s.crashes.append({"case": c[0], "i": c[1], "sig": f"{c[0]}:does-not-return",
                                              "detail": f"did not return in {STALL}s, three times"})
                        else:
                            inconclusive.append(f"{c} stalled once")
                        s.skip = last["k"]
                        s.restarts += 1
                        live[s] = [s.start(), 0, time.time()] if s.restarts < 3 else live[s]
                        if s.restarts >= 3:
                            del live[s]
                    else:
                        inconclusive.append("worker stalled"); del live[s]
                elif now > hard_deadline:
                    p.kill(); p.wait(); inconclusive.append("hard deadline"); del live[s]
                continue
            last = s.tail()
            if rc == 0 and last and last.get("done"):
                s.done = True
                del live[s]
                continue
            if last and "begin" in last and rc < 0 and -rc in CRASH:
                e = s.errtail()
                s.crashes.append({"case": last["begin"], "i": last["i"],
                                  "sig": f"{last['begin']}:process-crash",
                                  "detail": f"signal {-rc}; {e}"})
                s.skip = last["k"]
                s.restarts += 1
                if s.restarts < 4:
                    live[s] = [s.start(), 0, time.time()]
                else:
                    del live[s]
                continue
            inconclusive.append(f"worker {s.idx} ended with {rc}: {s.errtail(600)}")
            del live[s]
    return inconclusive


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    nsh = int(os.environ.get("PDSMON_SHARDS", "6"))
    budget = float(os.environ.get("PDSMON_BUDGET", "240" if tier == "quick" else "2400"))
    t0 = time.time()
    meta = json.load(open(os.path.join(HERE, "pdsmon", "props.json")))[prop]
    results, crashes, inconclusive, kinds_run = [], [], [], {}
    scratch_all = []
    try:
        for kind in meta.get("kinds", ["plain"]):
            try:
                pkg = B.build(kind, say)
            except (B.BuildError, subprocess.TimeoutExpired) as e:
                say(f"INCONCLUSIVE property={prop}: build {kind} failed\n{e}")
                return 3
            scratch_all.append(pkg)
            sd = tempfile.mkdtemp(prefix="pdsmon-run-")
            scratch_all.append(sd)
            shards = [Shard(prop, i, nsh, seed, tier, pkg, kind, budget, sd) for i in range(nsh)]
            inconclusive += run_shards(shards, time.time() + budget + 400)
            for s in shards:
                for c in s.crashes:
                    c["kind"] = kind
                    crashes.append(c)
                for line in open(s.out):
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    if "verdict" in r:
                        r["kind"] = kind
                        r["threads"] = THREADS[s.idx % len(THREADS)]
                        results.append(r)
                    elif r.get("deadline"):
                        say("note: time budget reached in a shard; remaining cases not run")
        return report(prop, tier, seed, t0, meta, results, crashes, inconclusive)
    finally:
        for d in scratch_all:
            if d.startswith(tempfile.gettempdir()) and os.path.isdir(d):
                shutil.rmtree(d, ignore_errors=True)


def report(prop, tier, seed, t0, meta, results, crashes, inconclusive):
    kn = known()
    viol, hits = {}, {}
    for c in crashes:
        viol.setdefault(c["sig"], []).append(
            {"case": c["case"], "i": c["i"], "detail": c["detail"], "kind": c["kind"]})
    for r in results:
        for v in r["violations"]:
            if (prop, v["sig"]) in kn:
                hits.setdefault(v["sig"], 0)
                hits[v["sig"]] += 1
            else:
                viol.setdefault(v["sig"], []).append(
                    {"case": r["case"], "i": r["i"], "detail": v["detail"], "kind": r["kind"],
                     "context": r.get("context"), "threads": r["threads"]})
    errs = [r for r in results if r["verdict"] == "error"]
    observed = sum(r["observed"] for r in results)
    distinct = {(r["case"], r["digest"]) for r in results if r["observed"] > 0 and r["verdict"] != "error"}
    states = sorted({s for r in results for s in r["states"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results), "distinct_nontrivial": len(distinct),
            "rule": meta["rule"],
            "samples": [{k: r[k] for k in ("case", "i", "context", "observed") if k in r}
                        for r in results if r.get("context")][:6],
            "observations_judged": observed,
            "calls_into_the_real_code": sum(r["calls"] for r in results),
            "distinct_situations_seen": len(states), "situations": states[:400],
            "cases_by_workload": _count(r["case"] for r in results),
            "inconclusive_cases": sum(r["verdict"] == "inconclusive" for r in results),
            "inconclusive_by_workload": _count(r["case"] for r in results if r["verdict"] == "inconclusive"),
            "polars_thread_counts": _count(r["threads"] for r in results),
            "builds": _count(r["kind"] for r in results),
            "known_findings_hit": hits,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    say(f"property={prop} tier={tier} seed={seed}: {len(results)} executions, {len(distinct)} distinct "
        f"non-trivial, {observed} observations judged, {len(states)} situations, "
        f"{ev['coverage']['inconclusive_cases']} inconclusive, {ev['wall_s']}s")
    for sig in sorted(hits):
        say(f"KNOWN-FINDING: property={prop} {sig}: {kn[(prop, sig)]['what']}")
    if viol:
        for k, (sig, lst) in enumerate(sorted(viol.items())):
            path = os.path.join(HERE, "evidence", "replay", f"{prop}-{k}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "sig": sig, "seed": seed, "tier": tier, "count": len(lst),
                           "witnesses": lst[:5],
                           "rerun": f"VERIF_SEED={seed} /verif/check {prop} {tier} "
                                    f"(workload {lst[0]['case']}, case {lst[0]['i']})"}, f, indent=1)
            say(f"VIOLATION property={prop} replay={path}")
            say(f"  {sig} x{len(lst)}: {lst[0]['case']}#{lst[0]['i']}: {lst[0]['detail'][:600]}")
        return 1
    if errs:
        say(f"INCONCLUSIVE property={prop}: {len(errs)} harness errors; first: {errs[0]['case']}#{errs[0]['i']}: {errs[0].get('why')}")
        return 3
    if inconclusive:
        say(f"INCONCLUSIVE property={prop}: " + "; ".join(map(str, inconclusive))[:2000])
        return 3
    if observed == 0 or len(distinct) < meta.get("min_distinct", 20):
        say(f"INCONCLUSIVE property={prop}: observed too little ({observed} observations, {len(distinct)} cases)")
        return 3
    return 0


def _count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


if __name__ == "__main__":
    sys.exit(main())
