"""python -m pdsmon.worker PROP SHARD NSHARDS SEED TIER OUT [only=name:i] [skip=file]"""
import faulthandler, importlib, json, os, pkgutil, resource, sys, time, warnings

# how many times the quick count of a case is run at the quick tier
FACTOR = {"P25": 1, "P26": 3, "P30": 2}


warnings.simplefilter("ignore")


def main():
    prop, shard, nshards, seed, tier, out = sys.argv[1:7]
    shard, nshards, seed = int(shard), int(nshards), int(seed)
    only = skip_to = None
    for a in sys.argv[7:]:
        if a.startswith("only="):
            nm, i = a[5:].rsplit(":", 1)
            only = (nm, int(i))
        if a.startswith("skip="):
            skip_to = int(a[5:])
    os.environ.setdefault("PDSMON_SCRATCH", os.path.dirname(out))
    from pdsmon import core, props
    props.load(prop)
    if not os.environ.get("PDSMON_NOLIMIT"):
        resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    deadline = time.time() + float(os.environ.get("PDSMON_BUDGET", "600"))
    plan = []
    for name, fn, nq, nt in core.REGISTRY[prop]:
        n = nq * FACTOR.get(prop, 6) if tier == "quick" else nt
        for i in range(n):
            plan.append((i / max(n, 1), name, fn, i))
    plan.sort(key=lambda t: (t[0], t[1]))      # interleave the workloads
    f = open(out, "a", buffering=1)
    for k, (_, name, fn, i) in enumerate(plan):
        if only:
            if (name, i) != only:
                continue
        elif k % nshards != shard:
            continue
        elif skip_to is not None and k <= skip_to:
            continue
        if time.time() > deadline:
            f.write(json.dumps({"deadline": True, "k": k}) + "\n")
            break
        f.write(json.dumps({"begin": name, "i": i, "k": k}) + "\n")
        t0 = time.time()
        rec = core.run_case(prop, name, fn, i, seed, tier)
        rec["k"] = k
        rec["t"] = round(time.time() - t0, 4)
        f.write(json.dumps(rec) + "\n")
    f.write(json.dumps({"done": True}) + "\n")
    f.close()
    os._exit(0)


main()
