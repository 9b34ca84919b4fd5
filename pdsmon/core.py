"""Worker side: the monitor object handed to every workload, and the case registry."""
import hashlib, json, math, os, struct, sys, time, traceback
import numpy as np

REGISTRY = {}   # property id -> list of (name, fn, n_quick, n_thorough)


def case(prop, quick=20, thorough=200):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append((fn.__name__, fn, quick, thorough))
        return fn
    return deco


class Refuted(Exception):
    """The monitor observed a violation; the rest of this case is meaningless."""


class Inconclusive(Exception):
    """The oracle cannot judge this execution (ill-conditioned, too few events...)."""


class Monitor:
    def __init__(self, prop, name, i, seed, tier="quick"):
        self.prop, self.name, self.i, self.seed, self.tier = prop, name, i, seed, tier
        h = hashlib.sha256(f"{prop}/{name}/{seed}/{i}".encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(h[:8], "little"))
        self.observed = 0          # individual comparisons/observations judged
        self.calls = 0             # calls into the real code
        self.states = set()        # distinct situations (branches of the workload) seen
        self.digest = hashlib.sha256()
        self.violations = []
        self.context = {}

    # --- workload bookkeeping -------------------------------------------------
    def note(self, **kw):
        """Describes the input of the case (for replay files and for counting distinct inputs)."""
        for k, v in kw.items():
            s = _short(v)
            self.context[k] = s
            self.digest.update(repr((k, _full(v))).encode())

    def seen(self, *key):
        self.states.add("/".join(str(k) for k in key))

    def pick(self, *opts):
        return opts[int(self.rng.integers(len(opts)))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    # --- the real code --------------------------------------------------------
    def call(self, label, fn, expect_error=False):
        """Runs the real code. An unexpected exception is itself a violation."""
        self.calls += 1
        self.label = label
        if expect_error:
            try:
                return fn()
            except Exception as e:       # noqa: a clean error is what we allow here
                return e
        try:
            return fn()
        except (MemoryError, KeyboardInterrupt):
            raise
        except BaseException as e:       # pyo3 panics derive from BaseException
            self.fail(f"{label}:raised", f"{type(e).__name__}: {str(e)[:300]}")

    # --- judging --------------------------------------------------------------
    def fail(self, sig, detail=""):
        self.violations.append({"sig": sig, "detail": str(detail)[:1500]})
        raise Refuted(sig)

    def ok(self, cond, sig, detail=""):
        self.observed += 1
        if not cond:
            self.fail(sig, detail() if callable(detail) else detail)

    def eq(self, got, want, sig, detail=""):
        self.observed += 1
        if not _same(got, want):
            self.fail(sig, f"got {_short(got)} want {_short(want)} {detail}")

    def close(self, got, want, sig, rtol=1e-7, atol=1e-9, detail="", nan_ok=True):
        """Elementwise closeness; None must match None (null-ness is part of the result)."""
        g, w = _listify(got), _listify(want)
        self.observed += max(1, len(w))
        if len(g) != len(w):
            self.fail(sig, f"length {len(g)} want {len(w)}: got {_short(got)} want {_short(want)} {detail}")
        for k, (a, b) in enumerate(zip(g, w)):
            if not _close1(a, b, rtol, atol):
                self.fail(sig, f"at {k}: got {a!r} want {b!r} (rtol={rtol}, atol={atol}) {detail}")


def _listify(x):
    if x is None or isinstance(x, (int, float, str, bool, np.generic)):
        return [x]
    if hasattr(x, "to_list"):
        return x.to_list()
    if isinstance(x, np.ndarray):
        return x.ravel().tolist() if x.ndim else [x.item()]
    return list(x)


def _close1(a, b, rtol, atol):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        try:
            a, b = list(a), list(b)
        except TypeError:
            return False
        return len(a) == len(b) and all(_close1(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * abs(b)


def _same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        a, b = a.tolist(), b.tolist()
    if hasattr(a, "to_list"):
        a = a.to_list()
    if hasattr(b, "to_list"):
        b = b.to_list()
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


def _short(v, n=400):
    try:
        if hasattr(v, "to_dict") and hasattr(v, "width"):
            v = {c: v[c].to_list() for c in v.columns}
        elif hasattr(v, "to_list"):
            v = v.to_list()
        elif isinstance(v, np.ndarray):
            v = v.tolist()
    except Exception:
        pass
    s = repr(v)
    return s if len(s) <= n else s[:n] + f"...({len(s)} chars)"


def _full(v):
    return _short(v, 4000)


def run_case(prop, name, fn, i, seed, tier):
    """Returns a result record."""
    m = Monitor(prop, name, i, seed, tier)
    rec = {"case": name, "i": i}
    try:
        fn(m)
        rec["verdict"] = "held"
    except Refuted:
        rec["verdict"] = "violated"
    except Inconclusive as e:
        rec["verdict"] = "inconclusive"
        rec["why"] = str(e)[:200]
    except (MemoryError, OSError, ImportError, KeyboardInterrupt) as e:
        rec["verdict"] = "error"
        rec["why"] = f"{type(e).__name__}: {e}"[:300]
    except BaseException as e:
        tb = traceback.format_exc()
        if m.calls or "/polars_ds/" in tb:
            # The workload is deterministic in the seed, and the harness itself does not fail
            # on well-formed results: the real code returned something of the wrong shape/type.
            rec["verdict"] = "violated"
            kind = "raised" if "/polars_ds/" in tb else "malformed-result"
            m.violations.append({"sig": f"{getattr(m,'label',name)}:{kind}",
                                 "detail": f"{type(e).__name__}: {e}"[:300] + " | " + tb[-700:]})
        else:
            rec["verdict"] = "error"
            rec["why"] = tb[-800:]
    rec.update(observed=m.observed, calls=m.calls, states=sorted(m.states),
               digest=m.digest.hexdigest()[:16], violations=m.violations)
    if m.violations or i < 2:
        rec["context"] = m.context
    return rec
