"""Monitor: records observations (events) and decides them against tolerances; three-valued verdicts."""
import os
import numpy as np


# calibration aid: a value below one reports near misses as well
LIMIT = float(os.environ.get("VERIF_LIMIT", "1"))


class Skip(Exception):
    """The generated case is outside what the oracle can decide (never a verdict)."""


class Monitor:
    def __init__(self):
        self.events = {}      # kind -> count
        self.checks = {}      # oracle -> [evaluations, max ratio, where]
        self.violations = []  # dicts

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def check(self, oracle, err, tol, **detail):
        """err, tol: arrays or scalars. Violation where not (err <= tol). NaN in err violates."""
        err = np.abs(np.asarray(err, dtype=float))
        tol = np.asarray(tol, dtype=float)
        c = self.checks.setdefault(oracle, [0, 0.0, None])
        c[0] += int(err.size)
        if err.size == 0:
            return
        with np.errstate(all="ignore"):
            ratio = np.where(err == 0, 0.0, err / tol)
        ratio = np.where(np.isnan(ratio), np.inf, ratio)
        r = float(np.max(ratio))
        if r > c[1]:
            c[1] = r
        if r > LIMIT:
            self.violations.append(dict(oracle=oracle, ratio=r, err=float(np.max(np.where(np.isnan(err), np.inf, err))),
                                        detail={k: _j(v) for k, v in detail.items()}))

    def close(self, oracle, a, b, rtol, scale=None, atol=0.0, **detail):
        """a and b agree within rtol * scale (scale: scalar/array; default max(|a|,|b|) over all entries)."""
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            self.fail(oracle, "shape %s != %s" % (a.shape, b.shape), **detail)
            return
        if scale is None:
            scale = max(np.max(np.abs(a), initial=0), np.max(np.abs(b), initial=0))
        self.check(oracle, a - b, rtol * np.asarray(scale) + atol, **detail)

    def true(self, oracle, ok, **detail):
        c = self.checks.setdefault(oracle, [0, 0.0, None])
        c[0] += 1
        if not ok:
            self.fail(oracle, "false", count=False, **detail)

    def fail(self, oracle, why, count=True, **detail):
        c = self.checks.setdefault(oracle, [0, 0.0, None])
        c[0] += 1 if count else 0
        c[1] = float("inf")
        d = {k: _j(v) for k, v in detail.items()}
        d["why"] = why
        self.violations.append(dict(oracle=oracle, ratio=float("inf"), err=None, detail=d))

    def merge(self, other):
        for k, n in other.events.items():
            self.event(k, n)
        for k, (n, r, w) in other.checks.items():
            c = self.checks.setdefault(k, [0, 0.0, None])
            c[0] += n
            if r > c[1]:
                c[1], c[2] = r, w
        self.violations.extend(other.violations)


def _j(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [_j(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _j(x) for k, x in v.items()}
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)
