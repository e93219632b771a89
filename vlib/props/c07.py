"""C07: layer subdivision invariance."""
import numpy as np
from .. import gen, ref, obs

CASES = dict(quick=3000, thorough=120000)
RULE = ("random valid problem solved twice: as generated and with 1-4 of its layers cut into 2-6 sublayers with the same properties "
        "(total up to ~20 layers, crossing the banded-solver threshold); all outputs compared at random depths, old and new interfaces; "
        "non-trivial = all outputs compared; distinct = signature plus split pattern")


def make(rng, index, tier):
    c = gen.gen(rng, layers=[33, 50, 62, 100] if rng.random() < 0.012 else [1, 1, 2, 2, 3, 3, 4, 5, 6, 8], nt=bool(rng.random() < 0.6), dm=True if rng.random() < 0.6 else None)
    L = len(c["tau"])
    cuts = {}
    for l in rng.permutation(L)[: int(rng.integers(1, min(L, 4) + 1))]:
        k = int(rng.integers(1, 6))
        cuts[str(int(l))] = sorted(rng.uniform(0.02, 0.98, k).tolist())
    c["cuts"] = cuts
    c["banded2"] = int(rng.choice([3, 10, 99]))
    return c


def signature(c):
    return gen.features(c) + " cuts " + ",".join("%s:%d" % (k, len(v)) for k, v in sorted(c["cuts"].items()))


def split(case):
    tau, src = [], []
    t0 = 0.0
    for l, t in enumerate(case["tau"]):
        for x in case["cuts"].get(str(l), []):
            v = t0 + x * (t - t0)
            if v > (tau[-1] if tau else 0.0) and v < t:
                tau.append(v)
                src.append(l)
        tau.append(t)
        src.append(l)
        t0 = t
    c = dict(case)
    c["tau"] = tau
    for k in ("omega", "Leg", "f", "s"):
        if case[k] is not None:
            c[k] = [case[k][l] for l in src]
    c["banded"] = case["banded2"]
    return c


def run(case, mon, rng):
    c2 = split(case)
    a, b = obs.Sol(case, mon), obs.Sol(c2, mon)
    phi = obs.azimuths(rng, case, 3)
    t = np.concatenate([obs.depths(rng, case, 5), rng.choice(c2["tau"], 3)])
    A, B = a.fields(t, phi), b.fields(t, phi)
    sc = obs.scales({k: np.concatenate([A[k].ravel(), B[k].ravel()]) for k in A})
    S = obs.src_scale(case)
    mon.event("layers before", len(case["tau"]))
    mon.event("layers after", len(c2["tau"]))
    for k in A:
        nt = k == "u" and gen.nt_active(case)
        mon.check("subdivision invariance " + k + (" (NT)" if nt else ""), A[k] - B[k], 1e-8 * sc[k] + 3e-9 * S, field=k)
