"""C03: continuity across interfaces."""
import numpy as np
from .. import gen, ref, obs

CASES = dict(quick=4000, thorough=160000)
RULE = ("random valid problem with 2-28 layers, NT corrections on or off; all outputs are read at every interior interface and one ulp "
        "below it (which the solver attributes to the next layer); non-trivial = at least one interface compared; distinct = signature")


def make(rng, index, tier):
    many = rng.random() < 0.012
    c = gen.gen(rng, layers=[40, 64, 65, 70, 100, 130, 200] if many else [l for l in gen.LAYERS if l > 1], nt=bool(rng.random() < 0.5), dm=True if rng.random() < 0.7 else None, ims=1e-4)
    return gen.low_beam(rng, c)


def run(case, mon, rng):
    s = obs.Sol(case, mon)
    p = s.p
    t = p.tau[:-1]
    tb = np.nextafter(t, np.inf)
    phi = obs.azimuths(rng, case, 3)
    A, B = s.fields(t, phi), s.fields(tb, phi)
    sc = obs.scales({k: np.concatenate([A[k].ravel(), B[k].ravel()]) for k in A})
    S = obs.src_scale(case)
    mon.event("interfaces", len(t))
    if gen.nt_active(case):
        mon.event("interfaces with NT", len(t))
    for k in A:
        mon.check("continuity " + k + (" (NT)" if k == "u" and gen.nt_active(case) else ""), A[k] - B[k],
                  1e-8 * sc[k] + 1e-9 * S + (gen.ims_noise(case)[:, None, None] if k == "u" else 0), field=k)
        mon.true("finite " + k, bool(np.all(np.isfinite(A[k])) and np.all(np.isfinite(B[k]))), field=k)
