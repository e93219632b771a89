"""C35: an independent adding-doubling calculation finds the same radiation."""
import numpy as np
from math import pi
from .. import adding, gen, ref, obs

CASES = dict(quick=5000, thorough=200000)
RULE = ("random problem over all features; every Fourier mode of the uncorrected field is recomputed at random depths by adding and doubling thin slabs, "
        "TMS and IMS terms added where active, and compared with all outputs; non-trivial = compared; distinct = signature")


def make(rng, index, tier):
    for _ in range(200):
        c = gen.gen(rng, nquads=[2, 4, 4, 6, 8, 8, 10, 12, 16] if index % 12 else [24, 32], layers=None if index % 12 else [1, 2, 3],
                    hi=0.9999 if index % 3 else None, only_flux=bool(rng.random() < 0.08))
        if gen.ims_ok(c) and len(c["tau"]) <= 30 and c["NQuad"] <= 32:
            return c
    raise RuntimeError("no case found")


def run(case, mon, rng):
    s = obs.Sol(case, mon)
    p = s.p
    t = obs.depths(rng, case, 6)
    phi = obs.azimuths(rng, case, 2)
    with np.errstate(all="ignore"):
        c = adding.solve(p, t)
    if not np.all(np.isfinite(c)):
        mon.event("left out: reference not finite")
        return
    got = s.fields(t, phi)
    N, W = p.N, np.concatenate([p.w, p.w])
    u0 = c[0]
    e = p.beam(t, p.layer(t)) * p.I0
    raw = np.exp(-t / p.mu0) * p.I0 if p.I0 > 0 else 0 * t
    mw = p.mu * p.w
    want = dict(u0=u0, Fp=2 * pi * mw @ u0[:N], Fm=2 * pi * mw @ u0[N:] + (e - raw) * p.mu0, Fdir=raw * p.mu0,
                act_up=2 * pi * p.w @ u0[:N], act_down=2 * pi * p.w @ u0[N:] + e - raw)
    if "u" in got:
        az = np.cos(np.arange(p.NF)[:, None] * (p.phi0 - phi)[None, :])
        want["u"] = np.einsum("mit,mf->itf", c, az)
        if gen.nt_active(case):
            want["u"] = want["u"] + ref.tms(p, t, phi) + ref.ims(p, t, phi)
            mon.event("NT-corrected fields")
    S = obs.src_scale(case)
    for q, x in want.items():
        mon.close("adding-doubling (%s)" % q, got[q], x, 3e-8, scale=max(np.max(np.abs(x)), S))
    mon.event("layers joined", p.L)
    mon.event("modes compared", p.NF)
