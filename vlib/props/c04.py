"""C04: fluxes are moments of the intensity."""
import numpy as np
from math import pi
from .. import gen, ref, obs

CASES = dict(quick=4000, thorough=160000)
RULE = ("random valid problem (NT on or off); energetic and actinic fluxes, mean intensity and intensity on an azimuth grid are read at "
        "random depths, interfaces and both ends and the moment relations are formed; a second solve with another azimuthal truncation "
        "and NT switched must give the same fluxes; non-trivial = relations decided; distinct = signature")


def make(rng, index, tier):
    return gen.gen(rng)


def run(case, mon, rng):
    s = obs.Sol(case, mon)
    p = s.p
    N = p.N
    t = obs.depths(rng, case, 9 if rng.random() < 0.97 else 120)
    d = s.fields(t)
    u0 = d["u0"]
    S = obs.src_scale(case)
    sc = max(np.max(np.abs(u0)), 0)
    if case["I0"] > 0:
        Idir = case["I0"] * np.exp(-t / p.mu0)
        Idirs = case["I0"] * np.exp(-p.tstar(t) / p.mu0)
    else:
        Idir = Idirs = np.zeros(len(t))
    mu0 = p.mu0 if case["I0"] > 0 else 0.0
    tol = 1e-10 * (pi * sc + Idir) + 1e-10 * pi * S
    wm = 2 * pi * p.w * p.mu
    w = 2 * pi * p.w
    for nm, fn, k in (("Fp", s.Fp, 0), ("Fm", s.Fm, 0), ("Fdir", s.Fm, 1), ("act_up", s.acts()[0], 0), ("act_down", s.acts()[1], 0)):
        mon.check("same moments when depths are asked back (%s)" % nm, np.reshape(fn(t, return_tau_arr=True)[k], len(t)) - d[nm], tol)
    mon.check("direct flux Beer law", d["Fdir"] - mu0 * Idir, 1e-11 * mu0 * Idir + 1e-290 * case["I0"])
    mon.check("upward flux moment", d["Fp"] - wm @ u0[:N], tol)
    mon.check("downward flux moment", d["Fm"] - (wm @ u0[N:] + mu0 * (Idirs - Idir)), tol)
    mon.check("upward actinic moment", d["act_up"] - w @ u0[:N], tol)
    mon.check("downward actinic moment", d["act_down"] - (w @ u0[N:] + Idirs - Idir), tol)
    if np.any(p.f * p.omega > 0) and case["I0"] > 0:
        mon.event("reclassified depths", len(t))
    # azimuthal mean of the uncorrected intensity
    v = s if not gen.nt_active(case) else obs.Sol(case, mon, NT_cor=False)
    cm, sm, sup = ref.modes_of(v.uf, p, t)
    mon.check("azimuthal mean of u is u0", cm[0] - u0, 1e-10 * max(sup, sc) + 1e-10 * S)
    # truncation and NT do not matter
    if rng.random() < 0.6:
        nf = int(rng.integers(1, case["NLeg"] + 1))
        if nf > p.NF and not ref.well_posed(p.tau, p.omega, p.Leg_all[:, :case["NLeg"]], case["f"], case["NQuad"], nf,
                                            p.mu0 if case["I0"] > 0 else None):
            nf = p.NF
        over = dict(NFourier=nf, NT_cor=not case["NT_cor"] and gen.beam_off_streams(case))
        for b in ("b_pos", "b_neg"):
            if np.ndim(case[b]) == 2:
                m = np.array(case[b])
                over[b] = np.concatenate([m, np.zeros((N, nf))], axis=1)[:, :nf]
        o = obs.Sol(case, mon, **over).fields(t)
        for k in o:
            mon.check("fluxes unaffected by NFourier/NT (%s)" % k, o[k] - d[k], 1e-9 * (pi * sc + Idir) + 1e-9 * S)
