"""C16: NT corrections."""
import numpy as np
from .. import gen, ref, obs

CASES = dict(quick=2200, thorough=88000)
RULE = ("random problem solved with the NT switch off and on: where the documented conditions hold, the difference must equal an independent "
        "layer-by-layer TMS recurrence plus a numerically integrated IMS term at random depths, azimuths and all streams; otherwise the difference must "
        "vanish; fluxes, azimuthal mean and antiderivatives of fluxes compared in all cases; thick atmospheres included; non-trivial = compared; distinct = signature")
ASSUMPTIONS = ["peak fraction strictly below one", "the effective beam cosine of the IMS closed form is kept 1e-4 (in reciprocal) away from stream cosines (removable singularity), and the rounding of that closed form is allowed for"]


def make(rng, index, tier):
    k = index % 6
    for _ in range(60):
        if k == 0:      # switch must be inert
            c = gen.gen(rng, ims=1e-4, nt=True, beam=bool(rng.random() < 0.5), dm=bool(rng.random() < 0.5))
            c["NT_cor"] = True
        elif k == 1:    # thick
            c = gen.gen(rng, ims=1e-4, nt=True, beam=True, dm=True, thick="thick", layers=[1, 2, 3, 5])
            fac = float(10 ** rng.uniform(0, 2))
            if c["s"] is None:
                c["tau"] = (np.array(c["tau"]) * fac).tolist()
        else:
            c = gen.gen(rng, ims=1e-4, nt=True, beam=True, dm=True)
        if k == 2 and gen.nt_active(c):      # effective beam cosine close to a stream
            p = ref.Problem(c)
            dt = np.diff(p.tau0)
            wf = np.sum(p.f * p.omega * dt) / np.sum(dt)
            m = (1 - wf) / (1 / float(rng.choice(p.mu)) + 10 ** rng.uniform(-3.9, -1.3) * rng.choice([-1, 1]))
            if 0.02 < m < 1 and np.min(np.abs(p.mu - m)) > 2e-3 and ref.well_posed(c["tau"], c["omega"], np.array(c["Leg"])[:, :c["NLeg"]], c["f"], c["NQuad"], c["NFourier"], m):
                c["mu0"] = float(m)
        if (k == 0 or gen.nt_active(c)) and gen.ims_ok(c, 1e-4):
            return c
    c = gen.gen(rng, ims=1e-4, nt=True, beam=False)
    return c


def run(case, mon, rng):
    off = obs.Sol(case, mon, NT_cor=False)
    on = obs.Sol(case, mon, NT_cor=True)
    p = on.p
    t = obs.depths(rng, case, 6)
    phi = obs.azimuths(rng, case, int(rng.integers(2, 4)))
    S = obs.src_scale(case)
    a, b = off.fields(t, phi), on.fields(t, phi)
    mon.true("corrected intensity is finite", bool(np.all(np.isfinite(b["u"]))))
    for anti in (False, True):
        x, y = (a, b) if not anti else (off.fields(t, anti=True), on.fields(t, anti=True))
        for k in x:
            if k != "u":
                mon.close("fluxes and mean untouched", x[k], y[k], 1e-11, scale=max(np.max(np.abs(x[k])), S), field=k)
    d = b["u"] - a["u"]
    M = max(np.max(np.abs(a["u"])), np.max(np.abs(b["u"])))
    if gen.nt_active(case):
        T, I = ref.tms(p, t, phi), ref.ims(p, t, phi)
        w = T + I
        scale = np.max(np.abs(T)) + np.max(np.abs(I))
        noise = gen.ims_noise(case)[:, None, None]
        mon.event("active corrections")
        mon.event("active corrections, %s layers" % ("1" if p.L == 1 else "several"))
        mon.check("correction = TMS + IMS", d - w, 1e-8 * scale + 1e-11 * M + noise, layers=p.L)
        # local scale: the part of the correction that is not lost in the rounding of the intensity
        loc = np.max(np.abs(T), axis=2, keepdims=True) + np.max(np.abs(I), axis=2, keepdims=True)
        mon.check("correction = TMS + IMS (per depth and stream)", d - w, 1e-6 * loc + 1e-9 * np.max(np.abs(w), axis=(0, 2), keepdims=True) + 1e-11 * M + noise)
        mon.true("switch has an effect", bool(np.any(d != 0)) or scale < 1e-10 * M)
    else:
        mon.event("inert switch")
        mon.check("switch changes nothing", d, 1e-12 * max(M, S))
