"""C08: delta-M scaling equals hand scaling."""
import numpy as np
from .. import gen, ref, obs

CASES = dict(quick=2000, thorough=80000)
RULE = ("random valid problem with per-layer peak fractions (some zero, some layers not scattering, some up to 0.999 with albedos up to 0.99999) solved as given and with depths, "
        "albedos, coefficients and source polynomials scaled by hand; outputs compared at corresponding depths; plus the no-effect "
        "cases (all fractions zero; fractions changed in non-scattering layers); non-trivial = comparison decided; distinct = signature")


def make(rng, index, tier):
    c = gen.gen(rng, dm=True, nt=False, albedo="zeros" if index % 3 == 0 else None)
    if rng.random() < 0.1:
        return needle(rng) or c
    return c


def needle(rng):
    """Almost all scattering is in the peak, hardly any of it absorbed (ice crystals, large drops)."""
    c = gen.gen(rng, dm=True, nt=False, iso=False)
    L = len(c["tau"])
    Leg = np.array(c["Leg"])
    f = 1 - 10 ** rng.uniform(-3, -1, L)
    smooth = np.clip((Leg - 0.3) / 0.7, -0.6, 0.9)
    smooth[:, 0] = 1.0
    Leg = f[:, None] + (1 - f[:, None]) * smooth
    Leg[:, 0] = 1.0
    omega = 1 - 10 ** rng.uniform(-5, -1.5, L)
    tau = np.cumsum(np.diff(np.concatenate([[0], c["tau"]])) * 10 ** rng.uniform(0, 1.5))
    if not ref.well_posed(tau, omega, Leg[:, :c["NLeg"]], f, c["NQuad"], c["NFourier"], c["mu0"], spread=1e8):
        return None
    return dict(c, tau=tau.tolist(), omega=omega.tolist(), Leg=Leg.tolist(), f=f.tolist())


def hand_scaled(p):
    c = dict(p.case)
    c["tau"] = p.ts[1:].tolist()
    c["omega"] = p.om.tolist()
    c["Leg"] = p.g.tolist()
    c["f"] = None
    if p.s is not None:
        n = p.s.shape[1]
        out = np.zeros_like(p.s)
        for l in range(p.L):
            # tau = alpha + beta * tau_star
            beta = 1 / p.sc[l]
            alpha = p.tau0[l] - p.ts[l] * beta
            poly = np.zeros(n)
            pw = np.zeros(n)
            pw[0] = 1.0
            for k in range(n):
                poly = poly + p.s[l, k] * pw
                nxt = alpha * pw
                nxt[1:] = nxt[1:] + beta * pw[:-1]
                pw = nxt
            out[l] = poly
        c["s"] = out.tolist()
    return c


def run(case, mon, rng):
    p = ref.Problem(case)
    a = obs.Sol(case, mon)
    b = obs.Sol(hand_scaled(p), mon)
    t = obs.depths(rng, case, 8)
    ts = np.clip(p.tstar(t), 0, p.ts[-1])
    # interface depths: same layer on both sides
    phi = obs.azimuths(rng, case, 3)
    A, B = a.fields(t, phi), b.fields(ts, phi)
    S = obs.src_scale(case)
    sc = obs.scales({k: np.concatenate([A[k].ravel(), B[k].ravel()]) for k in A})
    mon.event("depths compared", len(t))
    mon.event("layers with peak", int(np.sum(p.f * p.omega > 0)))
    for k in ("u", "u0", "Fp", "act_up"):
        mon.check("hand scaling " + k, A[k] - B[k], 1e-8 * sc[k] + 1e-9 * S, field=k)
    mon.check("hand scaling total downward flux", A["Fm"] + A["Fdir"] - B["Fm"] - B["Fdir"], 1e-8 * sc["Fm"] + 1e-9 * S)
    I = case["I0"]
    if I > 0:
        mon.check("direct flux is unscaled", A["Fdir"] - I * p.mu0 * np.exp(-t / p.mu0), 1e-11 * I * p.mu0 * np.exp(-t / p.mu0) + 1e-290 * I)
        mon.check("hand scaling total downward actinic", A["act_down"] + I * np.exp(-t / p.mu0) - B["act_down"] - I * np.exp(-ts / p.mu0),
                  1e-8 * (sc["act_down"] + I) + 1e-9 * S)
    # no-effect cases
    k = rng.integers(0, 2)
    nt = bool(rng.random() < 0.5) and gen.beam_off_streams(case)
    if k == 0:
        c1, c2 = dict(case, f=[0.0] * p.L), dict(case, f=None)
        name = "zero fractions have no effect"
    else:
        if not np.any(p.omega == 0):
            return
        f = np.where(p.omega == 0, rng.uniform(0, 0.5, p.L), p.f)
        c1, c2 = dict(case, NT_cor=nt), dict(case, f=f.tolist(), NT_cor=nt)
        name = "fractions in non-scattering layers have no effect"
    if not (ref.well_posed(c1["tau"], c1["omega"], p.Leg_all[:, :case["NLeg"]], c1["f"], case["NQuad"], case["NFourier"], p.mu0)):
        return
    mon.event(name)
    A, B = obs.Sol(c1, mon).fields(t, phi), obs.Sol(c2, mon).fields(t, phi)
    for k in A:
        mon.close(name, A[k], B[k], 1e-9, scale=max(np.max(np.abs(A[k])), S))
