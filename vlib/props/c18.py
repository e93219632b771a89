"""C18: isothermal equilibrium."""
import numpy as np
from math import pi
from .. import gen, ref, obs
from .c21 import band, A2

CASES = dict(quick=6000, thorough=240000)
RULE = ("random layers, albedos, phase functions, peak fractions and surface; constant internal source B, top source B, bottom source = emissivity "
        "(helper) times B: intensity must equal B in all directions at all depths, fluxes pi*B, net flux zero; boundary sources given as scalars, vectors "
        "or matrices, source as degree 0..3 polynomial with zero higher coefficients, or all sources from the blackbody helpers for one temperature and B from an independent Planck integral; non-trivial = compared; distinct = signature")


def make(rng, index, tier):
    c = gen.gen(rng, beam=False, iso=True, deg=0, nt=None, only_flux=bool(rng.random() < 0.15), hi=0.9999)
    L, N = len(c["tau"]), c["NQuad"] // 2
    B = float(10 ** rng.uniform(-3, 4))
    d = int(rng.choice([0, 0, 1, 2, 3]))
    c["B"] = B
    c["s"] = np.concatenate([np.full((L, 1), B), np.zeros((L, d))], axis=1).tolist()
    if c["bdrf"]:
        c["bdrf"] = c["bdrf"][:max(1, c["NFourier"])]
    c["bform"] = int(rng.integers(0, 3))
    if rng.random() < 0.35:
        # thermal: everything from the blackbody helpers, B from an independent integral of Planck's law
        T = float(10 ** rng.uniform(1, 3.8))
        lo = float(rng.choice([0.0, 10 ** rng.uniform(-1, 0.7)])) * T / A2
        c["thermal"] = dict(T=T, lo=lo, hi=lo + float(10 ** rng.uniform(-1, 1)) * T / A2)
        c["B"] = band(T, lo, c["thermal"]["hi"])
        c["s"] = None
    return c


def run(case, mon, rng):
    N, NF = case["NQuad"] // 2, (1 if case["only_flux"] else case["NFourier"])
    B = case["B"]
    em = 1.0
    if case["bdrf"]:
        m0 = gen.bdrf_list(case)[0]
        em = obs.SUB.generate_emissivity_from_BDRF(N, m0)
        x, w = ref.nodes(N)
        want = 1 - 2 * gen.bdrf_eval(case["bdrf"][0], x, x) @ (x * w)
        mon.true("emissivity shape", np.shape(em) in ((), (N,)))
        mon.check("emissivity is one minus directional-hemispherical reflectance", np.broadcast_to(em, (N,)) - want, 1e-12)
        mon.event("emissivities")
    case = dict(case)
    v = np.broadcast_to(np.asarray(em, float) * B, (N,))
    form = case["bform"]
    top, slack = np.full(N, B), 0.0
    if case.get("thermal"):
        h = case["thermal"]
        Bh = obs.SUB.blackbody_contrib_to_BCs(h["T"], h["lo"], h["hi"])
        mon.true("band emission is a number", np.shape(Bh) == ())
        v, top, slack = np.broadcast_to(np.asarray(em, float) * float(Bh), (N,)), np.full(N, float(Bh)), 1e-6
        tau = case["tau"][0] if len(case["tau"]) == 1 and case["bform"] == 0 else np.array(case["tau"])
        s_poly = obs.SUB.generate_s_poly_coeffs(tau, np.full(len(case["tau"]) + 1, h["T"]), h["lo"], h["hi"])
        case["s"] = np.asarray(s_poly).tolist()
        mon.event("enclosures at a temperature")

    def shape(v):
        if form == 0 and np.all(v == v[0]):
            return float(v[0])
        if form <= 1:
            return v.tolist()
        m = np.zeros((N, NF))
        m[:, 0] = v
        return m.tolist()
    case["b_pos"], case["b_neg"] = shape(v), shape(top)
    s = obs.Sol(case, mon)
    p = s.p
    t = obs.depths(rng, case, 6)
    phi = obs.azimuths(rng, case, 3)
    f = s.fields(t, phi)
    # rounding errors are amplified by up to 1/(1 - albedo) through the smallest eigenvalues
    k2, _ = ref.spectrum(p.tau, p.omega, p.Leg_all[:, :case["NLeg"]], p.f, case["NQuad"], 1)
    amp = 1 / max(np.min(k2.real), 1e-8) if k2.size else 1.0
    rt = 1e-9 + 1e-12 * amp + slack
    mon.check("mean intensity equals B", f["u0"] - B, rt * B)
    if "u" in f:
        mon.check("intensity equals B in every direction", f["u"] - B, rt * B)
    mon.check("upward flux equals pi B", f["Fp"] - pi * B, rt * pi * B)
    mon.check("downward flux equals pi B", f["Fm"] - pi * B, rt * pi * B)
    mon.check("net flux vanishes", f["Fp"] - f["Fm"] - f["Fdir"], rt * pi * B)
    mon.check("no direct flux", f["Fdir"], 0.0)
    mon.check("actinic fluxes equal 2 pi B", np.concatenate([f["act_up"], f["act_down"]]) - 2 * pi * B, rt * pi * B)
