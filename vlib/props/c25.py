"""C25: any slab cut out of an atmosphere, driven by the radiation found at its faces, reproduces the radiation inside."""
import numpy as np
from .. import gen, ref, obs

CASES = dict(quick=4000, thorough=160000)
RULE = ("random valid problem solved; a slab between two depths (the ends, interfaces or inside layers) is cut out and solved on its own with the "
        "depth origin moved to its top: remaining part layers, source polynomials shifted, beam attenuated to the cut, and the intensity found at "
        "the cuts as mode-by-mode boundary sources (the surface is kept, or replaced by the upward intensity found above it); all outputs compared "
        "at depths and interfaces of the slab; non-trivial = outputs compared; distinct = signature plus cut layers")


def make(rng, index, tier):
    c = gen.gen(rng, nt=False)
    L = len(c["tau"])
    t0 = [0.0] + c["tau"]

    def cut():
        l = int(rng.integers(0, L))
        if rng.random() < 0.4:
            return t0[l]
        return float(t0[l] + rng.uniform(0.02, 0.98) * (t0[l + 1] - t0[l]))
    a, b = sorted([cut(), cut()])
    mode = rng.random()
    if mode < 0.25:
        a = 0.0
    if mode > 0.6 or a == b:
        b = t0[-1]
    c["cut"] = [a, b]
    c["keep_surface"] = bool(b == t0[-1] and rng.random() < 0.5)
    c["banded2"] = int(rng.choice([3, 10, 99]))
    c["flux2"] = bool(rng.random() < 0.15)
    return c


def signature(c):
    return gen.features(c) + " cut %d-%d %s%s" % (np.searchsorted(c["tau"], c["cut"][0], side="right"), np.searchsorted(c["tau"], c["cut"][1]),
                                                 "s" if c["keep_surface"] else "-", "f" if c["flux2"] else "")


def shift(poly, a):
    """coefficients of q(x) = p(x + a)"""
    p = np.polynomial.polynomial.Polynomial(poly)
    q = p(np.polynomial.polynomial.Polynomial([a, 1.0])).coef
    return np.concatenate([q, np.zeros(len(poly) - len(q))])


def run(case, mon, rng):
    A = obs.Sol(case, mon)
    p = A.p
    a, b = case["cut"]
    tau = np.array(case["tau"])
    la, lb = int(np.searchsorted(tau, a, side="right")), int(np.searchsorted(tau, b, side="left"))
    ls = range(la, lb + 1)
    cm, sm, sup = ref.modes_of(A.uf, p, np.array([a, b]))
    mon.event("points:u", cm.size)
    N = p.N
    ts = float(p.ts[la] + p.sc[la] * (a - p.tau0[la]))
    c2 = dict(case)
    bounds = [float(x) for x in tau[la:lb]] + [b]
    c2["tau"] = [x - a for x in bounds]
    if np.min(np.diff([0.0] + c2["tau"])) <= 0:
        return
    for k in ("omega", "Leg", "f", "s"):
        if case[k] is not None:
            c2[k] = [case[k][l] for l in ls]
    if case["s"] is not None:
        c2["s"] = [shift(x, a).tolist() for x in c2["s"]]
    I1 = case["I0"] * np.exp(-ts / p.mu0) if p.I0 > 0 else 0.0
    c2["I0"] = float(I1)
    c2["banded"] = case["banded2"]
    NF = 1 if case["only_flux"] else case["NFourier"]
    c2["b_neg"] = np.array([cm[m][N:, 0] for m in range(NF)]).T.tolist()
    if not case["keep_surface"]:
        c2["b_pos"] = np.array([cm[m][:N, 1] for m in range(NF)]).T.tolist()
        c2["bdrf"] = []
    if case["flux2"]:
        c2["only_flux"] = True
    B = obs.Sol(c2, mon)
    t = np.concatenate([a + (b - a) * rng.random(4), bounds, [a]])
    if len(t) > 14:
        t = np.concatenate([t[:4], rng.choice(t[4:], 8), [a, b]])
    t = np.clip(t, a, b)
    t2 = np.clip(t - a, 0.0, c2["tau"][-1])
    phi = obs.azimuths(rng, case, 3)
    FA, FB = A.fields(t, phi), B.fields(t2, phi)
    # the layers inside are the same, depth arithmetic rounds at the size of the whole atmosphere
    S = obs.src_scale(case)
    I = max(np.max(np.abs(FA["u0"])), np.max(np.abs(FA["u"])), np.max(np.abs(FB["u0"])))
    S = max(S, obs.src_scale(c2)) if np.isfinite(obs.src_scale(c2)) else S
    tol = 1e-9 * I + 5e-10 * S
    mon.event("slabs")
    mon.event("slab layers", len(c2["tau"]))
    mon.check("mean intensity in the slab", FA["u0"] - FB["u0"], tol)
    if "u" in FB:
        mon.check("intensity in the slab", FA["u"] - FB["u"], tol)
    mon.check("upward flux in the slab", FA["Fp"] - FB["Fp"], np.pi * tol)
    mon.check("total downward flux in the slab", FA["Fm"] + FA["Fdir"] - FB["Fm"] - FB["Fdir"], np.pi * tol + 1e-9 * p.I0)
    mon.check("upward actinic flux in the slab", FA["act_up"] - FB["act_up"], 2 * np.pi * tol)
    da, db = (p.I0 * np.exp(-t / p.mu0), I1 * np.exp(-t2 / p.mu0)) if p.I0 > 0 else (0.0, 0.0)
    mon.check("total downward actinic flux in the slab", FA["act_down"] + da - FB["act_down"] - db, 2 * np.pi * tol + 1e-9 * p.I0)
    mon.check("direct flux refers to the unscaled beam of the slab", FB["Fdir"] - p.mu0 * db, 1e-10 * p.I0)
