"""C31: finely interleaved layers act like one layer with mixed optical properties."""
import numpy as np
from .. import gen, ref, obs

CASES = dict(quick=1000, thorough=40000)
RULE = ("random problem of one to three layers, each a mixture (random proportion) of two constituents with different albedo, phase function and peak "
        "fraction and a common source polynomial; every layer is replaced by n and 2n symmetric stacks of pure sublayers (up to ~200 layers); "
        "differences to the mixture must vanish like 1/n^2 in every output; non-trivial = compared; distinct = signature")


def make(rng, index, tier):
    for _ in range(200):
        c = gen.gen(rng, layers=[1, 1, 2, 3], nquads=[2, 4, 4, 6, 8, 8, 12], hi=0.95, nt=bool(rng.random() < 0.5))
        L = len(c["tau"])
        # thin enough for the stacks to resolve every stream and the beam
        mu = min(ref.nodes(c["NQuad"] // 2)[0][0], c["mu0"] if c["I0"] > 0 else 1.0)
        t = rng.uniform(0.3, 1.0, L) * min(1.0, 5 * mu)
        c["tau"] = np.cumsum(t).tolist()
        x = rng.uniform(0.2, 0.8, L)
        om = np.array(c["omega"])
        Leg, f = np.array(c["Leg"]), np.zeros(L) if c["f"] is None else np.array(c["f"])
        omB = rng.uniform(0, 0.95, L) * (rng.random(L) < 0.85)
        LegB = np.array([gen.phase_moments(rng, Leg.shape[1]) for _ in range(L)])
        fB = np.zeros(L)
        if c["f"] is not None:
            fB = np.minimum(rng.uniform(0, 0.6, L), 0.9 * (1 + np.minimum(0, LegB[:, :c["NLeg"]].min(axis=1))) / 2)
        c["B"] = dict(x=x.tolist(), omega=omB.tolist(), Leg=LegB.tolist(), f=None if c["f"] is None else fB.tolist())
        c["A"] = dict(omega=om.tolist(), Leg=Leg.tolist(), f=None if c["f"] is None else f.tolist())
        m = mixture(c)
        s = stack(c, 2)
        mu0 = c["mu0"] if c["I0"] > 0 else None
        good = all(ref.well_posed(q["tau"], q["omega"], np.array(q["Leg"])[:, :q["NLeg"]], q["f"], q["NQuad"], q["NFourier"], mu0) for q in (m, s))
        if good and gen.nt_active(m) == gen.nt_active(s) and gen.ims_ok(m, 0.05) and gen.ims_ok(s, 0.05):
            c["n"] = int(rng.integers(6, 11))
            return c
    raise RuntimeError("no mixture found")


def strip(c):
    return {k: v for k, v in c.items() if k not in ("A", "B", "n")}


def mixture(c):
    A, B = c["A"], c["B"]
    x = np.array(B["x"])
    oa, ob = (1 - x) * np.array(A["omega"]), x * np.array(B["omega"])
    om = oa + ob
    d = np.where(om > 0, om, 1)
    mix = lambda a, b: ((oa.reshape(-1, *[1] * (a.ndim - 1)) * a + ob.reshape(-1, *[1] * (a.ndim - 1)) * b) / d.reshape(-1, *[1] * (a.ndim - 1)))
    Leg = mix(np.array(A["Leg"]), np.array(B["Leg"]))
    Leg[:, 0] = 1
    f = None if A["f"] is None else mix(np.array(A["f"]), np.array(B["f"])).tolist()
    return dict(strip(c), omega=om.tolist(), Leg=Leg.tolist(), f=f)


def stack(c, n):
    """n symmetric cells (half A, B, half A) per layer."""
    A, B = c["A"], c["B"]
    tau0 = np.concatenate([[0.0], c["tau"]])
    tau, om, Leg, f, s = [], [], [], [], []
    for l in range(len(c["tau"])):
        x = B["x"][l]
        e = np.linspace(tau0[l], tau0[l + 1], n + 1)
        for a, b in zip(e[:-1], e[1:]):
            h = b - a
            for q, end in ((A, a + h * (1 - x) / 2), (B, a + h * (1 + x) / 2), (A, b)):
                tau.append(float(end))
                om.append(q["omega"][l])
                Leg.append(q["Leg"][l])
                f.append(q["f"][l] if q["f"] is not None else 0.0)
                if c["s"] is not None:
                    s.append(c["s"][l])
    return dict(strip(c), tau=tau, omega=om, Leg=Leg, f=None if A["f"] is None else f, s=s if c["s"] is not None else None)


def run(case, mon, rng):
    L, n = len(case["tau"]), case["n"]
    tau0 = np.concatenate([[0.0], case["tau"]])
    # cell boundaries common to both stacks
    t = np.unique(np.concatenate([tau0] + [np.linspace(tau0[l], tau0[l + 1], n + 1)[rng.integers(1, n, 2)] for l in range(L)]))
    phi = obs.azimuths(rng, case, 2)
    m = mixture(case)
    S = obs.src_scale(m)
    M = obs.Sol(m, mon).fields(t, phi)
    q1, q2 = stack(case, n), stack(case, 2 * n)
    # boundaries of the stacks may differ from t by rounding: evaluate just at them
    F1, F2 = obs.Sol(q1, mon).fields(np.minimum(t, q1["tau"][-1]), phi), obs.Sol(q2, mon).fields(np.minimum(t, q2["tau"][-1]), phi)
    mon.event("stacks of %d-%d layers" % (50 * (len(q2["tau"]) // 50), 50 * (len(q2["tau"]) // 50) + 49))
    for k in M:
        d1, d2 = F1[k] - M[k], F2[k] - M[k]
        sc = max(np.max(np.abs(M[k])), S)
        n1 = np.max(np.abs(F1[k] - F2[k]))
        mon.check("interleaved layers approach the mixture (%s)" % k, d2, 0.6 * n1 + 1e-9 * sc)
        mon.check("second-order approach (%s)" % k, (4 * d2 - d1) / 3, 0.25 * n1 + 1e-9 * sc)
        mon.check("close to the mixture (%s)" % k, d2, 0.05 * sc)
    mon.event("mixtures" + (" with NT corrections" if gen.nt_active(m) else ""))
