"""C20: positivity, bounds, monotonicity."""
import copy
import numpy as np
from math import pi
from .. import gen, ref, obs

CASES = dict(quick=3500, thorough=140000)
RULE = ("random atmosphere with non-negative finite-order phase functions (squared polynomials, Rayleigh, linear, isotropic) used in full with all azimuthal modes, "
        "non-negative sources and surface: all outputs must be non-negative; a second solve with one source or the surface albedo increased must nowhere be smaller; "
        "without beam outputs must not exceed the largest source, with a beam alone outgoing energy must not exceed the incoming; non-trivial = decided; distinct = signature")
ASSUMPTIONS = ["delta-M scaling only with a peak fraction whose removal leaves a non-negative phase function", "bounds decided up to 1e-8 of the source magnitude"]


def nonneg_phase(rng, n):
    """Legendre moments (length n) of a non-negative phase function of degree < n."""
    k = rng.choice(["iso", "lin", "sq", "sq", "ray"])
    g = np.zeros(n)
    g[0] = 1
    if k == "lin" and n > 1:
        g[1] = rng.uniform(-1 / 3, 1 / 3)
    elif k == "ray" and n > 2:
        g[2] = 0.1
    elif k == "sq":
        d = (n - 1) // 2
        q = rng.normal(size=d + 1) * 0.7 ** np.arange(d + 1)
        q[0] += 1.0
        q = q + rng.uniform(0, 1) * np.sqrt(2 * np.arange(d + 1) + 1)       # forward peaked
        p = np.polynomial.legendre.legmul(q, q)
        p = p / p[0]
        g[:len(p)] = p / (2 * np.arange(len(p)) + 1)
    return g


def make(rng, index, tier):
    for _ in range(300):
        c = gen.gen(rng, dm=False, nt=False, nleg="full", nfourier="full", nonneg=True, matrix_bc=False, hi=1 - 1e-6,
                    deg=int(rng.integers(0, 2)), beam=[True, False, True][index % 3], iso=[None, None, False][index % 3],
                    bc=["0"] if index % 3 == 2 else None)
        n = int(rng.integers(1, c["NQuad"] + 1))
        Leg = np.array([nonneg_phase(rng, n) for _ in c["tau"]])
        if np.any(np.abs(Leg[:, 1:]) > 0.97):
            continue
        c["NLeg"] = c["NFourier"] = n
        f = None
        if rng.random() < 0.4:
            # a forward peak of weight f on top of a non-negative remainder, which delta-M scaling recovers exactly
            f = rng.uniform(0, 0.95, len(Leg)) * (rng.random(len(Leg)) < 0.8)
            Leg = f[:, None] + (1 - f[:, None]) * Leg
            Leg[:, 0] = 1.0
        c["Leg"] = Leg.tolist()
        c["f"] = None if f is None else f.tolist()
        c["bdrf"] = c["bdrf"][:1]
        if c["bdrf"] and n > 1 and rng.random() < 0.5:
            # further modes, represented and small enough to keep the reflectance non-negative in every direction
            y = np.linspace(0, 1, 21)
            room = 0.99 * np.min(gen.bdrf_eval(c["bdrf"][0], y, y))
            nb = int(rng.integers(1, min(n - 1, 4) + 1))
            share = rng.dirichlet(np.ones(nb)) * room
            for m in range(1, nb + 1):
                a = float(share[m - 1] * rng.choice([-1, 1]))
                c["bdrf"].append(a if rng.random() < 0.3 else dict(k="sin", a=a / 1.5, b=float(rng.uniform(0, 0.5)), m=m))
        if not ref.well_posed(c["tau"], c["omega"], Leg, f, c["NQuad"], n, c["mu0"] if c["I0"] > 0 else None):
            continue
        c["incr"] = ["beam", "top", "bottom", "source", "surface"][int(rng.integers(0, 5))]
        return c
    raise RuntimeError("no case")


def albedo(case):
    """largest directional-hemispherical reflectance, on the quadrature (and for the beam)"""
    if not case["bdrf"]:
        return 0.0, None
    x, w = ref.nodes(case["NQuad"] // 2)
    R = 2 * gen.bdrf_eval(case["bdrf"][0], x, x)
    return R, (x, w)


def run(case, mon, rng):
    N = case["NQuad"] // 2
    x, w = ref.nodes(N)
    s = obs.Sol(case, mon)
    t = obs.depths(rng, case, 6)
    phi = obs.azimuths(rng, case, 3)
    S = obs.src_scale(case)
    A = s.fields(t, phi)
    tol = 1e-8
    for k, v in A.items():
        mon.check("non-negative " + k, np.minimum(v, 0), tol * S)
    mon.event("solutions checked for sign")
    # top: what is prescribed
    b = np.broadcast_to(np.asarray(case["b_neg"], float), (N,))
    pres = case["I0"] * case["mu0"] + 2 * pi * np.sum(w * x * b)
    d = s.down(0.0)
    mon.check("prescribed downward flux at the top", d[0] + d[1] - pres, 1e-9 * max(pres, S))
    # monotone
    c2 = copy.deepcopy(case)
    how = case["incr"]
    if how == "beam" and case["I0"] > 0:
        c2["I0"] *= float(1 + rng.random())
    elif how in ("top", "bottom"):
        kk = "b_neg" if how == "top" else "b_pos"
        v = np.broadcast_to(np.asarray(case[kk], float), (N,)).copy()
        v[int(rng.integers(0, N))] += S * rng.uniform(0.05, 1)
        c2[kk] = v.tolist()
    elif how == "source" and case["s"] is not None:
        l = int(rng.integers(0, len(case["tau"])))
        c2["s"][l][0] += S * float(rng.uniform(0.05, 1))
    elif how == "surface":
        if not case["bdrf"]:
            c2["bdrf"] = [float(rng.uniform(0.05, 0.9))]
        else:
            R = 2 * gen.bdrf_eval(case["bdrf"][0], x, x) @ (x * w)
            f = 1 + min(1.0, 0.9 * max(0.0, 1 / np.max(R) - 1)) * rng.random()
            if isinstance(case["bdrf"][0], dict):
                c2["bdrf"][0]["a"] *= f
            else:
                c2["bdrf"][0] *= f
    else:
        c2 = None
    if c2 is not None:
        B = obs.Sol(c2, mon).fields(t, phi)
        for k in A:
            if k == "Fdir" and how == "surface":
                continue
            mon.check("monotone in %s: %s" % (how, k), np.minimum(B[k] - A[k], 0), tol * max(S, obs.src_scale(c2)))
        mon.event("monotonicity pairs: " + how)
    # bounds
    rho = np.zeros(N)
    if case["bdrf"]:
        rho = 2 * gen.bdrf_eval(case["bdrf"][0], x, x) @ (x * w)
    if case["I0"] == 0 and np.max(rho) < 1 - 1e-6:
        mx = np.max(b)
        mx = max(mx, np.max(np.broadcast_to(np.asarray(case["b_pos"], float), (N,)) / (1 - rho)))
        if case["s"] is not None:
            p = s.p
            for l in range(p.L):
                mx = max(mx, p.source(p.tau0[l], l), p.source(p.tau[l], l))
        for k in ("u0", "u"):
            mon.check("maximum principle " + k, np.maximum(A[k] - mx, 0), tol * max(mx, S))
        for k, f in (("Fp", pi), ("Fm", pi), ("act_up", 2 * pi), ("act_down", 2 * pi)):
            mon.check("maximum principle " + k, np.maximum(A[k] - f * mx, 0), tol * f * max(mx, S))
        mon.event("maximum principles")
    only_beam = case["I0"] > 0 and case["s"] is None and np.all(np.asarray(case["b_pos"]) == 0) and np.all(b == 0)
    col = np.zeros(N)
    if case["bdrf"]:
        col = 2 * (x * w) @ gen.bdrf_eval(case["bdrf"][0], x, np.append(x, case["mu0"]))
    if only_beam and np.max(col) <= 1:
        E = case["I0"] * case["mu0"]
        T = case["tau"][-1]
        dn = s.down(T)
        net = dn[0] + dn[1] - s.up(T)
        mon.check("outgoing energy does not exceed incoming", np.maximum(s.up(0.0) + net - E, 0), tol * E)
        mon.check("reflected energy does not exceed incoming", np.maximum(s.up(0.0) - E, 0), tol * E)
        mon.check("surface does not gain energy", np.minimum(net, 0), tol * E)
        mon.event("energy bounds")
