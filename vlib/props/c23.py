"""C23: extreme regimes."""
import copy
import numpy as np
from math import pi
from .. import gen, ref, obs

CASES = dict(quick=3500, thorough=140000)
KINDS = ["finite", "finite", "vanish", "deep", "beer", "beer", "small", "decay"]
RULE = ("random problems at extreme values (thickness 1e-9..5000, albedo 0..1-1e-6, beam cosine 0.005..1, up to 40 layers): all outputs finite; optically vanishing layers "
        "inserted at random positions; the atmosphere below a thick absorbing layer replaced; non-scattering stacks against Beer's law with analytic emission and surface "
        "reflection; albedo ladders 1e-16..1e-4 against the non-scattering limit; radiation attenuated by up to 100 orders of magnitude above a black surface: layers cut up, Beer's law and the diffusion exponent, all to relative accuracy; non-trivial = decided; distinct = kind x signature")


def signature(c):
    return c["kind"] + " " + gen.features(c)


def extreme(rng, k):
    beam = bool(rng.random() < 0.7)
    L = int(rng.choice([1, 2, 3, 5, 8, 12, 20, 40]))
    NQ = int(rng.choice([2, 4, 6, 8, 16])) if L <= 8 else int(rng.choice([2, 4, 6]))
    nt = bool(rng.random() < 0.4)
    c = gen.gen(rng, layers=[1], nquads=[NQ], beam=False, iso=bool(rng.random() < 0.4), deg=int(rng.choice([0, 1])), nt=nt)
    N, n = NQ // 2, c["NLeg"]
    na = len(c["Leg"][0])
    st = rng.choice(["all", "thick", "thin", "mixed"])
    t = dict(all=10 ** rng.uniform(-9, 3.5, L), thick=10 ** rng.uniform(1, 3.5, L), thin=10 ** rng.uniform(-9, -2, L),
             mixed=np.where(rng.random(L) < 0.5, 10 ** rng.uniform(-9, -3, L), 10 ** rng.uniform(0, 3, L)))[st]
    tau = np.cumsum(t)
    keep = np.concatenate([[True], np.diff(tau) > 1e-13 * tau[1:]])
    tau, L = tau[keep], int(np.sum(keep))
    om = np.where(rng.random(L) < 0.2, 0.0, np.where(rng.random(L) < 0.4, 1 - 10 ** rng.uniform(-6, -2, L), rng.random(L) * 0.99))
    if rng.random() < 0.2:
        om = np.where(rng.random(L) < 0.5, 10 ** rng.uniform(-14, -2, L), om)
    Leg = np.array([gen.phase_moments(rng, na) for _ in range(L)])
    f = None
    if rng.random() < 0.5:
        fm = 0.9 * (1 + np.minimum(0, Leg[:, :n].min(axis=1))) / 2
        f = np.clip(Leg[:, n] if na > n else rng.uniform(0, 0.6, L), 0, fm)
    c.update(tau=tau.tolist(), omega=om.tolist(), Leg=Leg.tolist(), f=None if f is None else f.tolist(), banded=int(rng.choice([3, 10, 99])))
    if c["s"] is not None:
        d = len(c["s"][0])
        c["s"] = (rng.uniform(0.1, 1, (L, d)) / max(tau[-1], 1.0) ** np.arange(d)).tolist()
    if beam:
        c["I0"] = float(10 ** rng.uniform(-2, 3))
        c["mu0"] = float(rng.choice([10 ** rng.uniform(-2.3, -1), rng.uniform(0.1, 1), 1.0, 1 - 1e-9]))
        c["phi0"] = float(rng.uniform(0, 6.28))
        if np.min(np.abs(ref.nodes(N)[0] - c["mu0"])) < 2e-3:
            return None
    else:
        c["NT_cor"] = False
        if c["s"] is None:
            c["b_neg"] = 1.0
    if not ref.well_posed(tau, om, Leg[:, :n], f, NQ, c["NFourier"], c["mu0"] if beam else None):
        return None
    if not gen.ims_ok(c):
        return None
    return c


def make(rng, index, tier):
    k = KINDS[index % len(KINDS)]
    if k == "finite":
        for _ in range(400):
            c = extreme(rng, k)
            if c is not None:
                break
        else:
            c = gen.gen(rng, thick="thick")
    elif k == "vanish":
        c = gen.gen(rng, nt=False)
    elif k == "deep":
        c = gen.gen(rng, layers=[1, 2, 3], nt=None, deg=0)
        if not gen.ims_ok(c):
            c["NT_cor"] = False
    elif k == "beer":
        c = gen.gen(rng, nt=False, deg=0)
        c["omega"] = [0.0] * len(c["tau"])
        if c["I0"] > 0 and rng.random() < 0.3:
            c["mu0"] = float(10 ** rng.uniform(-6, -1.5))
        if rng.random() < 0.3:
            c["tau"] = (np.array(c["tau"]) * 10 ** rng.uniform(-4, 3)).tolist()
    elif k == "decay":
        while True:
            c = gen.gen(rng, nt=False, iso=False, layers=[1, 1, 2, 3, 5, 12, 30], bdrf=False, hi=0.99)
            c.update(s=None, bdrf=[], b_pos=0)
            T, L = float(rng.uniform(20, 200)), len(c["tau"])
            d = rng.random(L) + 0.05
            c["tau"] = np.cumsum(d / d.sum() * T).tolist()
            z = rng.random()
            if z < 0.5:                                 # homogeneous
                for a in ("omega", "Leg", "f"):
                    if c[a] is not None:
                        c[a] = [c[a][0]] * L
                if z < 0.2:
                    c["omega"] = [0.0] * L
            if rng.random() < 0.6 or c["I0"] == 0:
                c["I0"] = 0.0
                c["b_neg"] = float(rng.uniform(0.1, 5)) if rng.random() < 0.5 else rng.uniform(0.1, 5, c["NQuad"] // 2).tolist()
                if rng.random() < 0.3:                  # lit from below
                    c["b_pos"], c["b_neg"] = c["b_neg"], 0
            elif rng.random() < 0.5:
                c["b_neg"] = 0
            elif isinstance(c["b_neg"], list) or c["b_neg"] == 0:
                c["b_neg"] = float(rng.uniform(0.1, 5))
            if ref.well_posed(c["tau"], c["omega"], np.array(c["Leg"])[:, :c["NLeg"]], c["f"], c["NQuad"], c["NFourier"], c["mu0"] if c["I0"] > 0 else None, spread=1e6):
                break
    else:
        c = gen.gen(rng, nt=False, deg=0, layers=[1, 2, 3, 5])
    c["kind"] = k
    return c


def run(case, mon, rng):
    globals()["k_" + case["kind"]](case, mon, rng)
    mon.event("kind: " + case["kind"])


def k_finite(case, mon, rng):
    s = obs.Sol(case, mon)
    t = obs.depths(rng, case, 12)
    phi = obs.azimuths(rng, case, 3)
    S = obs.src_scale(case)
    for anti in (False, True):
        for k, v in s.fields(t, phi, anti=anti).items():
            mon.true("finite %s%s" % (k, " (antiderivative)" if anti else ""), bool(np.all(np.isfinite(v))))
    a = s.fields(t)
    # generous a-priori bound: intensities of the azimuthal mean stay of the order of the sources
    bound = 1e3 * S * (1 + 1 / max(case["mu0"], 1e-3) * (case["I0"] > 0))
    mon.check("mean intensity bounded", np.maximum(np.abs(a["u0"]) - bound, 0), 1e-9 * bound)


def k_vanish(case, mon, rng):
    t = obs.depths(rng, case, 5)
    phi = obs.azimuths(rng, case, 2)
    S = obs.src_scale(case)
    A = obs.Sol(case, mon).fields(t, phi)
    for _ in range(20):
        c = copy.deepcopy(case)
        i = int(rng.integers(0, len(c["tau"]) + 1))
        eps = float(10 ** rng.uniform(-10, -8)) * max(1.0, case["tau"][-1] * 1e-3)
        below = 0.0 if i == 0 else c["tau"][i - 1]
        tau = np.array(c["tau"])
        new = np.concatenate([tau[:i], [below + eps], tau[i:] + eps])
        c["tau"] = new.tolist()
        c["omega"].insert(i, float(rng.uniform(0, 0.99)))
        c["Leg"].insert(i, gen.phase_moments(rng, len(c["Leg"][0])).tolist())
        if c["f"] is not None:
            c["f"].insert(i, float(rng.uniform(0, 0.4)) * (min(c["Leg"][i]) > -0.2))
        if c["s"] is not None:
            for l in range(i, len(c["s"])):         # layers below move down by eps: s'(tau) = s(tau - eps)
                q = np.polynomial.Polynomial(c["s"][l])(np.polynomial.Polynomial([-eps, 1.0])).coef
                c["s"][l] = np.concatenate([q, np.zeros(len(c["s"][l]) - len(q))]).tolist()
            c["s"].insert(i, [float(rng.uniform(0, 3)) * S] + [0.0] * (len(c["s"][0]) - 1))
        if ref.well_posed(c["tau"], c["omega"], np.array(c["Leg"])[:, :c["NLeg"]], c["f"], c["NQuad"], c["NFourier"], c["mu0"] if c["I0"] > 0 else None):
            break
    else:
        return
    b = obs.Sol(c, mon)
    t2 = np.where(t > below, t + eps, t)
    t2 = np.clip(t2, 0, new[-1])
    B = b.fields(t2, phi)
    mumin = min(b.p.mu[0], case["mu0"] if case["I0"] > 0 else 1)
    for k in A:
        sc = max(np.max(np.abs(A[k])), S)
        mon.check("vanishing layer has no effect: " + k, A[k] - B[k], sc * (200 * eps / mumin + 1e-8))


def k_deep(case, mon, rng):
    """absorbing layer of scaled thickness > 40 / slowest decay appended below; two different worlds below it"""
    c = copy.deepcopy(case)
    NL, na = len(c["tau"]), len(c["Leg"][0])
    worlds = []
    for v in range(2):
        d = copy.deepcopy(c)
        om = 0.3
        d["tau"].append(c["tau"][-1] + 80.0)
        d["omega"].append(om)
        d["Leg"].append((0.3 ** np.arange(na)).tolist())
        if v:
            d["tau"].append(d["tau"][-1] + float(rng.uniform(0.1, 5)))
            d["omega"].append(float(rng.uniform(0, 0.9)))
            d["Leg"].append((rng.uniform(0.1, 0.5) ** np.arange(na)).tolist())
        extra = 1 + v
        if d["f"] is not None:
            d["f"] += [0.0] * extra
        if d["s"] is not None:
            for e in range(extra):
                d["s"].append((np.array(d["s"][0]) * (1 if e == 0 else float(rng.uniform(0.5, 3)))).tolist())
        if v:
            d["b_pos"] = float(rng.uniform(0, 5)) * max(obs.src_scale(case), 1e-3)
            d["bdrf"] = [float(rng.uniform(0, 0.9))]
        if not ref.well_posed(d["tau"], d["omega"], np.array(d["Leg"])[:, :d["NLeg"]], d["f"], d["NQuad"], d["NFourier"], d["mu0"] if d["I0"] > 0 else None):
            return
        d["NT_cor"] = False
        worlds.append(d)
    t = np.concatenate([rng.uniform(0, c["tau"][-1], 4), [0.0, c["tau"][-1]]])
    phi = obs.azimuths(rng, case, 2)
    A, B = obs.Sol(worlds[0], mon).fields(t, phi), obs.Sol(worlds[1], mon).fields(t, phi)
    S = max(obs.src_scale(w) for w in worlds)
    for k in A:
        mon.check("independent of what lies below an opaque layer: " + k, A[k] - B[k], 1e-8 * max(np.max(np.abs(A[k])), S))
    for w in worlds:
        v = obs.Sol(w, mon).fields(np.array(w["tau"]), phi)
        mon.true("finite below an opaque layer", all(np.all(np.isfinite(x)) for x in v.values()))


def k_beer(case, mon, rng):
    s = obs.Sol(case, mon)
    p = s.p
    t = obs.depths(rng, case, 6)
    t0 = p.tau0
    phi = obs.azimuths(rng, case, 2)
    f = s.fields(t, phi)
    S = obs.src_scale(case)
    src = np.zeros(p.L) if p.s is None else p.s[:, 0]
    N = p.N

    def down(mu, x, top):
        v = top * np.exp(-x / mu)
        for l in range(p.L):
            a, b = t0[l], min(t0[l + 1], x)
            if b > a:
                v = v + src[l] * np.exp(-(x - b) / mu) * -np.expm1(-(b - a) / mu)
        return v

    def up(mu, x, bot):
        v = bot * np.exp(-(t0[-1] - x) / mu)
        for l in range(p.L):
            a, b = max(t0[l], x), t0[l + 1]
            if b > a:
                v = v + src[l] * np.exp(-(a - x) / mu) * -np.expm1(-(b - a) / mu)
        return v
    T = t0[-1]
    um = np.zeros((p.NF, 2 * N, len(t)))
    for m in range(p.NF):
        if m:
            src = np.zeros(p.L)
        top, bot = p.bmode("b_neg", m), p.bmode("b_pos", m).copy()
        if m < len(case["bdrf"]):
            d = np.array([down(p.mu[j], T, top[j]) for j in range(N)])
            R = gen.bdrf_eval(case["bdrf"][m], p.mu, p.mu)
            bot = bot + (2 if m == 0 else 1) * R @ (p.mu * p.w * d)
            if case["I0"] > 0:
                bot = bot + case["mu0"] * case["I0"] / pi * gen.bdrf_eval(case["bdrf"][m], p.mu, np.array([case["mu0"]]))[:, 0] * np.exp(-T / case["mu0"])
        for j in range(N):
            um[m, j] = [up(p.mu[j], x, bot[j]) for x in t]
            um[m, N + j] = [down(p.mu[j], x, top[j]) for x in t]
    M = max(np.max(np.abs(um)), 0.1 * S)
    mon.check("Beer's law: mean intensity", f["u0"] - um[0], 1e-9 * M)
    u = np.einsum("mit,mp->itp", um, np.cos(np.outer(np.arange(p.NF), phi - case["phi0"])))
    mon.check("Beer's law: intensity", f["u"] - u, 1e-9 * M * p.NF)
    mon.check("Beer's law: direct flux", f["Fdir"] - case["I0"] * case["mu0"] * np.exp(-t / max(case["mu0"], 1e-9)), 1e-12 * max(case["I0"], 1e-300))
    mon.check("Beer's law: fluxes", np.concatenate([f["Fp"] - 2 * pi * (p.mu * p.w) @ um[0, :N], f["Fm"] - 2 * pi * (p.mu * p.w) @ um[0, N:]]), 1e-8 * M)


def k_small(case, mon, rng):
    """albedos tending to zero in a random subset of layers"""
    L = len(case["tau"])
    sub = rng.random(L) < 0.6
    sub[int(rng.integers(0, L))] = True
    t = obs.depths(rng, case, 5)
    phi = obs.azimuths(rng, case, 2)
    S = obs.src_scale(case)
    base = dict(case, omega=np.where(sub, 0.0, case["omega"]).tolist())
    A = obs.Sol(base, mon).fields(t, phi)
    mumin = min(ref.nodes(case["NQuad"] // 2)[0][0], case["mu0"] if case["I0"] > 0 else 1)
    for eps in 10 ** np.sort(rng.uniform(-16, -4, 4)):
        c = dict(case, omega=np.where(sub, eps, case["omega"]).tolist())
        if not ref.well_posed(c["tau"], c["omega"], np.array(c["Leg"])[:, :c["NLeg"]], c["f"], c["NQuad"], c["NFourier"], c["mu0"] if c["I0"] > 0 else None):
            continue
        B = obs.Sol(c, mon).fields(t, phi)
        mon.event("albedo ladder rungs")
        for k in A:
            mon.check("small albedo converges to none: " + k, A[k] - B[k], (1e3 * eps / mumin + 1e-8) * max(np.max(np.abs(A[k])), S))


def k_decay(case, mon, rng):
    """relative accuracy of radiation attenuated by many orders of magnitude (lit from one side, no emission, black surface)"""
    L = len(case["tau"])
    tau = np.array(case["tau"])
    T = tau[-1]
    t = np.concatenate([rng.uniform(0.2, 1, 12) * T, rng.uniform(1, 10, 3)])
    below = case["I0"] == 0 and np.all(np.array(case["b_neg"]) == 0)
    if below:
        t = T - t
    A = obs.Sol(case, mon)
    a = A.fields(t)
    p = A.p
    idx = np.sort(np.concatenate([np.arange(L), rng.integers(0, L, 3)]))
    cut = np.sort(np.concatenate([tau, *[[p.tau0[l] + (tau[l] - p.tau0[l]) * (j + 1) / np.sum(idx == l) for j in range(np.sum(idx == l) - 1)] for l in range(L)]]))
    d = dict(case, tau=cut.tolist(), banded=int(rng.choice([3, 10, 99])))
    for k in ("omega", "Leg", "f"):
        if d[k] is not None:
            d[k] = [d[k][l] for l in idx]
    b = obs.Sol(d, mon).fields(t)
    S = obs.src_scale(case)
    n = 0
    for k in ("u0", "Fp", "Fm", "act_up", "act_down"):
        if k == "u0" and max(case["omega"]) == 0:
            continue                                    # (upward intensities vanish; decided below)
        ok = np.broadcast_to(np.max(np.abs(np.atleast_2d(a[k])), axis=0) > 1e-100 * S, np.shape(a[k]))
        scale = np.broadcast_to(np.max(np.abs(np.atleast_2d(a[k])), axis=0), np.shape(a[k]))
        if k != "u0" and max(case["omega"]) == 0 and k in (("Fm", "act_down") if below else ("Fp", "act_up")):
            continue
        mon.check("relative accuracy of faint radiation: " + k, np.where(ok, (a[k] - b[k]) / np.maximum(scale, 1e-280), 0), 1e-8)
        n += int(np.sum(ok))
        mon.event("orders of magnitude of attenuation", int(-np.log10(np.min(np.where(ok, scale, S)) / S)))
    mon.event("faint values compared", n)
    if max(case["omega"]) == 0 and case["I0"] == 0:
        src = p.bmode("b_pos" if below else "b_neg", 0)
        want = src[:, None] * np.exp(-(T - t if below else t)[None, :] / p.mu[:, None])
        ok = want > 1e-200 * S
        mon.check("Beer's law to relative accuracy", np.where(ok, (a["u0"][:p.N] if below else a["u0"][p.N:]) / np.maximum(want, 1e-280) - 1, 0), 1e-9)
        mon.event("Beer's law far down", int(np.sum(ok)))
    elif case["I0"] == 0 and np.ptp(case["omega"]) == 0 and all(g == case["Leg"][0] for g in case["Leg"]) and (case["f"] is None or np.ptp(case["f"]) == 0):
        P = np.array([np.polynomial.legendre.legval(p.mufull, np.eye(case["NLeg"])[l]) for l in range(case["NLeg"])])
        D = p.om[0] / 2 * (P.T * ((2 * np.arange(case["NLeg"]) + 1) * p.g[0][:case["NLeg"]])) @ P
        M = (np.eye(2 * p.N) - D * np.concatenate([p.w, p.w])) / p.mufull[:, None]
        k = np.sort(np.linalg.eigvals(M).real)
        k = k[k > 0] * p.sc[0]                           # decay per unit of unscaled depth
        if len(k) > 1 and k[1] - k[0] > 0.05:
            lo, hi = 40 / (k[1] - k[0]), T - 20 / k[0]
            if hi > lo + 1 and k[0] * hi < 230:
                x = np.sort(rng.uniform(lo, hi, 4))
                v = A.fields(T - x if below else x)["u0"]
                r = np.log(v[:, 1:] / v[:, :-1]) + k[0] * np.diff(x)
                mon.check("diffusion exponent", r, 1e-8 * (1 + k[0] * T))
                mon.event("diffusion exponents")
