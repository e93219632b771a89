"""C29: outputs respond continuously, and in proportion, to small changes of any input."""
import numpy as np
from .. import gen, ref, obs

CASES = dict(quick=2600, thorough=104000)
RULE = ("random valid problem; one kind of input (depths, also next to interfaces, albedos, moments, peak fractions, beam angle or strength, azimuth of the beam, boundary "
        "sources, internal sources, surface modes, a thin layer inserted - including zeros and omitted inputs becoming small) is moved by 1e-4, 1e-5, 1e-6 and 1e-9 (for sources 0.1, 1e-3, 1e-5, 1e-9; in addition 1e-3 for the others) of its "
        "scale in a random direction: every output moves continuously and with a stable rate (finite-difference rates agree), so there are no jumps and "
        "no dead zones; non-trivial = rates compared; distinct = signature and kind of input")
KINDS = ["tau", "omega", "omega", "Leg", "f", "mu0", "I0", "phi0", "b_pos", "b_neg", "s", "bdrf", "point", "layer"]
XS = [1e-4, 1e-5, 1e-6]
LINEAR = ("I0", "b_pos", "b_neg", "s")          # outputs are linear in these: larger steps as well


def make(rng, index, tier):
    c = gen.gen(rng)
    c["kind"] = KINDS[index % len(KINDS)]
    c["one"] = bool(rng.random() < 0.5)
    c["dseed"] = int(rng.integers(0, 2 ** 31))
    return c


def signature(c):
    return gen.features(c) + " " + c["kind"] + str(int(c["one"]))


def mover(case, p, S):
    """-> function x -> moved case (or None when the kind does not apply)"""
    r = np.random.default_rng(case["dseed"])
    k, L, N = case["kind"], p.L, p.N
    NF = case["NFourier"]
    d = r.uniform(0.3, 1, L)
    if case["one"]:
        d = d * (np.arange(L) == r.integers(0, L))
    if k == "tau":
        th = np.diff(p.tau0)
        return lambda x: dict(case, tau=np.cumsum(th * (1 + x * d)).tolist())
    if k == "omega":
        # towards smaller values for scattering layers, from zero upwards for the others; proportionate to the distance from one
        om = p.omega
        step = np.where(om > 0, -np.minimum(om, 1 - om), 0.5) * d
        return lambda x: dict(case, omega=(om + x * step).tolist())
    if k == "Leg":
        G = p.Leg_all
        step = (1 - np.abs(G)) * r.uniform(-1, 1, G.shape) * d[:, None] * 0.5 ** np.arange(G.shape[1])
        step[:, 0] = 0
        return lambda x: dict(case, Leg=(G + x * step).tolist())
    if k == "f":
        f = p.f
        step = np.where(f > 0, -np.minimum(f, 1 - f), 0.3) * d
        return lambda x: dict(case, f=(f + x * step).tolist())
    if k == "mu0":
        # (the sine of the polar angle, hence the response, has a square-root branch point at an overhead beam)
        return None if case["I0"] == 0 or case["mu0"] > 0.99 else lambda x: dict(case, mu0=case["mu0"] * (1 - x))
    if k == "phi0":
        return None if case["I0"] == 0 else lambda x: dict(case, phi0=case["phi0"] + x)
    if k == "I0":
        return lambda x: dict(case, I0=case["I0"] + x * S, mu0=case["mu0"] or 0.47)
    if k in ("b_pos", "b_neg"):
        b = np.asarray(case[k], float)
        form = int(r.integers(0, 3))
        if form == 0 and b.ndim == 0:
            return lambda x: dict(case, **{k: float(b + x * S)})
        v = r.uniform(0.2, 1, N) * S
        if form <= 1 and b.ndim <= 1:
            return lambda x: dict(case, **{k: (b + x * v).tolist()})
        M = np.zeros((N, NF))
        if b.ndim == 2:
            M = b
        else:
            M[:, 0] = b
        D = S * r.uniform(-1, 1, (N, NF)) * 0.5 ** np.arange(NF)
        return lambda x: dict(case, **{k: (M + x * D).tolist()})
    if k == "s":
        s = np.zeros((L, 1)) if p.s is None else p.s
        D = S * d[:, None] * r.uniform(0.2, 1, s.shape) * (1 / max(p.tau[-1], 0.5)) ** np.arange(s.shape[1])
        return lambda x: dict(case, s=(s + x * D).tolist())
    if k == "bdrf":
        if case["bdrf"] and r.random() < 0.6:
            i = int(r.integers(0, len(case["bdrf"])))

            def mv(x):
                bd = [dict(b) if isinstance(b, dict) else b for b in case["bdrf"]]
                if isinstance(bd[i], dict):
                    bd[i]["a"] = bd[i]["a"] + 0.05 * x
                else:
                    bd[i] = bd[i] + 0.05 * x
                return dict(case, bdrf=bd)
            return mv
        n = len(case["bdrf"])
        return lambda x: dict(case, bdrf=case["bdrf"] + [dict(k="sin", a=0.2 * x, b=0.2, m=n) if n else 0.1 * x])
    if k == "layer":
        # a thin layer, with the properties of another layer or less scattering, appears at a random place
        j, q = int(r.integers(0, L + 1)), int(r.integers(0, L))
        fac = float(r.choice([1.0, 0.5, 0.0]))
        T = min(p.tau[-1], 1.0)

        def mv(x):
            ins = lambda v, e: v[:j] + [e] + v[j:]
            tau = ins(case["tau"], x * T + p.tau0[j])
            tau = tau[:j + 1] + [y + x * T for y in tau[j + 1:]]
            return dict(case, tau=tau, omega=ins(case["omega"], fac * case["omega"][q]), Leg=ins(case["Leg"], case["Leg"][q]),
                        f=None if case["f"] is None else ins(case["f"], case["f"][q]),
                        s=None if case["s"] is None else ins(case["s"], case["s"][q]))
        c = mv(1e-4)
        if fac != 1.0 and not ref.well_posed(c["tau"], c["omega"], np.array(c["Leg"])[:, :c["NLeg"]], c["f"], c["NQuad"], NF, c["mu0"] if c["I0"] > 0 else None):
            return None
        mv.place, mv.T = p.tau0[j], T
        return mv
    return None


def run(case, mon, rng):
    base = obs.Sol(case, mon)
    p = base.p
    S = obs.src_scale(case)
    if not gen.ims_ok(case, 0.1):
        mon.event("left out: IMS singular direction nearby")
        return
    w = rng.random(5)
    t = np.concatenate([p.tau0[:-1][-3:], w * p.tau[-1], [p.tau[-1]]])
    phi = obs.azimuths(rng, case, 3)
    if case["kind"] in ("phi0", "point"):       # off the symmetry plane of the beam, where the response is of second order
        phi = case["phi0"] + rng.choice([-1, 1], 3) * rng.uniform(0.1, 3.0, 3)

    def stack(s, t, phi):
        f = s.fields(t, phi)
        return np.concatenate([(f[k] / (1.0 if k in ("u", "u0") else np.pi)).ravel() for k in sorted(f)])
    F0 = stack(base, t, phi)
    I = np.max(np.abs(F0))
    if case["kind"] == "point":
        t = w * p.tau[-1]
        lay = np.searchsorted(p.tau, t)
        h = np.minimum(np.minimum(p.tau[lay] - t, t - p.tau0[lay]), p.mu[0] / p.sc[lay])
        # some points right at the top or bottom of their layer, moving inwards
        edge = rng.random(5)
        size = np.minimum(p.tau[lay] - p.tau0[lay], p.mu[0] / p.sc[lay]) / 2
        top, bottom = edge < 0.3, edge > 0.7
        t = np.where(top, np.nextafter(p.tau0[lay], 1e9), np.where(bottom, p.tau[lay], t))
        h = np.where(top, size, np.where(bottom, -size, h))
        F0 = stack(base, t, phi)

        def val(x):
            return stack(base, t + x * h, phi + x)
    else:
        mv = mover(case, p, S)
        if mv is None:
            mon.event("left out: no beam, overhead beam or ill-posed layer")
            return

        def val(x):
            c = mv(x)
            if gen.nt_active(c) != gen.nt_active(case):
                return None
            tt = t
            if case["kind"] == "tau":
                # same relative position inside the layer
                new = np.concatenate([[0.0], c["tau"]])
                lay = np.minimum(np.searchsorted(p.tau, t), p.L - 1)
                z = (t - p.tau0[lay]) / (p.tau[lay] - p.tau0[lay])
                tt = np.clip(new[lay] + z * (new[lay + 1] - new[lay]), 0, new[-1])
            if case["kind"] == "layer":
                tt = np.minimum(t + np.where(t > mv.place, x * mv.T, 0.0), c["tau"][-1])
            return stack(obs.Sol(c, mon), tt, phi)
    XS_ = [1e-1, 1e-3, 1e-5] if case["kind"] in LINEAR else [1e-4, 1e-6, 1e-8] if case["kind"] == "point" else XS
    V = [val(x) for x in XS_]
    if any(v is None for v in V):
        mon.event("left out: corrections switch on")
        return
    G = [(v - F0) / x for v, x in zip(V, XS_)]
    # rounding of the smallest eigenvalue grows with the spread of the spectrum (many streams, almost conservative)
    k2, _ = ref.spectrum(p.tau, p.omega, p.Leg_all[:, :case["NLeg"]], p.f, case["NQuad"], 1)
    noise = 3e-8 + (2e-16 * np.max(k2.real) / max(np.min(k2.real), 1e-8) if k2.size else 0)
    if case["kind"] == "point":          # no new solve: only the rounding of two evaluations
        noise = 3e-11
    n = max(np.max(np.abs(g)) for g in G[:2])
    for i in (0, 1):
        mon.check("rates of change agree (%s)" % case["kind"], G[i] - G[i + 1], 0.5 * n + noise * max(I, S) / XS_[i + 1], x=XS_[i + 1])
    if case["kind"] not in LINEAR and case["kind"] != "point":
        v = val(1e-3)
        if v is not None:
            g = np.max(np.abs(v - F0)) / 1e-3
            mon.check("no dead zone (%s)" % case["kind"], max(0.0, g - 50 * n), 1e-4 * max(I, S) + noise * max(I, S) / XS_[1])
    mon.check("no jump (%s)" % case["kind"], val(1e-9) - F0, 1e-8 * 3 * n + 10 * noise * max(I, S))
    mon.event("rates")
