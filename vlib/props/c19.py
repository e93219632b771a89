"""C19: mirror symmetry and reciprocity."""
import copy
import numpy as np
from .. import gen, ref, obs

CASES = dict(quick=2800, thorough=112000)
RULE = ("even cases: random atmosphere without beam over a black surface with boundary and polynomial internal sources, solved upright and upside down; "
        "odd cases: random atmosphere with the beam at stream i observed at stream j and vice versa, reflection (with and without reciprocal surface) and diffuse "
        "transmission of the inverted atmosphere; non-trivial = compared; distinct = signature")
ASSUMPTIONS = ["for reciprocity the beam cosines are stream cosines at least 2e-3 (relative) away from every eigenvalue of the layers"]


def make(rng, index, tier):
    if index % 2 == 0:
        c = gen.gen(rng, beam=False, bdrf=False, nt=False, only_flux=bool(rng.random() < 0.1))
        c["kind"] = "mirror"
        return c
    for _ in range(100):
        c = gen.gen(rng, beam=True, iso=False, nt=False, bc=["0"], nquads=[4, 6, 8, 10, 12], albedo=str(rng.choice(["u", "high", "zeros"])), only_flux=False)
        nd = ref.nodes(c["NQuad"] // 2)[0]
        ok = [i for i, m in enumerate(nd) if ref.well_posed(c["tau"], c["omega"], np.array(c["Leg"])[:, :c["NLeg"]], c["f"], c["NQuad"], c["NFourier"], m)]
        if len(ok) >= 2 and np.any(np.array(c["omega"]) > 0):
            i, j = rng.permutation(ok)[:2]
            c["ij"] = [int(i), int(j)]
            c["kind"] = "reciprocity"
            c["phi0"] = float(rng.uniform(0, 6.28))
            c["bdrf"] = [b for b in c["bdrf"]]
            for b in c["bdrf"]:
                if isinstance(b, dict) and b["k"] == "skew":
                    b["k"] = "prod"
                if isinstance(b, dict) and b["k"] == "asin":
                    b["k"] = "sin"
            return c
    raise RuntimeError("no reciprocity case")


def flip(c):
    d = copy.deepcopy(c)
    t = np.concatenate([[0.0], c["tau"]])
    T = t[-1]
    d["tau"] = np.cumsum(np.diff(t)[::-1]).tolist()
    d["tau"][-1] = float(np.sum(np.diff(t)))
    for k in ("omega", "Leg", "f"):
        if c[k] is not None:
            d[k] = c[k][::-1]
    if c["s"] is not None:
        s = []
        for row in c["s"][::-1]:
            p = np.polynomial.Polynomial(row)(np.polynomial.Polynomial([T, -1.0]))
            co = np.zeros(len(row))
            co[:len(p.coef)] = p.coef
            s.append(co.tolist())
        d["s"] = s
    d["b_pos"], d["b_neg"] = c["b_neg"], c["b_pos"]
    return d


def run(case, mon, rng):
    N = case["NQuad"] // 2
    S = obs.src_scale(case)
    if case["kind"] == "mirror":
        m = flip(case)
        S = max(S, obs.src_scale(m))
        a, b = obs.Sol(case, mon), obs.Sol(m, mon)
        T = case["tau"][-1]
        t = obs.depths(rng, case, 6, edges=False)
        t = np.concatenate([t, [0.0, T]])
        t2 = np.clip(m["tau"][-1] - t, 0, m["tau"][-1])
        phi = obs.azimuths(rng, case, 2)
        A, B = a.fields(t, phi), b.fields(t2, phi)
        tol = 1e-8
        sw = lambda v: np.concatenate([v[N:], v[:N]])
        mon.event("mirror pairs")
        mon.check("mirror: mean intensity", A["u0"] - sw(B["u0"]), tol * max(np.max(np.abs(A["u0"])), 0.1 * S))
        if "u" in A:
            mon.check("mirror: intensity", A["u"] - sw(B["u"]), tol * max(np.max(np.abs(A["u"])), 0.1 * S))
        F = max(np.max(A["Fp"]), np.max(A["Fm"]), 0.1 * S)
        mon.check("mirror: fluxes", np.concatenate([A["Fp"] - B["Fm"], A["Fm"] - B["Fp"]]), tol * F)
        mon.check("mirror: actinic fluxes", np.concatenate([A["act_up"] - B["act_down"], A["act_down"] - B["act_up"]]), tol * 3 * F)
        return
    i, j = case["ij"]
    mu = ref.nodes(N)[0]
    phi = case["phi0"] + rng.uniform(0, 2 * np.pi, 3)

    def beam(c, k):
        d = dict(c)
        d["mu0"] = float(mu[k])
        return obs.Sol(d, mon)
    si, sj = beam(case, i), beam(case, j)
    ui, uj = si.u(0.0, phi), sj.u(0.0, phi)
    R1, R2 = ui[j, 0] / mu[i], uj[i, 0] / mu[j]
    M = max(np.max(np.abs(ui)) / mu[i], np.max(np.abs(uj)) / mu[j])
    mon.event("reciprocal pairs")
    mon.event("reciprocal pairs over a reflecting surface", 1 if case["bdrf"] else 0)
    mon.check("reciprocity of reflection", R1 - R2, 1e-8 * M + 1e-12 * case["I0"])
    mi, mj = si.u0(0.0)[j] / mu[i], sj.u0(0.0)[i] / mu[j]
    mon.check("reciprocity of reflection, azimuthal mean", mi - mj, 1e-8 * M + 1e-12 * case["I0"])
    # albedo reciprocity is implied; transmission through the inverted atmosphere, black surface
    blk = dict(case, bdrf=[])
    inv = flip(blk)
    ti = beam(blk, i).u(case["tau"][-1], phi)[N + j, 0] / mu[i]
    tj = beam(inv, j).u(inv["tau"][-1], phi)[N + i, 0] / mu[j]
    M = max(M, np.max(np.abs(ti)))
    mon.check("reciprocity of diffuse transmission", ti - tj, 1e-8 * M + 1e-12 * case["I0"])
