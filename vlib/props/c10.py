"""C10: azimuthal structure and Fourier error."""
import numpy as np
from math import pi
from .. import gen, ref, obs

CASES = dict(quick=1800, thorough=72000)
RULE = ("random valid problem with a beam; compared: rotated beam azimuth (also close to multiples of a right angle), mirrored and 2*pi-shifted azimuths (up to ten thousand turns), a solve with fewer or more "
        "Fourier modes, and the reported Fourier error against the last cosine term reconstructed from an azimuth grid; non-trivial = "
        "at least rotation and parity decided; distinct = signature")


def make(rng, index, tier):
    c = gen.gen(rng, beam=True if rng.random() < 0.9 else None, bc=["0", "s", "v", "m"])
    if rng.random() < 0.04:                 # nothing but the direct beam
        c.update(omega=[0.0] * len(c["tau"]), b_pos=0, b_neg=0, s=None, bdrf=[] if rng.random() < 0.5 else c["bdrf"])
        if c["I0"] == 0:
            c["b_neg"] = 1.0
    if c["I0"] > 0:
        c["phi0"] = azimuth(rng) if rng.random() < 0.3 else c["phi0"]
    return c


def azimuth(rng):
    """Principal angles, special and nearly special ones among them."""
    if rng.random() < 0.5:
        return float(rng.uniform(0, 2 * pi))
    near = float(rng.choice([0, 0.5, 1, 1.5, 2])) * pi + float(rng.choice([-1, 0, 1])) * 10 ** rng.uniform(-7, -1)
    return near if 0 <= near < 2 * pi else -near if near < 0 else 0.0


def run(case, mon, rng):
    s = obs.Sol(case, mon)
    p = s.p
    S = obs.src_scale(case)
    t = obs.depths(rng, case, 4)
    dphi = rng.uniform(-pi, pi, 3)
    base = s.u(t, p.phi0 + dphi)
    sc = max(np.max(np.abs(base)), S)
    nt = " (NT)" if gen.nt_active(case) else ""
    mon.check("even in azimuth difference" + nt, s.u(t, p.phi0 - dphi) - base, 1e-10 * sc)
    k = int(rng.integers(-3, 4)) or 1
    mon.check("periodic in azimuth" + nt, s.u(t, p.phi0 + dphi + 2 * pi * k) - base, 1e-9 * sc)
    if rng.random() < 0.3:                  # accumulated phases
        k = int(rng.choice([-1, 1]) * 10 ** rng.uniform(0.5, 4))
        far = p.phi0 + dphi + 2 * pi * k
        mon.check("periodic in azimuth over many turns" + nt, s.u(t, far) - base, 1e-9 * sc + 4e-16 * (p.Leg_all.shape[1] ** 3 if nt else p.NF ** 2) * 2 * pi * abs(k) * sc, turns=k)
    F = s.fields(t)
    # rotation
    ph = azimuth(rng)
    r = obs.Sol(dict(case, phi0=ph), mon)
    mon.check("rotation" + nt, r.u(t, ph + dphi) - base, 1e-9 * sc, phi0=ph)
    G = r.fields(t)
    for n in F:
        mon.close("beam azimuth does not matter", G[n], F[n], 1e-11, scale=max(np.max(np.abs(F[n])), S))
    mon.event("rotations")
    # truncation
    v = s if not nt else obs.Sol(case, mon, NT_cor=False)
    cm, sm, sup = ref.modes_of(v.uf, p, t)
    sup = max(sup, S)
    nf = int(rng.integers(1, case["NLeg"] + 1))
    c2 = dict(case, NFourier=nf, NT_cor=False)
    for b in ("b_pos", "b_neg"):
        if np.ndim(case[b]) == 2:
            m = np.array(case[b])
            c2[b] = np.concatenate([m, np.zeros((p.N, nf))], axis=1)[:, :nf].tolist()
    if ref.well_posed(case["tau"], case["omega"], p.Leg_all[:, :case["NLeg"]], case["f"], case["NQuad"], nf, p.mu0):
        q = obs.Sol(c2, mon)
        cm2, _, sup2 = ref.modes_of(q.uf, q.p, t)
        n = min(nf, p.NF)
        mon.check("same leading modes for another mode count", cm2[:n] - cm[:n], 1e-9 * max(sup, sup2))
        mon.check("no modes beyond the requested count", np.max(np.abs(cm2[nf:]), initial=0), 1e-10 * max(sup, sup2))
        mon.event("truncations")
    # Fourier error
    anti = bool(rng.random() < 0.4)
    kk = dict(is_antiderivative_wrt_tau=True) if anti else {}
    phi = p.phi0 + dphi
    un = v.u(t, phi, **kk)
    K = p.NF
    n = 2 * K + 1
    grid = p.phi0 + 2 * pi * np.arange(n) / n
    g = v.u(t, grid, **kk)
    last = np.einsum("itp,p->it", g, np.cos((K - 1) * 2 * pi * np.arange(n) / n)) * (1 if K == 1 else 2) / n
    term = np.abs(last[:, :, None] * np.cos((K - 1) * dphi)[None, None, :])
    scale = np.max(np.abs(un))
    dark = np.abs(un) < 1e-11 * S           # nothing to compare with there (e.g. downward at an unilluminated top): no contribution
    lit = np.where(dark, np.inf, np.abs(un))
    if np.all(dark) or np.min(lit) > 1e-6 * max(scale, S):
        junk = [np.full(un.shape, 1e5) for _ in range(16)]
        del junk                            # recycled memory must not show up in the result
        e = s.uf(t, phi, return_Fourier_error=True, **kk)[1]
        want = float(np.max(np.where(dark, 0, term / lit)))
        noise = 1e-9 * max(scale, S) / float(np.min(lit))
        mon.event("points without intensity", np.sum(dark))
        mon.check("Fourier error" + nt + (" (antiderivative)" if anti else ""), float(e) - want, 1e-7 * want + noise, anti=anti)
        mon.event("Fourier errors compared")
