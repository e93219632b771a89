"""C30: the weakly scattering limit is exact single scattering of the true phase function."""
import numpy as np
from math import pi
from .. import gen, ref, obs

CASES = dict(quick=2000, thorough=80000)
RULE = ("random layered atmosphere lit by a beam over a black surface, all albedos multiplied by 0.016, 0.008 and 0.004; intensity divided by that factor, "
        "extrapolated to zero, is compared at random depths, streams and azimuths with the single-scattering integral (with NT corrections: of the full "
        "phase function, otherwise of the Legendre coefficients in use), upward, downward, direct and actinic fluxes with their first-order "
        "expressions including the forward-peak reclassification; non-trivial = compared; distinct = signature")
EPS = [0.016, 0.008, 0.004]


def make(rng, index, tier):
    for _ in range(100):
        nt = index % 3 != 0
        c = gen.gen(rng, beam=True, iso=False, nt=nt, dm=True if nt else None, bdrf=False, bc=["0"], nfourier="full",
                    layers=[1, 1, 2, 2, 3, 4, 6, 10, 12], hi=0.98)
        c["NT_cor"] = nt
        if nt and not (gen.nt_active(c) and np.shape(c["Leg"])[1] < 60):
            continue
        if not np.any(np.array(c["omega"]) > 0.01):
            continue
        # close to the limit the eigenvalues are those of the streams
        if np.min(np.abs(ref.nodes(c["NQuad"] // 2)[0] / c["mu0"] - 1)) > 0.06 and all(ok(scaled(c, e)) for e in EPS):
            return c
    c = gen.gen(rng, layers=[1], nquads=[4], beam=True, iso=False, nt=False, dm=False, bdrf=False, bc=["0"], nfourier="full")
    c["mu0"] = 0.5
    return c


def scaled(c, e):
    return dict(c, omega=(np.array(c["omega"]) * e).tolist())


def ok(c):
    return gen.ims_ok(c, 0.06) and ref.well_posed(c["tau"], c["omega"], np.array(c["Leg"])[:, :c["NLeg"]], c["f"], c["NQuad"], c["NFourier"], c["mu0"], 0.02)


def path(a, b, k0, k1, up):
    """int_a^b exp(-t k0) exp(-|t - x| k1) k1 dt with x = a (looking down into the layer, upward stream) or x = b (downward stream)."""
    x, w = ref.nodes(24)
    n = max(1, int(np.ceil((b - a) * (k0 + k1) / 6)))
    if n > 60:                          # only the lit end matters
        h = 360 / (k0 + k1) if up else 0.0
        if up:
            b = min(b, a + h)
            n = 60
        else:
            n = min(n, 2000)
    e = np.linspace(a, b, n + 1)
    d = np.diff(e)
    t = e[:-1, None] + d[:, None] * x
    return float(np.sum(d[:, None] * w * k1 * np.exp(-t * k0 - (t - a if up else b - t) * k1)))


def single(p, taus, J):
    """First-order intensity at depths taus for source J[l] (2N x nphi) times exp(-tau / mu0)."""
    N, k0 = p.N, 1 / p.mu0
    nphi = J[0].shape[1]
    out = np.zeros((2 * N, len(taus), nphi))
    for i in range(N):
        k1 = 1 / p.mu[i]
        up = np.zeros((p.L + 1, nphi))
        dn = np.zeros((p.L + 1, nphi))
        for l in range(p.L - 1, -1, -1):
            a, b = p.tau0[l], p.tau0[l + 1]
            up[l] = up[l + 1] * np.exp(-(b - a) * k1) + J[l][i] * path(a, b, k0, k1, True)
        for l in range(p.L):
            a, b = p.tau0[l], p.tau0[l + 1]
            dn[l + 1] = dn[l] * np.exp(-(b - a) * k1) + J[l][N + i] * path(a, b, k0, k1, False)
        for j, t in enumerate(taus):
            l = p.layer(t)
            a, b = p.tau0[l], p.tau0[l + 1]
            out[i, j] = up[l + 1] * np.exp(-(b - t) * k1) + (J[l][i] * path(t, b, k0, k1, True) if b > t else 0)
            out[N + i, j] = dn[l] * np.exp(-(t - a) * k1) + (J[l][N + i] * path(a, t, k0, k1, False) if t > a else 0)
    return out


def run(case, mon, rng):
    p = ref.Problem(case)
    N, NL = p.N, case["NLeg"]
    t = np.concatenate([obs.depths(rng, case, 3, edges=False)[:3], [0.0, p.tau[-1]]])
    phi = obs.azimuths(rng, case, 2)
    nt = gen.nt_active(case)
    G = p.Leg_all
    nu = ref.nu_of(p.mufull, phi, p.mu0, p.phi0)
    A = p.I0 / (4 * pi) * p.omega
    used = G[:, :NL] - p.f[:, None]                     # times omega: first order of the scaled albedo and coefficients
    ell = np.arange(G.shape[1])
    J = [A[l] * ref.legval((2 * ell + 1) * G[l] if nt else (2 * ell[:NL] + 1) * used[l], nu) for l in range(p.L)]
    P = np.array([ref.legval(np.eye(NL)[k], p.mufull) for k in range(NL)])
    P0 = np.array([float(ref.legval(np.eye(NL)[k], np.array([-p.mu0]))[0]) for k in range(NL)])
    J0 = [A[l] * ((2 * ell[:NL] + 1) * used[l] * P0) @ P for l in range(p.L)]
    want = single(p, t, J)
    w0 = single(p, t, [x[:, None] for x in J0])[:, :, 0]
    # forward peak counted as unscattered by the scaled problem, handed back to the diffuse flux
    peak = np.array([np.sum(np.clip(x - p.tau0[:-1], 0, np.diff(p.tau0)) * p.omega * p.f) for x in t])
    E = np.exp(-t / p.mu0)
    W = dict(u=want, u0=w0, Fp=2 * pi * (p.w * p.mu) @ w0[:N], Fm=2 * pi * (p.w * p.mu) @ w0[N:] + p.I0 * E * peak,
             act_up=2 * pi * p.w @ w0[:N], act_down=2 * pi * p.w @ w0[N:] + p.I0 * E * peak / p.mu0)
    D = []
    for e in EPS:
        s = obs.Sol(scaled(case, e), mon)
        f = s.fields(t, phi)
        mon.check("direct beam is unaffected by scattering", f["Fdir"] - p.I0 * p.mu0 * E, 1e-12 * p.I0)
        D.append({k: f[k] / e for k in W})
    # modes whose scattering is below the solver's significance threshold (1e-8) are left out there
    c = np.abs((p.omega * (1 - p.f))[:, None] / 2 * (2 * ell[:NL] + 1) * p.g)
    tails = np.array([np.max(c[:, m:], axis=1) for m in range(NL)])
    drop = 4e-8 / EPS[-1] * NL * p.I0 if np.any((tails > 0) & (tails * EPS[-1] < 2e-8)) else 0.0
    for k in W:
        x = (D[0][k] - 6 * D[1][k] + 8 * D[2][k]) / 3                       # second-order extrapolation to zero
        span = np.max(np.abs(D[0][k] - D[2][k]))                            # size of the higher orders
        scale = np.max(np.abs(W[k])) + np.max(np.abs(D[2][k]))
        mon.check("first order of %s%s" % (k, " (NT)" if nt and k == "u" else ""), x - W[k], 2e-3 * span + 1e-8 * scale + drop + 1e-11 * p.I0, layers=p.L, span=span, scale=scale, drop=drop)
        mon.check("first order at finite albedo %s" % k, D[2][k] - W[k], 1.5 * span + 1e-8 * scale + drop + 1e-11 * p.I0, span=span, scale=scale)
    mon.event("limits" + (" with NT corrections" if nt else ""))
