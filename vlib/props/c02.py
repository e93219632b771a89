"""C02: boundary-condition monitor."""
import numpy as np
from .. import gen, ref, obs

CASES = dict(quick=6000, thorough=240000)
RULE = ("random valid problem with scalar, vector or matrix boundary sources and 0..NFourier+1 BDRF modes (scalar/function/mixed); both "
        "boundary conditions are formed per stream and Fourier mode from the returned intensity; non-trivial = boundary residual decided; "
        "distinct = configuration signature")


def make(rng, index, tier):
    return gen.low_beam(rng, gen.gen(rng, nt=False, bdrf=bool(rng.random() < 0.8)))


def bc_residuals(p, m, top, bot):
    """top, bot: NQuad vectors of mode m at tau=0 and tau=tau_N. Returns (top residual, bottom residual, scale)."""
    N = p.N
    rt = top[N:] - p.bmode("b_neg", m)
    want = p.bmode("b_pos", m).copy()
    sc = max(np.max(np.abs(want)), np.max(np.abs(bot)))
    bd = p.case["bdrf"]
    if m < len(bd):
        rho = gen.bdrf_eval(bd[m], p.mu, p.mu)
        want = want + (1 + (m == 0)) * rho @ (p.mu * p.w * bot[N:])
        if p.I0 > 0:
            dirb = gen.bdrf_eval(bd[m], p.mu, [p.mu0])[:, 0] * p.mu0 * p.I0 / np.pi * np.exp(-p.ts[-1] / p.mu0)
            want = want + dirb
            sc = max(sc, np.max(np.abs(dirb)))
    return rt, bot[:N] - want, sc


def run(case, mon, rng):
    s = obs.Sol(case, mon)
    p = s.p
    t = np.array([0.0, p.tau[-1]])
    cm, sm, sup = ref.modes_of(s.uf, p, t)
    u0 = s.u0(t)
    mon.event("points:u", cm.size)
    S = obs.src_scale(case)
    for m in range(p.NF):
        for name, arr in (("u", cm[m]),) + ((("u0", u0),) if m == 0 else ()):
            rt, rb, sc = bc_residuals(p, m, arr[:, 0], arr[:, 1])
            top = max(np.max(np.abs(arr[:, 0])), np.max(np.abs(p.bmode("b_neg", m))))
            mon.check("top boundary (%s)" % name, rt, 1e-8 * top + 1e-10 * max(sup, S), mode=m)
            mon.check("bottom boundary (%s)" % name, rb, 1e-8 * sc + 1e-10 * max(sup, S), mode=m)
            mon.event("boundary modes")
            if m < len(case["bdrf"]):
                mon.event("reflecting modes")
