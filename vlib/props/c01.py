"""C01: online residual monitor of the discretised radiative transfer equation."""
import numpy as np
from .. import gen, ref, obs

CASES = dict(quick=3500, thorough=140000)
RULE = ("random valid pydisort problem (layers 1-13, 2-16 streams, all source/surface/delta-M/solver features); the intensity is read "
        "on quadrature points of 2-6 sub-intervals of layers and on an azimuth grid, and the integrated transfer equation is formed per "
        "mode and stream; non-trivial = at least one residual decided; distinct = distinct configuration signature")
ASSUMPTIONS = ["20-point Gauss quadrature on intervals not longer than two smallest-cosine mean free paths is exact to rounding",
               "the solver's documented shortcut for scattering moments below 1e-8 is tolerated"]


def make(rng, index, tier):
    return gen.gen(rng, nt=False)


def residual(p, m, l, a, b, ua, ub, uq, tq, wq):
    """mu (u(b)-u(a)) - sc * int (u - S) dtau per stream; returns residual and natural scale"""
    N = p.N
    D = ref.D_matrix(m, p.om[l], p.g[l], N)
    S = D @ uq
    bound = np.max(np.abs(S), initial=0)
    if p.I0 > 0:
        X = ref.X_vector(m, p.om[l], p.g[l], N, p.mu0, p.I0)
        S = S + X[:, None] * p.beam(tq, l)[None, :]
        bound = max(bound, np.max(np.abs(X)) * np.max(p.beam(tq, l)))
    if m == 0 and p.s is not None:
        q = (1 - p.omega[l]) * p.source(tq, l) / p.sc[l]
        S = S + q[None, :]
        bound = max(bound, np.max(np.abs(q)))
    lhs = p.mufull * (ub - ua)
    rhs = p.sc[l] * ((uq - S) @ wq)
    return lhs - rhs, max(np.max(np.abs(uq)), bound)


def shortcut_slack(p, m, l):
    c = np.abs(p.om[l] / 2 * (2 * np.arange(m, len(p.g[l])) + 1) * p.g[l][m:])
    return 2 * np.sum(c) if c.size and np.max(c) < 1.01e-8 else 0.0


def run(case, mon, rng):
    s = obs.Sol(case, mon)
    p = s.p
    for (l, a, b) in obs.intervals(rng, case, p, nlayers=3, per=2):
        tq, wq = obs.quad_points(np.array([a, b]))
        t = np.concatenate([[a, b], tq])
        cm, sm, sup = ref.modes_of(s.uf, p, t)
        u0 = s.u0(t)
        mon.event("intervals")
        mon.event("points:u", cm.size)
        H = p.sc[l] * (b - a)
        sup = max(sup, p.I0 / (2 * np.pi) * p.beam(np.array([a]), l)[0])
        floor = 1e-11 * sup + 1e-12 * p.V                       # rounding of differences and of the azimuthal transform
        for m in range(p.NF):
            mon.event("mode%s residuals" % (m if m < 3 else ">=3"))
            for name, arr in (("u", cm[m]),) + ((("u0", u0),) if m == 0 else ()):
                r, sc = residual(p, m, l, a, b, arr[:, 0], arr[:, 1], arr[:, 2:], tq, wq)
                slack = shortcut_slack(p, m, l) * (sup + p.I0)
                tol = H * (2e-7 * sc + 4 * slack) + floor
                mon.check("transfer equation (%s)" % name, r, tol, layer=l, mode=m, a=a, b=b, scale=sc)
        mon.check("no mode beyond NFourier", np.max(np.abs(cm[p.NF:]), initial=0), floor)
        mon.check("no sine terms", sm, floor)
