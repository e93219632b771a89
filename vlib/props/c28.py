"""C28: convergence in the number of streams to the exact solution of the transfer problem."""
import numpy as np
from math import pi
from scipy.special import expn
from .. import env, gen, ref, obs

CASES = dict(quick=3200, thorough=120000)
RULE = ("(a) isotropically scattering layered atmospheres with beam, diffuse illumination, linear or constant internal sources and a Lambertian "
        "surface: fluxes and mean intensity at random depths against an independent Nystrom solution of Milne's integral equation; (b) smooth "
        "anisotropic atmospheres: fluxes for a sequence of stream counts up to 64 must settle; non-trivial = compared; distinct = signature")


def make(rng, index, tier):
    kind = "milne" if index % 2 == 0 else "settle"
    if kind == "milne":
        c = gen.gen(rng, layers=[1, 1, 2, 3, 4, 6], nquads=[4], kinds=["iso"], dm=False, nt=False, hi=0.999, deg=int(rng.integers(0, 2)),
                    bc=["0", "s"], bdrf=False, thick=str(rng.choice(["normal", "mixed", "thick"])), matrix_bc=False, nfourier="full")
        NQ = int(rng.choice([24, 32, 40, 48]))
        L = len(c["tau"])
        c.update(NQuad=NQ, NLeg=int(rng.integers(1, NQ + 1)), NFourier=1, f=None, bdrf=[])
        c["Leg"] = [[1.0] + [0.0] * (c["NLeg"] - 1 + int(rng.integers(0, 3)))] * L
        if rng.random() < 0.3:                                  # an exact change of variables: a peak plus an isotropic remainder
            f = rng.uniform(0, 0.8, L)
            c["Leg"] = np.concatenate([np.ones((L, 1)), np.repeat(f[:, None], len(c["Leg"][0]), 1)[:, 1:]], axis=1).tolist()
            c["f"] = f.tolist()
        if c["I0"] > 0:
            c["mu0"] = float(rng.uniform(0.15, 1.0))
        c["A"] = float(rng.choice([0.0, rng.random()]))
        if c["A"] > 0:
            c["bdrf"] = [c["A"]]
    else:
        c = gen.gen(rng, layers=[1, 2, 3], nquads=[8], dm=False, nt=False, hi=0.99, bc=["0", "s"], matrix_bc=False, thick="normal", nfourier="full",
                    deg=int(rng.integers(0, 2)), bdrf=False)
        L = len(c["tau"])
        c["g"] = rng.uniform(-0.5, 0.6, L).tolist()
        c["f"] = None
        if c["I0"] > 0:
            c["mu0"] = float(rng.uniform(0.2, 1.0))
        c["bdrf"] = [c["A"]] if c.setdefault("A", float(rng.choice([0.0, rng.random()]))) else []
        c["Ns"] = [16, 32, int(rng.choice([40, 48, 64]))]
    c["kind"] = kind
    return c


def signature(c):
    return c["kind"] + " " + gen.features(c) + " A%.1f mu%.1f" % (c["A"], c["mu0"])


class Milne:
    """Isotropic scattering in plane-parallel layers, Nystrom with singularity subtraction on graded Gauss panels."""

    def __init__(self, tau, omega, I0, mu0, b_neg, b_pos, A, s, breaks=(), level=0):
        self.t0 = np.concatenate([[0.0], tau])
        self.om, self.I0, self.mu0, self.b_neg, self.b_pos, self.A = np.array(omega), I0, mu0, b_neg, b_pos, A
        self.T, self.s = tau[-1], s
        x, w = ref.nodes(4 + 2 * level)
        T_, W_, Lr = [], [], []
        for l in range(len(tau)):
            a, b = self.t0[l], self.t0[l + 1]
            h = b - a
            g, y = [], h / 2
            while y > 1e-5 * min(h, 1.0):
                g.append(y)
                y = max(y / 2, y - 0.7) if y > 1.4 else y / 2
            g = np.array([0.0] + g[::-1])
            br = np.asarray(breaks)
            br = br[(br > a + 1e-9 * h) & (br < b - 1e-9 * h)]
            e = np.unique(np.concatenate([a + g, b - g, br]))
            e = e[np.concatenate([[True], np.diff(e) > 1e-12 * h])]
            d = np.diff(e)
            T_.append((e[:-1, None] + d[:, None] * x).ravel())
            W_.append((d[:, None] * w).ravel())
            Lr.append(np.full(T_[-1].size, l))
        self.t, self.w, self.l = map(np.concatenate, (T_, W_, Lr))
        n = len(self.t)
        R, S0 = self.operator(self.t, np.arange(n))
        # unknowns: mean diffuse intensity at the nodes and the upward surface intensity
        M = np.zeros((n + 1, n + 1))
        rhs = np.zeros(n + 1)
        up = expn(2, self.T - self.t) / 2
        M[:n, :n] = np.eye(n) - R
        M[:n, n] = -up
        rhs[:n] = S0 + b_neg / 2 * expn(2, self.t)
        # surface: Iup = b_pos + A/pi (F_down diffuse + mu0 I0 exp(-T/mu0))
        e2 = expn(2, self.T - self.t) * self.w
        k = 2 * A * e2 * self.om[self.l]
        M[n, :n] = -k
        M[n, n] = 1
        rhs[n] = b_pos + A / pi * (2 * pi * b_neg * expn(3, self.T) + (mu0 * I0 * np.exp(-self.T / mu0) if I0 > 0 else 0)
                                   ) + 2 * A * np.sum(e2 * self.known(self.t, self.l))
        z = np.linalg.solve(M, rhs)
        self.U, self.Iup = z[:n], z[n]
        self.J = self.om[self.l] * self.U + self.known(self.t, self.l)

    def known(self, t, l):
        """source function without the diffuse scattering part"""
        v = np.zeros(np.broadcast(t, l).shape)
        if self.I0 > 0:
            v = v + self.om[l] * self.I0 / (4 * pi) * np.exp(-t / self.mu0)
        if self.s is not None:
            v = v + (1 - self.om[l]) * sum(self.s[l, k] * t ** k for k in range(self.s.shape[1]))
        return v

    def e1int(self, t):
        """integral of E1|t - x| over each layer: (points, layers)"""
        a, b = self.t0[None, :-1], self.t0[None, 1:]
        t = t[:, None]
        ea, eb = expn(2, np.abs(t - a)), expn(2, np.abs(t - b))
        return np.where(t <= a, ea - eb, np.where(t >= b, eb - ea, 2 - ea - eb))

    def operator(self, t, own=None):
        """half E1 operator at points t: matrix on U (node values) and known part; `own`: index of the node each point is."""
        d = np.abs(t[:, None] - self.t[None, :])
        K = np.where(d > 0, expn(1, np.where(d > 0, d, 1.0)), 0.0) * self.w / 2
        I = self.e1int(t) / 2
        L = len(self.om)
        sums = np.stack([K[:, self.l == l].sum(axis=1) for l in range(L)], axis=1)
        S0 = K @ self.known(self.t, self.l) + sum((I[:, l] - sums[:, l]) * self.known(t, np.full(len(t), l)) for l in range(L))
        R = K * self.om[self.l]
        diag = ((I - sums) * self.om).sum(axis=1)
        if own is not None:
            R[np.arange(len(t)), own] += diag
            return R, S0
        return R, S0, diag

    def at(self, t):
        """mean diffuse intensity, upward and downward diffuse flux"""
        t = np.asarray(t, float)
        R, S0, diag = self.operator(t)
        U = (R @ self.U + S0 + self.Iup / 2 * expn(2, self.T - t) + self.b_neg / 2 * expn(2, t)) / (1 - diag)
        own = np.clip(np.searchsorted(self.t0, t, side="right") - 1, 0, len(self.om) - 1)
        Jt = self.om[own] * U + self.known(t, own)
        d = self.t[None, :] - t[:, None]
        # in the layer of t the source at t is subtracted and integrated in closed form
        E = expn(2, np.abs(d)) * self.w * (self.J[None, :] - np.where(self.l[None, :] == own[:, None], Jt[:, None], 0.0))
        a, b = self.t0[own], self.t0[own + 1]
        Fu = 2 * pi * (np.sum(np.where(d > 0, E, 0), axis=1) + Jt * (0.5 - expn(3, b - t)) + self.Iup * expn(3, self.T - t))
        Fd = 2 * pi * (np.sum(np.where(d < 0, E, 0), axis=1) + Jt * (0.5 - expn(3, t - a)) + self.b_neg * expn(3, t))
        return U, Fu, Fd


def run(case, mon, rng):
    if case["kind"] == "milne":
        s = obs.Sol(case, mon)
        p = s.p
        # change of variables by hand: scaled depths, albedos and sources
        sc, ts = p.sc, p.ts
        src = None
        if p.s is not None:
            src = []
            for l in range(p.L):
                q = np.polynomial.polynomial.Polynomial(p.s[l])(np.polynomial.polynomial.Polynomial(
                    [p.tau0[l] - ts[l] / sc[l], 1 / sc[l]])).coef
                src.append(np.concatenate([q, np.zeros(p.s.shape[1] - len(q))]))
            src = np.array(src)
        bn, bp = float(np.mean(case["b_neg"])), float(np.mean(case["b_pos"]))
        t = np.concatenate([p.tau[-1] * rng.random(4), [0.0, p.tau[-1]], rng.choice(p.tau, 1)])
        # evaluate the reference at interfaces by a hair inside
        x = np.clip(p.tstar(t), 1e-12, ts[-1] * (1 - 1e-12))
        m = Milne(ts[1:], p.om, p.I0, p.mu0 if p.I0 > 0 else 1.0, bn, bp, case["A"], src, x)
        U, Fu, Fd = m.at(x)
        d = s.fields(t)
        dirs = p.I0 * np.exp(-x / p.mu0) if p.I0 > 0 else 0.0
        dir0 = p.I0 * np.exp(-t / p.mu0) if p.I0 > 0 else 0.0
        S = max(np.max(np.abs(m.J)), abs(bn), m.Iup, p.I0 / (4 * pi) if p.I0 > 0 else 0)
        mon.event("integral-equation solutions")
        mon.check("upward flux against the integral equation", d["Fp"] - Fu, 3e-4 * pi * S)
        mon.check("downward flux against the integral equation", d["Fm"] + d["Fdir"] - Fd - (p.mu0 if p.I0 > 0 else 0) * dirs, 3e-4 * pi * S)
        mon.check("actinic flux against the integral equation", (d["act_up"] + d["act_down"] + dir0 - dirs) / (4 * pi) - U, 4e-3 * S)
        return
    L = len(case["tau"])
    t = np.concatenate([case["tau"][-1] * rng.random(3), [0.0, case["tau"][-1]]])
    got = []
    for n in case["Ns"]:
        c = dict(case)
        c.update(NQuad=n, NLeg=n, NFourier=1, Leg=[(g ** np.arange(n)).tolist() for g in case["g"]])
        got.append(obs.Sol(c, mon).fields(t, u=False))
    S = obs.src_scale(case) + max(np.max(np.abs(g["u0"])) for g in got)
    for k in ("Fp", "Fm", "Fdir", "act_up", "act_down"):
        a = 20 if k.startswith("act") else 1                    # no cosine weight: the angular quadrature converges more slowly
        mon.check("settled between 16 and 32 streams (%s)" % k, got[1][k] - got[0][k], 4e-4 * a * pi * S)
        mon.check("settled beyond 32 streams (%s)" % k, got[2][k] - got[1][k], 1e-4 * a * pi * S)
    mon.event("stream sequences")
