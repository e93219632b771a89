"""Independent oracles: quadrature, associated Legendre functions, delta-M scaling, discretised RTE terms,
single-scattering (TMS) and IMS corrections. Shares no code with the package under test."""
import numpy as np
from math import pi, lgamma
from functools import lru_cache


@lru_cache(maxsize=None)
def nodes(N):
    """Gauss-Legendre on (0,1) by Golub-Welsch with Newton polishing (independent of leggauss)."""
    k = np.arange(1, N)
    b = k / np.sqrt(4.0 * k * k - 1)
    x = np.linalg.eigvalsh(np.diag(b, 1) + np.diag(b, -1)) if N > 1 else np.zeros(1)
    for _ in range(3):
        p0, p1 = np.ones_like(x), x.copy()
        for n in range(1, N):
            p0, p1 = p1, ((2 * n + 1) * x * p1 - n * p0) / (n + 1)
        if N == 0:
            break
        d = N * (p0 - x * p1) / (1 - x * x)
        x = x - p1 / d
    p0, p1 = np.ones_like(x), x.copy()
    for n in range(1, N):
        p0, p1 = p1, ((2 * n + 1) * x * p1 - n * p0) / (n + 1)
    d = N * (p0 - x * p1) / (1 - x * x)
    w = 2 / ((1 - x * x) * d * d)
    return (x + 1) / 2, w / 2


def lam(m, lmax, mu):
    """Normalised associated Legendre sqrt((l-m)!/(l+m)!) P_l^m(mu) (no Condon-Shortley phase), l = m..lmax-1.
    Shape (lmax-m, len(mu))."""
    mu = np.atleast_1d(np.asarray(mu, dtype=float))
    out = np.zeros((max(lmax - m, 0), len(mu)))
    if lmax <= m:
        return out
    s = np.sqrt(np.maximum(0, 1 - mu * mu))
    c = np.exp(0.5 * lgamma(2 * m + 1) - m * np.log(2.0) - lgamma(m + 1))
    out[0] = c * s**m
    if lmax - m > 1:
        out[1] = mu * np.sqrt(2 * m + 1.0) * out[0]
    for l in range(m + 1, lmax - 1):
        out[l + 1 - m] = ((2 * l + 1) * mu * out[l - m] - np.sqrt(l * l - m * m + 0.0) * out[l - 1 - m]) / np.sqrt((l + 1.0) ** 2 - m * m)
    return out


def scaled(tau, omega, Leg, f):
    """Delta-M scaling by hand: (tau_bounds*, thickness factor, omega*, g*) ; tau_bounds* includes 0."""
    tau = np.asarray(tau, float)
    omega = np.asarray(omega, float)
    Leg = np.asarray(Leg, float)
    f = np.zeros(len(tau)) if f is None else np.asarray(f, float)
    sc = 1 - omega * f
    dt = np.diff(np.concatenate([[0.0], tau]))
    ts = np.concatenate([[0.0], np.cumsum(sc * dt)])
    om = omega * (1 - f) / sc
    g = (Leg - f[:, None]) / (1 - f[:, None])
    return ts, sc, om, g


def D_matrix(m, om, g, N):
    """Full NQuad x NQuad kernel D^m(mu_i, mu_j) w_j for streams ordered (+mu, -mu)."""
    mu, w = nodes(N)
    NLeg = len(g)
    full = np.concatenate([mu, -mu])
    la = lam(m, NLeg, full)
    wl = (2 * np.arange(m, NLeg) + 1) * g[m:]
    return 0.5 * om * (la.T * wl) @ la * np.concatenate([w, w])[None, :]


def X_vector(m, om, g, N, mu0, I0):
    mu, _ = nodes(N)
    NLeg = len(g)
    la = lam(m, NLeg, np.concatenate([mu, -mu]))
    l0 = lam(m, NLeg, np.array([-mu0]))[:, 0]
    wl = (2 * np.arange(m, NLeg) + 1) * g[m:]
    return om * I0 * (1 if m == 0 else 2) / (4 * pi) * (la.T @ (wl * l0))


def spectrum(tau, omega, Leg, f, NQuad, NF):
    """Squared eigenvalues K^2 of the discretised transfer operator, complex array (layers x modes, N); layers/modes
    with (numerically) no scattering are left out. Leg: first NLeg coefficients."""
    N = NQuad // 2
    mu, w = nodes(N)
    _, _, om, g = scaled(tau, omega, Leg, f)
    Ms, idx = [], []
    for m in range(NF):
        la = lam(m, g.shape[1], mu)
        sgn = (-1.0) ** np.arange(la.shape[0])
        for l in range(len(om)):
            wl = 0.5 * om[l] * (2 * np.arange(m, g.shape[1]) + 1) * g[l][m:]
            if not np.any(np.abs(wl) > 1e-9):
                continue
            Dp = ((la.T * wl) @ la) * w
            Dn = ((la.T * (wl * sgn)) @ la) * w
            a = (Dp - np.eye(N)) / mu[:, None]
            b = Dn / mu[:, None]
            Ms.append((a - b) @ (a + b))
            idx.append((l, m))
    if not Ms:
        return np.zeros((0, N)), []
    return np.linalg.eigvals(np.array(Ms)), idx


def well_posed(tau, omega, Leg, f, NQuad, NF, mu0=None, gap=2e-3, spread=np.inf):
    """All K^2 real and clearly positive (the discrete-ordinate eigenproblem is the one the method assumes), and the
    beam is not within `gap` of an eigenvalue."""
    k2, _ = spectrum(tau, omega, Leg, f, NQuad, NF)
    if k2.size == 0:
        return True
    if np.any(np.abs(k2.imag) > 1e-9 * np.abs(k2)) or np.any(k2.real < 1e-7):
        return False
    if np.max(k2.real) > spread * np.min(k2.real):
        return False
    if mu0 is not None and mu0 > 0 and np.min(np.abs(np.sqrt(k2.real) * mu0 - 1)) < gap:
        return False
    return True


class Problem:
    """Discretised problem of a case: layer lookup, depth mapping, sources."""

    def __init__(self, case):
        self.case = case
        self.N = case["NQuad"] // 2
        self.mu, self.w = nodes(self.N)
        self.mufull = np.concatenate([self.mu, -self.mu])
        self.tau = np.array(case["tau"], float)
        self.tau0 = np.concatenate([[0.0], self.tau])
        self.L = len(self.tau)
        self.NF = 1 if case["only_flux"] else case["NFourier"]
        self.omega = np.array(case["omega"], float)
        self.f = np.zeros(self.L) if case["f"] is None else np.array(case["f"], float)
        Leg = np.array(case["Leg"], float).copy()
        self.Leg_all = Leg
        self.ts, self.sc, self.om, self.g = scaled(self.tau, self.omega, Leg[:, :case["NLeg"]], self.f)
        self.mu0, self.I0, self.phi0 = case["mu0"], case["I0"], case["phi0"]
        self.s = None if case["s"] is None else np.array(case["s"], float)

    @property
    def V(self):
        """Magnitude of the polynomial particular solution for internal sources (rounding errors scale with it)."""
        if self.s is None:
            return 0.0
        if not hasattr(self, "_V"):
            k2, idx = spectrum(self.tau, self.omega, self.Leg_all[:, :self.case["NLeg"]], self.f, 2 * self.N, 1)
            K = 1 / np.max(self.mu) * np.ones(self.L)
            for v, (l, m) in zip(k2, idx):
                K[l] = np.sqrt(np.maximum(np.min(v.real), 1e-12))
            V = 0.0
            n = self.s.shape[1]
            for l in range(self.L):
                # coefficients in scaled depth can grow through the shift of origin: bound by absolute values
                T = max(self.tau[l], self.ts[l + 1] / self.sc[l])
                for k in range(n):
                    c = abs(self.s[l, k]) * (1 - self.omega[l]) / self.sc[l]
                    for j in range(k + 1):
                        ff = np.prod(np.arange(k - j + 1, k + 1)) if j else 1.0
                        V = max(V, c * ff * (2 * T) ** (k - j) / (K[l] * self.sc[l]) ** j / max(K[l], 1e-3))
            self._V = float(V)
        return self._V

    def layer(self, t):
        return np.minimum(np.searchsorted(self.tau, t, side="left"), self.L - 1)

    def tstar(self, t, l=None):
        t = np.asarray(t, float)
        l = self.layer(t) if l is None else l
        return self.ts[l] + (t - self.tau0[l]) * self.sc[l]

    def source(self, t, l):
        """s(tau) in original units (before Kirchhoff factor)."""
        if self.s is None:
            return np.zeros_like(t)
        return sum(self.s[l, k] * t**k for k in range(self.s.shape[1]))

    def beam(self, t, l):
        """scaled direct beam exp(-tau*/mu0)"""
        if self.I0 <= 0:
            return np.zeros_like(t)
        return np.exp(-self.tstar(t, l) / self.mu0)

    def bmode(self, which, m):
        b = self.case[which]
        b = np.asarray(b, float)
        if b.ndim == 2:
            return b[:, m] if m < b.shape[1] else np.zeros(self.N)
        if m > 0:
            return np.zeros(self.N)
        return np.broadcast_to(b, (self.N,)).astype(float)


def modes_of(u, p, taus, extra=2):
    """Evaluate u on an azimuth grid and return (cosine modes [NF+extra, NQuad, Ntau], max |sine part|, sup norm)."""
    K = p.NF + extra
    n = 2 * K + 1
    phi = p.phi0 + 2 * pi * np.arange(n) / n
    v = np.asarray(u(np.asarray(taus, float), phi), float)
    v = v.reshape(2 * p.N, len(taus), n)
    d = 2 * pi * np.arange(n) / n
    m = np.arange(K)
    C = np.cos(np.outer(d, m)) * np.where(m == 0, 1, 2)[None, :] / n
    S = np.sin(np.outer(d, m[1:])) * 2 / n if K > 1 else np.zeros((n, 1))
    cm = np.einsum("itp,pm->mit", v, C)
    sm = np.einsum("itp,pm->mit", v, S)
    return cm, np.max(np.abs(sm)), np.max(np.abs(v))


def legval(c, x):
    """Clenshaw evaluation of sum c_l P_l(x) (scalar recurrences, independent of numpy.polynomial)."""
    x = np.asarray(x, float)
    p0, p1 = np.ones_like(x), x
    tot = c[0] * p0
    if len(c) > 1:
        tot = tot + c[1] * p1
    for n in range(1, len(c) - 1):
        p0, p1 = p1, ((2 * n + 1) * x * p1 - n * p0) / (n + 1)
        tot = tot + c[n + 1] * p1
    return tot


def nu_of(mu, phi, mu0, phi0):
    """cosine of scattering angle between (mu, phi) and downward beam (-mu0, phi0): (len(mu), len(phi))"""
    mu = np.asarray(mu, float)[:, None]
    return -mu0 * mu + np.sqrt(1 - mu0**2) * np.sqrt(1 - mu**2) * np.cos(phi0 - np.asarray(phi, float))[None, :]


def tms(p, taus, phis, layers=None):
    """TMS correction by integrating the single-scattering equation layer by layer (recurrence, no division by decays).
    Source in layer j: (omega*_j I0/4pi) (p_j/(1-f_j) - p*_j) exp(-tau*/mu0)."""
    taus = np.atleast_1d(np.asarray(taus, float))
    phis = np.atleast_1d(np.asarray(phis, float))
    NL = p.case["NLeg"]
    out = np.zeros((2 * p.N, len(taus), len(phis)))
    nu = nu_of(p.mufull, phis, p.mu0, p.phi0)
    J = []
    for j in range(p.L):
        ga = p.Leg_all[j]
        ptrue = legval((2 * np.arange(len(ga)) + 1) * ga, nu)
        ptr = legval((2 * np.arange(NL) + 1) * p.g[j], nu)
        J.append(p.om[j] * p.I0 / (4 * pi) * (ptrue / (1 - p.f[j]) - ptr))
    def phi1(x):
        """(1 - exp(-x)) / x, stable, x >= 0 array"""
        x = np.asarray(x, float)
        return np.where(np.abs(x) < 1e-12, 1 - x / 2, -np.expm1(-x) / np.where(x == 0, 1, x))
    def up(mu, a, b):
        """int_a^b exp(-(t-a)/mu) exp(-t/mu0) dt/mu"""
        k = 1 / mu + 1 / p.mu0
        return np.exp(-a / p.mu0) * (b - a) / mu * phi1(k * (b - a))
    def down(mu, a, b):
        """int_a^b exp(-(b-t)/mu) exp(-t/mu0) dt/mu"""
        k1, k0 = 1 / mu, 1 / p.mu0
        d = b - a
        # exp(-b k0) int_0^d exp(-x (k1 - k0)) dx / mu, stable for both signs
        if k1 >= k0:
            return np.exp(-b * k0) * d * k1 * phi1((k1 - k0) * d)
        return np.exp(-a * k0 - d * k1) * d * k1 * phi1((k0 - k1) * d)
    N = p.N
    # boundary values at interfaces
    Iup = np.zeros((p.L + 1, N, len(phis)))
    Idn = np.zeros((p.L + 1, N, len(phis)))
    for i in range(N):
        mu = p.mu[i]
        for j in range(p.L - 1, -1, -1):
            a, b = p.ts[j], p.ts[j + 1]
            Iup[j, i] = Iup[j + 1, i] * np.exp(-(b - a) / mu) + J[j][i] * up(mu, a, b)
        for j in range(p.L):
            a, b = p.ts[j], p.ts[j + 1]
            Idn[j + 1, i] = Idn[j, i] * np.exp(-(b - a) / mu) + J[j][N + i] * down(mu, a, b)
    ls = p.layer(taus) if layers is None else layers
    for k, (t, l) in enumerate(zip(taus, ls)):
        x = p.ts[l] + (t - p.tau0[l]) * p.sc[l]
        a, b = p.ts[l], p.ts[l + 1]
        x = min(max(x, a), b)
        for i in range(N):
            mu = p.mu[i]
            out[i, k] = Iup[l + 1, i] * np.exp(-(b - x) / mu) + J[l][i] * up(mu, x, b)
            out[N + i, k] = Idn[l, i] * np.exp(-(x - a) / mu) + J[l][N + i] * down(mu, a, x)
    return out


def ims(p, taus, phis):
    """IMS correction (downward streams only), thickness-weighted averages."""
    taus = np.atleast_1d(np.asarray(taus, float))
    phis = np.atleast_1d(np.asarray(phis, float))
    NL = p.case["NLeg"]
    dt = np.diff(p.tau0)
    s1 = np.sum(p.omega * dt)
    s2 = np.sum(p.f * p.omega * dt)
    wb, fb = s1 / np.sum(dt), s2 / s1
    gr = p.Leg_all.copy()
    gr[:, :NL] = p.f[:, None]
    gb = np.sum(gr * (p.omega * dt)[:, None], axis=0) / s2
    mus = p.mu0 / (1 - wb * fb)
    nu = nu_of(-p.mu, phis, p.mu0, p.phi0)
    ang = legval((2 * np.arange(len(gb)) + 1) * (2 * gb - gb**2), nu)
    pref = p.I0 / (4 * pi) * (wb * fb) ** 2 / (1 - wb * fb)
    out = np.zeros((2 * p.N, len(taus), len(phis)))
    xs, ws = nodes(24)
    for i, mu in enumerate(p.mu):
        x = 1 / mu - 1 / mus
        # chi = exp(-tau/mu)/(mu mus) int_0^tau exp(x t) t dt, evaluated by composite Gauss quadrature (no cancellation)
        for k, T in enumerate(taus):
            if T == 0:
                continue
            # integrand exp(-(T-t)/mu - t/mus) t ; split so that each panel is smooth
            nseg = int(min(400, max(1, np.ceil(abs(x) * T / 8))))
            if nseg == 400:
                # only the end near the maximum matters
                h = min(T, 3200 / abs(x))
                edges = np.linspace(T - h, T, 401) if x > 0 else np.linspace(0, h, 401)
            else:
                edges = np.linspace(0, T, nseg + 1)
            d = np.diff(edges)
            t = edges[:-1, None] + d[:, None] * xs[None, :]
            val = np.sum(d[:, None] * ws[None, :] * t * np.exp(-(T - t) / mu - t / mus))
            out[p.N + i, k, :] = pref * ang[i] * val / (mu * mus)
    return out
