"""C21: blackbody helpers."""
import warnings
import numpy as np
from math import pi
from .. import gen, ref, obs

CASES = dict(quick=20000, thorough=800000)
RULE = ("random temperatures (0 to 1e9 K, scalar/array/list/integer, with zeros at random positions), wavenumbers and bands: Planck helper against the closed form, band "
        "emission against a convergent series / composite Gauss integral, additivity, Stefan-Boltzmann limit, per-layer linear sources at both interfaces, emissivity "
        "against an independent quadrature; non-trivial = decided; distinct = input shape x temperature regime x band regime")
ASSUMPTIONS = ["wavenumber in cm^-1 as used by the code (its docstrings say m^-1)", "positive wavenumbers; absolute temperatures"]
H, C, KB = 6.62607015e-34, 299792458.0, 1.380649e-23
SIGMA = 2 * pi ** 5 * KB ** 4 / (15 * H ** 3 * C ** 2)
A2 = 100 * H * C / KB          # cm K


def planck(T, v):
    T = np.asarray(T, float)
    with np.errstate(all="ignore"):
        x = np.where(T > 0, A2 * v / np.where(T > 0, T, 1), np.inf)
        r = 2e8 * H * C ** 2 * v ** 3 / np.expm1(np.minimum(x, 700.0)) * np.where(x > 700, np.exp(-(x - 700)), 1.0)
    return np.where(T > 0, r, 0.0)


def band(T, lo, hi):
    """Integral of Planck over [lo, hi] for scalar T > 0."""
    if T == 0:
        return 0.0
    xl, xh = A2 * lo / T, A2 * hi / T
    pref = 2e8 * H * C ** 2 * (T / A2) ** 4
    # composite Gauss in x on graded panels
    e = [xl]
    x = xl
    while x < min(xh, xl + 60, 760):
        x = min(xh, x + max(0.25, min(2.0, 0.5 * x)))
        e.append(x)
    e = np.array(e)
    if len(e) < 2:
        return 0.0
    gx, gw = ref.nodes(20)
    d = np.diff(e)
    q = e[:-1, None] + d[:, None] * gx
    return float(pref * np.sum(d[:, None] * gw * q ** 3 / np.expm1(q)))


def signature(c):
    return "%s n%d z%d %s %s" % (c["kind"], np.size(c["T"]), sum(1 for x in np.atleast_1d(c["T"]) if x == 0), "%.0f" % np.log10(max(np.max(c["T"]), 1e-3)), "%.0f" % np.log10(c["hi"]))


def make(rng, index, tier):
    kind = ["planck", "planck", "band", "s_poly", "emissivity"][index % 5]
    n = int(rng.choice([1, 1, 2, 3, 6, 12]))
    reg = rng.choice(["atm", "wide", "cold", "hot"])
    T = dict(atm=rng.uniform(150, 350, n), wide=10 ** rng.uniform(0, 5, n), cold=rng.uniform(0.5, 20, n), hot=rng.uniform(3000, 1e5, n) if rng.random() < 0.7 else 10 ** rng.uniform(4.5, 9, n))[reg]
    if kind in ("band", "s_poly"):
        # within one call temperatures of comparable magnitude (the helper's adaptive quadrature uses one vector norm)
        T = float(10 ** rng.uniform(1, 3.8)) * rng.uniform(0.7, 1.4, n)
    if rng.random() < 0.35:
        T[int(rng.integers(0, n))] = 0
    if rng.random() < 0.2:
        T = np.round(T)
    Tm = max(float(np.max(T)), 1.0)
    lo = float(rng.choice([0.0, 10 ** rng.uniform(-2, 0.7)])) * Tm / A2
    hi = lo + float(10 ** rng.uniform(-2, 1.2)) * Tm / A2
    c = dict(kind=kind, T=T.tolist(), lo=lo, hi=hi, scalar=bool(n == 1 and rng.random() < 0.7), as_list=bool(rng.random() < 0.3))
    c["v"] = float(10 ** rng.uniform(-6, 6)) if rng.random() < 0.5 else float(10 ** rng.uniform(0, 4))
    if kind == "s_poly":
        L = int(rng.choice([1, 1, 2, 3, 6]))
        c["T"] = (Tm * rng.uniform(0.7, 1.4, L + 1)).tolist()
        if rng.random() < 0.2:
            c["T"][int(rng.integers(0, L + 1))] = 0.0
        c["tau"] = np.cumsum(10 ** rng.uniform(-3, 1, L)).tolist()
    if kind == "emissivity":
        c["N"] = int(rng.integers(1, 20))
        c["bdrf"] = [float(rng.random()), dict(k="prod", a=float(rng.random()), b=0.4), dict(k="rat", a=0.3, b=float(rng.uniform(0.3, 1))),
                     dict(k="skew", a=0.2, b=0.7), dict(k="const", a=float(rng.random()), b=0)][int(rng.integers(0, 5))]
    return c


def run(c, mon, rng):
    S = obs.SUB
    T = np.array(c["T"])
    arg = float(T[0]) if c["scalar"] else (T.tolist() if c["as_list"] else T.copy())
    if not c["scalar"] and not c["as_list"] and np.all(T == np.round(T)) and rng.random() < 0.5:
        arg = gen.short(rng, T)
    if c["kind"] == "planck":
        vs = [c["v"]] + [float(10 ** rng.uniform(-8, 7)) for _ in range(3)]
        if rng.random() < 0.3:                  # a whole wavenumber in an integer type
            vs.append(gen.short(rng, int(rng.integers(1, 60000)))[()])
        for v in vs:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                with np.errstate(over="warn", divide="warn", invalid="warn", under="ignore"):
                    r = S.Planck(arg, v)
            mon.true("no overflow or invalid operation", not any(issubclass(x.category, RuntimeWarning) for x in w), T=c["T"], v=v, why=[str(x.message) for x in w][:2])
            v = float(v)
            want = planck(T, v)
            mon.true("shape", np.shape(r) == (() if T.size == 1 else T.shape), got=list(np.shape(r)))
            r = np.asarray(r, float).reshape(T.shape)
            x = A2 * v / np.where(T > 0, T, np.inf)
            mon.check("Planck's law", r - want, np.where(x > 690, 1e-290, (1e-11 + 4e-16 * x) * want + 1e-300), T=c["T"], v=v)
            mon.true("zero at zero kelvin", bool(np.all(r[T == 0] == 0)))
            mon.true("finite", bool(np.all(np.isfinite(r))))
            mon.event("Planck evaluations", T.size)
    elif c["kind"] == "band":
        lo, hi = c["lo"], c["hi"]
        r = S.blackbody_contrib_to_BCs(arg, lo, hi)
        mon.true("shape", np.shape(r) == (() if T.size == 1 else T.shape))
        r = np.asarray(r, float).reshape(T.shape)
        want = np.array([band(t, lo, hi) for t in T])
        M = max(np.max(want), 1e-280)
        mon.check("band emission is the integral of Planck's law", r - want, 1e-7 * M, T=c["T"], lo=lo, hi=hi)
        mid = lo + rng.random() * (hi - lo)
        r2 = np.asarray(S.blackbody_contrib_to_BCs(arg, lo, mid), float) + np.asarray(S.blackbody_contrib_to_BCs(arg, mid, hi), float)
        mon.check("additive over adjacent bands", r2.reshape(T.shape) - r, 1e-7 * M)
        i = int(np.argmax(T))
        if T[i] > 0:
            tot = float(S.blackbody_contrib_to_BCs(float(T[i]), 0.0, 60 * T[i] / A2))
            sb = SIGMA * T[i] ** 4 / pi
            mon.check("Stefan-Boltzmann law", tot - sb, 1e-7 * sb, T=T[i])
        mon.event("band integrals", 3 * T.size)
    elif c["kind"] == "s_poly":
        tau = np.array(c["tau"])
        L = len(tau)
        ta = float(tau[0]) if L == 1 and rng.random() < 0.4 else (tau.tolist() if rng.random() < 0.3 else tau)
        r = S.generate_s_poly_coeffs(ta, (gen.short(rng, T) if np.all(T == np.round(T)) and rng.random() < 0.5 else T) if not c["as_list"] else T.tolist(), c["lo"], c["hi"])
        mon.true("shape of source coefficients", np.shape(r) == (L, 2), got=list(np.shape(r)))
        if np.shape(r) == (L, 2):
            t0 = np.concatenate([[0.0], tau])
            B = np.array([band(t, c["lo"], c["hi"]) for t in T])
            sl = np.diff(B) / np.diff(t0)
            M = np.max(B)
            tol = 1e-7 * M + 1e-12 * np.abs(sl) * t0[1:] + 1e-7 * M
            mon.check("source at the upper interface", r[:, 0] + r[:, 1] * t0[:-1] - B[:-1], tol)
            mon.check("source at the lower interface", r[:, 0] + r[:, 1] * t0[1:] - B[1:], tol)
            mon.event("source layers", L)
    else:
        N = c["N"]
        x, w = ref.nodes(N)
        e = S.generate_emissivity_from_BDRF(N, gen.bdrf_mode(c["bdrf"]))
        want = 1 - 2 * gen.bdrf_eval(c["bdrf"], x, x) @ (x * w)
        mon.true("emissivity shape", np.shape(e) in ((), (N,)) and (np.shape(e) == (N,) or not isinstance(c["bdrf"], dict)))
        mon.check("emissivity", np.broadcast_to(e, (N,)) - want, 1e-12)
        mon.event("emissivities", N)
