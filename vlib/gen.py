"""Generation of valid pydisort problems as JSON-able specs."""
import warnings
import numpy as np
from math import pi
from . import ref

LAYERS = [1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 28, 36]
NQUADS = [2, 4, 4, 4, 6, 6, 8, 8, 8, 10, 12, 14, 16, 18, 24, 32, 48]
RARE = 0.015            # share of cases with 50-200 layers, and with 64-80 streams


# ---------------------------------------------------------------- BDRF modes from specs
def bdrf_mode(spec):
    """spec: float (constant mode) or {"k": kind, "a":..., "b":..., "m":...} -> callable as the package expects."""
    if not isinstance(spec, dict):
        return spec
    return lambda mu, neg_mup: bdrf_eval(spec, mu, neg_mup)


def bdrf_eval(spec, mu, mup):
    mu = np.asarray(mu, dtype=float)
    mup = np.asarray(mup, dtype=float)
    if not isinstance(spec, dict):
        return np.full((len(mu), len(mup)), float(spec))
    a, b = spec["a"], spec["b"]
    x, y = mu[:, None], mup[None, :]
    if spec["k"] == "const":
        return np.full((len(mu), len(mup)), float(a))
    if spec["k"] == "prod":      # reciprocal
        return a * (1 + b * x * y)
    if spec["k"] == "rat":       # reciprocal, Lommel-Seeliger-like
        return a / (b + x + y)
    if spec["k"] == "skew":      # not reciprocal
        return a * (1 + b * x) * (1 + 0.5 * b * y**2)
    if spec["k"] == "sin":
        m = spec["m"]
        return a * (np.sqrt(1 - x**2) * np.sqrt(1 - y**2)) ** m * (1 + b * x * y)
    if spec["k"] == "asin":      # not reciprocal
        m = spec["m"]
        return a * (np.sqrt(1 - x**2) * np.sqrt(1 - y**2)) ** m * (1 + b * x) * (1 - 0.5 * b * y**2)
    raise ValueError(spec)


def bdrf_list(case):
    return [bdrf_mode(s) for s in case["bdrf"]]


# ---------------------------------------------------------------- pieces
def phase_moments(rng, n, kind=None):
    kind = kind or rng.choice(["hg", "hg", "hg", "hg", "hg", "iso", "ray", "lin", "mix", "mix", "back", "rand", "rand", "even", "one"])
    l = np.arange(n)
    if kind == "hg":
        g = rng.uniform(0.05, 0.9) ** l * 1.0
    elif kind == "iso":
        g = (l == 0) * 1.0
    elif kind == "ray":
        g = (l == 0) * 1.0 + (l == 2) * 0.1
    elif kind == "lin":
        g = (l == 0) * 1.0 + (l == 1) * rng.uniform(-1 / 3, 1 / 3)
    elif kind == "mix":
        w = rng.uniform(0.5, 1)
        g = w * rng.uniform(0.3, 0.9) ** l + (1 - w) * (-rng.uniform(0.0, 0.6)) ** l
    elif kind == "back":
        g = (-rng.uniform(0.05, 0.6)) ** l
    elif kind == "even":                                    # symmetric: no odd moments
        g = rng.uniform(0.1, 0.85) ** l * (l % 2 == 0)
    elif kind == "one":                                     # a single moment besides the zeroth
        k = int(rng.integers(1, max(2, min(n, 12))))
        g = (l == 0) * 1.0 + (l == k) * rng.uniform(-1, 1) / (2 * k + 1)
    elif kind == "rand":
        # moments of a random non-negative discrete scattering measure convolved with an HG kernel
        x = rng.uniform(-1, 1, 4)
        w = rng.dirichlet(np.ones(4))
        P = np.array([np.polynomial.legendre.legval(x, np.eye(n)[i]) for i in range(n)])
        g = (P @ w) * rng.uniform(0.3, 0.8) ** l
    g = np.array(g, dtype=float)
    g[0] = 1.0
    return g


def thicknesses(rng, L, style=None):
    style = style or rng.choice(["normal", "normal", "mixed", "mixed", "thick", "thin"], p=[.25, .25, .2, .15, .1, .05])
    if style == "normal":
        t = rng.uniform(0.1, 2.0, L)
    elif style == "mixed":
        t = 10 ** rng.uniform(-3, 0.7, L)
    elif style == "thick":
        t = 10 ** rng.uniform(0, 1.4, L)
    elif style == "thin":
        t = 10 ** rng.uniform(-6, -1, L)
    else:
        raise ValueError(style)
    return t


def albedos(rng, L, hi=0.9999, style=None):
    style = style or rng.choice(["u", "u", "high", "zeros", "tiny", "mixed"])
    u = rng.uniform(0.02, 0.98, L)
    if style == "high":
        u = 1 - 10 ** rng.uniform(np.log10(1 - hi), -0.5, L)
    elif style == "zeros":
        u = u * (rng.random(L) < 0.5)
    elif style == "tiny":
        u = np.where(rng.random(L) < 0.5, 10 ** rng.uniform(-5, -1, L), u)
    elif style == "mixed":
        k = rng.integers(0, 4, L)
        u = np.choose(k, [u, 0 * u, 10 ** rng.uniform(-4, -1, L), 1 - 10 ** rng.uniform(np.log10(1 - hi), -0.5, L)])
    return np.minimum(u, hi)


def gen(rng, layers=None, nquads=None, beam=None, iso=None, dm=None, nt=None, bdrf=None, bc=None, hi=None,
        only_flux=False, thick=None, kinds=None, nonneg=False, nfourier=None, matrix_bc=True, deg=None, nleg=None,
        albedo=None, ims=0.01):
    """Return a spec. Arguments constrain features (None: random)."""
    L = int(rng.choice(layers or LAYERS))
    NQuad = int(rng.choice(nquads or NQUADS))
    if layers is None and rng.random() < RARE:
        L = int(rng.choice([50, 64, 100, 130, 200]))
    elif nquads is None and rng.random() < RARE:
        L, NQuad = int(rng.choice([1, 1, 2, 3])), int(rng.choice([64, 66, 72, 80]))
    cap = 440 if rng.random() < 0.08 or NQuad >= 64 else 120
    if L * NQuad > cap:
        NQuad = max(4, 2 * (cap // L // 2))
        if nquads and NQuad not in nquads:
            NQuad = int(min(nquads))
    N = NQuad // 2
    iso = bool(rng.random() < 0.5) if iso is None else iso
    beam = bool(rng.random() < 0.7) if beam is None else beam
    dm = bool(rng.random() < 0.5) if dm is None else dm
    nt = (bool(rng.random() < 0.5) if nt is None else nt) and not only_flux
    degree = int(rng.choice([0, 0, 1, 1, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5]) if deg is None else deg) if iso else -1
    if deg is None and degree == 5 and rng.random() < 0.6:
        degree = int(rng.integers(6, 10))                       # (from eleven coefficients on the package warns)
    if hi is None:
        hi = 0.99999 if degree < 0 else (0.9999 if degree <= 1 else 0.99 if degree <= 5 else 0.9)
    t = thicknesses(rng, L, thick)
    tau = np.cumsum(t)
    omega = albedos(rng, L, hi, albedo)
    # Legendre orders
    if nleg == "full" or (nleg is None and rng.random() < 0.7):
        NLeg = NQuad
    else:
        NLeg = int(rng.integers(1, NQuad + 1))
    if nt and rng.random() < 0.9:
        extra = int(rng.integers(1, 2 * NQuad + 4))
    else:
        extra = int(rng.choice([0, 1, NQuad, int(rng.integers(0, 2 * NQuad))]))
    if rng.random() < 0.04:
        extra = int(rng.integers(50, 300))                      # a tabulated phase function
    NLeg_all = NLeg + extra
    Leg = np.array([phase_moments(rng, NLeg_all, None if kinds is None else str(rng.choice(kinds))) for _ in range(L)])
    peaked = None
    if dm and kinds is None and rng.random() < 0.35:
        # strong forward peak: a smooth phase function plus a peak of weight up to 0.97 that the peak fraction removes
        peaked = np.where(rng.random(L) < 0.7, rng.uniform(0.3, 0.97, L), rng.uniform(0, 0.5, L))
        ll = np.arange(NLeg_all)
        decay = np.where(ll < NLeg, 1.0, rng.uniform(0.5, 0.95) ** np.maximum(ll - NLeg + 1, 0))
        smooth = np.clip(Leg, -0.8, 0.9)
        smooth[:, 0] = 1.0
        Leg = peaked[:, None] * decay[None, :] + (1 - peaked[:, None]) * smooth
        Leg[:, 0] = 1.0
    if nfourier == "full":
        NF = NLeg
    else:
        NF = NLeg if rng.random() < 0.6 else int(rng.integers(1, NLeg + 1))
    # delta-M
    f = None
    if dm:
        fmax = 0.9 * (1 + np.minimum(0, Leg[:, :NLeg].min(axis=1))) / 2
        if peaked is not None:
            f = peaked
        elif NLeg_all > NLeg and rng.random() < 0.7:
            f = np.clip(Leg[:, NLeg], 0, fmax)
        else:
            f = rng.uniform(0, 0.6, L)
            f = np.minimum(f, fmax)
        if rng.random() < 0.25:
            f = f * (rng.random(L) < 0.6)
    # layers that agree in some respects and differ in others
    if L > 1 and rng.random() < 0.2:
        which = rng.integers(0, L, L) if rng.random() < 0.5 else np.repeat(rng.integers(0, L, L), 2)[:L]
        if rng.random() < 0.4:
            omega = omega[which]
        if rng.random() < 0.4:
            Leg = Leg[which]
            if f is not None:
                f = f[which]
        elif f is not None and peaked is None and rng.random() < 0.5:
            f = np.full(L, np.min(f))
        if rng.random() < 0.3:
            t = np.full(L, t[0])
            tau = np.cumsum(t)
    # beam
    # (rounding of the smallest eigenvalue, hence of the effective albedo, grows with the spread of the spectrum)
    if not ref.well_posed(tau, omega, Leg[:, :NLeg], f, NQuad, NF, spread=1e8):
        return gen(rng, layers, nquads, beam, iso, dm, nt, bdrf, bc, hi, only_flux, thick, kinds, nonneg, nfourier, matrix_bc, deg, nleg, albedo, ims)
    if beam:
        I0 = float(10 ** rng.uniform(-1, 2)) if rng.random() < 0.8 else 1.0
        phi0 = float(rng.choice([0.0, rng.uniform(0, 2 * pi)]))
        mu0 = None
        for _ in range(40):
            c = float(rng.choice([rng.uniform(0.08, 1.0), rng.uniform(0.3, 1.0), rng.uniform(0.02, 0.1), 1.0], p=[.45, .4, .1, .05]))
            if not nt and rng.random() < 0.05:
                c = float(rng.choice(ref.nodes(N)[0]))          # beam along a stream: fine without NT corrections
            elif np.min(np.abs(ref.nodes(N)[0] - c)) < 2e-3:
                continue
            if nt and f is not None and NLeg_all > NLeg:
                wf = np.sum(f * omega * t) / np.sum(t)
                if np.min(np.abs(1 / ref.nodes(N)[0] - (1 - wf) / c)) < ims:
                    continue
            if ref.well_posed(tau, omega, Leg[:, :NLeg], f, NQuad, NF, c):
                mu0 = c
                break
        if mu0 is None:
            return gen(rng, layers, nquads, beam, iso, dm, nt, bdrf, bc, hi, only_flux, thick, kinds, nonneg, nfourier, matrix_bc, deg, nleg, albedo, ims)
    else:
        I0, mu0, phi0 = 0.0, float(rng.choice([0.0, 0.47])), 0.0
    # boundary sources
    def bsrc(sc):
        k = rng.choice(["0", "s", "v", "m"], p=[.35, .3, .2, .15]) if bc is None else rng.choice(bc)
        if k == "m" and not matrix_bc:
            k = "v"
        if k == "0":
            return 0
        if k == "s":
            return float(sc * rng.uniform(0.1, 2))
        if k == "v":
            v = sc * rng.uniform(0.1, 2, N)
            if rng.random() < 0.25:
                v = v * (rng.random(N) < 0.5)               # some (possibly all) streams dark
            return v.tolist()
        m = sc * rng.uniform(0.5, 1.5, (N, 1)) * 0.4 ** np.arange(NF)[None, :] * rng.uniform(-1, 1, (N, NF))
        m[:, 0] = sc * rng.uniform(0.5, 1.5, N)
        z = rng.random()
        if z < 0.12:
            m[:, 0] = 0                                     # no azimuthal mean
        elif z < 0.24:
            m = m * (rng.random(m.shape) < 0.5)             # scattered zeros
        elif z < 0.3:
            m[:, rng.random(NF) < 0.5] = 0                  # missing modes
        return m.tolist()
    ssc = I0 if beam and rng.random() < 0.5 else float(10 ** rng.uniform(-1, 1.5))
    if rng.random() < 0.1:                                  # all sources tiny or huge together
        u = float(10 ** rng.uniform(-14, 14))
        I0, ssc = I0 * u, ssc * u
    b_pos, b_neg = bsrc(ssc), bsrc(ssc)
    # internal source: polynomial in tau, positive-ish, per layer
    s = None
    if iso:
        a = rng.uniform(0.2, 1.5, (L, degree + 1)) * ssc
        a = a * (1.0 / max(tau[-1], 1e-3 if degree == 1 else 0.5 if degree <= 5 else 10.0)) ** np.arange(degree + 1)[None, :]
        if degree >= 1 and not nonneg:
            sg = np.where(rng.random((L, degree)) < 0.3, -0.3, 1.0)
            a[:, 1:] *= sg
        if rng.random() < 0.08:
            a = np.repeat(a[:1], L, axis=0)                 # one polynomial for all layers
        if rng.random() < 0.25 and L > 1:
            keep = rng.random(L) < 0.5
            keep[rng.integers(0, L)] = True
            a = a * keep[:, None]
        if degree >= 1 and rng.random() < 0.12:             # polynomials with missing terms
            z = rng.random(degree + 1) < 0.4 if rng.random() < 0.5 else np.arange(degree + 1) < 1
            b = a * ~z[None, :] if rng.random() < 0.6 else a * (rng.random(a.shape) < 0.6)
            a = b if np.any(b != 0) else a
        s = a.tolist()
    if not beam and s is None and np.all(np.asarray(b_pos) == 0) and np.all(np.asarray(b_neg) == 0):
        b_neg = float(ssc)
    # surface
    bd = []
    use_bdrf = bool(rng.random() < 0.6) if bdrf is None else bdrf
    if use_bdrf:
        nb = int(rng.choice([1, 1, 2, 3, NF, NF + 1]))
        for m in range(nb):
            if m == 0:
                k = rng.choice(["scalar", "const", "prod", "rat", "skew"])
                a = float(rng.uniform(0.05, 0.9))
                if k == "scalar":
                    bd.append(a)
                elif k == "const":
                    bd.append(dict(k="const", a=a, b=0.0))
                elif k == "prod":
                    bd.append(dict(k="prod", a=a * 0.7, b=float(rng.uniform(0, 0.6))))
                elif k == "rat":
                    bd.append(dict(k="rat", a=a * 0.5, b=float(rng.uniform(0.3, 1))))
                else:
                    bd.append(dict(k="skew", a=a * 0.5, b=float(rng.uniform(0, 0.5))))
            else:
                if rng.random() < 0.25:
                    bd.append(float(rng.uniform(-0.05, 0.1)) * 0.5 ** m)
                else:
                    bd.append(dict(k="sin" if rng.random() < 0.5 else "asin", a=float(rng.uniform(-0.2, 0.3)) * 0.6 ** m, b=float(rng.uniform(0, 0.5)), m=m))
    return dict(tau=tau.tolist(), omega=omega.tolist(), NQuad=NQuad, Leg=Leg.tolist(), mu0=mu0, I0=I0, phi0=phi0,
                NLeg=NLeg, NFourier=NF, b_pos=b_pos, b_neg=b_neg, only_flux=bool(only_flux),
                f=None if f is None else f.tolist(), NT_cor=bool(nt), bdrf=bd, s=s,
                banded=int(rng.choice([3, 4, 10, 10, 10, 99])), autograd=bool(rng.random() < 0.06),
                cache=int(rng.choice([0, 1, 2], p=[.88, .06, .06])))


INTEGERS = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", ">i4", ">u2"]


def short(rng, a):
    """Whole numbers in a random integer type that can hold them (signed, unsigned, narrow, wide, either byte order)."""
    a = np.asarray(a)
    ok = [t for t in INTEGERS if a.size == 0 or (np.iinfo(t).min <= np.min(a) and np.max(a) <= np.iinfo(t).max)]
    return a.astype(ok[int(rng.integers(0, len(ok)))])


def plain(case):
    """The case in the default mode (not autograd-compatible, surface modes not cached)."""
    case.update(autograd=False, cache=0)
    return case


def kwargs(case, **over):
    """Keyword arguments for pydisort."""
    k = dict(
        tau_arr=np.array(case["tau"], dtype=float),
        omega_arr=np.array(case["omega"], dtype=float),
        NQuad=int(case["NQuad"]),
        Leg_coeffs_all=np.array(case["Leg"], dtype=float),
        mu0=case["mu0"], I0=case["I0"], phi0=case["phi0"],
        NLeg=case["NLeg"], NFourier=case["NFourier"],
        b_pos=_b(case["b_pos"]), b_neg=_b(case["b_neg"]),
        only_flux=case["only_flux"],
        f_arr=0 if case["f"] is None else np.array(case["f"], dtype=float),
        NT_cor=case["NT_cor"],
        BDRF_Fourier_modes=_cached(case),
        use_banded_solver_NLayers=case["banded"],
        autograd_compatible=case["autograd"],
    )
    if case["s"] is not None:
        k["s_poly_coeffs"] = np.array(case["s"], dtype=float)
    if case["only_flux"]:
        for n in ("b_pos", "b_neg"):
            if np.ndim(k[n]) == 2:
                k[n] = k[n][:, :1]
    k.update(over)
    return k


def _cached(case):
    """The surface modes, in some cases passed through the package's caching helper (without / with the beam angle)."""
    modes = bdrf_list(case)
    if modes and case.get("cache"):
        from . import env
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            modes = env.SUB.cache_BDRF_Fourier_modes(case["NQuad"] // 2, modes, *([case["mu0"]] if case["cache"] == 2 else []))
    return modes


def _b(b):
    return np.array(b, dtype=float) if isinstance(b, list) else b


def nt_active(case):
    """Documented condition under which NT corrections apply."""
    om = np.array(case["omega"])
    f = np.zeros_like(om) if case["f"] is None else np.array(case["f"])
    return bool(case["NT_cor"] and not case["only_flux"] and case["I0"] > 0 and np.any(om * f > 0)
                and case["NLeg"] < np.shape(case["Leg"])[1])


def beam_off_streams(case):
    """NT corrections are refused for a beam along a stream."""
    return case["I0"] == 0 or bool(np.min(np.abs(ref.nodes(case["NQuad"] // 2)[0] - case["mu0"])) > 1e-3)


def ims_ok(case, gap=0.03):
    """The IMS effective beam cosine stays away from the stream cosines (removable singularity of the closed form)."""
    if not nt_active(case):
        return True
    p = ref.Problem(case)
    dt = np.diff(p.tau0)
    wf = np.sum(p.f * p.omega * dt) / np.sum(dt)
    mus = p.mu0 / (1 - wf)
    return bool(np.min(np.abs(1 / p.mu - 1 / mus)) > gap)


def ims_noise(case):
    """Rounding of the closed form of the IMS term, per stream (2N): cancellation grows like the inverse square of the distance
    between the reciprocals of the stream cosine and of the effective beam cosine."""
    p = ref.Problem(case)
    out = np.zeros(2 * p.N)
    if nt_active(case):
        dt = np.diff(p.tau0)
        wf = np.sum(p.f * p.omega * dt) / np.sum(dt)
        mus = p.mu0 / (1 - wf)
        g = p.Leg_all.copy()
        g[:, :case["NLeg"]] = p.f[:, None]
        g = np.sum(g * (p.omega * dt)[:, None], axis=0) / np.sum(p.f * p.omega * dt)
        ang = np.sum((2 * np.arange(len(g)) + 1) * np.abs(2 * g - g ** 2))
        x = 1 / p.mu - 1 / mus
        out[p.N:] = p.I0 / (4 * np.pi) * wf ** 2 / (1 - wf) * ang * 4e-15 / (p.mu * mus * x ** 2)
    return out


def features(case):
    """Signature used to count distinct non-trivial configurations."""
    om = np.array(case["omega"])
    def bk(b):
        return "0" if np.all(np.asarray(b) == 0) else "sv m"[np.ndim(np.asarray(b))] if np.ndim(np.asarray(b)) < 2 else "m"
    return "L%d Q%d lg%d F%d %s%s%s%s b%s%s r%s s%s w%s" % (
        len(case["tau"]), case["NQuad"], case["NLeg"], case["NFourier"],
        "B" if case["I0"] > 0 else "-", "D" if case["f"] is not None and np.any(np.array(case["f"]) > 0) else "-",
        "N" if nt_active(case) else "-", "b" if len(case["tau"]) >= case["banded"] else "d",
        bk(case["b_pos"]), bk(case["b_neg"]),
        "".join("f" if isinstance(x, dict) else "c" for x in case["bdrf"]) or "0",
        0 if case["s"] is None else len(case["s"][0]),
        "".join(sorted(set("0" if o == 0 else "t" if o < 0.01 else "h" if o > 0.99 else "m" for o in om))))


def twins(rng, case):
    """The same problem with one layer made nearly alike to another one: its albedo and, to 1e-4 to 1e-1, its phase function."""
    L = len(case["tau"])
    if L == 1:
        return case
    i, j = (int(x) for x in rng.choice(L, 2, replace=False))
    om, leg, f = list(case["omega"]), np.array(case["Leg"], float), case["f"]
    om[j] = om[i]
    leg[j] = leg[i]
    leg[j, 1:] *= 1 - 10 ** rng.uniform(-4, -1) * rng.random(leg.shape[1] - 1)
    if f is not None:
        f = list(f)
        f[j] = f[i]
    if not ref.well_posed(case["tau"], om, leg[:, :case["NLeg"]], f, case["NQuad"], case["NFourier"], case["mu0"] if case["I0"] > 0 else None):
        return case
    c = dict(case, omega=om, Leg=leg.tolist(), f=f)
    return c if ims_ok(c) else case


def low_beam(rng, case, p=0.04):
    """Now and then the same problem with a beam very close to the horizon."""
    if case["I0"] > 0 and not case.get("NT_cor") and rng.random() < p:
        c = dict(case, mu0=float(10 ** rng.uniform(-4.5, -1.7)))
        if ref.well_posed(c["tau"], c["omega"], np.array(c["Leg"])[:, :c["NLeg"]], c["f"], c["NQuad"], c["NFourier"], c["mu0"]):
            return c
    return case


