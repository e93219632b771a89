"""C15: invalid inputs are rejected with ValueError, valid ones (including closed ends) accepted."""
import warnings
import numpy as np
from math import pi
from .. import env, gen, ref, obs

CASES = dict(quick=1800, thorough=72000)
RULE = ("random valid problem; 8 random single-argument corruptions (the faulty entry at a random layer, stream or coefficient; fault size from "
        "gross to one part in 1e9) must raise ValueError; 4 random variants at the closed ends of the domain must be solved without error; out-of-range "
        "depths and cosines at random positions of arrays passed to every output function, and bad arguments of the helpers, must raise ValueError; "
        "non-trivial = at least 8 rejections and 4 acceptances decided; distinct = signature")


def make(rng, index, tier):
    return gen.plain(gen.gen(rng, only_flux=bool(rng.random() < 0.15)))


def put(a, i, v):
    b = np.array(a, float)
    b[i] = v
    return b


def faults(case, rng):
    L, NQ, N = len(case["tau"]), case["NQuad"], case["NQuad"] // 2
    l = int(rng.integers(0, L))
    tau, om, Leg = np.array(case["tau"]), np.array(case["omega"]), np.array(case["Leg"])
    small = float(10 ** rng.uniform(-9, 0))
    NLa = Leg.shape[1]
    NF = 1 if case["only_flux"] else case["NFourier"]
    out = []
    add = lambda n, **o: out.append((n, o))
    add("non-positive first depth", tau_arr=put(tau, 0, float(rng.choice([0.0, -small, -1.0]))))
    if L > 1:
        add("decreasing unsigned depths", tau_arr=np.arange(L, 0, -1).astype(rng.choice(["u1", "u2", "u4", "u8"])))
        i = int(rng.integers(1, L))
        add("equal consecutive depths", tau_arr=put(tau, i, tau[i - 1]))
        add("decreasing depths", tau_arr=put(tau, i, tau[i - 1] * (1 - min(small, 0.5))))
        if tau[i] != tau[i - 1]:
            t2 = tau.copy()
            t2[[i - 1, i]] = t2[[i, i - 1]]
            add("swapped depths", tau_arr=t2)
    add("negative depths", tau_arr=-tau)
    add("albedo above or equal one", omega_arr=put(om, l, float(rng.choice([1.0, 1 + small, 2.0]))))
    add("negative albedo", omega_arr=put(om, l, -small))
    add("too many albedos", omega_arr=np.append(om, 0.5))
    if L > 1:
        add("too few albedos", omega_arr=om[:-1])
        add("one albedo for several layers", omega_arr=float(rng.choice([0.0, 0.5])))
    add("extra row of Legendre coefficients", Leg_coeffs_all=np.concatenate([Leg, Leg[:1]]))
    if L > 1:
        add("missing row of Legendre coefficients", Leg_coeffs_all=Leg[:-1])
        add("one row of Legendre coefficients for several layers", Leg_coeffs_all=Leg[0])
    if NLa > 1:
        j = int(rng.integers(1, NLa))
        add("Legendre coefficient >= 1", Leg_coeffs_all=put(Leg, (l, j), float(rng.choice([1.0, 1 + small, 3.0]))))
        add("Legendre coefficient <= -1", Leg_coeffs_all=put(Leg, (l, j), float(rng.choice([-1.0, -1 - small, -3.0]))))
    add("odd number of streams", NQuad=NQ + 1)
    add("odd number of streams", NQuad=NQ - 1)
    add("no streams", NQuad=int(rng.choice([0, -2])))
    add("NLeg non-positive", NLeg=int(rng.choice([0, -1])))
    add("NLeg above the number provided", NLeg=NLa + 1)
    add("NLeg above the number of streams", NLeg=NQ + int(rng.integers(1, 3)), Leg_coeffs_all=np.concatenate([Leg, np.zeros((L, NQ + 3))], axis=1))
    if not case["only_flux"]:
        add("NFourier non-positive", NFourier=int(rng.choice([0, -1])), b_pos=0, b_neg=1.0)
        add("NFourier above NLeg", NFourier=case["NLeg"] + int(rng.integers(1, 3)), b_pos=0, b_neg=1.0)
    add("negative beam intensity", I0=-small)
    add("beam cosine non-positive", I0=1.0, mu0=float(rng.choice([0.0, -small, -0.5])))
    add("beam cosine above one", I0=1.0, mu0=float(rng.choice([1 + small, 1.5])))
    okmu = case["mu0"] if case["I0"] > 0 else 0.437
    add("beam azimuth negative", I0=1.0, mu0=okmu, phi0=-small)
    add("beam azimuth 2 pi or more", I0=1.0, mu0=okmu, phi0=float(rng.choice([2 * pi, 2 * pi + small, 10.0])))
    for b in ("b_pos", "b_neg"):
        if N > 1:
            add("wrong vector length of " + b, **{b: np.ones(N + 1)})
            add("wrong vector length of " + b, **{b: np.ones(NQ)})
            add("transposed matrix of " + b, **{b: np.ones((NF, N))} if NF != N else {b: np.ones((N, NF + 1))})
            add("three-dimensional " + b, **{b: np.ones((N, NF, 1))})
        add("too many modes in " + b, **{b: np.ones((N, NF + 1))})
        if NF > 2 or (NF > 1 and N > 1):
            add("too few modes in " + b, **{b: np.ones((N, NF - 1))})
    add("peak fraction negative", f_arr=put(np.full(L, 0.1), l, -small))
    add("peak fraction above one", f_arr=put(np.full(L, 0.1), l, 1 + small))
    add("wrong number of peak fractions", f_arr=np.full(L + 1, 0.1))
    if L > 1:
        add("wrong number of peak fractions", f_arr=np.full(L - 1, 0.1))
        add("one peak fraction for several layers", f_arr=0.1)
        add("mostly zero peak fractions of wrong number", f_arr=put(np.zeros(L + 1), int(rng.integers(0, L + 1)), 0.1))
    add("wrong number of source rows", s_poly_coeffs=np.ones((L + 1, 2)))
    if L > 1:
        add("wrong number of source rows", s_poly_coeffs=np.ones((L - 1, 2)))
        add("one source row for several layers", s_poly_coeffs=np.array([1.0, 0.1]))
        add("mostly zero source rows of wrong number", s_poly_coeffs=put(np.zeros((L + 1, 2)), (int(rng.integers(0, L + 1)), 0), 1.0))
    add("banded threshold below 3", use_banded_solver_NLayers=int(rng.choice([2, 1, 0, -1])))
    if not case["only_flux"]:
        add("NT corrections with beam on a quadrature angle", NT_cor=True, I0=1.0, mu0=float(ref.nodes(N)[0][int(rng.integers(0, N))]))
    return out


def ends(case, rng):
    """Valid variants at closed ends of the domain (values that must be accepted)."""
    L, N = len(case["tau"]), case["NQuad"] // 2
    l = int(rng.integers(0, L))
    Leg = np.array(case["Leg"])
    out = []

    def add(n, **o):
        # only variants whose eigenproblem is still the one the method assumes
        om = np.array(o.get("omega_arr", case["omega"]), float)
        Lg = np.array(o.get("Leg_coeffs_all", Leg), float)[:, :case["NLeg"]]
        f = o.get("f_arr", case["f"])
        f = None if f is None or np.all(np.asarray(f) == 0) else f
        I0, mu0 = o.get("I0", case["I0"]), o.get("mu0", case["mu0"])
        if ref.well_posed(case["tau"], om, Lg, f, case["NQuad"], case["NFourier"], mu0 if I0 > 0 else None):
            out.append((n, o))
    add("zero albedo", omega_arr=put(case["omega"], l, 0.0))
    add("all albedos zero", omega_arr=np.zeros(L))
    add("no beam with beam angles unset", I0=0, mu0=0, phi0=0, b_neg=1.0)
    if case["I0"] > 0:
        add("azimuth zero", phi0=0)
        add("azimuth just below 2 pi", phi0=np.nextafter(2 * pi, 0))
    add("zero peak fractions", f_arr=np.zeros(L))
    add("scalar zero peak fraction", f_arr=0)
    add("no sources at all", I0=0, b_pos=0, b_neg=0, s_poly_coeffs=np.array([[]]))
    add("banded threshold three", use_banded_solver_NLayers=3)
    if not case["only_flux"] and not (np.ndim(case["b_pos"]) == 2 or np.ndim(case["b_neg"]) == 2):
        add("one Fourier mode", NFourier=1)
    add("flux only with default mode count", only_flux=True, NFourier=None, b_pos=0, b_neg=1.0)
    add("isotropic", Leg_coeffs_all=np.concatenate([np.ones((L, 1)), np.zeros((L, max(case["NQuad"], Leg.shape[1]) - 1))], axis=1))
    add("huge beam", I0=1e12, mu0=case["mu0"] if case["I0"] > 0 else 0.437)
    return out


def rejects(mon, name, fn, **detail):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn()
    except np.linalg.LinAlgError as e:
        mon.fail("rejected: " + name, "not rejected by a check: the solver broke down with LinAlgError", **detail)
    except ValueError:
        mon.true("rejected: " + name, True)
        mon.event("rejections observed")
    except Exception as e:
        mon.fail("rejected: " + name, "raised %s instead of ValueError: %s" % (type(e).__name__, e), **detail)
    else:
        mon.fail("rejected: " + name, "accepted", **detail)


def accepts(mon, name, fn, **detail):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = fn()
        mon.true("accepted: " + name, True)
        mon.event("acceptances observed")
        return r
    except Exception as e:
        mon.fail("accepted: " + name, "%s: %s" % (type(e).__name__, e), **detail)


def run(case, mon, rng):
    S = obs.SUB
    out = env.pydisort(**gen.kwargs(case))
    mon.event("solves")
    fs = faults(case, rng)
    for j in rng.permutation(len(fs))[:8]:
        name, over = fs[j]
        rejects(mon, name, lambda: env.pydisort(**gen.kwargs(case, **over)), over=str(over)[:300])
    es = ends(case, rng)
    for j in rng.permutation(len(es))[:4]:
        name, over = es[j]
        # results of albedo-zero and similar variants are decided elsewhere; here: no exception, neither in solving nor evaluating
        def go():
            o = env.pydisort(**gen.kwargs(case, **over))
            o[1](0.0), o[2](case["tau"][-1]), o[3](np.array([0.0, case["tau"][-1]]))
            if len(o) == 5:
                o[4](np.array([0.0, case["tau"][-1]]), 0.0)
        accepts(mon, name, go, over=str(over)[:300])
    # output functions: depth range
    T = case["tau"][-1]
    mu, Fp, Fm, u0 = out[:4]
    act = S.generate_diff_act_flux_funcs(u0)
    fns = dict(Fp=Fp, Fm=Fm, u0=u0, act_up=act[0], act_down=act[1])
    iu0 = S.interpolate(u0)
    fns["interpolated u0"] = lambda t, **k: iu0(0.3, t, **k)
    if len(out) == 5:
        u = out[4]
        iu = S.interpolate(u)
        fns["u"] = lambda t, **k: u(t, np.array([0.1, 2.0]), **k)
        fns["interpolated u"] = lambda t, **k: iu(-0.3, t, 0.2, **k)
    for n, f in fns.items():
        good = rng.uniform(0, T, int(rng.integers(0, 5)))
        bad = float(rng.choice([-1.0, -1e-9, -1e-3, T * (1 + 1e-9) + 1e-12, T + 1.0, 10 * T]))
        t = np.insert(good, int(rng.integers(0, len(good) + 1)), bad)
        if len(t) == 1 and rng.random() < 0.5:
            t = bad
        anti = bool(rng.random() < 0.3)
        rejects(mon, "depth outside the atmosphere in " + n, lambda: f(t, is_antiderivative_wrt_tau=anti), depths=t)
        accepts(mon, "both ends of the atmosphere in " + n, lambda: f(np.array([T, 0.0]), is_antiderivative_wrt_tau=anti))
    bm = float(rng.choice([1 + 1e-9, -1 - 1e-9, 1.5, -2.0]))
    ms = np.insert(rng.uniform(-1, 1, 3), int(rng.integers(0, 4)), bm)
    rejects(mon, "cosine beyond one in interpolated u0", lambda: iu0(ms, 0.0), mu=ms)
    accepts(mon, "cosines -1, 0, 1 in interpolated u0", lambda: iu0(np.array([-1, 0, 1]), 0.0))
    if len(out) == 5:
        rejects(mon, "cosine beyond one in interpolated u", lambda: iu(ms, 0.0, 0.0), mu=ms)
        accepts(mon, "cosines -1, 0, 1 in interpolated u", lambda: iu(np.array([-1, 0, 1]), 0.0, 0.0))
    # helpers
    k = int(rng.integers(0, 7))
    if k == 0:
        n = int(rng.choice([-1, 0, 1, 2, 4, 2 * int(rng.integers(2, 60))]))
        rejects(mon, "Clenshaw-Curtis size even or below 3", lambda: S.Clenshaw_Curtis_quad(n), n=n)
        accepts(mon, "Clenshaw-Curtis odd size", lambda: S.Clenshaw_Curtis_quad(int(rng.choice([3, 5, 2 * int(rng.integers(1, 40)) + 1]))))
    elif k == 1:
        n = int(rng.integers(2, 8))
        x, y = np.sort(rng.uniform(0, 9, n)), rng.uniform(0, 1, n)
        x2 = x.copy()
        i = int(rng.integers(1, n))
        x2[i] = x2[i - 1] - float(rng.choice([0.0, 1e-9, 0.5]))
        rejects(mon, "spline points not increasing", lambda: S.linear_spline_coefficients(x2, y), x=x2)
        rejects(mon, "spline with different numbers of points", lambda: S.linear_spline_coefficients(x, np.append(y, 1.0)))
        if len(x) < 200:
            rejects(mon, "unsigned spline points not increasing", lambda: S.linear_spline_coefficients(np.arange(len(x), 0, -1).astype("u1"), y))
        rejects(mon, "spline with one point", lambda: S.linear_spline_coefficients(x[:1], y[:1]))
        accepts(mon, "increasing spline points", lambda: S.linear_spline_coefficients(x, y))
    elif k == 2:
        L = len(case["tau"])
        for n in {L, L + 2, max(1, L - 1)}:
            rejects(mon, "missing temperatures", lambda: S.generate_s_poly_coeffs(np.array(case["tau"]), np.full(n, 250.0), 100, 200), n=n)
        accepts(mon, "all temperatures given", lambda: S.generate_s_poly_coeffs(np.array(case["tau"]), np.full(L + 1, 250.0), 100, 200))
    elif k == 3:
        n = int(rng.integers(1, 6))
        a = rng.uniform(0.2, 2, n)
        b, c = rng.uniform(-1, 1, n), rng.uniform(-1, 1, (n, 3))
        accepts(mon, "non-zero scale factors", lambda: S.affine_transform_poly_coeffs(c, a, b))
        a[int(rng.integers(0, n))] = 0
        rejects(mon, "zero scale factor", lambda: S.affine_transform_poly_coeffs(c, a, b), a=a)
