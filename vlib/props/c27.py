"""C27: warnings exactly when documented, and no floating-point anomalies on ordinary problems."""
import warnings
import numpy as np
from .. import env, gen, obs

CASES = dict(quick=4000, thorough=160000)
RULE = ("random ordinary problem (albedos up to 0.9999, moments within 0.93, at most 10 source coefficients) solved and every output evaluated in "
        "every mode: no package warning and no floating-point warning; then one input is moved just across, or just short of, one warning condition "
        "(scaled albedo, scaled moment, zeroth moment, source degree, number of modes, caching without beam angle): a warning appears exactly when "
        "the condition holds; non-trivial = decided; distinct = signature and condition")
CONDS = ["none", "none", "albedo", "moment", "zeroth", "zeroth0", "coeffs", "modes", "cache", "fluxmodes"]


def make(rng, index, tier):
    cond = CONDS[index % len(CONDS)]
    if cond in ("modes", "fluxmodes") and index % (10 if tier == "quick" else 4) == CONDS.index(cond) and rng.random() < 0.9:
        cond = "none"                                          # 66 modes are slow
    if cond in ("modes", "fluxmodes"):
        c = gen.gen(rng, layers=[1, 2], nquads=[4], nt=False, nleg="full", hi=0.99, deg=0, bdrf=False, matrix_bc=False)
        gen.plain(c)
        n = int(rng.choice([64, 66]))
        g = float(rng.uniform(0.1, 0.8))
        c.update(NQuad=n, NLeg=n, NFourier=n if rng.random() < 0.5 else int(rng.integers(60, n + 1)), f=None,
                 Leg=[(g ** np.arange(n)).tolist() for _ in c["tau"]], b_pos=0, b_neg=0.5, NT_cor=False)
        c["only_flux"] = cond == "fluxmodes"
    else:
        c = gen.plain(gen.gen(rng, hi=0.9999))
    c["cond"], c["over"] = cond, bool(rng.random() < 0.6)
    c["eps"] = float(10 ** rng.uniform(-2.5, -0.5))
    return c


def signature(c):
    return gen.features(c) + " %s%d" % (c["cond"], c["over"])


def tame(c):
    """Bring the case well inside every warning threshold; False if it cannot be."""
    p = obs.ref.Problem(c)
    return bool(np.all(p.om < 1 - 3e-6) and np.all(np.abs(p.g[:, 1:]) < 0.93)
                and (c["s"] is None or len(c["s"][0]) <= 10) and (c["NFourier"] <= 64 or c["only_flux"]))


def user(w):
    return [x for x in w if issubclass(x.category, UserWarning)]


def floats(w):
    return [str(x.message) for x in w if issubclass(x.category, RuntimeWarning)]


def solve(case, mon, rng, evaluate, **over):
    """-> (number of package warnings from the solve and evaluations, floating-point warnings)"""
    k = gen.kwargs(case, **over)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with np.errstate(over="warn", divide="warn", invalid="warn", under="ignore"):
            out = env.pydisort(**k)
            if evaluate:
                t = obs.depths(rng, case, 5)
                phi = obs.azimuths(rng, case, 2)
                fns = list(out[1:4]) + list(obs.SUB.generate_diff_act_flux_funcs(out[3]))
                for anti in (False, True):
                    for fn in fns:
                        fn(t, is_antiderivative_wrt_tau=anti)
                    if not case["only_flux"]:
                        out[4](t, phi, is_antiderivative_wrt_tau=anti)
                        mon.event("evaluations")
                    mon.event("evaluations", len(fns))
                if 4 <= case["NQuad"] <= 24:                      # (SciPy itself divides by zero, harmlessly, for a single node)
                    obs.SUB.interpolate(out[3])(rng.uniform(-1, 1, 3), t)
                    if not case["only_flux"]:
                        obs.SUB.interpolate(out[4])(rng.uniform(-1, 1, 3), t, phi)
                    mon.event("evaluations", 2)
    mon.event("solves")
    return len(user(w)), floats(w)


def run(case, mon, rng):
    cond, over, eps = case["cond"], case["over"], case["eps"]
    L, NLeg = len(case["tau"]), case["NLeg"]
    expect = False
    if not tame(case):
        mon.event("not tame")
        return
    if cond in ("modes", "fluxmodes"):
        expect = cond == "modes" and case["NFourier"] > 64
        n, fl = solve(case, mon, rng, False)
        mon.true("warning for many modes exactly above 64 with intensities", (n > 0) == expect, NFourier=case["NFourier"], n=n)
        return
    n, fl = solve(case, mon, rng, True)
    mon.true("no package warning on an ordinary problem", n == 0)
    mon.true("no floating-point warning on an ordinary problem", not fl, what=fl[:2])
    if cond == "none":
        return
    c = dict(case)
    l = int(rng.integers(0, L))
    f = 0.0 if c["f"] is None else c["f"][l]
    if cond == "albedo":
        # scaled albedo 1 - x
        x = 1e-6 * (1 - eps if over else 1 + eps)
        om = (1 - x) / ((1 - f) + f * (1 - x))
        om = np.array(c["omega"])
        om[l] = (1 - x) / ((1 - f) + f * (1 - x))
        c["omega"] = om.tolist()
        if c["s"] is not None and len(c["s"][0]) > 1:
            c["s"] = [r[:1] for r in c["s"]]
        expect = over
    elif cond == "moment":
        if NLeg < 2:
            return
        k = int(rng.integers(1, NLeg))
        sg = float(rng.choice([1.0, -1.0]))
        v = sg * (0.95 + (1 if over else -1) * 0.02 * eps)
        g = f + (1 - f) * v
        if abs(g) >= 0.999 or c["omega"][l] == 0:
            return
        Leg = np.array(c["Leg"])
        Leg[l, k] = g
        c["Leg"] = Leg.tolist()
        om = np.array(c["omega"])
        om[l] = min(om[l], 0.3)
        c["omega"] = om.tolist()
        expect = over
    elif cond in ("zeroth", "zeroth0"):
        Leg = np.array(c["Leg"])
        om = np.array(c["omega"])
        if cond == "zeroth0":                                   # the coefficient of a layer that does not scatter is irrelevant
            om[l] = 0.0
        elif om[l] == 0:
            om[l] = 0.4
        c["omega"] = om.tolist()
        if over:
            Leg[l, 0] = 1 + float(rng.choice([-1, 1])) * 10 ** rng.uniform(-6, -0.5)
        c["Leg"] = Leg.tolist()
        expect = over and cond == "zeroth"
    elif cond == "coeffs":
        k = int(rng.integers(11, 14)) if over else int(rng.integers(3, 11))
        c["s"] = np.concatenate([np.full((L, 1), 0.7), np.zeros((L, k - 1))], axis=1).tolist()
        expect = over
    elif cond == "cache":
        N = c["NQuad"] // 2
        modes = gen.bdrf_list(c) or [0.3]
        m0 = float(rng.choice([1.0, rng.uniform(0.01, 1)]))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            if over:
                obs.SUB.cache_BDRF_Fourier_modes(N, modes) if rng.random() < 0.5 else obs.SUB.cache_BDRF_Fourier_modes(N, modes, 0)
            else:
                obs.SUB.cache_BDRF_Fourier_modes(N, modes, m0)
        mon.true("warning exactly when caching without a beam angle", (len(user(w)) > 0) == over, over=over)
        return
    if cond != "albedo" and cond != "moment" and not tame(dict(c, Leg=case["Leg"], s=case["s"])):
        return
    q = obs.ref.Problem(c)
    if cond in ("albedo", "moment") and not obs.ref.well_posed(q.tau, q.omega, q.Leg_all[:, :NLeg], c["f"], c["NQuad"], q.NF,
                                                             q.mu0 if q.I0 > 0 else None):
        mon.event("ill-posed variants left out")
        return
    n, fl = solve(c, mon, rng, False)
    mon.true("warning exactly when the condition holds (%s)" % cond, (n > 0) == expect, n=n, expect=expect)
    mon.event("conditions " + ("crossed" if expect else "not crossed"))
