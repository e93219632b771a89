"""C12: equivalent input representations."""
import warnings
import numpy as np
from .. import env, gen, ref, obs

CASES = dict(quick=1400, thorough=56000)
RULE = ("random valid problem; 3-6 randomly chosen documented rewritings of its arguments (scalar/array, int/float, 1-D/2-D, scalar/constant "
        "function BDRF, scalar/vector/matrix boundary source, defaults omitted, zero padding, zeroth coefficient corrected) are solved and "
        "compared with the original; non-trivial = at least one rewriting compared; distinct = signature")


ARGS = dict(tau="tau_arr", omega="omega_arr", Leg="Leg_coeffs_all", f="f_arr", s="s_poly_coeffs")
POSITIONAL = ("tau_arr", "omega_arr", "NQuad", "Leg_coeffs_all", "mu0", "I0", "phi0")      # (marks the rewriting as well)


class Sub(np.ndarray):
    pass


def strided(v):
    k = tuple(slice(None, None, 3) for _ in v.shape)
    w = np.full(tuple(3 * n for n in v.shape), np.nan)
    w[k] = v
    return w[k]


def readonly(v):
    v.setflags(write=False)
    return v


def broadcast(v):
    """a view with zero strides where all rows are equal"""
    return np.broadcast_to(v[:1], v.shape) if np.all(v == v[:1]) else readonly(v)


LAYOUTS = {"big-endian": lambda v: v.astype(">f8"), "Fortran-ordered": np.asfortranarray, "strided": strided, "read-only": readonly,
           "reversed": lambda v: v[..., ::-1].copy()[..., ::-1], "subclass": lambda v: v.view(Sub), "broadcast": broadcast}


def make(rng, index, tier):
    k = index % 4
    kw = {}
    if k == 0:
        kw = dict(layers=[1])
    if k == 1:
        kw = dict(bc=["s"])
    c = gen.plain(gen.gen(rng, **kw))
    if k == 2:       # integer-valued inputs
        L = len(c["tau"])
        t = np.cumsum(rng.integers(1, 4, L))
        c["tau"] = t.astype(float).tolist()
        if c["s"] is not None:
            c["s"] = np.round(np.array(c["s"]) * 3 + 1).tolist()
        if c["I0"] > 0:
            c["I0"] = float(rng.integers(1, 30))
        if not isinstance(c["b_pos"], list):
            c["b_pos"] = float(rng.integers(0, 20))
        for b in ("b_pos", "b_neg"):
            if isinstance(c[b], list) and rng.random() < 0.5:
                c[b] = (np.round(np.array(c[b]) / max(np.max(np.abs(c[b])), 1e-300) * 5) + 0.0).tolist()
        if rng.random() < 0.3:                  # isotropic scattering, written with integers
            c["Leg"] = [[1.0] + [0.0] * (len(g) - 1) for g in c["Leg"]]
            ok = ref.well_posed(c["tau"], c["omega"], np.array(c["Leg"])[:, :c["NLeg"]], c["f"], c["NQuad"], c["NFourier"], c["mu0"] if c["I0"] > 0 else None, spread=1e8)
            if not ok or (c["f"] is not None and np.max(c["f"]) > 0.45):
                return make(rng, index, tier)
        elif not ref.well_posed(c["tau"], c["omega"], np.array(c["Leg"])[:, :c["NLeg"]], c["f"], c["NQuad"], c["NFourier"], c["mu0"] if c["I0"] > 0 else None, spread=1e8):
            return make(rng, index, tier)
        if not gen.ims_ok(c):
            return make(rng, index, tier)
    return c


def rewritings(case, rng):
    N, NF, NQ = case["NQuad"] // 2, case["NFourier"], case["NQuad"]
    L = len(case["tau"])
    out = []
    add = lambda n, **o: out.append((n, o, ()))
    if L == 1:
        add("scalar tau/omega", tau_arr=case["tau"][0], omega_arr=case["omega"][0])
        add("1-D Legendre coefficients", Leg_coeffs_all=np.array(case["Leg"][0]))
        if case["f"] is not None:
            add("scalar f", f_arr=case["f"][0])
        if case["s"] is not None:
            add("1-D source coefficients", s_poly_coeffs=np.array(case["s"][0]))
    if all(float(x).is_integer() for x in case["tau"]):
        add("integer tau", tau_arr=gen.short(rng, case["tau"]))
        if case["I0"] > 0 and float(case["I0"]).is_integer():
            add("integer I0", I0=int(case["I0"]) if rng.random() < 0.5 else gen.short(rng, case["I0"])[()])
        if case["s"] is not None and np.all(np.array(case["s"]) % 1 == 0):
            add("integer source", s_poly_coeffs=gen.short(rng, case["s"]))
    if np.all(np.array(case["Leg"]) % 1 == 0):
        add("integer Legendre coefficients", Leg_coeffs_all=np.array(case["Leg"]).astype(int))
        add("nested list of integer Legendre coefficients", Leg_coeffs_all=np.array(case["Leg"]).astype(int).tolist())
    if case["f"] is not None and np.all(np.array(case["f"]) == 0):
        add("integer f", f_arr=np.zeros(L, int))
    if np.all(np.array(case["omega"]) == 0):
        add("integer albedos", omega_arr=np.zeros(L, int))
    if float(case["mu0"]).is_integer() and case["I0"] > 0:
        add("integer mu0", mu0=int(case["mu0"]))
    if case["phi0"] == 0:
        add("integer phi0", phi0=0)
    for b in ("b_pos", "b_neg"):
        v = case[b]
        if not isinstance(v, list):
            if float(v).is_integer():
                add("integer " + b, **{b: int(v)})
            add("constant vector " + b, **{b: np.full(N, float(v))})
            add("size-one array " + b, **{b: np.array([float(v)])})
            m = np.zeros((N, NF))
            m[:, 0] = v
            add("matrix " + b, **{b: m})
        elif np.all(np.array(v) % 1 == 0) and rng.random() < 0.5:
            add("integer array " + b, **{b: gen.short(rng, v)})
        elif np.ndim(v) == 1:
            m = np.zeros((N, NF))
            m[:, 0] = v
            add("matrix from vector " + b, **{b: m})
    if not isinstance(case["b_pos"], list) and case["b_pos"] == 0:
        out.append(("b_pos omitted", {}, ("b_pos",)))
    if not isinstance(case["b_neg"], list) and case["b_neg"] == 0:
        out.append(("b_neg omitted", {}, ("b_neg",)))
    if case["f"] is None:
        out.append(("f omitted", {}, ("f_arr",)))
        add("f zeros", f_arr=np.zeros(L))
    if case["s"] is None:
        add("zero source", s_poly_coeffs=np.zeros((L, 2)))
        add("empty source", s_poly_coeffs=np.array([[]]))
    else:
        add("padded source", s_poly_coeffs=np.concatenate([np.array(case["s"]), np.zeros((L, 1))], axis=1))
        if case["tau"][-1] < 10 and max(case["omega"]) < 0.9:      # (powers of the depth and of the eigenvalues within range)
            pad = int(rng.choice([2, 7, 20, 40, 70]))
            add("source padded with many zeros", s_poly_coeffs=np.concatenate([np.array(case["s"]), np.zeros((L, pad))], axis=1))
    if not case["bdrf"]:
        out.append(("no BDRF omitted", {}, ("BDRF_Fourier_modes",)))
        add("zero BDRF", BDRF_Fourier_modes=[0.0])
    else:
        alt = []
        for sp in case["bdrf"]:
            if not isinstance(sp, dict):
                alt.append(lambda mu, mup, v=sp: np.full((len(mu), len(mup)), v))
            elif sp["k"] == "const":
                alt.append(float(sp["a"]))
            else:
                alt.append(gen.bdrf_mode(sp))
        add("constant BDRF modes as functions and back", BDRF_Fourier_modes=alt)
        add("trailing zero BDRF mode", BDRF_Fourier_modes=gen.bdrf_list(case) + [0.0])
        add("tuple of BDRF modes", BDRF_Fourier_modes=tuple(gen.bdrf_list(case)))
    if case["NLeg"] == NQ:
        out.append(("NLeg omitted", {}, ("NLeg",)))
        add("NLeg None", NLeg=None)
    if NF == NQ:
        out.append(("NFourier omitted", {}, ("NFourier",)))
    if not case["NT_cor"]:
        out.append(("NT_cor omitted", {}, ("NT_cor",)))
        extra = np.concatenate([np.array(case["Leg"]), rng.uniform(-0.5, 0.5, (L, 3))], axis=1)
        add("unused Legendre coefficients appended", Leg_coeffs_all=extra)
        add("unused Legendre coefficients dropped", Leg_coeffs_all=np.array(case["Leg"])[:, :case["NLeg"]])
    else:
        add("zero Legendre coefficients appended", Leg_coeffs_all=np.concatenate([np.array(case["Leg"]), np.zeros((L, 2))], axis=1))
        if not gen.nt_active(case):
            out = [o for o in out if not o[0].startswith("zero Legendre")]
    out.append(("autograd flag omitted", {}, ("autograd_compatible",)))
    out.append(("only_flux omitted", {}, ("only_flux",)))
    if case["banded"] == 10:
        out.append(("banded threshold omitted", {}, ("use_banded_solver_NLayers",)))
    for _ in range(2):                         # other layouts in memory of the same array
        a = str(rng.choice(["tau", "omega", "Leg", "f", "s", "b_pos", "b_neg"]))
        if isinstance(case[a], list):
            n = str(rng.choice(sorted(LAYOUTS)))
            add("%s array" % n, **{ARGS.get(a, a): LAYOUTS[n](np.array(case[a], float))})
    add("NumPy booleans", NT_cor=np.bool_(case["NT_cor"]), only_flux=np.bool_(case["only_flux"]), autograd_compatible=np.bool_(case["autograd"]))
    out.append(("positional arguments", {}, POSITIONAL))
    add("integral float NQuad-independent order: lists", tau_arr=list(case["tau"]), omega_arr=list(case["omega"]))
    k = str(rng.choice(["NQuad", "NLeg", "NFourier", "use_banded_solver_NLayers"]))
    count = case[{"use_banded_solver_NLayers": "banded"}.get(k, k)]
    if count is not None:
        add("NumPy integer " + k, **{k: gen.short(rng, count)[()]})
    n = dict(NQuad=gen.short(rng, NQ)[()], NLeg=gen.short(rng, case["NLeg"])[()], NFourier=gen.short(rng, NF)[()])
    add("NumPy integer counts", **n)
    add("numpy scalars", mu0=np.float64(case["mu0"]), I0=np.float64(case["I0"]), phi0=np.float64(case["phi0"]))
    return out


def run(case, mon, rng):
    t = obs.depths(rng, case, 4)
    phi = obs.azimuths(rng, case, 2)
    S = obs.src_scale(case)
    A = obs.Sol(case, mon).fields(t, phi)
    rs = rewritings(case, rng)
    for j in rng.permutation(len(rs))[: int(rng.integers(3, 7))]:
        name, over, drop = rs[j]
        k = gen.kwargs(case, **over)
        first = []
        for d in drop:
            v = k.pop(d)
            if drop is POSITIONAL:
                first.append(v)
        s = obs.Sol.__new__(obs.Sol)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = env.pydisort(*first, **k)
        wrap(s, case, mon, out)
        B = s.fields(t, phi)
        mon.event("rewriting: " + name)
        if name == "NumPy booleans":
            for fn, a in [(s.Fp, ()), (s.u0f, ())] + ([(s.uf, (phi,))] if s.uf is not None else []):
                one, two = (fn(t, *a, is_antiderivative_wrt_tau=yes) for yes in (True, np.True_))
                mon.close("equivalent evaluation flag: NumPy boolean", two, one, 1e-12, scale=max(np.max(np.abs(one), initial=0.0), S))
        for q in A:
            mon.close("equivalent input: " + name, A[q], B[q], 1e-9, scale=max(np.max(np.abs(A[q])), S), field=q)
    # single precision (the same numbers, so only rounding may differ)
    if max(case["omega"]) < 0.99 and rng.random() < 0.4:
        r = dict(case)
        for a in ("tau", "omega", "Leg", "f", "s", "b_pos", "b_neg", "mu0", "I0", "phi0"):
            if r[a] is not None:
                r[a] = np.float32(r[a]).astype(float).tolist()
        ok = r["phi0"] < 6.28 and np.all(np.diff(r["tau"]) > 1e-3) and ref.well_posed(
            r["tau"], r["omega"], np.array(r["Leg"])[:, :r["NLeg"]], r["f"], r["NQuad"], r["NFourier"], r["mu0"] if r["I0"] > 0 else None, spread=1e4)
        if ok and gen.ims_ok(r) and (r["f"] is None or max(r["f"]) < 0.9):
            A32 = obs.Sol(r, mon).fields(t * (1 - 1e-6), phi)
            some = [a for a in ("tau", "omega", "Leg", "f", "s", "b_pos", "b_neg", "mu0", "I0", "phi0") if r[a] is not None and rng.random() < 0.6]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = env.pydisort(**gen.kwargs(r, **{ARGS.get(a, a): np.float32(r[a]) for a in some}))
            s = obs.Sol.__new__(obs.Sol)
            wrap(s, r, mon, out)
            B = s.fields(t * (1 - 1e-6), phi)
            mon.event("rewriting: single precision")
            for q in A32:
                mon.close("equivalent input: single precision", A32[q], B[q], 3e-4, scale=max(np.max(np.abs(A32[q])), S), field=q, args=some)
    # zeroth coefficient corrected to one, with a warning
    om = np.array(case["omega"])
    if np.any(om > 0):
        Leg = np.array(case["Leg"])
        l = int(rng.choice(np.nonzero(om > 0)[0]))
        Leg[l, 0] = float(rng.choice([0.9, 1.1, 0.0, 2.0, 0.999]))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            out = env.pydisort(**gen.kwargs(case, Leg_coeffs_all=Leg))
        mon.true("warning for corrected zeroth coefficient", any("oefficient" in str(x.message) for x in w), layer=l)
        s = obs.Sol.__new__(obs.Sol)
        wrap(s, case, mon, out)
        B = s.fields(t, phi)
        for q in A:
            mon.close("zeroth coefficient corrected to one", A[q], B[q], 1e-9, scale=max(np.max(np.abs(A[q])), S), field=q)
        mon.event("zeroth coefficient corrections")


def wrap(s, case, mon, out):
    s.case, s.mon, s.p, s.out, s.NQ, s._act = case, mon, ref.Problem(case), out, case["NQuad"], None
    s.only_flux = len(out) == 4
    s._way = np.random.default_rng(int(1e6 * case["tau"][-1]) % 2 ** 31)
    s.mu, s.Fp, s.Fm, s.u0f = out[:4]
    s.uf = None if s.only_flux else out[4]
    mon.event("solves")
