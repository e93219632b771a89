"""C33: results do not depend on the process they are computed in."""
import os, pickle, shutil, subprocess, sys, tempfile, warnings
import numpy as np
from .. import env, gen, obs
from . import c14, c15

VARIANTS = ["optimised", "stripped", "hash", "threads", "bare", "detached", "forked", "thread", "traced", "dev", "settings", "relocated", "shuffled"]
CASES = dict(quick=208, thorough=6500)
PER = 8
RULE = ("batch of 8 random problems: solving, 10 evaluations each, the arrays of the helpers, 4 invalid inputs each (exception type), warnings raised; "
        "the same batch in a fresh interpreter under other conditions - assertions or docstrings stripped, another hash seed, several BLAS threads, only the "
        "required packages importable and an empty environment, no standard streams and no working directory, forked worker processes, a secondary thread, "
        "tracing and eager garbage collection, development mode, other global settings, the package at another path, problems in another order; every value, "
        "exception type and warning category compared; non-trivial = at least 4 problems; distinct = condition x signatures")
ASSUMPTIONS = ["one machine, one interpreter and one NumPy/SciPy/BLAS build"]


def signature(c):
    return c["variant"] + " " + gen.features(c["items"][0]["case"])


def make(rng, index, tier):
    items = []
    for _ in range(PER):
        case = gen.gen(rng, layers=[1, 2, 3, 4, 6, 11], nquads=[2, 4, 6, 8], hi=0.99, only_flux=bool(rng.random() < 0.1))
        case["autograd"] = False
        if rng.random() < 0.4:                  # layers alike to a few digits, for whatever is recognised by how it prints or hashes
            case = gen.twins(rng, case)
        items.append(dict(case=case, seed=int(rng.integers(0, 2 ** 31))))
    return dict(items=items, variant=VARIANTS[index % len(VARIANTS)], order=rng.permutation(PER).tolist(), seed=int(rng.integers(1, 2 ** 31)))


class FluxOnly:
    def __init__(self, out):
        self.mu, self.Fp, self.Fm, self.u0 = out
        self.act_up, self.act_down = obs.SUB.generate_diff_act_flux_funcs(self.u0)
        self.iu0 = obs.SUB.interpolate(self.u0)
    raw = c14.Funcs.raw


def outcome(fn):
    try:
        fn()
    except Exception as e:
        return type(e).__name__
    return "accepted"


def risky(case, rng):
    """Inputs that are accepted with a warning."""
    L = len(case["tau"])
    leg = np.array(case["Leg"])
    k = int(rng.integers(0, 5))
    if k == 0:
        return dict(omega_arr=c15.put(case["omega"], int(rng.integers(0, L)), 1 - 1e-7))
    if k == 1 and leg.shape[1] > 1:
        return dict(Leg_coeffs_all=c15.put(leg, (int(rng.integers(0, L)), 1), 0.97), f_arr=0)
    if k == 2:
        return dict(Leg_coeffs_all=c15.put(leg, (slice(None), 0), 0.9), omega_arr=np.full(L, 0.4))
    if k == 3:
        return dict(s_poly_coeffs=np.ones((L, 11)) * 1e-3)
    return dict(NQuad=66, NLeg=66, NFourier=65, only_flux=False, tau_arr=1.0, omega_arr=0.3, Leg_coeffs_all=0.3 ** np.arange(66.0), f_arr=0, s_poly_coeffs=np.array([[]]),
                b_pos=0, b_neg=1.0, BDRF_Fourier_modes=[], NT_cor=False)


def one(item):
    case, rng = item["case"], np.random.default_rng(item["seed"])
    r = dict(values=[], outcomes=[])
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        out = env.pydisort(**gen.kwargs(case))
    r["warnings"] = sorted((w.category.__name__, str(w.message)) for w in ws if issubclass(w.category, UserWarning))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        o = risky(case, rng)
        r["outcomes"].append(("risky " + ", ".join(sorted(o)[:1]), outcome(lambda: env.pydisort(**gen.kwargs(case, **o)))))
    r["warnings"] += sorted({(w.category.__name__, str(w.message)) for w in ws if issubclass(w.category, UserWarning)})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = FluxOnly(out) if len(out) == 4 else c14.Funcs(out)
        for c in c14.calls_for(rng, case)[:12]:
            if len(out) == 4 and c[0] in ("u", "iu"):
                continue
            r["values"].append((c[0] + (" antiderivative" if c[4] else ""), c14.values(f.raw(c))))
        hs = c14.helper_arrays(gen.plain(dict(case)), rng)
        r["values"].append(("helpers", [np.array(x, float) for x in hs]))
        fs = c15.faults(case, rng)
        for j in rng.permutation(len(fs))[:4]:
            r["outcomes"].append((fs[j][0], outcome(lambda: env.pydisort(**gen.kwargs(case, **fs[j][1])))))
        r["outcomes"].append(("depth outside", outcome(lambda: f.Fp(case["tau"][-1] * 1.5 + 1))))
        r["outcomes"].append(("cosine outside", outcome(lambda: f.iu0(1.5, 0.0))))
        r["outcomes"].append(("even Clenshaw-Curtis size", outcome(lambda: obs.SUB.Clenshaw_Curtis_quad(4))))
        r["outcomes"].append(("spline points", outcome(lambda: obs.SUB.linear_spline_coefficients(np.array([0.0, 1.0]), np.array([1.0])))))
        r["outcomes"].append(("valid", outcome(lambda: f.Fm(case["tau"][-1]))))
    return r


def batch(job):
    out = []
    with np.errstate():
        for x in job["items"]:
            out.append(one(x))
    return out


def run(case, mon, rng):
    v = case["variant"]
    ref = batch(case)
    d = tempfile.mkdtemp(prefix="c33-")
    try:
        e = dict(os.environ)
        args = [sys.executable, "-B"]
        if v == "bare":
            e = {}
        if v == "optimised":
            args += ["-O"]
        if v == "stripped":
            args += ["-OO"]
        if v == "dev":
            args += ["-X", "dev", "-W", "ignore"]
        if v == "hash":
            e["PYTHONHASHSEED"] = str(case["seed"] % 4294967295)
        if v == "threads":
            e["VERIF_THREADS"] = "4"
        e["VERIF_REPO"] = env.REPO
        if v == "relocated":
            r = os.path.join(d, "an other place, \u00fc")
            os.makedirs(os.path.join(r, "src"))
            shutil.copytree(os.path.join(env.SRC, "PythonicDISORT"), os.path.join(r, "src", "PythonicDISORT"), ignore=shutil.ignore_patterns("__pycache__"))
            e["VERIF_REPO"] = r
        job, out = os.path.join(d, "job"), os.path.join(d, "out")
        with open(job, "wb") as fh:
            pickle.dump(dict(case, verif=env.VERIF), fh)
        p = subprocess.run(args + [os.path.join(env.VERIF, "vlib", "procrun.py"), job, out], env=e, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=300)
        if not os.path.exists(out):
            return mon.fail("runs in another process", (p.stdout + p.stderr)[-1500:], variant=v, code=p.returncode)
        got, notes = pickle.load(open(out, "rb"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    mon.event("processes: " + v)
    for k, n in notes.items():
        mon.event(k, n)
    if isinstance(got, str):
        return mon.fail("runs in another process", got[-1500:], variant=v)
    same = total = 0
    for item, a, b in zip(case["items"], got, ref):
        S, T = obs.src_scale(item["case"]), item["case"]["tau"][-1]
        mon.true("same outcomes for invalid inputs", a["outcomes"] == b["outcomes"], variant=v, differ=[x for x in zip(a["outcomes"], b["outcomes"]) if x[0] != x[1]])
        mon.true("same warnings", a["warnings"] == b["warnings"], variant=v, differ=[a["warnings"], b["warnings"]])
        mon.event("warnings compared", len(b["warnings"]))
        mon.event("exception types compared", len(b["outcomes"]))
        for (name, x), (_, y) in zip(a["values"], b["values"]):
            if len(x) != len(y):
                mon.fail("same values", "number of outputs", name=name, variant=v)
                continue
            for i, (p, q) in enumerate(zip(x, y)):
                if p.shape != q.shape:
                    mon.fail("same values", "shape %s != %s" % (p.shape, q.shape), name=name, variant=v)
                    continue
                total += 1
                same += bool(np.array_equal(p, q, equal_nan=True))
                scale = max(np.max(np.abs(q), initial=0.0), S * (1 + T) if i == 0 and name != "helpers" else 0.0, 1e-300)
                mon.check("same values", np.where((p == q) | (np.isnan(p) & np.isnan(q)), 0, p - q), 1e-9 * scale, name=name, variant=v)
    mon.event("arrays compared", total)
    mon.event("arrays identical to the bit", same)
