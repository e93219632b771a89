"""C32: solving and evaluating leave the process as they found it: nothing printed, no global setting touched, nothing kept."""
import contextlib, decimal, gc, locale, os, random, signal, sys, tempfile, threading, tracemalloc, warnings, weakref
import numpy as np
from .. import env, gen, obs

CASES = dict(quick=320, thorough=12800)
RULE = ("random valid problem; sessions of solving (all modes, cached surfaces), rejected solves, evaluating every output and helper with changing "
        "inputs and depths, then discarding everything; before and after: floating-point error handling, print options, both random generators, "
        "warning filters, environment, working directory and its files, open descriptors, threads, signal handlers, interpreter limits, attributes of "
        "the package's modules and of NumPy; captured file descriptors 1 and 2; weak references to arguments, functions and results; traced memory "
        "over sessions; non-trivial = eight sessions; distinct = signature x variant")
ASSUMPTIONS = ["lazily imported third-party modules and their caches are warmed up by two sessions before anything is compared"]
SESSIONS = 8
ROUNDS = 24


def signature(c):
    return gen.features(c["A"]) + " " + c["variant"]


def make(rng, index, tier):
    big = rng.random()
    A = gen.gen(rng, layers=[14, 19, 27, 40] if big < 0.06 else [1, 2, 3, 4, 6, 11], nquads=[16, 24, 36] if 0.06 < big < 0.1 else [2, 4, 6, 8], only_flux=bool(rng.random() < 0.1))
    return dict(A=A, variant=["plain", "rejected", "warning", "compare"][int(rng.integers(0, 4))], seed=int(rng.integers(0, 2 ** 31)))


class Capture:
    """File descriptors 1 and 2 go to a temporary file."""

    def __enter__(self):
        sys.stdout.flush(), sys.stderr.flush()
        self.f = tempfile.TemporaryFile()
        self.old = os.dup(1), os.dup(2)
        os.dup2(self.f.fileno(), 1), os.dup2(self.f.fileno(), 2)
        return self

    def __exit__(self, *a):
        sys.stdout.flush(), sys.stderr.flush()
        os.dup2(self.old[0], 1), os.dup2(self.old[1], 2)
        os.close(self.old[0]), os.close(self.old[1])
        self.f.seek(0)
        self.text = self.f.read().decode(errors="replace")
        self.f.close()


def state():
    """Everything global that a numerical library has no business changing."""
    d = {}
    d["floating-point error handling"] = (sorted(np.geterr().items()), str(np.geterrcall()))
    d["print options"] = sorted((k, str(v)) for k, v in np.get_printoptions().items())
    s = np.random.get_state()
    d["NumPy random state"] = (s[0], s[1].tobytes(), s[2:])
    d["random state"] = random.getstate()
    d["warning filters"] = [(f[0], str(f[1]), f[2], str(f[3]), f[4]) for f in warnings.filters]
    d["warning hooks"] = (id(warnings.showwarning), id(warnings.formatwarning))
    d["environment"] = sorted(os.environ.items())
    d["working directory"] = (os.getcwd(), sorted(os.listdir(".")))
    d["open descriptors"] = len(os.listdir("/proc/self/fd"))
    d["threads"] = threading.active_count()
    d["signal handlers"] = [str(signal.getsignal(i)) for i in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGALRM, signal.SIGUSR1)]
    d["interpreter limits"] = (sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold())
    d["interpreter hooks"] = (str(sys.gettrace()), str(sys.getprofile()), id(sys.excepthook), id(sys.displayhook), id(sys.stdout), id(sys.stderr))
    d["import path"] = list(sys.path)
    d["decimal context"] = str(decimal.getcontext())
    d["locale"] = locale.setlocale(locale.LC_ALL)
    d["NumPy functions"] = sorted((k, id(getattr(np, k))) for k in ("exp", "einsum", "pi", "sum", "max", "array", "linalg", "random", "concatenate"))
    d["module attributes"] = sorted((m.__name__, k, id(v) if callable(v) else 0) for m in list(sys.modules.values())
                                    if getattr(m, "__name__", "").startswith("PythonicDISORT") for k, v in vars(m).items() if k != "__warningregistry__")
    return d


def change(a, b):
    if a == b:
        return []
    if isinstance(a, list) and isinstance(b, list):
        a, b = [x for x in a if x not in b], [x for x in b if x not in a]
    return [str(a)[:200], str(b)[:200]]


def held():
    """Traced memory by allocating file, without this machinery's own."""
    d = {}
    for st in tracemalloc.take_snapshot().statistics("filename"):
        n = st.traceback[0].filename
        if not n.startswith(env.VERIF) and os.path.basename(n) not in ("tracemalloc.py", "tempfile.py", "weakref.py"):
            d[n] = st.size
    return d


def undisturbed(f, *a, **kw):
    """SciPy's interpolator shuffles its nodes with NumPy's global generator when it is made (now or at the first reading): put that back."""
    s = np.random.get_state()
    try:
        return f(*a, **kw)
    finally:
        np.random.set_state(s)


def interpolator(u):
    return undisturbed(obs.SUB.interpolate, u)


def session(case, variant, rng, refs, mon):
    """One solve-evaluate-discard cycle with inputs of its own; weak references to all that should be freed are added to refs."""
    H = obs.SUB
    c = dict(case)
    q = 1 + 1e-3 * rng.random()
    c["tau"] = (np.array(case["tau"]) * q).tolist()
    c["omega"] = (np.array(case["omega"]) * (1 - 1e-3 * rng.random())).tolist()
    k = gen.kwargs(c)
    k["NT_cor"] = k.get("NT_cor", False)
    for x in list(k.values()):
        for y in (x if isinstance(x, list) else [x]):
            if isinstance(y, np.ndarray) or callable(y):
                refs.append(("argument", weakref.ref(y)))
    if variant == "rejected":
        bad = dict(k)
        w = int(rng.integers(0, 5))
        if w == 0:
            bad["tau_arr"] = -np.array(k["tau_arr"])
        elif w == 1:
            bad["omega_arr"] = np.full(len(c["tau"]), 1.5)
        elif w == 2:
            bad["NQuad"] = k["NQuad"] + 1
        elif w == 3:
            bad["f_arr"] = np.full(len(c["tau"]), -0.1)
        else:
            bad["I0"] = -1.0
        try:
            env.pydisort(**bad)
        except ValueError:
            mon.event("rejected solves")
        del bad
    if variant == "warning":
        bad = dict(k, omega_arr=np.array([max(x, 0.01) for x in c["omega"]]), Leg_coeffs_all=np.array(k["Leg_coeffs_all"]))
        bad["Leg_coeffs_all"][:, 0] = 0.5
        try:
            env.pydisort(**bad)
        except ValueError:
            pass
        mon.event("solves with warnings")
        del bad
    outs = env.pydisort(**k)
    mon.event("solves")
    T, n = c["tau"][-1], int(rng.integers(2, 5))
    t = np.minimum(rng.uniform(0, T, 3), T)
    phi = rng.uniform(0, 6, 2)
    fs = list(outs[1:]) + list(H.generate_diff_act_flux_funcs(outs[3]))
    iu0 = interpolator(outs[3])
    mus = rng.uniform(-1, 1, 3)
    for f in fs + [iu0]:
        refs.append(("function", weakref.ref(f)))
        full = len(outs) > 4 and f is outs[4]
        for _ in range(2):
            kk = {}
            if rng.random() < 0.4:
                kk["is_antiderivative_wrt_tau"] = True
            if rng.random() < 0.3:
                kk["return_tau_arr"] = True
            if full and rng.random() < 0.3:
                kk["return_Fourier_error"] = True
            a = (mus, t) if f is iu0 else (t, phi) if full else (t,)
            r = undisturbed(f, *a, **kk) if f is iu0 else f(*a, **kk)
            mon.event("evaluations")
            for x in r if isinstance(r, tuple) else (r,):
                if isinstance(x, np.ndarray):
                    refs.append(("result", weakref.ref(x)))
        try:
            if f is iu0:
                undisturbed(f, mus, T * 2 + 1.0)
            else:
                f(*((T * 2 + 1.0, phi) if full else (T * 2 + 1.0,)))
        except ValueError:
            mon.event("rejected evaluations")
    if len(outs) > 4:
        iu = interpolator(outs[4])
        refs.append(("function", weakref.ref(iu)))
        r = undisturbed(iu, mus, t, phi)
        refs.append(("result", weakref.ref(r)))
    # helpers
    x = np.sort(rng.uniform(0, T, 3))
    H.affine_transform_poly_coeffs(np.ones((2, 3)), np.array([1.0, q]), np.array([0.0, q]))
    H.Gauss_Legendre_quad(6, 0.0, q)
    H.Clenshaw_Curtis_quad(9, 0.0, q)
    H.generate_s_poly_coeffs(np.array(c["tau"]), 250.0 + 10 * rng.random(len(c["tau"]) + 1), 800.0, 820.0)
    H.linear_spline_coefficients(np.array([0.0, 1.0, 2.0]), x)
    H.Planck(300 * q, 900.0)
    H.generate_emissivity_from_BDRF(c["NQuad"] // 2, 0.3 * q)
    H.generate_FD_mat(6, 0.0, q)
    if variant == "compare":
        with Capture():
            N = c["NQuad"] // 2
            down = outs[2](t)
            ref = dict(tau_test_arr=t, flup=np.atleast_1d(outs[1](t)), rfldn=np.atleast_1d(down[0]), rfldir=np.atleast_1d(down[1]))
            order = np.arange(c["NQuad"])
            try:
                H._compare(ref, np.ones(N * 2, bool), order, outs[1], outs[2])
                mon.event("comparisons")
            except Exception:
                mon.event("comparisons failed")
    del outs, fs, iu0, f


def run(case, mon, rng):
    A, variant = case["A"], case["variant"]
    cwd = os.getcwd()
    entry = state()
    with tempfile.TemporaryDirectory(prefix="c32-") as d, contextlib.ExitStack() as stack:
        os.chdir(d)
        try:
            srng = np.random.default_rng(case["seed"])
            with warnings.catch_warnings(), np.errstate(all="ignore"), np.printoptions():   # warm-up
                warnings.simplefilter("ignore")
                for _ in range(2):
                    session(A, variant, srng, [], mon)
            gc.collect()
            # settings of this program's own choice, which must survive
            stack.enter_context(warnings.catch_warnings())
            warnings.simplefilter("ignore")
            if srng.random() < 0.5:
                warnings.filterwarnings("ignore", message="nothing like it", category=UserWarning)
            stack.enter_context(np.errstate(**dict(zip(("divide", "over", "under", "invalid"), srng.choice(["warn", "ignore"], 4).tolist()))))
            stack.enter_context(np.printoptions(precision=int(srng.integers(3, 12)), suppress=bool(srng.random() < 0.5)))
            np.random.seed(case["seed"])
            random.seed(case["seed"])
            state()
            before = state()
            refs = []
            with Capture() as cap:
                tracemalloc.start()
                try:
                    for i in range(SESSIONS):
                        if i == 1:
                            gc.collect()
                            m0 = held()
                        new = []
                        session(A, variant, srng, new, mon)
                        gc.collect()
                        refs.append([(kind, r) for kind, r in new if r() is not None])
                        mon.event("objects watched", len(new))
                        del new
                    gc.collect()
                    m1 = held()
                    # one solution kept for long and read again and again at new depths
                    outs = env.pydisort(**gen.kwargs(A))
                    fs = list(outs[1:]) + list(obs.SUB.generate_diff_act_flux_funcs(outs[3]))
                    plain = len(fs)
                    fs += [interpolator(x) for x in outs[3:]]
                    marks = []
                    for i in range(ROUNDS):
                        if i and not i % (ROUNDS // 4):
                            gc.collect()
                            marks.append(held())
                        t = srng.uniform(0, A["tau"][-1], 40)
                        args = [(t,)] * 3 + ([(t, srng.uniform(0, 6, 2))] if len(outs) > 4 else []) + [(t,)] * 2
                        args += [(srng.uniform(-1, 1, 3),) + a for a in args[2:len(outs) - 1]]
                        for n, (f, a) in enumerate(zip(fs, args)):
                            if n >= plain:
                                undisturbed(f, *a, is_antiderivative_wrt_tau=bool(i % 2))
                            else:
                                f(*a, is_antiderivative_wrt_tau=bool(i % 2))
                    mon.event("evaluations", ROUNDS * len(fs))
                    gc.collect()
                    marks.append(held())
                    del outs, fs, f
                finally:
                    tracemalloc.stop()
                mon.event("sessions", SESSIONS)
            gc.collect()
            after = state()
        finally:
            os.chdir(cwd)
    for name in before:
        mon.true("unchanged: " + name, before[name] == after[name], variant=variant,
                 change=change(before[name], after[name]))
    for name in ("environment", "signal handlers", "interpreter limits", "interpreter hooks", "import path", "decimal context", "locale", "warning hooks", "NumPy functions"):
        mon.true("unchanged since the beginning: " + name, entry[name] == after[name], variant=variant,
                 change=change(entry[name], after[name]))
    mon.true("nothing printed", not cap.text, text=cap.text[:300], variant=variant)
    alive = sorted({kind for x in refs for kind, r in x})
    mon.true("arguments, functions and results are freed", not alive, alive=alive, variant=variant)
    own = {k: m1[k] - m0.get(k, 0) for k in m1}
    inside = sum(v for k, v in own.items() if k.startswith(env.SRC))
    mon.check("memory held by the package after further sessions", max(inside, 0), 5000.0, variant=variant, files={k: v for k, v in own.items() if v})
    # (NumPy and SciPy keep small free lists and dispatch caches: a few kB)
    mon.check("memory held altogether after further sessions", max(sum(own.values()), 0), 40000.0, variant=variant, files={k: v for k, v in own.items() if v})
    # what grows in each quarter after the first (caches of NumPy's own fill up once)
    keep = {k: min(y.get(k, 0) - x.get(k, 0) for x, y in zip(marks, marks[1:])) for k in marks[-1]}
    mon.check("memory held by a solution read repeatedly", max(sum(keep.values()), 0), 5000.0, variant=variant, files={k: v for k, v in keep.items() if v})
