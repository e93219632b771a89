"""C14: purity. Every history runs in a child forked from a pristine process, so that hidden state can only come from the history."""
import copy, os, pickle, sys, threading, traceback, warnings
import numpy as np
from .. import env, gen, ref, obs, trace

CASES = dict(quick=300, thorough=9000)
RULE = ("random valid problem A and a sibling B differing in one argument. A pristine forked child records reference values of A, another of B; "
        "further children run random histories: interleaved evaluations, solves of the sibling before/between/after, callers overwriting the arrays "
        "passed in, the arrays returned and the depth arrays reused between calls, argument arrays refilled in place and surface functions discarded between solves, and 4 threads evaluating and solving concurrently with a "
        "1-microsecond switch interval, and 2 to 3 threads under controlled schedules that switch at chosen statements of the package; every value is compared with the reference and every argument with its byte snapshot; "
        "non-trivial = at least 20 calls replayed; distinct = signature x sibling change x history kind")


def signature(c):
    return gen.features(c["A"]) + " " + c["change"] + " " + c["mode"]


def make(rng, index, tier):
    A = gen.plain(gen.gen(rng, layers=[1, 2, 3, 4, 6, 11], nquads=[2, 4, 6, 8]))
    A["autograd"] = bool(rng.random() < 0.12)
    if rng.random() < 0.25:                     # zeroth coefficients that the solver has to correct (with a warning)
        l0 = rng.integers(0, 2, len(A["tau"]))
        l0[rng.integers(0, len(l0))] = 1
        for l, z in enumerate(l0):
            A["Leg"][l][0] = 1.0 - 0.3 * float(z)
    mode = ["interleave", "mutate", "threads", "recycle", "schedules"][index % 5]
    want = None
    if mode == "recycle" and rng.random() < 0.5:
        want = "bdrf"
        if not any(isinstance(b, dict) for b in A["bdrf"]):
            A["bdrf"] = [dict(k="prod", a=float(rng.uniform(0.1, 0.6)), b=0.3)]
    B, change = sibling(rng, A, want)
    return dict(A=A, B=B, change=change, mode=mode)


def sibling(rng, A, want=None):
    for _ in range(200):
        B = copy.deepcopy(A)
        c = want or rng.choice(["mu0", "phi0", "I0", "omega", "Leg", "b_pos", "b_neg", "s", "f", "bdrf", "tau", "NFourier", "banded", "NT"])
        L = len(A["tau"])
        l = int(rng.integers(0, L))
        if c in ("mu0", "phi0", "I0") and A["I0"] == 0:
            continue
        if c == "mu0":
            B["mu0"] = float(rng.uniform(0.1, 1))
        elif c == "phi0":
            B["phi0"] = float(rng.uniform(0, 6.2))
        elif c == "I0":
            B["I0"] = A["I0"] * float(rng.uniform(1.2, 3))
        elif c == "omega":
            B["omega"][l] = float(rng.uniform(0.05, 0.95))
        elif c == "Leg":
            B["Leg"][l] = gen.phase_moments(rng, len(A["Leg"][l])).tolist()
        elif c in ("b_pos", "b_neg"):
            if not isinstance(A[c], list):
                B[c] = float(rng.uniform(0.1, 5))
            else:
                B[c] = (np.array(A[c]) * rng.uniform(0.5, 2)).tolist()
        elif c == "s":
            if A["s"] is None:
                continue
            B["s"][l] = (np.array(A["s"][l]) * rng.uniform(0.3, 3) + 0.1).tolist()
        elif c == "f":
            if A["f"] is None:
                continue
            B["f"][l] = A["f"][l] * 0.5 + 0.01
        elif c == "bdrf":
            if not A["bdrf"]:
                continue
            m = int(rng.integers(0, len(A["bdrf"])))
            if isinstance(A["bdrf"][m], dict):
                B["bdrf"][m]["a"] *= 0.6
            else:
                B["bdrf"][m] *= 0.6
        elif c == "tau":
            B["tau"] = (np.array(A["tau"]) * rng.uniform(0.5, 0.9)).tolist()
        elif c == "NFourier":
            if A["NFourier"] < 2 or np.ndim(A["b_pos"]) == 2 or np.ndim(A["b_neg"]) == 2:
                continue
            B["NFourier"] = A["NFourier"] - 1
        elif c == "banded":
            B["banded"] = 3
        elif c == "NT":
            B["NT_cor"] = not A["NT_cor"]
        if B == A and c != "banded":
            continue
        leg = np.array(B["Leg"])[:, :B["NLeg"]]
        if not ref.well_posed(B["tau"], B["omega"], leg, B["f"], B["NQuad"], B["NFourier"], B["mu0"] if B["I0"] > 0 else None):
            continue
        if B["I0"] > 0 and np.min(np.abs(ref.nodes(B["NQuad"] // 2)[0] - B["mu0"])) < 2e-3:
            continue
        return B, str(c)
    B = copy.deepcopy(A)
    B["banded"] = 3
    return B, "banded"


# ------------------------------------------------------------------------------------------------ children
def child(fn, *a):
    """Run fn(*a) in a forked child and return its (pickled) result; exceptions come back as ('error', text)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn(*a)))
            except BaseException:
                data = pickle.dumps(("error", traceback.format_exc()))
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("error", "child died")


# ------------------------------------------------------------------------------------------------ calls
def calls_for(rng, case):
    """Evaluation requests: (function, depths, azimuths, flags); depth arrays of equal length, equal ends, permutations, scalars."""
    T = case["tau"][-1]
    n = int(rng.integers(3, 7))
    base = np.sort(np.concatenate([[0.0, T], rng.uniform(0, T, n - 2)]))
    alt = base.copy()
    alt[1:-1] = np.sort(rng.uniform(0, T, n - 2))
    sets = [base, alt, base[rng.permutation(n)], rng.uniform(0, T, n), np.array([rng.uniform(0, T)]), base[:2]]
    phis = [rng.uniform(0, 6.28, 2), rng.uniform(0, 6.28, 2), rng.uniform(0, 6.28, 1)]
    mus = [rng.uniform(-1, 1, 3), rng.uniform(-1, 1, 3)]
    names = ["u", "u0", "Fp", "Fm", "act_up", "act_down", "iu", "iu0"]
    out = []
    for _ in range(24):
        nm = str(rng.choice(names))
        out.append((nm, sets[int(rng.integers(0, len(sets)))], phis[int(rng.integers(0, len(phis)))],
                    mus[int(rng.integers(0, len(mus)))], bool(rng.random() < 0.3),
                    bool(rng.random() < 0.25), bool(nm in ("u", "iu") and rng.random() < 0.2)))
    return out


class Funcs:
    def __init__(self, out):
        self.mu, self.Fp, self.Fm, self.u0, self.u = out
        self.act_up, self.act_down = obs.SUB.generate_diff_act_flux_funcs(self.u0)
        self.iu, self.iu0 = obs.SUB.interpolate(self.u), obs.SUB.interpolate(self.u0)

    def raw(self, call, tau=None):
        nm, t, phi, mu, anti, rtau, four = call
        t = t if tau is None else tau
        a = {"u": (t, phi), "iu": (mu, t, phi), "iu0": (mu, t)}.get(nm, (t,))
        k = dict(is_antiderivative_wrt_tau=anti)
        if rtau:
            k["return_tau_arr"] = True
        if four:
            k["return_Fourier_error"] = True
        v = getattr(self, nm)(*a, **k)
        return v if isinstance(v, tuple) else (v,)


def values(v):
    return [np.array(x, float, copy=True) for x in v]


def solve(case, **over):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return env.pydisort(**gen.kwargs(case, **over))


def reference(case, calls):
    f = Funcs(solve(case))
    return [values(f.raw(c)) for c in calls]


# ------------------------------------------------------------------------------------------------ histories
def freeze(x):
    if isinstance(x, np.ndarray):
        x.flags.writeable = False


def snapshot(k):
    return {n: (x.tobytes(), x.shape, x.dtype.str) if isinstance(x, np.ndarray) else [id(y) for y in x] if isinstance(x, list) else x for n, x in k.items()}


def persistent_bdrf(case):
    """BDRF modes returning one persistent array per argument shape: in-place changes by the solver would show."""
    store = []

    def wrap(spec):
        cache = {}

        def f(mu, mup):
            key = (np.asarray(mu).tobytes(), np.asarray(mup).tobytes())
            if key not in cache:
                cache[key] = gen.bdrf_eval(spec, mu, mup)
                store.append((cache[key], cache[key].tobytes()))
            return cache[key]
        return f
    return [wrap(s) if isinstance(s, dict) else s for s in case["bdrf"]], store


def hist_interleave(cA, cB, callsA, callsB, seed):
    rng = np.random.default_rng(seed)
    got = []
    order = rng.integers(0, 3)
    fs = []
    for who in [("A", "B", "A"), ("B", "A", "B"), ("B", "A", "A")][order]:
        fs.append((who, Funcs(solve(cA if who == "A" else cB))))
    if rng.random() < 0.5:
        solve(cB)
    for _ in range(60):
        who, f = fs[int(rng.integers(0, 3))]
        calls = callsA if who == "A" else callsB
        j = int(rng.integers(0, len(calls)))
        try:
            got.append((who, j, values(f.raw(calls[j]))))
        except ValueError as e:
            got.append((who, j, "ValueError: %s" % e))
        if rng.random() < 0.04:
            w = "AB"[int(rng.integers(0, 2))]
            fs[int(rng.integers(0, 3))] = (w, Funcs(solve(cA if w == "A" else cB)))
        if rng.random() < 0.05:
            try:
                f.u(-1.0, 0.0)          # a failing call must leave no trace
            except ValueError:
                pass
    return got, {}


def helper_arrays(c, rng):
    """Whatever arrays the public helpers hand out, for the sizes the solver itself uses."""
    H, N, L = obs.SUB, c["NQuad"] // 2, len(c["tau"])
    out = []
    for n in (N, c["NQuad"]):
        out += list(H.Gauss_Legendre_quad(n)) + list(H.Clenshaw_Curtis_quad(2 * n + 1))
    out += [H.linear_spline_coefficients(np.arange(3.0), np.arange(3.0)), H.generate_s_poly_coeffs(np.array(c["tau"]), np.full(L + 1, 250.0), 500.0, 600.0),
            H.affine_transform_poly_coeffs(np.ones((L, 2)), np.ones(L), np.zeros(L)), H.calculate_nu(0.3, np.array([0.1, 0.2]), 0.4, np.array([0.0, 1.0]))]
    x, M = H.generate_FD_mat(5, 0.0, 1.0)
    out += [x, M.data]
    for b in c["bdrf"]:
        g = gen.bdrf_mode(b)
        e = H.generate_emissivity_from_BDRF(N, g)
        out.append(e)
        if isinstance(b, dict):
            x = ref.nodes(N)[0]
            m = H.cache_BDRF_Fourier_modes(N, [g])[0]
            out += [m(x, -x), m(x, np.array([-0.3]))]
    return out


def hist_mutate(cA, cB, callsA, callsB, seed):
    rng = np.random.default_rng(seed)
    notes = dict(unchanged=[], readonly=True)
    k = gen.kwargs(cA)
    bd, store = persistent_bdrf(cA)
    k["BDRF_Fourier_modes"] = bd
    if bd and rng.random() < 0.4:                 # modes cached by the helper, whose list the caller then reuses
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            k["BDRF_Fourier_modes"] = obs.SUB.cache_BDRF_Fourier_modes(cA["NQuad"] // 2, bd, *([cA["mu0"]] if cA["I0"] > 0 and rng.random() < 0.5 else []))
        if rng.random() < 0.5:
            bd[:] = [0.123] * len(bd)
        else:
            del bd[:]
    if rng.random() < 0.5:
        for x in k.values():
            freeze(x)
    elif rng.random() < 0.5:
        for n, x in list(k.items()):          # non-contiguous views of larger arrays
            if isinstance(x, np.ndarray) and x.ndim == 1 and x.size:
                big = np.repeat(x, 2)
                k[n] = big[::2]
            elif isinstance(x, np.ndarray) and x.ndim == 2 and x.size:
                k[n] = np.asfortranarray(x)
    s0 = snapshot(k)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = env.pydisort(**k)
    f = Funcs(out)
    got = []
    half = callsA[:12]
    for j, c in enumerate(half):
        got.append(("A", j, values(f.raw(c))))
    s1 = snapshot(k)
    notes["unchanged"] = [(n, s0[n] == s1[n]) for n in s0]
    notes["bdrf_arrays"] = all(a.tobytes() == b for a, b in store)
    # the caller now overwrites everything it passed in
    for n, x in k.items():
        if isinstance(x, np.ndarray) and x.size:
            try:
                x.flags.writeable = True
            except ValueError:
                continue
            if np.issubdtype(x.dtype, np.floating):
                x *= 0.37
                x += 0.11
    for a, _ in store:
        a[...] = 0.987
    k["BDRF_Fourier_modes"][:] = [0.123]
    # and everything it got back
    for j, c in enumerate(half[:6]):
        for x in f.raw(c):
            if isinstance(x, np.ndarray) and x.flags.writeable:
                x[...] = -7.5
    if isinstance(f.mu, np.ndarray) and f.mu.flags.writeable:
        f.mu[:] = 0.5
    for fn in (f.u0, f.Fp, f.Fm):
        r = fn(0.0, return_tau_arr=True)[-1]
        if r.flags.writeable:
            r[:] = 1e-3
    r = f.u(0.0, 0.0, return_tau_arr=True)[-1]
    if r.flags.writeable:
        r[:] = 1e-3
    # and everything the helpers return
    for x in helper_arrays(cA, rng):
        if isinstance(x, np.ndarray) and x.flags.writeable and x.size:
            x[...] = 0.25
    for _ in range(40):
        j = int(rng.integers(0, len(callsA)))
        c = callsA[j]
        got.append(("A", j, values(f.raw(c))))
    f2 = Funcs(solve(cA))
    for j in rng.integers(0, len(callsA), 4):
        got.append(("A", int(j), values(f2.raw(callsA[int(j)]))))
    # one depth buffer reused by the caller for successive calls, overwritten after each
    n = len(callsA[0][1])
    for j, c in enumerate(callsA):
        buf = np.full(len(c[1]), 0.0)
        v1 = f.raw(c, buf)
        buf[:] = c[1]
        ph = c[2].copy()
        v = values(f.raw((c[0], c[1], ph, c[3]) + c[4:], buf))
        notes["args_unchanged"] = notes.get("args_unchanged", True) and bool(np.all(buf == c[1])) and bool(np.all(ph == c[2]))
        buf[:] = 0
        got.append(("A", j, v))
    # results handed out earlier must not be altered by later calls
    keep = [(j, f.raw(callsA[j])) for j in range(0, len(callsA), 3)]
    snap = [values(v) for _, v in keep]
    for j in rng.integers(0, len(callsA), 12):
        f.raw(callsA[int(j)])
    notes["results_stable"] = all(np.array_equal(a, np.asarray(b, float), equal_nan=True) for (_, v), s in zip(keep, snap) for a, b in zip(s, v))
    return got, notes


def hist_threads(cA, cB, callsA, callsB, seed):
    rng = np.random.default_rng(seed)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    warnings.simplefilter("ignore")
    fA, fB = Funcs(solve(cA)), Funcs(solve(cB))
    got, errs = [], []
    nth = 4
    bar = threading.Barrier(nth)
    switches = [0]
    last = [None]

    def work(i):
        r = np.random.default_rng([seed, i])
        mine = []
        try:
            bar.wait()
            plan = ["eval"] * 40 + ["solve"] * (1 if i % 2 else 0)
            for op in [plan[k] for k in r.permutation(len(plan))]:
                if last[0] is not i:
                    switches[0] += 1
                    last[0] = i
                who = "AB"[int(r.integers(0, 2))] if i != 0 else "A"
                calls = callsA if who == "A" else callsB
                j = int(r.integers(0, len(calls)))
                f = fA if who == "A" else fB
                if op == "solve":
                    f = Funcs(env.pydisort(**gen.kwargs(cA if who == "A" else cB)))
                mine.append((who, j, values(f.raw(calls[j]))))
        except BaseException:
            errs.append(traceback.format_exc())
        got.extend(mine)
    ths = [threading.Thread(target=work, args=(i,)) for i in range(nth)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    sys.setswitchinterval(old)
    return got, dict(errors=errs, switches=switches[0])


def hist_schedules(cA, cB, callsA, callsB, seed):
    """Two or three threads, one running at a time, that change over at chosen statements of the package: few or very many changes."""
    rng = np.random.default_rng(seed)
    warnings.simplefilter("ignore")
    fA, fB = Funcs(env.pydisort(**gen.kwargs(cA))), Funcs(env.pydisort(**gen.kwargs(cB)))
    got, errs, trails, changes = [], [], set(), 0
    length = 300
    for _ in range(14):
        n = int(rng.integers(2, 4))
        same = rng.random() < 0.6                  # the same output function, at other depths
        first = int(rng.integers(0, len(callsA)))
        fs = []
        for i in range(n):
            who = "A" if same or rng.random() < 0.5 else "B"
            case, f, calls = (cA, fA, callsA) if who == "A" else (cB, fB, callsB)
            j = first if i == 0 and same else int(rng.integers(0, len(calls)))
            if same and i:
                alike = [q for q, c in enumerate(calls) if c[0] == calls[first][0]]
                j = alike[int(rng.integers(0, len(alike)))]
            new = rng.random() < 0.15

            def op(who=who, case=case, f=f, calls=calls, j=j, new=new):
                g = Funcs(env.pydisort(**gen.kwargs(case))) if new else f
                return who, j, values(g.raw(calls[j]))
            fs.append(op)
        if rng.random() < 0.5:                     # few changes of thread
            at = {int(x): int(rng.integers(0, n)) for x in rng.integers(1, length, int(rng.integers(1, 6)))}
        else:                                      # many
            at = {int(x): int(rng.integers(0, n)) for x in np.cumsum(rng.integers(1, int(rng.integers(2, 30)), 400))}
        s = trace.Scheduler(fs, at)
        if not s.run():
            errs.append("a thread never returned")
            break
        length = max(30, s.count)
        errs += ["".join(traceback.format_exception(e)) for e in s.errors if e is not None]
        got += [r for r in s.results if r is not None]
        trails.add(tuple(s.trail))
        changes += len(s.trail)
        if s.stuck:                                # (a thread waits for another one in its own way: schedules cannot be imposed)
            break
    return got, dict(errors=errs, schedules=len(trails), changes=changes)


def hist_recycle(cA, cB, callsA, callsB, seed):
    """The caller reuses the same argument arrays (same identity, new contents) and throws surfaces and solutions away between solves."""
    rng = np.random.default_rng(seed)
    got = []
    bufs = {}
    for i in range(int(rng.integers(5, 9))):
        who = "AB"[i % 2] if rng.random() < 0.8 else "AB"[int(rng.integers(0, 2))]
        case, calls = (cA, callsA) if who == "A" else (cB, callsB)
        k = gen.kwargs(case)
        for n, x in list(k.items()):
            if isinstance(x, np.ndarray):
                key = (n, x.shape)
                if key in bufs:
                    bufs[key][...] = x
                else:
                    bufs[key] = x.copy()
                k[n] = bufs[key]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f = Funcs(env.pydisort(**k))
        del k                                    # the surface functions of this solve are now garbage
        for _ in range(3):
            j = int(rng.integers(0, len(calls)))
            got.append((who, j, values(f.raw(calls[j]))))
        del f
    return got, {}


def compare(mon, what, v, w, S, T, call):
    if len(v) != len(w):
        return mon.fail(what, "number of outputs %d != %d" % (len(v), len(w)), call=call[0])
    for i, (a, b) in enumerate(zip(v, w)):
        if a.shape != b.shape:
            mon.fail(what, "shape %s != %s" % (a.shape, b.shape), call=call[0])
            continue
        # bit-identical in practice; the tolerance only allows for a different summation order inside BLAS
        scale = max(np.max(np.abs(b), initial=0.0), S * (1 + T) if i == 0 else 0.0, 1e-300)
        mon.check(what, np.where((a == b) | (np.isnan(a) & np.isnan(b)), 0, a - b), 1e-10 * scale, function=call[0], anti=call[4])


def run(spec, mon, rng):
    A, B = spec["A"], spec["B"]
    cA, cB = calls_for(rng, A), calls_for(rng, B)
    ref_ = {}
    for who, case, calls in (("A", A, cA), ("B", B, cB)):
        st, v = child(reference, case, calls)
        if st != "ok":
            return mon.fail("no unexpected exception", v[-1500:], who=who)
        ref_[who] = v
    mon.event("solves", 2)
    sc = {w: (obs.src_scale(c), c["tau"][-1]) for w, c in (("A", A), ("B", B))}
    calls = dict(A=cA, B=cB)
    # the reference itself against evaluations in pristine state
    for j in rng.integers(0, len(cA), 2):
        st, v = child(lambda: values(Funcs(solve(A)).raw(cA[int(j)])))
        if st != "ok":
            return mon.fail("no unexpected exception", v[-1500:])
        compare(mon, "first evaluation in a pristine process", v, ref_["A"][int(j)], *sc["A"], cA[int(j)])
    h = dict(interleave=hist_interleave, mutate=hist_mutate, threads=hist_threads, recycle=hist_recycle, schedules=hist_schedules)[spec["mode"]]
    st, v = child(h, A, B, cA, cB, int(rng.integers(0, 2 ** 31)))
    if st != "ok":
        return mon.fail("no unexpected exception", v[-1500:], mode=spec["mode"])
    got, notes = v
    mon.event("histories: " + spec["mode"])
    mon.event("calls replayed: " + spec["mode"], len(got))
    name = dict(interleave="independent of interleaved evaluations and solves", mutate="independent of callers' modifications",
                threads="independent of concurrent use", recycle="independent of reused argument objects", schedules="independent of the schedule of threads")[spec["mode"]]
    for who, j, val in got:
        if isinstance(val, str):
            mon.fail(name, val, call=calls[who][j][0])
        else:
            compare(mon, name, val, ref_[who][j], *sc[who], calls[who][j])
    if spec["mode"] == "mutate":
        for n, ok in notes["unchanged"]:
            mon.true("argument not modified", ok, argument=n)
        mon.true("arrays returned by BDRF functions not modified", notes["bdrf_arrays"])
        mon.true("depth and azimuth arrays not modified", notes["args_unchanged"])
        mon.true("returned arrays not altered by later calls", notes["results_stable"])
    if spec["mode"] == "schedules":
        mon.true("no exception under any schedule", not notes["errors"], errors=notes["errors"][:1])
        mon.event("distinct schedules", notes["schedules"])
        mon.event("changes of thread at chosen statements", notes["changes"])
    if spec["mode"] == "threads":
        mon.true("no exception in any thread", not notes["errors"], errors=notes["errors"][:1])
        mon.event("observed thread alternations", notes["switches"])
