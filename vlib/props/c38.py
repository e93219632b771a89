"""C38: an interrupted solve, evaluation or helper call leaves everything as it was."""
import gc, os, warnings
import numpy as np
from .. import env, gen, obs, trace
from . import c14, c32

CASES = dict(quick=500, thorough=20000)
RULE = ("random valid problem; an operation (solve, first or later evaluation of any output function, antiderivative, interpolated function, a helper) "
        "is stopped before a randomly chosen statement of the package by KeyboardInterrupt, MemoryError or SystemExit, several "
        "times in different operations; watched: the exception itself, the bytes and flags of every array passed in, global state, what the same output functions "
        "and fresh solves give afterwards against values from a pristine forked process; non-trivial = at least one operation stopped before "
        "its end; distinct = signature x operations")
ASSUMPTIONS = ["statements of clean-up code (finally, except, __exit__) and those entering a protected region are not interrupted themselves",
               "SciPy's interpolator shuffles its nodes with NumPy's global generator: that generator is not compared"]

# (subclasses, so that nothing else can be mistaken for them; no kinds that code may legitimately handle itself)
EXCEPTIONS = [type("Stop" + k.__name__, (k,), {}) for k in (KeyboardInterrupt, MemoryError, SystemExit)]
OPS = ["solve", "solve", "u", "u0", "Fp", "Fm", "act_up", "act_down", "iu", "iu0", "helpers", "make"]


def signature(c):
    return gen.features(c["A"]) + " " + " ".join(c["ops"])


def make(rng, index, tier):
    A = gen.gen(rng, layers=[1, 2, 3, 4, 6, 11, 14], nquads=[2, 4, 6, 8, 10], only_flux=False)
    n = int(rng.integers(3, 7))
    return dict(A=A, ops=[OPS[(index + i * 5) % len(OPS)] if rng.random() < 0.5 else str(rng.choice(OPS)) for i in range(n)],
                seed=int(rng.integers(0, 2 ** 31)))


def helpers(case):
    """Arguments and calls of the public helpers: a list of (arrays, function)."""
    H, N, L = obs.SUB, case["NQuad"] // 2, len(case["tau"])
    tau, temp = np.array(case["tau"]), np.linspace(220.0, 290.0, L + 1)
    coeffs, a, b = np.arange(1.0, 2 * L + 1).reshape(L, 2), np.linspace(0.5, 2.0, L), np.linspace(-1, 1, L)
    y = np.array([1.0, 3.0, 2.0])
    x = np.array([0.0, 1.0, 2.5])
    M1, M2 = np.array([0.1, 0.7]), np.array([0.0, 1.0])
    modes = gen.bdrf_list(case)
    out = [([coeffs, a, b], lambda: H.affine_transform_poly_coeffs(coeffs, a, b)),
           ([tau, temp], lambda: H.generate_s_poly_coeffs(tau, temp, 500.0, 600.0)),
           ([x, y], lambda: H.linear_spline_coefficients(x, y)),
           ([M1, M2], lambda: H.calculate_nu(0.3, M1, -0.4, M2)),
           ([], lambda: H.Gauss_Legendre_quad(N, 0.0, 2.0)[0]),
           ([], lambda: H.Clenshaw_Curtis_quad(2 * N + 1, 0.0, 2.0)[1]),
           ([], lambda: H.generate_FD_mat(5, 0.0, 1.0)[1].toarray()),
           ([temp], lambda: H.blackbody_contrib_to_BCs(280.0, 500.0, 600.0)),
           ([coeffs, a], lambda: np.concatenate([np.ravel(v) for v in H.atleast_2d_append(coeffs, a)]))]
    for m in modes:
        out.append(([], lambda m=m: np.ravel(H.generate_emissivity_from_BDRF(N, m))))
    if modes:
        def cached():
            mu = H.Gauss_Legendre_quad(N)[0]
            c = H.cache_BDRF_Fourier_modes(N, modes, 0.4)
            return np.concatenate([np.ravel(f if np.isscalar(f) else f(mu, mu)) for f in c])
        out.append(([], cached))
    return out


def _quiet(f):
    def g(*a):
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return f(*a)
    return g


@_quiet
def reference(case, calls):
    """In a pristine process: values of all calls and helpers, and the statements executed by each."""
    paths = {}

    def traced(name, g):
        t = trace.Interrupt()
        r = t.run(g)
        paths[name] = occurrences(t.seen)
        return r
    k = gen.kwargs(case)
    out = traced("solve", lambda: env.pydisort(**k))
    f = c14.Funcs(out)
    for n, g in enumerate(makers(f)):
        traced(("make", n), g)
    return ([c14.values(traced(("call", j), lambda: f.raw(c))) for j, c in enumerate(calls)],
            [np.array(traced(("helper", j), h), float) for j, (_, h) in enumerate(helpers(case))], paths)


def occurrences(seen):
    """For each statement the indices at which it is executed; and again for those within try or with blocks only."""
    d = {}
    for i, x in enumerate(seen):
        d.setdefault(x, []).append(i)
    return list(d.values()), [v for (path, line), v in d.items() if line in trace.guarded_lines(path)]


def makers(f):
    return [lambda: obs.SUB.generate_diff_act_flux_funcs(f.u0), lambda: obs.SUB.interpolate(f.u0), lambda: obs.SUB.interpolate(f.u)]


def arrays(k):
    return {n: x for n, x in k.items() if isinstance(x, np.ndarray)}


def snap(d):
    return {n: (x.tobytes(), x.shape, x.strides, x.dtype.str, x.flags.writeable) for n, x in d.items()}


def lists(k):
    return {n: [id(y) for y in x] for n, x in k.items() if isinstance(x, list)}


def world():
    d = c32.state()
    d.pop("NumPy random state")
    return d


def session(case, ops, calls, paths, seed):
    """The history itself, in a forked child: returns observations only."""
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(seed)
    np.seterr(**{n: "warn" if rng.random() < 0.8 else "ignore" for n in ("divide", "over", "under", "invalid")})
    notes = dict(bad=[], stopped=[], values=[], helper=[], completed=0)
    hs = helpers(case)
    k = gen.kwargs(case)
    own = arrays(k)
    s0, l0 = snap(own), lists(k)
    w0 = world()
    f = None

    def attempt(name, key, what, args):
        """One call of what(), interrupted before any of the statements that it is known to execute."""
        everywhere, guarded = paths[key]
        if not everywhere:
            return
        some = guarded if guarded and rng.random() < 0.4 else everywhere
        at = some[int(rng.integers(0, len(some)))]
        k_ = at[int(rng.integers(0, len(at)))]
        exc = EXCEPTIONS[int(rng.integers(0, len(EXCEPTIONS)))]("stop")
        t = trace.Interrupt(k_, exc)
        before = snap(args)
        got = None
        try:
            got = t.run(what)
        except BaseException as e:
            if e is not exc:
                if t.where is None:
                    raise
                notes["bad"].append(("the interruption itself reaches the caller", name, str(t.where), repr(e)[:300]))
            e.__traceback__ = None
        else:
            if t.where is not None:
                notes["bad"].append(("the interruption itself reaches the caller", name, str(t.where), "swallowed: " + type(exc).__mro__[1].__name__))
            notes["completed"] += 1
        if t.where is not None:
            notes["stopped"].append((name,) + t.where)
        after = snap(args)
        for n in before:
            if before[n] != after[n]:
                notes["bad"].append(("arguments unchanged after an interruption", name, str(t.where), n))
        if snap(own) != s0 or lists(k) != l0:
            notes["bad"].append(("the solve's arguments unchanged after an interruption", name, str(t.where), ""))
        w = world()
        if w != w0:
            diff = [(n, c32.change(w0[n], w[n])) for n in w0 if w0[n] != w[n]]
            notes["bad"].append(("global state unchanged after an interruption", name, str(t.where), str(diff)[:300]))
        return got

    for op in ops:
        for again in range(int(rng.integers(1, 4)) + (2 if op == "solve" else 0)):
            if op == "solve":
                attempt("solve", "solve", lambda: env.pydisort(**k), own)
            elif op == "make":
                if f is None:
                    f = c14.Funcs(env.pydisort(**k))
                which = int(rng.integers(0, 3))
                attempt("make", ("make", which), makers(f)[which], {})
            elif op == "helpers":
                j = int(rng.integers(0, len(hs)))
                attempt("helpers", ("helper", j), hs[j][1], dict(enumerate(hs[j][0])))
                notes["helper"].append((j, np.array(hs[j][1](), float)))
            else:
                if f is None or rng.random() < 0.5:     # functions never evaluated before
                    f = c14.Funcs(env.pydisort(**k))
                mine = [j for j, c in enumerate(calls) if c[0] == op]
                if not mine:
                    continue
                j = mine[int(rng.integers(0, len(mine)))]
                c = calls[j]
                attempt(op, ("call", j), lambda: f.raw(c), dict(tau=c[1], phi=c[2], mu=c[3]))
                if rng.random() < 0.7:
                    notes["values"].append((j, c14.values(f.raw(c))))
        if f is not None:
            for j in rng.integers(0, len(calls), 2):
                notes["values"].append((int(j), c14.values(f.raw(calls[int(j)]))))
    g = c14.Funcs(env.pydisort(**k))
    for j in rng.integers(0, len(calls), 4):
        notes["values"].append((int(j), c14.values(g.raw(calls[int(j)]))))
    for j, (_, h) in enumerate(hs):
        notes["helper"].append((j, np.array(h(), float)))
    return notes


def run(spec, mon, rng):
    A = spec["A"]
    calls = c14.calls_for(rng, A)
    have = {c[0] for c in calls}
    calls += [(n,) + calls[0][1:4] + (False, False, False) for n in ("u", "u0", "Fp", "Fm", "act_up", "act_down", "iu", "iu0") if n not in have]
    st, v = c14.child(reference, A, calls)
    if st != "ok":
        return mon.fail("no unexpected exception", v[-1500:])
    want, helper, paths = v
    st, notes = c14.child(session, A, spec["ops"], calls, paths, spec["seed"])
    if st != "ok":
        return mon.fail("no unexpected exception", notes[-1500:])
    for what in ("the interruption itself reaches the caller", "arguments unchanged after an interruption",
                 "the solve's arguments unchanged after an interruption", "global state unchanged after an interruption"):
        bad = [b[1:] for b in notes["bad"] if b[0] == what]
        mon.true(what, not bad, seen=bad[:3])
    S, T = obs.src_scale(A), A["tau"][-1]
    for j, val in notes["values"]:
        c14.compare(mon, "values after an interruption", val, want[j], S, T, calls[j])
    for j, val in notes["helper"]:
        mon.close("helpers after an interruption", val, helper[j], 1e-12, helper=j)
    if not notes["stopped"]:
        mon.event("sessions without an interruption")
    mon.event("interruptions", len(notes["stopped"]))
    mon.event("operations completed before the chosen statement", notes["completed"])
    mon.event("values compared", len(notes["values"]))
    for name, fn, func, line in notes["stopped"]:
        mon.event("interrupted: " + name)
        mon.event("statement %s:%s:%d" % (fn, func, line))
