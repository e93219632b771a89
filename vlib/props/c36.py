"""C36: user-supplied reflection functions are called by the documented protocol."""
import functools
import json
import warnings
import numpy as np
from .. import env, gen, ref, obs

CASES = dict(quick=3000, thorough=120000)
RULE = ("random problem with reflecting surface modes given as recorded user functions (plain, partial, bound method, callable object, default arguments, NumPy ufunc "
        "method) whose results come as read-only, Fortran-ordered or strided arrays, array subclasses, one buffer shared by all modes or the function's own "
        "table; the log of all calls is checked against the protocol, solutions against those of plain functions; faults raised inside; nested solves; the "
        "caching and emissivity helpers likewise; non-trivial = at least one user function called; distinct = signature")
FORMS = ["function", "partial", "method", "object", "defaults", "positional"]
RESULTS = ["plain", "readonly", "fortran", "strided", "buffer", "table", "subclass"]


class Fault(Exception):
    pass


# What a user function may raise; subclasses, so that nothing else can be mistaken for them
FAULTS = [Fault] + [type("Fault" + k.__name__, (k,), {}) for k in (
    ValueError, TypeError, KeyError, IndexError, AttributeError, ZeroDivisionError, FloatingPointError, RuntimeError, NotImplementedError,
    AssertionError, OSError, MemoryError, UserWarning, np.linalg.LinAlgError, KeyboardInterrupt)]


class Array(np.ndarray):
    pass


class Recorder:
    """A surface mode that logs every call and returns its values in a chosen form."""

    def __init__(self, spec, form, result, log, m, buffers, hook=None):
        self.spec, self.form, self.result, self.log, self.m, self.buffers, self.hook = spec, form, result, log, m, buffers, hook
        self.tables = []

    def evaluate(self, mu, mup):
        self.log.append((self.m, np.array(mu), np.array(mup), type(mu), type(mup)))
        if self.hook is not None:
            self.hook()
        v = np.array(gen.bdrf_eval(self.spec, mu, mup), float)
        r = self.result
        if r == "readonly":
            v.setflags(write=False)
        elif r == "fortran":
            v = np.asfortranarray(v)
        elif r == "strided":
            w = np.full((2 * v.shape[0], 3 * v.shape[1]), np.nan)
            w[::2, ::3] = v
            v = w[::2, ::3]
        elif r == "buffer":                       # one output buffer per shape and kind of call (streams or beam), shared by all modes
            b = self.buffers.setdefault((v.shape, np.asarray(mup).tobytes()), np.empty(v.shape))
            b[:] = v
            v = b
        elif r == "table":                        # the function keeps what it returned
            self.tables.append(v)
        elif r == "subclass":
            v = v.view(Array)
        return v

    def __call__(self, mu, neg_mup):
        return self.evaluate(mu, neg_mup)

    def public(self):
        f = self.form
        if f == "function":
            return lambda mu, neg_mup: self.evaluate(mu, neg_mup)
        if f == "partial":
            return functools.partial(lambda extra, a, b: self.evaluate(a, b), None)
        if f == "method":
            return self.evaluate
        if f == "defaults":
            return lambda x, y, scale=1.0, *more, **opts: self.evaluate(x, y)
        if f == "positional":
            def g(x, y, /):
                return self.evaluate(x, y)
            return g
        return self


def make(rng, index, tier):
    for _ in range(200):
        c = gen.gen(rng, bdrf=True, nquads=[2, 2, 4, 6, 8, 12, 16], only_flux=bool(rng.random() < 0.1))
        if not gen.ims_ok(c):
            continue
        c["cache"] = 0
        N = c["NQuad"] // 2
        # every mode a function
        c["bdrf"] = [s if isinstance(s, dict) else dict(k="const", a=float(s), b=0.0) if rng.random() < 0.8 else s for s in c["bdrf"]]
        if not any(isinstance(s, dict) for s in c["bdrf"]):
            continue
        c["forms"] = [str(rng.choice(FORMS)) for _ in c["bdrf"]]
        one = str(rng.choice(RESULTS))
        c["results"] = [one if rng.random() < 0.7 else str(rng.choice(RESULTS)) for _ in c["bdrf"]]
        c["use"] = ["direct", "cached", "cached with beam", "fault", "nested", "emissivity"][index % 6]
        return c
    raise RuntimeError("no case found")


def strip(c):
    return {k: v for k, v in c.items() if k not in ("forms", "results", "use")}


def run(case, mon, rng):
    base = strip(case)
    use = case["use"]
    log, buffers = [], {}
    N, NF = base["NQuad"] // 2, 1 if base["only_flux"] else base["NFourier"]
    mus = ref.nodes(N)[0]
    recs = [Recorder(s, f, r, log, m, buffers) if isinstance(s, dict) else s
            for m, (s, f, r) in enumerate(zip(base["bdrf"], case["forms"], case["results"]))]
    pub = [r.public() if isinstance(r, Recorder) else r for r in recs]
    t, phi = obs.depths(rng, base, 4), obs.azimuths(rng, base, 2)
    S = obs.src_scale(base)
    A = obs.Sol(base, mon).fields(t, phi)

    def call(modes, **over):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return env.pydisort(**gen.kwargs(base, BDRF_Fourier_modes=modes, **over))

    def compare(out, what):
        s = wrap(base, mon, out)
        before = len(log)
        B = s.fields(t, phi)
        if len(log) != before:
            mon.fail("user functions are called by the solve only, not by evaluations", what)
        for q in A:
            mon.close("solution with %s" % what, A[q], B[q], 1e-9, scale=max(np.max(np.abs(A[q])), S), field=q)

    def protocol(calls, modes, beam):
        """every logged call has the documented arguments"""
        for m, x, y, tx, ty in calls:
            mon.event("calls of user functions")
            mon.event("calls for modes in use", int(m < modes))
            ok = x.ndim == 1 and y.ndim == 1 and x.dtype == float and y.dtype == float
            mon.true("arguments are one-dimensional arrays of floats", ok and issubclass(tx, np.ndarray) and issubclass(ty, np.ndarray), got=str((tx, ty, x.shape, y.shape)))
            if ok:
                mon.true("cosines within (0, 1]", bool(np.all(x > 0) and np.all(x <= 1) and np.all(y > 0) and np.all(y <= 1)), x=x, y=y)
                mon.true("outgoing cosines are the streams", x.shape == mus.shape and bool(np.all(np.abs(x - mus) < 1e-12)), x=x)
                allowed = np.concatenate([mus, [base["mu0"]] if beam else []])
                mon.true("incoming cosines are streams or the beam", bool(np.all(np.min(np.abs(y[:, None] - allowed[None, :]), axis=1) < 1e-12)), y=y)

    beam = base["I0"] > 0
    if use in ("direct", "nested"):
        if use == "nested":
            inner = strip(gen.gen(np.random.default_rng(int(rng.integers(2 ** 31))), layers=[1, 2, 12], nquads=[base["NQuad"], 4], bdrf=False, nt=False))
            reads = {}

            def hook():
                if len(reads) < 3:
                    o = env.pydisort(**gen.kwargs(inner))
                    reads[len(reads)] = np.concatenate([np.ravel(o[1](inner["tau"][-1] / 3)), np.ravel(o[3](inner["tau"][-1] / 3))])
            for r in recs:
                if isinstance(r, Recorder):
                    r.hook = hook
        out = call(pub)
        protocol(log, NF, beam)
        compare(out, "recorded functions" + (" solving inside" if use == "nested" else ""))
        if use == "nested" and reads:
            alone = env.pydisort(**gen.kwargs(inner))
            want = np.concatenate([np.ravel(alone[1](inner["tau"][-1] / 3)), np.ravel(alone[3](inner["tau"][-1] / 3))])
            for v in reads.values():
                mon.close("solves inside user functions", v, want, 1e-10, scale=np.max(np.abs(want)))
            mon.event("nested solves", len(reads))
    elif use in ("cached", "cached with beam"):
        with_beam = use == "cached with beam" and beam
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cached = obs.SUB.cache_BDRF_Fourier_modes(N, pub, *([base["mu0"]] if with_beam else []))
        protocol(log, len(pub), with_beam)
        n = len(log)
        for r in recs:                            # what the functions returned is theirs to reuse
            if isinstance(r, Recorder):
                for tb in r.tables:
                    tb[:] = np.nan
        for b in buffers.values():
            b[:] = np.nan
        for k in range(2):
            compare(call(cached), "cached functions")
            for m, x, y, _, _ in log[n:]:
                mon.true("cached functions are not evaluated again", not with_beam and len(y) == 1, mode=m, y=y)
            protocol(log[n:], NF, beam)
            n = len(log)
        mon.event("caches")
    elif use == "fault":
        k = int(rng.integers(0, 3))
        count = [0]
        fault = FAULTS[int(rng.integers(0, len(FAULTS)))]("inside")
        cached = rng.random() < 0.3

        def hook():
            count[0] += 1
            if count[0] == k + 1:
                raise fault
        for r in recs:
            if isinstance(r, Recorder):
                r.hook = hook
        raised = None
        try:
            if cached:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    obs.SUB.cache_BDRF_Fourier_modes(N, pub, base["mu0"] if beam else 0)
            else:
                call(pub)
        except BaseException as e:
            raised = e
            if raised is not fault and (count[0] <= k or not isinstance(e, Exception)):
                raise
        if count[0] > k:
            mon.true("faults of user functions reach the caller", raised is fault, got=repr(raised), fault=repr(fault))
            mon.true("no further calls after a fault", count[0] == k + 1, calls=count[0])
            mon.event("faults")
            mon.event("faults in the caching helper", int(cached))
            mon.event(type(fault).__name__)
        # afterwards everything works
        for r in recs:
            if isinstance(r, Recorder):
                r.hook = None
        compare(call(pub), "functions that failed before")
    else:
        spec = base["bdrf"][0]
        e = obs.SUB.generate_emissivity_from_BDRF(N, pub[0])
        x, w = ref.nodes(N)
        want = 1 - 2 * gen.bdrf_eval(spec, x, x) @ (x * w)
        mon.check("emissivity from a recorded function", np.broadcast_to(np.asarray(e, float), (N,)) - want, 1e-12 * (1 + np.max(np.abs(want))))
        protocol(log, 1, False)
        compare(call(pub), "recorded functions")


def wrap(case, mon, out):
    s = obs.Sol.__new__(obs.Sol)
    s.case, s.mon, s.p, s.out, s.NQ, s._act = case, mon, ref.Problem(case), out, case["NQuad"], None
    s.only_flux = len(out) == 4
    s._way = np.random.default_rng(int(1e6 * case["tau"][-1]) % 2 ** 31)
    s.mu, s.Fp, s.Fm, s.u0f = out[:4]
    s.uf = None if s.only_flux else out[4]
    mon.event("solves")
    return s
