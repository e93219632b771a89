"""C37: memory needed grows at most proportionally to the size of the problem."""
import gc
import tracemalloc
import numpy as np
from .. import env, gen, ref, obs

CASES = dict(quick=96, thorough=3000)
RULE = ("random block of layers repeated to L, 2L and 4L layers (L = 40..60, above the banded threshold), or a random problem read at n, 2n and 4n depths or azimuths: traced peak "
        "memory of the solve and of every output function, and memory retained by the solution; each doubling of the size may at most double them (limit 3; "
        "quadratic growth: 4); non-trivial = measured; distinct = signature")
KINDS = ["layers", "depths", "layers", "depths", "azimuths", "layers", "depths", "depths"]


def signature(c):
    return "%s %s" % (c["grow"], gen.features(c["base"]))


def make(rng, index, tier):
    grow = KINDS[index % len(KINDS)]
    for _ in range(200):
        c = gen.gen(rng, layers=[2, 3, 4] if grow == "layers" else [1, 2, 3, 5, 12], nquads=[4, 6, 8], thick="normal", deg=int(rng.integers(0, 3)), hi=0.95)
        c.update(cache=0, autograd=bool(rng.random() < 0.15))
        if grow == "layers" and c["s"] is not None:
            c["s"] = [[a[0]] for a in c["s"]]
        if c["banded"] > 10:
            c["banded"] = 10
        if gen.ims_ok(c):
            return dict(grow=grow, base=c, n=int(rng.integers(40, 61)), depths=int(rng.integers(5, 9)))
    raise RuntimeError("no case found")


def repeated(c, n):
    k = len(c["tau"])
    w = np.arange(n) % k
    t = np.diff(np.concatenate([[0.0], c["tau"]]))[w]
    pick = lambda a: None if a is None else [a[i] for i in w]
    return dict(c, tau=np.cumsum(0.1 * t).tolist(), omega=pick(c["omega"]), Leg=pick(c["Leg"]), f=pick(c["f"]), s=pick(c["s"]))


def traced(f):
    """-> (result, peak above the start, retained)"""
    gc.collect()
    tracemalloc.start()
    try:
        a = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        r = f()
        b, peak = tracemalloc.get_traced_memory()
        gc.collect()
        b = tracemalloc.get_traced_memory()[0]
    finally:
        tracemalloc.stop()
    return r, peak - a, b - a


def readers(out, N):
    Fp, Fm, u0 = out[1:4]
    up, down = obs.SUB.generate_diff_act_flux_funcs(u0)
    i0 = obs.SUB.interpolate(u0)
    r = dict(Fp=lambda t, f: Fp(t), Fm=lambda t, f: Fm(t), u0=lambda t, f: u0(t), act_up=lambda t, f: up(t), act_down=lambda t, f: down(t),
             interpolated_u0=lambda t, f: i0([0.3, -0.4], t))
    if len(out) > 4:
        u = out[4]
        iu = obs.SUB.interpolate(u)
        r.update(u=lambda t, f: u(t, f), u_integrated=lambda t, f: u(t, f, True), Fp_integrated=lambda t, f: Fp(t, True),
                 u_error=lambda t, f: u(t, f, return_Fourier_error=True), interpolated_u=lambda t, f: iu([0.3, -0.4], t, f))
    return r


def grows(mon, what, p, slack):
    """Three sizes: 1, 2, 4. Whatever needs memory a + b size at its largest moment at most doubles with the size."""
    for x, y in zip(p[:-1], p[1:]):
        mon.check("memory of %s at most doubles with the size" % what, max(y, 0), 3 * max(x, 0) + slack, bytes=[int(v) for v in p])
    mon.event("measured: " + what)


def run(case, mon, rng):
    c, n = case["base"], case["n"]
    N = c["NQuad"] // 2
    solve = lambda q: env.pydisort(**gen.kwargs(q))
    solve(c)                                            # imports and caches
    if case["grow"] == "layers":
        peak, kept, read = [], [], {}
        for L in (n, 2 * n, 4 * n):
            q = repeated(c, L)
            k = gen.kwargs(q)
            out, p, r = traced(lambda: env.pydisort(**k))
            peak.append(p)
            kept.append(r)
            t = np.linspace(0, q["tau"][-1], case["depths"])
            phi = np.array([0.3, 1.0])
            fns = readers(out, N)
            for name, fn in fns.items():
                fn(t, phi)
                read.setdefault(name, []).append(traced(lambda: fn(t, phi))[1])
        grows(mon, "solving with more layers", peak, 60e3)
        grows(mon, "solutions with more layers", kept, 60e3)
        for name, p in read.items():
            grows(mon, "reading %s with more layers" % name, p, 40e3)
        mon.event("layers solved", 7 * n)
        return
    out = solve(c)
    fns = readers(out, N)
    m = 16 * n
    for name, fn in fns.items():
        if case["grow"] == "azimuths" and not (name.startswith("u") and name != "u0" or name == "interpolated_u"):
            continue
        p = []
        for k in (m, 2 * m, 4 * m):
            if case["grow"] == "depths":
                t, phi = np.linspace(0, c["tau"][-1], k), np.array([0.3, 1.0])
            else:
                t, phi = np.linspace(0, c["tau"][-1], 5), np.linspace(0, 6, k)
            if not p:
                fn(t, phi)
            p.append(traced(lambda: fn(t, phi))[1])
        grows(mon, "reading %s at more %s" % (name, case["grow"]), p, 20e3)
