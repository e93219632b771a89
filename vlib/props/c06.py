"""C06: antiderivatives."""
import numpy as np
from .. import gen, ref, obs

CASES = dict(quick=2600, thorough=104000)
RULE = ("random valid problem (NT on/off, with/without beam and internal source, 1-13 layers); 1-4 depth intervals inside layers are "
        "integrated by graded 20-point Gauss panels and compared with differences of the antiderivative of every output function, all "
        "depths passed in one shuffled array and, in part, one by one; non-trivial = at least one interval decided; distinct = signature")
ASSUMPTIONS = ["NT cases in which a stream cosine nearly coincides with the IMS effective beam cosine (removable singularity) are not generated"]


def make(rng, index, tier):
    for _ in range(50):
        c = gen.gen(rng, hi=0.9999)
        if gen.ims_ok(c):
            return c
    return gen.gen(rng, nt=False)


def run(case, mon, rng):
    s = obs.Sol(case, mon)
    p = s.p
    phi = obs.azimuths(rng, case, 2)
    k = int(rng.integers(1, 5))
    spans = []
    for _ in range(k):
        l = int(rng.integers(0, p.L))
        lo, hi = p.tau0[l], p.tau[l]
        x = np.sort(rng.choice([0.0, 1.0, rng.random(), rng.random(), rng.random()], 2, replace=False))
        a = lo + x[0] * (hi - lo)
        if x[0] == 0 and l > 0:
            a = np.nextafter(lo, np.inf)
        b = hi if x[1] == 1 else lo + x[1] * (hi - lo)
        if b > a:
            spans.append((l, a, b))
    if not spans:
        return
    ends = np.array([t for sp in spans for t in sp[1:]])
    perm = rng.permutation(len(ends))
    anti = s.fields(ends[perm], phi, anti=True)
    inv = np.argsort(perm)
    anti = {n: np.take(v, inv, axis=(1 if v.ndim > 1 else 0)) for n, v in anti.items()}
    mus = np.concatenate([rng.uniform(-1, 1, 2), [p.mu[0]]])
    do_int = rng.random() < 0.3
    if do_int:
        iu, iu0 = obs.SUB.interpolate(s.uf), obs.SUB.interpolate(s.u0f)
        anti["interp u"] = np.asarray(iu(mus, ends, phi, is_antiderivative_wrt_tau=True)).reshape(len(mus), len(ends), len(phi))
        anti["interp u0"] = np.asarray(iu0(mus, ends, is_antiderivative_wrt_tau=True)).reshape(len(mus), len(ends))
    S = obs.src_scale(case)
    for i, (l, a, b) in enumerate(spans):
        mon.event("intervals")
        mon.event("intervals, %s layers" % ("1" if p.L == 1 else "several"))
        tq, wq = obs.quad_points(obs.graded(a, b, p.tau0[l], p.tau[l], p.mu[0] / p.sc[l]))
        f = s.fields(tq, phi)
        if do_int:
            f["interp u"] = np.asarray(iu(mus, tq, phi)).reshape(len(mus), len(tq), len(phi))
            f["interp u0"] = np.asarray(iu0(mus, tq)).reshape(len(mus), len(tq))
        single = None
        if rng.random() < 0.3:
            single = [s.fields(np.array([t]), phi, anti=True) for t in (a, b)]
        for n, v in f.items():
            ax = 1 if v.ndim > 1 else 0
            want = np.tensordot(np.moveaxis(v, ax, -1), wq, axes=(-1, 0))
            A = np.moveaxis(anti[n], ax, 0)
            got = A[2 * i + 1] - A[2 * i]
            M = max(np.max(np.abs(v)), np.max(np.abs(f["u0"]))) * (b - a)
            tol = 3e-8 * M + 1e-12 * (np.max(np.abs(A[2 * i])) + np.max(np.abs(A[2 * i + 1]))) + 1e-11 * S * (1 + p.tau[-1])
            if n.startswith("interp"):
                tol = 100 * tol
            mon.check("antiderivative of " + n + (" (NT)" if n == "u" and gen.nt_active(case) else ""), got - want, tol, layer=l, a=a, b=b)
            if single is not None and n in single[0]:
                g1 = np.moveaxis(single[1][n], ax, 0)[0] - np.moveaxis(single[0][n], ax, 0)[0]
                mon.check("antiderivative (one depth at a time) of " + n, g1 - want, tol, layer=l, a=a, b=b)
