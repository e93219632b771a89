"""C17: interpolation in the polar cosine."""
import numpy as np
from .. import gen, ref, obs

CASES = dict(quick=2200, thorough=88000)
RULE = ("random problem; interpolated u and u0 evaluated at random cosines (unsorted, both hemispheres, 0, +-1, stream cosines, one element to 40, integers) and compared with "
        "an independent Lagrange evaluation of the stream values, for every flag combination, including positional flags and size-one axes; "
        "non-trivial = compared; distinct = signature")


def make(rng, index, tier):
    return gen.gen(rng, nquads=[2, 4, 6, 8, 12, 16, 24, 32], only_flux=bool(rng.random() < 0.1))


def lagrange(mu, p, vals):
    """vals: (NQuad, ...) -> (len(mu), ...) and its conditioning."""
    out = np.zeros((len(mu),) + vals.shape[1:])
    for i, x in enumerate(mu):
        nodes_, v = (p.mu, vals[:p.N]) if x > 0 else (-p.mu, vals[p.N:])
        for j in range(p.N):
            o = np.delete(nodes_, j)
            out[i] += np.prod((x - o) / (nodes_[j] - o)) * v[j]
    return out


def lebesgue(mu, p):
    s = []
    for x in np.abs(mu):
        s.append(sum(abs(np.prod((x - np.delete(p.mu, j)) / (p.mu[j] - np.delete(p.mu, j)))) for j in range(p.N)))
    return np.array(s)


def run(case, mon, rng):
    s = obs.Sol(case, mon)
    p = s.p
    NQ = case["NQuad"]
    pool = np.concatenate([rng.uniform(-1, 1, 4), rng.uniform(-1, 1, 2) * p.mu[0], rng.choice([-1, 1], 2) * (1 - 10 ** rng.uniform(-9, -2, 2)), [0.0, 1.0, -1.0, 1e-6, -1e-6], rng.choice([-1, 1], 2) * 10 ** rng.uniform(-17, -5, 2), p.mu[:2], -p.mu[-2:]])
    n = int(rng.choice([1, 2, 3, 5, 9, 40, case["NQuad"], p.N]))
    if rng.random() < 0.02:
        n = int(rng.choice([257, 400, 1100, 3000]))
        pool = np.concatenate([pool, rng.uniform(-1, 1, n)])
    mu = rng.choice(pool, n)
    t = obs.depths(rng, case, int(rng.choice([1, 2, 3, 6])), edges=bool(rng.random() < 0.5))
    phi = rng.uniform(0, 6.28, int(rng.choice([1, 2, 4])))
    leb = lebesgue(mu, p)
    tau = np.array(case["tau"])
    S = obs.src_scale(case)
    shp = lambda *a: tuple(x for x in a if x != 1)
    jobs = [("u0", s.u0f, ())]
    if s.uf is not None:
        jobs.append(("u", s.uf, (phi,)))
    for name, f, extra in jobs:
        g = obs.SUB.interpolate(f)
        full = (n, len(t)) + ((len(phi),) if extra else ())
        for anti in (False, True):
            vals = np.asarray(f(t, *extra, is_antiderivative_wrt_tau=anti), float).reshape((NQ,) + full[1:])
            want = lagrange(mu, p, vals)
            M = max(np.max(np.abs(vals)), 1e-300)
            tol = (1e-10 * M * leb).reshape((n,) + (1,) * (len(full) - 1))
            k = dict(is_antiderivative_wrt_tau=anti)
            got = g(mu, t, *extra, **k)
            mon.true("shape of interpolated " + name, np.shape(got) == shp(*full), got=list(np.shape(got)), want=list(shp(*full)))
            if np.shape(got) != shp(*full):
                continue
            mon.event("interpolated points", np.size(got))
            mon.event("mixed-hemisphere arrays", int(np.any(mu > 0) and np.any(mu <= 0)))
            mon.check("interpolated %s is the hemispheric polynomial" % name, np.asarray(got).reshape(full) - want, tol, anti=anti)
            # positional flag and scalar cosine
            got1 = g(mu, t, *extra, anti)
            mon.check("positional flag", np.asarray(got1).reshape(full) - want, tol)
            j = int(rng.integers(0, n))
            one = g(float(mu[j]), t, *extra, **k)
            mon.true("shape for a scalar cosine", np.shape(one) == shp(*full[1:]))
            mon.check("scalar cosine agrees", np.asarray(one).reshape(full[1:]) - want[j], tol[j])
            ints = rng.integers(-1, 2, int(rng.integers(1, 4)))
            got2, want2 = g(ints, t, *extra, **k), lagrange(ints.astype(float), p, vals)
            mon.check("integer cosines", np.asarray(got2).reshape(want2.shape) - want2, 1e-10 * M * np.max(lebesgue(ints.astype(float), p)))
            # stream values reproduced
            idx = rng.permutation(NQ)
            mufull = np.asarray(s.mu)
            back = np.asarray(g(mufull[idx], t, *extra, **k)).reshape((NQ,) + full[1:])
            mon.check("stream values reproduced", back - vals[idx], 1e-10 * M)
            # flags
            flags = [dict(return_tau_arr=True)]
            if name == "u":
                flags += [dict(return_Fourier_error=True), dict(return_Fourier_error=True, return_tau_arr=True)]
            for fl in flags:
                o = g(mu, t, *extra, **k, **fl)
                o2 = f(t, *extra, **k, **fl)
                mon.event("flag combinations")
                mon.true("outputs with flags", isinstance(o, tuple) and len(o) == len(o2), flags=str(fl))
                if not isinstance(o, tuple) or len(o) != len(o2):
                    continue
                mon.true("shape with flags", np.shape(o[0]) == shp(*full), got=list(np.shape(o[0])), want=list(shp(*full)))
                if np.shape(o[0]) != shp(*full):
                    continue
                mon.check("values with flags", np.asarray(o[0]).reshape(full) - want, tol, flags=str(fl))
                for x, y in zip(o[1:], o2[1:]):
                    mon.true("extra outputs equal those of the uninterpolated function", np.shape(x) == np.shape(y) and bool(np.allclose(x, y, rtol=1e-12, atol=0)), flags=str(fl))
                if "return_tau_arr" in fl:
                    mon.true("layer boundaries last", np.shape(o[-1]) == tau.shape and bool(np.all(np.asarray(o[-1]) == tau)))
