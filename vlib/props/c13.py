"""C13: pointwise evaluation, shapes and flags."""
import numpy as np
from .. import gen, ref, obs

CASES = dict(quick=2000, thorough=80000)
RULE = ("random valid problem (NT on/off, with/without beam and internal source, flux-only too); each output function is evaluated on a random "
        "multiset of depths (unsorted, repeated, 1-150 entries, some or all layers) and azimuths, then entry by entry, with every flag combination, "
        "with strided, read-only and integer arguments, and raw shapes are compared with the documented axes; non-trivial = all functions compared; distinct = signature")


def make(rng, index, tier):
    return gen.gen(rng, only_flux=bool(rng.random() < 0.2))


def shp(*axes):
    return tuple(a for a in axes if a != 1)


def run(case, mon, rng):
    s = obs.Sol(case, mon)
    p = s.p
    NQ = case["NQuad"]
    S = obs.src_scale(case)
    n = int(rng.choice([1, 2, 3, 5, 8, 12, 40, 150], p=[.16, .16, .16, .16, .16, .16, .03, .01]))
    L = len(case["tau"])
    z = rng.random()
    if z < 0.1:
        n = min(int(rng.choice([L, NQ, case["NFourier"], NQ // 2])), 40)    # as long as some other axis
    t = obs.depths(rng, case, n, edges=False)
    k = rng.random()
    if k < 0.4:
        t = rng.choice(np.concatenate([t, [0.0, p.tau[-1]], p.tau]), n)
    elif k < 0.44 and L <= 40:                                              # exactly the layer boundaries, or one end
        t = p.tau.copy() if rng.random() < 0.6 else p.tau0.copy() if rng.random() < 0.7 else np.full(n, rng.choice([0.0, p.tau[-1]]))
        n = len(t)
    k = rng.random()
    t = np.sort(t) if k < 0.2 else np.sort(t)[::-1].copy() if k < 0.4 else t if k < 0.5 else t[rng.permutation(n)]
    nphi = int(rng.choice([1, 2, 4, 33], p=[.32, .33, .32, .03]))
    if rng.random() < 0.025:                                                # long arrays of depths or azimuths, as far as memory allows
        size = int(rng.choice([257, 300, 520, 800, 1030, 2100, 5000]))
        cost = case["NFourier"] * NQ
        if rng.random() < 0.5:
            n = min(size, int(4e6 / (cost * NQ)))
            t = rng.uniform(0, 1, n) ** 2 * p.tau[-1] if rng.random() < 0.7 else np.linspace(0, p.tau[-1], n)
        else:
            nphi = min(size, int(4e6 / (cost * n)))
        mon.event("long arrays")
    if rng.random() < 0.15:
        nphi = min(n, 20)
    phi = rng.uniform(0, 7, nphi) if rng.random() < 0.7 else rng.choice([0.0, np.pi, case["phi0"], 2 * np.pi, -1.0, 9.0, rng.uniform(0, 7)], nphi)
    tau = np.array(case["tau"])
    fup, fdn = obs.SUB.generate_diff_act_flux_funcs(s.u0f)
    funcs = [("Fp", s.Fp, (n,), ()), ("Fm", s.Fm, (n,), ()), ("u0", s.u0f, (NQ, n), ()), ("act_up", fup, (n,), ()), ("act_down", fdn, (n,), ())]
    if s.uf is not None:
        funcs.append(("u", s.uf, (NQ, n, nphi), (phi,)))
    for name, f, full, extra in funcs:
        for anti in (False, True):
            k = dict(is_antiderivative_wrt_tau=True) if anti else {}
            r = f(t, *extra, **k)
            rs = r if name == "Fm" else (r,)
            mon.event("array evaluations")
            for i, x in enumerate(rs):
                mon.true("shape of " + name, np.shape(x) == shp(*full), got=list(np.shape(x)), want=list(shp(*full)), which=i)
            if any(np.shape(x) != shp(*full) for x in rs):
                continue
            scale = [max(np.max(np.abs(x)), S * (1 + tau[-1] * anti)) for x in rs]
            arr = [np.asarray(x, float).reshape(full) for x in rs]
            # entry by entry
            for j in (range(n) if n <= 3 else rng.permutation(n)[:3]):
                v = f(float(t[j]) if rng.random() < 0.5 else t[j:j + 1], *extra, **k)
                v = v if name == "Fm" else (v,)
                for i in range(len(arr)):
                    want = np.take(arr[i], j, axis=(1 if len(full) > 1 else 0))
                    sh = tuple(full[:1] if len(full) > 1 else ()) + tuple(full[2:])
                    mon.true("single-depth shape of " + name, np.shape(v[i]) == shp(*sh), got=list(np.shape(v[i])), want=list(shp(*sh)))
                    mon.check("pointwise in depth " + name, np.asarray(v[i], float).reshape(want.shape) - want, 1e-11 * scale[i], depth=t[j], anti=anti)
            if name == "u":
                j = int(rng.integers(0, nphi))
                v = np.asarray(f(t, float(phi[j]), **k), float)
                mon.true("single-azimuth shape of u", v.shape == shp(NQ, n))
                mon.check("pointwise in azimuth", v.reshape(NQ, n) - arr[0][:, :, j], 1e-11 * scale[0], anti=anti)
            # permutation and repetition
            perm = rng.integers(0, n, n + 2)
            v = f(t[perm], *extra, **k)
            v = v if name == "Fm" else (v,)
            for i in range(len(arr)):
                want = np.take(arr[i], perm, axis=(1 if len(full) > 1 else 0))
                mon.check("reordering and repeats " + name, np.asarray(v[i], float).reshape(want.shape) - want, 1e-11 * scale[i], anti=anti)
            # other ways of writing the same depths and azimuths
            way = ["strided", "read-only", "integer", "integer", "single precision"][int(rng.integers(0, 5))]
            q, e, want = t, extra, arr
            if way == "strided":
                q = np.repeat(t, 3)[::3]
                e = tuple(np.repeat(x, 2)[::2] for x in extra)
            elif way == "read-only":
                q, e = t.copy(), tuple(x.copy() for x in extra)
                for x in (q,) + e:
                    x.flags.writeable = False
            else:
                if way == "integer":
                    q = gen.short(rng, rng.integers(0, int(tau[-1]) + 1, n))
                    e = tuple(gen.short(rng, np.round(x)) for x in extra)
                else:
                    q = t.astype("f4")
                    q = np.where(q > tau[-1], np.nextafter(q, np.float32(0)), q)
                    e = tuple(x.astype("f4") for x in extra)
                v = f(q.astype(float), *[x.astype(float) for x in e], **k)
                want = [np.asarray(x, float).reshape(full) for x in (v if name == "Fm" else (v,))]
                if n == 1 and rng.random() < 0.5:
                    q = q[0] if rng.random() < 0.5 or way != "integer" else int(q[0])
            v = f(q, *e, **k)
            v = v if name == "Fm" else (v,)
            for i in range(len(arr)):
                mon.true("shape of " + name, np.shape(v[i]) == shp(*full), got=list(np.shape(v[i])), want=list(shp(*full)), way=way)
                mon.check("%s arguments %s" % (way, name), np.asarray(v[i], float).reshape(full) - want[i], 1e-11 * max(np.max(np.abs(want[i]), initial=0), scale[i]), anti=anti)
            # positional flag
            v = f(t, *extra, anti)
            v = v if name == "Fm" else (v,)
            for i in range(len(arr)):
                mon.check("positional flag " + name, np.asarray(v[i], float).reshape(full) - arr[i], 1e-12 * scale[i])
            # no depths or no azimuths at all
            if rng.random() < 0.15:
                none = np.array([])
                sizes = [(0, nphi), (n, 0), (0, 0)] if name == "u" else [(0,)]
                for z in sizes:
                    e = tuple((none if k == 0 else x) for k, x in zip(z[1:], extra))
                    v = f(none if z[0] == 0 else t, *e, **k)
                    for x in (v if name == "Fm" else (v,)):
                        mon.true("shape of nothing " + name, np.shape(x) == shp(*full[:-len(z)], *z), got=list(np.shape(x)), depths=z[0])
                mon.event("empty arrays")
            # flags
            flags = [dict(return_tau_arr=True)]
            if name == "u":
                flags += [dict(return_Fourier_error=True), dict(return_Fourier_error=True, return_tau_arr=True)]
            for fl in flags:
                o = f(t, *extra, **k, **fl)
                nvals = len(arr)
                mon.true("number of outputs with flags " + name, isinstance(o, tuple) and len(o) == nvals + len(fl), flags=str(fl))
                if not isinstance(o, tuple) or len(o) != nvals + len(fl):
                    continue
                for i in range(nvals):
                    mon.true("shape with flags " + name, np.shape(o[i]) == np.shape(rs[i]))
                    mon.check("values with flags " + name, np.asarray(o[i], float).ravel() - np.asarray(rs[i], float).ravel(), 1e-12 * scale[i], flags=str(fl))
                if "return_tau_arr" in fl:
                    mon.true("layer boundaries returned last " + name, np.shape(o[-1]) == tau.shape and bool(np.all(np.asarray(o[-1]) == tau)))
                if "return_Fourier_error" in fl:
                    mon.true("Fourier error is a scalar", np.ndim(o[nvals]) == 0 and bool(np.isfinite(o[nvals])) and float(o[nvals]) >= 0)
                mon.event("flag combinations")
