"""C09: linearity and homogeneity in the sources."""
import numpy as np
from .. import gen, ref, obs

CASES = dict(quick=1300, thorough=52000)
RULE = ("random valid problem with several sources (also differences of sources, negative in part); solved with all sources, with each source alone (beam, top, bottom (whole or in two shares of either sign), internal split "
        "by layers) and with all sources times a factor 1e-12..1e12 (a share: 1e-90..1e90); all outputs and their antiderivatives compared; single-layer internal "
        "sources checked finite; non-trivial = superposition or scaling decided; distinct = signature")


def make(rng, index, tier):
    c = gen.gen(rng, iso=bool(rng.random() < 0.7))
    if rng.random() < 0.3:                    # differences of sources, as in finite differences and linearised problems
        for b in ("b_pos", "b_neg", "s"):
            if c[b] is not None and rng.random() < 0.6:
                v = np.asarray(c[b], float)
                v = v * (-1.0 if rng.random() < 0.4 else rng.choice([-1.0, 1.0], v.shape))
                c[b] = v.tolist() if isinstance(c[b], list) else float(v)
    return gen.low_beam(rng, c)


def scaled_sources(case, c):
    d = dict(case)
    d["I0"] = case["I0"] * c
    for b in ("b_pos", "b_neg"):
        d[b] = (np.asarray(case[b], float) * c).tolist() if isinstance(case[b], list) else case[b] * c
    if case["s"] is not None:
        d["s"] = (np.array(case["s"]) * c).tolist()
    return d


def parts(case, rng):
    zero = dict(case, I0=0.0, b_pos=0, b_neg=0, s=None)
    out = []
    if case["I0"] > 0:
        out.append(dict(zero, I0=case["I0"]))
    for b in ("b_pos", "b_neg"):
        if np.any(np.asarray(case[b]) != 0):
            if rng.random() < 0.4:            # split value by value, either share possibly negative
                v = np.asarray(case[b], float)
                r = rng.uniform(-1, 2, v.shape)
                for w in (v * r, v - v * r):
                    out.append(dict(zero, **{b: w.tolist() if isinstance(case[b], list) else float(w)}))
            else:
                out.append(dict(zero, **{b: case[b]}))
    if case["s"] is not None:
        s = np.array(case["s"])
        L = len(s)
        mask = rng.random(L) < 0.5
        if L > 2 and rng.random() < 0.4:      # one interior layer alone
            mask = np.arange(L) == rng.integers(1, L - 1)
        for m in (mask, ~mask):
            if np.any(s[m] != 0):
                out.append(dict(zero, s=(s * m[:, None]).tolist()))
    return out


def run(case, mon, rng):
    t = obs.depths(rng, case, 5)
    phi = obs.azimuths(rng, case, 2)
    full = obs.Sol(case, mon)
    p = full.p
    F, Fa = full.fields(t, phi), full.fields(t, phi, anti=True)
    ps = parts(case, rng)
    S = obs.src_scale(case)
    K = 1 + p.tau[-1]
    A0 = {k: np.max(np.abs(v)) for k, v in Fa.items()}
    tot, tota = None, None
    mags = dict(A0)
    for c in ps:
        s = obs.Sol(c, mon)
        G, Ga = s.fields(t, phi), s.fields(t, phi, anti=True)
        for k in G:
            mon.true("finite output for a single source (%s)" % k, bool(np.all(np.isfinite(G[k])) and np.all(np.isfinite(Ga[k]))))
        for k in Ga:
            mags[k] = max(mags[k], np.max(np.abs(Ga[k]), initial=0))
        tot = G if tot is None else {k: tot[k] + G[k] for k in G}
        tota = Ga if tota is None else {k: tota[k] + Ga[k] for k in Ga}
    mon.event("sources superposed", len(ps))
    for k in F:
        mon.check("superposition " + k, tot[k] - F[k], 1e-8 * np.max(np.abs(F[k])) + 1e-8 * S, field=k)
        mon.check("superposition of antiderivatives " + k, tota[k] - Fa[k], 1e-9 * mags[k] + 1e-8 * S * K, field=k)
    c = float(10 ** rng.uniform(-12, 12))
    if rng.random() < 0.2:                    # any unit may be chosen
        c = float(10 ** rng.uniform(-90, 90))
    s = obs.Sol(scaled_sources(case, c), mon)
    G, Ga = s.fields(t, phi), s.fields(t, phi, anti=True)
    mon.event("scalings")
    for k in F:
        mon.check("homogeneity " + k, G[k] / c - F[k], 1e-9 * np.max(np.abs(F[k])) + 1e-9 * S, factor=c)
        mon.check("homogeneity of antiderivatives " + k, Ga[k] / c - Fa[k], 1e-10 * mags[k] + 1e-9 * S * K, factor=c)
