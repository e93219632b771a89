"""C34: a beam along a stream is a boundary source in that stream."""
import numpy as np
from math import pi
from .. import gen, ref, obs

CASES = dict(quick=4500, thorough=180000)
RULE = ("random problem without NT corrections whose beam travels along a random stream: solved as it is and with the beam replaced by incident radiation "
        "in that stream (all Fourier modes), all other sources kept; and an incident field replaced by one beam per stream; every output and its depth integral; "
        "non-trivial = compared; distinct = signature")


def make(rng, index, tier):
    for _ in range(300):
        c = gen.gen(rng, beam=True, nt=False, nquads=[2, 2, 4, 4, 6, 8, 8, 12, 16, 24, 32] if index % 4 else [2, 4, 6, 8], only_flux=bool(rng.random() < 0.08))
        N = c["NQuad"] // 2
        j = int(rng.integers(0, N))
        c["mu0"] = float(ref.nodes(N)[0][j])
        c["stream"] = j
        c["all"] = index % 4 == 0
        if c["all"]:
            c["incident"] = (rng.uniform(0.1, 2, N) * (rng.random(N) < 0.8)).tolist()
        mus = ref.nodes(N)[0] if c["all"] else [c["mu0"]]
        Leg = np.array(c["Leg"])[:, :c["NLeg"]]
        nf = 1 if c["only_flux"] or c["all"] else c["NFourier"]
        if all(ref.well_posed(c["tau"], c["omega"], Leg, c["f"], c["NQuad"], nf, m) for m in mus):
            return c
    raise RuntimeError("no case found")


def matrix(b, N, NF):
    b = np.asarray(b, float)
    if b.ndim == 2:
        return b.copy()
    m = np.zeros((N, NF))
    m[:, 0] = b
    return m


def strip(c):
    return {k: v for k, v in c.items() if k not in ("stream", "all", "incident")}


def run(case, mon, rng):
    base = strip(case)
    if case["all"]:
        return sum_of_beams(case, base, mon, rng)
    p = ref.Problem(base)
    N, NF, j = p.N, p.NF, case["stream"]
    w = p.w[j]
    d = (2 - (np.arange(NF) == 0)) / (2 * pi)                 # Fourier modes of the beam's azimuth
    inc = matrix(base["b_neg"], N, NF)
    inc[j] += base["I0"] / w * d
    other = dict(base, I0=0.0, b_neg=inc.tolist())
    if NF == 1 and rng.random() < 0.5:
        other["b_neg"] = inc[:, 0].tolist()
    if rng.random() < 0.3:
        other["mu0"] = float(rng.choice([0.0, 0.3, -2.0]))      # no beam: its direction is irrelevant
    A, B = obs.Sol(base, mon), obs.Sol(other, mon)
    t = obs.depths(rng, base, 6)
    phi = obs.azimuths(rng, base, 3)
    S = max(obs.src_scale(base), base["I0"] / w / 2 / pi)
    for anti in (False, True):
        a, b = A.fields(t, phi, anti=anti), B.fields(t, phi, anti=anti)
        # the beam's own radiation in the stream, with and without scaling
        l = p.layer(t)
        mu0 = base["mu0"]
        e, raw = p.beam(t, l), np.exp(-t / mu0)
        if anti:
            e, raw = -mu0 / p.sc[l] * e, -mu0 * raw
        add0 = np.zeros((2 * N, len(t)))
        add0[N + j] = base["I0"] / w / (2 * pi) * e
        want = dict(u0=a["u0"] + add0, Fp=a["Fp"], Fm=a["Fm"] + a["Fdir"], act_up=a["act_up"],
                    act_down=a["act_down"] + base["I0"] * raw)
        if "u" in a:
            az = d @ np.cos(np.arange(NF)[:, None] * (base["phi0"] - phi)[None, :])
            add = np.zeros((2 * N, len(t), len(phi)))
            add[N + j] = base["I0"] / w * e[:, None] * az[None, :]
            want["u"] = a["u"] + add
            mon.check("no separate beam", b["Fdir"], 1e-300)
        k = np.argsort(t, kind="stable")
        for q, x in want.items():
            y = b[q]
            if anti:                                            # antiderivatives: differences within layers
                ax = 0 if x.ndim == 1 else 1
                same = np.nonzero(np.diff(l[k]) == 0)[0]
                x, y = (np.take(np.diff(np.take(v, k, axis=ax), axis=ax), same, axis=ax) for v in (x, y))
                mon.event("depth integrals", len(same))
            sc = max(np.max(np.abs(x), initial=0), np.max(np.abs(y), initial=0), S * (base["tau"][-1] if anti else 1))
            if anti:                                            # (rounding of the antiderivatives themselves)
                sc += 3e-4 * (np.max(np.abs(a[q])) + np.max(np.abs(b[q])))
            mon.close("beam along a stream equals incident radiation in it (%s%s)" % (q, " integrated" if anti else ""), x, y, 1e-8, scale=sc)
    mon.event("beams replaced" + (" (scaled)" if base["f"] is not None else ""))


def sum_of_beams(case, base, mon, rng):
    """Incident azimuthally uniform radiation equals one beam along each stream, in all azimuthal averages."""
    N = base["NQuad"] // 2
    mu, w = ref.nodes(N)
    inc = np.array(case["incident"]) * (base["I0"] if base["I0"] > 0 else 1.0)
    if not np.any(inc):
        inc[0] = base["I0"]
    # the other sources go with the incident field; the beams have none, so that the atmosphere is the only common part
    dark = dict(base, I0=0.0, b_pos=0, s=None, b_neg=inc.tolist())
    B = obs.Sol(dark, mon)
    p = ref.Problem(base)
    t = obs.depths(rng, base, 5)
    b = B.fields(t, None, u=False)
    tot = {q: np.zeros_like(v) for q, v in b.items()}
    S = float(np.max(np.abs(inc)))
    for j in range(N):
        if inc[j] == 0:
            continue
        I0 = 2 * pi * w[j] * inc[j]
        A = obs.Sol(dict(base, I0=float(I0), mu0=float(mu[j]), b_pos=0, b_neg=0, s=None), mon)
        a = A.fields(t, None, u=False)
        e = np.exp(-p.tstar(t) / mu[j])
        tot["u0"] += a["u0"]
        tot["u0"][N + j] += inc[j] * e
        tot["Fp"] += a["Fp"]
        tot["Fm"] += a["Fm"] + a["Fdir"]
        tot["act_up"] += a["act_up"]
        tot["act_down"] += a["act_down"] + I0 * np.exp(-t / mu[j])
    for q in ("u0", "Fp", "Fm", "act_up", "act_down"):
        mon.close("incident radiation equals one beam per stream (%s)" % q, tot[q], b[q], 1e-8, scale=max(np.max(np.abs(b[q])), S))
    mon.event("incident fields of %d streams replaced by beams" % N)
