"""C05: energy budget monitor."""
import numpy as np
from math import pi
from .. import gen, ref, obs

CASES = dict(quick=5000, thorough=200000)
RULE = ("random valid problem; for random sub-intervals of random layers and for the whole atmosphere the change in net flux is compared "
        "with the integral of absorption minus emission built from the actinic fluxes (graded 20-point Gauss panels); non-trivial = "
        "at least one budget decided; distinct = signature")


def make(rng, index, tier):
    return gen.gen(rng, nt=False, only_flux=bool(rng.random() < 0.5), hi=0.999999 if rng.random() < 0.2 and index % 2 else None)


def net(s, t):
    d, b = s.down(t)
    return s.up(t) - d - b


def run(case, mon, rng):
    s = obs.Sol(case, mon)
    p = s.p
    S = obs.src_scale(case)
    spans = []
    for _ in range(4):
        l = int(rng.integers(0, p.L))
        lo, hi = p.tau0[l], p.tau[l]
        T = hi - lo
        a, b = np.sort(rng.random(2))
        spans.append((l, max(lo + a * T, lo + 1e-9 * T), lo + b * T))
    tot = 0.0
    mx = 0.0
    whole = p.L <= 4
    if whole:
        spans += [(l, np.nextafter(p.tau0[l], np.inf) if l else 0.0, p.tau[l]) for l in range(p.L)]
    for i, (l, a, b) in enumerate(spans):
        if not b > a:
            continue
        e = obs.graded(a, b, p.tau0[l], p.tau[l], p.mu[0] / p.sc[l])
        tq, wq = obs.quad_points(e)
        act = s.act_up(tq) + s.act_down(tq)
        if case["I0"] > 0:
            act = act + case["I0"] * np.exp(-tq / p.mu0)
        q = (1 - p.omega[l]) * (act - 4 * pi * p.source(tq, l))
        rhs = q @ wq
        # dF/dtau of (up - down) = +(absorption - emission): upward flux grows with depth where energy is absorbed on the way up
        n = net(s, np.array([a, b]))
        scale = max(np.max(np.abs(act)), 4 * pi * np.max(np.abs(p.source(tq, l))))
        H = b - a
        tol = 2e-7 * scale * min(H, 3.0) * (1 - p.omega[l]) + 3e-9 * scale + 1e-10 * S
        mon.check("net flux change equals absorption minus emission", n[1] - n[0] - rhs, tol, layer=l, a=a, b=b)
        mon.event("intervals")
        if i >= len(spans) - p.L and whole:
            tot += rhs
            mx = max(mx, scale)
    if whole:
        n = net(s, np.array([0.0, p.tau[-1]]))
        mon.check("global budget", n[1] - n[0] - tot, 2e-7 * mx + 1e-10 * S)
        mon.event("whole-atmosphere budgets")
