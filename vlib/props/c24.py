"""C24: automatic differentiation in autograd-compatible mode."""
import numpy as np
from .. import env, gen, ref, obs

CASES = dict(quick=2200, thorough=88000)
RULE = ("random problem solved in autograd-compatible mode (rarely hundreds of depths at once); reverse-mode derivatives (random functional of all outputs, and full Jacobians for single depths) of u (NT on/off), u0 "
        "and both fluxes at random interior depths compared with a 13-point spectral derivative of the plain functions; derivatives of antiderivatives compared with the "
        "functions; non-trivial = compared; distinct = signature")
ASSUMPTIONS = ["spectral differentiation on an interval of at most half the smallest stream cosine: oracle accuracy about 1e-8 of the local magnitude over the interval length"]
_n = 13
_x = np.cos(np.pi * np.arange(_n) / (_n - 1))


def _dmat():
    w = np.ones(_n)
    w[0] = w[-1] = 0.5
    w *= (-1.0) ** np.arange(_n)
    D = np.zeros((_n, _n))
    for i in range(_n):
        for j in range(_n):
            if i != j:
                D[i, j] = w[j] / w[i] / (_x[i] - _x[j])
    D[np.arange(_n), np.arange(_n)] = -D.sum(axis=1)
    return D


_D = _dmat()[(_n - 1) // 2]       # derivative at the centre
_D0 = _dmat()[0]                  # derivative at the end x = 1


def make(rng, index, tier):
    for _ in range(50):
        c = gen.gen(rng, layers=[1, 2, 3, 5, 11], nquads=[2, 4, 6, 8], only_flux=False)
        if gen.ims_ok(c):
            break
    else:
        c = gen.gen(rng, nt=False, layers=[1, 2], nquads=[4])
    c["autograd"] = True
    return c


def run(case, mon, rng):
    import autograd
    import autograd.numpy as anp
    ag = obs.Sol(case, mon)
    plain = obs.Sol(dict(case, autograd=False), mon)
    p = ag.p
    S = obs.src_scale(case)
    phi = obs.azimuths(rng, case, 2)
    nt = int(rng.choice([1, 2, 4])) if rng.random() > 0.02 else int(rng.integers(100, 400))
    ls = rng.integers(0, p.L, nt)
    ts, hs = [], []
    mumin = min(p.mu[0], case["mu0"] if case["I0"] > 0 else 1.0)
    for l in ls:
        lo, hi = p.tau0[l], p.tau[l]
        h = min((hi - lo) / 4, 0.5 * mumin)
        ts.append(lo + 1.01 * h + rng.random() * (hi - lo - 2.02 * h))
        hs.append(h)
    ts, hs = np.array(ts), np.array(hs)
    pts = (ts[:, None] + hs[:, None] * _x[None, :]).ravel()
    funcs = dict(u=(ag.uf, plain.uf, (phi,), (2 * p.N, nt, len(phi)), lambda r: r),
                 u0=(ag.u0f, plain.u0f, (), (2 * p.N, nt), lambda r: r),
                 Fp=(ag.Fp, plain.Fp, (), (nt,), lambda r: r),
                 Fm=(ag.Fm, plain.Fm, (), (nt,), lambda r: r[0]),
                 Fdir=(ag.Fm, plain.Fm, (), (nt,), lambda r: r[1]))
    for name, (fa, fp, extra, full, pick) in funcs.items():
        ax = 1 if len(full) > 1 else 0
        big = tuple(full[:ax]) + (nt, _n) + tuple(full[ax + 1:])
        v = np.asarray(pick(fp(pts, *extra)), float).reshape(big)
        v = np.moveaxis(v, ax + 1, -1)                   # full + (_n,)
        want = (v @ _D) / hs.reshape((1,) * ax + (nt,) + (1,) * (len(full) - ax - 1))
        M = max(np.max(np.abs(v)), S)
        tol = 1e-8 * M / hs
        W = rng.normal(size=full)
        if rng.random() < 0.7 or nt > 1:
            g = autograd.grad(lambda t: anp.sum(W * anp.reshape(pick(fa(t, *extra)), full)))(ts)
            ws = np.sum(W * want, axis=tuple(i for i in range(len(full)) if i != ax)) if len(full) > 1 else W * want
            n_ = W.size / nt
            mon.check("derivative of " + name + (" (NT)" if name == "u" and gen.nt_active(case) else ""), g - ws, tol * 4 * n_, depths=ts)
            mon.event("gradient evaluations")
        else:
            sh = tuple(x for x in full if x != 1)
            J = autograd.jacobian(lambda t: anp.reshape(pick(fa(t, *extra)), (-1,)))(float(ts[0]))
            mon.check("jacobian of " + name, np.asarray(J).ravel() - want.ravel(), tol[0])
            mon.event("jacobian evaluations")
        # at the very top and bottom, the derivative is that from within
        edge = float(rng.choice([0.0, p.tau[-1]]))
        l = 0 if edge == 0 else p.L - 1
        h = min((p.tau[l] - p.tau0[l]) / 2, 0.25 * mumin)
        sgn = 1 if edge == 0 else -1
        x = np.clip(edge + sgn * h * (1 - _x), 0, p.tau[-1])
        x[0] = edge
        q = tuple(full[:ax]) + (_n,) + tuple(full[ax + 1:])
        v = np.moveaxis(np.asarray(pick(fp(x, *extra)), float).reshape(q), ax, -1)
        one = tuple(full[:ax]) + tuple(full[ax + 1:])
        want = (v @ _D0).reshape(one) * (-sgn / h)
        J = autograd.jacobian(lambda t: anp.reshape(pick(fa(t, *extra)), (-1,)))(edge)
        mon.check("derivative at the edge of " + name, np.asarray(J).reshape(one) - want, 1e-7 * max(np.max(np.abs(v)), S) / h, depth=edge)
        mon.event("edge derivatives")
        # derivative of the antiderivative is the function
        cur = np.asarray(pick(fp(ts, *extra)), float).reshape(full)
        g = autograd.grad(lambda t: anp.sum(W * anp.reshape(pick(fa(t, *extra, True)), full)))(ts)
        ws = np.sum(W * cur, axis=tuple(i for i in range(len(full)) if i != ax)) if len(full) > 1 else W * cur
        mon.check("derivative of the antiderivative of " + name, g - ws, 1e-8 * M * 4 * W.size / nt, depths=ts)
        # values in autograd mode under tracing are the plain values
        mon.check("value of " + name, np.asarray(pick(fa(ts, *extra)), float).reshape(full) - cur, 1e-10 * M)
