"""Observation layer: runs the real solver and reads its outputs on full (unsqueezed) axes."""
import json
import warnings
import zlib
import numpy as np
from . import env, gen, ref

SUB = env.SUB


class Sol:
    """A solved case. Every accessor evaluates a public output function and counts an observation."""

    def __init__(self, case, mon=None, act=True, **over):
        self.case = case
        self.mon = mon
        self.p = ref.Problem(case)
        k = gen.kwargs(case, **over)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = env.pydisort(**k)
        self.out = out
        self.only_flux = bool(k["only_flux"])
        self.NQ = k["NQuad"]
        self.mu, self.Fp, self.Fm, self.u0f = out[:4]
        self.uf = None if self.only_flux else out[4]
        self._act = None
        # outputs are read in all their documented ways: now and then the layer boundaries or the Fourier error are
        # asked for as well (which must not change the values), a pure function of the case and the reading's number
        self._way = np.random.default_rng(zlib.crc32(json.dumps([case["tau"], case["omega"], case["mu0"]]).encode()))
        if mon is not None:
            mon.event("solves")

    def _ev(self, name, n):
        if self.mon is not None:
            self.mon.event("points:" + name, n)

    def _read(self, fn, t, *a, **k):
        """fn(t, ...), one time in five with additional outputs requested, which are stripped."""
        r = self._way.random()
        if r >= 0.2 or set(k) - {"is_antiderivative_wrt_tau"}:
            return fn(t, *a, **k)
        if a and r < 0.1 and len(t) and len(a[0]):
            k = dict(k, return_Fourier_error=True)
        if "return_Fourier_error" not in k or r < 0.04:
            k = dict(k, return_tau_arr=True)
        self._ev("flags", 1)
        out = fn(t, *a, **k)
        return out[:2] if fn is self.Fm else out[0]

    @staticmethod
    def _t(t):
        return np.atleast_1d(np.asarray(t, float))

    def u(self, t, phi, **k):
        t, phi = self._t(t), self._t(phi)
        v = np.asarray(self._read(self.uf, t, phi, **k), float).reshape(self.NQ, len(t), len(phi))
        self._ev("u", v.size)
        return v

    def u0(self, t, **k):
        t = self._t(t)
        v = np.asarray(self._read(self.u0f, t, **k), float).reshape(self.NQ, len(t))
        self._ev("u0", v.size)
        return v

    def up(self, t, **k):
        t = self._t(t)
        v = np.asarray(self._read(self.Fp, t, **k), float).reshape(len(t))
        self._ev("Fp", v.size)
        return v

    def down(self, t, **k):
        t = self._t(t)
        a, b = self._read(self.Fm, t, **k)
        self._ev("Fm", len(t))
        return np.asarray(a, float).reshape(len(t)), np.asarray(b, float).reshape(len(t))

    def acts(self):
        if self._act is None:
            self._act = SUB.generate_diff_act_flux_funcs(self.u0f)
        return self._act

    def act_up(self, t, **k):
        t = self._t(t)
        self._ev("act_up", len(t))
        return np.asarray(self._read(self.acts()[0], t, **k), float).reshape(len(t))

    def act_down(self, t, **k):
        t = self._t(t)
        self._ev("act_down", len(t))
        return np.asarray(self._read(self.acts()[1], t, **k), float).reshape(len(t))

    # every scalar-per-depth and vector-per-depth output, named
    def fields(self, t, phi=None, anti=False, act=True, u=True):
        k = dict(is_antiderivative_wrt_tau=True) if anti else {}
        d = {}
        d["Fp"] = self.up(t, **k)
        d["Fm"], d["Fdir"] = self.down(t, **k)
        d["u0"] = self.u0(t, **k)
        if act:
            d["act_up"] = self.act_up(t, **k)
            d["act_down"] = self.act_down(t, **k)
        if u and self.uf is not None and phi is not None:
            d["u"] = self.u(t, phi, **k)
        return d


def scales(d):
    """Natural magnitude of each field (global): intensities share one scale, fluxes pi times it, plus the beam."""
    out = {}
    I = max(np.max(np.abs(d["u0"]), initial=0), np.max(np.abs(d["u"]), initial=0) if "u" in d else 0)
    F = np.pi * I + np.max(np.abs(d["Fdir"]), initial=0)
    for k in d:
        out[k] = I if k in ("u", "u0") else F
    return out


def src_scale(case):
    """A priori magnitude of the sources as intensity: never zero for a non-trivial case."""
    p = ref.Problem(case)
    s = 0.0
    for b in ("b_pos", "b_neg"):
        s = max(s, float(np.max(np.abs(np.asarray(case[b], float)))))
    if p.s is not None:
        for l in range(p.L):
            for t in (p.tau0[l], p.tau[l]):
                s = max(s, float(np.sum(np.abs(p.s[l] * t ** np.arange(p.s.shape[1])))))
    return max(s, case["I0"] / (2 * np.pi), 0.03 * p.V)


def depths(rng, case, n=8, edges=True):
    """Random depths hitting interiors of random layers, near-interface points, the interfaces and both ends."""
    tau = np.array(case["tau"])
    t0 = np.concatenate([[0.0], tau])
    out = []
    for _ in range(n):
        l = int(rng.integers(0, len(tau)))
        x = rng.choice([rng.random(), 10 ** rng.uniform(-4, 0), 1 - 10 ** rng.uniform(-4, 0)])
        out.append(min(max(t0[l] + x * (tau[l] - t0[l]), 0.0), tau[-1]))
    if edges:
        out += [0.0, float(tau[-1]), float(tau[int(rng.integers(0, len(tau)))])]
        if rng.random() < 0.06 and len(tau) <= 30:
            out = tau.tolist() if rng.random() < 0.5 else t0.tolist()      # exactly the layer boundaries
    out = np.array(out)
    k = rng.random()
    return np.sort(out) if k < 0.2 else np.sort(out)[::-1].copy() if k < 0.35 else out


def azimuths(rng, case, n=3):
    return np.concatenate([rng.uniform(0, 2 * np.pi, n - 1), [case["phi0"] + rng.choice([0.0, np.pi])]])


def graded(a, b, lo, hi, h0):
    """Panel edges of a mesh on [a,b] graded geometrically from both ends of the layer [lo,hi], smallest panel h0."""
    T = hi - lo
    xs = []
    x = h0
    while x < T / 2:
        xs.append(x)
        x *= 2
    e = np.concatenate([[0.0], xs, [T / 2], T - np.array(xs[::-1]), [T]]) if xs else np.array([0.0, T / 2, T])
    e = lo + e
    e = e[(e > a) & (e < b)]
    return np.concatenate([[a], e, [b]])


_GX, _GW = ref.nodes(20)


def quad_points(edges):
    d = np.diff(edges)
    return (edges[:-1, None] + d[:, None] * _GX[None, :]).ravel(), (d[:, None] * _GW[None, :]).ravel()


def intervals(rng, case, p, nlayers=3, per=2, short=True):
    """(layer, a, b) strictly inside a layer: next to its top, next to its bottom, random; short (smooth) or full."""
    ls = rng.permutation(p.L)[:nlayers]
    out = []
    mumin = p.mu[0]
    for l in ls:
        lo, hi = p.tau0[l], p.tau[l]
        T = hi - lo
        h = min(T, 2 * mumin / p.sc[l]) if short else T
        eps = max(1e-9 * T, 4e-16 * hi)
        pos = [("top", lo + eps), ("bot", hi - h), ("rnd", lo + rng.random() * (T - h))]
        for j in rng.permutation(3)[:per]:
            a = max(pos[j][1], lo + eps)
            b = min(a + h, hi)
            if b > a:
                out.append((int(l), float(a), float(b)))
    return out
