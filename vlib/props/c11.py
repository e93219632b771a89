"""C11: options never change results; bounds monitor on strided views."""
import warnings
import numpy as np
from .. import env, gen, ref, obs

CASES = dict(quick=1200, thorough=48000)
RULE = ("random valid problem solved with the plain settings and with flux-only mode, dense/banded solver, autograd-compatible mode, "
        "cached BDRF modes (with/without mu0) and combinations; all outputs and antiderivatives compared; every strided view created by the "
        "package is checked against the bounds of its buffer; non-trivial = at least one option pair compared; distinct = signature")


def make(rng, index, tier):
    c = gen.gen(rng, layers=[40, 64, 70, 130] if rng.random() < 0.015 else [1, 2, 3, 3, 4, 5, 6, 8, 10, 11, 13], bdrf=bool(rng.random() < 0.75))
    return gen.plain(c)


def cmp(mon, name, A, B, S, keys=None, rt=1e-9):
    for k in keys or A:
        if k in B:
            mon.close(name, A[k], B[k], rt, scale=max(np.max(np.abs(A[k])), S), field=k)


def run(case, mon, rng):
    t = obs.depths(rng, case, 5)
    phi = obs.azimuths(rng, case, int(rng.choice([1, 2, 2, 2, 8])))
    r = rng.random()
    if r < 0.2:  # the customary grids: the layer boundaries, one end
        t = np.array(case["tau"], float) if r < 0.12 else np.zeros(1) if r < 0.16 else np.array(case["tau"][-1:], float)
    S = obs.src_scale(case)
    v0, o0 = env.STRIDE_EVENTS["views"], len(env.STRIDE_EVENTS["out_of_bounds"])
    base = obs.Sol(case, mon, use_banded_solver_NLayers=10 ** 6)
    A, Aa = base.fields(t, phi), base.fields(t, phi, anti=True)
    L = len(case["tau"])
    N = case["NQuad"] // 2

    def same(name, over):
        s = obs.Sol(case, mon, **over)
        B = s.fields(t, phi)
        cmp(mon, name, A, B, S)
        Ba = s.fields(t, phi, anti=True)
        for k in Ba:
            mon.close(name + ", antiderivative", Aa[k], Ba[k], 1e-9, scale=max(np.max(np.abs(Aa[k])), S * (1 + case["tau"][-1])), field=k)
        mon.event("pair: " + name)

    def cached(mu0):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return obs.SUB.cache_BDRF_Fourier_modes(N, gen.bdrf_list(case), mu0) if mu0 is not None else \
                obs.SUB.cache_BDRF_Fourier_modes(N, gen.bdrf_list(case))

    opts = []
    if L >= 3:
        opts.append(("banded", dict(use_banded_solver_NLayers=int(rng.integers(3, L + 1)))))
    f = dict(only_flux=True)
    for b in ("b_pos", "b_neg"):
        if np.ndim(case[b]) == 2:
            f[b] = np.array(case[b])[:, :1]
    opts.append(("only_flux", f))
    opts.append(("autograd", dict(autograd_compatible=True)))
    if case["bdrf"]:
        opts.append(("cached BDRF", dict(BDRF_Fourier_modes=cached(None))))
        if case["I0"] > 0:
            opts.append(("cached BDRF with mu0", dict(BDRF_Fourier_modes=cached(case["mu0"]))))
    if L >= 3:
        opts.append(("banded + only_flux", dict(f, use_banded_solver_NLayers=3)))
        opts.append(("banded + autograd", dict(autograd_compatible=True, use_banded_solver_NLayers=3)))
    for j in rng.permutation(len(opts))[:4]:
        same(*opts[j])
    ev = env.STRIDE_EVENTS
    mon.event("strided views checked", ev["views"] - v0)
    mon.true("strided views stay inside their buffer", len(ev["out_of_bounds"]) == o0, views=ev["out_of_bounds"][o0:][:3])
