"""Checks of the oracles themselves (nothing here runs the package under test)."""
import numpy as np
from math import factorial
from . import ref, gen
from .mon import Monitor


def main():
    from scipy.special import lpmv
    for N in range(1, 33):
        x, w = ref.nodes(N)
        y, v = np.polynomial.legendre.leggauss(N)
        assert np.allclose(2 * x - 1, y, atol=1e-14) and np.allclose(2 * w, v, atol=1e-14), N
    mu = np.linspace(-0.99, 0.99, 7)
    for m in range(8):
        L = ref.lam(m, 12, mu)
        for l in range(m, 12):
            want = (-1) ** m * lpmv(m, l, mu) * np.sqrt(factorial(l - m) / factorial(l + m))
            assert np.allclose(L[l - m], want, atol=1e-12), (m, l)
    c = np.random.default_rng(0).normal(size=20)
    assert np.allclose(ref.legval(c, mu), np.polynomial.legendre.legval(mu, c), atol=1e-12)
    # the kernel conserves energy: column sums of the mode-0 kernel equal the albedo
    g = 0.7 ** np.arange(8)
    D = ref.D_matrix(0, 0.9, g, 4)
    assert np.allclose(D.sum(axis=1), 0.9, atol=1e-13)
    # monitor semantics: NaN and shape mismatch violate, equality passes, ratios are recorded
    k = Monitor()
    k.check("a", [0.0, 0.5], 1.0)
    assert not k.violations
    k.check("a", [np.nan], 1.0)
    assert len(k.violations) == 1
    k.check("a", [2.0], 1.0)
    k.close("b", [1.0], [1.0, 2.0], 1)
    assert len(k.violations) == 3
    # generated problems are reproducible and well posed
    a, b = (gen.gen(np.random.default_rng([1, 2, 3])) for _ in range(2))
    assert a == b
    p = ref.Problem(a)
    assert ref.well_posed(p.tau, p.omega, p.Leg_all[:, :a["NLeg"]], a["f"], a["NQuad"], a["NFourier"])
    print("selftest ok")
    return 0
