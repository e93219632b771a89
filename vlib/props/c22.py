"""C22: numerical helpers."""
import numpy as np
import scipy.linalg as sl
from math import pi
from .. import env, gen, ref, obs

CASES = dict(quick=50000, thorough=2000000)
KINDS = ["gl", "cc", "affine", "fd", "diag", "nu", "transform", "spline", "prepend", "atleast", "streams"]
RULE = ("per case one helper with random size (rarely up to 300), interval and contents, decided against its defining identity (random test polynomials of maximal degree in a stable basis, "
        "explicit vectors, explicit matrices); non-trivial = decided; distinct = helper x size")


def signature(c):
    return "%s n%d" % (c["k"], c["n"])


def make(rng, index, tier):
    k = KINDS[index % len(KINDS)]
    n = int(rng.integers(1, 12)) if rng.random() < 0.5 else int(rng.integers(1, 65))
    if k in ("gl", "cc", "diag", "fd", "spline", "affine") and rng.random() < 0.02:
        n = int(rng.integers(65, 300)) if k != "affine" else int(rng.integers(65, 90))
    return dict(k=k, n=n, seed=int(rng.integers(0, 2 ** 31)))


def interval(rng):
    a = float(rng.normal() * 10 ** rng.uniform(-2, 2))
    return a, a + float(10 ** rng.uniform(-2, 2))


def run(c, mon, rng):
    S = obs.SUB
    rng = np.random.default_rng(c["seed"])
    k, n = c["k"], c["n"]
    size = (lambda *v: [gen.short(rng, x)[()] for x in v]) if rng.random() < 0.15 else lambda *v: v     # (sizes in NumPy integer types)
    mon.event("helper: " + k)
    if k == "gl":
        default = rng.random() < 0.3
        a, b = (0.0, 1.0) if default else interval(rng)
        N, = size(n)
        x, w = S.Gauss_Legendre_quad(N) if default else S.Gauss_Legendre_quad(N, a, b) if rng.random() < 0.5 else S.Gauss_Legendre_quad(N, c=a, d=b)
        quad(mon, "Gauss-Legendre", x, w, a, b, 2 * n - 1, n, True)
    elif k == "cc":
        m = 2 * n + 1
        default = rng.random() < 0.3
        a, b = (0.0, 2 * pi) if default else interval(rng)
        M, = size(m)
        x, w = S.Clenshaw_Curtis_quad(M) if default else S.Clenshaw_Curtis_quad(M, a, b)
        quad(mon, "Clenshaw-Curtis", x, w, a, b, m - 1, m, False)
    elif k == "affine":
        L, d = int(rng.integers(1, 6)), n if rng.random() < 0.2 else min(n, 12)
        C = rng.normal(size=(L, d))
        a = rng.uniform(0.2, 2, L) * rng.choice([-1, 1], L)
        b = rng.normal(size=L)
        if rng.random() < 0.3:
            b[:] = 0
        if rng.random() < 0.3:                  # whole numbers, possibly large
            b = rng.integers(-10 ** int(rng.integers(1, 4)), 10 ** int(rng.integers(1, 4)), L)
            if rng.random() < 0.5:
                a = rng.choice([-3, -2, -1, 1, 2, 5], L)
            if rng.random() < 0.5:
                C = rng.integers(-9, 10, (L, d))
        D = S.affine_transform_poly_coeffs(C, a, b)
        mon.true("shape", np.shape(D) == C.shape)
        mon.true("numbers, not objects", np.asarray(D).dtype.kind in "fiu", dtype=str(np.asarray(D).dtype), coefficients=d)
        x = rng.uniform(-2, 2, 7)
        for l in range(L):
            y = a[l] * x + b[l]
            P = np.arange(d)
            lhs = (y[:, None] ** P) @ D[l]
            rhs = (x[:, None] ** P) @ C[l]
            mag = (np.abs(y)[:, None] ** P) @ np.abs(D[l]) + np.abs(C[l]) @ ((np.abs(b[l]) + np.abs(y)[:, None]) / abs(a[l])).T ** P[:, None]
            mon.check("affine polynomial transform", lhs - rhs, 1e-12 * mag)
    elif k == "fd":
        m = max(n, 3)
        a, b = interval(rng)
        x, M = S.generate_FD_mat(*size(m), a, b)
        mon.true("grid", np.shape(x) == (m,) and abs(x[0] - a) < 1e-12 * (1 + abs(a)) and abs(x[-1] - b) < 1e-12 * (1 + abs(b)) and bool(np.all(np.diff(x) > 0)))
        M = np.asarray(M.todense())
        mon.true("matrix shape", M.shape == (m, m))
        z = (x - a) / (b - a)
        for p in range(3):
            want = (p * z ** max(p - 1, 0) / (b - a)) if p else np.zeros(m)
            mon.check("finite differences exact for degree %d" % p, M @ z ** p - want, 1e-9 * m / (b - a) * (1 + (abs(a) + abs(b)) / (b - a)))
    elif k == "diag":
        m = max(n, 2)
        u, lo = int(rng.integers(0, m)), int(rng.integers(0, m))
        i, j = np.indices((m, m))
        A = rng.normal(size=(m, m)) * ((j - i <= u) & (i - j <= lo))
        A += np.diag(np.full(m, 3.0 * m))
        ab = S.to_diag_ordered_form(A, *size(u, lo))
        mon.true("diagonal ordered shape", np.shape(ab) == (u + lo + 1, m), got=list(np.shape(ab)))
        if np.shape(ab) == (u + lo + 1, m):
            ok = (j - i <= u) & (i - j <= lo)
            mon.true("diagonal ordered entries", bool(np.all(ab[(u + i - j)[ok], j[ok]] == A[ok])))
            r = rng.normal(size=m)
            mon.check("banded solve equals dense solve", sl.solve_banded((lo, u), ab, r) - np.linalg.solve(A, r), 1e-11)
    elif k == "nu":
        m = [int(x) for x in rng.choice([1, 2, 3, 4], 4)]
        mu, mup = rng.uniform(-1, 1, m[0]), rng.uniform(-1, 1, m[2])
        if rng.random() < 0.3:
            mu[0] = rng.choice([-1.0, 0.0, 1.0])
        phi, phip = rng.uniform(-7, 7, m[1]), rng.uniform(-7, 7, m[3])
        r = S.calculate_nu(*[float(v[0]) if len(v) == 1 and rng.random() < 0.5 else v for v in (mu, phi, mup, phip)])
        vec = lambda c_, f: np.stack([np.sqrt(1 - c_ ** 2)[:, None] * np.cos(f)[None], np.sqrt(1 - c_ ** 2)[:, None] * np.sin(f)[None], c_[:, None] + 0 * f[None]], -1)
        want = np.einsum("abx,cdx->abcd", vec(mu, phi), vec(mup, phip))
        sh = tuple(x for x in m if x != 1)
        mon.true("scattering-angle shape", np.shape(r) == sh, got=list(np.shape(r)), want=list(sh))
        if np.shape(r) == sh:
            mon.check("cosine of the scattering angle", np.asarray(r).reshape(m) - want, 1e-13 * 10)
    elif k == "transform":
        a, b = interval(rng)
        c_, d = interval(rng)
        x = np.concatenate([[a, b], rng.uniform(a, b, n)])
        y = S.transform_interval(x, c_, d, a, b)
        sc = abs(c_) + abs(d) + (abs(a) + abs(b)) * (d - c_) / (b - a)
        mon.check("interval ends", [y[0] - c_, y[1] - d], 1e-13 * sc)
        mon.check("affine map", (y - c_) / (d - c_) - (x - a) / (b - a), 1e-12 * (1 + (abs(a) + abs(b)) / (b - a) + sc / (d - c_)))
        w = rng.uniform(0.1, 1, n)
        mon.check("weights", S.transform_weights(w, c_, d, a, b) - w * ((d - c_) / (b - a)), 1e-13 * (d - c_) / (b - a) * 10)
    elif k == "spline":
        m = max(n, 2)
        x = np.cumsum(rng.uniform(0.05, 1, m) if rng.random() < 0.5 else 10 ** rng.uniform(-13, 4, m))
        if rng.random() < 0.4:
            x = x - x[0] if rng.random() < 0.5 else x - rng.uniform(0, x[-1])
            x = x[np.concatenate([[True], np.diff(x) > 0])]
        x = x[np.concatenate([[True], np.diff(x) > 1e-14 * np.maximum(np.abs(x[1:]), np.abs(x[:-1]))])]
        if len(x) < 2:
            x = np.array([0.0, 1e-12])
        m = len(x)
        y = rng.normal(size=m) * 10 ** rng.uniform(-8, 8)
        if rng.random() < 0.2:                  # whole numbers in integer types
            x = gen.short(rng, np.cumsum(rng.integers(1, 9, m)))
            y = gen.short(rng, rng.integers(0, 200, m))
        r = S.linear_spline_coefficients(x, y) if rng.random() < 0.5 else S.linear_spline_coefficients(x, y, check_inputs=bool(rng.random() < 0.5))
        mon.true("spline shape", np.shape(r) == (m - 1, 2))
        if np.shape(r) == (m - 1, 2):
            x, y = x.astype(float), y.astype(float)
            sp = np.diff(x)
            tol = 1e-14 * (np.abs(y[:-1]) + np.abs(y[1:])) * (1 + (np.abs(x[:-1]) + np.abs(x[1:])) / sp)
            mon.check("spline at the left point", r[:, 0] + r[:, 1] * x[:-1] - y[:-1], tol)
            mon.check("spline at the right point", r[:, 0] + r[:, 1] * x[1:] - y[1:], tol)
    elif k == "prepend":
        v = rng.integers(-9, 9, n) if rng.random() < 0.5 else rng.normal(size=n)
        p = float(rng.normal())
        r = S.prepend(v, *size(n), p)
        mon.true("prepend", np.shape(r) == (n + 1,) and r[0] == p and bool(np.all(r[1:] == v)))
    elif k == "atleast":
        xs = [np.array(float(rng.normal())), rng.normal(size=n), rng.normal(size=(n, 2)), rng.normal(size=(2, n, 3)), float(rng.normal())]
        want = [(1, 1), (n, 1), (n, 2), (2, n, 3), (1, 1)]
        r = S.atleast_2d_append(*xs)
        for a_, b_, w_ in zip(r, xs, want):
            mon.true("dimension appended", np.shape(a_) == w_ and bool(np.all(np.ravel(a_) == np.ravel(b_))))
        r1 = S.atleast_2d_append(xs[1])
        mon.true("single array returned bare", np.shape(r1) == (n, 1))
    elif k == "streams":
        N = min(n, 32)
        o = env.pydisort(1.0, 0.3, 2 * N, np.eye(1, 2 * N)[0], 0.0, 0.0, 0.0, b_neg=1.0, NFourier=1, only_flux=bool(rng.random() < 0.5))
        x = ref.nodes(N)[0]
        mon.true("stream cosine shape", np.shape(o[0]) == (2 * N,))
        mon.check("stream cosines", np.asarray(o[0]) - np.concatenate([x, -x]), 1e-13)


def quad(mon, name, x, w, a, b, deg, n, interior):
    mon.true(name + " sizes", np.shape(x) == (n,) and np.shape(w) == (n,))
    if not (np.shape(x) == (n,) and np.shape(w) == (n,)):
        return
    h = b - a
    eps = 1e-13 * (abs(a) + abs(b) + h)
    mon.true(name + " nodes inside", bool(np.all(x >= a - (0 if interior else eps)) and np.all(x <= b + (0 if interior else eps))) and (not interior or bool(np.all((x > a - eps) & (x < b + eps)))))
    mon.true(name + " nodes distinct", bool(np.all(np.diff(np.sort(x)) > 0)))
    mon.true(name + " positive weights", bool(np.all(w > 0)))
    z = 2 * (x - a) / h - 1
    cond = 1 + (abs(a) + abs(b)) / h
    # all Legendre polynomials up to the exactness degree
    p0, p1 = np.ones_like(z), z
    for d in range(deg + 1):
        v = p0 if d == 0 else p1
        mon.check(name + " exactness", np.sum(w * v) - (h if d == 0 else 0.0), 1e-13 * h * (1 + d * d) * cond * 10, degree=d, n=n)
        if d:
            p0, p1 = p1, ((2 * d + 1) * z * p1 - d * p0) / (d + 1)
