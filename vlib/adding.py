"""An independent solution method for the discretised transfer problem: adding and doubling (no eigenvectors, no boundary-value
matrix). Every layer is built up by doubling a thin slab whose operators come from a Taylor series; slabs are then joined
interface by interface. All Fourier modes at once."""
import numpy as np
from math import pi
from . import gen, ref


def T(a):
    return np.swapaxes(a, -1, -2)


def mode_kernels(p, l):
    """D matrices (modes, 2N, 2N) of layer l and the beam's scattering vector (modes, 2N) for unit exponential."""
    D = np.array([ref.D_matrix(m, p.om[l], p.g[l], p.N) for m in range(p.NF)])
    X = np.zeros((p.NF, 2 * p.N))
    if p.I0 > 0:
        X = np.array([ref.X_vector(m, p.om[l], p.g[l], p.N, p.mu0, p.I0) for m in range(p.NF)])
    return D, X


def thin(A, B, W, h):
    """y' = A y - B w, w' = W w over a slab of thickness h (h |A| small): y(h) = E y(0) - Z w(0), w(h) = P w(0)."""
    n, k = A.shape[-1], W.shape[-1]
    M = np.zeros(A.shape[:-2] + (n + k, n + k))
    M[..., :n, :n], M[..., :n, n:], M[..., n:, n:] = A, -B, W
    M *= h
    R = np.broadcast_to(np.eye(n + k), M.shape).copy()
    term = R.copy()
    for j in range(1, 17):
        term = term @ M / j
        R += term
    return R[..., :n, :n], -R[..., :n, n:], R[..., n:, n:]


def slab(A, B, W, h):
    """Scattering operators of a homogeneous slab: dict of (modes, N, N) and (modes, N, k) arrays."""
    n = A.shape[-1] // 2
    d = max(0, int(np.ceil(np.log2(max(1e-300, np.max(np.sum(np.abs(A), -1)) * h / 0.3)))))
    E, Z, P = thin(A, B, W, h / 2.0 ** d)
    Tu = np.linalg.inv(E[..., :n, :n])
    Rt = -Tu @ E[..., :n, n:]                       # top: downward in -> upward out
    Su = Tu @ Z[..., :n, :]
    Rb = E[..., n:, :n] @ Tu                         # bottom: upward in -> downward out
    Td = E[..., n:, n:] + E[..., n:, :n] @ Rt
    Sd = E[..., n:, :n] @ Su - Z[..., n:, :]
    s = dict(Tu=Tu, Td=Td, Rt=Rt, Rb=Rb, Su=Su, Sd=Sd, P=P)
    for _ in range(d):
        s = join(s, s)
    return s


def join(a, b):
    """Slab a on top of slab b; sources of b are given in terms of the source state at the top of a."""
    n = a["Td"].shape[-1]
    G = np.linalg.inv(np.eye(n) - a["Rb"] @ b["Rt"])          # downward at the interface
    Sb_u, Sb_d = b["Su"] @ a["P"], b["Sd"] @ a["P"]
    down_T = G @ a["Td"]                                       # from the top
    down_R = G @ a["Rb"] @ b["Tu"]                             # from the bottom
    down_S = G @ (a["Rb"] @ Sb_u + a["Sd"])
    up_T = b["Rt"] @ down_T
    up_R = b["Rt"] @ down_R + b["Tu"]
    up_S = b["Rt"] @ down_S + Sb_u
    return dict(Td=b["Td"] @ down_T, Rt=a["Rt"] + a["Tu"] @ up_T, Rb=b["Rb"] + b["Td"] @ down_R, Tu=a["Tu"] @ up_R,
                Sd=b["Td"] @ down_S + Sb_d, Su=a["Su"] + a["Tu"] @ up_S, P=b["P"] @ a["P"])


def solve(p, depths):
    """Cosine modes (NF, 2N, n) of the uncorrected intensity at the given depths."""
    depths = np.asarray(depths, float)
    N, NF = p.N, p.NF
    ns = 0 if p.s is None else p.s.shape[1]
    cuts, states, slabs = [0.0], [], []
    mi = 1 / p.mufull
    for l in range(p.L):
        a, b = p.tau0[l], p.tau[l]
        inside = np.unique(depths[(depths > a) & (depths < b)])
        e = np.concatenate([[a], inside, [b]])
        D, X = mode_kernels(p, l)
        A = mi[None, :, None] * (np.eye(2 * N)[None] - D)      # mu dI/dx = I - D I - sources
        for t0, t1 in zip(e[:-1], e[1:]):
            h = (t1 - t0) * p.sc[l]
            if h <= 0:
                continue
            # source state: exponential of the beam, then powers of the local scaled depth over h
            k = 1 + ns
            W, B = np.zeros((k, k)), np.zeros((NF, 2 * N, k))
            w = np.zeros(k)
            if p.I0 > 0:
                W[0, 0] = -1 / p.mu0
                B[:, :, 0] = mi[None] * X
                w[0] = np.exp(-(p.ts[l] + (t0 - p.tau0[l]) * p.sc[l]) / p.mu0)
            if ns:
                for j in range(1, ns):
                    W[1 + j, j] = j / h                        # d/dx (x/h)^j = j/h (x/h)^(j-1)
                w[1] = 1.0
                # coefficients of the source in (x/h)^j: s(t0 + x/sc)
                c = np.zeros(ns)
                for q in range(ns):
                    for j in range(q + 1):
                        c[j] += p.s[l, q] * binom(q, j) * t0 ** (q - j) * (t1 - t0) ** j
                B[0, :, 1:] = mi[:, None] * c[None, :] * (1 - p.omega[l]) / p.sc[l]
            Wm = np.broadcast_to(W, (NF, k, k))
            slabs.append(slab(A, B, Wm, h))
            states.append(w)
            cuts.append(t1)
    cuts = np.array(cuts)
    # surface
    bd = p.case["bdrf"]
    R, Q = np.zeros((NF, N, N)), np.zeros((NF, N))
    for m in range(NF):
        Q[m] = p.bmode("b_pos", m)
        if m < len(bd):
            R[m] = (1 + (m == 0)) * gen.bdrf_eval(bd[m], p.mu, p.mu) * (p.mu * p.w)[None, :]
            if p.I0 > 0:
                Q[m] += gen.bdrf_eval(bd[m], p.mu, [p.mu0])[:, 0] * p.mu0 * p.I0 / pi * np.exp(-p.ts[-1] / p.mu0)
    # upwards: reflection and emission of everything below each interface
    stack = [(R, Q)]
    for s, w in zip(slabs[::-1], states[::-1]):
        R, Q = stack[-1]
        G = np.linalg.inv(np.eye(N) - s["Rb"] @ R)
        below = lambda x: (G @ x[..., None])[..., 0]
        down_T, down_S = G @ s["Td"], below((s["Rb"] @ Q[..., None])[..., 0] + s["Sd"] @ w)
        up_T, up_S = R @ down_T, (R @ down_S[..., None])[..., 0] + Q
        stack.append((s["Rt"] + s["Tu"] @ up_T, s["Su"] @ w + (s["Tu"] @ up_S[..., None])[..., 0]))
    stack = stack[::-1]
    # downwards: the field itself
    out = np.zeros((NF, 2 * N, len(cuts)))
    dn = np.array([p.bmode("b_neg", m) for m in range(NF)])
    for i in range(len(cuts)):
        R, Q = stack[i]
        out[:, :N, i] = (R @ dn[..., None])[..., 0] + Q
        out[:, N:, i] = dn
        if i < len(slabs):
            s, w = slabs[i], states[i]
            R, Q = stack[i + 1]
            rhs = (s["Td"] @ dn[..., None])[..., 0] + (s["Rb"] @ Q[..., None])[..., 0] + s["Sd"] @ w
            dn = np.linalg.solve(np.eye(N) - s["Rb"] @ R, rhs[..., None])[..., 0]
    k = np.argmin(np.abs(cuts[None, :] - depths[:, None]), axis=1)
    return out[:, :, k]


def binom(n, k):
    r = 1.0
    for i in range(k):
        r = r * (n - i) / (i + 1)
    return r
