"""C26: the comparison helper reports the true deviations from reference results."""
import contextlib
import io
import re
import numpy as np
from .. import gen, obs

CASES = dict(quick=6000, thorough=200000)
RULE = ("a real solution, or arbitrary tabulated functions, against a reference table (values of the functions with chosen deviations at chosen "
        "entries: all, a few, one, none; zeros in the reference), any number of depths and azimuths including one, any permutation of the streams "
        "and any selection of angles, with and without intensities; every returned array is compared entry by entry with the deviations and every "
        "largest deviation (and, for intensities, its depth) must be printed; non-trivial = compared; distinct = shape, selection and deviation signature")


def make(rng, index, tier):
    real = bool(rng.random() < 0.3)
    c = gen.gen(rng, layers=[1, 2, 3, 5], nquads=[2, 4, 6, 8, 16], nt=None) if real else dict(NQuad=int(rng.choice([2, 4, 6, 10, 16])))
    return dict(case=c, real=real, neg=bool(rng.random() < 0.3), low=float(rng.choice([-6, -6, -10, -15])), nt=int(rng.choice([1, 1, 2, 3, 5, 8])), nphi=int(rng.choice([1, 1, 2, 3, 5])),
                dev=["none", "one", "few", "all", "huge"][int(rng.integers(0, 5))], zeros=bool(rng.random() < 0.4), intensity=bool(rng.random() < 0.7),
                seed=int(rng.integers(0, 2 ** 31)))


def signature(c):
    return "%s Q%d t%d p%d %s z%d u%d k%d" % ("real" if c["real"] else "table", c["case"]["NQuad"], c["nt"], c["nphi"], c["dev"], c["zeros"],
                                         c["intensity"], c["seed"] % 97)


def deviate(rng, v, how, zeros):
    ref = np.abs(np.array(v, float))
    n = ref.size
    d = rng.normal(size=ref.shape) * (0.2 * ref + 1e-3)
    if how == "huge":
        d = d * 10 ** rng.uniform(0, 4)
    keep = np.zeros(n, bool)
    k = dict(none=0, one=1, few=max(1, n // 5), all=n, huge=n)[how]
    keep[rng.permutation(n)[:k]] = True
    out = np.where(keep.reshape(ref.shape), np.abs(np.array(v) + d) if np.all(np.array(v) >= 0) else np.array(v) + d, np.array(v))
    if zeros:
        out = np.where(rng.random(out.shape) < 0.25, 0.0, out)
    return out


def run(case, mon, rng):
    r = np.random.default_rng(case["seed"])
    c = case["case"]
    NQ, nt, nphi = c["NQuad"], case["nt"], case["nphi"]
    if case["real"]:
        s = obs.Sol(c, mon)
        mu = np.asarray(s.mu)
        t = np.sort(r.uniform(0, c["tau"][-1], nt))
        phi = r.uniform(0, 6, nphi)
        up, down, u = s.Fp, s.Fm, s.uf
        vu, (vd, vb), vi = s.up(t), s.down(t), s.u(t, phi)
    else:
        mu = np.concatenate([np.sort(r.random(NQ // 2)), -np.sort(r.random(NQ // 2))])
        t = np.sort(r.uniform(0, 10, nt))
        phi = r.uniform(0, 6, nphi)
        low = case["low"]
        vu, vd, vb = (10 ** r.uniform(low, 4, (3, nt)))
        vi = 10 ** r.uniform(low, 4, (NQ, nt, nphi))
        if case["neg"]:
            vu, vd, vi = [x * r.choice([-1, 1], np.shape(x), p=[0.3, 0.7]) for x in (vu, vd, vi)]

        def ask(x, want):
            mon.true("the functions are asked at the reference points", np.array_equal(np.atleast_1d(x), want))

        def up(x):
            ask(x, t)
            return vu

        def down(x):
            ask(x, t)
            return vd, vb

        def u(x, y):
            ask(x, t)
            ask(y, phi)
            return np.squeeze(vi)
    order = np.argsort(mu) if r.random() < 0.7 else r.permutation(NQ)
    sel = r.random(NQ) < r.choice([0.3, 0.7, 1.0])
    sel[int(r.integers(0, NQ))] = True
    dev, z = case["dev"], case["zeros"]
    refs = dict(flup=deviate(r, vu, dev, z), rfldn=deviate(r, vd, dev, z), rfldir=deviate(r, vb, dev, z),
                uu=deviate(r, vi[order], dev, z), tau_test_arr=t, phi_arr=phi)
    keep = {k: np.array(v) for k, v in refs.items()}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if case["intensity"]:
            got = obs.SUB._compare(refs, sel, order, up, down, u)
        else:
            got = obs.SUB._compare({k: refs[k] for k in ("flup", "rfldn", "rfldir", "tau_test_arr")}, sel, order, up, down)
    pairs = [("flup", vu), ("rfldn", vd), ("rfldir", vb)] + ([("uu", vi[order])] if case["intensity"] else [])
    mon.true("number of returned arrays", len(got) == 2 * len(pairs), n=len(got))
    text = [float(x) for x in re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", out.getvalue())]
    for i, (k, v) in enumerate(pairs):
        ref = keep[k]
        d = np.abs(ref - v)
        q = np.where(ref == 0, 0.0, d / np.where(ref == 0, 1.0, ref))
        # rounding of one subtraction and one division, entry by entry; an intensity or flux read twice agrees only to its own rounding
        te = 4e-16 * (np.abs(ref) + np.abs(v)) + (1e-13 * np.max(np.abs(v)) if case["real"] else 0)
        tq = np.where(ref == 0, 0.0, te / np.where(ref == 0, 1.0, np.abs(ref))) + 1e-15 * q
        if k == "uu":
            d, q, te, tq = d[sel], q[sel], te[sel], tq[sel]
        mon.true("shapes (%s)" % k, np.shape(got[2 * i]) == d.shape and np.shape(got[2 * i + 1]) == q.shape, got=[list(np.shape(g)) for g in got])
        mon.check("absolute deviations (%s)" % k, got[2 * i] - d, te + 1e-300)
        mon.check("relative deviations (%s)" % k, got[2 * i + 1] - q, tq + 1e-300)
        for nm, a in (("absolute", got[2 * i]), ("relative", got[2 * i + 1])):
            m = float(np.max(a))
            mon.true("largest %s deviation is printed (%s)" % (nm, k), any(abs(x - m) <= 1e-4 * abs(m) for x in text), m=m)
            if k == "uu" and m > 0:
                at = [float(t[j]) for j in range(nt) if np.max(a[:, j, :]) >= m * (1 - 1e-12)]
                mon.true("depth of the largest %s deviation is printed" % nm, any(abs(x - y) <= 1e-4 * abs(y) for x in text for y in at), at=at)
        mon.true("reference data untouched", np.array_equal(refs[k], keep[k]))
    mon.event("tables compared", len(pairs))
