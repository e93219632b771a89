#!/opt/venv/bin/python
"""Runner: check.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N] [--jobs N]"""
import argparse, importlib, json, os, sys, time, traceback, zlib, multiprocessing as mp
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import env  # noqa: E402  (sets thread counts, installs bounds monitor, imports the package)
import numpy as np  # noqa: E402
import warnings  # noqa: E402
from vlib.mon import Monitor, Skip, _j  # noqa: E402
from vlib import gen  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("prop", nargs="?")
ap.add_argument("--selftest", action="store_true")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
ap.add_argument("--replay")
ap.add_argument("--cases", type=int)
ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
ap.add_argument("--verbose", action="store_true")
A = ap.parse_args()
PID = A.prop
if A.selftest:
    from vlib import selftest
    sys.exit(selftest.main())
MOD = importlib.import_module("vlib.props." + PID.lower())
CAP = 500 if A.tier == "quick" else 3600          # watchdog, seconds


def rng_for(seed, index, k):
    return np.random.default_rng([seed, zlib.crc32(PID.encode()), index, k])


def run_case(arg):
    """-> (index, spec, Monitor, status, signature)"""
    index, spec, seed = arg
    mon = Monitor()
    status = "ok"
    sig = None
    stage = "generator"
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                if spec is None:
                    spec = MOD.make(rng_for(seed, index, 0), index, A.tier)
                sig = MOD.signature(spec) if hasattr(MOD, "signature") else gen.features(spec)
                stage = "execution"
                MOD.run(spec, mon, rng_for(seed, index, 1))
    except Skip as e:
        status = "skip:" + str(e)
    except Exception as e:
        tb = traceback.format_exc()
        if stage == "generator":
            status = "generator-error: " + tb
        else:
            mon.fail("no unexpected exception", "%s: %s" % (type(e).__name__, e), trace=tb[-3000:])
    return index, spec, mon, status, sig


def main():
    t0 = time.time()
    if A.replay:
        r = json.load(open(A.replay))
        idx, spec, mon, status, sig = run_case((r["index"], r["spec"], r["seed"]))
        print(json.dumps(dict(status=status, violations=mon.violations, events=mon.events), indent=1)[:6000])
        if mon.violations:
            print("VIOLATION property=%s replay=%s" % (PID, A.replay))
            return 1
        return 0 if status == "ok" else 2
    n = A.cases or MOD.CASES[A.tier]
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    tot = Monitor()
    sigs, skips, bad, samples, gerr = set(), {}, [], [], []
    done = 0
    args = ((i, None, A.seed) for i in range(n))
    capped = False
    MAXBAD = 3
    if getattr(MOD, "SERIAL", False) or A.jobs == 1:
        it, pool = map(run_case, args), None
    else:
        pool = mp.get_context("fork").Pool(A.jobs)
        it = pool.imap_unordered(run_case, args, chunksize=max(1, min(8, n // (A.jobs * 8))))
    for index, spec, mon, status, sig in it:
        done += 1
        if status.startswith("skip"):
            skips[status] = skips.get(status, 0) + 1
        elif status.startswith("generator"):
            gerr.append(status)
        else:
            nv = len(mon.violations)
            tot.merge(mon)
            if sum(c[0] for c in mon.checks.values()):
                sigs.add(sig)
            if len(samples) < 3:
                samples.append(dict(index=index, spec=trim(spec), signature=sig, observed=mon.events))
            if nv:
                bad.append((index, spec, mon))
                if len(bad) >= MAXBAD and not A.verbose:
                    break
        if time.time() - t0 > CAP:
            capped = True
            break
    if pool is not None:
        pool.terminate()
        pool.join()
    evals = done - sum(skips.values()) - len(gerr)
    nchecks = sum(c[0] for c in tot.checks.values())
    replays = []
    for index, spec, mon in bad[:MAXBAD]:
        path = os.path.join(evdir, "replays", "%s-s%d-i%d.json" % (PID, A.seed, index))
        with open(path, "w") as fh:
            json.dump(dict(property=PID, seed=A.seed, tier=A.tier, index=index, spec=_j(spec),
                           violations=mon.violations), fh, indent=1)
        replays.append(path)
    ev = dict(property=PID, tier=A.tier, seed=A.seed, level="exploration", coverage=dict(
        evaluations=evals, distinct_nontrivial=len(sigs), rule=MOD.RULE, samples=samples,
        oracle_decisions=nchecks,
        observed_events=dict(sorted(tot.events.items())),
        oracles={k: dict(decisions=c[0], worst_error_over_tolerance=(c[1] if np.isfinite(c[1]) else "inf")) for k, c in sorted(tot.checks.items())},
        inconclusive_cases=skips, generator_errors=len(gerr), stopped_by_watchdog=capped,
        requested_cases=n),
        assumptions=getattr(MOD, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(bad))
    with open(os.path.join(evdir, PID + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if A.verbose or bad:
        for k, c in sorted(tot.checks.items()):
            print("  %-60s n=%-9d worst err/tol=%.3g" % (k, c[0], c[1]))
    for (index, spec, mon), path in zip(bad, replays):
        for v in mon.violations[:3]:
            print("  case %d oracle %s ratio %s %s" % (index, v["oracle"], v["ratio"], json.dumps(v["detail"])[:600]))
    for g in gerr[:2]:
        print(g)
    print("%s tier=%s seed=%d cases=%d distinct=%d decisions=%d skipped=%d wall=%.1fs violations=%d" % (
        PID, A.tier, A.seed, evals, len(sigs), nchecks, sum(skips.values()), time.time() - t0, len(bad)))
    if bad:
        print("VIOLATION property=%s replay=%s" % (PID, replays[0]))
        return 1
    if gerr or nchecks == 0 or evals < max(1, n // 20):
        print("INCONCLUSIVE: too little observed")
        return 2
    return 0


def trim(x, n=6):
    if isinstance(x, dict):
        return {k: trim(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        y = [trim(v, n) for v in x[:n]]
        return y + ["... %d more" % (len(x) - n)] if len(x) > n else y
    return _j(x)


if __name__ == "__main__":
    sys.exit(main())
