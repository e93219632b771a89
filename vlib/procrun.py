"""Child of C33: python procrun.py JOB OUT. Applies the conditions named in the job, then imports the package, runs the batch and pickles what it saw."""
import gc, importlib.machinery, os, pickle, sys, tempfile, threading, traceback


class Blocker:
    """Of what is installed, only NumPy, SciPy and the package itself can be imported."""

    def __init__(self):
        self.refused = set()

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in ("numpy", "scipy", "PythonicDISORT", "vlib"):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        where = [getattr(spec, "origin", None) or ""] + list(getattr(spec, "submodule_search_locations", None) or []) if spec else []
        if any("site-packages" in x or "dist-packages" in x for x in where):
            self.refused.add(name)
            raise ModuleNotFoundError("No module named %r (not installed here)" % name, name=name)


def main():
    job = pickle.load(open(sys.argv[1], "rb"))
    v, out, notes = job["variant"], sys.argv[2], {}
    sys.path.insert(0, job["verif"])
    if v in ("bare", "detached"):
        b = Blocker()
        sys.meta_path.insert(0, b)
    if v == "detached":
        d = tempfile.mkdtemp(prefix="c33-")
        os.chdir(d)
        os.rmdir(d)
        for i in (0, 1, 2):
            os.close(i)
        sys.stdin = sys.stdout = sys.stderr = None
    if v == "traced":
        n = [0]

        def tracer(frame, event, arg):
            n[0] += 1
            return tracer if "PythonicDISORT" in frame.f_code.co_filename else None
        sys.settrace(tracer)
        gc.set_threshold(1)
    box = []

    def work():
        from vlib.props import c33
        if v == "settings":
            import decimal, locale, random
            import numpy as np
            np.seterr(divide="ignore", invalid="ignore", over="ignore", under="ignore")
            np.set_printoptions(precision=2, threshold=3, edgeitems=1, suppress=True)
            np.random.seed(job["seed"] % 1000)
            random.seed(job["seed"])
            decimal.getcontext().prec = 3
            try:
                locale.setlocale(locale.LC_ALL, "C.UTF-8")
            except locale.Error:
                pass
            sys.setswitchinterval(1e-5)
            gc.disable()
        if v == "forked":
            import multiprocessing as mp
            c33.batch(dict(job, items=job["items"][-1:]))        # something has been solved before the processes are forked
            with mp.get_context("fork").Pool(2) as pool:
                r = pool.map(c33.batch, [dict(job, items=[x]) for x in job["items"]], chunksize=1)
            return [x for y in r for x in y]
        if v == "shuffled":
            o = job["order"]
            r = c33.batch(dict(job, items=[job["items"][i] for i in o]))
            return [r[o.index(i)] for i in range(len(o))]
        return c33.batch(job)
    try:
        if v == "thread":
            def go():
                try:
                    box.append(work())
                except BaseException:
                    box.append("error: " + traceback.format_exc())
            t = threading.Thread(target=go)
            t.start()
            t.join()
            r = box[0]
        else:
            r = work()
    except BaseException:
        r = "error: " + traceback.format_exc()
    if v == "traced":
        sys.settrace(None)
        notes["trace events"] = n[0]
    if v in ("bare", "detached"):
        notes["imports refused"] = len(b.refused)
    notes["optimize"] = sys.flags.optimize
    with open(out, "wb") as fh:
        pickle.dump((r, notes), fh)


if __name__ == "__main__":
    main()
