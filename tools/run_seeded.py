"""Applies every planted bug to a scratch copy of /repo and runs the quick check of its property (and, with --all, every check).
Writes nothing outside /tmp; prints one line per bug. Development aid, not a registered check."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = "%s/seeded/%s" % (V, i)
    meta = json.load(open(d + "/meta.json"))
    wt = tempfile.mkdtemp(prefix="seeded_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", wt], check=True)
        subprocess.run(["git", "-C", wt, "apply", d + "/patch.diff"], check=True)
        props = ["C%02d" % k for k in range(1, 32)] if "--all" in sys.argv else [meta["property"]]
        got = []
        for p in props:
            r = subprocess.run([sys.executable, V + "/check.py", p, "--tier", "quick", "--seed", "1"], env=dict(os.environ, VERIF_REPO=wt),
                               capture_output=True, text=True)
            if r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout:
                got.append(p)
        print("| %s | %s | %s | %s |" % (i, meta["property"], meta["needs"], ", ".join(got) or "MISSED"), flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
