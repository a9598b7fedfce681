#!/usr/bin/env python3
"""seeds.py [ids...]: runs the check of each planted bug's property against a patched copy of /repo (outside /repo)."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def one(i):
    prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    props = os.environ.get("PROPS", prop).split(",")
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.check_call(["git", "clone", "-q", "--no-hardlinks", "/repo", d + "/r"])
        subprocess.check_call(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=d + "/r")
        res = []
        for p in props:
            t = time.time()
            e = dict(os.environ, VERIF_REPO=d + "/r", VERIF_OUT=d + "/out")
            r = subprocess.run([sys.executable, os.path.join(V, "check.py"), p, "--tier", "quick"], cwd=V, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            o = r.stdout
            hit = "VIOLATION property=%s " % p in o and r.returncode == 1
            why = [l for l in o.split("\n") if "VIOLATION" not in l and l.strip()]
            res.append("%s %s %.0fs %s" % (p, "caught x%d" % o.count("VIOLATION property") if hit else "MISSED rc=%d" % r.returncode, time.time() - t, (why[0] if why else "")[:150]))
        return "%-24s %s" % (i, "; ".join(res))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(S))
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for r in ex.map(one, ids):
            print(r, flush=True)
