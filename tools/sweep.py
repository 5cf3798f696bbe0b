"""Runs the checks against copies of /repo with each planted bug: python tools/sweep.py [-j N] [--all] [ids]"""
import json, os, shutil, subprocess, sys, tempfile, time
import concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def one(bid, props=None):
    d = "%s/seeded/%s" % (ROOT, bid)
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="sweep-", dir="/tmp")
    res = {}
    try:
        shutil.copytree("/repo", tmp + "/repo", symlinks=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tmp + "/repo", check=True)
        # an own copy, so evidence and replays of /verif are left alone
        subprocess.run(["git", "clone", "-q", ROOT, tmp + "/verif"], check=True)      # the committed state
        for p in props or [meta["property"]]:
            t = time.time()
            r = subprocess.run([PY, "check.py", "run", p, "--tier", "quick"], cwd=tmp + "/verif", env=dict(os.environ, NIAPY_REPO=tmp + "/repo"), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res[p] = (r.returncode, len(v), round(time.time() - t), (r.stdout + r.stderr)[-500:] if r.returncode or 1 else "")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return bid, meta["property"], res


if __name__ == "__main__":
    a = sys.argv[1:]
    j = 1
    if a[:1] == ["-j"]:
        j = int(a[1]); a = a[2:]
    props = None
    if a[:1] == ["--all"]:
        props = json.load(open(ROOT + "/MANIFEST.json"))
        props = [c["property"] if "property" in c else c["property_id"] for c in props["checks"]]
        a = a[1:]
    ids = a or sorted(os.listdir(ROOT + "/seeded"))
    with cf.ThreadPoolExecutor(j) as ex:
        for bid, p, res in ex.map(lambda b: one(b, props), ids):
            for q, (rc, n, w, tail) in res.items():
                print("%-34s %s%s rc=%d viol=%d %ds %s" % (bid, q, "" if q == p else " (other)", rc, n, w, "CAUGHT" if rc == 1 else "missed" if rc == 0 else "ERROR " + tail), flush=True)
