"""Turns bug definitions (a python file defining BUGS) into confirmed /verif/seeded entries.

Each bug: dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=python source).
Confirmed in a scratch copy: applies, demo passes without and fails with it, the stable tests pass.
"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
PY = "/opt/venv/bin/python"


def one(b):
    tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        copy = tmp + "/repo"
        shutil.copytree("/repo", copy, symlinks=True)
        env = dict(ENV, PYTHONPATH=copy + "/src")
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=copy, check=True)
        out = tmp + "/seed"
        os.makedirs(out)
        open(out + "/demo.py", "w").write(b["demo"])
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        r = subprocess.run(["bash", out + "/demo.sh"], cwd=copy, env=env, capture_output=True, text=True, timeout=300)
        if r.returncode:
            return b["id"], "demo fails on the clean tree: " + (r.stdout + r.stderr)[-600:]
        for f, old, new in b["edits"]:
            p = copy + "/src/niapy/" + f
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "%s: %d matches of %r" % (f, s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=copy, capture_output=True, text=True).stdout
        try:
            r = subprocess.run(["bash", out + "/demo.sh"], cwd=copy, env=env, capture_output=True, text=True, timeout=290)
            code, tail = r.returncode, (r.stdout + r.stderr)[-300:]
        except subprocess.TimeoutExpired:
            code, tail = 124, "timeout"
        if not code:
            return b["id"], "demo passes with the patch"
        j = tmp + "/j.xml"
        subprocess.run([PY, "-m", "pytest", "-q", "tests", "-p", "no:cacheprovider", "-p", "no:randomly", "-n", "2", "--dist", "loadfile", "--timeout=60",
                        "-o", "junit_family=xunit2", "--junitxml=" + j], cwd=copy, env=env, capture_output=True)
        bad = [c.get("classname") + "::" + c.get("name") for c in ET.parse(j).getroot().iter("testcase") if c.find("failure") is not None or c.find("error") is not None]
        if bad:
            return b["id"], "tests fail: %s" % bad[:5]
        d = ROOT + "/seeded/" + b["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(out + "/demo.py", d)
        shutil.copy(out + "/demo.sh", d)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        return b["id"], "ok (demo: %s)" % tail.strip().replace("\n", " | ")[-160:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns["BUGS"] if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(one, bugs):
            print(i, m, flush=True)
