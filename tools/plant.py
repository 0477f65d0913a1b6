"""Development tool: turn bug definitions into /verif/seeded entries.

  python3 tools/plant.py DEFS.py [id ...] [--keep-uncaught-only] [--nocheck]

DEFS.py defines P: id -> dict(prop, edits=[(file, old, new)], demo=<python source>, needs, breaks).  For each one: the change is
made in a scratch copy of /repo under /tmp, the stable tests run there, the demonstration runs on the unchanged and on the
changed copy, and the checks run on the changed copy.  A confirmed change is written to /verif/seeded/<id>/.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
DEMO = '''#!/bin/bash
# run with cwd /repo
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
ALL = ["C%02d" % i for i in [*range(1, 24), *range(25, 32)]]


def stable_ok(root, d):
    rep = os.path.join(d, "junit.xml")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors",
                    "-o", "junit_family=xunit2", "--junitxml=" + rep], cwd=root, env=ENV, capture_output=True)
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(rep).getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add(tc.get("classname") + "::" + tc.get("name"))
    return STABLE - ok


def demo(root, dd):
    p = subprocess.run(["bash", os.path.join(dd, "demo.sh")], cwd=root, env=os.environ, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr).strip()[-400:]


def one(pid, p, check):
    d = tempfile.mkdtemp(prefix="plant.")
    try:
        for n in ("a", "b"):
            shutil.copytree("/repo", os.path.join(d, n), ignore=shutil.ignore_patterns("__pycache__", ".git"))
        for rel, old, new in p["edits"]:
            f = os.path.join(d, "b", "src/jax_act", rel)
            t = open(f).read()
            if t.count(old) != 1:
                return pid, f"BAD edit: {t.count(old)} matches in {rel}"
            open(f, "w").write(t.replace(old, new))
        dd = os.path.join(d, "demo")
        os.mkdir(dd)
        open(os.path.join(dd, "demo.sh"), "w").write(DEMO)
        open(os.path.join(dd, "demo.py"), "w").write(p["demo"].lstrip("\n"))
        r0, o0 = demo(os.path.join(d, "a"), dd)
        r1, o1 = demo(os.path.join(d, "b"), dd)
        if r0 != 0 or r1 == 0:
            return pid, f"BAD demo: unchanged {r0} changed {r1}\n{o0 if r0 else o1}"
        missing = stable_ok(os.path.join(d, "b"), d)
        if missing:
            return pid, "BAD breaks stable tests: " + ", ".join(sorted(missing))
        diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/src", "b/src"], cwd=d, capture_output=True, text=True).stdout
        diff = diff.replace("diff --git a/src", "diff --git a/src").replace(" b/src", " b/src")
        out = os.path.join(VERIF, "seeded", pid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        for f in ("demo.sh", "demo.py"):
            shutil.copy(os.path.join(dd, f), os.path.join(out, f))
        json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        g = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(out, "patch.diff")], capture_output=True, text=True)
        if g.returncode:
            return pid, "BAD patch: " + g.stderr[:300]
        if not check:
            return pid, "ok (not checked)"
        caught, odd = [], []
        cmd = lambda c: subprocess.run([sys.executable, "-m", "actcheck.run", c], cwd=VERIF, capture_output=True, text=True,
                                       env=dict(ENV, ACTCHECK_ROOT=os.path.join(d, "b"), ACTCHECK_OUT=d, VERIF_TIER="quick"))
        own = cmd(p["prop"])
        for c in [p["prop"]]:
            if own.returncode == 1:
                caught.append(c)
            elif own.returncode:
                odd.append(c)
        if check == "all":
            for c in ALL:
                if c != p["prop"]:
                    r = cmd(c)
                    (caught if r.returncode == 1 else odd if r.returncode else []).append(c)
        first = next((l for l in own.stdout.split("\n") if l.startswith("VIOLATION")), "")
        und = sum(l.startswith("UNDECIDED") for l in own.stdout.split("\n"))
        tag = "caught" if p["prop"] in caught else "MISSED"
        return pid, f"{tag} own={p['prop']} caught={','.join(caught)} odd={odd} undecided={und}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    P = runpy.run_path(args[0])["P"]
    ids = args[1:] or list(P)
    check = None if "--nocheck" in sys.argv else "all" if "--all" in sys.argv else "own"
    with ThreadPoolExecutor(6) as ex:
        for pid, msg in ex.map(lambda i: one(i, P[i], check), ids):
            print(pid, msg, flush=True)


if __name__ == "__main__":
    main()
