"""
Command line of every check: python3 -m actcheck.run <property> [--tier quick|thorough]

exit 0  every obligation that could be decided holds
exit 1  a VIOLATION line was printed
exit 2  the analysis itself is broken (an anchor is gone, or nothing could be decided)
"""
import hashlib
import importlib
import json
import os
import re
import sys
import time

sys.setrecursionlimit(20000)

from . import harness as Hn

MODULES = ("c_core", "c_state", "c_build", "c_layer", "c_utils", "c_num", "c_user", "c_names")
CHECKS = {}
for _m in MODULES:
    try:
        mod = importlib.import_module("actcheck." + _m)
    except ModuleNotFoundError as e:
        if e.name != "actcheck." + _m:
            raise
        continue
    for k in dir(mod):
        if re.fullmatch(r"c\d\d", k):
            CHECKS["C" + k[1:]] = getattr(mod, k)


def known_findings(pid):
    """lines 'finding: property=<id> rule=<rule> site=<file:function> <text>' of the committed file"""
    path = os.path.join(Hn.VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) rule=\"([^\"]*)\" site=\"([^\"]*)\" (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def site(loc):
    """file and construct of a location, without its line number"""
    m = re.match(r"(.*?):\d+(?: in (.*))?$", loc)
    return (m.group(1) + (":" + m.group(2) if m.group(2) else "")) if m else loc


def repo_digest():
    h = hashlib.sha256()
    n = 0
    for base, dirs, files in sorted(os.walk(os.path.join(Hn.ROOT, "src"))):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                n += 1
                h.update(f.encode())
                h.update(open(os.path.join(base, f), "rb").read())
    return h.hexdigest()[:16], n


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    R = Hn.Report(pid, tier)
    broken = None
    try:
        CHECKS[pid](R, tier)
    except Hn.AnchorLost as e:
        broken = str(e)
    vio, und, held = R.finish()
    known = known_findings(pid)
    new, listed = [], []
    for o in vio:
        k = next((k for k in known if k[0] == o["rule"] and k[1] == site(o["loc"])), None)
        if k is None:
            new.append(o)
        elif k not in listed:
            listed.append(k)
    digest, nfiles = repo_digest()
    rules = {}
    for o in R.obs:
        r = rules.setdefault(o["rule"], dict(held=0, violated=0, undecided=0))
        r[o["status"]] += 1
    scenes = sorted({o["scene"] for o in R.obs})
    ev = dict(
        property=pid, tier=tier, seed=seed, level="other",
        coverage=dict(
            explanation="Static analysis of /repo's current source: an abstract interpretation over the syntax trees (gated pointwise "
                        "values, joins at merge points) whose results are compared with the specification per obligation; "
                        "nothing of the repository is imported or run. The counts are of this run.",
            obligations=len(R.obs), discharged=len(held), violated=len(vio), undecided=len(und),
            scenes=len(scenes), scene_names=scenes[:200], rules=rules,
            functions_analysed=sorted(f"{a}:{b}" for a, b in R.analysed),
            source_digest=digest, source_files=nfiles,
            samples=R.samples[:12],
            undecided_list=[{k: o[k] for k in ("scene", "rule", "detail", "loc")} for o in und][:50],
            unmodelled=sorted(f"{a}: {b}" for a, b in R.unknown)[:50],
            notes=R.notes,
        ),
        assumptions=R.assumptions or ["tensor contents are finite reals (no NaN, infinity or rounding)",
                                      "jax, numpy and flax behave as modelled in actcheck/jaxmodel.py",
                                      "shapes are represented by the scenes listed; element values, indices and tree contents are arbitrary"],
        wall_s=round(time.time() - R.t0, 3), violations=len(new))
    out = os.environ.get("ACTCHECK_OUT", Hn.VERIF)     # development only: another place for the evidence
    os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
    with open(os.path.join(out, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for k in listed:
        print(f"KNOWN-FINDING: property={pid} {k[2]}")
    for o in und[:20]:
        print(f"UNDECIDED property={pid} [{o['scene']}] {o['rule']}: {o['detail']} ({o['loc']})")
    if new:
        rp = os.path.join("evidence", pid + ".violation.json")
        with open(os.path.join(out, rp), "w") as f:
            json.dump(dict(property=pid, violations=new), f, indent=1)
        seen = set()
        for o in new:
            key = (o["rule"], o["loc"])
            if key in seen:
                continue
            seen.add(key)
            if len(seen) <= 12:
                print(f"  {o['loc'] or '(no single construct)'}: {o['rule']}: {o['detail']}  [scene {o['scene']}]")
                for s in o.get("stack", [])[-6:]:
                    print(f"      via {s}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if broken is not None:
        print(f"ANALYSIS-BROKEN property={pid} {broken}")
        return 2
    if not held:
        print(f"ANALYSIS-BROKEN property={pid} no obligation could be decided")
        return 2
    print(f"{pid} {tier}: {len(held)} of {len(R.obs)} obligations hold in {len(scenes)} scenes, {len(und)} undecided, "
          f"{len(R.analysed)} functions analysed, {time.time() - R.t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
