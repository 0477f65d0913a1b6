"""Writes /verif/MANIFEST.json from the properties and the list of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from actcheck.run import CHECKS

TECH = {
    "value": "abstract interpretation over the syntax trees with a gated pointwise value-flow domain; result compared with the "
             "specified transfer function",
    "effect": "abstract interpretation: heap effect and ownership analysis of every operation on frozen receivers and arguments",
    "proto": "abstract interpretation: typestate of pending updates, exception-exit analysis per protocol state",
    "frame": "abstract interpretation: field frame (may-change) analysis of every operation on the state object",
    "tree": "abstract interpretation of the registered flatten/unflatten pairs over symbolic trees",
    "taint": "abstract interpretation with tracer taint: no tensor content reaches python control flow or shapes",
    "exc": "abstract interpretation: exception-exit conditions of each entry point compared with the specified admission predicate",
    "marks": "abstract interpretation with precision, derivative and absorption marks propagated along the data flow of every operation",
    "fail": "abstract interpretation: exception-exit analysis of every operation with user functions that raise at each of their calls",
    "pure": "abstract interpretation: results of an operation compared between histories (relational purity analysis) with sources of "
            "nondeterminism as unconstrained values",
    "traced": "abstract interpretation: relational analysis of every operation on traced and on concrete tensors (tracer taint as an input)",
    "rank": "abstract interpretation: ranking function of one step and bounded analysis of the loop under a lower bound on the gain",
    "names": "name, attribute and signature resolution over every function body of the package (symbol tables, definite assignment, "
             "call-signature agreement)",
}
KIND = dict(C01="value", C02="value", C03="value", C04="value", C05="value", C06="value", C07="proto", C08="value", C09="effect",
            C10="frame", C11="tree", C12="taint", C13="exc", C14="exc", C15="exc", C16="frame", C17="value", C18="exc",
            C19="value", C20="tree", C21="names", C22="effect", C23="exc", C25="traced", C26="rank",
            C27="marks", C28="marks", C29="marks", C30="fail", C31="pure")
NOTE = {}
NA = {
    "C24": "quantifies over rounding of floating point histories and the numeric range of a dtype; the static domain here is exact "
           "real arithmetic, and no sound static bound on the accumulated rounding error of arbitrary jax kernels is in reach",
}
DEFAULT_NOTE = ("Holds for arbitrary finite tensor contents over the listed families of shapes, trees and modes (representative, not all, "
                "shapes). Trusts the model of jax/numpy/flax in actcheck/jaxmodel.py and exact real arithmetic; obligations the "
                "analysis cannot model are reported as undecided, not as passed.")


def main():
    checks = []
    for pid in sorted(CHECKS):
        checks.append(dict(property=pid, quick_cmd=f"python3 -m actcheck.run {pid} --tier quick",
                           thorough_cmd=f"python3 -m actcheck.run {pid} --tier thorough",
                           evidence_file=f"evidence/{pid}.json", technique=TECH[KIND[pid]], level="other",
                           level_note=NOTE.get(pid, DEFAULT_NOTE)))
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    na = [dict(property=p, reason=NA.get(p, "check under construction")) for p in ids if p not in CHECKS]
    m = dict(version=1, setup_cmd="python3 -c 'import ast, json, actcheck.run'", checks=checks, not_applicable=na,
             notes="Static analysis only: no check imports or runs code of /repo. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
