"""Development tool: behaviour-preserving rewrites of the repository on which every check has to stay quiet.

  python3 tools/refactor.py [name ...] [--checks C01,C02]

Each entry replaces whole functions of /repo/src in a scratch copy under /tmp; the stable tests are run on the copy
(that the rewrite behaves like the original is the author's claim), then the checks.
"""
import ast
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
ALL = ["C%02d" % i for i in [*range(1, 24), *range(27, 32)]]


def replace(text, qual, new):
    """replace (or, for 'Class.+' / '+', insert) a function given by qualified name"""
    tree = ast.parse(text)
    lines = text.split("\n")
    parts = qual.split(".")
    body, node = tree.body, None
    if parts[-1] == "+":
        for p in parts[:-1]:
            node = next(n for n in body if isinstance(n, ast.ClassDef) and n.name == p)
            body = node.body
        new = textwrap.dedent(new).strip("\n")
        if node is None:
            # after the imports
            at = max([n.end_lineno for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom))], default=0)
            return "\n".join(lines[:at] + new.split("\n") + lines[at:])
        first = next(n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)))
        at = min([first.lineno] + [d.lineno for d in first.decorator_list]) - 1
        return "\n".join(lines[:at] + textwrap.indent(new, "    ").split("\n") + lines[at:])
    for p in parts:
        node = next(n for n in body if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == p)
        body = node.body
    a = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
    ind = " " * node.col_offset
    new = textwrap.indent(textwrap.dedent(new).strip("\n"), ind)
    return "\n".join(lines[:a] + new.split("\n") + lines[node.end_lineno:])


def make(entry, d):
    shutil.copytree("/repo", os.path.join(d, "repo"), ignore=shutil.ignore_patterns("__pycache__", ".git"))
    for rel, edits in entry.items():
        p = os.path.join(d, "repo/src/jax_act", rel)
        t = open(p).read()
        for q, new in edits:
            if q == "sub":
                old, new = new
                assert t.count(old) >= 1, (rel, old)
                t = t.replace(old, new)
            else:
                t = replace(t, q, new)
        open(p, "w").write(t)
    return os.path.join(d, "repo")


def tests(root):
    p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "tests",
                        "--deselect", "none"], cwd=root, capture_output=True, text=True,
                       env=dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1"))
    return p.stdout.strip().split("\n")[-1]


def check(root, out, c):
    env = dict(os.environ, ACTCHECK_ROOT=root, ACTCHECK_OUT=out, VERIF_TIER="quick", ACTCHECK_STATIC_ONLY="1")
    p = subprocess.run([sys.executable, "-m", "actcheck.run", c], cwd=VERIF, env=env, capture_output=True, text=True)
    return c, p.returncode, p.stdout, p.stderr


def main():
    from refactorings import R
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    checks = ALL
    for a in sys.argv[1:]:
        if a.startswith("--checks="):
            checks = a[9:].split(",")
    bad = 0
    for name in args or list(R):
        d = tempfile.mkdtemp(prefix="refac.")
        try:
            root = make(R[name], d)
            with ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(lambda c: check(root, d, c), checks))
            odd = []
            for c, rc, so, se in rs:
                und = [l for l in so.split("\n") if l.startswith("UNDECIDED")]
                if rc or und:
                    odd.append((c, rc, so, se, und))
            print(f"{name}: " + ("quiet" if not odd else "; ".join(f"{c} rc={rc} undecided={len(u)}" for c, rc, _, _, u in odd)), flush=True)
            for c, rc, so, se, und in odd[:6]:
                bad += 1
                for l in (so.split("\n") if rc else und)[:4]:
                    print("     ", l[:260])
                if se.strip():
                    print("     ", se.strip()[-300:])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    print("problems:", bad)


if __name__ == "__main__":
    main()
