"""Development tool: mutation analysis of the checks. Not used by any check.

  python3 tools/mutate.py list            number of mutants per file and operator
  python3 tools/mutate.py run OUT.jsonl [--file substr] [--every K] [--jobs N]

Every mutant is one small edit of /repo/src in a scratch copy under /tmp; the checks run on the copy (ACTCHECK_ROOT) in an
order that suits the file until one reports a violation. Survivors are then read by hand: equivalent, outside every property,
or a hole in a check.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FILES = ["core/controller.py", "core/states.py", "core/builder.py", "core/tensoreditor.py", "core/viewer.py", "core/utils.py", "core/immutable.py",
         "layers/act.py", "layers/core.py", "frameworks/flax.py"]
ORDER = {
    "core/controller.py": "C07 C08 C04 C03 C02 C05 C01 C06 C11 C10 C12 C09",
    "core/states.py": "C10 C11 C23 C09 C13",
    "core/builder.py": "C14 C13 C10 C11 C09",
    "core/tensoreditor.py": "C15 C16 C11 C10 C09",
    "core/viewer.py": "C17 C06 C11 C10 C09 C12",
    "core/utils.py": "C20 C23 C04 C15 C08",
    "core/immutable.py": "C09 C10",
    "layers/act.py": "C19 C22 C18 C11 C12",
    "layers/core.py": "C18 C14 C19",
    "frameworks/flax.py": "C22 C12",
}
ALL = ["C%02d" % i for i in [*range(1, 24), *range(27, 32)]]
CMP = {ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
OPS = {">": ast.Gt}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+", "/"], ast.Div: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}
FIELDS = ["epsilon", "probabilities", "residuals", "iterations", "accumulators", "defaults", "updates", "depression_constant", "error_mode"]
EXC = ["ValueError", "TypeError", "RuntimeError", "AttributeError"]


class Src:
    def __init__(self, text):
        self.text = text
        self.lines = text.split("\n")
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = text.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def get(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def rep(self, *edits):
        b = self.b
        for (a, e), t in sorted(edits, key=lambda x: -x[0][0]):
            b = b[:a] + t.encode() + b[e:]
        return b.decode()


def mutants(path):
    text = open(path).read()
    s = Src(text)
    tree = ast.parse(text)
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    skip = set()
    for n in ast.walk(tree):
        # messages and docstrings
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and ("msg" in t.id or "message" in t.id) for t in n.targets):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and "msg" in n.target.id:
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.FunctionDef,)):
            for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
                if a.annotation:
                    skip |= {id(x) for x in ast.walk(a.annotation)}
            if n.returns:
                skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(id(n))
    out = []

    def add(op, n, new, what):
        out.append((op, n.lineno, what, new))

    def where_locals(n):
        p = n
        while p in parents:
            p = parents[p]
            if isinstance(p, ast.FunctionDef):
                names = [a.arg for a in p.args.args]
                for x in ast.walk(p):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in names:
                        names.append(x.id)
                return [x for x in names if "msg" not in x and "message" not in x and x not in ("self", "cls", "context", "info")]
        return []

    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                a, b = s.span(n.left)[1], s.span(n.comparators[0])[0]
                add("cmp", n, s.rep(((a, b), f" {o} ")), f"{s.get(n)[:60]} -> {o}")
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                a, b = s.span(n.left)[1], s.span(n.right)[0]
                mid = s.b[a:b].decode()
                if "(" in mid or ")" in mid:
                    continue
                add("bin", n, s.rep(((a, b), f" {o} ")), f"{s.get(n)[:60]} -> {o}")
        if isinstance(n, ast.BoolOp):
            a, b = s.span(n.values[0])[1], s.span(n.values[1])[0]
            o = "or" if isinstance(n.op, ast.And) else "and"
            mid = s.b[a:b].decode()
            add("bool", n, s.rep(((a, b), mid.replace("and" if o == "or" else "or", o))), f"{s.get(n)[:60]} -> {o}")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            add("unary", n, s.rep((s.span(n), "(" + s.get(n.operand) + ")")), f"{s.get(n)[:60]} dropped")
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not Ellipsis and n.value is not None:
            vs = [not n.value] if isinstance(n.value, bool) else [n.value + 1, -n.value if n.value else None]
            for v in vs:
                if v is not None:
                    add("const", n, s.rep((s.span(n), repr(v))), f"{n.value} -> {v}")
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]) and s.get(n.args[0]) != s.get(n.args[1]):
                add("swap", n, s.rep((s.span(n.args[0]), s.get(n.args[1])), (s.span(n.args[1]), s.get(n.args[0]))), s.get(n)[:70].replace("\n", " "))
            for i, k in enumerate(n.keywords):
                if k.arg is None:
                    continue
                a, b = s.span(k)
                e = b
                while s.b[e:e + 1] in (b" ", b"\n"):
                    e += 1
                if s.b[e:e + 1] == b",":
                    e += 1
                else:
                    e = b
                add("kwdel", n, s.rep(((a, e), "")), f"{k.arg}= dropped")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype"):
                add("unwrap", n, s.rep((s.span(n), s.get(n.func.value))), s.get(n)[:60])
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("all", "any"):
                a, b = s.span(n.func)
                add("allany", n, s.rep(((a, b), s.get(n.func.value) + "." + ("any" if n.func.attr == "all" else "all"))), s.get(n)[:60])
            if isinstance(n.func, ast.Name) and n.func.id in ("all", "any"):
                add("allany", n, s.rep((s.span(n.func), "any" if n.func.id == "all" else "all")), s.get(n)[:60])
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in FIELDS:
            a, b = s.span(n)
            for f in FIELDS:
                if f != n.attr and {f, n.attr} in ({"probabilities", "residuals"}, {"residuals", "iterations"}, {"accumulators", "defaults"}, {"defaults", "updates"},
                                                   {"accumulators", "updates"}, {"epsilon", "depression_constant"}, {"probabilities", "iterations"}):
                    add("field", n, s.rep(((a, b), s.get(n.value) + "." + f)), f"{s.get(n)} -> {f}")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and not isinstance(parents.get(n), ast.Attribute):
            par = parents.get(n)
            if not (isinstance(par, ast.Call) and par.func is n):
                ls = where_locals(n)
                if n.id in ls:
                    i = ls.index(n.id)
                    for j in (1, 2):
                        o = ls[(i + j) % len(ls)]
                        if o != n.id:
                            add("name", n, s.rep((s.span(n), o)), f"{n.id} -> {o}")
        if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call) and isinstance(n.exc.func, ast.Name) and n.exc.func.id in EXC:
            i = EXC.index(n.exc.func.id)
            add("exc", n, s.rep((s.span(n.exc.func), EXC[(i + 1) % 3])), f"{n.exc.func.id}")
        if isinstance(n, ast.If):
            add("iftrue", n, s.rep((s.span(n.test), "True")), s.get(n.test)[:60])
            add("iffalse", n, s.rep((s.span(n.test), "False")), s.get(n.test)[:60])
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Assert)):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(parents.get(n), (ast.Module, ast.ClassDef)):
                continue
            add("delete", n, s.rep((s.span(n), "pass")), s.get(n)[:70].replace("\n", " "))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            if n.slice.upper is not None and n.slice.lower is None:
                add("slice", n, s.rep((s.span(n.slice), s.get(n.slice.upper) + ":")), s.get(n)[:60])
            elif n.slice.lower is not None and n.slice.upper is None:
                add("slice", n, s.rep((s.span(n.slice), ":" + s.get(n.slice.lower))), s.get(n)[:60])
    seen, res = set(), []
    for op, line, what, new in out:
        if new in seen or new == text:
            continue
        try:
            compile(new, path, "exec")
        except (SyntaxError, ValueError):
            continue
        seen.add(new)
        res.append((op, line, what, new))
    return res


def run_one(job):
    rel, op, line, what, new, checks = job
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"), ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(d, "src/jax_act", rel), "w") as f:
            f.write(new)
        env = dict(os.environ, ACTCHECK_ROOT=d, ACTCHECK_OUT=d, VERIF_TIER="quick", ACTCHECK_STATIC_ONLY="1")
        caught, odd = None, []
        for c in checks:
            try:
                p = subprocess.run([sys.executable, "-m", "actcheck.run", c], cwd=VERIF, env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                odd.append(c + ":timeout")
                continue
            if p.returncode == 1:
                caught = c
                break
            if p.returncode != 0:
                odd.append(f"{c}:{p.returncode}:{p.stdout[-120:].strip()} {p.stderr[-200:].strip() if p.returncode > 2 else ''}")
            elif "UNDECIDED" in p.stdout:
                odd.append(c + ":undecided")
        return dict(file=rel, op=op, line=line, what=what, caught=caught, odd=odd)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == "list":
        for rel in FILES:
            ms = mutants(os.path.join(REPO, "src/jax_act", rel))
            c = {}
            for m in ms:
                c[m[0]] = c.get(m[0], 0) + 1
            print(rel, len(ms), c)
        return
    out = sys.argv[2]
    opt = dict(zip(sys.argv[3::2], sys.argv[4::2]))
    every, jobs = int(opt.get("--every", 1)), int(opt.get("--jobs", 7))
    todo = []
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["file"], r["op"], r["line"], r["what"]))
    for rel in FILES:
        if opt.get("--file", "") not in rel:
            continue
        first = ORDER[rel].split()
        checks = first + [c for c in ALL if c not in first]
        for m in mutants(os.path.join(REPO, "src/jax_act", rel)):
            if (rel, m[0], m[1], m[2]) not in done:
                todo.append((rel,) + m + (checks,))
    todo = todo[::every]
    print(len(todo), "mutants")
    with ThreadPoolExecutor(jobs) as ex, open(out, "a") as f:
        for x in as_completed([ex.submit(run_one, t) for t in todo]):
            r = x.result()
            f.write(json.dumps(r) + "\n")
            f.flush()


main()
