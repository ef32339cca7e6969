"""
Systematic mutants of one module, run against the tests and then the checks.

  mutate.py list  MODULE              print the mutants
  mutate.py run   MODULE OUT PROPS... [--only FUNC,..] [--every N] [--runs F]

MODULE is relative to dustgoggles/, e.g. codex/implements.py.  Works in a copy
of the repository below /tmp/mut (removed at the end); survivors are written
to OUT as a list to be judged by hand (equivalent, or a gap of the checks).
"""
import ast
import copy
import json
import os
import pathlib
import shutil
import subprocess
import sys
import time

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
PY = "/opt/venv/bin/python"
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt,
        ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def docstring(node, parents):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)


def sites(tree):
    """yields (description, function name, mutate(node) on a fresh copy)"""
    out = []
    order = list(ast.walk(tree))
    where = {}

    def scope(node, name):
        for child in ast.iter_child_nodes(node):
            n = name
            if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
                n = f"{name}.{child.name}" if name else child.name
            where[id(child)] = n
            scope(child, n)
    scope(tree, "")
    for ix, node in enumerate(order):
        fn = where.get(id(node), "")
        line = getattr(node, "lineno", 0)

        def add(desc, f):
            out.append((f"{line}: {desc}", fn, ix, f))
        if isinstance(node, ast.Compare) and type(node.ops[0]) in SWAP:
            def f(n):
                n.ops[0] = SWAP[type(n.ops[0])]()
            add(f"swap {ast.unparse(node)}", f)
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            def f(n):
                n.test = ast.UnaryOp(ast.Not(), n.test)
            if not isinstance(node.test, ast.Compare):
                add(f"negate {ast.unparse(node.test)}", f)
        if isinstance(node, ast.BoolOp):
            def f(n):
                n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            add(f"and/or {ast.unparse(node)}", f)
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            def f(n):
                n.value = not n.value
            add(f"flip {node.value}", f)
        elif isinstance(node, ast.Constant) and isinstance(node.value, int):
            def f(n):
                n.value += 1
            add(f"inc {node.value}", f)
        if isinstance(node, ast.BinOp) and isinstance(
                node.op, (ast.Add, ast.Sub)):
            def f(n):
                n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
            if not isinstance(node.left, ast.JoinedStr):
                add(f"+/- {ast.unparse(node)}", f)
        for field in ("body", "orelse", "finalbody"):
            body = getattr(node, field, None)
            if not isinstance(body, list):
                continue
            for j, st in enumerate(body):
                sfn = where.get(id(st), fn)
                if docstring(st, None) or isinstance(
                        st, (ast.FunctionDef, ast.ClassDef, ast.Import,
                             ast.ImportFrom, ast.Pass)):
                    continue
                if "debug" in ast.unparse(st)[:60] or not sfn:
                    continue

                def f(n, field=field, j=j):
                    getattr(n, field)[j] = ast.Pass()
                head = ast.unparse(st).split("\n")[0][:70]
                out.append((f"{st.lineno}: drop `{head}`", sfn, ix, f))
                if isinstance(st, ast.With):
                    def f(n, field=field, j=j):
                        b = getattr(n, field)
                        b[j:j + 1] = b[j].body
                    out.append((f"{st.lineno}: unwrap `{head}`", sfn, ix, f))
                if j + 1 < len(body) and not isinstance(
                        body[j + 1], (ast.Return, ast.Raise, ast.Continue)) \
                        and not docstring(st, None):
                    def f(n, field=field, j=j):
                        b = getattr(n, field)
                        b[j], b[j + 1] = b[j + 1], b[j]
                    out.append((f"{st.lineno}: exchange `{head}` with next",
                                sfn, ix, f))
        if isinstance(node, ast.Try):
            for j, h in enumerate(node.handlers):
                def f(n, j=j):
                    del n.handlers[j]
                    if not n.handlers and not n.finalbody:
                        n.finalbody = [ast.Pass()]
                        n.orelse = []
                out.append((f"{h.lineno}: no handler "
                            f"`{ast.unparse(h).splitlines()[0]}`", fn, ix, f))
            if node.finalbody:
                def f(n):
                    n.body = n.body + n.finalbody
                    n.finalbody = []
                    if not n.handlers:
                        n.finalbody = [ast.Pass()]
                out.append((f"{line}: finally only without errors", fn, ix, f))
    return out


def main():
    cmd, module = sys.argv[1:3]
    src = (REPO / "dustgoggles" / module).read_text()
    muts = sites(ast.parse(src))
    if cmd == "list":
        for k, m in enumerate(muts):
            print(k, m[1], m[0])
        print(len(muts))
        return
    out = pathlib.Path(sys.argv[3])
    rest = sys.argv[4:]
    opts = {}
    props = []
    while rest:
        a = rest.pop(0)
        if a.startswith("--"):
            opts[a[2:]] = rest.pop(0)
        else:
            props.append(a)
    wt = pathlib.Path(f"/tmp/mut/{os.getpid()}")
    wt.parent.mkdir(exist_ok=True)
    shutil.copytree(REPO, wt, symlinks=True)
    target = wt / "dustgoggles" / module
    every, start = int(opts.get("every", 1)), int(opts.get("start", 0))
    only = opts.get("only", "").split(",") if "only" in opts else None
    skip = opts.get("skip", "").split(",") if "skip" in opts else ()
    tally = dict(tests=0, same=0, caught=0, survived=0, harness=0)
    log = out.open("a")
    base = ast.unparse(ast.parse(src))
    env = dict(os.environ, VERIF_REPO=str(wt), SIM_NO_CONFIRM="1",
               PYTHONDONTWRITEBYTECODE="1")
    for k, (desc, fn, ix, f) in enumerate(muts):
        if k % every != start % every or k < start:
            continue
        if only and not any(o in fn for o in only):
            continue
        if any(s in fn for s in skip):
            continue
        tree = ast.parse(src)
        f(list(ast.walk(tree))[ix])
        text = ast.unparse(ast.fix_missing_locations(tree))
        if text == base:
            tally["same"] += 1
            continue
        target.write_text(text)
        try:
            r = subprocess.run(
                [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                 "dustgoggles"], cwd=wt,
                capture_output=True, timeout=40).returncode
        except subprocess.TimeoutExpired:
            r = 1
        if r:
            tally["tests"] += 1
            continue
        res = "SURVIVED"
        t = time.time()
        for p in props:
            try:
                c = subprocess.run([str(pathlib.Path(__file__).resolve().parent.parent / "check"), p, "quick"], env=env,
                                   capture_output=True, text=True,
                                   timeout=600)
            except subprocess.TimeoutExpired:
                res = f"timeout {p}"
                break
            if c.returncode == 1:
                res = f"caught {p}"
                break
            if c.returncode != 0:
                res = f"HARNESS {p} {c.returncode} {c.stdout[-200:]!r}"
                break
        kind = "caught" if res.startswith("caught") else "survived" \
            if res == "SURVIVED" else "harness"
        tally[kind] += 1
        log.write(f"{k} {fn} {desc} => {res} ({time.time() - t:.0f}s)\n")
        log.flush()
    target.write_text(src)
    log.write(json.dumps(tally) + "\n")
    print(tally)
    shutil.rmtree(wt)


main()
