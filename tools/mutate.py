"""Mutation run: makes one small change at a time to a scratch copy of the library
and reports which of them no check notices (a development aid, not a check).

    mutate.py OUT.jsonl [--every N] [--offset K] [--repo DIR] FILE=C01,C02 ...
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", JAX_PLATFORMS="cpu", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
CMPTXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "+"), ast.FloorDiv: ("//", "%"), ast.Mod: ("%", "//"), ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&"),
       ast.LShift: ("<<", ">>"), ast.RShift: (">>", "<<"), ast.BitXor: ("^", "|")}
NAMES = {"logical_and": "logical_or", "logical_or": "logical_and", "minimum": "maximum", "maximum": "minimum", "any": "all", "all": "any", "argmin": "argmax", "argmax": "argmin",
         "min": "max", "max": "min", "bitwise_and": "bitwise_or", "bitwise_or": "bitwise_and", "right_shift": "left_shift", "left_shift": "right_shift", "zeros": "ones", "ones": "zeros"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def pos(line, col):
        return starts[line - 1] + col

    out = []

    def put(a, b, new, why, line):
        out.append((a, b, new.encode(), why, line))

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def between(left, right, old, new, why, line):
        a, b = span(left)[1], span(right)[0]
        seg = raw[a:b].decode()
        i = seg.find(old)
        if i >= 0:
            put(a + i, a + i + len(old), new, why, line)

    def walk(n, skip=False):
        if isinstance(n, (ast.Raise, ast.Assert)):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.body:
                walk(d)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value:
                walk(n.value)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.If):
            if all(isinstance(b, ast.Raise) for b in n.body) and not n.orelse:
                return
            a, b = span(n.test)
            put(a, b, f"not ({raw[a:b].decode()})", "if negated", n.lineno)
        if isinstance(n, ast.IfExp):
            a, b = span(n.test)
            put(a, b, f"(not ({raw[a:b].decode()}))", "conditional negated", n.lineno)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            between(n.left, n.comparators[0], CMPTXT[type(n.ops[0])], CMP[type(n.ops[0])], "comparison", n.lineno)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            old, new = BIN[type(n.op)]
            between(n.left, n.right, old, new, "operator", n.lineno)
        if isinstance(n, ast.BoolOp):
            old, new = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            between(n.values[0], n.values[1], old, new, "bool operator", n.lineno)
        if isinstance(n, ast.Constant):
            a, b = span(n)
            if n.value is True or n.value is False:
                put(a, b, str(not n.value), "constant", n.lineno)
            elif type(n.value) is int:
                put(a, b, str(n.value + 1), "constant +1", n.lineno)
                if n.value > 0:
                    put(a, b, str(n.value - 1), "constant -1", n.lineno)
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else None
            if name in NAMES:
                e = span(f)[1]
                put(e - len(name), e, NAMES[name], f"{name} replaced", n.lineno)
            if name == "logical_not":
                a, b = span(n)
                x, y = span(n.args[0])
                put(a, b, f"({raw[x:y].decode()})", "logical_not dropped", n.lineno)
            if name in ("logical_and", "logical_or") and len(n.args) == 2:
                a, b = span(n)
                for i in (0, 1):
                    x, y = span(n.args[i])
                    put(a, b, f"({raw[x:y].decode()})", f"{name} keeps only operand {i}", n.lineno)
            if name == "where" and len(n.args) == 3:
                a, b = span(n)
                for i in (1, 2):
                    x, y = span(n.args[i])
                    put(a, b, f"({raw[x:y].decode()})", f"where keeps only operand {i}", n.lineno)
            if name == "set" and len(n.args) == 1 and isinstance(f.value, ast.Subscript):
                a, b = span(n)
                x, y = span(f.value.value)
                t = raw[x:y].decode()
                if t.endswith(".at"):
                    put(a, b, f"{t[:-3]}", "update dropped", n.lineno)
            if name == "astype":
                a, b = span(n)
                x, y = span(f.value)
                put(a, b, f"{raw[x:y].decode()}", "cast dropped", n.lineno)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for n in tree.body:
        walk(n)
    seen = set()
    for a, b, new, why, line in out:
        m = raw[:a] + new + raw[b:]
        if m in seen or m == raw:
            continue
        seen.add(m)
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        yield line, why, raw[a:b].decode(), new.decode(), m


def main():
    argv = sys.argv[1:]
    out = argv.pop(0)
    every, offset, repo = 1, 0, "/repo"
    while argv and argv[0].startswith("--"):
        k = argv.pop(0)
        v = argv.pop(0)
        if k == "--every":
            every = int(v)
        elif k == "--offset":
            offset = int(v)
        elif k == "--repo":
            repo = v
    d = f"/tmp/mut/mutate-{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.check_call(["cp", "-a", repo, d])
    done = set()
    if os.path.exists(out):
        done = {(r["file"], r["n"]) for r in map(json.loads, open(out))}
    try:
        for spec in argv:
            path, checks = spec.split("=")
            full = os.path.join(d, path)
            src = open(full).read()
            ms = list(mutants(src))
            for n, (line, why, old, new, m) in enumerate(ms):
                if n % every != offset % every or (path, n) in done:
                    continue
                open(full, "wb").write(m)
                t, caught = time.time(), None
                for c in checks.split(","):
                    c, _, only = c.partition(":")
                    r = subprocess.run([os.path.join(ROOT, "run.sh"), c, "--fail-fast", "--jobs", os.environ.get("MUT_JOBS", "5")] + (["--only", only] if only else []), cwd=ROOT,
                                       env=dict(ENV, VERIF_REPO=d, VERIF_EVIDENCE=d + ".ev"), capture_output=True, text=True)
                    if r.returncode != 0:
                        caught = c if r.returncode == 1 else f"{c} error: {(r.stdout + r.stderr)[-200:]}"
                        break
                with open(out, "a") as f:
                    f.write(json.dumps({"file": path, "n": n, "of": len(ms), "line": line, "why": why, "old": old, "new": new, "caught": caught, "wall": round(time.time() - t, 1)}) + "\n")
            open(full, "w").write(src)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + ".ev", ignore_errors=True)


if __name__ == "__main__":
    main()
