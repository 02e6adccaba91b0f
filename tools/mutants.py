"""Measures the checks by mutation: small edits of the library that its own tests do not notice, and which check does.

    mutants.py make  OUT [file-substring...]     lists the mutants of the library's source
    mutants.py run   OUT [--frac 0.1] [--n 100]  runs the existing tests and, if they pass, part of every check
    mutants.py show  OUT                         lists those that nothing noticed

Works on copies of the packages under /tmp (found by way of PYTHONPATH), never on /repo.  No check uses this."""
import ast
import glob
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import time

REPO = "/repo"
PKGS = ["src/connectrpc", "connectrpc-otel/connectrpc_otel", "protoc-gen-connectrpc/protoc_gen_connectrpc"]
SKIP = ("_version.py", "_asyncio_timeout.py", "status_pb.py", "_semconv.py")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def muts(tree):
    """Yields (line, description, apply) where apply changes the tree in place and returns an undo function."""
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.dump(n.test):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            for m in ast.walk(n.body[0]):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in [*ast.walk(n.args)] + ([*ast.walk(n.returns)] if n.returns else []):
                if not isinstance(a, ast.Constant) or a.value is not None:
                    skip.add(id(a))
        if isinstance(n, ast.AnnAssign):
            for m in ast.walk(n.annotation):
                skip.add(id(m))
        if isinstance(n, ast.Subscript):
            pass
        # texts of errors say nothing about behaviour
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("ConnectError", "RuntimeError", "ValueError", "TypeVar", "cast"):
            for a in n.args:
                for m in ast.walk(a):
                    if isinstance(m, (ast.Constant, ast.JoinedStr)):
                        skip.add(id(m))
                        for mm in ast.walk(m):
                            skip.add(id(mm))

    def rep(node, field, new):
        old = getattr(node, field)
        def do():
            setattr(node, field, new)
            return lambda: setattr(node, field, old)
        return do

    CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
           ast.In: ast.NotIn, ast.NotIn: ast.In}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield ln, "cmp", rep(n, "ops", [CMP[type(n.ops[0])]()])
            if isinstance(n.ops[0], (ast.Lt, ast.Gt)):
                pass
        if isinstance(n, ast.BoolOp):
            yield ln, "boolop", rep(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())
            for i in range(len(n.values)):
                if len(n.values) > 1:
                    yield ln, f"drop operand {i}", rep(n, "values", n.values[:i] + n.values[i + 1:] if len(n.values) > 2 else [n.values[1 - i], n.values[1 - i]])
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for v in (True, False):
                if not (isinstance(n, ast.While) and isinstance(n.test, ast.Constant)):
                    yield ln, f"cond {v}", rep(n, "test", ast.Constant(v))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            yield ln, "arith", rep(n, "op", ast.Sub() if isinstance(n.op, ast.Add) else ast.Add())
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Div, ast.FloorDiv)):
            yield ln, "arith", rep(n, "op", ast.Div() if isinstance(n.op, ast.Mult) else ast.Mult())
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield ln, "not", rep(n, "op", ast.UAdd()) if False else rep(n, "operand", ast.UnaryOp(ast.Not(), n.operand))
        if isinstance(n, ast.Constant) and id(n) not in skip:
            if isinstance(n.value, bool):
                yield ln, "bool", rep(n, "value", not n.value)
            elif isinstance(n.value, int):
                yield ln, "int+1", rep(n, "value", n.value + 1)
                if n.value > 0:
                    yield ln, "int-1", rep(n, "value", n.value - 1)
            elif isinstance(n.value, str) and n.value and n.value != "utf-8":
                yield ln, f"str {n.value!r}", rep(n, "value", n.value + "X")
                if len(n.value) > 1:
                    yield ln, f"str empty {n.value!r}", rep(n, "value", "")
            elif isinstance(n.value, bytes):
                yield ln, "bytes", rep(n, "value", n.value + b"X")
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Name) and n.type.id in ("Exception", "BaseException"):
            yield ln, "except narrower", rep(n, "type", ast.Name("ValueError", ast.Load()))
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for e in n.type.elts:
                yield ln, "except one", rep(n, "type", e)
        if isinstance(n, ast.Try) and n.finalbody:
            yield ln, "no finally", rep(n, "finalbody", [ast.Pass()])
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("lower", "strip", "rstrip", "lstrip", "copy", "removeprefix", "partition", "encode", "upper"):
                # x.lower() -> x
                pass
            if len(n.args) == 2:
                yield ln, "swap args", rep(n, "args", n.args[::-1])
            for i, k in enumerate(n.keywords):
                if k.arg:
                    yield ln, f"drop keyword {k.arg}", rep(n, "keywords", n.keywords[:i] + n.keywords[i + 1:])
        for f, v in ast.iter_fields(n):
            vs = v if isinstance(v, list) else [v]
            for i, c in enumerate(vs):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("lower", "strip", "rstrip", "lstrip", "copy", "upper") and id(c) not in skip:
                    new = c.func.value
                    yield c.lineno, f"drop .{c.func.attr}()", rep(n, f, vs[:i] + [new] + vs[i + 1:] if isinstance(v, list) else new)
                if isinstance(c, ast.Slice) and c.lower is not None:
                    pass
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if not isinstance(b, list):
                continue
            for i, s in enumerate(b):
                if id(s) in skip:
                    continue
                gone = b[:i] + [ast.Pass()] + b[i + 1:]
                if isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant):
                    yield s.lineno, f"drop statement {ast.unparse(s)[:60]}", rep(n, f, gone)
                elif isinstance(s, (ast.Raise, ast.Break, ast.Continue)):
                    yield s.lineno, f"drop {ast.unparse(s)[:60]}", rep(n, f, gone)
                elif isinstance(s, (ast.Assign, ast.AugAssign)) and not isinstance(n, (ast.Module, ast.ClassDef)):
                    yield s.lineno, f"drop {ast.unparse(s)[:60]}", rep(n, f, gone)
                elif isinstance(s, ast.Return) and s.value is not None and not (isinstance(s.value, ast.Constant)):
                    yield s.lineno, f"return None instead of {ast.unparse(s)[:60]}", rep(n, f, b[:i] + [ast.Return(ast.Constant(None))] + b[i + 1:])
                elif isinstance(s, (ast.With, ast.AsyncWith)):
                    yield s.lineno, "drop with", rep(n, f, b[:i] + ([ast.Assign([s.items[0].optional_vars], s.items[0].context_expr)] if s.items[0].optional_vars else []) + s.body + b[i + 1:])


def make(out, subs):
    os.makedirs(out, exist_ok=True)
    allm = []
    for pkg in PKGS:
        for p in sorted(glob.glob(f"{REPO}/{pkg}/**/*.py", recursive=True)):
            rel = os.path.relpath(p, REPO)
            if rel.endswith(SKIP) or (subs and not any(s in rel for s in subs)):
                continue
            src = open(p).read()
            tree = ast.parse(src)
            base = ast.unparse(tree)
            seen = {base}
            for ln, what, do in list(muts(tree)):
                undo = do()
                try:
                    text = ast.unparse(ast.fix_missing_locations(tree))
                    compile(text, rel, "exec")
                except Exception:
                    text = None
                undo()
                if text is None or text in seen:
                    continue
                seen.add(text)
                allm.append({"file": rel, "line": ln, "what": what, "text": text})
    json.dump(allm, open(f"{out}/all.json", "w"))
    print(len(allm), "mutants")


def base_for(out):
    """A snapshot of the repository and of this framework, so that both can change while mutants run."""
    base = f"{out}/base"
    if not os.path.exists(base):
        shutil.copytree(REPO, f"{base}/repo", symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git"))
        subprocess.run(["git", "clone", "-q", ROOT, f"{base}/verif"], check=True)
    return base


def tree_for(out, m, i):
    d = f"{out}/t{i}"
    shutil.rmtree(d, ignore_errors=True)
    for pkg in PKGS:
        shutil.copytree(f"{out}/base/repo/{pkg}", f"{d}/{pkg}", ignore=shutil.ignore_patterns("__pycache__"))
    open(f"{d}/{m['file']}", "w").write(m["text"])
    return d, ":".join(f"{d}/{os.path.dirname(p)}" for p in PKGS)


def env_for(path):
    return {**os.environ, "PYTHONPATH": path, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent/mut", "PYTHONHASHSEED": "0",
            "PATH": "/opt/venv/bin:" + os.environ["PATH"]}


def _tests(out, path, m):
    repo = f"{out}/base/repo"
    for cwd in ([f"{repo}/connectrpc-otel", repo] if "otel" in m["file"] else [repo, f"{repo}/connectrpc-otel"]):
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=30"], cwd=cwd, env=env_for(path), capture_output=True, timeout=150)
        except subprocess.TimeoutExpired:
            return False
        if r.returncode:
            return False
    return True


RUNNER = r'''
import sys, os, importlib, random, time, json, resource
frac, props = float(sys.argv[1]), sys.argv[2:]
resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
from vf import core
for p in props:
    mod = importlib.import_module(f"vf.props.{p.lower()}")
    rec = core.Recorder(mod.ID, "quick", 7)
    if hasattr(mod, "setup"): mod.setup(rec)
    r = random.Random(5)
    jobs = [(n, i) for n, w in mod.WORKLOADS.items() for i in range(w.quick) if r.random() < max(frac, min(1.0, 12 / w.quick))]
    r.shuffle(jobs)
    for n, i in jobs:
        core.run_case(rec, mod, n, i)
        if rec.st.violations or len(rec.st.errors) > 3: break
    if hasattr(mod, "teardown"): mod.teardown(rec)
    if rec.st.violations:
        v = rec.st.violations[0]
        print("CAUGHT", p, v["sig"]); sys.stdout.flush(); os._exit(0)
    if rec.st.errors:
        print("ERROR", p, rec.st.errors[0][-300:])
print("SURVIVED"); sys.stdout.flush(); os._exit(0)
'''
ORDER = ["P23", "P18", "P17", "P26", "P25", "P24", "P04", "P05", "P09", "P01", "P16", "P15", "P10", "P07", "P02", "P06", "P03", "P14", "P08", "P11", "P19", "P12", "P13"]


def _run(a):
    out, m, i, frac = a
    props = ["P22"] if "protoc_gen" in m["file"] else ["P21", "P20", "P26"] if "otel" in m["file"] else ORDER
    d, path = tree_for(out, m, i)
    t0 = time.time()
    try:
        if not _tests(out, path, m):
            res = ["TESTS"]
        else:
            try:
                r = subprocess.run([PY, "-c", RUNNER, str(frac), *props], cwd=f"{out}/base/verif", env=env_for(path), capture_output=True, text=True, timeout=1200)
                res = r.stdout.strip().splitlines()[-3:] or [f"rc {r.returncode} {r.stderr[-300:]}"]
            except subprocess.TimeoutExpired:
                res = ["TIMEOUT"]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {**{k: m[k] for k in ("file", "line", "what")}, "i": i, "res": res, "t": round(time.time() - t0)}


def run(out, frac, n, par, only):
    base_for(out)
    allm = json.load(open(f"{out}/all.json"))
    order = [i for i, m in enumerate(allm) if only in m["file"]]
    random.Random(3).shuffle(order)
    try:
        done = {json.loads(x)["i"] for x in open(f"{out}/results.jsonl")}
    except FileNotFoundError:
        done = set()
    order = [i for i in order if i not in done][:n]
    with mp.Pool(par) as p:
        for r in p.imap_unordered(_run, [(out, allm[i], i, frac) for i in order]):
            with open(f"{out}/results.jsonl", "a") as f:
                f.write(json.dumps(r) + "\n")
    show(out)


def show(out):
    rs = [json.loads(x) for x in open(f"{out}/results.jsonl")]
    t = [r for r in rs if r["res"][-1] != "TESTS"]
    print(len(rs), "mutants,", len(t), "pass the tests,", sum(r["res"][-1].startswith("CAUGHT") for r in t), "of them caught")
    for r in sorted(t, key=lambda r: (r["file"], r["line"])):
        if not r["res"][-1].startswith("CAUGHT"):
            print(r["i"], r["file"], r["line"], r["what"], r["res"])


if __name__ == "__main__":
    cmd, out, *rest = sys.argv[1:]
    if cmd == "make":
        make(out, rest)
    elif cmd == "show":
        show(out)
    else:
        opt = dict(zip(rest[::2], rest[1::2]))
        run(out, float(opt.get("--frac", 0.1)), int(opt.get("--n", 10**6)), int(opt.get("--par", 7)), opt.get("--only", ""))
