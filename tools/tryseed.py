"""Quick trial of planted bugs in scratch copies, several at a time, never touching /repo.   tryseed.py [--par N] [--props P01,P02] ID...

With --dir DIR the planted bugs come from DIR and need no demonstration (tests and checks only)."""
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
from mutants import PKGS, PY, REPO, env_for  # noqa: E402


DIR = f"{ROOT}/tools/seeds"


def run(cmd, env, cwd, timeout):
    try:
        r = subprocess.run(cmd, env=env, cwd=cwd, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def one(i, props):
    d = runpy.run_path(f"{DIR}/{i}.py")
    d.setdefault("DEMO", "import sys; sys.exit(__import__('os').environ.get('VF_PATCHED', 0))")
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        shutil.copytree(REPO, f"{tmp}/repo", symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git"))
        os.makedirs(f"{tmp}/demo")
        open(f"{tmp}/demo/demo.py", "w").write(d["DEMO"].lstrip())
        shutil.copy(f"{ROOT}/tools/seedlib/h.py", f"{tmp}/demo/h.py")
        path = ":".join(f"{tmp}/repo/{os.path.dirname(p)}" for p in PKGS)
        env = env_for(path)
        demo = [PY, f"{tmp}/demo/demo.py"]
        res = {"id": i, "property": d["PROPERTY"]}
        res["demo_clean"] = run(demo, env, f"{tmp}/repo", 120)
        bad = []
        for f, old, new in d["EDITS"]:
            p = f"{tmp}/repo/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return f"{i}: {f} has the text {s.count(old)} times:\n{old}"
            open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["diff", f"{REPO}/{f}", p], capture_output=True, text=True).stdout
            orig = subprocess.run(["git", "-C", REPO, "show", f"d4302d4:{f}"], capture_output=True, text=True).stdout.splitlines()
            bad += [x for x in diff.splitlines() if x.startswith("< ") and x[2:].strip() and x[2:] not in orig]
        res["demo_patched"] = run(demo, {**env, "VF_PATCHED": "nothing shown"}, f"{tmp}/repo", 120)
        for cwd in (f"{tmp}/repo", f"{tmp}/repo/connectrpc-otel"):
            t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60"], env, cwd, 400)
            res.setdefault("tests", []).append((t[0], t[1].strip().splitlines()[-1][:120] if t[0] == 0 else t[1][-1500:]))
        checks = {}
        if DIR != f"{ROOT}/tools/seeds" and any(t[0] for t in res["tests"]):
            return f"TESTS FAIL {i}: {str([t[1][-100:] for t in res['tests'] if t[0]])[:300]}"
        for p in props or [d["PROPERTY"]]:
            c = run([PY, "-m", "vf.core", p], {**env, "VERIF_TIER": "quick", "VERIF_SEED": "1"}, ROOT, 900)
            checks[p] = (c[0], [x[:300] for x in c[1].splitlines() if not x.startswith(("VIOL", "KNOWN"))][:4])
        res["check"] = checks
        ok = not bad and res["demo_clean"][0] == 0 and res["demo_patched"][0] not in (0,) and all(t[0] == 0 for t in res["tests"])
        caught = any(c[0] == 1 for c in checks.values())
        out = f"{'VALID  ' if ok else 'INVALID'} {'CAUGHT' if caught else 'MISSED'} {i}\n"
        if bad:
            out += f"   changes lines of fixes: {bad}\n"
        if not ok:
            out += f"   demo clean {res['demo_clean'][0]} {res['demo_clean'][1][-900:] if res['demo_clean'][0] else ''}\n   tests {res['tests']}\n"
        out += f"   demo {res['demo_patched'][0]} {res['demo_patched'][1].strip()[-250:]}\n"
        for p, c in checks.items():
            out += f"   {p}: {c[0]} {json.dumps(c[1])[:700]}\n"
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    par, props = 3, None
    while args and args[0].startswith("--"):
        if args[0] == "--par":
            par = int(args[1])
        elif args[0] == "--dir":
            DIR = args[1]
        else:
            props = args[1].split(",")
        args = args[2:]
    ids = [os.path.basename(p)[:-3] for a in args for p in sorted(glob.glob(f"{DIR}/{a}.py"))]
    with ThreadPoolExecutor(par) as ex:
        for o in ex.map(lambda i: one(i, props), ids):
            print(o, flush=True)
