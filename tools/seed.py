"""Builds and verifies planted bugs.   seed.py build|verify|catch ID...

seeds/<id>.py defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (source of demo.py).
build  writes seeded/<id>/ from it; verify checks everything a planted bug must satisfy, catch runs the property's check too."""
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["PYTHONPYCACHEPREFIX"] = "/nonexistent/vf"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    sh("git -C /repo checkout -- .")
    assert not sh("git -C /repo status --short").stdout.strip(), "repo is not clean"


def build(i):
    d = runpy.run_path(f"{ROOT}/tools/seeds/{i}.py")
    clean()
    out = f"{ROOT}/seeded/{i}"
    os.makedirs(out, exist_ok=True)
    try:
        for f, old, new in d["EDITS"]:
            p = f"{REPO}/{f}"
            s = open(p).read()
            n = s.count(old)
            assert n == 1, (i, f, n, old)
            open(p, "w").write(s.replace(old, new))
        open(f"{out}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally:
        clean()
    # only lines of the original repository may change
    open(f"{out}/demo.py", "w").write(d["DEMO"].lstrip())
    open(f"{out}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/demo\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{out}/demo.sh", 0o755)
    if "from h import" in d["DEMO"] or "import h" in d["DEMO"]:
        shutil.copy(f"{ROOT}/tools/seedlib/h.py", f"{out}/h.py")
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)


def original_lines(i):
    """Removed lines of the patch which my own commits added."""
    bad = []
    cur = None
    for line in open(f"{ROOT}/seeded/{i}/patch.diff"):
        if line.startswith("--- a/"):
            cur = line[6:].strip()
            orig = sh(f"git -C /repo show d4302d4:{cur}").stdout.splitlines()
        elif line.startswith("-") and cur and line[1:].strip():
            if line[1:].rstrip("\n") not in orig:
                bad.append(line.rstrip())
    return bad


def verify(i, catch):
    out = f"{ROOT}/seeded/{i}"
    meta = json.load(open(f"{out}/meta.json"))
    clean()
    res = {"id": i, "property": meta["property"]}
    bad = original_lines(i)
    if bad:
        res["changes_my_lines"] = bad
    r = sh(f"bash {out}/demo.sh", cwd=REPO)
    res["demo_clean"] = r.returncode
    if r.returncode:
        print(r.stdout[-2000:], r.stderr[-3000:])
    try:
        a = sh(f"git -C /repo apply {out}/patch.diff")
        assert a.returncode == 0, a.stderr
        b = sh("bash /opt/vp/build.sh")
        res["build"] = b.returncode
        t = sh("bash /opt/vp/test.sh /tmp/seed_tests.json")
        res["tests"] = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.returncode
        r = sh(f"bash {out}/demo.sh", cwd=REPO)
        res["demo_patched"] = (r.returncode, (r.stdout + r.stderr).strip()[-300:])
        if catch:
            c = sh(f"./check {meta['property']} --seed 1", cwd=ROOT, env={**os.environ, "VERIF_TIER": "quick"})
            res["check"] = (c.returncode, [x for x in c.stdout.splitlines() if not x.startswith("VIOL")][:4])
    finally:
        clean()
        if os.path.exists("/tmp/seed_tests.json"):
            os.remove("/tmp/seed_tests.json")
    ok = not bad and res["demo_clean"] == 0 and res["build"] == 0 and "235 passed, 0 failed" in str(res["tests"]) and res["demo_patched"][0] != 0
    print(("VALID  " if ok else "INVALID"), ("CAUGHT" if catch and res["check"][0] == 1 else "MISSED" if catch else ""), json.dumps(res)[:1500], flush=True)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if ids == ["all"]:
        ids = sorted(os.listdir(f"{ROOT}/seeded"))
    for i in ids:
        if cmd == "build":
            build(i)
        else:
            if os.path.exists(f"{ROOT}/tools/seeds/{i}.py") and cmd == "catch":
                build(i)
            verify(i, cmd == "catch")
