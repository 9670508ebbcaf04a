"""Development tool: turns planted-bug specifications into seeded/<id>/ and
confirms them in a scratch copy of /repo.

usage: plant.py SPECFILE [id ...]
A spec is {"id","prop","file","edits":[(old,new)],"needs","breaks","demo"}.
"""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0")
DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise (cwd: the repository)
S="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$S"' EXIT
mkdir -p "$S/work"
export MPLBACKEND=Agg MPLCONFIGDIR="$S" TMPDIR="$S/work" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"
H="$(cd "$(dirname "$0")" && pwd)"
timeout 250 /opt/venv/bin/python "$H/demo.py"
'''


def sh(cmd, cwd, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, timeout=timeout)
    return r.returncode, (r.stdout + r.stderr)


def one(sp):
    out = os.path.join(VERIF, "seeded", sp["id"])
    tmp = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    res = {"id": sp["id"], "prop": sp["prop"]}
    try:
        for n in ("a", "b"):
            subprocess.run(["git", "clone", "-q", "/repo", os.path.join(tmp, n)], check=True)
        a, b = os.path.join(tmp, "a"), os.path.join(tmp, "b")
        for f, old, new in sp["edits"]:
            p = os.path.join(b, f)
            s = open(p).read()
            if s.count(old) < 1:
                return dict(res, error=f"text not found: {old!r}")
            nth = 0
            if isinstance(new, tuple):
                new, nth = new
            elif s.count(old) != 1:
                return dict(res, error=f"text found {s.count(old)} times: {old!r}")
            parts = s.split(old)
            s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
            open(p, "w").write(s)
        diff = subprocess.run(["git", "diff"], cwd=b, capture_output=True, text=True).stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(sp["demo"].lstrip("\n"))
        json.dump({"property": sp["prop"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if False else None
        rc, o = sh(f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 tests 2>&1 | tail -4", b)
        res["tests"] = o.strip().splitlines()[-1] if o.strip() else "?"
        res["clean"], o1 = sh(f"bash {out}/demo.sh", a)
        res["buggy"], o2 = sh(f"bash {out}/demo.sh", b)
        if res["clean"] != 0:
            res["out"] = o1[-400:]
        env = dict(ENV, VERIF_REPO=b, VERIF_JOBS="8", VERIF_EVIDENCE=os.path.join(tmp, "ev"))
        try:
            r = subprocess.run([os.path.join(VERIF, "check.sh"), sp["prop"], "quick"], env=env, capture_output=True, text=True, timeout=900)
            res["check"] = r.returncode
            res["caught"] = any(l.startswith(f"VIOLATION property={sp['prop']} ") for l in r.stdout.splitlines())
        except subprocess.TimeoutExpired:
            res["check"] = "timeout"
            res["caught"] = False
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    specs = runpy.run_path(sys.argv[1])["SPECS"]
    want = set(sys.argv[2:])
    for s in specs:
        if want and s["id"] not in want:
            continue
        r = one(s)
        ok = r.get("clean") == 0 and r.get("buggy") not in (0, None) and "failed" not in r.get("tests", "failed")
        print(("OK  " if ok else "BAD ") + ("caught " if r.get("caught") else "MISSED ") + json.dumps(r), flush=True)


main()
