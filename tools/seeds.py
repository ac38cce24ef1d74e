#!/usr/bin/env python3
"""Planted bugs: definitions (tools/bugs/*.py) -> seeded/<id>/, and their verification.

  seeds.py make [ID..]     write seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}
  seeds.py verify [ID..]   in scratch copies: tests pass with the patch, demo 0 / nonzero,
                           and run the property's check against the patched copy
No check reads /verif/seeded.
"""
import json, os, sys, subprocess, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}
def bug(id, prop, edits, needs, breaks, demo):
    assert id not in BUGS, id
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)
for f in sorted(glob.glob(os.path.join(V, "tools", "bugs", "*.py"))):
    exec(compile(open(f).read(), f, "exec"))
DEMO = """#!/bin/bash
# cwd: a checkout of esa/NIDN.  Exit 0: behaviour as required.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
scratch=$(mktemp -d /tmp/demo_XXXXXX); export SCRATCH=$scratch MPLCONFIGDIR=$scratch
trap 'rm -rf "$scratch"' EXIT
/opt/venv/bin/python -W ignore "$here/demo.py"
"""
PRE = '''import os, sys, math, copy
import numpy as np
import torch
import nidn
import nidn.training.model.init_network
from dotmap import DotMap
from loguru import logger
logger.remove()

'''
def env():
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0")
    return e
def copyrepo():
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % d, shell=True, check=True)
    return d
def make(i):
    b = BUGS[i]; d = copyrepo()
    try:
        subprocess.run("git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", shell=True, cwd=d, check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(d, f); s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(d)
    o = os.path.join(V, "seeded", i); os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.sh", "w").write(DEMO); os.chmod(o + "/demo.sh", 0o755)
    open(o + "/demo.py", "w").write(PRE + b["demo"].lstrip("\n"))
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(o + "/meta.json", "w"), indent=1)
def verify(i, tests=True):
    o = os.path.join(V, "seeded", i); meta = json.load(open(o + "/meta.json")); d = copyrepo(); res = {"id": i}
    try:
        r = subprocess.run(["bash", o + "/demo.sh"], cwd=d, capture_output=True, text=True); res["demo_clean"] = r.returncode
        if r.returncode: res["msg"] = (r.stdout + r.stderr)[-600:]
        r = subprocess.run(["git", "apply", o + "/patch.diff"], cwd=d, capture_output=True, text=True); res["apply"] = r.returncode
        r = subprocess.run(["bash", o + "/demo.sh"], cwd=d, capture_output=True, text=True); res["demo_bug"] = r.returncode
        res["last"] = (r.stdout + r.stderr).strip()[-160:]
        if tests:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "nidn/tests"], cwd=d, capture_output=True, text=True, env=env())
            res["tests"] = r.stdout.strip().splitlines()[-1]
        r = subprocess.run(["bash", os.path.join(V, "check.sh"), meta["property"], "quick"], capture_output=True, text=True, env=dict(os.environ, NIDN_REPO=d, VERIF_SEED="1", VERIF_EVIDENCE=d))
        res["check"] = r.returncode; res["out"] = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "rror" in l][:2]
    finally:
        shutil.rmtree(d)
    return res
def tests(i):
    o = os.path.join(V, "seeded", i); d = copyrepo()
    try:
        subprocess.run(["git", "apply", o + "/patch.diff"], cwd=d, check=True)
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "3", "nidn/tests"], cwd=d, capture_output=True, text=True, env=env())
        return r.stdout.strip().splitlines()[-1]
    finally:
        shutil.rmtree(d)
if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(BUGS)
    if sys.argv[1] == "make":
        for i in ids: make(i)
    elif sys.argv[1] == "tests":
        with ThreadPoolExecutor(3) as ex:
            for i, r in zip(ids, ex.map(tests, ids)):
                print("PASS" if r.startswith("16 passed") else "FAIL", i, r, flush=True)
    else:
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(lambda i: verify(i, sys.argv[1] == "verify"), ids):
                ok = r["demo_clean"] == 0 and r["apply"] == 0 and r["demo_bug"] != 0 and r.get("tests", "16 passed").startswith("16 passed") and r["check"] == 1
                print("OK  " if ok else "BAD ", json.dumps(r), flush=True)
