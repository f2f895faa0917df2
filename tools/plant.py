"""
Plant bugs in scratch copies and confirm them: the repository's stable tests pass, the
demonstration passes without and fails with the change; then see which checks notice.

usage: plant.py DEFINITIONS.py [--only id,id] [--stage make,tests,checks]
DEFINITIONS.py defines MUTANTS, a list of dicts (id, property, edits=[(file, old, new)], demo,
needs, breaks, [checks]).  Confirmed ones go to seeded/<id>.
"""

import argparse
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tests(copy, touched):
    files = sorted(f for f in os.listdir(f"{copy}/test") if f.endswith("_test.py"))
    if not any(os.path.basename(t) in ("spin.py", "utils.py", "interped.py", "backend.py")
               for t in touched):
        files.remove("spin_test.py")  # slow, and uses none of the other modules
    out = f"{copy}/.reports"
    os.makedirs(out, exist_ok=True)
    env = dict(os.environ, PYTHONPATH=f"/opt/vp/pytest_plugins:{copy}", JAX_PLATFORMS="cpu",
               OMP_NUM_THREADS="2", PYTHONDONTWRITEBYTECODE="1")
    procs = [
        (f, subprocess.Popen(
            [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "vp_seed", "-W",
             "ignore", f"test/{f}"], cwd=copy, env=env, stdout=open(f"{out}/{f}.log", "w"),
            stderr=subprocess.STDOUT))
        for f in files
    ]
    bad = []
    for f, p in procs:
        if p.wait() != 0:
            bad.append(f + ": " + open(f"{out}/{f}.log").read()[-300:])
    shutil.rmtree(out)
    return bad


def prepare(mut):
    """Copy, edit, check the demonstration; returns a state or None."""
    copy = f"/tmp/mut/{mut['id']}"
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    for path, old, new in mut["edits"]:
        text = open(f"{copy}/{path}").read()
        if text.count(old) != 1:
            return print(mut["id"], "EDIT does not apply:", text.count(old), old[:60], flush=True)
        open(f"{copy}/{path}", "w").write(text.replace(old, new))
    patch = sh(["git", "-C", copy, "diff"]).stdout
    dest = f"/tmp/mutout/{mut['id']}"
    shutil.rmtree(dest, ignore_errors=True)
    os.makedirs(dest)
    open(f"{dest}/patch.diff", "w").write(patch)
    open(f"{dest}/demo.sh", "w").write(DEMO)
    os.chmod(f"{dest}/demo.sh", 0o755)
    open(f"{dest}/demo.py", "w").write(mut["demo"].lstrip("\n"))
    json.dump(dict(property=mut["property"], needs=mut["needs"], what_it_breaks=mut["breaks"]),
              open(f"{dest}/meta.json", "w"), indent=1)
    good = sh(["bash", f"{dest}/demo.sh"], cwd="/repo")
    bad = sh(["bash", f"{dest}/demo.sh"], cwd=copy)
    state = [f"demo {good.returncode}/{bad.returncode}"]
    if good.returncode != 0 or bad.returncode == 0:
        return print(mut["id"], "DEMO wrong", state, good.stderr[-500:], bad.stdout[-300:],
                     flush=True)
    return state


def confirm(mut, stages):
    state = prepare(mut)
    if state is None:
        return None
    if "tests" in stages:
        failed = tests(f"/tmp/mut/{mut['id']}", [e[0] for e in mut["edits"]])
        if failed:
            return print(mut["id"], "TESTS fail:", [f.replace("\n", " | ") for f in failed],
                         flush=True)
        state.append("tests pass")
        final = f"{HERE}/seeded/{mut['id']}"
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(f"/tmp/mutout/{mut['id']}", final)
    return state


def judge(mut, state):
    for prop in [mut["property"]] + mut.get("checks", []):
        r = sh([PY, f"{HERE}/run.py", prop], cwd=HERE,
               env=dict(os.environ, GWP_REPO=f"/tmp/mut/{mut['id']}", VERIF_SEED="1"))
        line = [x for x in r.stdout.splitlines() if x.startswith(prop + ".")]
        state.append(f"{prop}: rc {r.returncode} {line[:1]}")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("definitions")
    ap.add_argument("--only")
    ap.add_argument("--stage", default="make,tests,checks")
    ap.add_argument("--parallel", type=int, default=3)
    args = ap.parse_args()
    spec = importlib.util.spec_from_file_location("definitions", args.definitions)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    stages = args.stage.split(",")
    todo = [m for m in mod.MUTANTS if not args.only or m["id"] in args.only.split(",")]
    with ThreadPoolExecutor(args.parallel) as pool:
        for mut, state in zip(todo, pool.map(lambda m: confirm(m, stages), todo)):
            if state is None:
                continue
            if "checks" in stages:
                judge(mut, state)
            print(mut["id"], *state, sep="; ", flush=True)
            shutil.rmtree(f"/tmp/mut/{mut['id']}", ignore_errors=True)


main()
