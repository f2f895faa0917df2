#!/usr/bin/env python
"""
python run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--only check,...]
python run.py --replay <file>

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken;
exit 2: the check itself failed.
"""

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = dict(
    PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED="0",
    BILBY_ALLOW_PARAMETERS_AS_STATE="FALSE",
    MPLBACKEND="Agg",
    JAX_PLATFORMS="cpu",
    OMP_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1",
    TQDM_DISABLE="1",
    MALLOC_MMAP_THRESHOLD_="4294967296",
    MALLOC_TRIM_THRESHOLD_="8589934592",
    MALLOC_TOP_PAD_="67108864",
    XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
)
BUDGET = dict(quick=300, thorough=5400)


def environment():
    env = dict(os.environ)
    env.update(ENV)
    env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.pop("PYTHONPATH", None)
    env["HOME"] = env.get("HOME") or "/root"
    return env


def python():
    return PY if os.path.exists(PY) else sys.executable


def spawn(args, log):
    return subprocess.Popen(
        [python(), os.path.join(HERE, "run.py"), *args],
        cwd=HERE,
        env=environment(),
        stdout=log,
        stderr=subprocess.STDOUT,
        stdin=subprocess.DEVNULL,
        start_new_session=True,
    )


def stop(proc):
    if proc.poll() is None:
        try:
            os.killpg(proc.pid, 9)
        except OSError:
            pass
        proc.wait()


def replay_in_fresh_process(path):
    """Returns (reproduced, message)."""
    with tempfile.TemporaryFile("w+") as log:
        proc = spawn(["--replay", path], log)
        try:
            code = proc.wait(timeout=700)
        except subprocess.TimeoutExpired:
            stop(proc)
            return False, "replay timed out"
        log.seek(0)
        text = log.read()
    return code == 1, text.strip()[-2000:]


def known_findings():
    """Lines 'known: property=<id> check=<check> match=<text> :: <what fails>'."""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                out.append(line.strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--worker", nargs=5)
    args = ap.parse_args()

    if args.worker or args.replay:
        sys.path.insert(0, HERE)
        from harness import vendor

        vendor.ensure()
        from harness import core

        if args.replay:
            try:
                message = core.replay(args.replay)
            except BaseException:
                import traceback

                traceback.print_exc()
                sys.stdout.flush()
                os._exit(2)
            print(
                "reproduced: " + message if message is not None else "did not reproduce"
            )
            sys.stdout.flush()
            os._exit(1 if message is not None else 0)
        shard, nshards, budget, out, seed = args.worker
        core.worker(
            args.prop,
            args.tier,
            int(seed),
            int(shard),
            int(nshards),
            float(budget),
            out,
            only=args.only.split(",") if args.only else None,
        )
        sys.stdout.flush()
        os._exit(0)

    if not args.prop:
        ap.error("need a property")
    seed = args.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    sys.exit(campaign(args.prop.upper(), args.tier, seed, args))


def campaign(prop, tier, seed, args):
    sys.path.insert(0, HERE)
    from harness import vendor

    vendor.ensure()
    start = time.monotonic()
    nshards = args.workers or max(1, min(8, len(os.sched_getaffinity(0))))
    budget = BUDGET.get(tier, 300)
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    procs = []
    try:
        for shard in range(nshards):
            out = os.path.join(scratch, f"{shard}.json")
            log = open(os.path.join(scratch, f"{shard}.log"), "w")
            cmd = [prop, "--tier", tier]
            if args.only:
                cmd += ["--only", args.only]
            cmd += ["--worker", str(shard), str(nshards), str(budget), out, str(seed)]
            procs.append((spawn(cmd, log), out, log.name, shard))
        reports, failure, error = {}, None, None
        pending = list(procs)
        hard = time.monotonic() + budget + (400 if tier == "quick" else 1800)
        while pending and failure is None and error is None:
            for item in list(pending):
                proc, out, logname, shard = item
                if proc.poll() is None:
                    continue
                pending.remove(item)
                if not os.path.exists(out):
                    error = f"worker {shard} died ({proc.returncode}): " + tail(logname)
                    continue
                with open(out) as ff:
                    report = json.load(ff)
                reports[shard] = report
                if report["error"] and not report["failure"]:
                    error = f"worker {shard}: {report['error']}"
                if report["failure"] and failure is None:
                    failure = report["failure"]
            if time.monotonic() > hard:
                error = "workers did not finish"
                break
            time.sleep(0.05)
        if error is not None and failure is None:
            # a violation found elsewhere outranks an error of one worker
            for proc, out, logname, shard in pending:
                try:
                    proc.wait(timeout=max(1, min(120, hard - time.monotonic())))
                except subprocess.TimeoutExpired:
                    pass
                if os.path.exists(out):
                    with open(out) as ff:
                        report = json.load(ff)
                    reports[shard] = report
                    failure = failure or report["failure"]
    finally:
        for proc, *_ in procs:
            stop(proc)
        shutil.rmtree(scratch, ignore_errors=True)

    code = 0
    violations = 0
    if failure is not None:
        confirmed, path, note = confirm(prop, seed, tier, failure)
        if confirmed:
            code, violations = 1, 1
            print(f"{prop}.{failure['check']}: {failure['message']}")
            print(f"case: {json.dumps(failure['case'])[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        else:
            code = 2
            print(f"ERROR: failure did not reproduce: {note}\n{failure['message']}")
    elif error is not None:
        code = 2
        print(f"ERROR: {error}")
    write_evidence(prop, tier, seed, reports, violations, time.monotonic() - start)
    if code == 0:
        total = sum(
            c["evaluations"] for r in reports.values() for c in r["checks"].values()
        )
        print(
            f"{prop}: held on {total} generated cases "
            f"({time.monotonic() - start:.1f} s, tier {tier}, seed {seed})"
        )
    return code


def confirm(prop, seed, tier, failure):
    """Write the replay file and check that a fresh process reproduces it."""
    folder = os.path.join(HERE, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}-{failure['check']}-{seed}.json")
    base = dict(
        property=prop, check=failure["check"], message=failure["message"], tier=tier
    )
    write(path, dict(base, kind="case", case=failure["case"]))
    ok, note = replay_in_fresh_process(path)
    if ok:
        return True, path, note
    # the failure needs the cases before it: replay the shard's history
    write(
        path,
        dict(
            base,
            kind="shard",
            case=failure["case"],
            seed=seed,
            shard=failure["shard"],
            examples=failure["examples"],
        ),
    )
    ok, note2 = replay_in_fresh_process(path)
    return ok, path, note2 if ok else note + " / " + note2


def write(path, obj):
    with open(path, "w") as ff:
        json.dump(obj, ff, indent=1)


def tail(path, n=3000):
    try:
        with open(path) as ff:
            return ff.read()[-n:]
    except OSError:
        return ""


def write_evidence(prop, tier, seed, reports, violations, wall):
    per_check, hashes, samples = {}, set(), []
    for shard in sorted(reports):
        for name, data in reports[shard]["checks"].items():
            agg = per_check.setdefault(
                name,
                dict(evaluations=0, distinct=set(), labels={}, skipped=0, wall=0.0),
            )
            agg["evaluations"] += data["evaluations"]
            agg["distinct"].update(data["hashes"])
            agg["skipped"] += data["skipped"]
            agg["wall"] += data["wall"]
            hashes.update(f"{name}:{h}" for h in data["hashes"])
            for key, value in data["labels"].items():
                agg["labels"][key] = agg["labels"].get(key, 0) + value
            if shard < 2:
                samples += [dict(check=name, case=c) for c in data["samples"][1:2]]
    rule, assumptions = "", []
    for report in reports.values():
        rule = report.get("rule") or rule
        assumptions = report.get("assumptions") or assumptions
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(a["evaluations"] for a in per_check.values()),
            distinct_nontrivial=len(hashes),
            rule=rule,
            samples=samples[:40],
            per_check={
                name: dict(
                    evaluations=a["evaluations"],
                    distinct_nontrivial=len(a["distinct"]),
                    labels=dict(sorted(a["labels"].items())),
                    cut_by_time_budget=a["skipped"],
                    cpu_s=round(a["wall"], 2),
                )
                for name, a in sorted(per_check.items())
            },
            workers=len(reports),
        ),
        assumptions=assumptions,
        wall_s=round(wall, 3),
        violations=violations,
    )
    folder = os.path.join(HERE, "evidence")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}.json")
    write(path + ".tmp", evidence)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    main()
