"""
Property-based testing core: checks, generation, shrinking, replay.

A *check* is a pair (Hypothesis strategy producing a JSON-able case, function
judging the case).  The function calls the library under test inside
``with library():`` and compares with an oracle; disagreement raises
``Violation``.  Everything else that goes wrong (in the harness) is an error of
the check, never a violation.
"""

import contextlib
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import warnings

REPO = os.environ.get("GWP_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check itself is broken."""


@contextlib.contextmanager
def library(what=""):
    """Any exception of the code under test on a valid input is a violation."""
    try:
        yield
    except (Violation, HarnessError, KeyboardInterrupt):
        raise
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-4:]]
        raise Violation(
            f"{what}: unexpected {type(exc).__name__}: {exc} (in {' > '.join(where)})"
        ) from exc


def bootstrap():
    """Import the library from the repository's working tree."""
    sys.dont_write_bytecode = True
    os.environ.setdefault("BILBY_ALLOW_PARAMETERS_AS_STATE", "FALSE")
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("TQDM_DISABLE", "1")
    warnings.simplefilter("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, "gwpopulation", "_version.py")):
        import types

        stub = types.ModuleType("gwpopulation._version")
        stub.__version__ = "0"
        sys.modules["gwpopulation._version"] = stub
    import logging

    import numpy as np

    np.seterr(all="ignore")
    try:
        import gwpopulation
    except Exception as exc:
        raise HarnessError(f"cannot import gwpopulation: {exc!r}")
    if not os.path.abspath(gwpopulation.__file__).startswith(
        os.path.abspath(REPO) + os.sep
    ):
        raise HarnessError(f"gwpopulation imported from {gwpopulation.__file__}")
    logging.getLogger("bilby").setLevel(logging.ERROR)
    from importlib.metadata import entry_points

    if not any(
        ep.value == "gwpopulation.utils" for ep in entry_points(group="gwpopulation.xp")
    ):
        _fake_metadata()
    return gwpopulation


def _fake_metadata():
    """The editable install's metadata is missing: provide it from pyproject.toml."""
    import tempfile
    import tomllib

    with open(os.path.join(REPO, "pyproject.toml"), "rb") as ff:
        eps = tomllib.load(ff)["project"]["entry-points"]
    base = tempfile.mkdtemp(prefix="gwp-meta-")
    info = os.path.join(base, "gwpopulation_meta-0.dist-info")
    os.makedirs(info)
    with open(os.path.join(info, "METADATA"), "w") as ff:
        ff.write("Metadata-Version: 2.1\nName: gwpopulation-meta\nVersion: 0\n")
    with open(os.path.join(info, "entry_points.txt"), "w") as ff:
        for group, entries in eps.items():
            ff.write(f"[{group}]\n")
            for key, value in entries.items():
                ff.write(f"{key} = {value}\n")
    sys.path.append(base)
    import atexit
    import shutil

    atexit.register(shutil.rmtree, base, ignore_errors=True)


# --------------------------------------------------------------------------
# checks


class Check:
    def __init__(self, name, strategy, func, quick, thorough):
        self.name = name
        self.strategy = strategy
        self.func = func
        self.quick = quick
        self.thorough = thorough


class Suite:
    """The checks of one property."""

    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.checks = {}

    def check(self, strategy, quick=200, thorough=None):
        def deco(func):
            name = func.__name__
            self.checks[name] = Check(
                name, strategy, func, quick, thorough or 20 * quick
            )
            return func

        return deco


def load_suite(prop):
    return importlib.import_module(f"harness.props.{prop.lower()}").suite


def stable_int(*parts):
    text = "|".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


def canon(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(obj):
    import numpy as np

    if isinstance(obj, np.generic):
        return obj.item()
    if isinstance(obj, np.ndarray):
        return obj.tolist()
    raise TypeError(f"not JSON-able: {type(obj)}")


def evaluate(check, case):
    """Judge one case from scratch; returns (nontrivial, labels)."""
    import numpy as np

    np.random.seed(stable_int(check.name) % 2**32)
    result = check.func(case)
    if result is None:
        return True, []
    if isinstance(result, bool):
        return result, []
    nontrivial, labels = result
    return bool(nontrivial), list(labels)


def no_mutations():
    """
    Independent draws only.  Hypothesis spends a good part of the examples on copies of
    earlier ones with choices zeroed or duplicated, which halves the coverage of the
    (mostly continuous) inputs here.
    """
    from hypothesis.internal.conjecture import engine

    engine.ConjectureRunner.generate_mutations_from = lambda self, data: None


class Runner:
    """Generate cases for one check of one shard."""

    SHRINK_SECONDS = float(os.environ.get("GWP_SHRINK_SECONDS", 25))

    def __init__(self, suite, check, seed, shard, examples, deadline):
        self.suite, self.check = suite, check
        self.seed, self.shard = seed, shard
        self.examples, self.deadline = examples, deadline
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.skipped = 0
        self.failure = None
        self.first_failure_at = None
        self.case_index = 0

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis import seed as hyp_seed

        no_mutations()
        runner = self

        def body(case):
            runner.one(case)

        test = given(case=self.check.strategy)(body)
        test = settings(
            max_examples=self.examples,
            database=None,
            deadline=None,
            phases=[Phase.generate, Phase.shrink],
            suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False,
            print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )(test)
        test = hyp_seed(
            stable_int(self.seed, self.suite.prop, self.check.name, self.shard)
        )(test)
        try:
            test()
        except Violation:
            pass
        except hypothesis.errors.HypothesisException:
            if self.failure is None:
                raise
        except BaseExceptionGroup:
            if self.failure is None:
                raise
        return self

    def one(self, case):
        now = time.monotonic()
        if self.failure is None and now > self.deadline:
            self.skipped += 1
            return
        if (
            self.first_failure_at is not None
            and now - self.first_failure_at > self.SHRINK_SECONDS
        ):
            text = canon(case)
            if text != self.failure["canon"]:
                return
            raise Violation(self.failure["message"])
        self.case_index += 1
        self.evaluations += 1
        text = canon(case)
        try:
            nontrivial, labels = evaluate(self.check, case)
        except Violation as exc:
            if self.first_failure_at is None:
                self.first_failure_at = now
            size = (len(text), text)
            if self.failure is None or size < self.failure["size"]:
                self.failure = dict(
                    case=json.loads(text), message=str(exc), size=size, canon=text
                )
            raise Violation(str(exc)) from None
        if self.failure is not None:
            return
        for label in labels:
            self.labels[label] = self.labels.get(label, 0) + 1
        if nontrivial:
            digest = hashlib.sha256(text.encode()).hexdigest()[:16]
            if digest not in self.hashes:
                self.hashes.add(digest)
                if len(self.samples) < 2 and len(text) < 4000:
                    self.samples.append(json.loads(text))


def worker(prop, tier, seed, shard, nshards, budget, out, only=None):
    """Run every check of a property for one shard, write a JSON report."""
    report = dict(shard=shard, checks={}, failure=None, error=None)
    try:
        bootstrap()
        suite = load_suite(prop)
        report["rule"], report["assumptions"] = suite.rule, suite.assumptions
        deadline = time.monotonic() + budget
        names = list(suite.checks)
        # start at a different check in each shard, so that a time budget that
        # runs out does not always starve the same check
        names = names[shard % len(names):] + names[: shard % len(names)]
        for name in names:
            if only and name not in only:
                continue
            check = suite.checks[name]
            total = check.quick if tier == "quick" else check.thorough
            examples = total // nshards + (shard < total % nshards)
            if examples == 0:
                continue
            start = time.monotonic()
            runner = Runner(suite, check, seed, shard, examples, deadline).run()
            report["checks"][name] = dict(
                evaluations=runner.evaluations,
                hashes=sorted(runner.hashes),
                labels=runner.labels,
                samples=runner.samples,
                skipped=runner.skipped,
                wall=time.monotonic() - start,
            )
            if runner.failure is not None:
                report["failure"] = dict(
                    check=name,
                    case=runner.failure["case"],
                    message=runner.failure["message"],
                    examples=examples,
                    shard=shard,
                    seed=seed,
                    prop=prop,
                )
                break
    except BaseException:
        report["error"] = traceback.format_exc()
    tmp = out + ".tmp"
    with open(tmp, "w") as ff:
        json.dump(report, ff, default=_default)
    os.replace(tmp, out)


def replay(path):
    """Judge a saved case without Hypothesis. Returns the message or None."""
    bootstrap()
    with open(path) as ff:
        saved = json.load(ff)
    suite = load_suite(saved["property"])
    check = suite.checks[saved["check"]]
    if saved.get("kind") == "shard":
        runner = Runner(
            suite,
            check,
            saved["seed"],
            saved["shard"],
            saved["examples"],
            time.monotonic() + 600,
        ).run()
        return runner.failure and runner.failure["message"]
    try:
        evaluate(check, saved["case"])
    except Violation as exc:
        return str(exc)
    return None
