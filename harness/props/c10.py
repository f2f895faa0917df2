"""C10: the convergence cut."""

import numpy as np
from hypothesis import strategies as st

from .. import scenario
from ..compare import close, is_true
from ..core import Suite, library
from ..gen import loguni, mix, record, uni, weighted
from .c09 import tolerance

suite = Suite(
    "C10",
    "Analyses as for C09, with limits on the uncertainty drawn around the true uncertainty of the "
    "case (a factor 0.2-5 of it, hair-above, hair-below, zero, infinity), given at construction or "
    "changed later (repeatedly), and events or selection functions without support. Non-trivial: "
    "a finite limit, or an undefined estimate.",
    [
        "limits within 1e-6 (relative) of the estimated uncertainty are not judged",
        "'most negative representable value (or a correspondingly huge negative number)': below "
        "-1e300",
        "domain: a selection function that is exactly zero together with "
        "enforce_convergence=False is excluded (the documented estimator is then +infinity)",
    ],
)

HUGE = -1e300
LIMIT = weighted(
    st.just(None), loguni(0.2, 5), loguni(0.2, 5), st.sampled_from([1.0001, 0.9999]),
    st.just("inf"), st.just(0.0), st.just(1e-300),
)


def judged(built, like, value, limit, what):
    """Compare a sampler-visible value with the rule."""
    is_true(isinstance(value, float) or getattr(value, "shape", None) == (),
            f"{what}: not a number ({type(value).__name__})")
    value = float(value)
    is_true(np.isfinite(value), f"{what}: not finite ({value})")
    want, variance, _, _ = built.estimate(like)
    error = np.sqrt(max(variance, 0)) if np.isfinite(variance) else np.inf
    tol = tolerance(built, like)
    if built.case["cls"] == "Null" and not np.isfinite(variance):
        # undefined uncertainty: rejected whenever there is a limit at all
        return "undefined null"
    if not np.isfinite(want):
        is_true(value <= HUGE, f"{what}: {value} for an undefined estimate ({want})")
        return "undefined"
    bound = np.inf if limit is None else limit**2
    if np.isfinite(bound) and abs(variance - bound) <= 1e-5 * max(variance, bound) + 10 * tol:
        return "at the limit"
    if variance > bound:
        is_true(value <= HUGE, f"{what}: {value} although uncertainty {error} > limit {limit}")
        return "rejected"
    if built.case["cls"] == "Null":
        is_true(value == 0, f"{what}: {value} instead of 0")
        return "accepted"
    close(np.float64(value), np.float64(want), what, rtol=1e-9, atol=1e-8 * len(built.case["events"]))
    return "accepted"


def resolve(limit, error):
    if limit is None or limit == "inf":
        return np.inf
    if limit == 1e-300 or limit == 0.0:
        return limit
    return limit * error if error > 0 and np.isfinite(error) else 1.0


@suite.check(
    scenario.cases(dead=True, backend=["numpy"] * 11 + ["jax"], limits=st.lists(LIMIT, min_size=1,
                   max_size=4), at_construction=st.booleans()),
    quick=1500,
)
def cut(case):
    if (
        case["dead"] and case["selection"]["kind"] == "grid"
    ) or (case["population"] == "spin" and case["dead"]):
        case = dict(case, dead=False)
    built = scenario.Built(case)
    params = scenario.sampled(case)
    probe = built.likelihood()
    if built.detection()[0] == 0:
        return False, ["no detection"]
    _, variance, _, _ = built.estimate(probe)
    error = np.sqrt(variance) if variance > 0 else 0.0
    limits = [resolve(lim, error) for lim in case["limits"]]
    first = limits[0]
    if case["at_construction"]:
        if case["limits"][0] is None:
            like = built.likelihood()
        else:
            like = built.likelihood(maximum_uncertainty=first)
    else:
        like = built.likelihood()
        with library("maximum_uncertainty"):
            like.maximum_uncertainty = first
    labels = []
    for ii, limit in enumerate(limits):
        with library("log_likelihood_ratio"):
            if ii:
                like.maximum_uncertainty = limit
            value = like.log_likelihood_ratio(dict(params))
            seen = like.maximum_uncertainty
        close(np.float64(seen), np.float64(limit), "maximum_uncertainty", rtol=1e-15)
        labels.append(judged(built, like, value, None if np.isinf(limit) else limit,
                             f"limit {ii}"))
    return (
        any(np.isfinite(limits)) or "undefined" in labels,
        labels + [case["cls"]] + (["dead"] if case["dead"] else []),
    )


@suite.check(
    scenario.cases(populations=["toy", "two toys", "masses", "all"],
                   selections=("injections",), classes=("Hyper", "Rate"),
                   limit=st.one_of(st.none(), mix(uni(0.1, 3), 1)), where=st.sampled_from(
                       ["event", "selection", "both"])), quick=500
)
def no_support(case):
    """Events or found injections outside of the population's support."""
    case = dict(case, selection=dict(case["selection"], converge=True, n_events=True))
    dead = case["where"] in ("event", "both")
    case["dead"] = dead
    built = scenario.Built(case)
    if case["where"] in ("selection", "both"):
        moved = scenario.dead_samples({k: v for k, v in built.selection_data.items()
                                       if isinstance(v, np.ndarray) and k != "prior"})
        from .. import backends
        from gwpopulation.vt import ResamplingVT

        data = {**built.selection_data, **moved}
        with library("ResamplingVT"):
            built.selection = ResamplingVT(
                scenario.models_of(case["population"]),
                {k: backends.arr(v, "numpy") if isinstance(v, np.ndarray) else v
                 for k, v in data.items()},
                n_events=len(case["events"]),
                marginalize_uncertainty=case["selection"]["marginalise"],
            )
    kwargs = {} if case["limit"] is None else dict(maximum_uncertainty=case["limit"])
    like = built.likelihood(**kwargs)
    with library("log_likelihood_ratio"):
        value = like.log_likelihood_ratio(scenario.sampled(case))
    is_true(isinstance(value, float), f"not a float: {type(value)}")
    is_true(np.isfinite(value), f"not finite: {value}")
    is_true(value <= HUGE, f"{value} although there is no support ({case['where']})")
    return True, [case["where"], case["cls"]]


@suite.check(
    record(cls=st.sampled_from(["Hyper", "Rate", "Null"]), power=st.integers(-6, 6),
           events=st.integers(1, 5), log_n=st.integers(0, 6), prior=st.integers(-3, 3),
           limit=st.sampled_from([0.0, 0.0, 1e-160, 1e-9, 1.0]), later=st.booleans()),
    quick=150,
)
def no_uncertainty(case):
    """Weights that are all the same power of two: the uncertainty is exactly zero."""
    import pandas as pd

    from gwpopulation import hyperpe

    level, prior = 2.0 ** case["power"], 2.0 ** case["prior"]

    def flat(dataset, scale):
        return scale * level + 0 * dataset["x"]

    n = 2 ** case["log_n"]
    frames = [pd.DataFrame(dict(x=np.arange(n) + 1.0, prior=prior)) for _ in range(case["events"])]
    cls = dict(Hyper=hyperpe.HyperparameterLikelihood, Rate=hyperpe.RateLikelihood,
               Null=hyperpe.NullHyperparameterLikelihood)[case["cls"]]
    params = dict(scale=1.0)
    if case["cls"] == "Rate":
        params["rate"] = 2.0
    with library("likelihood"):
        if case["later"]:
            like = cls(frames, flat)
            like.maximum_uncertainty = case["limit"]
        else:
            like = cls(frames, flat, maximum_uncertainty=case["limit"])
        value, variance = like.ln_likelihood_and_variance(dict(params))
        ratio = like.log_likelihood_ratio(dict(params))
    close(np.float64(variance), np.float64(0), "variance", rtol=0, atol=1e-15)
    if variance != 0:  # rounding in some other order of operations
        return False, ["rounded"]
    is_true(np.isfinite(value), f"estimate {value}")
    is_true(float(ratio) == float(value),
            f"{ratio} although the uncertainty is zero, limit {case['limit']}")
    return True, [case["cls"], f"limit {case['limit']}"]
