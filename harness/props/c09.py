"""C09: the likelihood estimator."""

import numpy as np
from hypothesis import strategies as st

from .. import scenario
from ..compare import close, is_true, scalar
from ..core import Suite, Violation, library
from ..gen import history, loguni, replay, rng_of

suite = Suite(
    "C09",
    "Whole analyses are drawn: catalogues of 1-6 events with unequal numbers of samples, with or "
    "without sampling prior, populations of one to three models (library and user-written), five "
    "kinds of selection function, parameter conversions and evidences; the three likelihood "
    "classes are compared with the documented estimator computed from the stored samples. "
    "Non-trivial: all events have support, at least two samples per event and a finite result.",
    [
        "the reference evaluates each population factor alone on the stored samples (C02-C05 judge "
        "the factors)",
        "the selection contribution to the variance of RateLikelihood is the documented "
        "N_exp var / P^2",
        "domain: equal columns in all posteriors; selection functions with finite positive values "
        "or the documented rejection value infinity",
    ],
)

BACKEND = ["numpy"] * 11 + ["jax"]


def tolerance(built, like, params=None):
    w = built.weights(like, params)
    mean = np.mean(w, axis=1)
    with np.errstate(all="ignore"):
        scale = np.sum(np.mean(w**2, axis=1) / mean**2) / w.shape[1]
    sel = built.case["selection"]
    extra = 0.0
    if sel["kind"] == "injections" and not sel["marginalise"]:
        mu, var = built.efficiency(params)
        n = len(w)
        extra = 1e-11 * n**2 * (1 + abs(var) / mu**2)
    return 1e-11 * np.nan_to_num(scale) + np.nan_to_num(extra)


def agree(built, like, got, variance, cls=None, params=None, what=""):
    want, wvar, _, _ = built.estimate(like, params, cls)
    n = len(built.case["events"])
    if np.isfinite(want):
        close(got, np.float64(want), f"{what}log-likelihood ratio", rtol=1e-9, atol=1e-8 * n)
    else:
        is_true(not np.isfinite(got), f"{what}log-likelihood ratio {got} instead of {want}")
    if np.isfinite(wvar):
        close(variance, np.float64(wvar), f"{what}variance", rtol=1e-8,
              atol=tolerance(built, like, params))
    return want, wvar


def with_history(case):
    steps = history(st.fixed_dictionaries(scenario.names_of(case["population"])), size=2)
    return steps.map(lambda h: {**case, "history": h})


@suite.check(scenario.cases(backend=BACKEND).flatmap(with_history), quick=1600)
def estimator(case):
    built = scenario.Built(case)
    like = built.likelihood()
    params = scenario.sampled(case)
    replay(case["history"], case["params"],
           lambda p: like.log_likelihood_ratio(scenario.sampled_of(case, p)))
    with library("ln_likelihood_and_variance"):
        got, variance = like.ln_likelihood_and_variance(dict(params))
        ratio = like.log_likelihood_ratio(dict(params))
        full = like.log_likelihood(dict(params))
        noise = like.noise_log_likelihood()
    got, variance = scalar(got, "log-likelihood"), scalar(variance, "variance")
    want, wvar = agree(built, like, got, variance)
    if np.isfinite(want):
        close(scalar(ratio, "ratio"), np.float64(want), "log_likelihood_ratio", rtol=1e-9,
              atol=1e-8 * len(case["events"]))
    if case["evidences"] is not None:
        total = float(np.sum(case["evidences"][: len(case["events"])]))
        close(scalar(noise, "noise"), np.float64(total), "sum of the log evidences", rtol=1e-12,
              atol=1e-12)
        close(scalar(full, "full"), np.float64(total + scalar(ratio, "ratio")), "log_likelihood",
              rtol=1e-12, atol=1e-9)
    nontrivial = np.isfinite(want) and np.asarray(like.sampling_prior).size > 0
    return nontrivial, [case["cls"], case["selection"]["kind"], case["conversion"],
                        case["population"], case["backend"]]


@suite.check(
    scenario.cases(backend=BACKEND, n=st.integers(2, 20), factor=loguni(0.01, 100),
                   min_events=2), quick=700
)
def set_of_events(case):
    """Events in any order, samples in any order, a scaled sampling prior."""
    case = dict(case, events=[case["n"]] * len(case["events"]), max_samples=None)
    built = scenario.Built(case)
    params = scenario.sampled(case)
    n_ev = len(case["events"])

    def value(frames):
        like = built.likelihood(posteriors=frames)
        with library("ln_likelihood_and_variance"):
            a, b = like.ln_likelihood_and_variance(dict(params))
        return scalar(a, "log-likelihood"), scalar(b, "variance"), like

    base, var, like = value([f.copy() for f in built.frames])
    rng = rng_of(case["seed"] + 5)
    order = rng.permutation(n_ev)
    shuffled = [
        built.frames[ii].iloc[rng.permutation(case["n"])].reset_index(drop=True) for ii in order
    ]
    tol = tolerance(built, like)
    other, ovar, _ = value(shuffled)
    same(other, base, "permuted catalogue", 1e-9)
    same(ovar, var, "variance of the permuted catalogue", 1e-8, tol)
    # an event that is in the catalogue twice counts twice
    twice = dict(case, events=case["events"] + [case["n"]], evidences=None)
    repeat = scenario.Built(dict(case, evidences=None))
    repeat.case = twice
    repeat.frames = built.frames + [built.frames[int(order[0])].copy()]
    if case["selection"]["kind"] != "injections":
        like = repeat.likelihood()
        with library("ln_likelihood_and_variance"):
            a, b = like.ln_likelihood_and_variance(dict(params))
        agree(repeat, like, scalar(a, "log-likelihood"), scalar(b, "variance"),
              what="repeated event: ")
    if case["prior"]:
        scaled = []
        for frame in built.frames:
            frame = frame.copy()
            frame["prior"] = frame["prior"] * case["factor"]
            scaled.append(frame)
        other, ovar, _ = value(scaled)
        shift = 0.0 if case["cls"] == "Null" else n_ev * np.log(case["factor"])
        same(other, base - shift, "scaled sampling prior", 1e-9)
        same(ovar, var, "variance with a scaled sampling prior", 1e-8, tol)
    return np.isfinite(base), [case["cls"], "prior" if case["prior"] else "no prior"]


def same(a, b, what, rtol, atol=1e-8):
    if not np.isfinite(b):
        if not np.isfinite(a):
            return
        raise Violation(f"{what}: {a} instead of {b}")
    close(np.float64(a), np.float64(b), what, rtol=rtol, atol=atol)


@suite.check(scenario.cases(backend=["numpy"], max_events=4, classes=("Hyper", "Rate")), quick=350)
def one_event_at_a_time(case):
    """The log-likelihood of a catalogue without selection is the sum over single-event ones."""
    case = dict(case, selection=dict(kind="none"), max_samples=None,
                events=[case["events"][0]] * len(case["events"]), cls="Hyper")
    built = scenario.Built(case)
    params = scenario.sampled(case)
    with library("log_likelihood_ratio"):
        total = built.likelihood().log_likelihood_ratio(dict(params))
        parts = [
            built.likelihood(posteriors=[f.copy()], ln_evidences=None).log_likelihood_ratio(
                dict(params))
            for f in built.frames
        ]
    if np.isfinite(sum(parts)):
        close(scalar(total, "total"), np.float64(sum(parts)), "sum over events", rtol=1e-9,
              atol=1e-8)
    return len(parts) > 1, [case["population"]]
