"""C21: chance is seeded, independent and confined to where it belongs."""

import random

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats

from .. import backends, scenario, zoo
from ..compare import as_array, close, is_true, scalar
from ..core import Suite, library
from ..gen import record, rng_of, seeds, uni, weighted
from .c12 import hyper_samples

suite = Suite(
    "C21",
    "Analyses as for C09 in which the same calls (keeping samples of each event, predictive "
    "resampling, rate draws) are repeated from the same and from other states of numpy's random "
    "generator; catalogues of identical tables with flat weights, where the agreement of draws "
    "between events, between successive calls and between states has an exact distribution; and "
    "histories of deterministic calls (every population model, likelihoods, selection functions, "
    "statistics, conversions, backend switches) around which the random states of numpy and "
    "Python are compared. Non-trivial: at least one random number is drawn, or a history of at "
    "least two different calls.",
    [
        "statistical checks: tail probabilities below 1e-10 count as dependent or biased",
        "the random state is numpy's global one, as the code draws from it; the states are "
        "given as the seeds of numpy.random.seed",
    ],
)

BACKEND = ["numpy"] * 7 + ["jax"]


def states():
    """(numpy, Python) random states, comparable."""
    name, keys, pos, has, cached = np.random.get_state()
    return name, keys.tobytes(), pos, has, cached, random.getstate()


def untouched(before, what):
    is_true(before == states(), f"{what} changed the state of the random generator")


def identical(a, b, what):
    is_true(set(a) == set(b), f"{what}: keys {sorted(a)} and {sorted(b)}")
    for key in a:
        close(np.asarray(a[key]), np.asarray(b[key]), f"{what}: {key}", rtol=0)


@suite.check(
    scenario.cases(
        backend=BACKEND, selections=("none", "number", "tuple", "injections"), min_samples=4,
        conversions=("none", "scale", "beta"), hyper=st.integers(1, 3),
        state=weighted(st.integers(0, 2**32 - 1), st.sampled_from([0, 1, 42])), burn=st.integers(0, 5),
    ),
    quick=700,
)
def repeatable(case):
    """The same state and calls: the same samples, resampling and rates."""
    built = scenario.Built(case)
    rng = rng_of(case["seed"] + 5)
    given = [scenario.sampled_of(case, p) for p in hyper_samples(case, case["hyper"], rng)]
    converted = dict(case["params"], rate=case["rate"])

    def run(burn):
        built.case = case
        np.random.seed(1)
        for _ in range(burn):  # whatever happened before the seed was set
            np.random.normal()
            random.random()
        like = built.likelihood(state=case["state"])
        out = {f"sample {k}": np.asarray(v) for k, v in like.data.items()}
        out["prior"] = np.asarray(like.sampling_prior)
        with library("posterior_predictive_resample"):
            for number in range(2):
                new = like.posterior_predictive_resample([dict(g) for g in given])
                out.update({f"{k} resampled, call {number}": np.asarray(v)
                            for k, v in new.items()})
        with library("generate_rate_posterior_sample"):
            out["rates"] = np.array([
                scalar(like.generate_rate_posterior_sample(dict(converted)), "rate")
                for _ in range(3)
            ])
        return out

    first, second = run(0), run(case["burn"])
    # samples without support have undefined weights
    finite = all(np.all(np.isfinite(v)) for v in first.values())
    identical(first, second, "the same random state")
    if case["cls"] != "Rate" and finite:
        rates = first["rates"]
        is_true(len(set(rates)) == len(rates), f"successive rate draws repeat: {rates}")
    return finite, [case["backend"], case["cls"], case["selection"]["kind"]]


def flat(dataset, level):
    """All samples alike."""
    return level + 0 * dataset["x"]


@suite.check(
    record(events=st.integers(2, 4), samples=st.integers(12, 40), level=uni(0.1, 3),
           state=st.integers(0, 2**31), seed=seeds(), tries=st.just(25),
           prior=st.booleans(), hyper=st.integers(1, 3),
           backend=weighted(*[st.just("numpy")] * 7, st.just("jax"))),
    quick=250,
)
def independent(case):
    """Draws for different events, calls and states have nothing in common."""
    from gwpopulation.hyperpe import HyperparameterLikelihood

    backends.use(case["backend"])
    n_ev = case["events"]
    n = case["samples"] if case["backend"] == "numpy" else 16
    tries = case["tries"] if case["backend"] == "numpy" else 8
    rng = rng_of(case["seed"])
    frame = dict(x=rng.normal(size=n), label=np.arange(float(n)))
    if case["prior"]:
        frame["prior"] = np.full(n, 0.7)
    frame = pd.DataFrame(frame)
    np.random.seed(case["state"])
    with library("likelihood construction"):
        like = HyperparameterLikelihood([frame.copy() for _ in range(n_ev)], flat)
    stored = np.asarray(like.data["label"]).astype(int)
    given = [dict(level=case["level"] + ii) for ii in range(case["hyper"])]

    def draws(state):
        np.random.seed(state)
        out = []
        for _ in range(tries):
            with library("posterior_predictive_resample"):
                labels = like.posterior_predictive_resample(given)["label"]
            # positions in the stored arrays
            out.append([[int(np.flatnonzero(stored[ii] == lab)[0]) for lab in row]
                        for ii, row in enumerate(np.asarray(labels).astype(int))])
        return np.array(out)  # calls, events, draws

    a = draws(case["state"])
    b = draws((case["state"] + 1) % 2**32)

    def agreement(first, second, what):
        same, total = int(np.sum(first == second)), first.size
        tail = stats.binom.sf(same - 1, total, 1 / n)
        is_true(tail > 1e-10, f"{what}: {same} of {total} draws agree, {total / n:.1f} expected")

    for ii in range(n_ev - 1):
        agreement(a[:, ii], a[:, ii + 1], f"events {ii} and {ii + 1}")
    agreement(a[:-1], a[1:], "successive calls")
    agreement(a, b, "different random states")
    # successive draws of one event
    agreement(a[..., :-1], a[..., 1:], "neighbouring draws")
    # all samples are equally likely
    for ii in range(n_ev):
        counts = np.bincount(a[:, ii].ravel(), minlength=n)
        total = a[:, ii].size
        for jj in (0, n // 2, n - 1):
            tail = min(stats.binom.sf(counts[jj] - 1, total, 1 / n),
                       stats.binom.cdf(counts[jj], total, 1 / n))
            is_true(tail > 1e-10, f"sample {jj} of {n}: {counts[jj]} of {total} flat draws")
    return True, [case["backend"]]


@suite.check(
    record(events=st.integers(2, 4), samples=st.integers(44, 70), keep=uni(0.4, 0.6),
           state=st.integers(0, 2**31), seed=seeds(), tries=st.just(40),
           cls=st.sampled_from(["HyperparameterLikelihood", "RateLikelihood",
                                "NullHyperparameterLikelihood"]),
           again=st.booleans(),
           backend=weighted(*[st.just("numpy")] * 7, st.just("jax"))),
    quick=200,
)
def selection_of_samples(case):
    """Which samples are kept: a uniform choice, made anew for each event and catalogue."""
    from gwpopulation import hyperpe

    backends.use(case["backend"])
    n, n_ev = case["samples"], case["events"]
    keep = int(n * case["keep"])
    rng = rng_of(case["seed"])
    # sorted, as from a table ordered by likelihood: the first rows are not representative
    frame = pd.DataFrame(dict(x=np.sort(rng.normal(size=n)), label=np.arange(float(n))))
    np.random.seed(case["state"])
    chosen = []
    like = None
    for _ in range(case["tries"]):
        frames = [frame.copy() for _ in range(n_ev)]
        if case["again"] and like is not None:
            with library("resample_posteriors"):
                data = like.resample_posteriors(frames, max_samples=keep)
        else:
            with library("likelihood construction"):
                like = getattr(hyperpe, case["cls"])(frames, flat, max_samples=keep)
                data = like.data
        chosen.append([frozenset(np.asarray(row).astype(int).tolist()) for row in data["label"]])
        is_true(all(len(c) == keep for c in chosen[-1]), "number of samples kept")
    # the chance of two equal choices is below 1e-10
    for row in chosen:
        is_true(len(set(row)) == n_ev, "the same samples are kept for different events")
    everything = [c for row in chosen for c in row]
    is_true(len(set(everything)) == len(everything),
            "the same samples are kept in different catalogues")
    total = len(everything)
    p = keep / n
    for jj in range(n):
        k = sum(jj in c for c in everything)
        tail = min(stats.binom.sf(k - 1, total, p), stats.binom.cdf(k, total, p))
        is_true(tail > 1e-11, f"row {jj} of {n} kept {k} of {total} times, probability {p:.2f}")
    return True, [case["backend"], case["cls"]]


CALLS = ["likelihood", "ratio", "variance", "noise", "statistics", "selection", "efficiency",
         "volume", "metadata", "weights", "model", "conversion", "backend", "numpyro", "build"]


@suite.check(
    scenario.cases(
        backend=BACKEND, conversions=("none", "scale", "beta"),
        calls=st.lists(st.sampled_from(CALLS), min_size=2, max_size=8),
        model=zoo.models(), state=st.integers(0, 2**31),
    ),
    quick=900,
)
def deterministic(case):
    """Everything else neither draws random numbers nor depends on them."""
    built = scenario.Built(case)
    like = built.likelihood()
    sel = built.selection
    params = scenario.sampled(case)
    converted = dict(case["params"], rate=case["rate"])
    m = case["model"]
    rng = rng_of(case["seed"] + 3)
    data = zoo.given(zoo.data(m, rng, (6,)), case["backend"])
    model = zoo.build(m)

    def value(out):
        if isinstance(out, dict):
            out = list(out.values())
        if isinstance(out, (list, tuple)):
            return [value(o) for o in out if o is not None and not isinstance(o, str)]
        return np.asarray(out)

    def call(name):
        if name == "likelihood":
            return like.log_likelihood(dict(params))
        if name == "ratio":
            return like.log_likelihood_ratio(dict(params))
        if name == "variance":
            return like.ln_likelihood_and_variance(dict(params))
        if name == "noise":
            return like.noise_log_likelihood()
        if name == "statistics":
            return like.generate_extra_statistics(dict(params))
        if name == "selection":
            return 0 if sel is None else sel(dict(converted))
        if name == "efficiency":
            return sel.detection_efficiency(dict(converted)) if hasattr(
                sel, "detection_efficiency") else 0
        if name == "volume":
            return sel.surveyed_hypervolume(dict(converted)) if hasattr(
                sel, "surveyed_hypervolume") else 0
        if name == "metadata":
            return [v for k, v in like.meta_data.items() if k not in ("model", "data")]
        if name == "weights":
            return like.hyper_prior.prob(like.data, **case["params"])
        if name == "model":
            return zoo.raw(m, model, data, m["params"][0])
        if name == "build":
            zoo.build(m)
            return 0
        if name == "conversion":
            from gwpopulation import conversions

            return conversions.convert_to_beta_parameters(
                dict(mu_chi=0.3, sigma_chi=0.02, amax=1.0))[0]
        if name == "backend":
            backends.use(case["backend"])
            return 0
        if case["backend"] == "jax" and case["selection"]["kind"] == "injections":
            from gwpopulation.experimental.numpyro import gwpopulation_likelihood_model
            from numpyro import handlers

            with handlers.seed(rng_seed=0):
                return gwpopulation_likelihood_model(like, dict(params))
        return 0

    def history(state):
        np.random.seed(state)
        random.seed(state)
        out = []
        for name in case["calls"]:
            before = states()
            with library(name):
                out.append(value(call(name)))
            untouched(before, name)
        return out

    def same(a, b, what):
        if isinstance(a, list):
            is_true(isinstance(b, list) and len(a) == len(b), f"{what}: structure")
            for x, y in zip(a, b):
                same(x, y, what)
        else:
            close(as_array(a, what), as_array(b, what), f"{what} under another random state",
                  rtol=1e-12)

    first = history(case["state"])
    second = history(case["state"] + 1)
    for name, a, b in zip(case["calls"], first, second):
        same(a, b, name)
    return len(set(case["calls"])) > 1, [case["backend"], m["kind"]]
