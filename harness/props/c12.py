"""C12: catalogue handling and predictive resampling."""

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats

from .. import scenario
from ..compare import close, is_true, snapshot, unchanged
from ..core import Suite, library
from ..gen import rng_of

suite = Suite(
    "C12",
    "Catalogues of 1-6 posterior tables of unequal length with shuffled row labels, every sample "
    "carrying a unique identifier, with and without sampling prior and limit on the number of "
    "samples; hyperparameter samples given as table, list or single dictionary. Stored and "
    "resampled samples are traced back to the input by the identifier, weights are compared with "
    "the definition, and repeated draws with the weights by an exact binomial test. Non-trivial: "
    "events of different length or fewer samples requested than available; some zero weights.",
    [
        "statistical check: binomial tail probability below 1e-10 counts as disproportionate",
        "domain: the same columns in all tables; every event has support for every hyperparameter "
        "sample",
    ],
)

BACKEND = ["numpy"] * 9 + ["jax"]


def table(case, frames):
    """label -> row"""
    rows = {}
    for frame in frames:
        for _, row in frame.iterrows():
            rows[row["label"]] = row
    return rows


@suite.check(
    scenario.cases(backend=BACKEND, selections=("none",), conversions=("none",), min_samples=1,
                   reverse_columns=st.booleans(), float_limit=st.booleans()),
    quick=1200,
)
def stored_samples(case):
    built = scenario.Built(case)
    frames = built.frames
    if case["reverse_columns"]:
        frames = [f[list(f.columns)[:: 1 if ii == 0 else -1]] for ii, f in enumerate(frames)]
    before = snapshot(frames)
    like = built.likelihood(posteriors=frames)
    unchanged(before, frames, "posterior tables")
    shortest = min(len(f) for f in frames)
    limit = case["max_samples"]
    n = shortest if limit is None else min(shortest, limit)
    n_ev = len(frames)
    with library("likelihood attributes"):
        is_true(like.samples_per_posterior == n,
                f"samples_per_posterior is {like.samples_per_posterior} instead of {n}")
        is_true(like.n_posteriors == n_ev, f"n_posteriors is {like.n_posteriors}")
        keys = set(like.data)
        meta = like.meta_data
    want_keys = set(frames[0].columns) - {"prior"}
    is_true(keys == want_keys, f"data keys {sorted(keys)} instead of {sorted(want_keys)}")
    data = {k: np.asarray(v) for k, v in like.data.items()}
    prior = np.asarray(like.sampling_prior)
    for key, value in data.items():
        is_true(value.shape == (n_ev, n), f"{key}: shape {value.shape} instead of {(n_ev, n)}")
    if case["prior"]:
        is_true(prior.shape == (n_ev, n), f"prior: shape {prior.shape} instead of {(n_ev, n)}")
    for ii, frame in enumerate(frames):
        labels = data["label"][ii]
        is_true(len(set(labels)) == n, f"event {ii}: repeated samples")
        by_label = frame.set_index("label")
        is_true(set(labels) <= set(by_label.index), f"event {ii}: samples of another event")
        rows = by_label.loc[labels]
        for key in want_keys - {"label"}:
            close(data[key][ii], rows[key].to_numpy(), f"event {ii}: {key} of a sample", rtol=0)
        if case["prior"]:
            close(prior[ii], rows["prior"].to_numpy(), f"event {ii}: prior of a sample", rtol=0)
    if not case["prior"]:
        close(np.broadcast_to(prior, ()), np.float64(1), "default sampling prior", rtol=0)
    # the recorded metadata are those samples
    is_true(meta["n_events"] == n_ev, "metadata: number of events")
    is_true(meta["samples_per_posterior"] == n, "metadata: samples per posterior")
    is_true(set(meta["data"]) == want_keys, "metadata: keys")
    for key in want_keys:
        close(meta["data"][key], data[key], f"metadata: {key}", rtol=0)
    close(np.asarray(meta["sampling_prior"]), prior, "metadata: prior", rtol=0)
    is_true(len(meta["model"]) == len(scenario.POPULATIONS[case["population"]]), "metadata: models")
    return (
        len(set(case["events"])) > 1 or n < shortest,
        ["limited" if limit is not None and limit < shortest else "all",
         "prior" if case["prior"] else "no prior", case["backend"]],
    )


def hyper_samples(case, n, rng):
    """n hyperparameter samples around the case's own."""
    out = []
    for _ in range(n):
        params = dict(case["params"])
        for key in ("mu", "alpha", "slope", "lamb", "mu_chi_eff", "tilt", "gamma"):
            if key in params:
                params[key] = params[key] + rng.uniform(-0.3, 0.3)
        out.append(params)
    if n > 2 and rng.uniform() < 0.4:
        out[-1] = dict(out[0])  # a repeated sample counts twice
    return out


PREDICTIVE = ["toy", "two toys", "toy and class", "masses", "masses and redshift", "spin", "all"]


def resample_case(**extra):
    return scenario.cases(
        populations=PREDICTIVE, backend=BACKEND, selections=("none",), min_samples=4,
        classes=("Hyper", "Rate"), conversions=("none", "scale", "beta", "inplace", "rescale"), hyper=st.integers(1, 5),
        form=st.sampled_from(["table", "list", "dict"]), zeros=st.integers(0, 3), **extra,
    )


def prepare(case):
    built = scenario.Built(case)
    rng = rng_of(case["seed"] + 9)
    frames = []
    for frame in built.frames:
        frame = frame.copy()
        # some samples outside of the support
        bad = rng.permutation(len(frame))[: min(case["zeros"], len(frame) - 2)]
        for col in frame.columns:
            if col in ("x", "mass_1", "a_1") and len(bad):
                values = frame[col].to_numpy().copy()
                values[bad] += 400.0
                frame[col] = values
            if col == "x":
                # keep the rest inside
                values = frame[col].to_numpy().copy()
                good = np.ones(len(frame), bool)
                good[bad] = False
                values[good] = np.minimum(values[good], 1.5)
                frame[col] = values
        frames.append(frame)
    built.frames = frames
    like = built.likelihood()
    number = 1 if case["form"] == "dict" else case["hyper"]
    params = hyper_samples(case, number, rng)
    given = [scenario.sampled_of(case, p) for p in params]
    if case["form"] == "table":
        given = pd.DataFrame(given)
        if case["seed"] % 3:
            # as read from a file or selected: other row labels, further columns
            given.index = rng.permutation(len(given)) * 3 + 2
            given["log_likelihood"] = rng.normal(size=len(given))
    elif case["form"] == "dict":
        given = given[0]
    return built, like, params, given


def reference_weights(built, like, params):
    total = 0.0
    for p in params:
        w = built.weights(like, p)
        total = total + w / np.sum(w, axis=1, keepdims=True)
    return total / len(params)


def check_draws(like, new, want, what):
    """Whole samples of the same event with non-zero weight; returns the indices drawn."""
    data = {k: np.asarray(v) for k, v in like.data.items()}
    new = {k: np.asarray(v) for k, v in new.items()}
    is_true(set(new) == set(data), f"{what}: keys {sorted(new)}")
    idx = np.zeros(data["label"].shape, int)
    for ii in range(len(want)):
        lookup = {lab: jj for jj, lab in enumerate(data["label"][ii])}
        is_true(new["label"].shape == data["label"].shape, f"{what}: shape {new['label'].shape}")
        for kk, lab in enumerate(new["label"][ii]):
            is_true(lab in lookup, f"{what}: event {ii} holds a sample of another event")
            idx[ii, kk] = lookup[lab]
        for key in data:
            close(new[key][ii], data[key][ii][idx[ii]], f"{what}: {key} of event {ii}", rtol=0)
        is_true(np.all(want[ii][idx[ii]] > 0), f"{what}: event {ii}, a sample of zero weight")
    return idx


@suite.check(resample_case(), quick=700)
def predictive(case):
    built, like, params, given = prepare(case)
    want = reference_weights(built, like, params)
    if not np.all(np.isfinite(want)):
        return False, ["no support"]
    before = snapshot(given)
    held = snapshot({k: np.asarray(v) for k, v in like.data.items()})
    with library("posterior_predictive_resample"):
        new, weights = like.posterior_predictive_resample(given, return_weights=True)
        only = like.posterior_predictive_resample(given)
    unchanged(before, given, "hyperparameter samples")
    unchanged(held, {k: np.asarray(v) for k, v in like.data.items()}, "stored samples")
    close(np.asarray(weights), want, "per-event weights", rtol=1e-8, atol=1e-14)
    check_draws(like, new, want, "resampled")
    check_draws(like, only, want, "resampled without weights")
    return np.any(want == 0) or len(params) > 1, [case["form"], case["backend"],
                                                   "zeros" if np.any(want == 0) else "positive"]


@suite.check(resample_case(tries=st.just(60)), quick=120)
def proportions(case):
    """Repeated draws follow the weights."""
    if case["backend"] == "jax":
        case = dict(case, backend="numpy") if case["seed"] % 2 else dict(case, tries=15)
    built, like, params, given = prepare(case)
    want = reference_weights(built, like, params)
    if not np.all(np.isfinite(want)):
        return False, ["no support"]
    counts = np.zeros(want.shape)
    np.random.seed(case["seed"] % 2**32)
    for _ in range(case["tries"]):
        with library("posterior_predictive_resample"):
            new = like.posterior_predictive_resample(given)
        idx = check_draws(like, new, want, "resampled")
        for ii in range(len(want)):
            counts[ii] += np.bincount(idx[ii], minlength=want.shape[1])
    total = case["tries"] * want.shape[1]
    for ii in range(len(want)):
        order = np.argsort(want[ii])
        groups = [order[-1:], order[len(order) // 2:], order[: len(order) // 2], order[::2]]
        for group in groups:
            p = min(float(np.sum(want[ii][group])), 1.0)
            k = int(np.sum(counts[ii][group]))
            tail = min(stats.binom.sf(k - 1, total, p), stats.binom.cdf(k, total, p))
            is_true(tail > 1e-10, f"event {ii}: {k} of {total} draws for total weight {p:.4f}")
    return True, [case["form"], case["backend"]]
