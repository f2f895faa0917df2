"""C13: parameter conversions."""

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from .. import backends
from ..compare import close, is_true, snapshot, unchanged
from ..core import Suite, library
from ..gen import inner, loguni, mix, record, rng_of, seeds, uni

suite = Suite(
    "C13",
    "Beta shapes and maxima over several decades, scalars and arrays, numpy and jax, are converted "
    "there and back and compared with the moments of scipy's beta distribution; dictionaries with "
    "every combination of present, missing and None entries in the shared and per-component "
    "spellings are converted and compared with a model of the documented key handling. "
    "Non-trivial: something has to be converted (dictionaries), shapes not both one (moments).",
    [
        "scipy.stats.beta moments",
        "round-trip tolerance scaled by the conditioning (alpha + beta + 1) of the inverse",
        "domain: 0 < mean < maximum, variance below mean (maximum - mean)",
    ],
)

SHAPE = mix(loguni(0.05, 200), 1, 2)
BACKENDS = st.sampled_from(["numpy"] * 4 + ["jax"])
FORM = st.sampled_from(["scalar", "array", "mixed"])


def shaped(values, form, backend, seed):
    """values: three numbers; form decides which are arrays."""
    rng = rng_of(seed)
    out = []
    for ii, v in enumerate(values):
        if form == "scalar" or (form == "mixed" and ii == 2):
            out.append(v)
        else:
            arr = v * rng.uniform(0.9, 1.1, 4)
            if ii == 2:
                arr = np.full(4, v)
            out.append(backends.arr(arr, backend) if backend == "jax" else arr)
    return out


@suite.check(
    record(alpha=SHAPE, beta=SHAPE, amax=mix(loguni(0.05, 3), 1), form=FORM, backend=BACKENDS,
           seed=seeds()),
    quick=1500,
)
def moments(case):
    backends.use(case["backend"])
    from gwpopulation import conversions

    a, b, m = shaped([case["alpha"], case["beta"], case["amax"]], case["form"], case["backend"],
                     case["seed"])
    before = snapshot([a, b, m])
    with library("alpha_beta_max_to_mu_var_max"):
        mu, var, amax = conversions.alpha_beta_max_to_mu_var_max(a, b, m)
    unchanged(before, [a, b, m], "inputs")
    wmu, wvar = stats.beta.stats(np.asarray(a), np.asarray(b), scale=np.asarray(m), moments="mv")
    wmu = np.asarray(wmu, float).reshape(np.shape(mu))
    close(np.asarray(mu, float), wmu, "mean", rtol=1e-10)
    close(np.asarray(var, float), np.asarray(wvar, float).reshape(np.shape(var)), "variance",
          rtol=1e-9)
    close(np.asarray(amax, float), np.asarray(m, float), "maximum", rtol=0)
    before = snapshot([mu, var, amax])
    with library("mu_var_max_to_alpha_beta_max"):
        ra, rb, rm = conversions.mu_var_max_to_alpha_beta_max(mu, var, amax)
    unchanged(before, [mu, var, amax], "inputs of the inverse")
    total = np.asarray(a) + np.asarray(b) + 1
    tol = 1e-11 * total * (1 + np.asarray(a) / np.asarray(b)) * (1 + np.asarray(b) / np.asarray(a))
    close(np.asarray(ra, float), np.asarray(a, float) + 0 * wmu, "alpha after the round trip",
          rtol=1e-9 + tol)
    close(np.asarray(rb, float), np.asarray(b, float) + 0 * wmu, "beta after the round trip",
          rtol=1e-9 + tol)
    close(np.asarray(rm, float), np.asarray(m, float), "maximum after the round trip", rtol=0)
    return not (case["alpha"] == case["beta"] == 1), [case["form"], case["backend"]]


@suite.check(
    record(frac=inner(0, 1), spread=inner(0, 1), amax=mix(loguni(0.05, 3), 1), form=FORM,
           backend=BACKENDS, seed=seeds()),
    quick=1200,
)
def inverse_moments(case):
    """The shape parameters belong to a distribution with the given mean and variance."""
    backends.use(case["backend"])
    from gwpopulation import conversions

    mean = case["frac"] * case["amax"]
    limit = mean * (case["amax"] - mean)
    var = limit * case["spread"]
    mu, v, m = mean, var, case["amax"]
    if case["form"] != "scalar":
        scale = rng_of(case["seed"]).uniform(0.5, 1.0, 3)
        mu = np.full(3, mean)
        v = var * scale
        if case["backend"] == "jax":
            mu, v = backends.arr(mu, "jax"), backends.arr(v, "jax")
    before = snapshot([mu, v, m])
    with library("mu_var_max_to_alpha_beta_max"):
        a, b, amax = conversions.mu_var_max_to_alpha_beta_max(mu, v, m)
    unchanged(before, [mu, v, m], "inputs")
    a, b = np.asarray(a, float), np.asarray(b, float)
    # the documented inverse, from the moments: alpha + beta = mean (max - mean) / var - 1
    x = np.asarray(mu, float) / case["amax"]
    total = x * (1 - x) / (np.asarray(v, float) / case["amax"] ** 2) - 1
    tol = 1e-12 * (1 + 1 / np.abs(total))
    close(a, x * total, "alpha", rtol=1e-9 + tol)
    close(b, (1 - x) * total, "beta", rtol=1e-9 + tol)
    close(np.asarray(amax, float), np.asarray(m, float), "maximum", rtol=0)
    return True, [case["form"]]


# -- dictionaries -----------------------------------------------------------------

SUFFIXES = ["", "_1", "_2"]


def entry():
    """Which keys of one spelling are present: value, None or absent."""
    state = st.sampled_from(["value", "none", "absent", "absent"])
    return record(alpha=state, beta=state, amax=mix(uni(0.3, 1), 1, 2),
                  moments=st.sampled_from(["both", "both", "neither", "neither", "mu", "sigma"]))


def expected_conversion(params, remove):
    """Model of the documented behaviour."""
    out = dict(params)
    added = []

    def one(suffix):
        keys = [f"{k}_chi{suffix}" for k in ("alpha", "beta")]
        if all(params.get(k) is not None for k in keys):
            return True
        if f"mu_chi{suffix}" in params and f"sigma_chi{suffix}" in params:
            mean, var = params[f"mu_chi{suffix}"], params[f"sigma_chi{suffix}"]
            top = params[f"amax{suffix}"]
            x, v = mean / top, var / top**2
            total = x * (1 - x) / v - 1
            out[keys[0]], out[keys[1]] = x * total, (1 - x) * total
            added.extend(keys)
            return True
        return False

    done = [one("_1"), one("_2")]
    if not any(done):
        one("")
    return out, added if remove else []


@suite.check(
    st.fixed_dictionaries(
        dict(
            entries=st.fixed_dictionaries({s: entry() for s in SUFFIXES}),
            spare=st.booleans(),
            others=st.dictionaries(st.sampled_from(["lam", "mmin", "xi_spin", "alpha", "mu_chi_p"]),
                                   uni(0, 5), max_size=3),
            remove=st.sampled_from([None, True, False]),
            form=st.sampled_from(["scalar", "array", "numpy", "integer", "one"]),
            order=seeds(),
        )
    ),
    quick=2500,
)
def dictionaries(case):
    backends.use("numpy")
    from gwpopulation.conversions import convert_to_beta_parameters

    rng = rng_of(case["order"])

    def value(lo, hi):
        if case["form"] in ("array", "one"):
            return rng.uniform(lo, hi, 3 if case["form"] == "array" else 1)
        out = rng.uniform(lo, hi)
        return np.float64(out) if case["form"] == "numpy" else float(out)

    def shape():
        # given shape parameters are passed on whatever they are, zero included
        return int(rng.integers(0, 4)) if case["form"] == "integer" else value(0.5, 6)

    params = dict(case["others"])
    for suffix, spec in case["entries"].items():
        amax, moments = spec["amax"], spec["moments"]
        # the maximum is only needed where the moments are given
        if moments == "both" or case["spare"]:
            params[f"amax{suffix}"] = amax
        for name in ("alpha", "beta"):
            if spec[name] != "absent":
                params[f"{name}_chi{suffix}"] = None if spec[name] == "none" else shape()
        if moments in ("both", "mu"):
            params[f"mu_chi{suffix}"] = value(0.2, 0.8) * amax
        if moments in ("both", "sigma"):
            params[f"sigma_chi{suffix}"] = value(0.01, 0.1) * amax**2
    items = list(params.items())
    order = rng.permutation(len(items))
    params = {items[ii][0]: items[ii][1] for ii in order}
    before = snapshot(params)
    kwargs = {} if case["remove"] is None else dict(remove=case["remove"])
    with library("convert_to_beta_parameters"):
        got, added = convert_to_beta_parameters(params, **kwargs)
    unchanged(before, params, "input dictionary")
    want, want_added = expected_conversion(params, case["remove"] is not False)
    is_true(set(got) == set(want), f"keys {sorted(set(got) ^ set(want))} added or lost")
    is_true(sorted(added) == sorted(want_added), f"added keys {added} instead of {want_added}")
    is_true(got is not params, "the input dictionary itself was returned")
    for key in want:
        if want[key] is None:
            is_true(got[key] is None, f"{key}: {got[key]} instead of None")
        elif key in want_added or key not in params or params[key] is None:
            close(np.asarray(got[key]), np.asarray(want[key]), key, rtol=1e-9)
        elif key in [f"{a}_chi{s}" for a in ("alpha", "beta") for s in SUFFIXES]:
            close(np.asarray(got[key]), np.asarray(want[key]), key, rtol=1e-9)
        else:
            unchanged(snapshot(params[key]), got[key], key)
    return bool(want_added) or case["remove"] is False, [
        "added " + ",".join(sorted({k[9:] if k.startswith("alpha") else k[8:] or "shared"
                                    for k in want_added}))
    ]
