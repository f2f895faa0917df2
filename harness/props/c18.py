"""C18: extra statistics and rates."""

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from .. import oracle, scenario
from ..compare import close, is_true, scalar, snapshot
from ..core import Suite, library
from .c09 import tolerance

suite = Suite(
    "C18",
    "Analyses as for C09; the statistics added to a sample are compared with the estimator and "
    "reassembled into the log-likelihood and variance seen by the sampler; rate draws are tested "
    "against the documented gamma distribution (Kolmogorov-Smirnov over many draws, and exactly, "
    "relative to draws with a unit selection function from the same random state); the rate-"
    "explicit and rate-marginalised likelihoods are compared. Non-trivial: a selection function "
    "is given and the estimate is finite.",
    [
        "statistical check: Kolmogorov-Smirnov p-value below 1e-10",
        "the exact comparison of draws is skipped when two draws from one random state differ",
        "the parameters given to the rate draw are already converted, as the code requires",
    ],
)

BACKEND = ["numpy"] * 9 + ["jax"]


@suite.check(
    scenario.cases(backend=BACKEND, note=st.booleans(),
                   conversions=("none", "scale", "beta", "inplace", "rescale")), quick=1300
)
def extra_statistics(case):
    built = scenario.Built(case)
    like = built.likelihood()
    sample = scenario.sampled(case)
    if case["note"]:
        sample["log_prior"] = -3.25
        sample["name"] = "seven"
    before = snapshot(sample)
    if case["backend"] == "jax":
        sample.pop("name", None)
        before.pop("name", None)
    with library("generate_extra_statistics"):
        out = like.generate_extra_statistics(sample)
        ln_l, variance = like.ln_likelihood_and_variance(scenario.sampled(case))
    is_true(out is sample, "the sample is not modified in place")
    for key, value in before.items():
        is_true(key in out and (out[key] == value), f"entry {key} changed to {out.get(key)}")
    n_ev = len(case["events"])
    want_keys = {f"ln_bf_{ii}" for ii in range(n_ev)} | {f"var_{ii}" for ii in range(n_ev)}
    want_keys |= {"selection", "selection_variance", "variance"}
    is_true(set(out) - set(before) == want_keys,
            f"added {sorted(set(out) - set(before))} instead of {sorted(want_keys)}")
    want, wvar, ln_bf, var = built.estimate(like, cls="Hyper")
    pdet, pvar = built.detection()
    tol = tolerance(built, like)
    for ii in range(n_ev):
        if np.isfinite(ln_bf[ii]):
            close(scalar(out[f"ln_bf_{ii}"], "ln_bf"), ln_bf[ii], f"ln_bf_{ii}", rtol=1e-9,
                  atol=1e-9)
            close(scalar(out[f"var_{ii}"], "var"), var[ii], f"var_{ii}", rtol=1e-8, atol=tol)
    close(scalar(out["selection"], "selection"), np.float64(pdet), "selection", rtol=1e-9)
    if np.isfinite(pvar) and np.isfinite(pdet):
        close(scalar(out["selection_variance"], "selection variance"), np.float64(pvar),
              "selection_variance", rtol=1e-8, atol=tol * pdet**2 + 1e-300)
    _, wvar, _, _ = built.estimate(like)
    finite = np.isfinite(want) and np.isfinite(wvar)
    if finite:
        close(scalar(out["variance"], "variance"), np.float64(wvar), "variance", rtol=1e-8,
              atol=tol)
        close(scalar(variance, "variance"), scalar(out["variance"], "variance"),
              "variance seen by the sampler", rtol=1e-8, atol=tol)
        total = sum(scalar(out[f"ln_bf_{ii}"], "ln_bf") for ii in range(n_ev))
        sel = scalar(out["selection"], "selection")
        if case["cls"] == "Hyper":
            total -= n_ev * np.log(sel)
        elif case["cls"] == "Rate":
            total += n_ev * np.log(case["rate"]) - case["rate"] * sel
        else:
            total = 0.0
        close(scalar(ln_l, "log-likelihood"), np.float64(total), "reassembled log-likelihood",
              rtol=1e-9, atol=1e-8)
    return finite and case["selection"]["kind"] != "none", [case["cls"], case["selection"]["kind"],
                                                            case["backend"]]


def volume(built):
    """Sensitive four-volume for the case."""
    case = built.case
    sel = case["selection"]
    if sel["kind"] != "injections":
        return built.detection()[0]
    mu, _ = built.efficiency()
    pieces = scenario.POPULATIONS[case["population"]]
    p = case["params"]
    if "redshift" in pieces:
        ref = oracle.cosmology_of("Planck15")

        def func(z):
            return ref.dvc_dz(z) * (1 + z) ** (p["lamb"] - 1)
    elif "redshift free" in pieces:
        ref = oracle.cosmology_of("FlatLambdaCDM", p)

        def func(z):
            return ref.dvc_dz(z) / (1 + z) * oracle.madau(z, p["gamma"], p["kappa"], p["z_peak"])
    else:
        ref = oracle.cosmology_of("Planck15")

        def func(z):
            return ref.dvc_dz(z) / (1 + z)
    total = oracle.gauss_legendre(func, 0, 2.3, pieces=4)
    return mu * total / 1e9 * sel["time"]


@suite.check(
    scenario.cases(backend=["numpy"] * 14 + ["jax"], selections=("number", "tuple", "injections",
                   "grid"), classes=("Hyper", "Rate")), quick=500
)
def rates(case):
    built = scenario.Built(case)
    like = built.likelihood()
    params = dict(case["params"], rate=case["rate"])
    n_ev = len(case["events"])
    if case["cls"] == "Rate":
        with library("generate_rate_posterior_sample"):
            got = like.generate_rate_posterior_sample(dict(params))
        close(scalar(got, "rate"), np.float64(case["rate"]), "rate of the sample", rtol=0)
        return True, ["rate likelihood"]
    vt = volume(built)
    if not (np.isfinite(vt) and vt > 0):
        return False, ["no volume"]
    del params["rate"]
    unit = built.likelihood(selection_function=lambda parameters: 1.0)
    seed = case["seed"] % 2**32

    def one(which, s):
        np.random.seed(s)
        return scalar(which.generate_rate_posterior_sample(dict(params)), "rate")

    with library("generate_rate_posterior_sample"):
        a, again, base = one(like, seed), one(like, seed), one(unit, seed)
        np.random.seed(seed)
        number = 250 if case["backend"] == "numpy" else 25
        draws = np.array([
            scalar(like.generate_rate_posterior_sample(dict(params)), "rate")
            for _ in range(number)
        ])
    if a == again:
        close(np.float64(a * vt), np.float64(base), "scale of the rate", rtol=1e-5)
    is_true(np.all(draws > 0), "a rate that is not positive")
    pvalue = stats.kstest(draws * vt, stats.gamma(n_ev).cdf).pvalue
    is_true(pvalue > 1e-10, f"rate draws do not follow Gamma({n_ev}) / {vt:.4g} (p={pvalue:.2g})")
    return True, [case["selection"]["kind"], case["backend"]]


@suite.check(scenario.cases(backend=BACKEND), quick=500)
def rate_relation(case):
    """ln L(rate) - ln L(marginalised) = N ln(R P) - R P."""
    built = scenario.Built(case)
    params = scenario.sampled(case)
    with library("log_likelihood_ratio"):
        marg, v1 = built.likelihood("Hyper").ln_likelihood_and_variance(dict(params))
        rate, v2 = built.likelihood("Rate").ln_likelihood_and_variance(dict(params))
        null, v3 = built.likelihood("Null").ln_likelihood_and_variance(dict(params))
    pdet, _ = built.detection()
    n_ev = len(case["events"])
    marg, rate = scalar(marg, "marginalised"), scalar(rate, "rate")
    if not np.isfinite(marg):
        return False, ["undefined"]
    counts = case["rate"] * pdet
    close(np.float64(rate - marg), np.float64(n_ev * np.log(counts) - counts),
          "difference of the likelihoods", rtol=1e-8, atol=1e-7 * (1 + abs(marg) + counts))
    is_true(scalar(null, "null") == 0, "null likelihood is not zero")
    close(scalar(v3, "variance"), scalar(v1, "variance"), "variance of the null likelihood",
          rtol=1e-9, atol=1e-12)
    return case["selection"]["kind"] != "none", [case["selection"]["kind"]]
