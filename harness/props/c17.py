"""C17: the compiled likelihood and the numpyro model."""

import numpy as np
from hypothesis import strategies as st

from .. import backends, scenario
from ..compare import as_array, close, is_true, scalar
from ..core import Suite, Violation, library
from ..gen import loguni, record, weighted
from .c09 import tolerance
from .c18 import volume

suite = Suite(
    "C17",
    "Complete analyses (catalogues with unequal lengths, sampling priors, evidences, conversions, "
    "selection functions, events without support, limits on the uncertainty above and below the "
    "true one) under jax. The compiled likelihood is evaluated at several hyperparameter values "
    "(twice each, between plain evaluations) and compared with the plain likelihood and the "
    "documented estimator. The numpyro model is traced (and compiled) and every site compared "
    "with the estimator, predictive draws with the samples of the labelled event and found "
    "injections. Non-trivial: the value depends on the hyperparameters (not null, not undefined).",
    [
        "an explicitly given bilby Model is created with cache=False: bilby's own cache keeps "
        "traced values",
        "settings of a likelihood are not changed after its first compiled evaluation (jax keeps "
        "them as constants)",
        "attributes that bilby's Likelihood class itself defines are not looked up on the wrapped "
        "likelihood",
        "numpyro: the convergence criterion of the selection function is not part of the model; "
        "predictive draws are judged when enough samples have non-zero weight",
    ],
)

HUGE = -1e300
FACTOR = weighted(st.none(), loguni(0.2, 5), loguni(0.2, 5))
CHEAP = ["toy", "toy", "two toys", "toy and class", "masses", "spin"]
DEAR = ["masses and redshift", "all", "smoothed"]


def more_params(case, rng, n):
    """Further hyperparameters near the drawn ones (inside of the domains)."""
    out = [case["params"]]
    for _ in range(n):
        new = dict(case["params"])
        for key in new:
            new[key] = float(new[key] * rng.uniform(0.97, 1.0))
        out.append(new)
    return out


def plain_likelihood(built, how, **kwargs):
    from bilby.hyper.model import Model

    models = scenario.models_of(built.case["population"])
    if how and built.case["population"] == "toy":
        hyper_prior = models[0]
    else:
        hyper_prior = Model(models, cache=False)
    return built.likelihood(hyper_prior=hyper_prior, **kwargs)


def resolve(factor, variance):
    if factor is None:
        return np.inf
    if not (np.isfinite(variance) and variance > 0):
        return 1.0
    return factor * variance**0.5


def compiled_case(pops):
    return scenario.cases(
        populations=pops, dead=True, backend=("jax",), factor=FACTOR,
        func=st.sampled_from(["default", "default", "ratio", "full", "own"]),
        bare=st.booleans(), late=st.booleans(), integer=st.booleans(),
    )


def own_function(likelihood, parameters, offset=0.0, twice=False):
    value = likelihood.log_likelihood_ratio(parameters)
    return (value * (2 if twice else 1) + offset) / 4


class Extended:
    """What a user adds to a likelihood is reachable through the wrapper."""


@suite.check(compiled_case(CHEAP * 3 + DEAR), quick=200, thorough=2500)
def compiled(case):
    from gwpopulation.experimental.jax import JittedLikelihood

    if case["population"] == "spin" or case["selection"]["kind"] == "grid":
        case = dict(case, dead=False)
    built = scenario.Built(case)
    rng = np.random.default_rng(case["seed"])
    if built.detection()[0] == 0:
        return False, ["no detection"]
    probe = plain_likelihood(built, case["bare"])
    _, variance, _, _ = built.estimate(probe)
    limit = resolve(case["factor"], variance)
    if case["late"]:
        like = plain_likelihood(built, case["bare"])
    else:
        like = plain_likelihood(built, case["bare"], maximum_uncertainty=limit)
    like.users_note = ["anything", 3]
    kwargs = dict(
        default=None, ratio=dict(use_ratio=True), full=dict(use_ratio=False),
        own=dict(offset=1.5, twice=bool(case["seed"] % 2)),
    )[case["func"]]
    full = case["func"] == "full" and case["evidences"] is not None
    if case["func"] == "full" and not full:
        kwargs = dict(use_ratio=True)
    with library("JittedLikelihood"):
        if case["func"] == "own":
            jitted = JittedLikelihood(like, likelihood_func=own_function, kwargs=kwargs)
        elif kwargs is None:
            jitted = JittedLikelihood(like)
        else:
            jitted = JittedLikelihood(like, kwargs=kwargs)
    if case["late"]:
        with library("maximum_uncertainty"):
            like.maximum_uncertainty = limit
    offset = float(np.sum(case["evidences"][: len(case["events"])])) if full else 0.0
    params = more_params(case, rng, 2)
    if case["integer"] and case["population"] != "toy":
        extra = dict(params[0])
        for key in ("alpha", "beta", "lamb", "mu"):
            if key in extra:
                extra[key] = int(round(extra[key]))
        params.append(extra)
    labels, moved = [], False
    shared = {}
    for ii, one in enumerate(params):
        here = dict(case, params=one)
        given = scenario.sampled(here)
        built.case = here
        want, wvar, _, _ = built.estimate(like, one)
        # the caller may use one dictionary all the time, changing its values
        shared.update(given)
        with library("log_likelihood_ratio of the compiled likelihood"):
            value = jitted.log_likelihood_ratio(shared if case["seed"] % 2 else dict(given))
            again = jitted.log_likelihood_ratio(shared if case["seed"] % 4 > 1 else dict(given))
        with library("log_likelihood_ratio of the plain likelihood after a compiled one"):
            plain = float(like.log_likelihood_ratio(dict(given)))
        is_true(isinstance(value, float), f"value {ii} is not a float ({type(value).__name__})")
        is_true(np.isfinite(value), f"value {ii} is not finite ({value})")
        is_true(value == again, f"value {ii} changed from {value} to {again}")
        target = plain + offset
        if case["func"] == "own":
            target = (plain * (2 if kwargs["twice"] else 1) + kwargs["offset"]) / 4
        bound = limit**2 if np.isfinite(limit) else np.inf
        tol = tolerance(built, like)
        edge = np.isfinite(bound) and np.isfinite(wvar) and (
            abs(wvar - bound) <= 1e-5 * max(wvar, bound) + 10 * tol
        )
        if edge:
            labels.append("at the limit")
            continue
        if plain < HUGE:
            is_true(value < HUGE / 10, f"value {ii}: {value} although the plain one is {plain}")
            labels.append("rejected")
            continue
        close(np.float64(value), np.float64(target), f"value {ii}", rtol=1e-8,
              atol=1e-7 * len(case["events"]))
        if case["cls"] != "Null" and np.isfinite(want):
            close(np.float64(plain), np.float64(want), f"plain value {ii}", rtol=1e-7,
                  atol=1e-7 * len(case["events"]))
            moved = True
        labels.append("accepted")
    passed_through(jitted, like)
    return moved or "rejected" in labels, labels + [case["cls"], case["selection"]["kind"],
                                                    case["func"], case["population"]]


PASSED = ["n_posteriors", "data", "maximum_uncertainty", "samples_per_posterior", "sampling_prior",
          "hyper_prior", "selection_function", "conversion_function", "total_noise_evidence",
          "users_note"]
METHODS = ["generate_extra_statistics", "ln_likelihood_and_variance",
           "generate_rate_posterior_sample", "posterior_predictive_resample"]


def passed_through(jitted, like):
    for name in PASSED:
        with library(f"attribute {name} of the compiled likelihood"):
            got = getattr(jitted, name)
        is_true(got is getattr(like, name), f"attribute {name} is not the likelihood's own")
    for name in METHODS:
        with library(f"method {name} of the compiled likelihood"):
            got = getattr(jitted, name)
        is_true(getattr(got, "__self__", None) is like or callable(got),
                f"method {name} is not the likelihood's own")
    try:
        jitted.no_such_attribute_anywhere
    except AttributeError:
        return
    except Exception as exc:
        raise Violation(f"a missing attribute raises {type(exc).__name__}: {exc}")
    raise Violation("a missing attribute has a value")


# -- numpyro ----------------------------------------------------------------------


def rows(table, keys):
    return {tuple(np.asarray(table[k])[ii] for k in keys)
            for ii in range(len(np.asarray(table[keys[0]])))}


@suite.check(
    scenario.cases(
        populations=CHEAP * 3 + DEAR, selections=("injections",), classes=("Hyper",), dead=True,
        backend=("jax",), factor=FACTOR, apply_selection=st.sampled_from([True, True, False]),
        resample=st.sampled_from([True, True, False]),
        keys=st.sampled_from(["default", "none", "all", "some", "empty"]),
        jit=st.integers(0, 3).map(lambda i: i == 0), dead_injections=st.booleans(),
        rng_seed=st.integers(0, 10**6), prune=st.booleans(),
        conversions=("none", "scale", "beta", "inplace"),
    ),
    quick=260, thorough=3000,
)
def numpyro_model(case):
    import jax
    from gwpopulation.experimental.numpyro import gwpopulation_likelihood_model
    from numpyro.handlers import seed, trace

    if case["population"] == "spin":
        case = dict(case, dead=False)
    case = dict(case, selection=dict(case["selection"], marginalise=False))
    built = scenario.Built(case)
    half_dead(case, built)
    like = plain_likelihood(built, case["resample"])
    if case["prune"]:
        like = prune(case, built, like)
    n_ev = len(case["events"])
    given = scenario.sampled(case)
    del given["rate"]
    weights = built.weights(like)
    data = {k: np.asarray(v) for k, v in like.data.items()}
    mu, var = built.efficiency()
    with np.errstate(all="ignore"):
        mean = np.mean(weights, axis=1)
        ln_bf = np.log(mean)
        variances = (np.mean(weights**2, axis=1) - mean**2) / (weights.shape[1] * mean**2)
        use = case["apply_selection"]
        selection = -n_ev * np.log(mu) if use else 0.0
        selection_variance = n_ev**2 * var / mu**2 if use else 0.0
        ln_l = np.sum(ln_bf) + selection
        variance = np.sum(variances) + selection_variance
    if mu == 0:
        return False, ["no detection"]
    varmax = np.inf
    if case["factor"] is not None:
        varmax = 1.0 if not (np.isfinite(variance) and variance > 0) else (
            case["factor"] * variance)
    keys = sorted(set(built.selection_data) & set(data) - {"prior"})
    kwargs = dict(apply_selection=case["apply_selection"], predictive_resample=case["resample"])
    if case["factor"] is not None:
        kwargs["varmax"] = varmax
    fit = dict(default=None, none=None, all=keys, some=keys[:1], empty=[])[case["keys"]]
    if case["keys"] != "default":
        kwargs["fit_keys"] = fit
    before = dict(given)
    result = {}

    def model(params):
        result["value"] = gwpopulation_likelihood_model(like, params, **kwargs)
        return result["value"]

    with library("gwpopulation_likelihood_model"):
        sites = trace(seed(model, case["rng_seed"])).get_trace(given)
        value = scalar(result["value"], "value")
    is_true(given == before, "the hyperparameters given were modified")
    got = {name: np.asarray(site["value"]) for name, site in sites.items()}
    expected = dict(variances=variances, ln_bayes_factors=ln_bf, ln_l=np.float64(ln_l),
                    variance=np.float64(variance))
    if use:
        expected.update(selection=np.float64(selection),
                        selection_variance=np.float64(selection_variance))
    tol = tolerance(built, like)
    for name, want in expected.items():
        is_true(name in got, f"site {name} is missing")
        is_true(sites[name]["type"] == "deterministic", f"site {name} is not deterministic")
        where = None if name in ("ln_bayes_factors", "ln_l", "selection") else np.isfinite(want)
        close(got[name], want, name, rtol=1e-8, where=where,
              atol=1e-8 if where is None else 10 * tol * (n_ev if name == "variance" else 1))
    is_true(use or not ({"selection", "selection_variance", "rate"} & set(got)),
            "selection sites although selection effects are not applied")
    # value
    edge = np.isfinite(variance) and np.isfinite(varmax) and (
        abs(variance - varmax) <= 1e-5 * max(variance, varmax) + 10 * tol)
    labels = [case["population"], case["keys"]]
    if not np.isfinite(ln_l) or (variance > varmax and not edge):
        is_true(value < HUGE, f"value {value} for a sample to be rejected")
        labels.append("rejected")
    elif not edge:
        close(np.float64(value), np.float64(ln_l), "value", rtol=1e-8, atol=1e-8)
        labels.append("accepted")
    # it is what the plain likelihood gives, when that does not apply its own cuts
    if use and np.isfinite(ln_l) and not case["selection"]["converge"]:
        with library("log_likelihood_ratio"):
            plain = float(like.log_likelihood_ratio(dict(given)))
        close(got["ln_l"], np.float64(plain), "plain log-likelihood", rtol=1e-8, atol=1e-8)
    if use:
        rate_site(sites["rate"] if "rate" in sites else None, n_ev, volume(built))
    draws(case, got, fit, like, data, weights, built, expected)
    if case["jit"]:
        with library("compiled gwpopulation_likelihood_model"):
            fast = scalar(jax.jit(seed(model, case["rng_seed"]))(given), "compiled value")
        if value < HUGE:
            is_true(fast < HUGE, f"compiled value {fast} for a sample to be rejected")
        elif not edge:
            close(np.float64(fast), np.float64(value), "compiled value", rtol=1e-8, atol=1e-8)
        labels.append("compiled")
    return np.isfinite(ln_l), labels


def half_dead(case, built):
    """Give some of the injections no weight."""
    if not case["dead_injections"] or case["population"] == "spin":
        return
    from gwpopulation.vt import ResamplingVT

    cols = {k: v for k, v in built.selection_data.items()
            if isinstance(v, np.ndarray) and k != "prior"}
    moved = scenario.dead_samples(cols)
    mask = np.random.default_rng(case["seed"] + 5).uniform(size=len(next(iter(cols.values())))) < 0.5
    new = dict(built.selection_data)
    for key in cols:
        new[key] = np.where(mask, moved[key], cols[key])
    built.selection_data = new
    with library("ResamplingVT"):
        built.selection = ResamplingVT(
            scenario.models_of(case["population"]),
            {k: backends.arr(v, "jax") if isinstance(v, np.ndarray) else v
             for k, v in new.items()},
            n_events=len(case["events"]),
            enforce_convergence=case["selection"]["converge"],
        )


def prune(case, built, like):
    """Give all but a few samples of one event no weight."""
    if case["population"] == "spin":
        return like
    event = case["seed"] % len(built.frames)
    frame = built.frames[event]
    cols = {k: frame[k].to_numpy() for k in frame if k not in ("prior", "label")}
    moved = scenario.dead_samples(cols)
    for key, value in moved.items():
        keep = np.arange(len(value)) % 4 == 1
        frame[key] = np.where(keep, cols[key], value)
    return plain_likelihood(built, case["resample"])


def rate_site(site, n_ev, vt):
    from scipy import stats

    is_true(site is not None and site["type"] == "sample", "there is no sampled rate")
    is_true(not site["is_observed"], "the rate is observed")
    dist = site["fn"]
    points = np.array([0.3, 1.0, 2.0]) * n_ev / vt
    with library("rate distribution"):
        got = np.array([float(dist.log_prob(x)) for x in points])
        support = float(site["value"])
    want = stats.gamma(n_ev, scale=1 / vt).logpdf(points)
    close(got, want, "log density of the rate", rtol=1e-4, atol=1e-3)
    is_true(support > 0, f"rate {support}")


def draws(case, got, fit, like, data, weights, built, expected):
    n_ev = len(case["events"])
    sites = set(got) - set(expected) - {"rate"}
    want = set()
    if case["resample"]:
        columns = list(data) if fit is None else fit
        for event in range(n_ev):
            want |= {f"{key}_{event}" for key in columns}
        inj = {k: v for k, v in built.selection_data.items() if np.ndim(v) == 1}
        if case["apply_selection"]:
            inj_keys = list(inj) if fit is None else fit
            want |= {f"{key}_injections" for key in inj_keys}
    if sites != want:
        raise Violation(f"drawn sites {sorted(sites ^ want)} are missing or not expected")
    if not case["resample"] or (fit is not None and not fit):
        return
    for event in range(n_ev):
        nonzero = weights[event] > 0
        if not nonzero.any():
            continue
        drawn = tuple(scalar(got[f"{k}_{event}"], f"draw of {k}") for k in columns)
        table = {k: data[k][event][nonzero] for k in columns}
        is_true(drawn in rows(table, columns),
                f"draw of event {event} is not one of its samples with weight: {drawn}")
    if not case["apply_selection"]:
        return
    params = {k: v for k, v in inj.items() if k != "prior"}
    weight = built.probability(params)
    nonzero = weight > 0
    if nonzero.sum() < n_ev:
        return
    for key in inj_keys:
        is_true(got[f"{key}_injections"].shape == (n_ev,),
                f"{key}_injections has shape {got[f'{key}_injections'].shape}")
    drawn = list(zip(*[as_array(got[f"{k}_injections"]) for k in inj_keys]))
    table = rows({k: inj[k][nonzero] for k in inj_keys}, inj_keys)
    for row in drawn:
        is_true(row in table, "a drawn injection is not one of the found ones with weight")
    is_true(len(set(drawn)) == n_ev or len(set(inj[inj_keys[0]])) < len(inj[inj_keys[0]]),
            "the same injection is drawn repeatedly")
