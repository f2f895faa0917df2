"""C22: derivatives under jax."""

import numpy as np
from hypothesis import strategies as st

from .. import backends, catalog, scenario, zoo
from ..compare import as_array, close, is_true, scalar
from ..core import Suite, library
from ..gen import loguni, record, rng_of, seeds, uni

suite = Suite(
    "C22",
    "Every population model and complete analyses (likelihood classes, conversions, selection "
    "functions, compiled likelihood, numpyro model) under jax: derivatives with respect to each "
    "hyperparameter by forward and reverse mode, compiled and plain, against numerical "
    "derivatives (two step widths, extrapolated) of the same function. Non-trivial: at least one "
    "derivative is judged and not zero.",
    [
        "domain: hyperparameters away from the values where a closed form changes (spectral index "
        "exactly one, no taper, equal mixture components), peaks inside of the mass range, samples "
        "inside of the support, as a gradient based sampler needs them",
        "a derivative is judged where the numerical ones (two widths, both sides) agree: not at "
        "steps and kinks of the function, e.g. where a limit passes a sample or a grid point",
        "derivatives with respect to the data are not judged",
    ],
)

ATOM = dict(
    alpha=uni(1.1, 6), alpha_1=uni(1.1, 6), alpha_2=uni(-3, 0.9), beta=uni(-0.9, 6),
    mmin=uni(2.5, 6), mmax=uni(60, 95), lam=uni(0.05, 0.95), lam_1=uni(0.05, 0.95),
    mpp=uni(15, 45), mpp_1=uni(15, 25), mpp_2=uni(27, 45), sigpp=uni(2, 8), sigpp_1=uni(2, 8),
    sigpp_2=uni(2, 8), gaussian_mass_maximum=uni(100, 130), break_fraction=uni(0.1, 0.9),
    delta_m=uni(1, 8), xi_spin=uni(0.05, 0.95), sigma_spin=uni(0.3, 4), sigma_1=uni(0.3, 4),
    sigma_2=uni(0.3, 4), mu_spin=uni(-0.9, 0.9), mu_1=uni(-0.9, 0.9), mu_2=uni(-0.9, 0.9),
    amax=uni(0.8, 0.99), amax_1=uni(0.8, 0.99), amax_2=uni(0.8, 0.99), alpha_chi=uni(1.1, 8),
    alpha_chi_1=uni(1.1, 8), alpha_chi_2=uni(1.1, 8), beta_chi=uni(1.1, 8),
    beta_chi_1=uni(1.1, 8), beta_chi_2=uni(1.1, 8), mu_chi_eff=uni(-0.8, 0.8),
    sigma_chi_eff=uni(0.2, 2), mu_chi_p=uni(0.05, 0.95), sigma_chi_p=uni(0.2, 2),
    spin_covariance=uni(-0.7, 0.7), lamb=uni(-3, 6), gamma=uni(0.5, 5), kappa=uni(1, 8),
    z_peak=uni(0.5, 3), H0=uni(50, 100), Om0=uni(0.1, 0.8), w0=uni(-1.6, -0.6),
    mu=uni(-1, 1), width=uni(0.4, 3), slope=uni(0.2, 5), tilt=uni(0.2, 3),
)


def generic(names):
    """Strategy: the hyperparameters, at ordinary values."""
    def one(name):
        if name in ATOM:
            return ATOM[name]
        if name.startswith("rms"):
            return uni(0.3, 3)
        return uni(-2, 2)  # spline values

    return st.fixed_dictionaries({n: one(n) for n in sorted(names)})


def step(value):
    return 2e-4 * max(abs(value), 0.3)


class Numerical:
    """Numerical derivatives of func(params) -> array, with the region where they are sound."""

    def __init__(self, func, params):
        self.func, self.params = func, params
        self.base = np.asarray(func(params))

    def __call__(self, name):
        def at(shift):
            return np.asarray(self.func(dict(self.params, **{
                name: self.params[name] + shift})))

        h = step(self.params[name])
        p1, m1, p2, m2 = at(h), at(-h), at(h / 2), at(-h / 2)
        wide, narrow = (p1 - m1) / (2 * h), (p2 - m2) / h
        value = (4 * narrow - wide) / 3
        up, down = (p1 - self.base) / h, (self.base - m1) / h
        size = np.abs(value) + 1e-4 * np.abs(self.base) / max(abs(self.params[name]), 0.3)
        sound = (
            np.isfinite(p1) & np.isfinite(m1) & (np.abs(wide - narrow) < 2e-4 * size)
            & (np.abs(up - down) < 0.1 * size)
        )
        return value, size, sound


def judge(numerical, derivative, what):
    """Each derivative is the numerical one; returns how many were judged and not zero."""
    count = 0
    for name in numerical.params:
        got = as_array(derivative[name], f"{what}: derivative by {name}")
        value, size, sound = numerical(name)
        is_true(got.shape == value.shape, f"{what}: derivative by {name} of shape {got.shape}")
        if np.any(sound):
            close(got[sound], value[sound], f"{what}: derivative by {name}", rtol=1e-3,
                  atol=2e-4 * np.max(size[sound]) + 1e-12)
            count += int(np.sum(np.abs(value[sound]) > 1e-6))
    return count


FUNCTIONS = {}


def differentiated(m):
    """(function, its reverse derivative, both compiled once per configuration; plain)."""
    import jax

    key = repr((m["kind"], m["config"], sorted(m["params"][0]), sorted(zoo.keys(m))))
    if key not in FUNCTIONS:
        model = zoo.build(m)

        def func(params, data):
            return zoo.raw(m, model, data, params)

        # splines: the node positions are fixed
        def moving(params, fixed, data):
            return func({**params, **fixed}, data)

        FUNCTIONS[key] = jax.jit(moving), jax.jit(jax.jacrev(moving)), moving
    return FUNCTIONS[key]


def _config(kind):
    """One or two configurations: each has to be compiled."""
    if kind in zoo.SMOOTHED or kind == "custom smoothed":
        return st.just(dict(normalization_shape=[120, 60], cache=False, mmin=2.0, mmax=100.0))
    if kind in zoo.REDSHIFT:
        return record(z_max=st.just(2.3), cosmo_model=st.sampled_from(["Planck15", "FlatwCDM"]))
    if kind == "CosmoModel":
        return record(cosmo_model=st.sampled_from(["Planck15", "FlatwCDM"]))
    return st.just({})


KINDS = [k for k in zoo.KINDS if k not in zoo.SPLINES and k != "InterpolatedPowerlaw"]


def model_case(kind):
    return _config(kind).flatmap(lambda config: record(
        kind=st.just(kind), config=st.just(config),
        params=st.lists(generic({**zoo.params_of(kind, config), **zoo.optional_of(kind)}),
                        min_size=1, max_size=8),
    ))


def inside(m, func, params, seed, n=8):
    """n samples inside of the support (None if there are fewer than two)."""
    rng = rng_of(seed)
    data = zoo.data(m, rng, (120,))
    dens = np.asarray(func(params, {}, zoo.given(data, "jax")))
    good = np.flatnonzero(np.isfinite(dens) & (dens > 1e-5 * np.nanmax(dens, initial=0)))
    if len(good) < 2:
        return None
    pick = np.resize(rng.permutation(good), n)
    return zoo.given({k: v[pick] for k, v in data.items()}, "jax")


@suite.check(
    record(model=st.sampled_from(KINDS).flatmap(model_case), seed=seeds(),
           plain=st.sampled_from([None, None, "forward", "reverse"])),
    quick=110, thorough=3000,
)
def models(case):
    import jax

    backends.use("jax")
    m = case["model"]
    with library(m["kind"]):
        func, reverse, plain = differentiated(m)
    least = None
    for ii, params in enumerate(m["params"]):
        with library(m["kind"]):
            data = inside(m, func, params, case["seed"] + ii)
            if data is None:
                continue
            results = [("reverse", reverse(params, {}, data))]
            if ii == 0 and case["plain"]:
                mode = jax.jacfwd if case["plain"] == "forward" else jax.jacrev
                results.append(("plain " + case["plain"], mode(plain)(params, {}, data)))
        numerical = Numerical(lambda p: func(p, {}, data), params)
        for how, d in results:
            count = judge(numerical, d, f"{m['kind']} ({how})")
            least = count if least is None else min(least, count)
    return bool(least), [m["kind"], "plain" if case["plain"] else "compiled"]


def spline_case(kind):
    config = record(nodes=st.just(6), kind=st.sampled_from(["cubic", "linear"]),
                    regularize=st.booleans())
    if kind == "InterpolatedPowerlaw":
        config = config.map(lambda c: dict(c, normalization_shape=[120, 60]))

    def with_config(config):
        names = zoo.params_of(kind, config)
        base = "mass" if kind == "InterpolatedPowerlaw" else zoo.SPLINES[kind][1]
        nodes = {f"{base}{ii}" for ii in range(config["nodes"])}
        fixed = st.fixed_dictionaries({k: v for k, v in names.items() if k in nodes})
        return record(kind=st.just(kind), config=st.just(config), fixed=fixed,
                      free=generic([k for k in names if k not in nodes])).map(
            lambda c: dict(c, params=[{**c["free"], **c["fixed"]}]))

    return config.flatmap(with_config)


@suite.check(
    record(model=st.sampled_from([*zoo.SPLINES, "InterpolatedPowerlaw"]).flatmap(spline_case),
           seed=seeds()),
    quick=80, thorough=1500,
)
def splines(case):
    """Derivatives by the node values; splines remember their data, so nothing is shared."""
    import jax

    backends.use("jax")
    m = case["model"]
    free, fixed = m["free"], m["fixed"]
    data = zoo.data(m, rng_of(case["seed"]), (6,))
    if m["kind"] in zoo.SPLINES:
        names, _, lo, hi = zoo.SPLINES[m["kind"]]
        rng = rng_of(case["seed"])
        data = {k: rng.uniform(lo + 0.01 * (hi - lo), hi - 0.01 * (hi - lo), 6) for k in names}
    else:
        rng = rng_of(case["seed"])
        data = dict(mass_1=rng.uniform(15, 55, 6), mass_ratio=rng.uniform(0.6, 0.95, 6))
    data = zoo.given(data, "jax")
    model = zoo.build(m)

    def func(p):
        return zoo.raw(m, model, data, {**p, **fixed})

    with library(m["kind"]):
        func(free)  # sets up the interpolation
        forward, reverse = jax.jacfwd(func)(free), jax.jacrev(func)(free)
    numerical = Numerical(func, free)
    count = [judge(numerical, d, f"{m['kind']} ({how})")
             for how, d in (("forward", forward), ("reverse", reverse))]
    return min(count) > 0, [m["kind"]]


POPULATIONS = ["toy", "two toys", "toy and class", "masses", "masses and redshift", "spin",
               "all", "smoothed"]


def analysis():
    def build(case):
        return generic(scenario.names_of(case["population"])).map(
            lambda p: dict(case, params=p))

    return scenario.cases(
        populations=POPULATIONS, backend=("jax",), min_samples=4, max_events=4,
        classes=("Hyper", "Hyper", "Rate"), conversions=("none", "scale", "beta"),
        how=st.sampled_from(["plain", "compiled", "compiled", "numpyro", "numpyro"]),
        limit=st.booleans(), varmax=loguni(1e3, 1e6),
    ).flatmap(build)


@suite.check(analysis(), quick=75, thorough=1500)
def likelihoods(case):
    import jax
    from bilby.hyper.model import Model

    case = dict(case)
    sel = dict(case["selection"])
    if sel["kind"] == "injections":
        sel.update(converge=False)
    case["selection"] = sel
    built = scenario.Built(case)
    prior = Model(scenario.models_of(case["population"]), cache=False)
    extra = dict(maximum_uncertainty=case["varmax"]) if case["limit"] else {}
    like = built.likelihood(hyper_prior=prior, **extra)
    params = scenario.sampled(case)
    how = case["how"]
    if how == "numpyro" and sel["kind"] != "injections":
        how = "plain"
    if case["cls"] != "Rate" or how == "numpyro":
        params.pop("rate", None)

    with library("likelihood"):
        if how == "numpyro":
            from gwpopulation.experimental.numpyro import gwpopulation_likelihood_model
            from numpyro import handlers

            def func(p):
                with handlers.seed(rng_seed=0):
                    return gwpopulation_likelihood_model(
                        like, dict(p), predictive_resample=False,
                        **(dict(varmax=case["varmax"]) if case["limit"] else {}))
        else:
            def func(p):
                return like.log_likelihood_ratio(dict(p))

        base = scalar(func(params), "log-likelihood")
        if not np.isfinite(base) or base < -1e200:
            return False, ["undefined"]
        value = jax.jit(func) if how in ("compiled", "numpyro") else func
        derivative = jax.value_and_grad(value)(params)
        compiled = jax.jit(func) if how == "plain" else value
    close(scalar(derivative[0], "value"), np.float64(base), "value with the derivative", rtol=1e-9,
          atol=1e-9)
    numerical = Numerical(lambda p: np.asarray(compiled(p), float), params)
    count = judge(numerical, derivative[1], f"log-likelihood ({how})")
    return count > 0, [how, case["population"], sel["kind"], case["cls"]]
