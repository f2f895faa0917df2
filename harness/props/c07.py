"""C07: numpy, jax and compiled jax agree."""

import numpy as np
from hypothesis import strategies as st

from .. import backends, catalog, scenario
from ..compare import as_array, close, is_true
from ..core import Suite, library
from ..gen import loguni, mix, record, rng_of, seeds, uni
from . import c06

suite = Suite(
    "C07",
    "The same drawn inputs are evaluated under numpy, jax and jax inside jit: elementary densities "
    "and conversions, every population model (special values: index -1, no smoothing, empty "
    "mixture components; data in and out of the support), spline models, selection functions and "
    "likelihoods of whole drawn analyses. Non-trivial: at least two non-zero values.",
    [
        "numpy is the reference; tolerance 3e-5 relative (jax's special functions are accurate to "
        "about 1e-6)",
        "domain as for C01-C06; arguments that fail validation under numpy are not compared",
    ],
)

RTOL = 3e-5
_compiled = {}


def compiled(key, make):
    """One compiled function per key and process."""
    if key not in _compiled:
        import jax

        _compiled[key] = jax.jit(make())
    return _compiled[key]


def same(got, want, what, rtol=RTOL, atol=1e-200):
    got = as_array(got, what)
    is_true(got.dtype == np.float64, f"{what}: {got.dtype} instead of double precision")
    close(got, np.asarray(want), what, rtol=rtol, atol=atol)


# -- elementary functions -----------------------------------------------------------

DENSITIES = {
    "powerlaw": (dict(alpha=mix(uni(-6, 6), -1, 1, 0), low=loguni(0.1, 10), ratio=loguni(1.5, 50)),
                 lambda p: dict(alpha=p["alpha"], low=p["low"], high=p["low"] * p["ratio"]),
                 lambda p: (p["low"], p["high"])),
    "truncnorm": (dict(mu=mix(uni(-3, 3), 0), sigma=loguni(0.2, 5), low=mix(uni(-2, 0.5), 0),
                       width=loguni(0.2, 5)),
                  lambda p: dict(mu=p["mu"], sigma=p["sigma"], low=p["low"],
                                 high=p["low"] + p["width"]),
                  lambda p: (p["low"], p["high"])),
    "beta_dist": (dict(alpha=mix(loguni(0.3, 20), 1, 2), beta=mix(loguni(0.3, 20), 1, 2),
                       scale=mix(loguni(0.2, 3), 1)),
                  dict, lambda p: (0.0, p["scale"])),
    "von_mises": (dict(mu=uni(-4, 4), kappa=mix(loguni(0.01, 300), 1)), dict,
                  lambda p: (-np.pi, np.pi)),
}


@suite.check(
    st.one_of([
        record(name=st.just(n), params=st.fixed_dictionaries(d[0]), seed=seeds())
        for n, d in DENSITIES.items()
    ]),
    quick=700,
)
def densities(case):
    name = case["name"]
    _, convert, support = DENSITIES[name]
    params = convert(case["params"])
    lo, hi = support(params)
    x = rng_of(case["seed"]).uniform(lo - 0.2 * (hi - lo), hi + 0.2 * (hi - lo), 12)
    if name == "powerlaw":
        x = np.maximum(x, 0.3 * lo)
    backends.use("numpy")
    from gwpopulation import utils

    with library(f"numpy {name}"):
        want = getattr(utils, name)(x, **params)
    backends.use("jax")
    with library(f"jax {name}"):
        eager = getattr(utils, name)(backends.arr(x, "jax"), **params)
        jitted = compiled(("density", name), lambda: getattr(utils, name))(
            backends.arr(x, "jax"), **params)
    same(eager, want, f"jax {name}")
    same(jitted, want, f"compiled {name}")
    return np.sum(np.asarray(want) > 0) >= 2, [name]


@suite.check(
    record(seed=seeds(), n=st.sampled_from([2, 5, 9]), m=st.sampled_from([1, 4]),
           mode=st.sampled_from(["x", "dx", "default"]), axis=st.sampled_from([None, 0, 1, -1]),
           alpha=loguni(0.3, 20), beta=loguni(0.3, 20), amax=mix(uni(0.3, 2), 1)),
    quick=300,
)
def helpers(case):
    """Integration, the correlated Gaussian and the conversions."""
    rng = rng_of(case["seed"])
    axis = case["axis"]
    y = rng.normal(size=(case["n"], case["n"]) if case["m"] == 1 else (case["n"], case["n"]))
    x = np.sort(rng.normal(size=case["n"]))
    xs, ys = rng.normal(size=(2, 9))
    cov = rng.uniform(-0.9, 0.9)
    got = {}
    for backend in ["numpy", "jax"]:
        backends.use(backend)
        from gwpopulation import conversions, utils

        kwargs = {} if axis is None else dict(axis=axis)
        if case["mode"] == "x":
            kwargs["x"] = backends.arr(x, backend)
        elif case["mode"] == "dx":
            kwargs["dx"] = 0.37
        with library(f"{backend} helpers"):
            values = [
                utils.trapezoid(backends.arr(y, backend), **kwargs),
                utils.unnormalized_2d_gaussian(
                    backends.arr(xs, backend), backends.arr(ys, backend), 0.1, -0.2, 0.5, 1.5, cov),
            ]
            values += list(conversions.alpha_beta_max_to_mu_var_max(
                backends.arr([case["alpha"], 1.5], backend), case["beta"], case["amax"]))
            mu, var, _ = values[-3:]
            values += list(conversions.mu_var_max_to_alpha_beta_max(mu, var, case["amax"]))
        got[backend] = [np.asarray(v, float) for v in values]
    for ii, (a, b) in enumerate(zip(got["jax"], got["numpy"])):
        close(a, b, f"helper {ii}", rtol=1e-8, atol=1e-12)
    # and the numpy integral is the trapezoidal rule
    ax = -1 if axis is None else axis
    yy = np.moveaxis(y, ax, -1)
    step = np.diff(x) if case["mode"] == "x" else (0.37 if case["mode"] == "dx" else 1.0)
    want = np.sum((yy[..., 1:] + yy[..., :-1]) / 2 * step, axis=-1)
    close(got["numpy"][0], want, "trapezoidal rule", rtol=1e-9, atol=1e-12)
    return True, [case["mode"]]


# -- models ---------------------------------------------------------------------------

SMALL = dict(normalization_shape=(150, 90))


def datum(spec, index):
    """A few fixed data sets per model, so that few functions are compiled."""
    rng = np.random.default_rng([index, len(spec.name)])
    data = spec.make_data(rng, (14,))
    if spec.name in ("iid_spin", "iid_spin_magnitude_beta", "independent_spin_magnitude_beta"):
        data["a_1"][0], data["a_2"][1] = 1.2, 0.999
    return data


def model_cases(specs):
    return st.one_of([
        record(model=st.just(s.name), params=catalog.with_optional(s), index=st.integers(0, 1),
               cosmology=st.one_of(st.none(), st.fixed_dictionaries(catalog.COSMO))
               if s.module == "redshift" else st.none())
        for s in specs
    ])


def compare_model(case, build, data, params, spec, key):
    backends.use("numpy")
    with library(f"numpy {case['model']}"):
        want = np.asarray(catalog.call(spec, build(), backends.data(data, "numpy"), params))
    backends.use("jax")
    given = backends.data(data, "jax")
    with library(f"jax {case['model']}"):
        eager = catalog.call(spec, build(), given, params)

        def make():
            model = build()
            return lambda p: catalog.call(spec, model, given, p)

        jitted = compiled(key, make)(params)
    same(eager, want, f"jax {case['model']}")
    same(jitted, want, f"compiled {case['model']}")
    return want


def check_model(case):
    spec = catalog.MODELS[case["model"]]
    data = datum(spec, case["index"])
    params = dict(case["params"])
    config = {}
    if spec.name.endswith("SmoothedMassDistribution"):
        config = dict(SMALL)
    if case["cosmology"] is not None:
        config["cosmo_model"] = "FlatwCDM"
        params.update(case["cosmology"])
    key = (spec.name, case["index"], tuple(sorted(params)))
    want = compare_model(case, lambda: spec.build(**config), data, params, spec, key)
    nonzero = np.sum(want > 0)
    return nonzero >= 2, [case["model"]]


@suite.check(model_cases(catalog.FUNCTIONS), quick=700)
def analytic_models(case):
    return check_model(case)


@suite.check(model_cases(catalog.SMOOTHED), quick=300)
def smoothed_models(case):
    return check_model(case)


@suite.check(model_cases(catalog.REDSHIFT + [catalog.CHI_MODEL]), quick=250)
def other_models(case):
    return check_model(case)


@suite.check(
    record(
        model=st.sampled_from(["SplineSpinMagnitudeIdentical", "SplineSpinTiltIdentical"]),
        kind=st.sampled_from(["cubic", "linear"]),
        values=st.lists(c06.VALUE, min_size=6, max_size=6),
        rms=st.one_of(st.none(), loguni(0.1, 3)),
        ends=st.sampled_from([[0.0, 1.0], [0.1, 0.8]]),
        nodes=st.just(6), default=st.just(False), seed=st.just(3), backend=st.just("numpy"),
    ),
    quick=150,
)
def spline_models(case):
    if not c06.usable(case):
        return False, ["all zero"]
    data = c06.samples(case)
    params = c06.hyper(case)
    backends.use("numpy")
    want = c06.call(c06.make(case), case, data, params)
    backends.use("jax")
    given = backends.data(data, "jax")
    with library("jax spline"):
        eager = c06.make(case)(given, **params)

        # node positions are fixed, the values are traced
        fixed = {k: v for k, v in params.items() if k[0] not in "fr"}
        free = {k: v for k, v in params.items() if k[0] in "fr"}

        def make():
            model = c06.make(case)
            model(given, **params)
            return lambda p: model(given, **p, **fixed)

        key = ("spline", case["model"], case["kind"], case["rms"] is None, tuple(case["ends"]))
        jitted = compiled(key, make)(free)
    same(eager, want, "jax spline", atol=1e-12 * np.max(want))
    same(jitted, want, "compiled spline", atol=1e-12 * np.max(want))
    return True, [case["model"], case["kind"]]


# -- whole analyses ---------------------------------------------------------------------


@suite.check(
    scenario.cases(backend=["jax"], dead=True), quick=220
)
def analyses(case):
    """Likelihood and selection function: the stored samples are forced to be the same."""
    results = {}
    params = scenario.sampled(case)
    for backend in ["numpy", "jax"]:
        built = scenario.Built(dict(case, backend=backend))
        like = built.likelihood()
        with library(f"{backend} likelihood"):
            ln_l, var = like.ln_likelihood_and_variance(dict(params))
            ratio = like.log_likelihood_ratio(dict(params))
            sel = like.selection_function(built.case["params"])
            weights = np.asarray(like.hyper_prior.prob(like.data, **built.case["params"]))
        sel = sel if isinstance(sel, tuple) else (sel, 0.0)
        results[backend] = (
            [np.asarray(v, float) for v in (ln_l, var, ratio, *sel)], weights,
            {k: np.asarray(v) for k, v in like.data.items()},
        )
    a, b = results["numpy"], results["jax"]
    for key in a[2]:
        close(b[2][key], a[2][key], f"stored {key}", rtol=0)
    close(b[1], a[1], "population probability", rtol=RTOL, atol=1e-200)
    names = ["log-likelihood", "variance", "ratio", "selection", "selection variance"]
    for name, x, y in zip(names, b[0], a[0]):
        if name == "ratio" and y < -1e300:
            is_true(x <= -1e300, f"ratio {x} under jax, {y} under numpy")
        elif name in ("variance", "selection variance") and not np.isfinite(y):
            is_true(not np.isfinite(x), f"{name}: {x} under jax, {y} under numpy")
        else:
            close(x, y, name, rtol=1e-4, atol=1e-4 if name in ("log-likelihood", "ratio") else 1e-9)
    return np.isfinite(a[0][0]), [case["cls"], case["selection"]["kind"]]


_TEMPLATES = {}


@suite.check(
    record(
        which=st.integers(0, 4),
        params=st.fixed_dictionaries({**scenario.names_of("toy"), **scenario.names_of("masses"),
                                      **scenario.names_of("all")}),
        rate=loguni(0.1, 100),
    ),
    quick=200,
)
def compiled_analyses(case):
    """A few fixed analyses, compiled once, at drawn hyperparameters."""
    pop, cls, kind = [
        ("toy", "Hyper", "injections"), ("masses", "Hyper", "injections"),
        ("all", "Rate", "injections"), ("masses and redshift", "Null", "tuple"),
        ("toy", "Rate", "grid"),
    ][case["which"]]
    sel = dict(
        injections=dict(kind="injections", found=64, extra=900, n_events=True, converge=True,
                        marginalise=False, time=0.5, with_total=True),
        tuple=dict(kind="tuple", value=0.02, rel=1e-3), grid=dict(kind="grid", n=5, flip=False),
    )[kind]
    names = [k for k in scenario.names_of(pop)]
    own = {k: case["params"].get(k, 1.3) for k in names}
    base = dict(population=pop, params=own, events=[12, 15, 12], prior=True, max_samples=None,
                evidences=None, conversion="none", selection=sel, cls=cls, rate=case["rate"],
                dead=False, seed=11, backend="numpy")
    params = scenario.sampled(base)
    built = scenario.Built(base)
    like = built.likelihood()
    with library("numpy likelihood"):
        want = [float(v) for v in like.ln_likelihood_and_variance(dict(params))]
    backends.use("jax")

    def make():
        inner = scenario.Built(dict(base, backend="jax")).likelihood()
        return inner.ln_likelihood_and_variance

    with library("compiled likelihood"):
        got = compiled(("analysis", case["which"]), make)(dict(params))
    if np.isfinite(want[0]):
        close(np.asarray(got[0], float), np.float64(want[0]), "compiled log-likelihood", rtol=1e-5,
              atol=1e-4)
        close(np.asarray(got[1], float), np.float64(want[1]), "compiled variance", rtol=1e-4,
              atol=1e-8)
    else:
        is_true(not np.isfinite(float(got[0])), f"compiled {got[0]} instead of {want[0]}")
    return np.isfinite(want[0]), [pop, cls]
