"""C20: invalid hyperparameters are rejected, valid ones at the edge accepted."""

import operator

import numpy as np
from hypothesis import strategies as st

from .. import backends, catalog
from ..compare import as_array, close, raises
from ..core import Suite, Violation, library
from ..gen import loguni, mix, record, rng_of, seeds, uni, weighted

suite = Suite(
    "C20",
    "Valid arguments of the validated densities, of the population models built on them and of "
    "functions decorated with drawn conditions, as numbers, zero-dimensional arrays or arrays; one "
    "(or no) argument is replaced by an invalid value (zero, barely or largely beyond the limit) "
    "as a scalar or in a single position of an array, or by a valid value hardly inside the "
    "domain. Invalid ones must raise ValueError, valid ones must be evaluated. Smoothed models are "
    "configured with drawn mass ranges and called at, just inside and just outside of them. "
    "Non-trivial: all but plain valid values in the bulk of the domain.",
    [
        "validation applies to the numpy backend and to arguments given by keyword (as documented "
        "for apply_conditions); models are judged for the parameters they forward by keyword",
        "NaN is not judged",
    ],
)

VALUE = record(
    kind=st.sampled_from(["invalid", "invalid", "edge", "valid"]),
    which=st.integers(0, 20),
    size=mix(loguni(1e-12, 100), 1e-300, 5e-324, 1, 1e8),
    zero=st.booleans(),
    form=st.sampled_from(["float", "int", "numpy", "0-d", "array", "array"]),
    place=st.integers(0, 30),
    length=st.integers(1, 8),
)


def dress(value, form, n, place, fill=None, shape=None):
    """The value as a number, a 0-d array, or in one place of an array of other values."""
    if form == "int" and float(value).is_integer() and abs(value) < 1e6:
        return int(value)
    if form == "numpy":
        return np.float64(value)
    if form == "0-d":
        return np.array(value)
    if form == "array":
        out = np.full(n, value if fill is None else fill, float)
        out[place % n] = value
        return out.reshape(shape) if shape else out
    return float(value)


# function, valid keyword arguments, constrained: name -> whether zero is allowed
DENSITIES = {
    "beta_dist": (
        dict(alpha=loguni(0.3, 30), beta=loguni(0.3, 30), scale=loguni(0.1, 5)),
        dict(alpha=False, beta=False, scale=False),
    ),
    "powerlaw": (
        dict(alpha=mix(uni(-4, 6), 0, 1, 2), high=uni(20, 100), low=loguni(0.1, 10)),
        dict(low=True),
    ),
    "truncnorm": (
        dict(mu=uni(-5, 30), sigma=loguni(0.1, 20), high=uni(20, 100), low=uni(-5, 10)),
        dict(sigma=False),
    ),
}


def _density(name):
    params, _ = DENSITIES[name]
    return record(
        name=st.just(name), params=st.fixed_dictionaries(params), value=VALUE, seed=seeds(),
        all_arrays=st.booleans(),
    )


def replacement(value, zero_allowed):
    """(replacement or None, whether it is valid)."""
    if value["kind"] == "valid":
        return None, True
    if value["kind"] == "edge":
        if zero_allowed and value["zero"]:
            return 0.0, True
        return min(max(value["size"], 1e-12), 1e-3), True
    if value["zero"] and not zero_allowed:
        return 0.0, False
    return -value["size"], False


@suite.check(st.sampled_from(sorted(DENSITIES)).flatmap(_density), quick=2400)
def densities(case):
    import gwpopulation.utils as utils

    backends.use("numpy")
    value = case["value"]
    limits = DENSITIES[case["name"]][1]
    name = sorted(limits)[value["which"] % len(limits)]
    n = value["length"]
    rng = rng_of(case["seed"])
    params = dict(case["params"])
    if limits[name] and params["alpha"] <= -1 and value["kind"] == "edge":
        params["alpha"] = 0.5  # not normalisable down to zero
    new, valid = replacement(value, limits[name])
    original = params[name]
    if case["all_arrays"]:
        params = {k: v * np.ones(n) for k, v in params.items()}
    params[name] = dress(
        original if new is None else new, value["form"], n, value["place"], original
    )
    xx = rng.uniform(0.01, 20, n)
    func = getattr(utils, case["name"])
    what = f"{case['name']}({name}={params[name]!r})"
    if valid:
        with library(what):
            result = func(xx, **params)
        if as_array(result, what).shape != (n,):
            raise Violation(f"{what}: shape {np.shape(result)}")
    else:
        raises(ValueError, lambda: func(xx, **params), what)
    return new is not None, [case["name"], value["kind"], value["form"]]


# models and the parameters they validate: name -> zero allowed
_PEAK = dict(mmin=True, sigpp=False)
PROMISED = {
    "power_law_mass": dict(mmin=True),
    "two_component_single": _PEAK,
    "three_component_single": dict(mmin=True, sigpp_1=False, sigpp_2=False),
    "double_power_law_primary_mass": dict(mmin=True),
    "double_power_law_peak_primary_mass": _PEAK,
    "power_law_primary_mass_ratio": dict(mmin=True),
    "two_component_primary_mass_ratio": _PEAK,
    "double_power_law_primary_power_law_mass_ratio": dict(mmin=True),
    "two_component_primary_secondary_independent": _PEAK,
    "two_component_primary_secondary_identical": _PEAK,
    "iid_spin": dict(amax=False),
    "iid_spin_magnitude_beta": dict(amax=False),
    "independent_spin_magnitude_beta": dict(amax_1=False, amax_2=False),
    "gaussian_chi_eff": dict(sigma_chi_eff=False),
    "gaussian_chi_p": dict(sigma_chi_p=False),
    "SinglePeakSmoothedMassDistribution": dict(sigpp=False),
    "MultiPeakSmoothedMassDistribution": dict(sigpp_1=False, sigpp_2=False),
    "BrokenPowerLawPeakSmoothedMassDistribution": dict(sigpp=False),
}
SHAPES = {1: (1,), 2: (2,), 3: (3,), 4: (2, 2), 5: (5,), 6: (2, 3), 7: (7,), 8: (4, 2)}


def _model(name):
    spec = catalog.MODELS[name]
    return record(
        name=st.just(name), params=catalog.with_optional(spec), value=VALUE, seed=seeds(),
        composite=st.booleans(),
    )


@suite.check(st.sampled_from(sorted(PROMISED)).flatmap(_model), quick=1500)
def models(case):
    from bilby.hyper.model import Model

    backends.use("numpy")
    value = case["value"]
    spec = catalog.MODELS[case["name"]]
    limits = PROMISED[case["name"]]
    name = sorted(limits)[value["which"] % len(limits)]
    rng = rng_of(case["seed"])
    shape = SHAPES[value["length"]]
    params = dict(case["params"])
    new, valid = replacement(value, limits[name])
    if valid and new is not None and name == "mmin" and value["zero"]:
        new = 1e-9  # densities diverge or vanish at zero
    form = value["form"]
    if form == "array" and (spec.instance or name == "mmin"):
        form = "float"
    original = params[name]
    params[name] = dress(
        original if new is None else new, form, int(np.prod(shape)), value["place"],
        original, shape,
    )
    data = spec.make_data(rng, shape)
    with library(case["name"]):
        model = spec.build(normalization_shape=(60, 40)) if spec.instance else spec.build()
    composite = case["composite"] and spec.argument == "dataset"

    def evaluate():
        if composite:
            joint = Model([model], cache=False)
            given = {"gaussian_mass_maximum": 100.0, "mu_spin": 1.0, **params}
            return joint.prob(data, **given)
        return catalog.call(spec, model, data, params)

    what = f"{case['name']}({name}={params[name]!r})"
    if valid:
        with library(what):
            result = evaluate()
        if as_array(result, what).shape != shape:
            raise Violation(f"{what}: shape {np.shape(result)}")
    else:
        raises(ValueError, evaluate, what)
    return new is not None, [case["name"], value["kind"]]


# -- the range of the smoothed models ---------------------------------------------


def _smoothed(name):
    spec = catalog.MODELS[name]
    return record(
        name=st.just(name),
        params=st.fixed_dictionaries(spec.params),
        low=mix(uni(2, 9), 2, 5), high=mix(uni(40, 150), 100),
        configured=st.booleans(),
        cache=st.booleans(),
        # position relative to the limit: outside (< 0), at (0), inside
        at_low=st.sampled_from([-1.0, -1e-9, 0.0, 1e-9, 1.0, -0.5]),
        at_high=st.sampled_from([-1.0, -1e-9, 0.0, 1e-9, 1.0, -0.5, 0.2]),
        before=st.booleans(),
        form=st.sampled_from(["float", "numpy", "0-d"]),
        seed=seeds(),
    )


@suite.check(
    st.sampled_from(sorted(s.name for s in catalog.SMOOTHED) + ["InterpolatedPowerlaw"]).flatmap(
        lambda n: _smoothed(n) if n != "InterpolatedPowerlaw" else _smoothed(
            "BrokenPowerLawSmoothedMassDistribution").map(lambda c: dict(c, name=n))
    ),
    quick=1200,
)
def mass_range(case):
    import gwpopulation.models as models

    backends.use("numpy")
    rng = rng_of(case["seed"])
    low, high = (case["low"], case["high"]) if case["configured"] else (2.0, 100.0)
    config = dict(normalization_shape=(70, 40))
    if case["configured"]:
        config.update(mmin=low, mmax=high)
    params = dict(case["params"])
    if case["name"] == "InterpolatedPowerlaw":
        nodes = np.exp(np.linspace(np.log(low), np.log(high), 5))
        params = dict(alpha=params["alpha_1"], beta=params["beta"], delta_m=params["delta_m"])
        params.update({f"mass{ii}": nodes[ii] for ii in range(5)})
        params.update({f"fmass{ii}": float(rng.normal()) for ii in range(5)})
        config["nodes"] = 5
    else:
        config["cache"] = case["cache"]
    with library("construction"):
        model = getattr(models.mass, case["name"])(**config)
    data = catalog.mass_ratio_data(rng, (6,))
    good = dict(params, mmin=low + 0.4, mmax=high - 3)
    first = None
    if case["before"]:
        with library("valid call"):
            first = np.array(model(dict(data), **good))
    params["mmin"] = dress(low * (1 + case["at_low"] * 0.1), case["form"], 1, 0)
    params["mmax"] = dress(high * (1 - case["at_high"] * 0.1), case["form"], 1, 0)
    outside = case["at_low"] < 0 or case["at_high"] < 0
    what = f"{case['name']} configured for [{low}, {high}], mmin={params['mmin']!r}, mmax={params['mmax']!r}"
    if outside:
        raises(ValueError, lambda: model(dict(data), **params), what)
    else:
        with library(what):
            model(dict(data), **params)
    if first is not None:
        with library("valid call after that"):
            again = model(dict(data), **good)
        close(again, first, "same valid call after a " + what, rtol=1e-12)
    side = "outside" if outside else "inside"
    return case["at_low"] in (-1e-9, 0, 1e-9) or case["at_high"] < 1 or outside, [
        case["name"], side]


# -- the decorator itself ----------------------------------------------------------

OPS = dict(gt=operator.gt, ge=operator.ge, lt=operator.lt, le=operator.le, ne=operator.ne)
CONDITION = record(
    op=st.sampled_from(sorted(OPS) + ["callable"]), bound=st.sampled_from([-1.0, 0.0, 2.5]),
    value=st.sampled_from([-2.0, -1.0, -0.5, 0.0, 0.5, 2.5, 3.0]),
    rest=st.sampled_from([-2.0, -1.0, -0.5, 0.0, 0.5, 2.5, 3.0]),
    form=st.sampled_from(["float", "0-d", "array"]),
    how=st.sampled_from(["keyword", "keyword", "keyword", "absent"]),
    conditioned=weighted(st.just(True), st.just(True), st.just(False)),
)


@suite.check(
    record(
        conditions=st.lists(CONDITION, min_size=1, max_size=3),
        backend=weighted(*[st.just("numpy")] * 5, st.just("jax")),
        place=st.integers(0, 5),
    ),
    quick=1500,
)
def decorated(case):
    """A user's function with conditions on some of its keyword arguments."""
    from gwpopulation.utils import apply_conditions

    backends.use(case["backend"])
    calls = []

    def function(xx, p0=1.0, p1=1.0, p2=1.0):
        """documentation"""
        calls.append((p0, p1, p2))
        return 7.0

    table, kwargs, bad = {}, {}, False
    for ii, cond in enumerate(case["conditions"]):
        op = OPS.get(cond["op"])
        key = f"p{ii}"
        if cond["conditioned"]:
            if op is None:
                table[key] = lambda v, b=cond["bound"]: bool(np.all(np.asarray(v) > b))
            else:
                table[key] = (op, cond["bound"])
        if cond["how"] == "absent":
            continue
        value = dress(cond["value"], cond["form"], 3, case["place"], cond["rest"])
        kwargs[key] = value
        if cond["conditioned"]:
            bad |= not np.all((op or operator.gt)(np.asarray(value), cond["bound"]))
    with library("apply_conditions"):
        wrapped = apply_conditions(table)(function)
    what = f"conditions {[(c['op'], c['bound']) for c in case['conditions']]} on {kwargs}"
    if bad and case["backend"] == "numpy":
        raises(ValueError, lambda: wrapped(1.0, **kwargs), what)
        if calls:
            raise Violation(f"{what}: the function was evaluated nevertheless")
    else:
        with library(what):
            result = wrapped(1.0, **kwargs)
        if result != 7.0 or len(calls) != 1:
            raise Violation(f"{what}: returned {result!r} after {len(calls)} evaluations")
        for ii, key in enumerate(("p0", "p1", "p2")):
            if calls[0][ii] is not kwargs.get(key, 1.0) and key in kwargs:
                raise Violation(f"{what}: {key} was replaced")
    import inspect

    if wrapped.__name__ != "function" or wrapped.__doc__ != "documentation" or list(
        inspect.signature(wrapped).parameters
    ) != ["xx", "p0", "p1", "p2"]:
        raise Violation("a decorated function does not keep its name, documentation or signature")
    return bool(table), ["rejected" if bad else "accepted", case["backend"]]
