"""C19: declared hyperparameters."""

import inspect

import numpy as np
from hypothesis import strategies as st

from .. import backends, catalog, zoo
from ..compare import as_array, close, is_true, unchanged
from ..core import Suite, Violation, library
from ..gen import record, rng_of, seeds, uni, weighted

suite = Suite(
    "C19",
    "Every population model in a drawn configuration (also user-written primary mass and redshift "
    "models) is evaluated directly, inside a composite model with exactly its hyperparameters, "
    "with supersets (hyperparameters of all other models and arbitrary names) and with one "
    "hyperparameter missing; products of two to four models are compared with the product of "
    "their values with only their own names; histories of creating, evaluating and querying "
    "differently configured instances are compared with a model of their declared names. "
    "Non-trivial: the reference has at least three different values (single models), or at least "
    "two instances of one kind are alive (histories).",
    [
        "names with a default value (also delta_m, when a smoothed model is called directly) may "
        "be left out",
        "each data set is given to a new instance, as models may remember their first data (C15)",
    ],
)

BACKEND = weighted(*[st.just("numpy")] * 9, st.just("jax"))
IN_MODEL = [k for k in zoo.KINDS
            if not (k in catalog.MODELS and catalog.MODELS[k].argument == "mass")]
OTHER_NAMES = sorted({
    name for kind in zoo.KINDS if kind in catalog.MODELS for name in catalog.MODELS[kind].params
} | {"H0", "Om0", "w0", "rate", "mu", "sigma", "xs", "low", "high", "kwargs", "args", "parameters",
     "xmin", "nodes", "kind", "cache", "minimum", "maximum", "z_max", "cosmo_model", "amax", "mass",
     "log_prior", "mass_1", "redshift", "n_events", "model", "dataset_", "slope"})
USER = ["primary function", "primary static", "primary named", "primary callable",
        "primary fixed", "redshift user", "redshift bare"]


# -- user-written models ----------------------------------------------------------


def shared_primary(mass, slope, mmin):
    return 1.0 / mass**slope * (mass >= mmin)


def tagged_primary(mass, **kwargs):
    return shared_primary(mass, kwargs["slope"], kwargs["mmin"])


tagged_primary.variable_names = ["slope", "mmin"]


class CallablePrimary:
    variable_names = ["slope", "mmin"]

    def __call__(self, mass, **kwargs):
        return shared_primary(mass, kwargs["slope"], kwargs["mmin"])


def user_class(kind):
    from gwpopulation.models.mass import BaseSmoothedMassDistribution
    from gwpopulation.models.redshift import _Redshift

    if kind == "primary function":
        return type("A", (BaseSmoothedMassDistribution,), dict(primary_model=shared_primary))
    if kind == "primary static":
        return type("B", (BaseSmoothedMassDistribution,),
                    dict(primary_model=staticmethod(shared_primary)))
    if kind == "primary named":
        return type("C", (BaseSmoothedMassDistribution,), dict(primary_model=tagged_primary))
    if kind == "primary callable":
        return type("D", (BaseSmoothedMassDistribution,),
                    dict(primary_model=CallablePrimary()))
    if kind == "primary fixed":
        return type("E", (BaseSmoothedMassDistribution,), dict(
            primary_model=shared_primary, kwargs=property(lambda self: dict(slope=2.5))))

    def psi_of_z(self, redshift, **parameters):
        if self.base_variable_names is None:
            return 1 + 0 * redshift
        return 1 + parameters["slope"] * redshift**2

    names = ["slope"] if kind == "redshift user" else None
    return type("F", (_Redshift,), dict(base_variable_names=names, psi_of_z=psi_of_z))


def user_params(kind, config):
    if kind.startswith("primary"):
        names = {"slope": uni(0, 4), "mmin": catalog.low_mass, **catalog.BETA, **catalog.DELTA}
        if kind == "primary fixed":
            del names["slope"]
        return names
    out = dict(zoo.cosmo_params(config["cosmo_model"]))
    if kind == "redshift user":
        out["slope"] = uni(0, 4)
    return out


USER_MODELS = st.sampled_from(USER).flatmap(
    lambda kind: zoo._configs("custom smoothed" if kind.startswith("primary")
                              else zoo.REDSHIFT[0]).flatmap(
        lambda config: record(kind=st.just(kind), config=st.just(config), params=st.tuples(
            st.fixed_dictionaries(user_params(kind, config))).map(list))))


def build(m):
    if m["kind"] not in USER:
        return zoo.build(m)
    config = dict(m["config"])
    if "normalization_shape" in config:
        config["normalization_shape"] = tuple(config["normalization_shape"])
    with library(f"construction of {m['kind']}"):
        return user_class(m["kind"])(**config)


def data_of(m, rng, shape):
    if m["kind"] in USER:
        kind = "custom smoothed" if m["kind"].startswith("primary") else zoo.REDSHIFT[0]
        return zoo.data(dict(m, kind=kind), rng, shape)
    return zoo.data(m, rng, shape)


def expected_names(m):
    if m["kind"] in USER:
        return set(user_params(m["kind"], m["config"]))
    return set(zoo.params_of(m["kind"], m["config"])) | set(zoo.optional_of(m["kind"]))


def complete(m, params):
    """Including the names that have a default: a composite model needs them all."""
    out = dict(params)
    for name, default in defaults(m).items():
        if name in expected_names(m):
            out.setdefault(name, default)
    return out


def defaults(m):
    """Default values in the signature of a model function."""
    if m["kind"] not in zoo.FUNCTIONS:
        return {}
    signature = inspect.signature(zoo.build(m))
    return {name: par.default for name, par in signature.parameters.items()
            if par.default is not par.empty}


def required(m):
    """Names without which a direct evaluation cannot have a value."""
    names = expected_names(m) - set(zoo.optional_of(m["kind"])) - set(defaults(m))
    return sorted(names - {"delta_m"})


def composite(m, model, cache=False):
    from bilby.hyper.model import Model

    return model if m["kind"] == "CosmoModel" else Model([model], cache=cache)


def names_match(m, model, what):
    if not hasattr(model, "variable_names"):
        return False
    for attempt in ("first", "repeated"):
        with library(f"variable_names of {m['kind']}"):
            names = list(model.variable_names)
        is_true(len(names) == len(set(names)),
                f"{what}: {m['kind']} declares a name twice: {sorted(names)}")
        is_true(set(names) == expected_names(m),
                f"{what} ({attempt} access): {m['kind']} {m['config']} declares {sorted(names)} "
                f"instead of {sorted(expected_names(m))}")
    return True


SINGLE = weighted(*[zoo.models(IN_MODEL)] * 4, USER_MODELS)


@suite.check(
    record(model=SINGLE, backend=BACKEND, seed=seeds(), cache=st.booleans(),
           missing=st.lists(st.integers(0, 40), min_size=1, max_size=3),
           extra=st.lists(st.sampled_from(OTHER_NAMES), max_size=25, unique=True),
           extra_value=uni(-3, 60)),
    quick=2600,
)
def needed(case):
    backend = case["backend"]
    backends.use(backend)
    m = case["model"]
    rng = rng_of(case["seed"])
    params = m["params"][0]
    full = complete(m, params)
    dataset = backends.data(data_of(m, rng, (6,)), backend)

    def direct(values):
        model = build(m)
        with library(m["kind"]):
            return as_array(zoo.raw(m, model, dataset, dict(values)), "value")

    def inside(values, what):
        model = build(m)
        names_match(m, model, what)
        with library(f"composite model of {m['kind']}, {what}"):
            value = as_array(composite(m, model, case["cache"] and backend == "numpy").prob(
                dataset, **dict(values)), "probability")
        names_match(m, model, f"after evaluation, {what}")
        return value

    base = direct(params)
    rtol = 1e-12 if backend == "numpy" else 1e-9
    scale = np.nanmax(np.abs(base), initial=0)
    atol = 1e-14 * scale if np.isfinite(scale) else 0

    def same(value, what):
        close(value, base, f"{m['kind']} {what}", rtol=rtol, atol=atol)

    same(inside(full, "its own hyperparameters"), "in a composite model")
    superset = {name: case["extra_value"] for name in case["extra"]}
    superset.update(full)
    order = [str(k) for k in rng.permutation(sorted(superset))]
    same(inside({k: superset[k] for k in order}, "with further hyperparameters"),
         f"with further hyperparameters {sorted(set(superset) - set(full))}")
    must = required(m)
    for which in case["missing"]:
        if not must:
            break
        name = must[which % len(must)]
        less = {k: v for k, v in full.items() if k != name}
        model = build(m)
        refused(lambda: composite(m, model).prob(dataset, **less),
                f"{m['kind']} {m['config']} without {name} in a composite model")
        if m["kind"] != "CosmoModel":
            model = build(m)
            refused(lambda: zoo.raw(m, model, dataset, less),
                    f"{m['kind']} {m['config']} without {name}")
    return len(np.unique(base)) >= 3, [m["kind"], backend] + (
        ["superset"] if set(superset) - set(full) else [])


def refused(func, what):
    try:
        value = func()
    except Exception:
        return
    raise Violation(f"{what}: no error, returned {str(value)[:80]}")


# -- products -----------------------------------------------------------------------

BASES = {"InterpolatedPowerlaw": "mass", "spline log": "mass"}


def compatible(ms):
    """Spline models with a common name would need the same nodes; the same for the data."""
    bases = [BASES[m["kind"]] for m in ms if m["kind"] in BASES]
    kinds = [m["kind"] for m in ms]
    return len(bases) == len(set(bases)) and len(kinds) == len(set(kinds))


PRODUCT = st.lists(
    weighted(*[zoo.models([k for k in IN_MODEL if k != "CosmoModel"])] * 5, USER_MODELS),
    min_size=2, max_size=4,
).filter(compatible)


@suite.check(
    record(models=PRODUCT, backend=BACKEND, seed=seeds(), cache=st.booleans(),
           via=st.sampled_from(["model", "model", "injections", "likelihood"]),
           extra=st.lists(st.sampled_from(OTHER_NAMES), max_size=12, unique=True)),
    quick=900,
)
def product(case):
    from bilby.hyper.model import Model

    backend = case["backend"]
    backends.use(backend)
    rng = rng_of(case["seed"])
    shape = (3, 4) if case["via"] == "likelihood" else (8,)
    data, params = {}, {}
    for m in case["models"]:
        data.update(data_of(m, rng, shape))
    for m in case["models"]:
        for key, value in complete(m, m["params"][0]).items():
            params.setdefault(key, value)
    # shared names have one value: the spins' maximum and mass limits are inside every domain
    given = backends.data(data, backend)
    want = 1.0
    for m in case["models"]:
        own = {k: params[k] for k in expected_names(m)}
        model = build(m)
        with library(m["kind"]):
            want = want * as_array(zoo.raw(m, model, given, own), m["kind"])
    everything = {name: 0.75 for name in case["extra"]}
    everything.update(params)
    before = dict(everything)
    models = [build(m) for m in case["models"]]
    cache = case["cache"] and backend == "numpy"
    if case["via"] == "model":
        with library("composite model"):
            got = as_array(Model(models, cache=cache).prob(given, **everything), "probability")
    elif case["via"] == "injections":
        got, want = through_injections(models, given, everything, want, rng, backend)
    else:
        got, want = through_likelihood(models, data, everything, want, backend)
    unchanged(before, everything, "hyperparameters")
    rtol = 1e-12 if backend == "numpy" else 1e-9
    if case["via"] != "model":
        rtol *= 1000
    finite = np.isfinite(want)
    scale = np.max(np.abs(np.where(finite, want, 0)), initial=0)
    close(got, want, "product of " + ", ".join(m["kind"] for m in case["models"]), rtol=rtol,
          atol=1e-14 * scale, where=finite)
    return len(np.unique(want)) >= 3 or case["via"] == "injections", [
        case["via"], backend, *[m["kind"] for m in case["models"]]]


def through_injections(models, given, everything, want, rng, backend):
    from gwpopulation.vt import ResamplingVT

    n = len(want)
    prior = rng.uniform(0.5, 2, n)
    with library("ResamplingVT"):
        vt = ResamplingVT(models, {**given, "prior": backends.arr(prior, backend),
                                   "total_generated": 5 * n}, n_events=1)
        mu, var = vt.detection_efficiency(everything)
    w = want / prior
    expected = np.sum(w) / (5 * n)
    return np.array([mu, var]), np.array(
        [expected, np.sum(w**2) / (5 * n) ** 2 - expected**2 / (5 * n)])


def through_likelihood(models, data, everything, want, backend):
    import pandas as pd
    from bilby.hyper.model import Model
    from gwpopulation.hyperpe import HyperparameterLikelihood

    frames = [pd.DataFrame({k: v[ii] for k, v in data.items()}) for ii in range(len(want))]
    with library("likelihood"):
        like = HyperparameterLikelihood(frames, Model(models, cache=False))
        stats = like.generate_extra_statistics(dict(everything))
    with np.errstate(all="ignore"):
        return (np.exp([float(stats[f"ln_bf_{ii}"]) for ii in range(len(want))]),
                np.mean(want, axis=1))


# -- histories of instances -----------------------------------------------------------

CLASSES = zoo.SMOOTHED + zoo.REDSHIFT + ["InterpolatedPowerlaw"] + sorted(zoo.SPLINES)
STEP = weighted(
    *[record(do=st.just("create"), model=zoo.models(CLASSES))] * 3,
    record(do=st.just("create"), model=USER_MODELS),
    record(do=st.just("again"), which=st.integers(0, 9), nodes=st.integers(4, 9),
           regularize=st.booleans(), cosmo_model=zoo.COSMOLOGIES),
    record(do=st.just("evaluate"), which=st.integers(0, 9)),
    record(do=st.just("evaluate"), which=st.integers(0, 9)),
    record(do=st.just("more nodes"), which=st.integers(0, 9), extra=st.integers(1, 3)),
    record(do=st.just("switch")),
)


@suite.check(record(steps=st.lists(STEP, min_size=3, max_size=12), seed=seeds()), quick=700)
def instances(case):
    """Declared names of all living instances after every operation."""
    rng = rng_of(case["seed"])
    backends.use("numpy")
    backend = "numpy"
    alive = []
    labels = set()
    classes = {}

    def make(m):
        if m["kind"] in USER:
            config = {k: tuple(v) if isinstance(v, list) else v for k, v in m["config"].items()}
            klass = classes.setdefault(m["kind"], user_class(m["kind"]))
            with library(f"construction of {m['kind']}"):
                return klass(**config)
        return zoo.build(m)

    for number, step in enumerate(case["steps"]):
        what = f"step {number} ({step['do']})"
        labels.add(step["do"])
        if step["do"] == "create":
            m = step["model"]
            alive.append([m, make(m), backend])
        elif step["do"] == "switch":
            backend = "jax" if backend == "numpy" else "numpy"
            backends.use(backend)
        elif alive:
            entry = alive[step["which"] % len(alive)]
            m, model, made = entry
            if step["do"] == "again":
                config = dict(m["config"])
                for key in ("nodes", "regularize", "cosmo_model"):
                    if key in config:
                        config[key] = step[key]
                new = dict(m, config=config)
                alive.append([new, make(new), backend])
            elif made == backend:
                run(m, model, rng, backend, step, entry, what)
        for m, model, _ in alive:
            names_match(m, model, what)
    kinds = [m["kind"] for m, _, _ in alive]
    return len(kinds) > len(set(kinds)), sorted(labels)


def fixed_params(m, rng):
    """Some valid hyperparameters for a configuration changed since they were drawn."""
    params = dict(m["params"][0])
    names = expected_names(m)
    kind = m["kind"]
    if kind in zoo.SPLINES or kind == "InterpolatedPowerlaw":
        if kind == "InterpolatedPowerlaw":
            base, lo, hi, log = "mass", 2.0, 100.0, True
        else:
            _, base, lo, hi = zoo.SPLINES[kind]
            log = kind == "spline log"
        n = m["config"]["nodes"]
        nodes = np.geomspace(lo, hi, n) if log else np.linspace(lo, hi, n)
        nodes[0], nodes[-1] = lo, hi
        params.update({f"{base}{ii}": float(nodes[ii]) for ii in range(n)})
        params.update({f"f{base}{ii}": float(rng.normal()) for ii in range(n)})
        params[f"rms{base}"] = 0.7
    params.setdefault("H0", 67.0)
    params.setdefault("Om0", 0.31)
    params.setdefault("w0", -0.9)
    return {k: v for k, v in params.items() if k in names}


def run(m, model, rng, backend, step, entry, what):
    if step["do"] == "more nodes":
        if m["kind"] not in zoo.SPLINES:
            return
        m = dict(m, config=dict(m["config"], nodes=m["config"]["nodes"] + step["extra"]))
        entry[0] = m
    elif m["kind"] in zoo.SPLINES or m["kind"] == "InterpolatedPowerlaw" or zoo.caches_data(m):
        # these remember their first data and nodes
        if entry[2] != backend or "used" in m:
            return
    params = fixed_params(m, rng)
    dataset = backends.data(data_of(m, rng, (5,)), backend)
    before = dict(params)
    with library(f"{what} of {m['kind']}"):
        value = as_array(zoo.raw(m, model, dataset, params), "value")
    is_true(value.shape == (5,), f"{what}: shape {value.shape}")
    unchanged(before, params, "hyperparameters")
    entry[0] = dict(m, used=True)

