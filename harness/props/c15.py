"""C15: evaluations are pure."""

import json

import numpy as np
from hypothesis import strategies as st

from .. import backends, scenario, zoo
from ..compare import as_array, close, snapshot, unchanged
from ..core import Suite, Violation, library
from ..gen import RELATIONS, loguni, mix, record, related, rng_of, seeds, uni, weighted

suite = Suite(
    "C15",
    "Histories of 2-10 steps over two instances of a drawn model configuration and one of another "
    "model (hyperparameters, data sets, failing calls: missing or invalid hyperparameters, missing "
    "data, accesses to the declared names, changes of backend and back), and over a likelihood and "
    "its selection function (every public evaluation, failing calls, a second likelihood sharing "
    "the selection function and models). Every result is compared with that of an object built and "
    "called afresh; all inputs, stored data and earlier results are compared with snapshots. "
    "Non-trivial: at least two successful evaluations on one instance.",
    [
        "models that cache (splines; smoothed mass models unless cache=False) are used with one "
        "data set per instance (smoothed: one per shape), splines with one set of node positions",
        "the reference is the same code in a fresh object, so only dependence on history is judged",
    ],
)

BACKEND = weighted(*[st.just("numpy")] * 9, st.just("jax"))
RTOL = 1e-11


def same(got, want, what, rtol=RTOL):
    want = np.asarray(want)
    finite = np.abs(want[np.isfinite(want)])
    atol = 1e-15 * finite.max() if finite.size else 0.0
    close(got, want, what, rtol=rtol, atol=atol)


def accepted(m, dataset, params):
    """Whether a new instance evaluates these hyperparameters."""
    try:
        return bool(np.all(np.isfinite(np.asarray(zoo.raw(m, zoo.build(m), dataset, params)))))
    except Exception:
        return False


MODEL_STEP = weighted(
    *[record(do=st.just("call"), who=st.integers(0, 2), params=st.integers(0, 2),
             data=st.integers(0, 2))] * 6,
    record(do=st.just("missing name"), who=st.integers(0, 2), params=st.integers(0, 2),
           which=st.integers(0, 40)),
    record(do=st.just("missing data"), who=st.integers(0, 2), params=st.integers(0, 2),
           which=st.integers(0, 5)),
    record(do=st.just("invalid"), who=st.integers(0, 2), params=st.integers(0, 2),
           which=st.integers(0, 40)),
    record(do=st.just("names"), who=st.integers(0, 2)),
    record(do=st.just("backend")),
)


@suite.check(
    record(
        model=zoo.models(n_params=3), other=zoo.models(n_params=3),
        steps=st.lists(MODEL_STEP, min_size=2, max_size=10),
        n=st.integers(2, 8), backend=BACKEND, seed=seeds(),
        relations=st.tuples(st.sampled_from(RELATIONS), st.sampled_from(RELATIONS)),
        which=st.integers(0, 60),
    ),
    quick=1700,
)
def models(case):
    backend = case["backend"]
    backends.use(backend)
    rng = rng_of(case["seed"])
    case = json.loads(json.dumps(case))
    for m in (case["model"], case["other"]):
        probe = zoo.given(zoo.data(m, rng_of(case["seed"]), (3,)), backend)
        for ii, relation in enumerate(case["relations"], 1):
            new = related(m["params"][0], m["params"][ii], relation, case["which"] + ii)
            if accepted(m, probe, dict(new)):
                m["params"][ii] = new
    kinds = [case["model"], case["model"], case["other"]]
    configs = [snapshot(m) for m in kinds]
    instances = [zoo.build(m) for m in kinds]
    n = case["n"] if backend == "numpy" else 5
    # three data sets per model, two of the same shape
    sets = []
    for m in kinds:
        sizes = [(n,), (n,), (2, n + 3)] if backend == "numpy" else [(5,), (5,), (2, 8)]
        sets.append([zoo.given(zoo.data(m, rng, s), backend) for s in sizes])
    before = snapshot(sets)
    fixed = {}  # instance -> its data set, for models that cache
    names0 = [set(_names(m, i)) for m, i in zip(kinds, instances)]
    kept, good, labels = [], 0, set()
    for step in case["steps"]:
        if step["do"] == "backend":
            backends.use("numpy" if backend == "jax" else "jax")
            backends.use(backend)
            continue
        who = step["who"]
        m, model = kinds[who], instances[who]
        what = f"{m['kind']} after {len(kept)} evaluations, step {step}"
        if step["do"] == "names":
            names = set(_names(m, model))
            if names != names0[who]:
                raise Violation(f"{what}: declared names changed to {sorted(names)}")
            continue
        params = dict(m["params"][step["params"]])
        if step["do"] == "call":
            d = step["data"]
            if zoo.caches_data(m):
                d = fixed.setdefault(slot(m, who, d), d)
            given = snapshot(params)
            result = zoo.evaluate(m, model, sets[who][d], params)
            unchanged(given, params, f"{what}: hyperparameters")
            unchanged(before, sets, f"{what}: data")
            fresh = zoo.evaluate(
                m, zoo.build(m), zoo.given(_plain(before[who][d]), backend), dict(given))
            same(result, fresh, what)
            kept.append((result, np.array(result), what))
            good += 1
            labels.add(m["kind"])
            continue
        # calls that are expected to fail; whatever happens, it must not matter later
        d = 0
        if zoo.caches_data(m):
            d = fixed.setdefault(slot(m, who, 0), 0)
        dataset = dict(sets[who][d])
        if step["do"] == "missing name":
            names = sorted(params)
            params.pop(names[step["which"] % len(names)])
        elif step["do"] == "missing data":
            names = sorted(dataset)
            dataset.pop(names[step["which"] % len(names)])
        else:
            names = sorted(params)
            if "mmin" in names and step["which"] % 2:
                params["mmin"] = -3.0
            else:
                params[names[step["which"] % len(names)]] = "not a number"
        given = snapshot(params)
        try:
            zoo.raw(m, model, dataset, params)
        except Exception:
            labels.add(step["do"])
        unchanged(given, params, f"{what}: hyperparameters")
        unchanged(before, sets, f"{what}: data")
    for value, copy, what in kept:
        unchanged(copy, np.asarray(value), f"result returned earlier ({what})")
    for m, config in zip(kinds, configs):
        unchanged(config, m, "configuration")
    return good >= 2, sorted(labels)


@suite.check(
    record(model=zoo.models(n_params=3), n=st.integers(1, 6), backend=BACKEND, seed=seeds(),
           relations=st.tuples(st.sampled_from(RELATIONS[1:]), st.sampled_from(RELATIONS[1:])),
           which=st.integers(0, 60), order=st.sampled_from(["010", "012", "011", "0120"]),
           between=st.sampled_from(["nothing", "nothing", "result", "entries", "arrays"])),
    quick=2200,
)
def successive(case):
    """
    One instance called several times in a row with hyperparameters that have much in common,
    while the caller reuses the dictionary of data and the results for something else.
    """
    backend = case["backend"]
    backends.use(backend)
    m = json.loads(json.dumps(case["model"]))
    n = case["n"] if backend == "numpy" else 5
    rng = rng_of(case["seed"])
    plain = zoo.data(m, rng, (n,))
    probe = zoo.given(plain, backend)
    for ii, relation in enumerate(case["relations"], 1):
        new = related(m["params"][0], m["params"][ii], relation, case["which"] + ii)
        if accepted(m, probe, dict(new)):
            m["params"][ii] = new
    model = zoo.build(m)
    dataset = zoo.given(plain, backend)
    between = case["between"]
    if between in ("entries", "arrays") and zoo.caches_data(m):
        between = "nothing"  # belongs to its data set
    values = []
    for number, ii in enumerate(case["order"]):
        params = m["params"][int(ii)]
        what = f"{m['kind']}, call {number} of {case['order']} ({between})"
        result = zoo.evaluate(m, model, dataset, dict(params))
        fresh = zoo.evaluate(m, zoo.build(m), zoo.given(plain, backend), dict(params))
        same(result, fresh, what)
        values.append(np.array(result))
        if between == "result" and isinstance(result, np.ndarray) and result.flags.writeable:
            result[...] = -7.0
        elif between == "entries":
            plain = zoo.data(m, rng, (n,))
            dataset.update(zoo.given(plain, backend))
        elif between == "arrays" and backend == "numpy":
            plain = zoo.data(m, rng, (n,))
            for key, value in plain.items():
                dataset[key][...] = value
    return any(not np.array_equal(values[0], v) for v in values[1:]), [m["kind"], between]


def slot(m, who, d):
    """Smoothed models that cache take one data set per shape, splines one."""
    if "SmoothedMass" in m["kind"] or m["kind"] == "custom smoothed":
        return who, d == 2
    return who, None


def _plain(data):
    return {k: np.array(v) for k, v in data.items()}


def _names(m, model):
    if m["kind"] == "CosmoModel":
        with library("cosmology_names"):
            return list(model.cosmology_names)
    with library("variable_names"):
        return list(getattr(model, "variable_names", []))


# -- likelihoods ---------------------------------------------------------------------

EVALUATIONS = [
    "log_likelihood_ratio", "log_likelihood_ratio", "log_likelihood",
    "ln_likelihood_and_variance", "generate_extra_statistics", "generate_rate_posterior_sample",
    "posterior_predictive_resample", "selection_function", "meta_data", "noise_log_likelihood",
]
LIKELIHOOD_STEP = weighted(
    *[record(do=st.sampled_from(EVALUATIONS), params=st.integers(0, 2),
             who=st.sampled_from([0, 0, 1]))] * 6,
    record(do=st.just("missing name"), which=st.integers(0, 20), who=st.integers(0, 1)),
    record(do=st.just("invalid"), which=st.integers(0, 20), who=st.integers(0, 1)),
    record(do=st.just("limit"), value=loguni(1e-3, 10), who=st.integers(0, 1)),
)


def with_history(case):
    return record(
        case=st.just(case),
        more=st.lists(st.fixed_dictionaries(scenario.names_of(case["population"])), min_size=2,
                      max_size=2),
        steps=st.lists(LIKELIHOOD_STEP, min_size=2, max_size=8),
        shared=st.booleans(),
        relations=st.tuples(st.sampled_from(RELATIONS[:4]), st.sampled_from(RELATIONS[:4])),
        which=st.integers(0, 60),
    )


@suite.check(
    scenario.cases(backend=["numpy"] * 9 + ["jax"],
                   dead=True).flatmap(with_history),
    quick=900,
)
def likelihoods(case):
    scene = case["case"]
    backend = scene["backend"]
    built = scenario.Built(scene)
    frames = snapshot(built.frames)
    evidences = snapshot(scene["evidences"])
    selection_data = snapshot(built.selection_data)
    over = dict(posteriors=built.frames)
    if case["shared"] and scene["selection"]["kind"] == "injections":
        # the same model instances in the likelihood and in the selection function
        n = min([len(f) for f in built.frames] + [scene["max_samples"] or 10**9])
        if scene["selection"]["found"] != n:
            with library("shared models"):
                from bilby.hyper.model import Model

                over["hyper_prior"] = Model(list(built.selection.model.models))
    first = built.likelihood(**over)
    second = built.likelihood()  # same selection function, other model instances
    people = [first, second]
    limits = [np.inf, np.inf]
    unchanged(frames, built.frames, "posteriors given to the likelihood")
    stored = [snapshot(dict(p.data)) for p in people]
    priors = [snapshot(np.asarray(p.sampling_prior)) for p in people]
    sets = [scenario.sampled(scene)] + [
        scenario.sampled_of(scene, related(scene["params"], p, rel, case["which"] + jj))
        for jj, (p, rel) in enumerate(zip(case["more"], case["relations"]))]
    good, labels = 0, set()
    shared = {}
    for ii, step in enumerate(case["steps"]):
        who, do = step["who"], step["do"]
        target = people[who]
        what = f"step {ii} {step} ({scene['population']}, {scene['selection']['kind']})"
        if do == "limit":
            with library(what):
                target.maximum_uncertainty = step["value"]
            limits[who] = step["value"]
            continue
        if do in ("missing name", "invalid"):
            params = dict(sets[0])
            name = sorted(params)[step["which"] % len(params)]
            if do == "invalid":
                params[name] = "not a number"
            else:
                params.pop(name)
            given = snapshot(params)
            try:
                target.log_likelihood_ratio(params)
            except Exception:
                labels.add("failing call")
            unchanged(given, params, f"{what}: parameters")
            continue
        params = dict(sets[step["params"]])
        if case["which"] % 2:
            # the caller changes the values in one dictionary
            shared.clear()
            shared.update(params)
            params = shared
        given = snapshot(params)
        # an analysis in which nothing has happened yet
        fresh = scenario.Built(scene).likelihood(maximum_uncertainty=limits[who])
        got = perform(target, do, params, scene, what)
        want = perform(fresh, do, dict(given), scene, what)
        if do == "generate_extra_statistics" and isinstance(want, dict):
            if not isinstance(got, dict):
                raise Violation(f"{what}: {got}")
            extra = {k: v for k, v in params.items() if k not in given}
            unchanged(given, {k: params[k] for k in given if k in params}, f"{what}: parameters")
            got = {**{f"result:{k}": v for k, v in got.items()}, **extra}
            want = {**{f"result:{k}": v for k, v in want.items()},
                    **{k: v for k, v in want.items() if k not in given}}
        else:
            unchanged(given, params, f"{what}: parameters")
        compare(got, want, what)
        good += 1
        labels.add(do)
        for p, (data, prior) in zip(people, zip(stored, priors)):
            unchanged(data, dict(p.data), f"{what}: stored samples")
            unchanged(prior, np.asarray(p.sampling_prior), f"{what}: stored prior")
        unchanged(selection_data, built.selection_data, f"{what}: injections")
        unchanged(frames, built.frames, f"{what}: posteriors")
        unchanged(evidences, scene["evidences"], f"{what}: evidences")
    return good >= 2, sorted(labels) + [backend]


def perform(target, do, params, scene, what):
    """The result; a failure is a result, too (e.g. resampling events without support)."""
    try:
        return _perform(target, do, params, scene, what)
    except Violation as exc:
        return f"failed: {type(exc.__cause__).__name__}"


def _perform(target, do, params, scene, what):
    np.random.seed(scene["seed"] % 2**32)
    with library(what):
        if do == "selection_function":
            converted, _ = target.conversion_function(dict(params))
            return target.selection_function(converted)
        if do == "generate_rate_posterior_sample":
            converted, _ = target.conversion_function(dict(params))
            return target.generate_rate_posterior_sample(converted)
        if do == "posterior_predictive_resample":
            return target.posterior_predictive_resample(params, return_weights=True)
        if do == "meta_data":
            return target.meta_data
        if do == "noise_log_likelihood":
            return target.noise_log_likelihood()
        return getattr(target, do)(params)


def compare(got, want, what):
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            raise Violation(f"{what}: entries {sorted(map(str, got))}")
        for key in want:
            compare(got[key], want[key], f"{what}[{key}]")
    elif isinstance(want, (tuple, list)):
        if len(got) != len(want):
            raise Violation(f"{what}: {len(got)} instead of {len(want)} values")
        for a, b in zip(got, want):
            compare(a, b, what)
    elif isinstance(want, str) or want is None:
        if got != want:
            raise Violation(f"{what}: {got!r} instead of {want!r}")
    else:
        same(got, as_array(want), what, rtol=1e-9)


# -- functions -----------------------------------------------------------------------


@suite.check(
    record(
        name=st.sampled_from([
            "beta_dist", "powerlaw", "truncnorm", "von_mises", "unnormalized_2d_gaussian",
            "trapezoid", "alpha_beta_max_to_mu_var_max", "mu_var_max_to_alpha_beta_max",
            "convert_to_beta_parameters", "total_four_volume",
        ]),
        arrays=st.integers(0, 2**7 - 1), n=st.integers(1, 6), dtype=st.sampled_from("fffi"),
        a=loguni(0.5, 9), b=mix(loguni(0.5, 9), 1), c=uni(0.2, 1), twice=st.booleans(),
        seed=seeds(),
    ),
    quick=2000,
)
def functions(case):
    """Elementary functions with any mixture of scalars and arrays."""
    from gwpopulation import conversions, utils
    from gwpopulation.models.redshift import total_four_volume

    backends.use("numpy")
    rng = rng_of(case["seed"])
    n = case["n"]

    def arg(ii, lo, hi):
        if case["arrays"] >> ii & 1:
            return rng.uniform(lo, hi, n)
        return float(rng.uniform(lo, hi))

    x = rng.uniform(0.05, 20, n)
    if case["dtype"] == "i":
        x = rng.integers(1, 20, n)
    name = case["name"]
    if name == "beta_dist":
        args = [x / 25.0, arg(0, 0.5, 5), arg(1, 0.5, 5), arg(2, 0.8, 1.5)]
        func = utils.beta_dist
    elif name == "powerlaw":
        args = [x, arg(0, -4, 4), arg(1, 15, 30), arg(2, 0.5, 3)]
        func = utils.powerlaw
    elif name == "truncnorm":
        args = [x, arg(0, -4, 24), arg(1, 0.5, 9), arg(2, 15, 30), arg(3, -3, 3)]
        func = utils.truncnorm
    elif name == "von_mises":
        args = [x, arg(0, -3, 3), arg(1, 0.1, 20)]
        func = utils.von_mises
    elif name == "unnormalized_2d_gaussian":
        args = [x, rng.normal(size=n), arg(0, -1, 1), arg(1, -1, 1), arg(2, 0.5, 2),
                arg(3, 0.5, 2), arg(4, -0.9, 0.9)]
        func = utils.unnormalized_2d_gaussian
    elif name == "trapezoid":
        args = [rng.normal(size=(3, n + 1)), np.sort(rng.normal(size=n + 1))]
        func = utils.trapezoid
    elif name == "alpha_beta_max_to_mu_var_max":
        args = [arg(0, 0.5, 9), arg(1, 0.5, 9), arg(2, 0.3, 1)]
        func = conversions.alpha_beta_max_to_mu_var_max
    elif name == "mu_var_max_to_alpha_beta_max":
        args = [arg(0, 0.2, 0.3), arg(1, 0.001, 0.02), arg(2, 0.8, 1)]
        func = conversions.mu_var_max_to_alpha_beta_max
    elif name == "convert_to_beta_parameters":
        params = dict(amax=arg(0, 0.8, 1), mu_chi=arg(1, 0.2, 0.3), sigma_chi=arg(2, 0.001, 0.02),
                      other=arg(3, 0, 1))
        args = [params]
        func = conversions.convert_to_beta_parameters
    else:
        args = [float(rng.uniform(-2, 4)), 0.5, float(rng.uniform(0.5, 3))]
        func = total_four_volume
    before = snapshot(args)
    with library(name):
        first = func(*args)
    unchanged(before, args, f"{name}: arguments")
    copy = snapshot(first)
    with library(name):
        again = func(*args)
    unchanged(before, args, f"{name}: arguments")
    compare(again, first, f"{name} repeated")
    with library(name):
        func(*[a * 1.01 if isinstance(a, np.ndarray) and ii == 0 else a
               for ii, a in enumerate(args)])
    unchanged(copy, first, f"{name}: earlier result")
    return any(isinstance(a, (np.ndarray, dict)) for a in args), [name]
