"""C11: selection functions."""

import numpy as np
from hypothesis import strategies as st

from .. import backends, catalog, oracle, scenario
from ..compare import close, is_true, scalar, snapshot, unchanged
from ..core import Suite, library
from ..gen import history, loguni, mix, record, replay, rng_of, seeds, uni, weighted
from . import c04

suite = Suite(
    "C11",
    "Injection sets of 1-300 found signals out of a drawn number generated, drawn numbers of "
    "events, every option of the resampling estimator and every way of passing the model; grids of "
    "one to four axes of drawn (also equal) lengths, non-uniform spacing, any order of keys and "
    "either index convention. Results are compared with direct sums. Non-trivial: the sum has at "
    "least two non-zero terms.",
    [
        "the reference evaluates each population factor alone on the injections or the grid",
        "convergence within 1e-6 (relative) of the threshold is not judged",
        "domain: grid axes have at least two strictly increasing points",
    ],
)

BACKENDS = st.sampled_from(["numpy"] * 9 + ["jax"])


def population_case(populations=None, **extra):
    return st.sampled_from(sorted(populations or scenario.POPULATIONS)).flatmap(
        lambda pop: record(
            population=st.just(pop),
            params=st.fixed_dictionaries(scenario.names_of(pop)),
            seed=seeds(),
            backend=BACKENDS,
            history=history(st.fixed_dictionaries(scenario.names_of(pop)), size=2),
            **extra,
        )
    )


def probability(case, data, backend):
    out = 1.0
    for name in scenario.POPULATIONS[case["population"]]:
        piece = scenario.PIECES[name]
        with library(name):
            out = out * np.asarray(
                piece.build()(backends.data(data, backend),
                              **{k: case["params"][k] for k in piece.params})
            )
    return out


def wrap(case, how):
    from bilby.hyper.model import Model

    models = scenario.models_of(case["population"])
    if how == "model":
        return Model(models)
    if how == "single" and len(models) == 1:
        return models[0]
    return models


@suite.check(
    population_case(
        found=weighted(*[loguni(20, 400).map(int)] * 6, st.sampled_from([1, 2, 3])),
        extra=st.one_of(st.none(), mix(loguni(1, 1e6), 0).map(int)),
        n_events=weighted(*[loguni(1, 30).map(int)] * 5, st.none(), st.sampled_from([0, 1, 200])),
        time=st.one_of(st.none(), loguni(0.01, 20)),
        how=st.sampled_from(["model", "single", "list"]),
        off=st.sampled_from([0.0, 0.0, 0.0, 0.0, 0.3, 0.9, 1.0]),
        marginalise=st.booleans(),
        converge=st.one_of(st.none(), st.booleans()),
        scale=mix(loguni(1e-6, 1e6), 1),
    ),
    quick=1500,
)
def resampling(case):
    from gwpopulation.vt import ResamplingVT

    backend = case["backend"]
    backends.use(backend)
    rng = rng_of(case["seed"])
    n = case["found"]
    data = scenario.draw(case["population"], rng, n)
    off = rng.uniform(size=n) < case["off"]
    dead = scenario.dead_samples(data)
    data = {k: np.where(off, dead[k], v) for k, v in data.items()}
    prior = rng.uniform(0.05, 3, n) * case["scale"]
    given = {**backends.data(data, backend), "prior": backends.arr(prior, backend)}
    total = n
    if case["extra"] is not None:
        total = given["total_generated"] = n + case["extra"]
    if case["time"] is not None:
        given["analysis_time"] = case["time"]
    before = snapshot(given)
    kwargs = {}
    if case["n_events"] is not None:
        kwargs["n_events"] = case["n_events"]
    if case["marginalise"]:
        kwargs["marginalize_uncertainty"] = True
    if case["converge"] is not None:
        kwargs["enforce_convergence"] = case["converge"]
    params = dict(case["params"], unrelated=3.0)
    with library("ResamplingVT"):
        vt = ResamplingVT(wrap(case, case["how"]), given, **kwargs)
    replay(case["history"], params, vt)
    with library("ResamplingVT"):
        mu, var = vt.detection_efficiency(params)
        result = vt(params)
        repeat = vt(dict(params))
    unchanged(before, given, "injections")
    w = probability(case, data, backend) / prior
    want_mu = np.sum(w) / total
    want_var = np.sum(w**2) / total**2 - want_mu**2 / total
    vtol = 1e-11 * (np.sum(w**2) / total**2 + want_mu**2 / total)
    close(scalar(mu, "efficiency"), np.float64(want_mu), "detection efficiency", rtol=1e-9)
    close(scalar(var, "variance"), np.float64(want_var), "variance", rtol=1e-9, atol=vtol)
    events = np.inf if case["n_events"] is None else case["n_events"]
    bound = 4 * events * want_var if events else 0.0
    clear = not abs(want_mu**2 - bound) <= 1e-6 * max(want_mu**2, bound) + 4e-11 * np.nan_to_num(
        events, posinf=1) * want_mu**2 / total
    if want_var <= 2 * vtol:
        clear = False
    converged = want_mu**2 > bound
    labels = [case["population"], "converged" if converged else "not converged", backend]
    if case["marginalise"]:
        is_true(not isinstance(result, tuple), "marginalised factor: a tuple was returned")
        result = scalar(result, "factor")
        close(scalar(repeat, "factor"), np.float64(result), "repeated factor", rtol=1e-12)
        if clear and converged:
            want = want_mu / np.exp((3 + events) / (2 * want_mu**2 / want_var))
            close(np.float64(result), np.float64(want), "marginalised factor", rtol=1e-7)
        elif clear or want_mu == 0:
            is_true(result == np.inf, f"unconverged marginalised factor {result}")
    else:
        is_true(isinstance(result, tuple) and len(result) == 2, "no (value, variance) pair")
        value, error = (scalar(r, "result") for r in result)
        close(np.float64(error), np.float64(want_var), "returned variance", rtol=1e-9, atol=vtol)
        enforced = case["converge"] is not False
        if not enforced or (clear and converged):
            close(np.float64(value), np.float64(want_mu), "detection probability", rtol=1e-9)
        elif clear or want_mu == 0:
            is_true(value == np.inf, f"unconverged estimate {value} is not rejected")
    return np.sum(w > 0) >= 2, labels


@suite.check(
    population_case(
        populations=scenario.GRID_POPULATIONS,
        lengths=st.lists(st.integers(2, 7), min_size=4, max_size=4),
        equal=st.booleans(),
        order=st.permutations(range(4)),
        keys=st.permutations(range(4)),
        vt_first=st.booleans(), unit=mix(loguni(1e-18, 1e9), 1),
        indexing=st.sampled_from(["ij", "ij", "xy"]),
        how=st.sampled_from(["model", "single", "list"]),
    ),
    quick=900,
)
def grid(case):
    from gwpopulation.vt import GridVT

    backend = case["backend"]
    backends.use(backend)
    rng = rng_of(case["seed"])
    names = list(scenario.draw(case["population"], rng, 1))
    order = [names[ii] for ii in case["order"] if ii < len(names)]
    lengths = [case["lengths"][0]] * 4 if case["equal"] else case["lengths"]
    axes = {}
    for key, n in zip(order, lengths):
        lo, hi = scenario.GRIDDED[key]
        inside = np.sort(rng.uniform(lo, hi, n - 2)) if n > 2 else []
        axes[key] = np.concatenate([[lo], inside, [hi]])
    mesh = dict(zip(order, np.meshgrid(*axes.values(), indexing=case["indexing"])))
    vt = rng.uniform(0, 1, mesh[order[0]].shape) * case["unit"]
    keys = [names[ii] for ii in case["keys"] if ii < len(names)]
    given = {k: backends.arr(mesh[k], backend) for k in keys}
    if case["vt_first"]:
        given = {"vt": backends.arr(vt, backend), **given}
    else:
        given["vt"] = backends.arr(vt, backend)
    before = snapshot(given)
    params = dict(case["params"], unrelated=1.0)
    with library("GridVT"):
        selection = GridVT(wrap(case, case["how"]), given)
    replay(case["history"], params, selection)
    with library("GridVT"):
        got = selection(params)
        again = selection(dict(params))
    unchanged(before, given, "grid")
    prob = probability(case, mesh, backend) * vt
    terms = np.sum(prob > 0)
    # integrate over every axis, whichever position it has
    for key in order:
        x = axes[key]
        weight = np.zeros(len(x))
        weight[1:] += np.diff(x) / 2
        weight[:-1] += np.diff(x) / 2
        pos = list(order).index(key)
        if case["indexing"] == "xy" and len(order) > 1 and pos < 2:
            pos = 1 - pos
        shape = [1] * prob.ndim
        shape[pos] = len(x)
        prob = prob * weight.reshape(shape)
    want = np.sum(prob)
    close(scalar(got, "grid integral"), np.float64(want), "grid integral", rtol=1e-9, atol=1e-300)
    close(scalar(again, "grid integral"), np.float64(want), "repeated grid integral", rtol=1e-9,
          atol=1e-300)
    return terms >= 2, [f"{len(order)} axes", case["indexing"], "equal" if case["equal"] else "own"]


@suite.check(
    record(
        case=c04.case_of(),
        with_redshift=st.sampled_from([True, True, False]),
        position=st.booleans(),
        time=st.one_of(st.none(), loguni(1e-3, 50)),
        toy=st.fixed_dictionaries(scenario.TOY),
        derived=st.sampled_from([0, 0, 1, 2]),
        container=st.sampled_from(["list", "list", "model"]),
    ),
    quick=500,
)
def hypervolume(case):
    from gwpopulation.vt import ResamplingVT

    inner = case["case"]
    model, params, reference = c04.setup(inner)
    backend = inner["backend"]
    rng = rng_of(inner["seed"])
    data = dict(x=rng.normal(size=8), redshift=rng.uniform(0.01, 0.04, 8), prior=np.ones(8))
    given = backends.data(data, backend)
    time = 1.0
    if case["time"] is not None:
        time = given["analysis_time"] = case["time"]
    models = [scenario.toy]
    for level in range(case["derived"]):  # a user's class derived from the package's
        model.__class__ = type(f"Derived{level}", (type(model),), {})
    if case["with_redshift"]:
        models = [model, scenario.toy] if case["position"] else [scenario.toy, model]
    if case["container"] == "model":
        from bilby.hyper.model import Model

        models = Model(models, cache=False)
    with library("surveyed_hypervolume"):
        vt = ResamplingVT(models, given, n_events=1)
    replay(inner["history"], {**params, **case["toy"]}, vt.surveyed_hypervolume)
    with library("surveyed_hypervolume"):
        got = vt.surveyed_hypervolume({**params, **case["toy"]})
    if case["with_redshift"]:
        total, err = c04.exact_norm(lambda z: c04.weight(inner, reference, z), inner["z_max"])
    else:
        planck = oracle.cosmology_of("Planck15")
        total, err = c04.exact_norm(lambda z: planck.dvc_dz(z) / (1 + z), 2.3)
    close(scalar(got, "surveyed volume"), np.float64(total / 1e9 * time), "surveyed volume",
          rtol=1e-6 + 3 * err)
    return True, ["evolving" if case["with_redshift"] else "no redshift model"]


_ = (catalog, uni)
