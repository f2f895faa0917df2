"""C14: detector frame to source frame."""

import numpy as np
from hypothesis import strategies as st

from .. import backends, catalog, oracle, scenario
from ..compare import close, is_true, raises, snapshot, unchanged
from ..core import Suite, library
from ..gen import history, loguni, mix, record, related, replay, rng_of, seeds, uni
from .c04 import COSMOLOGY

suite = Suite(
    "C14",
    "Named and free flat cosmologies, data sets with distances (or redshifts) between z = 0.005 "
    "and 8, any subset of detector-frame and other quantities in any order; redshifts, converted "
    "quantities and Jacobian are compared with an independent distance quadrature, and cosmology-"
    "aware models (in histories of changing cosmologies on one instance) with the source-frame "
    "models at the converted data. Non-trivial: a distance or at least one detector-frame quantity.",
    [
        "the redshift of a distance is a linear interpolation inside wcosmo (a dependency): "
        "tolerance 3e-4 on the distance of the returned redshift",
        "domain: distance and redshift not both given; redshifts in [1e-4, 100]",
    ],
)

BACKENDS = st.sampled_from(["numpy"] * 7 + ["jax"])
DETECTOR = ["mass_1_detector", "mass_2_detector", "chirp_mass_detector", "total_mass_detector",
            "period_detector", "duration_detector", "h1_detector_time_detector"]
OTHER = ["mass_ratio", "a_1", "chi_eff", "detector_snr", "mass_1_detector_error"]


def cosmo_instance(kind, name):
    from gwpopulation.experimental.cosmo_models import CosmoMixin, CosmoModel
    from gwpopulation.models.redshift import PowerLawRedshift

    with library("construction"):
        if kind == "mixin":
            return CosmoMixin(cosmo_model=name)
        if kind == "model":
            return CosmoModel([scenario.toy], cosmo_model=name)
        return PowerLawRedshift(cosmo_model=name)


def make_data(case, reference):
    rng = rng_of(case["seed"])
    shape = tuple(case["shape"])
    z = np.exp(rng.uniform(np.log(0.0005), np.log(60), shape))
    data = {}
    for key in case["detector"]:
        data[key] = rng.uniform(5, 200, shape)
    for key in case["other"]:
        data[key] = rng.uniform(0, 1, shape)
    if case["how"] == "distance":
        data["luminosity_distance"] = reference.luminosity_distance(z)
    elif case["how"] == "redshift":
        data["redshift"] = z
    keys = list(data)
    return {keys[ii]: data[keys[ii]] for ii in rng.permutation(len(keys))}, z


CASE = record(
    cosmology=COSMOLOGY,
    kind=st.sampled_from(["mixin", "model", "redshift"]),
    detector=st.lists(st.sampled_from(DETECTOR), unique=True, max_size=3),
    other=st.lists(st.sampled_from(OTHER), unique=True, max_size=3),
    how=st.sampled_from(["distance", "distance", "distance", "redshift", "neither"]),
    shape=st.sampled_from([[6], [3, 4], [1]]),
    extra=st.booleans(),
    history=history(st.fixed_dictionaries(catalog.COSMO)),
    seed=seeds(),
    backend=BACKENDS,
)


@suite.check(CASE, quick=1500)
def conversion(case):
    backends.use(case["backend"])
    cosmology = case["cosmology"]
    reference = oracle.cosmology_of(cosmology["name"], cosmology["params"])
    data, z = make_data(case, reference)
    model = cosmo_instance(case["kind"], cosmology["name"])
    params = dict(cosmology["params"])
    if case["extra"]:
        params.update(alpha=2.0, lamb=1.0)
    given = backends.data(data, case["backend"])
    before = snapshot(given)
    if case["how"] == "neither":
        raises((ValueError,), lambda: model.detector_frame_to_source_frame(given, **params),
               "no distance and no redshift")
        unchanged(before, given, "data")
        return bool(case["detector"]), ["neither"]
    replay(case["history"], params, lambda p: model.detector_frame_to_source_frame(given, **p))
    with library("detector_frame_to_source_frame"):
        samples, jacobian = model.detector_frame_to_source_frame(given, **params)
    unchanged(before, given, "data")
    want_keys = {k[: -len("_detector")] if k.endswith("_detector") else k for k in data}
    want_keys = (want_keys - {"luminosity_distance"}) | {"redshift"}
    is_true(set(samples) == want_keys, f"keys {sorted(samples)} instead of {sorted(want_keys)}")
    got_z = np.asarray(samples["redshift"])
    count = sum(k.endswith("_detector") for k in data)
    if case["how"] == "distance":
        close(reference.luminosity_distance(got_z), data["luminosity_distance"],
              "distance of the redshift", rtol=3e-4)
        factor = reference.ddl_dz(got_z)
    else:
        close(got_z, z, "redshift", rtol=0)
        factor = np.ones(z.shape)
    for key, value in data.items():
        if key.endswith("_detector"):
            close(np.asarray(samples[key[:-9]]), value / (1 + got_z), key, rtol=1e-10)
        elif key not in ("luminosity_distance", "redshift"):
            close(np.asarray(samples[key]), value, key, rtol=0)
    close(np.asarray(jacobian), factor * (1 + got_z) ** count, "Jacobian", rtol=1e-6)
    # the order of the entries does not matter
    keys = list(given)[::-1]
    with library("detector_frame_to_source_frame"):
        again, second = model.detector_frame_to_source_frame({k: given[k] for k in keys}, **params)
    for key in samples:
        close(np.asarray(again[key]), np.asarray(samples[key]), f"{key} in another order",
              rtol=1e-12)
    close(np.asarray(second), np.asarray(jacobian), "Jacobian in another order", rtol=1e-12)
    return count > 0 or case["how"] == "distance", [case["how"], f"{count} detector",
                                                    cosmology["name"], case["kind"]]


# -- the model ----------------------------------------------------------------------

FREE = record(
    name=st.sampled_from(["FlatwCDM", "FlatLambdaCDM", "Planck15", "Planck18", "WMAP9"]),
    start=st.fixed_dictionaries(catalog.COSMO),
    more=history(st.fixed_dictionaries(catalog.COSMO), weight=1),
)


def cosmologies(case):
    """The cosmologies of a history: many differ from the first in one value only."""
    start = case["start"]
    out = [start]
    for step in case["more"]:
        new = related(start, step["params"], step["relation"], step["which"])
        if 30 < new["H0"] < 120 and 0.02 < new["Om0"] < 0.98 and -2 < new["w0"] < -0.3:
            out.append(new)
    return out


def free_params(name, values):
    if name == "FlatwCDM":
        return dict(values)
    if name == "FlatLambdaCDM":
        return {k: values[k] for k in ("H0", "Om0")}
    return {}


def user_evolution(dataset, lamb):
    """A user-written redshift distribution without an end."""
    return (1 + dataset["redshift"]) ** (lamb - 5)


@suite.check(
    record(
        cosmology=FREE,
        pieces=st.sampled_from([["mass"], ["mass", "redshift"], ["redshift"], ["user"],
                                ["mass", "user"], ["mass", "redshift", "spin"]]),
        far=st.booleans(),
        params=st.fixed_dictionaries({**scenario.MASS_PARAMS, "lamb": mix(uni(-3, 5), 0),
                                      "mu_chi_eff": uni(-0.5, 0.5), "sigma_chi_eff": uni(0.1, 1)}),
        how=st.sampled_from(["distance", "distance", "redshift"]),
        source_mass=st.booleans(),
        seed=seeds(),
        backend=BACKENDS,
    ),
    quick=700,
)
def model_probability(case):
    """prob = source-frame models at the converted data over the Jacobian, in any history."""
    backend = case["backend"]
    backends.use(backend)
    from gwpopulation.experimental.cosmo_models import CosmoModel
    from gwpopulation.models import mass, redshift, spin

    name = case["cosmology"]["name"]
    table = dict(
        mass=(lambda: mass.power_law_primary_mass_ratio, ["alpha", "beta", "mmin", "mmax"]),
        redshift=(lambda: redshift.PowerLawRedshift(z_max=3.0, cosmo_model=name), ["lamb"]),
        user=(lambda: user_evolution, ["lamb"]),
        spin=(lambda: spin.gaussian_chi_eff, ["mu_chi_eff", "sigma_chi_eff"]),
    )
    with library("construction"):
        model = CosmoModel([table[p][0]() for p in case["pieces"]], cosmo_model=name)
    rng = rng_of(case["seed"])
    z = rng.uniform(0.02, 2.5, (2, 5))
    if case["far"]:
        z[:, ::2] = np.exp(rng.uniform(np.log(0.001), np.log(40), (2, 3)))
    first = oracle.cosmology_of(name, free_params(name, case["cosmology"]["start"]))
    data = dict(chi_eff=rng.uniform(-1, 1, (2, 5)), mass_ratio=rng.uniform(0.2, 1, (2, 5)))
    m1 = rng.uniform(8, 70, (2, 5))
    if case["source_mass"]:
        data["mass_1"] = m1
    else:
        data["mass_1_detector"] = m1 * (1 + z)
    if case["how"] == "distance":
        data["luminosity_distance"] = first.luminosity_distance(z)
    else:
        data["redshift"] = z
    given = backends.data(data, backend)
    before = snapshot(given)
    results = []
    history = cosmologies(case["cosmology"])
    for values in history + history[:1]:
        cosmo = free_params(name, values)
        params = {**case["params"], **cosmo}
        with library("CosmoModel.prob"):
            got = np.asarray(model.prob(given, **params))
        unchanged(before, given, "data")
        results.append(got)
        reference = oracle.cosmology_of(name, cosmo)
        with library("detector_frame_to_source_frame"):
            source, _ = cosmo_instance("mixin", name).detector_frame_to_source_frame(given, **cosmo)
        zz = np.asarray(source["redshift"])
        jac = reference.ddl_dz(zz) if case["how"] == "distance" else np.ones(zz.shape)
        if not case["source_mass"]:
            jac = jac * (1 + zz)
        want = 1.0 / jac
        source = {k: backends.arr(np.asarray(v), backend) for k, v in source.items()}
        for piece in case["pieces"]:
            build, names = table[piece]
            own = {k: params[k] for k in names}
            if piece == "redshift":
                own.update(cosmo)
            with library(piece):
                want = want * np.asarray(build()(source, **own))
        close(got, want, "probability in the detector frame", rtol=2e-6, atol=1e-250)
    close(results[-1], results[0], "same cosmology after others", rtol=1e-12, atol=1e-250)
    return len(history) > 1, [name, case["how"], *case["pieces"]]


@suite.check(
    record(
        cosmology=FREE, lamb=uni(-3, 4), z_max=loguni(0.3, 4), backend=BACKENDS,
        kind=st.sampled_from(["distance", "mass"]),
        params=st.fixed_dictionaries(scenario.MASS_PARAMS), z0=uni(0.05, 2),
    ),
    quick=250,
)
def transformed_density(case):
    """The detector-frame density integrates to one over the detector-frame quantity."""
    backend = case["backend"]
    backends.use(backend)
    from gwpopulation.experimental.cosmo_models import CosmoModel
    from gwpopulation.models import mass, redshift

    name = case["cosmology"]["name"]
    cosmo = free_params(name, case["cosmology"]["start"])
    reference = oracle.cosmology_of(name, cosmo)
    if case["kind"] == "distance":
        with library("construction"):
            model = CosmoModel(
                [redshift.PowerLawRedshift(z_max=case["z_max"], cosmo_model=name)],
                cosmo_model=name)
        # points in redshift, weights in distance
        z, w = oracle.gl_points(np.linspace(5e-3, case["z_max"] * 0.9999, 9), nodes=16)
        dist = reference.luminosity_distance(z)
        with library("CosmoModel.prob"):
            got = np.asarray(model.prob(
                backends.data(dict(luminosity_distance=dist), backend), lamb=case["lamb"], **cosmo))
        total = np.sum(got * w * reference.ddl_dz(z))
        close(total, np.float64(1.0), "integral over the distance", rtol=5e-3)
        return True, [name, "distance"]
    p = case["params"]

    def one_dimensional(dataset, alpha, mmin, mmax):
        return mass.power_law_mass(dataset["mass_1"], alpha=alpha, mmin=mmin, mmax=mmax)

    with library("construction"):
        model = CosmoModel([one_dimensional], cosmo_model=name)
    lo, hi = p["mmin"] * (1 + case["z0"]), p["mmax"] * (1 + case["z0"])
    x, w = oracle.gl_points(np.exp(np.linspace(np.log(lo), np.log(hi), 9)), nodes=24)
    data = dict(mass_1_detector=x, redshift=np.full(x.shape, case["z0"]))
    with library("CosmoModel.prob"):
        got = np.asarray(model.prob(backends.data(data, backend), **p, **cosmo))
    close(np.sum(got * w), np.float64(1.0), "integral over the detector-frame mass", rtol=1e-5)
    return True, [name, "mass"]
