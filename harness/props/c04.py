"""C04: redshift models."""

import numpy as np
from hypothesis import strategies as st

from .. import backends, catalog, oracle
from ..compare import close, nonnegative, scalar, zero
from ..core import Suite, library
from ..gen import history, loguni, mix, record, replay, rng_of, seeds, uni, weighted

suite = Suite(
    "C04",
    "Cosmologies (all named ones, and free H0/Om0/w0), maximum redshifts and evolution parameters "
    "are drawn; density, rate evolution, volume element, normalisation and total four-volume are "
    "compared with an independent quadrature of the flat wCDM distances. Non-trivial: at least two "
    "redshifts inside the range and a normalisation resolved by the model's grid.",
    [
        "reference cosmology in harness/oracle.py (quadrature), published values of the named "
        "cosmologies",
        "normalisation tolerance: three times the error of a 2500-point trapezoidal rule, plus "
        "1e-6",
        "domain: z > 0, z_max in [0.05, 15]",
    ],
)

BACKENDS = st.sampled_from(["numpy"] * 8 + ["jax"])
COSMOLOGY = st.one_of(
    st.sampled_from(catalog.FIXED_COSMOLOGIES).map(lambda n: dict(name=n, params={})),
    st.fixed_dictionaries(
        dict(name=st.just("FlatwCDM"), params=st.fixed_dictionaries(catalog.COSMO))
    ),
    st.fixed_dictionaries(
        dict(
            name=st.just("FlatLambdaCDM"),
            params=st.fixed_dictionaries({k: catalog.COSMO[k] for k in ("H0", "Om0")}),
        )
    ),
)
NEIGHBOUR = weighted(st.just(None), st.just(None), record(
    z_max=loguni(0.2, 8), name=st.sampled_from(["same", "same", "Planck15", "FlatwCDM"])))
ZMAX = mix(loguni(0.05, 15), 2.3, 1, 1.9, 10)


def case_of(**extra):
    return st.one_of(
        [
            record(
                model=st.just(s.name),
                params=st.fixed_dictionaries(s.params),
                cosmology=COSMOLOGY,
                z_max=ZMAX,
                default=st.booleans(),
                seed=seeds(),
                backend=BACKENDS,
                history=history(st.fixed_dictionaries({**s.params, **catalog.COSMO})),
                neighbour=NEIGHBOUR,
                **extra,
            )
            for s in catalog.REDSHIFT
        ]
    )


def psi(case, z):
    p = case["params"]
    if "lamb" in p:
        return (1 + np.asarray(z)) ** p["lamb"]
    return oracle.madau(z, **p)


def setup(case):
    """Model, parameters, maximum redshift, reference cosmology."""
    backends.use(case["backend"])
    cosmology, z_max = case["cosmology"], case["z_max"]
    kwargs = dict(z_max=z_max, cosmo_model=cosmology["name"])
    if case["default"] and cosmology["name"] == "Planck15":
        kwargs.pop("cosmo_model")
    if case["default"] and z_max == 2.3:
        kwargs.pop("z_max")
    with library("construction"):
        model = catalog.MODELS[case["model"]].build(**kwargs)
    reference = oracle.cosmology_of(cosmology["name"], cosmology["params"])
    return model, {**case["params"], **cosmology["params"]}, reference


def use(case, model, data, params):
    """Earlier evaluations: of the model with other hyperparameters, of another instance."""
    def call(p):
        model(data, **p)
        model.normalisation(p)

    replay(case["history"], params, call)
    other = case["neighbour"]
    if other is not None:
        name = case["cosmology"]["name"] if other["name"] == "same" else other["name"]
        own = case["params"]
        if name.startswith("Flat"):
            own = {**catalog.FIDUCIAL_COSMOLOGY, **params}
            if name == "FlatLambdaCDM":
                own.pop("w0", None)
        with library("another instance"):
            build = catalog.MODELS[case["model"]].build
            build(z_max=other["z_max"], cosmo_model=name)(data, **own)


def weight(case, reference, z):
    return reference.dvc_dz(z) / (1 + z) * psi(case, z)


def exact_norm(func, z_max):
    xs, ws = oracle.gl_points(np.linspace(0, z_max, 33), nodes=32)
    exact = np.sum(func(xs) * ws)
    grid = np.linspace(1e-6, z_max, 2500)
    return exact, abs(np.trapezoid(func(grid), grid) / exact - 1)


@suite.check(case_of(), quick=1600)
def density(case):
    model, params, reference = setup(case)
    rng = rng_of(case["seed"])
    z_max = case["z_max"]
    z = rng.uniform(1e-3 * z_max, 1.3 * z_max, 14)
    z[:4] = z_max * 1.0001, z_max * 0.9999, 1e-3 * z_max, z_max
    data = backends.data(dict(redshift=z), case["backend"])
    use(case, model, data, params)
    with library(case["model"]):
        got = np.asarray(model(data, **params))
        norm = model.normalisation(params)
        diff = np.asarray(model.differential_spacetime_volume(data, **params))
        evolution = np.asarray(model.psi_of_z(data["redshift"], **params))
        local = np.asarray(
            model.psi_of_z(backends.arr([0.0], case["backend"]), **params)
        )
        volume = np.asarray(model.dvc_dz(data["redshift"], **params))
    total, err = exact_norm(lambda x: weight(case, reference, x), z_max)
    want = weight(case, reference, z)
    rtol = 1e-7
    close(evolution, psi(case, z), "rate evolution", rtol=rtol)
    close(local, [1.0], "rate evolution at z = 0", rtol=1e-9)
    close(volume, reference.dvc_dz(z), "volume element", rtol=rtol)
    close(diff, want, "differential spacetime volume", rtol=rtol)
    zero(got, z > z_max, "density beyond the maximum redshift")
    nonnegative(got, "density")
    inside = np.where(z <= z_max, want, 0)
    tol = 1e-6 + 3 * err
    close(scalar(norm, "normalisation"), total, "normalisation", rtol=tol)
    close(got, inside / total, "density", rtol=tol)
    ref = 1
    close(got / got[ref], inside / inside[ref], "density shape", rtol=rtol)
    return np.sum(inside > 0) >= 2 and err < 0.1, [case["cosmology"]["name"], case["model"]]


@suite.check(case_of(bounded=st.booleans()), quick=400)
def integral_of_density(case):
    """The density itself integrates to one."""
    model, params, reference = setup(case)
    xs, ws = oracle.gl_points(np.linspace(0, case["z_max"], 17), nodes=24)
    data = backends.data(dict(redshift=xs), case["backend"])
    use(case, model, data, params)
    with library(case["model"]):
        got = np.asarray(model(data, **params))
    _, err = exact_norm(lambda x: weight(case, reference, x), case["z_max"])
    close(np.sum(got * ws), 1.0, "integral of the density", rtol=1e-6 + 3 * err)
    return err < 0.1, [case["model"]]


@suite.check(
    record(
        lamb=mix(uni(-6, 8), 0, 1, 2.7),
        time=mix(loguni(1e-3, 1e2), 1),
        z_max=ZMAX,
        default=st.booleans(),
        backend=BACKENDS,
        before=weighted(st.just(None), record(lamb=uni(-6, 8), time=loguni(1e-2, 10),
                                              z_max=ZMAX, same=st.integers(0, 7))),
    ),
    quick=500,
)
def four_volume(case):
    backends.use(case["backend"])
    from gwpopulation.models.redshift import total_four_volume

    z_max = 2.3 if case["default"] else case["z_max"]
    kwargs = {} if case["default"] else dict(max_redshift=z_max)
    before = case["before"]
    if before is not None:  # an earlier call, some of whose arguments are the same
        same = before["same"]
        with library("total_four_volume"):
            total_four_volume(
                case["lamb"] if same & 1 else before["lamb"],
                case["time"] if same & 2 else before["time"],
                max_redshift=z_max if same & 4 else before["z_max"])
    with library("total_four_volume"):
        got = total_four_volume(case["lamb"], case["time"], **kwargs)
    reference = oracle.cosmology_of("Planck15")

    def func(z):
        return reference.dvc_dz(z) * (1 + z) ** (case["lamb"] - 1)

    total, err = exact_norm(func, z_max)
    close(
        scalar(got, "four-volume"), total / 1e9 * case["time"], "four-volume",
        rtol=1e-6 + 3 * err,
    )
    return True, ["default z" if case["default"] else "own z"]
