"""
Every population model in a drawn configuration behind one interface, for the checks that
concern all models alike (purity, shapes, declared names).
"""

import numpy as np
from hypothesis import strategies as st

from . import backends, catalog
from .core import library
from .gen import loguni, mix, record, uni

SPLINES = {
    "SplineSpinMagnitudeIdentical": (["a_1", "a_2"], "a", 0.0, 1.0),
    "SplineSpinTiltIdentical": (["cos_tilt_1", "cos_tilt_2"], "cos_tilt", -1.0, 1.0),
    "spline pair": (["spin_1", "spin_2"], "spin", 0.5, 7.0),
    "spline single": (["chi_eff"], "chi_eff", -1.0, 1.0),
    "spline log": (["mass_1", "mass_2"], "mass", 2.0, 100.0),
}
SMOOTHED = [s.name for s in catalog.SMOOTHED]
REDSHIFT = [s.name for s in catalog.REDSHIFT]
FUNCTIONS = [s.name for s in catalog.FUNCTIONS]
KINDS = (
    FUNCTIONS + SMOOTHED + REDSHIFT
    + ["GaussianChiEffChiP", "InterpolatedPowerlaw", "CosmoModel", "custom smoothed"]
    + sorted(SPLINES)
)
COSMOLOGIES = st.sampled_from(
    catalog.FIXED_COSMOLOGIES[:3] + ["FlatLambdaCDM", "FlatwCDM", "FlatwCDM"]
)
FREE = {"FlatLambdaCDM": ["H0", "Om0"], "FlatwCDM": ["H0", "Om0", "w0"]}


def values(n):
    return [mix(uni(-3, 3), 0, 1) for _ in range(n)]


def spline_names(base, n, regularize):
    return ([f"{base}{ii}" for ii in range(n)] + [f"f{base}{ii}" for ii in range(n)]
            + ([f"rms{base}"] if regularize else []))


def _spline_params(base, n, regularize, lo, hi, log):
    nodes = np.exp(np.linspace(np.log(lo), np.log(hi), n)) if log else np.linspace(lo, hi, n)
    nodes[0], nodes[-1] = lo, hi
    out = {f"{base}{ii}": st.just(float(nodes[ii])) for ii in range(n)}
    out.update({f"f{base}{ii}": mix(uni(-3, 3), 0.5, 1) for ii in range(n)})
    if regularize:
        out[f"rms{base}"] = loguni(0.1, 3)
    return out


def cosmo_params(name):
    return {k: catalog.COSMO[k] for k in FREE.get(name, [])}


def _power(dataset, slope):
    """A user-written primary mass model."""
    return 1.0 / dataset**slope


def _configs(kind):
    """Strategy of configurations (JSON)."""
    if kind in SMOOTHED or kind == "custom smoothed":
        return record(
            normalization_shape=st.sampled_from([[120, 60], [80, 50]]),
            cache=st.booleans(),
            mmin=st.sampled_from([2.0, 2.0, 1.5]), mmax=st.sampled_from([100.0, 100.0, 130.0]),
        )
    if kind in REDSHIFT:
        return record(z_max=mix(uni(0.5, 4), 2.3), cosmo_model=COSMOLOGIES)
    if kind == "InterpolatedPowerlaw":
        return record(nodes=st.integers(4, 9), kind=st.sampled_from(["cubic", "linear"]),
                      regularize=st.booleans(), normalization_shape=st.just([120, 60]))
    if kind in SPLINES:
        return record(nodes=st.integers(4, 9), kind=st.sampled_from(["cubic", "linear"]),
                      regularize=st.booleans())
    if kind == "CosmoModel":
        return record(cosmo_model=COSMOLOGIES)
    return st.just({})


def params_of(kind, config):
    """The hyperparameters (name -> strategy) the configured model needs."""
    if kind in SPLINES:
        _, base, lo, hi = SPLINES[kind]
        return _spline_params(base, config["nodes"], config["regularize"], lo, hi,
                              kind == "spline log")
    if kind == "InterpolatedPowerlaw":
        return {**catalog.MASS, **catalog.BETA, **catalog.DELTA,
                **_spline_params("mass", config["nodes"], config["regularize"], 2.0, 100.0, True)}
    if kind == "CosmoModel":
        return {"lamb": uni(-3, 5), **catalog.MASS, **catalog.BETA,
                **cosmo_params(config["cosmo_model"])}
    if kind == "custom smoothed":
        return {"slope": uni(0, 4), "mmin": catalog.low_mass, **catalog.BETA, **catalog.DELTA}
    params = dict(catalog.MODELS[kind].params)
    if kind in REDSHIFT:
        params.update(cosmo_params(config["cosmo_model"]))
    return params


def optional_of(kind):
    return catalog.MODELS[kind].optional if kind in catalog.MODELS else {}


def models(kinds=None, n_params=1):
    """Cases dict(kind, config, params=[...])."""

    def with_config(kind):
        return _configs(kind).flatmap(lambda config: record(
            kind=st.just(kind), config=st.just(config),
            params=st.lists(
                st.fixed_dictionaries(params_of(kind, config), optional=optional_of(kind)),
                min_size=n_params, max_size=n_params),
        ))

    return st.sampled_from(list(kinds or KINDS)).flatmap(with_config)


def custom_smoothed():
    from gwpopulation.models.mass import BaseSmoothedMassDistribution

    class Custom(BaseSmoothedMassDistribution):
        def primary_model(mass, slope, mmin):
            return 1.0 / mass**slope * (mass >= mmin)

    return Custom


def build(case):
    """A new instance (or the function itself)."""
    kind, config = case["kind"], dict(case["config"])
    if "normalization_shape" in config:
        config["normalization_shape"] = tuple(config["normalization_shape"])
    import gwpopulation.models as models
    from gwpopulation.experimental.cosmo_models import CosmoModel
    from gwpopulation.models.interped import InterpolatedNoBaseModelIdentical

    with library(f"construction of {kind}"):
        if kind == "custom smoothed":
            return custom_smoothed()(**config)
        if kind == "InterpolatedPowerlaw":
            return models.mass.InterpolatedPowerlaw(**config)
        if kind == "CosmoModel":
            return CosmoModel([
                models.mass.power_law_primary_mass_ratio,
                models.redshift.PowerLawRedshift(cosmo_model=config["cosmo_model"], z_max=3.0),
            ], cosmo_model=config["cosmo_model"])
        if kind in SPLINES:
            if kind.startswith("spline"):
                names, _, lo, hi = SPLINES[kind]
                return InterpolatedNoBaseModelIdentical(
                    parameters=list(names), minimum=lo, maximum=hi,
                    log_nodes=kind == "spline log", **config)
            return getattr(models.spin, kind)(**config)
        return catalog.MODELS[kind].build(**config)


def data(case, rng, shape):
    kind = case["kind"]
    if kind in SPLINES:
        names, _, lo, hi = SPLINES[kind]
        return {n: np.asarray(rng.uniform(lo - 0.05 * (hi - lo) * (lo < 0), hi * 1.03, shape))
                for n in names}
    if kind in ("InterpolatedPowerlaw", "custom smoothed"):
        out = catalog.mass_ratio_data(rng, tuple(shape))
        if kind == "custom smoothed":
            out["mass_1"] = np.clip(out["mass_1"], 2.1, None)
        return out
    if kind == "CosmoModel":
        n = tuple(shape)
        return dict(
            mass_1_detector=np.asarray(rng.uniform(8, 120, n)),
            mass_ratio=np.asarray(rng.uniform(0.1, 1, n)),
            luminosity_distance=np.asarray(rng.uniform(100, 12000, n)),
        )
    return catalog.MODELS[kind].make_data(rng, shape)


def keys(case):
    return list(data(case, np.random.default_rng(0), (1,)))


def evaluate(case, model, dataset, params):
    """As a user would: models take a dataset, mass functions the mass."""
    with library(case["kind"]):
        return raw(case, model, dataset, params)


def raw(case, model, dataset, params):
    if case["kind"] == "CosmoModel":
        return model.prob(dataset, **params)
    spec = catalog.MODELS.get(case["kind"])
    if spec is not None and spec.argument == "mass":
        return model(dataset["mass"], **params)
    return model(dataset, **params)


def caches_data(case):
    """Models that remember the data (or node positions) of the first call."""
    return case["kind"] in SPLINES or case["kind"] == "InterpolatedPowerlaw" or (
        case["config"].get("cache", False) and "mmin" in case["config"])


def given(dataset, backend):
    return backends.data(dataset, backend)
