"""
The population models under test: for each, how to build it, generators for its
hyperparameters and data, and (where a closed form exists) the reference density.
"""

import numpy as np
from hypothesis import strategies as st

from . import oracle
from .gen import inner, loguni, mix, near, record, uni, weighted

# -- hyperparameter generators ------------------------------------------------

slope = near(uni(-4, 9), 1, 0, -1, 2, 3.5)
beta_q = near(uni(-4, 7), -1, 0, 1, 2)
fraction = mix(uni(0, 1), 0, 1, 0.5)
peak = mix(uni(12, 60), 1.0, 130.0)
width = mix(loguni(0.4, 20), 1, 5)
low_mass = mix(uni(2.1, 9), 5)
high_mass = mix(uni(35, 99), 80)

MASS = dict(alpha=slope, mmin=low_mass, mmax=high_mass)
PEAK = dict(lam=fraction, mpp=peak, sigpp=width)
TWO_PEAKS = dict(
    lam=fraction, lam_1=fraction, mpp_1=peak, sigpp_1=width, mpp_2=peak, sigpp_2=width
)
BROKEN = dict(
    alpha_1=slope,
    alpha_2=slope,
    mmin=low_mass,
    mmax=high_mass,
    break_fraction=mix(inner(0.03, 0.97), 0.5),
)
DELTA = dict(delta_m=weighted(*[mix(uni(0.05, 12), 0, 4)] * 6, loguni(1e-4, 0.1)))
BETA = dict(beta=beta_q)

TILT = mix(uni(-1, 1), 1, 0)
SPIN_SHAPE = mix(loguni(0.4, 30), 1, 2)
AMAX = mix(uni(0.3, 1), 1, 0.8)

COSMO = dict(H0=uni(40, 110), Om0=mix(uni(0.05, 0.95), 0.3), w0=near(uni(-1.8, -0.4), -1))
FIDUCIAL_COSMOLOGY = dict(H0=70.0, Om0=0.3, w0=-1.0)
FIXED_COSMOLOGIES = [
    "Planck15", "Planck15_LAL", "WMAP1", "WMAP3", "WMAP5", "WMAP7", "WMAP9",
    "Planck13", "Planck18",
]


# -- data generators ----------------------------------------------------------


def masses(rng, shape):
    n = int(np.prod(shape)) if shape else 1
    m1 = np.exp(rng.uniform(np.log(2.2), np.log(97), n))
    return m1


def mass_ratio_data(rng, shape):
    """Primary mass and mass ratio; some outside of every model's support."""
    m1 = masses(rng, shape)
    q = rng.uniform(0.02, 1, m1.size)
    if m1.size >= 6:
        q[0] = 1.0
        m1[1] = rng.uniform(0.5, 2.0)
        m1[2] = rng.uniform(100.5, 150)
        q[3] = rng.uniform(0.001, 0.03)
        q[4] = rng.uniform(1.001, 1.5)
    return dict(mass_1=m1.reshape(shape), mass_ratio=q.reshape(shape))


def component_data(rng, shape):
    m1 = masses(rng, shape)
    m2 = m1 * rng.uniform(0.02, 1, m1.size)
    if m1.size >= 6:
        m2[0] = m1[0]
        m2[1] = m1[1] * rng.uniform(1.001, 1.5)
        m1[2] = rng.uniform(100.5, 150)
        m2[3] = rng.uniform(0.5, 2.0)
    return dict(mass_1=m1.reshape(shape), mass_2=m2.reshape(shape))


def single_mass_data(rng, shape):
    m1 = masses(rng, shape)
    if m1.size >= 6:
        m1[1] = rng.uniform(0.5, 2.0)
        m1[2] = rng.uniform(100.5, 150)
    return dict(mass=m1.reshape(shape))


def magnitude_data(rng, shape):
    a1, a2 = rng.uniform(1e-4, 1, (2, *shape))
    return dict(a_1=a1, a_2=a2)


def tilt_data(rng, shape):
    c1, c2 = rng.uniform(-1, 1, (2, *shape))
    return dict(cos_tilt_1=c1, cos_tilt_2=c2)


def spin_data(rng, shape):
    return {**magnitude_data(rng, shape), **tilt_data(rng, shape)}


def chi_data(rng, shape):
    e = rng.uniform(-1.05, 1.05, shape)
    p = rng.uniform(-0.05, 1.05, shape)
    return dict(chi_eff=np.asarray(e), chi_p=np.asarray(p))


def redshift_data(rng, shape):
    z = rng.uniform(1e-3, 2.6, shape)
    return dict(redshift=np.asarray(z))


# -- reference joint densities -------------------------------------------------


def conditional_q(d, beta, mmin):
    with np.errstate(all="ignore"):
        return oracle.powerlaw(d["mass_ratio"], beta, 1.0, mmin / d["mass_1"])


def ref_power_law_ratio(d, alpha, beta, mmin, mmax):
    return oracle.powerlaw(d["mass_1"], -alpha, mmax, mmin) * conditional_q(d, beta, mmin)


def ref_two_component_ratio(d, beta, **p):
    return oracle.two_component(d["mass_1"], **p) * conditional_q(d, beta, p["mmin"])


def ref_double_ratio(d, beta, **p):
    return oracle.broken_powerlaw(d["mass_1"], **p) * conditional_q(d, beta, p["mmin"])


def _ordered(d, p1, p2):
    return 2 * p1 * p2 * (d["mass_1"] >= d["mass_2"])


def ref_pl_independent(d, alpha, beta, mmin, mmax):
    return _ordered(
        d,
        oracle.powerlaw(d["mass_1"], -alpha, mmax, mmin),
        oracle.powerlaw(d["mass_2"], -beta, mmax, mmin),
    )


def ref_pl_identical(d, alpha, mmin, mmax):
    return ref_pl_independent(d, alpha, alpha, mmin, mmax)


def ref_tc_independent(d, alpha, beta, **p):
    return _ordered(
        d,
        oracle.two_component(d["mass_1"], alpha=alpha, **p),
        oracle.two_component(d["mass_2"], alpha=beta, **p),
    )


def ref_tc_identical(d, alpha, **p):
    return ref_tc_independent(d, alpha, alpha, **p)


def ref_magnitude(d, amax, alpha_chi, beta_chi):
    return oracle.beta(d["a_1"], alpha_chi, beta_chi, amax) * oracle.beta(
        d["a_2"], alpha_chi, beta_chi, amax
    )


def ref_ind_magnitude(d, alpha_chi_1, alpha_chi_2, beta_chi_1, beta_chi_2, amax_1, amax_2):
    return oracle.beta(d["a_1"], alpha_chi_1, beta_chi_1, amax_1) * oracle.beta(
        d["a_2"], alpha_chi_2, beta_chi_2, amax_2
    )


def ref_ind_tilt(d, xi_spin, sigma_1, sigma_2, mu_1=1.0, mu_2=1.0):
    return (1 - xi_spin) / 4 + xi_spin * oracle.truncnorm(
        d["cos_tilt_1"], mu_1, sigma_1, 1, -1
    ) * oracle.truncnorm(d["cos_tilt_2"], mu_2, sigma_2, 1, -1)


def ref_tilt(d, xi_spin, sigma_spin, mu_spin=1.0):
    return ref_ind_tilt(d, xi_spin, sigma_spin, sigma_spin, mu_spin, mu_spin)


def ref_iid_spin(d, xi_spin, sigma_spin, amax, alpha_chi, beta_chi):
    return ref_tilt(d, xi_spin, sigma_spin) * ref_magnitude(d, amax, alpha_chi, beta_chi)


# -- the table ----------------------------------------------------------------


class Spec:
    def __init__(
        self, name, module, params, data, reference=None, optional=None, config=None,
        grid=False, instance=False, cached=False, argument="dataset",
    ):
        self.name = name
        self.module = module  # mass / spin / redshift
        self.params = params  # dict of strategies
        self.optional = optional or {}
        self.data = data
        self.reference = reference
        self.config = config or {}
        self.grid = grid  # normalised on a grid of its own
        self.instance = instance  # a class that has to be instantiated
        self.cached = cached  # remembers the data of its first call
        self.argument = argument

    def build(self, **config):
        import gwpopulation.models as models

        obj = getattr(getattr(models, self.module), self.name)
        return obj(**config) if self.instance else obj

    def strategy(self):
        return st.fixed_dictionaries(self.params)

    def make_data(self, rng, shape):
        return self.data(rng, tuple(shape))


def _single(ref):
    return lambda d, **p: ref(d["mass"], **p)


FUNCTIONS = [
    Spec("power_law_mass", "mass", MASS, single_mass_data,
         _single(lambda m, alpha, mmin, mmax: oracle.powerlaw(m, -alpha, mmax, mmin)),
         argument="mass"),
    Spec("two_component_single", "mass", {**MASS, **PEAK}, single_mass_data,
         _single(oracle.two_component), argument="mass",
         optional=dict(gaussian_mass_maximum=mix(uni(62, 160), 100))),
    Spec("three_component_single", "mass", {**MASS, **TWO_PEAKS}, single_mass_data,
         _single(oracle.three_component), argument="mass",
         optional=dict(gaussian_mass_maximum=mix(uni(62, 160), 100))),
    Spec("double_power_law_primary_mass", "mass", BROKEN, single_mass_data,
         _single(oracle.broken_powerlaw), argument="mass"),
    Spec("double_power_law_peak_primary_mass", "mass", {**BROKEN, **PEAK},
         single_mass_data, _single(oracle.broken_peak), argument="mass",
         optional=dict(gaussian_mass_maximum=mix(uni(62, 160), 100))),
    Spec("power_law_primary_mass_ratio", "mass", {**MASS, **BETA}, mass_ratio_data,
         ref_power_law_ratio),
    Spec("two_component_primary_mass_ratio", "mass", {**MASS, **BETA, **PEAK},
         mass_ratio_data, ref_two_component_ratio,
         optional=dict(gaussian_mass_maximum=mix(uni(62, 160), 100))),
    Spec("double_power_law_primary_power_law_mass_ratio", "mass", {**BROKEN, **BETA},
         mass_ratio_data, ref_double_ratio),
    Spec("power_law_primary_secondary_independent", "mass", {**MASS, "beta": slope},
         component_data, ref_pl_independent),
    Spec("power_law_primary_secondary_identical", "mass", MASS, component_data,
         ref_pl_identical),
    Spec("two_component_primary_secondary_independent", "mass",
         {**MASS, "beta": slope, **PEAK}, component_data, ref_tc_independent,
         optional=dict(gaussian_mass_maximum=mix(uni(62, 160), 100))),
    Spec("two_component_primary_secondary_identical", "mass", {**MASS, **PEAK},
         component_data, ref_tc_identical,
         optional=dict(gaussian_mass_maximum=mix(uni(62, 160), 100))),
    Spec("iid_spin", "spin",
         dict(xi_spin=fraction, sigma_spin=mix(loguni(0.1, 8), 1), amax=AMAX,
              alpha_chi=SPIN_SHAPE, beta_chi=SPIN_SHAPE),
         spin_data, ref_iid_spin),
    Spec("iid_spin_magnitude_beta", "spin",
         dict(amax=AMAX, alpha_chi=SPIN_SHAPE, beta_chi=SPIN_SHAPE), magnitude_data,
         ref_magnitude),
    Spec("independent_spin_magnitude_beta", "spin",
         dict(alpha_chi_1=SPIN_SHAPE, alpha_chi_2=SPIN_SHAPE, beta_chi_1=SPIN_SHAPE,
              beta_chi_2=SPIN_SHAPE, amax_1=AMAX, amax_2=AMAX),
         magnitude_data, ref_ind_magnitude),
    Spec("iid_spin_orientation_gaussian_isotropic", "spin",
         dict(xi_spin=fraction, sigma_spin=mix(loguni(0.1, 8), 1)), tilt_data, ref_tilt,
         optional=dict(mu_spin=mix(uni(-1.5, 1.5), 0, 1))),
    Spec("independent_spin_orientation_gaussian_isotropic", "spin",
         dict(xi_spin=fraction, sigma_1=mix(loguni(0.1, 8), 1),
              sigma_2=mix(loguni(0.1, 8), 1)), tilt_data, ref_ind_tilt,
         optional=dict(mu_1=mix(uni(-1.5, 1.5), 0, 1), mu_2=mix(uni(-1.5, 1.5), 0, 1))),
    Spec("gaussian_chi_eff", "spin",
         dict(mu_chi_eff=mix(uni(-1.5, 1.5), 0, 1), sigma_chi_eff=mix(loguni(0.05, 8), 1)),
         chi_data,
         lambda d, mu_chi_eff, sigma_chi_eff: oracle.truncnorm(
             d["chi_eff"], mu_chi_eff, sigma_chi_eff, 1, -1)),
    Spec("gaussian_chi_p", "spin",
         dict(mu_chi_p=mix(uni(-0.5, 1.5), 0, 1), sigma_chi_p=mix(loguni(0.05, 8), 1)),
         chi_data,
         lambda d, mu_chi_p, sigma_chi_p: oracle.truncnorm(
             d["chi_p"], mu_chi_p, sigma_chi_p, 1, 0)),
]

CHI = dict(
    mu_chi_eff=uni(-1, 1), sigma_chi_eff=mix(loguni(0.1, 4), 1),
    mu_chi_p=uni(0, 1), sigma_chi_p=mix(loguni(0.1, 4), 1),
    spin_covariance=near(uni(-0.9, 0.9), 0, 0.5, -0.5),
)

SMOOTHED = [
    Spec("SinglePeakSmoothedMassDistribution", "mass", {**MASS, **BETA, **PEAK, **DELTA},
         mass_ratio_data, instance=True, grid=True, cached=True),
    Spec("MultiPeakSmoothedMassDistribution", "mass",
         {**MASS, **BETA, **TWO_PEAKS, **DELTA}, mass_ratio_data, instance=True,
         grid=True, cached=True),
    Spec("BrokenPowerLawSmoothedMassDistribution", "mass", {**BROKEN, **BETA, **DELTA},
         mass_ratio_data, instance=True, grid=True, cached=True),
    Spec("BrokenPowerLawPeakSmoothedMassDistribution", "mass",
         {**BROKEN, **BETA, **PEAK, **DELTA}, mass_ratio_data, instance=True, grid=True,
         cached=True),
]

BASE_OF = {
    "SinglePeakSmoothedMassDistribution": (oracle.two_component, True),
    "MultiPeakSmoothedMassDistribution": (oracle.three_component, True),
    "BrokenPowerLawSmoothedMassDistribution": (oracle.broken_powerlaw, False),
    "BrokenPowerLawPeakSmoothedMassDistribution": (oracle.broken_peak, True),
}

REDSHIFT = [
    Spec("PowerLawRedshift", "redshift", dict(lamb=near(uni(-6, 8), 0, 1, 2.7)),
         redshift_data, instance=True, grid=True),
    Spec("MadauDickinsonRedshift", "redshift",
         dict(gamma=near(uni(-3, 8), 2.7, 0), kappa=near(uni(-3, 9), 5.6, 0),
              z_peak=mix(uni(0.05, 4), 1.9)),
         redshift_data, instance=True, grid=True),
]

CHI_MODEL = Spec("GaussianChiEffChiP", "spin", CHI, chi_data, instance=True, grid=True)


def spline_params(base, n, lo, hi, regularize=False, log=False):
    """Hyperparameters of a spline model with n regularly spaced nodes over [lo, hi]."""

    def make(values):
        if log:
            nodes = np.exp(np.linspace(np.log(lo), np.log(hi), n))
            nodes[0], nodes[-1] = lo, hi
        else:
            nodes = np.linspace(lo, hi, n)
        out = {f"{base}{ii}": float(nodes[ii]) for ii in range(n)}
        out.update({f"f{base}{ii}": float(values[ii]) for ii in range(n)})
        if regularize:
            out[f"rms{base}"] = float(values[n])
        return out

    vals = [mix(uni(-3, 3), 0, 1) for _ in range(n)]
    if regularize:
        vals.append(loguni(0.1, 3))
    return st.tuples(*vals).map(make)


MODELS = {s.name: s for s in FUNCTIONS + SMOOTHED + REDSHIFT + [CHI_MODEL]}


def call(spec, model, dataset, params):
    """Evaluate a model; one-dimensional mass functions take the mass array itself."""
    if spec.argument == "mass":
        return model(dataset["mass"], **params)
    return model(dataset, **params)


def with_optional(spec):
    """Hyperparameters, each optional one present or absent."""
    return st.fixed_dictionaries(spec.params, optional=spec.optional)


__all__ = [n for n in dir() if not n.startswith("_")]
_ = record
