"""
Complete analyses: a catalogue of events, a population, a sampling prior, a selection
function and a parameter conversion, with the documented estimator as reference.
"""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from . import backends, catalog
from .core import library
from .gen import loguni, mix, record, rng_of, seeds, uni, weighted

# -- populations ----------------------------------------------------------------


def toy(dataset, mu, width):
    """A user-written population: a Cauchy curve, zero above mu + 3 (plain operators only)."""
    x = dataset["x"]
    return (1 / (1 + ((x - mu) / width) ** 2)) * (x <= mu + 3)


def toy_2(dataset, slope):
    return 1 + slope * dataset["y"] ** 2


class ToyClass:
    """A user-written model class with explicit variable names."""

    variable_names = ["tilt"]

    def __call__(self, dataset, **kwargs):
        return 2 / (2 + (kwargs["tilt"] * dataset["y"]) ** 2)


TOY = dict(mu=uni(-1, 1), width=loguni(0.2, 3))
TOY2 = dict(slope=uni(0, 5))
TOYC = dict(tilt=uni(-3, 3))


def _x(rng, n):
    return dict(x=rng.normal(0, 1.2, n))


def _y(rng, n):
    return dict(y=rng.uniform(-1, 1, n))


def _masses(rng, n):
    m1 = rng.uniform(10, 45, n)
    return dict(mass_1=m1, mass_ratio=rng.uniform(0.3, 1, n))


def _redshift(rng, n):
    return dict(redshift=rng.uniform(0.01, 2.2, n))


def _spins(rng, n):
    return dict(a_1=rng.uniform(0.01, 0.79, n), a_2=rng.uniform(0.01, 0.79, n))


def _chi(rng, n):
    return dict(chi_eff=rng.uniform(-0.8, 0.8, n))


class Piece:
    """One factor of the population: how to build it, its parameters and its data."""

    def __init__(self, name, build, params, data):
        self.name, self.build, self.params, self.data = name, build, params, data


def _spec(name, **config):
    return lambda: catalog.MODELS[name].build(**config)


MASS_PARAMS = dict(alpha=mix(uni(-2, 5), 1, 2.3), beta=mix(uni(-2, 4), -1, 0),
                   mmin=uni(2.5, 6), mmax=uni(50, 95))
PIECES = {
    p.name: p
    for p in [
        Piece("toy", lambda: toy, TOY, _x),
        Piece("toy 2", lambda: toy_2, TOY2, _y),
        Piece("toy class", ToyClass, TOYC, _y),
        Piece("power law", _spec("power_law_primary_mass_ratio"), MASS_PARAMS, _masses),
        Piece("peak", _spec("two_component_primary_mass_ratio"),
              {**MASS_PARAMS, "lam": uni(0, 1), "mpp": uni(20, 45), "sigpp": uni(2, 9),
               "gaussian_mass_maximum": uni(95, 120)}, _masses),
        Piece("smoothed", _spec("SinglePeakSmoothedMassDistribution",
                                normalization_shape=(150, 80)),
              {**MASS_PARAMS, "lam": uni(0, 1), "mpp": uni(20, 45), "sigpp": uni(2, 9),
               "delta_m": mix(uni(0.3, 6), 0)}, _masses),
        Piece("redshift", _spec("PowerLawRedshift"), dict(lamb=uni(-3, 5)), _redshift),
        Piece("redshift free", _spec("MadauDickinsonRedshift", cosmo_model="FlatLambdaCDM"),
              dict(gamma=uni(0, 4), kappa=uni(0, 7), z_peak=uni(0.5, 3), H0=uni(50, 90),
                   Om0=uni(0.1, 0.6)), _redshift),
        Piece("spin", _spec("iid_spin_magnitude_beta"),
              dict(amax=uni(0.8, 1), alpha_chi=uni(1, 5), beta_chi=uni(1, 5)), _spins),
        Piece("chi", _spec("gaussian_chi_eff"),
              dict(mu_chi_eff=uni(-0.5, 0.5), sigma_chi_eff=uni(0.2, 1)), _chi),
    ]
}
POPULATIONS = {
    "toy": ["toy"],
    "two toys": ["toy", "toy 2"],
    "toy and class": ["toy", "toy class"],
    "masses": ["power law"],
    "masses and redshift": ["power law", "redshift"],
    "all": ["peak", "redshift free", "spin"],
    "spin": ["spin", "chi"],
    "smoothed": ["smoothed", "redshift"],
}


def names_of(population):
    out = {}
    for piece in POPULATIONS[population]:
        out.update(PIECES[piece].params)
    return out


# -- conversions ------------------------------------------------------------------


def conversion_none(params):
    return params, None


def conversion_scale(params):
    """Sampled as half of the model's value."""
    params = params.copy()
    added = []
    for key in ("width", "lamb", "sigma_chi_eff", "beta"):
        if "half_" + key in params:
            params[key] = 2 * params.pop("half_" + key)
            added.append(key)
    return params, added


def conversion_inplace(params):
    """The same, done in the dictionary it is given."""
    converted, added = conversion_scale(params)
    params.clear()
    params.update(converted)
    return params, added


def conversion_rescale(params):
    """The same, under the same names."""
    params = dict(params)
    for key in ("width", "lamb", "sigma_chi_eff", "beta"):
        if key in params:
            params[key] = 2 * params[key]
    return params, None


def sampled(case):
    """The parameters as the sampler sees them."""
    return sampled_of(case, case["params"])


def sampled_of(case, params):
    out = dict(params)
    if case["conversion"] in ("scale", "inplace"):
        for key in ("width", "lamb", "sigma_chi_eff", "beta"):
            if key in out:
                out["half_" + key] = out.pop(key) / 2
    elif case["conversion"] == "rescale":
        for key in ("width", "lamb", "sigma_chi_eff", "beta"):
            if key in out:
                out[key] = out[key] / 2
    elif case["conversion"] == "beta" and "alpha_chi" in out:
        a, b, amax = out.pop("alpha_chi"), out.pop("beta_chi"), out["amax"]
        out["mu_chi"] = a / (a + b) * amax
        out["sigma_chi"] = a * b / ((a + b) ** 2 * (a + b + 1)) * amax**2
    if case.get("rate") is not None:
        out["rate"] = case["rate"]
    return out


# -- case generator ---------------------------------------------------------------


# a probability, or a sensitive volume in some unit
LEVEL = weighted(*[loguni(1e-3, 1)] * 3, loguni(1e-6, 1e4))
MANY = 13
# a user's own selection function may depend on one of the population's hyperparameters
OF = weighted(st.none(), st.integers(0, 20))


def level(case, params):
    sel = case["selection"]
    if sel.get("of") is None:
        return sel["value"]
    names = sorted(names_of(case["population"]))
    return sel["value"] / (1 + 0.01 * params[names[sel["of"] % len(names)]] ** 2)


def selection_strategy(kinds):
    options = {
        "none": record(kind=st.just("none")),
        "number": record(kind=st.just("number"), value=LEVEL, of=OF),
        "tuple": record(kind=st.just("tuple"), value=LEVEL, rel=loguni(1e-5, 0.05), of=OF),
        "injections": record(
            kind=st.just("injections"),
            found=weighted(*[st.integers(20, 200)] * 12, st.integers(900, 3000)),
            extra=mix(loguni(1, 1e4), 0, 1).map(int), n_events=st.booleans(),
            converge=st.booleans(), marginalise=st.sampled_from([False, False, True]),
            time=mix(loguni(0.01, 10), 1), with_total=st.booleans(),
        ),
        "grid": record(kind=st.just("grid"), n=st.integers(3, 7), flip=st.booleans()),
    }
    kinds = [k for k in kinds for _ in range(3 if k == "injections" else 1)]
    return weighted(*[options[k] for k in kinds])


def events_strategy(min_samples, min_events, max_events):
    """Number of posterior samples of each event; sometimes many events or long ones."""
    usual = st.lists(st.integers(min_samples, 30), min_size=min_events, max_size=max_events)
    if max_events <= 4:
        return usual
    many = st.lists(st.integers(min_samples, 12), min_size=10, max_size=MANY)
    long = st.lists(st.integers(150, 1300), min_size=min_events, max_size=min_events + 1)
    return weighted(*[usual] * 12, many, many, long)


def cases(
    populations=None, selections=("none", "number", "tuple", "injections", "grid"),
    classes=("Hyper", "Rate", "Null"), dead=False, backend=("numpy",), min_events=1,
    max_events=6, min_samples=2, conversions=("none", "none", "scale", "rescale", "beta"), **extra,
):
    populations = populations or sorted(POPULATIONS)

    def build(pop):
        kinds = [k for k in selections if k != "grid" or pop in GRID_POPULATIONS]
        return record(
            population=st.just(pop),
            params=st.fixed_dictionaries(names_of(pop)),
            events=events_strategy(min_samples, min_events, max_events),
            prior=st.sampled_from([True, True, True, True, False, False, "event", "all"]),
            max_samples=weighted(st.none(), st.none(), st.integers(min_samples, 14)),
            evidences=weighted(
                st.none(), st.just([0.0] * MANY),
                *[st.lists(mix(uni(-20, 5), 0, -7), min_size=MANY, max_size=MANY)] * 2),
            conversion=st.sampled_from(list(conversions)),
            selection=selection_strategy(kinds),
            cls=st.sampled_from(list(classes)),
            rate=loguni(0.1, 300),
            dead=st.booleans() if dead else st.just(False),
            seed=seeds(),
            backend=st.sampled_from(list(backend)),
            **extra,
        )

    return st.sampled_from(populations).flatmap(build).map(settle)


def settle(case):
    """jax compiles once per array shape: use few shapes under jax."""
    if case["backend"] == "jax":
        case = dict(case)
        n = len(case["events"])
        case["events"] = [12] * (1 if n == 1 else 3 if n < 5 else 5)
        if n > 1:
            case["events"][1] = 17
        if case["max_samples"] is not None:
            case["max_samples"] = 5
        if case["selection"]["kind"] == "injections":
            case["selection"] = dict(case["selection"], found=64)
        if case["selection"]["kind"] == "grid":
            case["selection"] = dict(case["selection"], n=4)
    return case


# -- building ---------------------------------------------------------------------


def models_of(population):
    with library("population model"):
        return [PIECES[p].build() for p in POPULATIONS[population]]


def draw(population, rng, n):
    out = {}
    for piece in POPULATIONS[population]:
        for key, value in PIECES[piece].data(rng, n).items():
            out.setdefault(key, value)
    return out


def dead_samples(data):
    """Move samples out of every model's support."""
    out = {k: v.copy() for k, v in data.items()}
    for key in out:
        if key == "x":
            out[key] = np.abs(out[key]) + 50.0
        elif key == "mass_1":
            out[key] = np.abs(out[key]) + 300.0
        elif key.startswith("a_"):
            out[key] = np.abs(out[key]) + 1.5
    return out


def posteriors(case):
    rng = rng_of(case["seed"])
    out = []
    for ii, n in enumerate(case["events"]):
        data = draw(case["population"], rng, n)
        if case["dead"] and ii == len(case["events"]) - 1:
            data = dead_samples(data)
        if case["prior"]:
            data["prior"] = rng.uniform(0.05, 2.0, n)
            if case["prior"] == "event":
                data["prior"] = np.full(n, data["prior"][0])
            elif case["prior"] == "all":
                data["prior"] = np.full(n, 0.4)
        # a label identifying the sample
        data["label"] = 1000.0 * (ii + 1) + np.arange(n)
        # rows in any order, labelled in any way (repeated labels: concatenated tables)
        rows = rng.permutation(n) + 7
        if case["seed"] % 4 == 0:
            rows = rows % max(n // 2, 2)
        elif case["seed"] % 4 == 1:
            rows = [f"row {row}" for row in rows]
        out.append(pd.DataFrame(data, index=rows))
    return out


GRIDDED = {"x": (-3.0, 3.0), "y": (-1.0, 1.0), "mass_1": (8.0, 60.0), "mass_ratio": (0.2, 1.0),
           "redshift": (0.01, 2.2), "a_1": (0.01, 0.75), "a_2": (0.01, 0.75),
           "chi_eff": (-0.9, 0.9)}


class Built:
    """The pieces of one case under the current backend, plus the reference."""

    def __init__(self, case):
        self.case = case
        backends.use(case["backend"])
        self.backend = case["backend"]
        self.rng = rng_of(case["seed"] + 1)
        self.frames = posteriors(case)
        self.selection_data = None
        self.selection = self._selection()

    # selection function
    def _selection(self):
        case, sel = self.case, self.case["selection"]
        pop = case["population"]
        kind = sel["kind"]
        if kind == "none":
            return None
        if kind == "number":
            return lambda parameters: level(case, parameters)
        if kind == "tuple":
            return lambda parameters: (
                level(case, parameters), sel["rel"] * level(case, parameters) ** 2)
        from gwpopulation.vt import GridVT, ResamplingVT

        if kind == "injections":
            n = sel["found"]
            data = draw(pop, self.rng, n)
            data["prior"] = self.rng.uniform(0.2, 2.0, n)
            if sel["with_total"]:
                data["total_generated"] = n + sel["extra"]
            if sel["time"] != 1:
                data["analysis_time"] = sel["time"]
            self.selection_data = data
            kwargs = {}
            kwargs["n_events"] = len(case["events"]) if sel["n_events"] else 0
            given = {k: backends.arr(v, self.backend) if isinstance(v, np.ndarray) else v
                     for k, v in data.items()}
            with library("ResamplingVT"):
                return ResamplingVT(
                    models_of(pop), given, marginalize_uncertainty=sel["marginalise"],
                    enforce_convergence=sel["converge"], **kwargs,
                )
        keys = list(draw(pop, self.rng, 1))[:3]
        if sel["flip"]:
            keys = keys[::-1]
        axes = [np.linspace(*GRIDDED[k], sel["n"] + ii) for ii, k in enumerate(keys)]
        mesh = np.meshgrid(*axes, indexing="ij")
        data = dict(zip(keys, mesh))
        others = list(draw(pop, self.rng, 1))[3:]
        if others:  # too many axes: only the first three parameters are on the grid
            raise AssertionError("grid selection needs at most three parameters")
        vt = self.rng.uniform(0.1, 1, mesh[0].shape)
        self.selection_data = dict(data=data, axes=axes, vt=vt)
        with library("GridVT"):
            return GridVT(models_of(pop), {
                **backends.data(data, self.backend), "vt": backends.arr(vt, self.backend)
            })

    def conversion(self):
        kind = self.case["conversion"]
        if kind == "scale":
            return conversion_scale
        if kind == "inplace":
            return conversion_inplace
        if kind == "rescale":
            return conversion_rescale
        if kind == "beta":
            from gwpopulation.conversions import convert_to_beta_parameters

            return convert_to_beta_parameters
        return None

    def likelihood(self, cls=None, state=None, **over):
        from gwpopulation import hyperpe
        from bilby.hyper.model import Model

        case = self.case
        cls = cls or case["cls"]
        klass = dict(Hyper=hyperpe.HyperparameterLikelihood, Rate=hyperpe.RateLikelihood,
                     Null=hyperpe.NullHyperparameterLikelihood)[cls]
        models = models_of(case["population"])
        kwargs = dict(
            posteriors=[f.copy() for f in self.frames],
            hyper_prior=models[0] if case["population"] == "toy" else Model(models, cache=False)
            if case["seed"] % 2 else Model(models),
        )
        if case["evidences"] is not None:
            values = case["evidences"][: len(case["events"])]
            kwargs["ln_evidences"] = [list, tuple, np.array][case["seed"] % 3](values)
        if case["max_samples"] is not None:
            kwargs["max_samples"] = case["max_samples"]
        if self.selection is not None:
            kwargs["selection_function"] = self.selection
        if self.conversion() is not None:
            kwargs["conversion_function"] = self.conversion()
        kwargs.update(over)
        np.random.seed((case["seed"] if state is None else state) % 2**32)
        with library("likelihood construction"):
            return klass(**kwargs)

    # reference
    def probability(self, data, params=None):
        """Product of the pieces, each evaluated alone with its own parameters, as numpy."""
        params = self.case["params"] if params is None else params
        out = 1.0
        for piece in POPULATIONS[self.case["population"]]:
            piece = PIECES[piece]
            model = piece.build()
            own = {k: params[k] for k in piece.params}
            given = {k: backends.arr(v, self.backend) for k, v in data.items()}
            with library(piece.name):
                out = out * np.asarray(model(given, **own))
        return out

    def weights(self, likelihood, params=None):
        data = {k: np.asarray(v) for k, v in likelihood.data.items()}
        prior = np.asarray(likelihood.sampling_prior)
        return self.probability(data, params) / prior

    def detection(self, params=None):
        """(P, variance) of the selection function."""
        sel = self.case["selection"]
        n_events = len(self.case["events"])
        if sel["kind"] == "none":
            return 1.0, 0.0
        if sel["kind"] in ("number", "tuple"):
            value = level(self.case, self.case["params"] if params is None else params)
            return value, sel["rel"] * value**2 if sel["kind"] == "tuple" else 0.0
        if sel["kind"] == "injections":
            mu, var = self.efficiency(params)
            events = n_events if sel["n_events"] else 0
            converged = mu**2 > 4 * events * var
            if sel["marginalise"]:
                if not converged:
                    return np.inf, 0.0
                return mu / np.exp((3 + events) / 2 * var / mu**2), 0.0
            if sel["converge"] and not converged:
                return np.inf, var
            return mu, var
        grid = self.selection_data
        prob = self.probability(grid["data"], params) * grid["vt"]
        for axis in grid["axes"][::-1]:
            prob = np.sum((prob[..., 1:] + prob[..., :-1]) / 2 * np.diff(axis), axis=-1)
        return float(prob), 0.0

    def efficiency(self, params=None):
        data = {k: v for k, v in self.selection_data.items() if isinstance(v, np.ndarray)}
        prior = data.pop("prior")
        total = self.selection_data.get("total_generated", len(prior))
        w = self.probability(data, params) / prior
        mu = np.sum(w) / total
        return mu, np.sum(w**2) / total**2 - mu**2 / total

    def estimate(self, likelihood, params=None, cls=None):
        """(log-likelihood ratio, variance) by the documented estimator."""
        w = self.weights(likelihood, params)
        n = w.shape[1]
        with np.errstate(all="ignore"):
            mean = np.mean(w, axis=1)
            ln_bf = np.log(mean)
            var = (np.mean(w**2, axis=1) - mean**2) / (n * mean**2)
            pdet, pvar = self.detection(params)
            n_ev = len(w)
            cls = cls or self.case["cls"]
            if cls == "Rate":
                expected = pdet * self.case["rate"]
                ln_l = np.sum(ln_bf) + n_ev * np.log(self.case["rate"]) - expected
                variance = np.sum(var) + expected * pvar / pdet**2
            else:
                ln_l = np.sum(ln_bf) - n_ev * np.log(pdet)
                variance = np.sum(var) + n_ev**2 * np.float64(pvar) / np.float64(pdet) ** 2
            if cls == "Null":
                ln_l = 0.0
        return ln_l, variance, ln_bf, var


GRID_POPULATIONS = [p for p in POPULATIONS if len(
    {k for piece in POPULATIONS[p] for k in PIECES[piece].data(np.random.default_rng(0), 1)}
) <= 3]
