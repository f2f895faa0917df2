"""C02: analytic mass models."""

import numpy as np
from hypothesis import strategies as st

from .. import backends, catalog, oracle
from ..compare import close, nonnegative, zero
from ..core import Suite, library
from ..gen import loguni, mix, record, rng_of, seeds, uni

suite = Suite(
    "C02",
    "Hyperparameters are drawn over their domain (slopes of exactly -1, 0, 1 mixed in, mixing "
    "fractions of exactly 0 and 1, peaks inside, near and outside the limits, optional upper "
    "cut-off given or defaulted) with data in and out of the support, numpy or jax; the value is "
    "compared with a reference built from independent components, integrals by piecewise "
    "Gauss-Legendre quadrature with one, and related models with each other. Non-trivial: at least "
    "two samples with a non-zero reference density.",
    [
        "reference densities in harness/oracle.py",
        "domain: 0 < mmin < mmax, break fraction strictly inside (0, 1), float data; a sample "
        "with a primary mass of exactly mmin and a mass ratio is excluded (0/0)",
        "tolerance 1e-7 relative (1e-5 under jax)",
    ],
)

SPECS = [s for s in catalog.FUNCTIONS if s.module == "mass"]
ONE_DIM = [s for s in SPECS if s.argument == "mass"]
RATIO = [s for s in SPECS if s.name.endswith("mass_ratio")]
BACKENDS = st.sampled_from(["numpy"] * 6 + ["jax"])
SHAPES = st.sampled_from([[16], [16], [4, 4], [1]])


def case_of(specs, **extra):
    def one(spec):
        return record(
            model=st.just(spec.name),
            params=catalog.with_optional(spec),
            seed=seeds(),
            backend=BACKENDS,
            shape=SHAPES,
            **extra,
        )

    return st.one_of([one(s) for s in specs])


def run(spec, backend, data, params):
    backends.use(backend)
    with library(spec.name):
        return np.asarray(
            catalog.call(spec, spec.build(), backends.data(data, backend), params)
        )


def tol(backend):
    return 1e-7 if backend == "numpy" else 1e-5


MASS_LIKE = ["mmin", "mmax", "mpp", "sigpp", "mpp_1", "mpp_2", "sigpp_1", "sigpp_2"]
MASS_LIKE += ["gaussian_mass_maximum"]


def put(array, where, value):
    flat = array.ravel().copy()
    flat[where] = value
    return flat.reshape(array.shape)


def at_the_ends(data, params):
    """Move some samples to exactly the limits (which belong to the support)."""
    key = "mass" if "mass" in data else "mass_1"
    if data[key].size < 12:
        return data
    data = dict(data)
    data[key] = put(data[key], 6, params["mmax"])
    data[key] = put(data[key], 7, params.get("gaussian_mass_maximum", 100.0))
    data[key] = put(
        data[key], 8, params["mmin"]
        + params.get("break_fraction", 0.5) * (params["mmax"] - params["mmin"])
    )
    if key == "mass":
        data[key] = put(data[key], 9, params["mmin"])
    if "mass_2" in data:
        data["mass_2"] = put(data["mass_2"], 6, params["mmin"])
        data[key] = put(data[key], 10, params["mmax"])
        data["mass_2"] = put(data["mass_2"], 10, params["mmax"])
    return data


@suite.check(case_of(SPECS, scale=mix(loguni(0.05, 6), 1, 1)), quick=3600)
def pointwise(case):
    spec = catalog.MODELS[case["model"]]
    # the whole mass axis is stretched, so that no particular mass range is special
    scale = case["scale"]
    data = spec.make_data(rng_of(case["seed"]), case["shape"])
    data = {k: v if k == "mass_ratio" else v * scale for k, v in data.items()}
    params = {k: v * scale if k in MASS_LIKE else v for k, v in case["params"].items()}
    data = at_the_ends(data, params)
    got = run(spec, case["backend"], data, params)
    want = spec.reference(data, **params)
    close(got, want, spec.name, rtol=tol(case["backend"]), atol=1e-250)
    nonnegative(got, spec.name)
    zero(got, want == 0, spec.name)
    if case["seed"] % 4 == 0 and want.size:
        # one binary, given as numbers
        one = int(np.argmax(want))
        alone = run(spec, case["backend"], {k: v.ravel()[one] for k, v in data.items()}, params)
        close(np.ravel(alone), want.ravel()[one:one + 1], f"{spec.name} of a single binary",
              rtol=tol(case["backend"]), atol=1e-250)
    return np.sum(want > 0) >= 2, [spec.name, case["backend"]]


def edges(params):
    """Integration break points: limits, break, and the peaks."""
    pts = [params["mmin"], params["mmax"], params.get("gaussian_mass_maximum", 100.0)]
    if "break_fraction" in params:
        pts.append(
            params["mmin"]
            + params["break_fraction"] * (params["mmax"] - params["mmin"])
        )
    top = max(pts)
    for suffix in ["", "_1", "_2"]:
        if "mpp" + suffix in params:
            mu, sig = params["mpp" + suffix], params["sigpp" + suffix]
            for k in [-8, -4, -2, 0, 2, 4, 8]:
                pts.append(mu + k * sig)
            # a peak outside of the limits: the decay length at the nearest limit
            for edge, sign in [(params["mmin"], 1), (pts[2], -1)]:
                dist = sign * (edge - mu)
                if dist > 0:
                    for k in [0.3, 1, 3, 6, 10, 15, 20, 30]:
                        pts.append(edge + sign * k * sig**2 / dist)
    lo = params["mmin"]
    return sorted(p for p in set(pts) if lo <= p <= top)


def refine(pts):
    out = []
    for a, b in zip(pts, pts[1:]):
        out += list(np.linspace(a, b, 4)[:-1])
    return out + [pts[-1]]


@suite.check(case_of(ONE_DIM), quick=900)
def integral(case):
    spec = catalog.MODELS[case["model"]]
    xs, ws = oracle.gl_points(refine(edges(case["params"])), nodes=24)
    got = run(spec, case["backend"], dict(mass=xs), case["params"])
    close(np.sum(got * ws), 1.0, f"{spec.name} integral", rtol=1e-5)
    return True, [spec.name]


@suite.check(case_of(RATIO, m1=uni(0, 1)), quick=600)
def integral_over_mass_ratio(case):
    """At a fixed primary mass the mass-ratio density integrates to the primary density."""
    spec = catalog.MODELS[case["model"]]
    p = case["params"]
    m1 = p["mmin"] * 1.02 + case["m1"] * (p["mmax"] - p["mmin"] * 1.02)
    if m1 <= p["mmin"]:
        m1 = p["mmin"] * 1.02
    u, w = oracle.gl_points(np.linspace(np.log(p["mmin"] / m1), 0, 5), nodes=24)
    q, ws = np.exp(u), w * np.exp(u)
    got = run(spec, case["backend"], dict(mass_1=np.full_like(q, m1), mass_ratio=q), p)
    prim = {k: v for k, v in p.items() if k != "beta"}
    base = {
        "power_law_primary_mass_ratio": lambda m, alpha, mmin, mmax: oracle.powerlaw(
            m, -alpha, mmax, mmin
        ),
        "two_component_primary_mass_ratio": oracle.two_component,
        "double_power_law_primary_power_law_mass_ratio": oracle.broken_powerlaw,
    }[spec.name]
    want = float(base(np.array([m1]), **prim)[0])
    close(np.sum(got * ws), want, f"{spec.name} integrated over q", rtol=1e-5, atol=1e-250)
    return want > 0, [spec.name]


LINEAR = [s for s in SPECS if "lam" in s.params and "secondary" not in s.name]


@suite.check(case_of(LINEAR), quick=500)
def linear_in_fraction(case):
    spec = catalog.MODELS[case["model"]]
    data = spec.make_data(rng_of(case["seed"]), [16])
    p, b = dict(case["params"]), case["backend"]
    parts = {}
    for lam in (0.0, 1.0, p["lam"]):
        parts[lam] = run(spec, b, data, {**p, "lam": lam})
    lam = p["lam"]
    close(
        parts[lam],
        (1 - lam) * parts[0.0] + lam * parts[1.0],
        f"{spec.name} mixture",
        rtol=1e-9,
        atol=1e-250,
    )
    return 0 < lam < 1, [spec.name]


@suite.check(
    record(
        params=st.fixed_dictionaries({**catalog.MASS, **catalog.BETA, **catalog.PEAK}),
        frac=catalog.BROKEN["break_fraction"],
        seed=seeds(),
        backend=BACKENDS,
    ),
    quick=400,
)
def relations(case):
    """Relations between models."""
    p, b = case["params"], case["backend"]
    rng = rng_of(case["seed"])
    M = catalog.MODELS
    t = tol(b)
    base = {k: p[k] for k in ("alpha", "mmin", "mmax")}
    peak = {k: p[k] for k in ("lam", "mpp", "sigpp")}
    d1 = catalog.single_mass_data(rng, (16,))
    d2 = catalog.component_data(rng, (16,))
    d3 = catalog.mass_ratio_data(rng, (16,))
    single = run(M["power_law_mass"], b, d1, base)
    broken = dict(
        alpha_1=p["alpha"], alpha_2=p["alpha"], mmin=p["mmin"], mmax=p["mmax"],
        break_fraction=case["frac"],
    )
    close(
        run(M["double_power_law_primary_mass"], b, d1, broken), single,
        "broken power law with equal slopes", rtol=1e-6, atol=1e-250,
    )
    close(
        run(M["two_component_single"], b, d1, {**base, **peak, "lam": 0.0}), single,
        "no peak", rtol=t, atol=1e-250,
    )
    three = dict(
        **base, lam=p["lam"], lam_1=0.3, mpp_1=p["mpp"], sigpp_1=p["sigpp"],
        mpp_2=p["mpp"], sigpp_2=p["sigpp"],
    )
    close(
        run(M["three_component_single"], b, d1, three),
        run(M["two_component_single"], b, d1, {**base, **peak}),
        "two equal peaks", rtol=t, atol=1e-250,
    )
    close(
        run(M["power_law_primary_secondary_identical"], b, d2, base),
        run(M["power_law_primary_secondary_independent"], b, d2, {**base, "beta": p["alpha"]}),
        "identical power laws", rtol=t, atol=1e-250,
    )
    close(
        run(M["two_component_primary_secondary_identical"], b, d2, {**base, **peak}),
        run(
            M["two_component_primary_secondary_independent"], b, d2,
            {**base, **peak, "beta": p["alpha"]},
        ),
        "identical two-component", rtol=t, atol=1e-250,
    )
    close(
        run(
            M["two_component_primary_mass_ratio"], b, d3,
            {**base, **peak, "lam": 0.0, "beta": p["beta"]},
        ),
        run(M["power_law_primary_mass_ratio"], b, d3, {**base, "beta": p["beta"]}),
        "mass ratio model without peak", rtol=t, atol=1e-250,
    )
    # continuity at the break
    mb = p["mmin"] + case["frac"] * (p["mmax"] - p["mmin"])
    around = dict(mass=np.array([mb * (1 - 1e-9), mb, mb * (1 + 1e-9)]))
    other = {**broken, "alpha_2": p["beta"]}
    vals = run(M["double_power_law_primary_mass"], b, around, other)
    close(vals, np.full(3, np.max(vals)), "continuity at the break", rtol=1e-6)
    return True, []
