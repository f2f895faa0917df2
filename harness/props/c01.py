"""C01: elementary densities."""

import numpy as np
from hypothesis import strategies as st

from .. import backends, oracle
from ..compare import close, nonnegative, zero
from ..core import Suite, library
from ..gen import inner, loguni, mix, near, record, rng_of, seeds, uni, weighted

suite = Suite(
    "C01",
    "Parameters of each density are drawn over their documented domain (with special values "
    "mixed in: index -1/+1/0, mean outside the truncation, one-sided truncation, kappa 0 and "
    "huge) and evaluated on points in, at and outside the support under numpy or jax; the value is "
    "compared with an independent reference (log-space / erfcx / scipy.stats) and the integral "
    "over the support by Gauss-Legendre quadrature with one. A case is non-trivial if at least two "
    "points lie inside the support with a non-zero reference density.",
    [
        "reference densities in harness/oracle.py (scipy.special, scipy.stats)",
        "floating-point tolerance 1e-7 relative, enlarged by the conditioning of the closed form "
        "(near index -1, far tails)",
        "domain: finite parameters, low < high, x > 0 for negative power-law indices",
    ],
)

BACKENDS = st.sampled_from(["numpy", "numpy", "numpy", "numpy", "jax"])
SHAPES = st.sampled_from([[12], [12], [3, 4], [1], []])


def points(seed, shape, lo, hi, specials=(), outside=True):
    """Points over a bit more than [lo, hi], with special values planted."""
    rng = rng_of(seed)
    n = int(np.prod(shape)) if shape else 1
    width = hi - lo
    xs = rng.uniform(lo, hi, n)
    if outside and n > 4:
        xs[0] = lo - width * rng.uniform(1e-9, 0.5)
        xs[1] = hi + width * rng.uniform(1e-9, 0.5)
    for ii, val in enumerate(specials):
        if n > ii + 4:
            xs[n - 1 - ii] = val
    return xs.reshape(shape)


def call(backend, func, x, **kwargs):
    import gwpopulation.utils as utils

    backends.use(backend)
    xx = backends.arr(x, backend)
    with library(func):
        return np.asarray(getattr(utils, func)(xx, **kwargs))


@suite.check(
    record(
        backend=BACKENDS,
        shape=SHAPES,
        seed=seeds(),
        alpha=near(uni(-9, 9), -1, -1, 1, 0, -2, -0.5, 3),
        low=mix(loguni(1e-3, 60), 1, 5, 0),
        ratio=mix(loguni(1.01, 1e4), 2, 50),
    ),
    quick=1600,
)
def powerlaw(case):
    low, alpha = case["low"], case["alpha"]
    if low == 0 and alpha <= -1:
        low = 1.0
    high = low * case["ratio"] if low > 0 else case["ratio"]
    x = points(case["seed"], case["shape"], low, high,
               [low, (low * high) ** 0.5 if low else high / 2, high])
    x = np.maximum(x, low / 2 if low > 0 else 1e-6)
    got = call(case["backend"], "powerlaw", x, alpha=alpha, high=high, low=low)
    want = oracle.powerlaw(x, alpha, high, low)
    g = abs(1 + alpha) * np.log(high / low) if low > 0 else 1.0
    tol = 1e-9 + (1e-14 / g if g > 0 else 0)
    close(got, want, "power law", rtol=tol)
    nonnegative(got, "power law")
    zero(got, (x < low) | (x > high), "power law")
    # integral
    if low > 0:
        u, w = oracle.gl_points(np.linspace(np.log(low), np.log(high), 9))
        xs, ws = np.exp(u), w * np.exp(u)
    else:
        if alpha < 0:
            return np.sum(want > 0) >= 2, ["low=0"]
        xs, ws = oracle.gl_points(np.linspace(0, high, 9))
    vals = call(case["backend"], "powerlaw", xs, alpha=alpha, high=high, low=low)
    close(np.sum(vals * ws), 1.0, "power-law integral", rtol=1e-5 + tol)
    return np.sum(want > 0) >= 2, [f"index {alpha:g}" if alpha in (-1, 1, 0) else "index generic"]


@suite.check(
    record(
        seed=seeds(),
        backend=BACKENDS,
        n=st.integers(2, 6),
        vary=st.lists(
            st.sampled_from(["alpha", "high", "low"]), min_size=1, max_size=3, unique=True
        ),
        special=st.booleans(),
    ),
    quick=400,
)
def powerlaw_arrays(case):
    """Array-valued index and limits act element by element."""
    rng = rng_of(case["seed"])
    backends.use(case["backend"])
    n = case["n"]
    vals = dict(alpha=rng.uniform(-4, 4), low=rng.uniform(0.1, 5), high=rng.uniform(10, 90))
    if "alpha" in case["vary"]:
        vals["alpha"] = rng.uniform(-4, 4, n)
        if case["special"]:
            vals["alpha"][0] = -1.0
    elif case["special"]:
        vals["alpha"] = -1.0
    if "low" in case["vary"]:
        vals["low"] = rng.uniform(0.1, 5, n)
    if "high" in case["vary"]:
        vals["high"] = rng.uniform(10, 90, n)
    x = rng.uniform(0.1, 90, n)
    given = {
        k: backends.arr(v, case["backend"]) if np.ndim(v) else v for k, v in vals.items()
    }
    got = call(case["backend"], "powerlaw", x, **given)
    close(got, oracle.powerlaw(x, **vals), "power law (array parameters)", rtol=1e-8)
    return True, ["vary " + "+".join(sorted(case["vary"]))]


@suite.check(
    record(
        backend=BACKENDS,
        shape=SHAPES,
        seed=seeds(),
        low=mix(uni(-50, 50), 0, -1),
        width=mix(loguni(1e-2, 200), 1, 2),
        sigma_over_width=mix(loguni(1e-3, 1e2), 1),
        offset=mix(uni(-30, 31), 0, 1, 0.5),
    ),
    quick=2400,
)
def truncnorm(case):
    low = case["low"]
    high = low + case["width"]
    sigma = case["sigma_over_width"] * case["width"]
    # the mean sits `offset` widths above the lower limit, but at most 35 sigma away
    mu = low + case["offset"] * case["width"]
    mu = float(np.clip(mu, low - 35 * sigma, high + 35 * sigma))
    near = float(np.clip(mu, low, high))
    span = min(4 * sigma, case["width"])
    x = points(case["seed"], case["shape"], max(low, near - span), min(high, near + span))
    if x.size > 4:
        flat = x.ravel()
        flat[0] = low - 0.1 * case["width"]
        flat[1] = high + 1e-6 * case["width"]
        x = flat.reshape(x.shape)
    got = call(case["backend"], "truncnorm", x, mu=mu, sigma=sigma, high=high, low=low)
    want = oracle.truncnorm(x, mu, sigma, high, low)
    a, b = (low - mu) / sigma, (high - mu) / sigma
    lm = float(oracle.log_normal_mass(a, b))
    # conditioning of the closed form: cancellation in the tail / narrow intervals
    d = max(min(abs(a), abs(b)), 1e-3) * (b - a) if (a > 0 or b < 0) else np.exp(lm)
    d = min(d, 1.0)
    size = max(abs(a), 1) ** 2 if (a > 0 or b < 0) else 1.0
    tol = 1e-8 + 4e-15 * size / d
    tol = tol if case["backend"] == "numpy" else 1e-5 + 30 * tol
    close(got, want, "truncated normal", rtol=tol, atol=1e-300)
    nonnegative(got, "truncated normal")
    zero(got, (x < low) | (x > high), "truncated normal")
    lo, hi = max(low, near - 12 * sigma), min(high, near + 12 * sigma)
    dist = max(low - mu, mu - high, 0.0)
    if dist > 0:  # exponential decay length of the tail
        decay = 60 * sigma**2 / dist
        lo, hi = max(lo, near - decay), min(hi, near + decay)
    xs, ws = oracle.gl_points(np.linspace(lo, hi, 9))
    vals = call(case["backend"], "truncnorm", xs, mu=mu, sigma=sigma, high=high, low=low)
    close(np.sum(vals * ws), 1.0, "truncated-normal integral", rtol=1e-5 + tol)
    kind = "mean outside" if not low <= mu <= high else "mean inside"
    return np.sum(want > 0) >= 2, [kind, case["backend"]]


@suite.check(
    record(
        seed=seeds(),
        backend=BACKENDS,
        n=st.integers(2, 6),
        vary=st.lists(
            st.sampled_from(["mu", "high", "low", "sigma"]), min_size=1, max_size=4, unique=True
        ),
    ),
    quick=400,
)
def truncnorm_arrays(case):
    rng = rng_of(case["seed"])
    backends.use(case["backend"])
    n = case["n"]
    ranges = dict(mu=(-2, 12), sigma=(0.5, 5), low=(0, 4), high=(5, 10))
    vals = {
        k: rng.uniform(*r, n) if k in case["vary"] else float(rng.uniform(*r))
        for k, r in ranges.items()
    }
    x = rng.uniform(-1, 11, n)
    given = {
        k: backends.arr(v, case["backend"]) if np.ndim(v) else v for k, v in vals.items()
    }
    got = call(case["backend"], "truncnorm", x, **given)
    close(
        got,
        oracle.truncnorm(x, **vals),
        "truncated normal (array parameters)",
        rtol=1e-8 if case["backend"] == "numpy" else 1e-5,
    )
    return True, ["vary " + "+".join(sorted(case["vary"]))]


@suite.check(
    record(
        backend=BACKENDS,
        shape=SHAPES,
        seed=seeds(),
        alpha=mix(loguni(0.2, 60), 1, 2, 0.5),
        beta=mix(loguni(0.2, 60), 1, 2, 0.5),
        scale=mix(loguni(0.05, 20), 1, 0.7),
    ),
    quick=1600,
)
def beta_dist(case):
    alpha, beta, scale = case["alpha"], case["beta"], case["scale"]
    specials = []
    if alpha >= 1:
        specials.append(0.0)
    if beta >= 1:
        specials.append(scale)
    x = points(case["seed"], case["shape"], 0.0, scale, specials)
    interior = (x > 0) & (x < scale)
    x = np.where(interior, np.clip(x, 1e-9 * scale, scale * (1 - 1e-9)), x)
    got = call(case["backend"], "beta_dist", x, alpha=alpha, beta=beta, scale=scale)
    want = oracle.beta(x, alpha, beta, scale)
    tol = 1e-8 if case["backend"] == "numpy" else 1e-5
    # the density may change much over a rounding error of x next to the ends
    up, down = (oracle.beta(np.clip(x * f, 0, scale), alpha, beta, scale)
                for f in (1 + 1e-15, 1 - 1e-15))
    inside = (x >= 0) & (x <= scale)
    atol = 1e-280 + 2 * np.where(inside & np.isfinite(up - down), np.abs(up - down), 0)
    close(got, want, "beta density", rtol=tol, atol=atol)
    nonnegative(got, "beta density")
    zero(got, (x < 0) | (x > scale), "beta density")
    if scale == 1:
        import gwpopulation.utils as utils

        with library("beta_dist default scale"):
            again = utils.beta_dist(backends.arr(x, case["backend"]), alpha, beta)
        close(again, want, "beta density with the default scale", rtol=tol, atol=atol)
    if alpha >= 1 and beta >= 1:
        # x = scale (1 - cos t) / 2 smooths the ends
        t, w = oracle.gl_points(np.linspace(0, np.pi, 9))
        xs, ws = scale * (1 - np.cos(t)) / 2, w * scale * np.sin(t) / 2
        vals = call(case["backend"], "beta_dist", xs, alpha=alpha, beta=beta, scale=scale)
        close(np.sum(vals * ws), 1.0, "beta integral", rtol=1e-5)
    return np.sum(want > 0) >= 2, ["end points" if specials else "no end points"]


@suite.check(
    record(
        backend=BACKENDS,
        shape=SHAPES,
        seed=seeds(),
        mu=mix(uni(-7, 7), 0),
        kappa=mix(loguni(1e-6, 1e5), 0, 1, 700, 800, 1e4),
    ),
    quick=1200,
)
def von_mises(case):
    mu, kappa = case["mu"], case["kappa"]
    rng = rng_of(case["seed"])
    width = min(np.pi, 5 / np.sqrt(kappa)) if kappa > 0 else np.pi
    x = mu + rng.uniform(-width, width, case["shape"])
    got = call(case["backend"], "von_mises", x, mu=mu, kappa=kappa)
    want = oracle.von_mises(x, mu, kappa)
    tol = 1e-8 + 1e-14 * kappa
    close(got, want, "von Mises", rtol=tol)
    nonnegative(got, "von Mises")
    period = call(case["backend"], "von_mises", x + 2 * np.pi, mu=mu, kappa=kappa)
    close(period, want, "von Mises, one period on", rtol=1e-6 + 1e-13 * kappa)
    lo, hi = (mu - np.pi, mu + np.pi)
    if kappa > 100:
        lo, hi = mu - 14 / np.sqrt(kappa), mu + 14 / np.sqrt(kappa)
    xs, ws = oracle.gl_points(np.linspace(lo, hi, 17))
    vals = call(case["backend"], "von_mises", xs, mu=mu, kappa=kappa)
    close(np.sum(vals * ws), 1.0, "von Mises integral", rtol=1e-5 + tol)
    return np.sum(want > 0) >= (2 if case["shape"] else 1), [
        "kappa > 700" if kappa > 700 else "kappa <= 700"
    ]


@suite.check(
    record(
        backend=BACKENDS,
        seed=seeds(),
        mx=uni(-2, 2),
        my=uni(-2, 2),
        sx=mix(loguni(0.05, 5), 1),
        sy=mix(loguni(0.05, 5), 1),
        rho=weighted(*[mix(inner(-0.99, 0.99), 0, -0.5, 0.5)] * 3,
                     st.tuples(st.sampled_from([-1, 1]), loguni(1e-5, 0.01)).map(
                         lambda t: t[0] * (1 - t[1]))),
    ),
    quick=800,
)
def gaussian_2d(case):
    import gwpopulation.utils as utils

    rng = rng_of(case["seed"])
    backend = case["backend"]
    p = {k: case[k] for k in ("mx", "my", "sx", "sy", "rho")}
    # half of the points follow the correlation
    u, v = 3 * rng.standard_normal((2, 12))
    v[::2] = case["rho"] * u[::2] + (1 - case["rho"] ** 2) ** 0.5 * v[::2]
    x = case["mx"] + case["sx"] * u
    y = case["my"] + case["sy"] * v
    backends.use(backend)
    with library("unnormalized_2d_gaussian"):
        got = utils.unnormalized_2d_gaussian(
            backends.arr(x, backend),
            backends.arr(y, backend),
            case["mx"], case["my"], case["sx"], case["sy"], case["rho"],
        )
    close(got, oracle.gaussian_2d(x, y, **p), "2-D Gaussian", rtol=1e-8, atol=1e-250)
    sign = "negative" if case["rho"] < 0 else "positive" if case["rho"] > 0 else "no"
    return True, [f"{sign} correlation"]
