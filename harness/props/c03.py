"""C03: smoothed mass distributions."""

import numpy as np
from hypothesis import strategies as st

from .. import backends, catalog, oracle
from ..compare import close, nonnegative, zero
from ..core import Suite, library
from ..gen import history, mix, record, replay, rng_of, seeds, uni

suite = Suite(
    "C03",
    "Configurations (global limits, grid shapes, cache on/off) and hyperparameters (smoothing "
    "absent, narrow, wide) are drawn for each smoothed model; joint values are compared with base "
    "model times taper, normalised by fine quadrature, conditional ratios at a fixed primary mass "
    "with the exact power law times taper, and the unsmoothed limit with the analytic model. "
    "Non-trivial: at least two samples with non-zero reference density whose reference "
    "normalisation the model's grid resolves.",
    [
        "reference densities in harness/oracle.py",
        "normalisation 'to the accuracy of its own grid': tolerance is three times the error a "
        "trapezoidal rule on the configured grid makes for the same integrand, plus 1e-6; points "
        "where that error exceeds 20 % are not compared",
        "domain: float data, limits inside the configured range, mass_1 != mmin exactly",
    ],
)

BACKENDS = st.sampled_from(["numpy"] * 7 + ["jax"])
CONFIG = record(
    mmin=st.sampled_from([2.0, 2.0, 1.0, 1.7]),
    mmax=st.sampled_from([100.0, 100.0, 120.0, 200.0]),
    shape=st.sampled_from([[1000, 500], [400, 300], [300, 700], [1500, 200]]),
    cache=st.booleans(),
)
DELTA = mix(uni(0.05, 12), 0, 4, 20)


def case_of(**extra):
    return st.one_of(
        [
            record(
                model=st.just(s.name),
                params=st.fixed_dictionaries({**s.params, "delta_m": DELTA}),
                config=CONFIG,
                seed=seeds(),
                backend=BACKENDS,
                history=history(st.fixed_dictionaries({**s.params, "delta_m": DELTA}), weight=3),
                **extra,
            )
            for s in catalog.SMOOTHED
        ]
    )


def build(case):
    cfg = case["config"]
    backends.use(case["backend"])
    with library("construction"):
        return catalog.MODELS[case["model"]].build(
            mmin=cfg["mmin"], mmax=cfg["mmax"], normalization_shape=tuple(cfg["shape"]),
            cache=cfg["cache"],
        )


def evaluate(model, case, data, params=None):
    """The density of the data, on an instance that may have been used before."""
    params = params or case["params"]
    data = backends.data(data, case["backend"])
    replay(case["history"], params, lambda p: model(data, **p))
    with library(case["model"]):
        return np.asarray(model(data, **params))


def base_density(case, m):
    base, peak = catalog.BASE_OF[case["model"]]
    p = {k: v for k, v in case["params"].items() if k not in ("beta", "delta_m")}
    if peak:
        p["gaussian_mass_maximum"] = case["config"]["mmax"]
    return base(m, **p)


def f_m1(case, m):
    """Unnormalised primary density."""
    p = case["params"]
    return (
        base_density(case, m)
        * oracle.taper(m, p["mmin"], p["delta_m"])
        * (m <= case["config"]["mmax"])
    )


def m1_edges(case):
    p, top = case["params"], case["config"]["mmax"]
    lo, d = p["mmin"], p["delta_m"]
    pts = [lo, p["mmax"], top]
    pts += [lo + d * x for x in (0.05, 0.1, 0.15, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 1)]
    if "break_fraction" in p:
        pts.append(lo + p["break_fraction"] * (p["mmax"] - lo))
    for s in ["", "_1", "_2"]:
        if "mpp" + s in p:
            mu, sig = p["mpp" + s], p["sigpp" + s]
            pts += [mu + k * sig for k in (-8, -4, -2, 0, 2, 4, 8)]
            for edge, sign in [(lo, 1), (top, -1)]:
                dist = sign * (edge - mu)
                if dist > 0:
                    pts += [edge + sign * k * sig**2 / dist for k in (0.3, 1, 3, 6, 10, 20, 30)]
    pts = sorted(x for x in set(pts) if lo <= x <= top)
    out = []
    for a, b in zip(pts, pts[1:]):
        out += list(np.linspace(a, b, 3)[:-1])
    return out + [pts[-1]]


def norm_m1(case):
    """(exact normalisation, relative error of the configured grid)."""
    xs, ws = oracle.gl_points(m1_edges(case), nodes=24)
    exact = float(np.sum(f_m1(case, xs) * ws))
    if case["params"]["delta_m"] == 0:
        return 1.0, 0.0
    cfg = case["config"]
    grid = np.linspace(cfg["mmin"], cfg["mmax"], cfg["shape"][0])
    approx = float(np.trapezoid(f_m1(case, grid), grid))
    return exact, abs(approx / exact - 1) if exact > 0 else np.inf


def g_q(case, m1, q):
    """Unnormalised mass-ratio density at m1 (arrays broadcast)."""
    p = case["params"]
    with np.errstate(all="ignore"):
        val = oracle.powerlaw(q, p["beta"], 1.0, p["mmin"] / m1)
    return val * oracle.taper(m1 * q, p["mmin"], p["delta_m"])


def norm_q(case, m1):
    """Exact integral over q and relative error of grid plus interpolation, per m1."""
    p, cfg = case["params"], case["config"]
    m1 = np.asarray(m1, float)
    if p["delta_m"] == 0:
        return np.ones(m1.shape), np.zeros(m1.shape)
    exact = np.zeros(m1.shape)
    for ii in np.ndindex(m1.shape):
        m = m1[ii]
        lo = p["mmin"] / m
        if lo >= 1:
            continue
        pts = lo + p["delta_m"] / m * np.array(
            [0, 0.05, 0.1, 0.15, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 1, 1.5, 2.5, 5, 10]
        )
        pts = np.append(pts[pts < 1], 1.0)
        x, w = oracle.gl_points(pts, nodes=24)
        exact[ii] = np.sum(g_q(case, m, x) * w)
    # what the configured grid makes of it
    nodes = np.linspace(cfg["mmin"], cfg["mmax"], cfg["shape"][0])
    qs = np.linspace(0.001, 1, cfg["shape"][1])
    step = nodes[1] - nodes[0]
    idx = np.clip(((m1 - cfg["mmin"]) / step).astype(int), 0, len(nodes) - 2)
    left = np.trapezoid(g_q(case, nodes[idx][..., None], qs), qs, axis=-1)
    right = np.trapezoid(g_q(case, nodes[idx + 1][..., None], qs), qs, axis=-1)
    frac = (m1 - nodes[idx]) / step
    approx = np.nan_to_num(left) * (1 - frac) + np.nan_to_num(right) * frac
    with np.errstate(all="ignore"):
        err = np.where(exact > 0, np.abs(approx / exact - 1), np.inf)
        # neighbouring nodes that differ a lot: the interpolation is not resolved
        jump = np.abs(right - left) / np.maximum(np.maximum(left, right), 1e-300)
    err = np.maximum(err, 0.3 * jump**2)
    return exact, np.nan_to_num(err, nan=np.inf)


def outside(case, data):
    p = case["params"]
    m1, q = data["mass_1"], data["mass_ratio"]
    top = case["config"]["mmax"]
    return (m1 < p["mmin"]) | (m1 > top) | (q > 1) | (m1 * q < p["mmin"] * (1 - 1e-12))


@suite.check(case_of(), quick=900)
def joint_density(case):
    rng = rng_of(case["seed"])
    data = catalog.mass_ratio_data(rng, (24,))
    # some near the lower edge, where the taper acts
    p = case["params"]
    data["mass_1"][16:] = p["mmin"] + (p["delta_m"] + 3) * rng.uniform(0.05, 1.5, 8)
    data["mass_ratio"][16:] = rng.uniform(p["mmin"] / data["mass_1"][16:], 1)
    model = build(case)
    got = evaluate(model, case, data)
    nonnegative(got, case["model"])
    zero(got, outside(case, data), case["model"])
    total, err_m = norm_m1(case)
    g_total, err_q = norm_q(case, data["mass_1"])
    f = f_m1(case, data["mass_1"])
    g = g_q(case, data["mass_1"], data["mass_ratio"])
    with np.errstate(all="ignore"):
        want = np.nan_to_num(f / total * g / g_total)
    tol = 1e-6 + 3 * (err_m + err_q)
    ok = (tol < 0.6) & (want > 1e-200)
    close(got, want, f"{case['model']} joint density", rtol=np.where(ok, tol, 1), where=ok)
    label = "no smoothing" if p["delta_m"] == 0 else "smoothing"
    return np.sum(ok) >= 2, [case["model"], label, case["backend"],
                             "cache" if case["config"]["cache"] else "no cache"]


@suite.check(case_of(m1=uni(0, 1)), quick=600)
def conditional_ratios(case):
    """At one primary mass the density is proportional to q^beta times the taper."""
    p = case["params"]
    rng = rng_of(case["seed"])
    lo = p["mmin"] + 0.25 * p["delta_m"] + 0.3
    m1 = lo + case["m1"] * (max(p["mmax"], lo + 1) - lo)
    m1 = min(m1, p["mmax"])
    q = rng.uniform(0.5 * p["mmin"] / m1, 1.0, 12)
    q[0], q[1] = 1.0, 1.1
    q[2] = (p["mmin"] + 0.9 * min(p["delta_m"] + 0.01, m1 - p["mmin"])) / m1
    data = dict(mass_1=np.full(12, m1), mass_ratio=q)
    model = build(case)
    got = evaluate(model, case, data)
    g = g_q(case, m1, q)
    zero(got, (q > 1) | (m1 * q < p["mmin"] * (1 - 1e-12)), case["model"])
    nonnegative(got, case["model"])
    ref = int(np.argmax(g))
    if not (g[ref] > 0 and got[ref] > 0):
        return False, ["no support"]
    ok = g > 1e-10 * g[ref]
    rtol = 1e-7 if case["backend"] == "numpy" else 1e-6
    # the taper is steep: conditioning of its argument
    if p["delta_m"] > 0:
        x = np.clip((m1 * q - p["mmin"]) / p["delta_m"], 1e-6, 1)
        rtol = rtol + 1e-13 * m1 / p["delta_m"] / x**2
    close(got / got[ref], g / g[ref], f"{case['model']} mass-ratio shape",
          rtol=np.where(ok, rtol, 1), where=ok)
    return np.sum(ok) >= 3, [case["model"]]


@suite.check(case_of(), quick=400)
def primary_shape(case):
    """The primary-mass factor is proportional to base times taper, and normalised."""
    p = case["params"]
    rng = rng_of(case["seed"])
    m1 = np.concatenate(
        [
            p["mmin"] + (p["delta_m"] + 1) * rng.uniform(0.05, 1.2, 8),
            rng.uniform(p["mmin"], case["config"]["mmax"], 8),
            [case["config"]["mmax"] * 1.01, p["mmin"] * 0.9],
        ]
    )
    model = build(case)
    params = {k: v for k, v in p.items() if k != "beta"}
    if catalog.BASE_OF[case["model"]][1]:
        params["gaussian_mass_maximum"] = case["config"]["mmax"]
    data = backends.data(dict(mass_1=m1), case["backend"])
    replay(case["history"], params, lambda h: model.p_m1(data, **h))
    with library("p_m1"):
        got = np.asarray(model.p_m1(data, **params))
    want = f_m1(case, m1)
    zero(got, (m1 > case["config"]["mmax"]) | (m1 < p["mmin"]), "primary density")
    nonnegative(got, "primary density")
    ref = int(np.argmax(want))
    ok = want > 1e-10 * want[ref]
    rtol = 1e-7 if case["backend"] == "numpy" else 1e-6
    if p["delta_m"] > 0:
        x = np.clip((m1 - p["mmin"]) / p["delta_m"], 1e-6, 1)
        rtol = rtol + 1e-13 * m1 / p["delta_m"] / x**2
    with np.errstate(all="ignore"):
        close(got / got[ref], want / want[ref], "primary mass shape",
              rtol=np.where(ok, rtol, 1), where=ok)
    total, err = norm_m1(case)
    if err < 0.1:
        close(got[ref], want[ref] / total, "primary mass normalisation", rtol=1e-6 + 3 * err)
    return np.sum(ok) >= 2, [case["model"], "resolved" if err < 0.1 else "unresolved"]


ANALYTIC = {
    "SinglePeakSmoothedMassDistribution": ("two_component_primary_mass_ratio", True),
    "BrokenPowerLawSmoothedMassDistribution": (
        "double_power_law_primary_power_law_mass_ratio", False),
}


@suite.check(case_of(omit=st.booleans()), quick=300)
def unsmoothed_limit(case):
    """No smoothing (zero or not given) is the unsmoothed model."""
    data = catalog.mass_ratio_data(rng_of(case["seed"]), (16,))
    params = {**case["params"], "delta_m": 0.0}
    if case["omit"]:
        del params["delta_m"]
    model = build(case)
    if case["omit"] and case["backend"] == "jax":
        params["delta_m"] = 0.0
    got = evaluate(model, case, data, params)
    want = base_density(case, data["mass_1"]) * catalog.conditional_q(
        data, params["beta"], params["mmin"]
    )
    want = want * (data["mass_1"] <= case["config"]["mmax"])
    close(got, want, f"{case['model']} without smoothing", rtol=1e-6, atol=1e-250)
    return np.sum(want > 0) >= 2, [case["model"], "omitted" if case["omit"] else "zero"]
