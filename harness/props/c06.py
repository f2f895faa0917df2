"""C06: spline models."""

import numpy as np
from hypothesis import strategies as st

from .. import backends, catalog, oracle
from ..compare import close, nonnegative, scalar, zero
from ..core import Suite, library
from ..gen import history, loguni, mix, record, replay, rng_of, seeds, uni, weighted

suite = Suite(
    "C06",
    "Spline models (spin magnitudes, tilts, generic one- and two-parameter ones, the interpolated "
    "power-law mass model) with drawn range, node interval, number of nodes, order, logarithmic "
    "spacing and regularisation; values are compared with an independent not-a-knot / linear / "
    "nearest-node spline, normalised by fine quadrature. Non-trivial: at least three samples "
    "between the first and last node and node values that are not all equal.",
    [
        "scipy CubicSpline (not-a-knot) as reference",
        "normalisation tolerance: three times the error of a trapezoidal rule on the model's own "
        "grid for the same integrand, plus 1e-6 (compared only when that error is below 30 %)",
        "domain: regularly spaced nodes (as the documentation requires), at least four for cubic "
        "splines, node values not all zero when regularised, one data set per instance",
        "not decided: more nodes than configured for InterpolatedPowerlaw, which documents no such "
        "behaviour",
    ],
)

BACKENDS = st.sampled_from(["numpy"] * 9 + ["jax"])
RANGES = {
    "SplineSpinMagnitudeIdentical": (["a_1", "a_2"], "a", 0.0, 1.0),
    "SplineSpinTiltIdentical": (["cos_tilt_1", "cos_tilt_2"], "cos_tilt", -1.0, 1.0),
    "pair": (["spin_1", "spin_2"], "spin", 0.5, 7.0),
    "single": (["chi_eff"], "chi_eff", -1.0, 1.0),
    "log pair": (["mass_1", "mass_2"], "mass", 2.0, 100.0),
    "log single": (["redshift"], "redshift", 0.01, 10.0),
}
VALUE = mix(uni(-4, 4), 0, 1, -2)


def values(n):
    return st.lists(VALUE, min_size=n, max_size=n)


def spline_case(**extra):
    def build(n, model, kind):
        return record(
            model=st.just(model),
            nodes=st.just(n),
            kind=st.just(kind),
            values=values(n),
            rms=st.one_of(st.none(), loguni(0.1, 3)),
            ends=st.sampled_from([[0.0, 1.0], [0.0, 1.0], [0.1, 0.8], [0.0, 0.7], [-0.2, 0.6],
                                  [0.3, 1.3], [-0.1, 1.1]]),
            default=st.booleans(),
            seed=seeds(),
            backend=BACKENDS,
            **extra,
        )

    return st.tuples(
        st.integers(4, 14), st.sampled_from(sorted(RANGES)),
        st.sampled_from(["cubic", "cubic", "cubic", "linear", "nearest"]),
    ).flatmap(lambda t: build(*t))


def is_log(case):
    return case["model"].startswith("log")


def make(case, nodes=None, **over):
    """The model, configured for `nodes` nodes."""
    names, _, lo, hi = RANGES[case["model"]]
    kwargs = dict(nodes=nodes or case["nodes"], kind=case["kind"],
                  regularize=case["rms"] is not None)
    kwargs.update(over)
    if case["default"]:
        if kwargs["kind"] == "cubic":
            kwargs.pop("kind")
        if not kwargs["regularize"]:
            kwargs.pop("regularize")
    with library("construction"):
        if case["model"].startswith("Spline"):
            from gwpopulation.models import spin

            if not case["default"]:
                kwargs.update(minimum=lo, maximum=hi)
            return getattr(spin, case["model"])(**kwargs)
        from gwpopulation.models.interped import InterpolatedNoBaseModelIdentical

        return InterpolatedNoBaseModelIdentical(
            parameters=list(names), minimum=lo, maximum=hi, log_nodes=is_log(case), **kwargs
        )


def node_positions(case, n=None):
    _, _, lo, hi = RANGES[case["model"]]
    n = n or case["nodes"]
    if is_log(case):
        a, b = np.log(lo), np.log(hi)
        ends = [a + (b - a) * e for e in case["ends"]]
        x = np.exp(np.linspace(*ends, n))
        if case["ends"][0] == 0:
            x[0] = lo
        if case["ends"][1] == 1:
            x[-1] = hi
        return x
    return np.linspace(*[lo + (hi - lo) * e for e in case["ends"]], n)


def hyper(case, vals=None, rms=None):
    base = RANGES[case["model"]][1]
    vals = case["values"] if vals is None else vals
    nodes = node_positions(case, len(vals))
    out = {f"{base}{ii}": float(nodes[ii]) for ii in range(len(vals))}
    out.update({f"f{base}{ii}": float(vals[ii]) for ii in range(len(vals))})
    rms = case["rms"] if rms is None else rms
    if rms is not None:
        out[f"rms{base}"] = rms
    return out


def effective(case, vals=None, rms=None):
    vals = np.asarray(case["values"] if vals is None else vals, float)
    rms = case["rms"] if rms is None else rms
    if rms is not None:
        vals = vals * rms / np.sqrt(np.mean(vals**2))
    return vals


def log_density(case, x, vals, n=None):
    func = np.log if is_log(case) else np.asarray
    nodes = node_positions(case, n or len(vals))
    return oracle.spline(func(x), func(nodes), vals, case["kind"])


def reference(case, data, vals):
    """(density, mask, error of the own grid)."""
    names, _, lo, hi = RANGES[case["model"]]
    nodes = node_positions(case, len(vals))
    a, b = max(lo, nodes[0]), min(hi, nodes[-1])
    if case["kind"] == "nearest":
        func, inv = (np.log, np.exp) if is_log(case) else (np.asarray, np.asarray)
        mid = inv((func(nodes)[1:] + func(nodes)[:-1]) / 2)
        edges = np.concatenate([[a, b], mid, nodes])
    else:
        edges = np.concatenate([[a, b], nodes])
    edges = np.unique(edges[(edges >= a) & (edges <= b)])
    xs, ws = oracle.gl_points(edges, nodes=32)
    top = np.max(vals)
    norm = np.sum(np.exp(log_density(case, xs, vals) - top) * ws)
    grid = np.linspace(lo, hi, 10 * len(vals))
    on = (grid >= nodes[0]) & (grid <= nodes[-1])
    approx = np.trapezoid(
        np.where(on, np.exp(log_density(case, np.clip(grid, nodes[0], nodes[-1]), vals) - top), 0),
        grid,
    )
    err = abs(approx / norm - 1)
    if case["kind"] == "nearest":
        # discontinuous: the grid may put each jump anywhere within a cell
        jumps = np.sum(np.abs(np.diff(np.exp(vals - top))))
        err += (grid[1] - grid[0]) * jumps / norm
    density, mask = 1.0, True
    for name in names:
        inside = (data[name] >= nodes[0]) & (data[name] <= nodes[-1])
        clipped = np.clip(data[name], nodes[0], nodes[-1])
        density = density * np.exp(log_density(case, clipped, vals) - top) / norm
        mask = mask & inside
    return np.where(mask, density, 0.0), mask, err * len(names)


def samples(case, n=16):
    names, _, lo, hi = RANGES[case["model"]]
    rng = rng_of(case["seed"])
    nodes = node_positions(case)
    data = {}
    for name in names:
        if is_log(case):
            x = np.exp(rng.uniform(np.log(lo * 0.9), np.log(hi * 1.1), n))
        else:
            x = rng.uniform(lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo), n)
        if case["kind"] != "nearest":
            x[0] = nodes[1]
            x[1] = nodes[len(nodes) // 2]
        x[2], x[3] = nodes[0], nodes[-1]
        x[4:9] = rng.uniform(nodes[0], nodes[-1], 5)
        data[name] = x
    return data


def usable(case):
    return case["rms"] is None or np.sqrt(np.mean(np.square(case["values"]))) > 1e-3


def call(model, case, data, params):
    with library(case["model"]):
        return np.asarray(model(backends.data(data, case["backend"]), **params))


@suite.check(
    spline_case(history=history(record(values=values(14), rms=loguni(0.1, 3)), weight=3)),
    quick=1600,
)
def density(case):
    if not usable(case):
        return False, ["all zero"]
    backends.use(case["backend"])
    data = samples(case)
    model, params = make(case), hyper(case)
    given = backends.data(data, case["backend"])
    replay([{**h, "params": hyper(case, h["params"]["values"][: case["nodes"]],
                                  h["params"]["rms"] if case["rms"] else None)}
            for h in case["history"]], params, lambda p: model(given, **p))
    got = call(model, case, data, params)
    vals = effective(case)
    want, mask, err = reference(case, data, vals)
    zero(got, ~mask, "density outside of the nodes")
    nonnegative(got, "density")
    # shape: one constant only
    ref = int(np.argmax(want))
    close(got / got[ref], want / want[ref], "log-density up to a constant", rtol=1e-7)
    if err < 0.3:
        close(got, want, "normalised density", rtol=1e-6 + 3 * err)
    return (
        np.sum(mask) >= 3 and len(set(case["values"])) > 1,
        [case["model"], case["kind"], "regularised" if case["rms"] else "plain",
         "resolved" if err < 0.05 else "coarse"],
    )


@suite.check(spline_case(), quick=250)
def integral(case):
    """The density integrates to one over the part of the range covered by the nodes."""
    names, _, lo, hi = RANGES[case["model"]]
    if not usable(case) or len(names) > 1 and case["kind"] == "nearest":
        return False, ["skipped"]
    backends.use(case["backend"])
    nodes = node_positions(case)
    a, b = max(lo, nodes[0]), min(hi, nodes[-1])
    edges = np.unique(np.concatenate([[a, b], np.clip(nodes, a, b)]))
    if case["kind"] == "nearest":
        func, inv = (np.log, np.exp) if is_log(case) else (np.asarray, np.asarray)
        mid = inv((func(nodes)[1:] + func(nodes)[:-1]) / 2)
        edges = np.unique(np.concatenate([edges, np.clip(mid, a, b)]))
    xs, ws = oracle.gl_points(edges, nodes=12)
    data = {names[0]: xs}
    if len(names) > 1:
        one = np.full(xs.shape, (a + b) / 2)
        data[names[1]] = one
    got = call(make(case), case, data, hyper(case))
    vals = effective(case)
    want, _, err = reference(case, data, vals)
    total = np.sum(got * ws)
    expected = np.sum(want * ws)
    if err < 0.3:
        close(total, expected, "integral", rtol=1e-6 + 3 * err)
    return err < 0.3, [case["model"], case["kind"]]


@suite.check(spline_case(shift=mix(uni(-30, 30), 5, -5), factor=loguni(0.05, 20)), quick=700)
def invariances(case):
    """A constant added to all node values, or a factor on regularised ones, changes nothing."""
    if not usable(case):
        return False, ["all zero"]
    backends.use(case["backend"])
    data = samples(case)
    names = RANGES[case["model"]][0]
    model = make(case)
    base = call(model, case, data, hyper(case))
    if case["rms"] is None:
        other = call(model, case, data, hyper(case, [v + case["shift"] for v in case["values"]]))
        close(other, base, "constant added to the node values", rtol=1e-9, atol=1e-300)
    else:
        other = call(model, case, data, hyper(case, [v * case["factor"] for v in case["values"]]))
        close(other, base, "scaled regularised node values", rtol=1e-8, atol=1e-300)
        rms = case["rms"] * 1.5
        third = call(model, case, data, hyper(case, rms=rms))
        want, _, err = reference(case, data, effective(case, rms=rms))
        ref = int(np.argmax(want))
        close(third / third[ref], want / want[ref], "requested root-mean-square", rtol=1e-7)
    # the components share one density
    if len(names) == 2:
        swapped = {names[0]: data[names[1]], names[1]: data[names[0]]}
        fresh = make(case)
        close(call(fresh, case, swapped, hyper(case)), base, "exchanged components", rtol=1e-9,
              atol=1e-300)
    return len(set(case["values"])) > 1, [case["model"], "rms" if case["rms"] else "shift"]


@suite.check(spline_case(extra=st.integers(1, 6), history=st.booleans()), quick=500)
def more_nodes(case):
    """More nodes than configured: same as a model configured with that many."""
    if not usable(case):
        return False, ["all zero"]
    backends.use(case["backend"])
    fewer = max(case["nodes"] - case["extra"], 1)
    data = samples(case)
    model = make(case, nodes=fewer)
    if case["history"] and fewer >= 4:
        sub = hyper(case, [1.0 + 0.1 * ii for ii in range(fewer)])
        call(model, case, data, sub)
    got = call(model, case, data, hyper(case))
    vals = effective(case)
    want, mask, err = reference(case, data, vals)
    zero(got, ~mask, "density outside of the nodes")
    ref = int(np.argmax(want))
    close(got / got[ref], want / want[ref], "log-density with more nodes", rtol=1e-7)
    if err < 0.3:
        close(got, want, "normalised density with more nodes", rtol=1e-6 + 3 * err)
    same = call(make(case), case, data, hyper(case))
    close(got, same, "configured number of nodes", rtol=1e-9, atol=1e-300)
    with library("variable_names"):
        names = set(model.variable_names)
        expected = set(make(case).variable_names)
    if names != expected:
        from ..core import Violation

        raise Violation(f"declared names {sorted(names)} after adding nodes")
    return True, [case["model"], "regularised" if case["rms"] else "plain"]


# -- interpolated power law -----------------------------------------------------


def mass_case(**extra):
    def build(n):
        return record(
            nodes=st.just(n),
            values=values(n),
            rms=weighted(st.none(), st.none(), loguni(0.1, 2)),
            kind=st.sampled_from(["cubic", "cubic", "linear"]),
            span=st.sampled_from([[2.0, 100.0], [2.0, 100.0], [2.0, 100.0], [3.0, 100.0],
                                  [2.0, 90.0], [6.0, 60.0], [1.5, 120.0]]),
            mmax_config=st.sampled_from([100.0, 100.0, 120.0]),
            params=st.fixed_dictionaries(
                {**catalog.MASS, **catalog.BETA, "delta_m": mix(uni(0.2, 8), 0, 4)}
            ),
            seed=seeds(),
            backend=BACKENDS,
            **extra,
        )

    return st.integers(4, 12).flatmap(build)


def mass_model(case):
    from gwpopulation.models.mass import InterpolatedPowerlaw

    with library("construction"):
        return InterpolatedPowerlaw(
            nodes=case["nodes"], kind=case["kind"], mmax=case["mmax_config"],
            normalization_shape=(1000, 200), regularize=case["rms"] is not None,
        )


def mass_hyper(case):
    nodes = np.exp(np.linspace(*np.log(case["span"]), case["nodes"]))
    nodes[0], nodes[-1] = case["span"]
    out = dict(case["params"])
    out.update({f"mass{ii}": float(x) for ii, x in enumerate(nodes)})
    out.update({f"fmass{ii}": float(v) for ii, v in enumerate(case["values"])})
    if case["rms"] is not None:
        out["rmsmass"] = case["rms"]
    return out, nodes


def mass_shape(case, m, nodes):
    p = case["params"]
    vals = effective(dict(values=case["values"], rms=case["rms"]))
    inside = (m >= nodes[0]) & (m <= nodes[-1])
    curve = oracle.spline(
        np.log(np.clip(m, nodes[0], nodes[-1])), np.log(nodes), vals - np.max(vals), case["kind"]
    )
    return (
        oracle.powerlaw(m, -p["alpha"], p["mmax"], p["mmin"])
        * oracle.taper(m, p["mmin"], p["delta_m"])
        * np.exp(curve)
        * inside
    )


@suite.check(mass_case(), quick=500)
def interpolated_power_law(case):
    if not usable(case):
        return False, ["all zero"]
    backends.use(case["backend"])
    p = case["params"]
    params, nodes = mass_hyper(case)
    rng = rng_of(case["seed"])
    m = np.exp(rng.uniform(np.log(2.05), np.log(99), 14))
    m[0], m[1] = 101.0, 1.2
    m[2:6] = p["mmin"] + (p["delta_m"] + 0.5) * rng.uniform(0.1, 1.1, 4)
    q = rng.uniform(0.7, 1, 14)
    data = dict(mass_1=m, mass_ratio=q)
    with library("InterpolatedPowerlaw"):
        joint = np.asarray(mass_model(case)(backends.data(data, case["backend"]), **params))
        got = np.asarray(
            mass_model(case).p_m1(
                backends.data(dict(mass_1=m), case["backend"]),
                **{k: v for k, v in params.items() if k != "beta"},
            )
        )
    want = mass_shape(case, m, nodes)
    outside = (m < p["mmin"]) | (m > p["mmax"]) | (m < nodes[0]) | (m > nodes[-1])
    zero(got, outside, "primary mass density")
    zero(joint, outside | (m * q < p["mmin"] * (1 - 1e-12)), "joint density")
    nonnegative(got, "primary mass density")
    nonnegative(joint, "joint density")
    ref = int(np.argmax(want))
    if want[ref] <= 0:
        return False, ["no support"]
    ok = want > 1e-10 * want[ref]
    rtol = 1e-6 + (1e-12 * m / p["delta_m"] / np.clip((m - p["mmin"]) / p["delta_m"], 1e-6, 1) ** 2
                   if p["delta_m"] > 0 else 0)
    close(got / got[ref], want / want[ref], "primary mass shape",
          rtol=np.where(ok, rtol, 1), where=ok)
    # normalisation over the primary mass
    a, b = max(nodes[0], p["mmin"]), min(nodes[-1], p["mmax"])
    edges = np.concatenate([
        [a, b], nodes, p["mmin"] + p["delta_m"] * np.linspace(0, 1, 15),
        np.exp(np.linspace(np.log(a), np.log(b), 20)),
    ])
    edges = np.unique(edges[(edges >= a) & (edges <= b)])
    xs, ws = oracle.gl_points(edges, nodes=20)
    total = np.sum(mass_shape(case, xs, nodes) * ws)
    grid = np.linspace(2, case["mmax_config"], 1000)
    err = abs(np.trapezoid(mass_shape(case, grid, nodes), grid) / total - 1)
    if err < 0.2:
        close(got, want / total, "primary mass normalisation",
              rtol=np.where(ok, 3 * rtol + 3 * err, 1), where=ok)
    # conditional mass ratio: same factor as without a spline
    both = ok & (joint > 0) & (m * q > p["mmin"] + p["delta_m"])
    if p["delta_m"] == 0 and both.any():
        ratio = catalog.conditional_q(data, p["beta"], p["mmin"])
        with np.errstate(all="ignore"):
            close(joint / got, ratio, "conditional mass ratio", rtol=1e-6, where=both)
    return np.sum(ok) >= 3, ["resolved" if err < 0.2 else "coarse",
                             "regularised" if case["rms"] else "plain", case["backend"]]


_ = scalar
