"""C05: spin models."""

import numpy as np
from hypothesis import strategies as st

from .. import backends, catalog, oracle
from ..compare import close, nonnegative, zero
from ..core import Suite, library
from ..gen import history, inner, loguni, mix, near, record, replay, rng_of, seeds, uni

suite = Suite(
    "C05",
    "Hyperparameters are drawn over their domain (maximum spin below, at and above one, mixing "
    "fractions 0 and 1, means inside, at the end of and outside the range, correlations of both "
    "signs) with spins in the physical range (and outside it for magnitudes and effective spins); "
    "values are compared with independent references, swaps and iid/independent pairs with each "
    "other, integrals by quadrature with one. Non-trivial: at least two samples with non-zero "
    "reference density.",
    [
        "reference densities in harness/oracle.py",
        "the correlated model is normalised on its own grid: tolerance three times the error of a "
        "500 x 250 trapezoidal rule plus 1e-6",
        "domain: |cos tilt| <= 1 for the tilt mixture (its isotropic part is a constant)",
    ],
)

SPECS = [s for s in catalog.FUNCTIONS if s.module == "spin"]
BACKENDS = st.sampled_from(["numpy"] * 6 + ["jax"])
SHAPES = st.sampled_from([[16], [16], [4, 4], [1]])
WIDE_AMAX = mix(uni(0.2, 1.4), 1, 0.8)


def case_of(specs):
    out = []
    for s in specs:
        params = {k: WIDE_AMAX if k.startswith("amax") else v for k, v in s.params.items()}
        out.append(
            record(
                model=st.just(s.name),
                params=st.fixed_dictionaries(params, optional=s.optional),
                seed=seeds(),
                backend=BACKENDS,
                shape=SHAPES,
            )
        )
    return st.one_of(out)


def run(name, backend, data, params):
    spec = catalog.MODELS[name]
    backends.use(backend)
    with library(name):
        return np.asarray(spec.build()(backends.data(data, backend), **params))


def tolerance(name, backend):
    if backend == "numpy":
        return 1e-7
    return 3e-5 if "beta" in name or name == "iid_spin" else 1e-5


@suite.check(case_of(SPECS), quick=2600)
def pointwise(case):
    name = case["model"]
    spec = catalog.MODELS[name]
    rng = rng_of(case["seed"])
    data = spec.make_data(rng, case["shape"])
    p = case["params"]
    at_end = np.zeros(case["shape"], bool)
    for key in ("a_1", "a_2"):
        if key in data and data[key].size > 4:
            flat = data[key].ravel()
            flat[0] = rng.uniform(1.4001, 2)
            flat[1] = -rng.uniform(0.001, 0.5)
            number = key[-1]
            suffix = f"_{number}" if f"amax_{number}" in p else ""
            if p["alpha_chi" + suffix] >= 1 and case["seed"] % 3 == 0:
                flat[4] = 0.0
            # not just above one, where rounding x / amax would decide between zero and not
            beta = p["beta_chi" + suffix]
            if (beta == 1 or beta > 2) and case["seed"] % 3 == 1:
                flat[5] = p["amax" + suffix]
                at_end |= (np.arange(flat.size) == 5).reshape(at_end.shape)
            data[key] = flat.reshape(data[key].shape)
    for key in ("cos_tilt_1", "cos_tilt_2"):
        if key in data and data[key].size > 4:
            flat = data[key].ravel()
            flat[2], flat[3] = 1.0, -1.0
            data[key] = flat.reshape(data[key].shape)
    for key, ends in (("chi_eff", (-1.0, 1.0)), ("chi_p", (0.0, 1.0))):
        if key in data and data[key].size > 4:
            flat = data[key].ravel()
            flat[4:6] = ends
            data[key] = flat.reshape(data[key].shape)
    got = run(name, case["backend"], data, p)
    want = spec.reference(data, **p)
    scale = np.max(np.where(np.isfinite(want), want, 0), initial=0)
    close(got, want, name, rtol=tolerance(name, case["backend"]),
          atol=np.where(at_end, 1e-10 * scale, 1e-250))
    nonnegative(got, name)
    zero(got, (want == 0) & ~at_end, name)
    if case["seed"] % 4 == 0 and want.size:
        # one binary, given as numbers
        one = int(np.argmax(want))
        alone = run(name, case["backend"], {k: v.ravel()[one] for k, v in data.items()}, p)
        close(np.ravel(alone), want.ravel()[one:one + 1], f"{name} of a single binary",
              rtol=tolerance(name, case["backend"]), atol=1e-250)
    return np.sum(want > 0) >= 2, [name, case["backend"]]


def line(lo, hi, mu, sigma):
    pts = [lo, hi]
    near = float(np.clip(mu, lo, hi))
    pts += [near + k * sigma for k in (-6, -3, -1.5, 0, 1.5, 3, 6)]
    dist = max(lo - mu, mu - hi)
    if dist > 0:
        pts += [near + k * sigma**2 / dist for k in (-20, -8, -3, -1, 1, 3, 8, 20)]
    pts = [x for x in pts if lo <= x <= hi]
    return oracle.gl_points(sorted(set(pts)), nodes=20)


@suite.check(case_of(SPECS), quick=500)
def integral(case):
    name, p, b = case["model"], case["params"], case["backend"]
    if name.startswith("gaussian_chi"):
        key = name[len("gaussian_"):]
        lo = -1.0 if key == "chi_eff" else 0.0
        xs, ws = line(lo, 1.0, p[f"mu_{key}"], p[f"sigma_{key}"])
        got = run(name, b, {key: xs}, p)
        close(np.sum(got * ws), 1.0, f"{name} integral", rtol=1e-5)
        return True, [name]
    data, weights = {}, []
    if "tilt" in name or "orientation" in name or name == "iid_spin":
        for i in (1, 2):
            mu = p.get(f"mu_{i}", p.get("mu_spin", 1.0))
            sig = p.get(f"sigma_{i}", p.get("sigma_spin"))
            xs, ws = line(-1.0, 1.0, mu, sig)
            data[f"cos_tilt_{i}"] = xs
            weights.append(ws)
        g1, g2 = np.meshgrid(data["cos_tilt_1"], data["cos_tilt_2"], indexing="ij")
        w = weights[0][:, None] * weights[1]
        data = dict(cos_tilt_1=g1, cos_tilt_2=g2)
        if name == "iid_spin":
            a = 0.37 * p["amax"]
            data.update(a_1=np.full(g1.shape, a), a_2=np.full(g1.shape, a))
            want = float(oracle.beta(a, p["alpha_chi"], p["beta_chi"], p["amax"])) ** 2
        else:
            want = 1.0
        got = run(name, b, data, p)
        close(np.sum(got * w), want, f"{name} integral", rtol=1e-4, atol=1e-250)
        return True, [name]
    # magnitudes: x = amax (1 - cos t) / 2 smooths the ends for shapes >= 1
    shapes = [p.get("alpha_chi_1", p.get("alpha_chi")), p.get("beta_chi_1", p.get("beta_chi"))]
    shapes += [p.get("alpha_chi_2", p.get("alpha_chi")), p.get("beta_chi_2", p.get("beta_chi"))]
    if min(shapes) < 1:
        return False, ["singular end"]
    t, w = oracle.gl_points(np.linspace(0, np.pi, 4), nodes=24)
    grids = []
    for i in (1, 2):
        amax = p.get(f"amax_{i}", p.get("amax"))
        grids.append((amax * (1 - np.cos(t)) / 2, w * amax * np.sin(t) / 2))
    g1, g2 = np.meshgrid(grids[0][0], grids[1][0], indexing="ij")
    got = run(name, b, dict(a_1=g1, a_2=g2), p)
    close(
        np.sum(got * grids[0][1][:, None] * grids[1][1]), 1.0, f"{name} integral", rtol=1e-4
    )
    return True, [name]


@suite.check(
    record(
        one=record(a=catalog.SPIN_SHAPE, b=catalog.SPIN_SHAPE, amax=WIDE_AMAX,
                   sigma=mix(loguni(0.1, 8), 1), mu=mix(uni(-1.5, 1.5), 0, 1)),
        two=record(a=catalog.SPIN_SHAPE, b=catalog.SPIN_SHAPE, amax=WIDE_AMAX,
                   sigma=mix(loguni(0.1, 8), 1), mu=mix(uni(-1.5, 1.5), 0, 1)),
        xi=catalog.fraction,
        seed=seeds(),
        backend=BACKENDS,
    ),
    quick=600,
)
def symmetry(case):
    """iid = independent with equal parameters; swapping labels with parameters."""
    b, one, two, xi = case["backend"], case["one"], case["two"], case["xi"]
    data = catalog.spin_data(rng_of(case["seed"]), (16,))
    swapped = {
        "a_1": data["a_2"], "a_2": data["a_1"],
        "cos_tilt_1": data["cos_tilt_2"], "cos_tilt_2": data["cos_tilt_1"],
    }

    def mag(x, y):
        return dict(alpha_chi_1=x["a"], alpha_chi_2=y["a"], beta_chi_1=x["b"],
                    beta_chi_2=y["b"], amax_1=x["amax"], amax_2=y["amax"])

    def tilt(x, y):
        return dict(xi_spin=xi, sigma_1=x["sigma"], sigma_2=y["sigma"], mu_1=x["mu"],
                    mu_2=y["mu"])

    ind_m, ind_t = "independent_spin_magnitude_beta", "independent_spin_orientation_gaussian_isotropic"
    iid_m, iid_t = "iid_spin_magnitude_beta", "iid_spin_orientation_gaussian_isotropic"
    t = dict(rtol=1e-6, atol=1e-250)
    close(run(ind_m, b, data, mag(one, two)), run(ind_m, b, swapped, mag(two, one)),
          "magnitude swap", **t)
    close(run(ind_t, b, data, tilt(one, two)), run(ind_t, b, swapped, tilt(two, one)),
          "tilt swap", **t)
    pm = dict(amax=one["amax"], alpha_chi=one["a"], beta_chi=one["b"])
    close(run(iid_m, b, data, pm), run(ind_m, b, data, mag(one, one)), "iid magnitude", **t)
    pt = dict(xi_spin=xi, sigma_spin=one["sigma"], mu_spin=one["mu"])
    close(run(iid_t, b, data, pt), run(ind_t, b, data, tilt(one, one)), "iid tilt", **t)
    pt1 = dict(xi_spin=xi, sigma_spin=one["sigma"])
    close(
        run("iid_spin", b, data, {**pm, **pt1}),
        run(iid_m, b, data, pm) * run(iid_t, b, data, pt1),
        "iid spin factorises", **t,
    )
    close(run(iid_t, b, data, {**pt1, "xi_spin": 0.0}), np.full(16, 0.25), "isotropic", **t)
    # positional arguments in the documented order
    from gwpopulation.models import spin

    arrays = backends.data(data, b)
    with library("defaults"):
        flat = np.asarray(spin.iid_spin_magnitude_beta(arrays))
    close(flat, np.ones(16), "default magnitude distribution is uniform", rtol=1e-7)
    return True, ["equal" if one == two else "different"]


CORRELATED = dict(
    mu_chi_eff=mix(uni(-1, 1), 0, 1.1),
    sigma_chi_eff=mix(loguni(0.05, 6), 1),
    mu_chi_p=mix(uni(0, 1), 0, -0.1),
    sigma_chi_p=mix(loguni(0.05, 6), 1),
    spin_covariance=near(inner(-0.95, 0.95), 0, 0.5, -0.5),
)


@suite.check(
    record(**CORRELATED, history=history(record(**CORRELATED)), seed=seeds(), backend=BACKENDS),
    quick=600,
)
def correlated(case):
    b = case["backend"]
    p = {k: v for k, v in case.items() if k in CORRELATED}
    rng = rng_of(case["seed"])
    e = np.clip(p["mu_chi_eff"] + 2 * p["sigma_chi_eff"] * rng.standard_normal(16), -0.999, 0.999)
    c = np.clip(p["mu_chi_p"] + 2 * p["sigma_chi_p"] * rng.standard_normal(16), 0.001, 0.999)
    e[0], e[1], c[2], c[3] = 1.02, -1.3, 1.01, -0.02
    # the ends belong to the physical domain
    e[4], e[5], c[6], c[7] = 1.0, -1.0, 1.0, 0.0
    backends.use(b)
    with library("GaussianChiEffChiP"):
        model = catalog.CHI_MODEL.build()
    data = backends.data(dict(chi_eff=e, chi_p=c), b)
    replay(case["history"], p, lambda h: model(data, **h))
    with library("GaussianChiEffChiP"):
        got = np.asarray(model(data, **p))
    args = (p["mu_chi_eff"], p["mu_chi_p"], p["sigma_chi_eff"], p["sigma_chi_p"],
            p["spin_covariance"])
    shape = oracle.gaussian_2d(e, c, *args)
    out = (np.abs(e) > 1) | (c < 0) | (c > 1)
    zero(got, out, "correlated spins")
    nonnegative(got, "correlated spins")
    # exact normalisation: the chi_p integral in closed form, chi_eff by quadrature
    rho, se, sp = p["spin_covariance"], p["sigma_chi_eff"], p["sigma_chi_p"]
    xs, ws = line(-1.0, 1.0, p["mu_chi_eff"], se)
    edges = np.linspace(-1, 1, 81)
    xs, ws = oracle.gl_points(np.union1d(edges, xs[::20]), nodes=12)
    cond = p["mu_chi_p"] + rho * sp / se * (xs - p["mu_chi_eff"])
    sc = sp * np.sqrt(1 - rho**2)
    mass = np.exp(oracle.log_normal_mass((0 - cond) / sc, (1 - cond) / sc))
    exact = np.sum(
        ws * np.exp(-((xs - p["mu_chi_eff"]) ** 2) / 2 / se**2) * mass * sc * np.sqrt(2 * np.pi)
    )
    ge, gp = np.meshgrid(np.linspace(-1, 1, 500), np.linspace(0, 1, 250))
    grid = oracle.gaussian_2d(ge, gp, *args)
    approx = np.trapezoid(np.trapezoid(grid, ge[0], axis=-1), gp[:, 0])
    err = abs(approx / exact - 1)
    want = np.where(out, 0, shape / exact)
    ok = want > 1e-200
    if err < 0.1:
        close(got, want, "correlated spin density", rtol=1e-6 + 3 * err, where=ok)
    ref = int(np.argmax(want))
    close(got / got[ref], want / want[ref], "correlated spin shape", rtol=1e-7, where=ok)
    return err < 0.1 and np.sum(ok) >= 2, ["rho<0" if rho < 0 else "rho>=0"]
