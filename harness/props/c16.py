"""C16: sample by sample, whatever the shape."""

import numpy as np
from hypothesis import strategies as st

from .. import backends, scenario, zoo
from ..compare import as_array, close
from ..core import Suite, Violation, library
from ..gen import record, rng_of, seeds, weighted

suite = Suite(
    "C16",
    "Every population model in a drawn configuration is evaluated (a new instance each time) on a "
    "flat data set and on permuted, sliced, concatenated (with other data), repeated and reshaped "
    "(events by samples, more dimensions, single samples, non-contiguous views) versions of it; "
    "the results must be the corresponding rearrangements. Also products of models and complete "
    "likelihood weights. Non-trivial: at least three different values in the reference result.",
    [
        "each data set is given to a new instance, as models may remember the data of their first "
        "call (see C15)",
        "comparison at 1e-10 relative (vectorised loops may differ in the last digits)",
    ],
)

BACKEND = weighted(*[st.just("numpy")] * 8, st.just("jax"))
RTOL = 1e-10


def compare(got, want, what):
    scale = np.nanmax(np.abs(want), initial=0) if want.size else 0
    close(got, want, what, rtol=RTOL, atol=1e-14 * scale if np.isfinite(scale) else 0)


CASE = record(
    model=zoo.models(), n=weighted(*[st.integers(2, 14)] * 12, st.integers(100, 1500)),
    backend=BACKEND, seed=seeds(), other=st.integers(1, 9), rows=st.integers(2, 4),
    slim=st.booleans(), company=st.sampled_from(["usual", "usual", "large", "negative", "nan"]),
)


@suite.check(CASE, quick=2200)
def rearranged(case):
    backend = case["backend"]
    backends.use(backend)
    m = case["model"]
    params = m["params"][0]
    rng = rng_of(case["seed"])
    n = case["n"] if backend == "numpy" else 6
    data = zoo.data(m, rng, (n,))
    other = zoo.data(m, rng, (case["other"] if backend == "numpy" else 6,))

    def value(dataset, what, view=None):
        given = zoo.given(dataset, backend)
        if view is not None:
            given = {k: view(v) for k, v in given.items()}
        shape = next(iter(given.values())).shape
        got = as_array(zoo.evaluate(m, zoo.build(m), given, params), what)
        if got.shape != shape:
            raise Violation(f"{m['kind']} {what}: shape {got.shape} for data of shape {shape}")
        return got

    base = value(data, "flat")
    what = m["kind"]
    perm = rng.permutation(n)
    compare(value({k: v[perm] for k, v in data.items()}, "permuted"), base[perm],
            f"{what} permuted")
    if case["slim"] or backend == "jax":
        # samples far out of the domain have no influence on the others either
        factor = dict(usual=1.0, large=37.0, negative=-1.0, nan=np.nan)[case["company"]]
        other = {k: v * factor for k, v in other.items()}
        compare(value({k: np.concatenate([v, other[k]]) for k, v in data.items()},
                      "concatenated"),
                np.concatenate([base, value(other, "other data")]), f"{what} concatenated")
    else:
        cut = int(rng.integers(1, n))
        compare(value({k: v[:cut] for k, v in data.items()}, "sliced"), base[:cut],
                f"{what} sliced")
        compare(value({k: v[::-1] for k, v in data.items()}, "reversed view", lambda v: v),
                base[::-1], f"{what} reversed")
        one = int(rng.integers(n))
        compare(value({k: v[one:one + 1] for k, v in data.items()}, "single"),
                base[one:one + 1], f"{what} single sample")
        compare(value({k: v[one] for k, v in data.items()}, "zero-dimensional"), base[one],
                f"{what} single sample without an axis")
    rows = case["rows"] if backend == "numpy" else 2
    tiled = {k: np.stack([np.roll(v, ii) for ii in range(rows)]) for k, v in data.items()}
    want = np.stack([np.roll(base, ii) for ii in range(rows)])
    compare(value(tiled, "events by samples"), want, f"{what} events by samples")
    if backend == "numpy":
        compare(value({k: v[:, None, :] for k, v in tiled.items()}, "three dimensions"),
                want[:, None, :], f"{what} in three dimensions")
    elif case["seed"] % 2:
        compare(value({k: v[:, None, :] for k, v in tiled.items()}, "three dimensions"),
                want[:, None, :], f"{what} in three dimensions")
    if backend == "numpy":
        compare(value(tiled, "transposed", lambda v: v.T), want.T, f"{what} transposed view")
        compare(value({k: np.repeat(v, 2) for k, v in data.items()}, "strided",
                      lambda v: v[::2]), base, f"{what} strided view")
    different = len(np.unique(base))
    return different >= 3, [m["kind"], backend]


@suite.check(
    record(population=st.sampled_from(sorted(scenario.POPULATIONS)), seed=seeds(),
           events=st.integers(1, 4), samples=st.integers(2, 9), cache=st.booleans()).flatmap(
        lambda c: st.fixed_dictionaries(scenario.names_of(c["population"])).map(
            lambda p: dict(c, params=p))
    ),
    quick=500,
)
def composite(case):
    """The product of several models, as a likelihood evaluates it, event by event."""
    from bilby.hyper.model import Model

    backends.use("numpy")
    rng = rng_of(case["seed"])
    e, s = case["events"], case["samples"]
    data = {k: v.reshape(e, s) for k, v in scenario.draw(case["population"], rng, e * s).items()}

    def value(dataset):
        with library("composite model"):
            model = Model(scenario.models_of(case["population"]), cache=case["cache"])
            return as_array(model.prob(dataset, **case["params"]), "probability")

    base = value(data)
    if base.shape != (e, s):
        raise Violation(f"shape {base.shape} for data of shape {(e, s)}")
    for ii in range(e):
        compare(value({k: v[ii] for k, v in data.items()}), base[ii], f"event {ii} alone")
    order = rng.permutation(e)
    compare(value({k: v[order] for k, v in data.items()}), base[order], "events reordered")
    compare(value({k: v.ravel() for k, v in data.items()}), base.ravel(), "flattened")
    return len(np.unique(base)) >= 3, [case["population"]]
