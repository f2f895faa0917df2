"""Generators (Hypothesis strategies) shared by the checks."""

import numpy as np
from hypothesis import strategies as st

# Hypothesis draws large bounded integers mostly near the lower end; bytes are uniform.
TOP = 2**24 - 1
_unit = st.binary(min_size=3, max_size=3).map(lambda b: int.from_bytes(b, "big"))


def uni(lo, hi):
    """A float uniform on a fine grid over [lo, hi]; shrinks to lo."""
    return _unit.map(lambda i: lo + (hi - lo) * (i / TOP))


def inner(lo, hi):
    """As uni, strictly inside (lo, hi)."""
    return _unit.map(lambda i: lo + (hi - lo) * ((i + 1) / (TOP + 2)))


def loguni(lo, hi):
    a, b = np.log(lo), np.log(hi)
    return _unit.map(lambda i: float(np.exp(a + (b - a) * (i / TOP))))


def mix(base, *specials):
    """The base strategy, or (in about a third of the cases) a special value."""
    if not specials:
        return base
    special = st.sampled_from([float(s) for s in specials])
    return weighted(base, base, special)


def near(base, *specials):
    """As mix, and sometimes close to a special value but not at it."""
    close_by = st.tuples(st.sampled_from([float(s) for s in specials]), st.booleans(),
                         loguni(1e-6, 1e-3)).map(lambda t: t[0] + (t[2] if t[1] else -t[2]))
    return weighted(*[mix(base, *specials)] * 5, close_by)


def weighted(*options):
    """one_of in which a repeated option counts repeatedly (one_of removes duplicates)."""
    return st.sampled_from(range(len(options))).flatmap(lambda ii: options[ii])


def seeds():
    return st.binary(min_size=4, max_size=4).map(lambda b: int.from_bytes(b, "big"))


def rng_of(seed):
    return np.random.default_rng(seed)


def record(**fields):
    return st.fixed_dictionaries(fields)


# -- histories -----------------------------------------------------------------------

RELATIONS = ["independent", "one differs", "one differs", "nudged", "swapped", "sign",
             "interpolated", "same"]


def related(first, other, relation, which):
    """Hyperparameters that have much in common with the first ones (memory is often keyed)."""
    names = [k for k in sorted(first) if first[k] != other.get(k, first[k])]
    out = dict(first)
    if relation == "independent" or not names:
        return {**first, **{k: other[k] for k in first if k in other}}
    name = names[which % len(names)]
    if relation == "one differs":
        out[name] = other[name]
    elif relation == "nudged":
        out[name] = first[name] + 10.0 ** -(2 + which % 6) * (other[name] - first[name])
    elif relation == "swapped":
        partner = names[(which // 7 + 1 + which % len(names)) % len(names)]
        out[name], out[partner] = first[partner], first[name]
    elif relation == "sign":
        out[name] = -first[name]
    elif relation == "interpolated":
        for k in names:
            out[k] = (first[k] + other[k]) / 2
    return out


def history(params, size=3, weight=2):
    """Earlier uses of the object under test: none, or with related hyperparameters."""
    step = record(params=params, relation=st.sampled_from(RELATIONS), which=st.integers(0, 60))
    return weighted(*[st.just([])] * weight, *[st.lists(step, min_size=1, max_size=size)] * 2)


def replay(steps, params, call):
    """Run the earlier uses; whether they succeed does not matter."""
    for step in steps:
        try:
            call(related(params, step["params"], step["relation"], step["which"]))
        except Exception:
            pass
