"""Switching backends and building arrays for them."""

import numpy as np

from .core import library


def use(name):
    import gwpopulation

    with library(f"set_backend({name!r})"):
        gwpopulation.set_backend(name)


def xp(name):
    if name == "jax":
        import jax.numpy as jnp

        return jnp
    return np


def arr(value, name):
    return xp(name).asarray(np.asarray(value, float))


def data(dct, name):
    return {k: arr(v, name) for k, v in dct.items()}
