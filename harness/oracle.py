"""
Reference implementations, written from the documentation, numpy/scipy only.

They are deliberately written differently from the library (log space, erfcx,
Gauss-Legendre quadrature instead of closed forms in the library's arrangement).
"""

import numpy as np
from scipy import special, stats

_NODES, _WEIGHTS = np.polynomial.legendre.leggauss(64)
_NODES20, _WEIGHTS20 = np.polynomial.legendre.leggauss(20)


def gauss_legendre(func, lo, hi, pieces=1, nodes=None):
    """Integrate a vectorised function over [lo, hi] (composite Gauss-Legendre)."""
    x, w = (_NODES, _WEIGHTS) if nodes is None else np.polynomial.legendre.leggauss(nodes)
    edges = np.linspace(lo, hi, pieces + 1)
    half = np.diff(edges) / 2
    mid = (edges[1:] + edges[:-1]) / 2
    xs = mid[:, None] + half[:, None] * x
    return float(np.sum(func(xs.ravel()).reshape(xs.shape) * w * half[:, None]))


def gl_points(edges, nodes=None):
    """Points and weights of a composite rule over increasing edges (zero pieces dropped)."""
    x, w = (_NODES, _WEIGHTS) if nodes is None else np.polynomial.legendre.leggauss(nodes)
    edges = np.unique(np.asarray(edges, float))
    half = np.diff(edges) / 2
    mid = (edges[1:] + edges[:-1]) / 2
    return (mid[:, None] + half[:, None] * x).ravel(), (w * half[:, None]).ravel()


# -- one-dimensional densities ------------------------------------------------


def powerlaw(x, alpha, high, low):
    x, alpha, high, low = np.broadcast_arrays(
        *(np.asarray(v, float) for v in (x, alpha, high, low))
    )
    out = np.zeros(x.shape)
    ok = (x >= low) & (x <= high) & (high > low)
    if not ok.any():
        return out
    x, alpha, high, low = x[ok], alpha[ok], high[ok], low[ok]
    g = 1 + alpha
    res = np.empty(x.shape)
    pos = low > 0
    # positive lower limit: x^a / (low^g * expm1(g * L) / g), L = log(high / low)
    with np.errstate(all="ignore"):
        ell = np.log(high / np.where(pos, low, high))
        small = np.abs(g * ell) < 1e-12
        mass = np.where(small, ell * (1 + g * ell / 2), np.expm1(g * ell) / np.where(g == 0, 1, g))
        ratio = np.log(np.where(x > 0, x, 1) / np.where(pos, low, 1))
        res = np.exp(alpha * ratio) / np.where(pos, low, 1) / mass
        # zero lower limit needs alpha > -1
        zero_low = g / high * (x / high) ** alpha
    out[ok] = np.where(pos, res, zero_low)
    return out


def log_normal_mass(a, b):
    """log(Phi(b) - Phi(a)) without cancellation, a < b."""
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    # reflect so that the interval is on the positive side if it does not contain 0
    flip = b <= 0
    lo = np.where(flip, -b, a)
    hi = np.where(flip, -a, b)
    out = np.empty(lo.shape)
    straddle = lo <= 0
    r2 = np.sqrt(2.0)
    with np.errstate(all="ignore"):
        both = np.log(0.5 * (special.erf(hi / r2) + special.erf(-lo / r2)))
        # lo > 0: 0.5 exp(-lo^2/2) (erfcx(lo) - exp((lo^2 - hi^2)/2) erfcx(hi))
        width = hi - lo
        tail = 0.5 * (
            special.erfcx(lo / r2)
            - np.exp(-width * (lo + hi) / 2) * special.erfcx(hi / r2)
        )
        # narrow intervals: quadrature of phi(lo + t) / phi(lo)
        t = (width / 2)[..., None] * (_NODES + 1)
        quad = (
            np.sum(np.exp(-lo[..., None] * t - t**2 / 2) * _WEIGHTS, axis=-1)
            * width
            / 2
            / np.sqrt(2 * np.pi)
        )
        narrow = width * (1 + np.abs(lo)) < 5
        one = -(lo**2) / 2 + np.log(np.where(narrow, quad, tail))
        tiny = straddle & (width < 1)
        # straddling but narrow: quadrature about lo as well (no cancellation anyway)
    out = np.where(straddle, both, one)
    del tiny
    return out


def truncnorm(x, mu, sigma, high, low):
    x, mu, sigma, high, low = np.broadcast_arrays(
        *(np.asarray(v, float) for v in (x, mu, sigma, high, low))
    )
    z = (x - mu) / sigma
    logmass = log_normal_mass((low - mu) / sigma, (high - mu) / sigma)
    with np.errstate(all="ignore"):
        pdf = np.exp(-(z**2) / 2 - 0.5 * np.log(2 * np.pi) - np.log(sigma) - logmass)
    return np.where((x >= low) & (x <= high), pdf, 0.0)


def beta(x, alpha, b, scale=1.0):
    x, alpha, b, scale = np.broadcast_arrays(
        *(np.asarray(v, float) for v in (x, alpha, b, scale))
    )
    return stats.beta.pdf(x / scale, alpha, b) / scale


def von_mises(x, mu, kappa):
    return np.exp(-2 * kappa * np.sin((x - mu) / 2) ** 2) / (
        2 * np.pi * special.ive(0, kappa)
    )


def gaussian_2d(x, y, mx, my, sx, sy, rho):
    # as the product of a marginal and a conditional
    u, v = (x - mx) / sx, (y - my) / sy
    rest = (v - rho * u) / np.sqrt((1 - rho) * (1 + rho))
    return np.exp(-0.5 * (u**2 + rest**2))


# -- mass ---------------------------------------------------------------------


def broken_powerlaw(m, alpha_1, alpha_2, mmin, mmax, break_fraction):
    """Continuous broken power law, normalised."""
    m = np.asarray(m, float)
    mb = mmin + break_fraction * (mmax - mmin)

    def mass(alpha, lo, hi):
        # integral of (m / mb)^-alpha
        g = 1 - alpha
        ell_lo, ell_hi = np.log(lo / mb), np.log(hi / mb)
        if abs(g) < 1e-9:
            return mb * (ell_hi - ell_lo)
        return mb * (np.exp(g * ell_hi) - np.exp(g * ell_lo)) / g

    total = mass(alpha_1, mmin, mb) + mass(alpha_2, mb, mmax)
    with np.errstate(all="ignore"):
        shape = np.where(m < mb, (m / mb) ** -alpha_1, (m / mb) ** -alpha_2)
    return np.where((m >= mmin) & (m <= mmax), shape / total, 0.0)


def two_component(m, alpha, mmin, mmax, lam, mpp, sigpp, gaussian_mass_maximum=100.0):
    return (1 - lam) * powerlaw(m, -alpha, mmax, mmin) + lam * truncnorm(
        m, mpp, sigpp, gaussian_mass_maximum, mmin
    )


def three_component(
    m, alpha, mmin, mmax, lam, lam_1, mpp_1, sigpp_1, mpp_2, sigpp_2,
    gaussian_mass_maximum=100.0,
):
    peaks = lam_1 * truncnorm(m, mpp_1, sigpp_1, gaussian_mass_maximum, mmin) + (
        1 - lam_1
    ) * truncnorm(m, mpp_2, sigpp_2, gaussian_mass_maximum, mmin)
    return (1 - lam) * powerlaw(m, -alpha, mmax, mmin) + lam * peaks


def broken_peak(
    m, alpha_1, alpha_2, mmin, mmax, break_fraction, lam, mpp, sigpp,
    gaussian_mass_maximum=100.0,
):
    return (1 - lam) * broken_powerlaw(
        m, alpha_1, alpha_2, mmin, mmax, break_fraction
    ) + lam * truncnorm(m, mpp, sigpp, gaussian_mass_maximum, mmin)


def taper(m, mmin, delta_m):
    """Planck taper: 0 below mmin, 1 above mmin + delta_m."""
    m = np.asarray(m, float)
    if delta_m == 0:
        return (m >= mmin).astype(float)
    out = np.zeros(m.shape)
    mp = m - mmin
    out[mp >= delta_m] = 1.0
    mid = (mp > 0) & (mp < delta_m)
    x = mp[mid]
    f = delta_m / x + delta_m / (x - delta_m)
    out[mid] = special.expit(-f)
    return out


# -- cosmology ----------------------------------------------------------------

C_KM_S = 299792.458


class FlatCosmology:
    """Distances of a flat wCDM universe by quadrature (Mpc)."""

    def __init__(self, H0, Om0, w0=-1.0):
        self.H0, self.Om0, self.w0 = H0, Om0, w0

    def inv_e(self, z):
        return 1 / np.sqrt(
            self.Om0 * (1 + z) ** 3 + (1 - self.Om0) * (1 + z) ** (3 * (1 + self.w0))
        )

    def comoving_distance(self, z):
        z = np.asarray(z, float)
        # substitute u = log(1 + z)
        umax = np.log1p(z)
        u = umax[..., None] / 2 * (_NODES + 1)
        zz = np.expm1(u)
        integral = np.sum(self.inv_e(zz) * (1 + zz) * _WEIGHTS, axis=-1) * umax / 2
        return C_KM_S / self.H0 * integral

    def luminosity_distance(self, z):
        return (1 + np.asarray(z, float)) * self.comoving_distance(z)

    def ddl_dz(self, z):
        z = np.asarray(z, float)
        return self.comoving_distance(z) + (1 + z) * C_KM_S / self.H0 * self.inv_e(z)

    def dvc_dz(self, z):
        """Full-sky comoving volume element in Mpc^3."""
        z = np.asarray(z, float)
        return (
            4 * np.pi * self.comoving_distance(z) ** 2 * C_KM_S / self.H0 * self.inv_e(z)
        )


def cosmology_of(name, parameters=None):
    """The reference cosmology for a named model or free parameters."""
    if name == "FlatwCDM":
        return FlatCosmology(parameters["H0"], parameters["Om0"], parameters["w0"])
    if name == "FlatLambdaCDM":
        return FlatCosmology(parameters["H0"], parameters["Om0"], -1.0)
    H0, Om0 = NAMED[name]
    return FlatCosmology(H0, Om0, -1.0)


# published best-fit values of the named cosmologies
NAMED = {
    "Planck15_LAL": (67.90, 0.3065),
    "WMAP1": (72.0, 0.257),
    "WMAP3": (70.1, 0.276),
    "WMAP5": (70.2, 0.277),
    "WMAP7": (70.4, 0.272),
    "WMAP9": (69.32, 0.2865),
    "Planck13": (67.77, 0.30712),
    "Planck15": (67.74, 0.3075),
    "Planck18": (67.66, 0.30966),
}


def madau(z, gamma, kappa, z_peak):
    def shape(z):
        return (1 + z) ** gamma / (1 + ((1 + z) / (1 + z_peak)) ** kappa)

    return shape(np.asarray(z, float)) / shape(0.0)


# -- splines ------------------------------------------------------------------


def spline(x, nodes, values, kind):
    from scipy.interpolate import CubicSpline

    x = np.asarray(x, float)
    nodes, values = np.asarray(nodes, float), np.asarray(values, float)
    if kind == "cubic":
        return CubicSpline(nodes, values, bc_type="not-a-knot")(x)
    if kind == "linear":
        return np.interp(x, nodes, values)
    idx = np.argmin(np.abs(x[..., None] - nodes), axis=-1)
    return values[idx]
