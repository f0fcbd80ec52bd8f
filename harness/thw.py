"""Independent model of Thwaites' method."""
import bisect
import math

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from gen import CUSTOM_FITS, FIT_NAMES, ref_fits

_SCALAR = {}


def scalar_fit(name):
    """Fast scalar (S, H, H', lo, hi) of a fit, clamped to its range."""
    if name not in _SCALAR:
        if name in FIT_NAMES:
            S, Hf, Hp, lo, hi = ref_fits()[name]
        else:
            S, Hf, Hp = CUSTOM_FITS[name.rstrip("2")]
            lo, hi = -math.inf, math.inf
        if name == "Spline":
            S, Hf, Hp = _cubic(S), _cubic(Hf), _cubic(Hp)

        def wrap(f):
            return lambda l: float(f(min(max(l, lo), hi)))
        _SCALAR[name] = wrap(S), wrap(Hf), wrap(Hp), lo, hi
    return _SCALAR[name]


def _cubic(pp):
    xs = pp.x.tolist()
    c = pp.c.T.tolist()

    def f(l):
        i = min(max(bisect.bisect_right(xs, l) - 1, 0), len(xs) - 2)
        d = l - xs[i]
        v = 0.0
        for k in c[i]:
            v = v*d + k
        return v
    return f


def F(model, fit, lam):
    if model == "linear":
        return 0.45 - 6*lam
    S, Hf, _, _, _ = scalar_fit(fit)
    return 2*(S(lam) - lam*(Hf(lam) + 2))


def reference(model, fit, u, du, x0, x1, z0, offset=1e-3, breaks=()):
    """Accurate dense solution z = delta_m^2/nu of the method's equation."""
    def rhs(x, z):
        return [F(model, fit, z[0]*float(du(x)))/(offset + float(u(x)))]
    pts = [x0] + [b for b in breaks if x0 < b < x1] + [x1]
    sols = []
    z = [z0]
    for a, b in zip(pts[:-1], pts[1:]):
        r = solve_ivp(rhs, (a, b), z, method="DOP853", rtol=1e-10,
                      atol=1e-13*z0, dense_output=True)
        if not r.success:
            return None
        sols.append(r.sol)
        z = r.y[:, -1]

    def at(x):
        out = []
        for xv in np.atleast_1d(x):
            i = min(max(bisect.bisect_right(pts, xv) - 1, 0), len(sols) - 1)
            out.append(sols[i](xv)[0])
        return np.array(out)
    return at


def margin(fit, lam):
    """Positive while attached."""
    S, _, _, lo, _ = scalar_fit(fit)
    return min(S(lam), lam - lo)


def limit_d0(flow, du, d0):
    """Start thickness (in sqrt(nu*L/U)) within the range of the fits.

    lambda = d0^2*L/U*du must lie in the range of Thwaites' data and before
    separation.
    """
    g = float(du(flow.x0))*flow.L/flow.U
    if g > 0:
        d0 = min(d0, math.sqrt(0.2/g))
    elif g < 0:
        d0 = min(d0, math.sqrt(0.06/-g))
    return d0
