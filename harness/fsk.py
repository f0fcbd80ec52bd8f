"""Independent model of the similarity solutions."""
import functools

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from core import Skip
from gen import fl
from ibl.analytic import Blasius, FalknerSkan

SPECIAL = [-0.198837, -0.19882, -0.1988, -0.198, -0.18, -0.15, -0.1, -0.05, 0.0, 0.1, 0.3, 0.5,
           2/3, 0.75, 1.0, 1.2, 4/3, 1.5, 1.6, 1.8, 1.9, 1.99, 2.0]
# edge velocity exponents of 20 to 9999
STEEP = [40/21, 1.92, 1.94, 1.96, 1.98, 1.998, 1.9998]


def betas(lo=-0.198837, hi=2.0):
    return st.one_of(fl(lo, hi, 5), fl(lo, min(hi, 0.3), 4),
                     st.sampled_from([b for b in SPECIAL if lo <= b <= hi]))


def own(beta, s, eta):
    """Accurate solution of the initial value problem from f''(0)=s."""
    def rhs(_, f):
        return (f[1], f[2], -(f[0]*f[2] + beta*(1 - f[1]*f[1])))
    return solve_ivp(rhs, (0.0, eta), (0.0, 0.0, s), method="DOP853",
                     rtol=1e-11, atol=1e-13, dense_output=True)


@functools.lru_cache(maxsize=256)
def cached(beta):
    """Solution object shared by cases; reference values must be set first."""
    return FalknerSkan(beta=beta, u_ref=1.0, nu_ref=1.0)


@functools.lru_cache(maxsize=2)
def cached_blasius():
    return Blasius(u_ref=1.0, nu_ref=1.0)


@st.composite
def solutions(draw, lo=-0.198837, hi=2.0, user=True):
    """Description of a solution object."""
    kinds = ["free", "free", "blasius"] + (
        ["eta", "both", "fw", "beta", "b_eta", "b_both"] if user else [])
    k = draw(st.sampled_from(kinds))
    c = {"kind": k}
    if k in ("free", "beta"):
        c["beta"] = draw(betas(lo, hi))
    elif k == "fw":
        c["beta"] = draw(betas(max(lo, -0.15), min(hi, 1.5)))
    elif k in ("eta", "both"):
        # beyond, the search from a fixed outer edge is documented unstable
        c["beta"] = draw(betas(max(lo, -0.15), 0.6))
        c["eta"] = draw(fl(4.5, 8.5, 4))
    else:
        c["beta"] = 0.0
        c["eta"] = draw(fl(4.5, 8.5, 4))
    if k in ("both", "b_both"):
        c["rel"] = draw(st.one_of(st.just(0.0), fl(-1e-3, 1e-3, 3)))
    return c


def build(c, u_ref=1.0, nu_ref=1.0):
    """Solution object, with (fw_pp, eta_inf) as demanded or None."""
    k = c["kind"]
    if k == "free":
        return FalknerSkan(c["beta"], u_ref, nu_ref), (None, None)
    if k == "blasius":
        return Blasius(u_ref, nu_ref), (None, None)
    if k == "beta":
        fs = FalknerSkan(0.2, u_ref, nu_ref, eta_inf=5.0)
        fs.reset_beta(c["beta"])
        return fs, (None, None)
    if k == "eta":
        return (FalknerSkan(c["beta"], u_ref, nu_ref, eta_inf=c["eta"]),
                (None, c["eta"]))
    if k == "b_eta":
        return Blasius(u_ref, nu_ref, eta_inf=c["eta"]), (None, c["eta"])
    if k == "fw":
        s = cached(c["beta"]).fw_pp
        try:
            # documented as unstable: no claim that the edge is found
            return FalknerSkan(c["beta"], u_ref, nu_ref, fw_pp=s), (s, None)
        except ValueError as e:
            raise Skip() from e
    if k == "both":
        s = FalknerSkan(c["beta"], 1.0, 1.0, eta_inf=c["eta"]).fw_pp
        s *= 1 + c["rel"]
        return (FalknerSkan(c["beta"], u_ref, nu_ref, fw_pp=s,
                            eta_inf=c["eta"]), (s, c["eta"]))
    s = 0.4695999888844369*(1 + c["rel"])
    return Blasius(u_ref, nu_ref, fw_pp=s, eta_inf=c["eta"]), (s, c["eta"])
