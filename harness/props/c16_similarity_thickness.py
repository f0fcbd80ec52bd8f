"""C16: similarity thicknesses are the integrals of the velocity profile."""
import numpy as np

import fsk
from core import Law, req

RULE = ("A case is a solution of the similarity problem (wedge parameter, "
        "outer edge and wall value found or given); all are non-trivial, "
        "counted when distinct.")
ASSUMPTIONS = ["with user supplied outer edge or wall value the relations "
               "hold up to the reported misfit of f' and f'' at the edge"]

# Gauss-Legendre nodes, applied on panels
_X, _W = np.polynomial.legendre.leggauss(8)


def integral(fun, e, n=120):
    edges = np.linspace(0.0, e, n + 1)
    h = np.diff(edges)/2
    x = (edges[:-1, None] + h[:, None]*(1 + _X[None, :])).ravel()
    w = (h[:, None]*_W[None, :]).ravel()
    return float(np.sum(w*fun(x)))


def check(case):
    beta = case["beta"]
    fs, _ = fsk.build(case)
    e = fs.eta_inf
    misfit = 3*(abs(float(fs.f_p(e)) - 1)*(e + 1) + abs(float(fs.f_pp(e))))
    tol = 2e-6 + misfit
    d = integral(lambda x: 1 - fs.f_p(x), e)
    m = integral(lambda x: fs.f_p(x)*(1 - fs.f_p(x)), e)
    k = integral(lambda x: fs.f_p(x)*(1 - fs.f_p(x)**2), e)
    D = integral(lambda x: fs.f_pp(x)**2, e)
    for n, got, want in (("eta_d", fs.eta_d, d), ("eta_m", fs.eta_m, m),
                         ("eta_k", fs.eta_k, k)):
        req(abs(got - want) < tol, f"{n} is {got}, integral of the profile "
            f"is {want} (beta={beta})")
    req(abs(fs.fw_pp - (1 + beta)*fs.eta_m - beta*fs.eta_d) < tol,
        f"momentum integral relation is off: f''(0)={fs.fw_pp}, "
        f"eta_m={fs.eta_m}, eta_d={fs.eta_d}")
    req(abs(D - (0.5 + beta)*fs.eta_k) < tol, f"energy integral relation is "
        f"off: dissipation {D}, eta_k={fs.eta_k}")
    s = fs.eta_s
    req(0 < s <= e, f"shear thickness {s} outside of 0..{e}")
    req(abs(float(fs.f_p(s)) - 0.99) < 1e-8, f"f'(eta_s) is {fs.f_p(s)}")
    req(0 < fs.eta_m < fs.eta_k < fs.eta_d < s, f"thicknesses not in order: "
        f"{fs.eta_m}, {fs.eta_k}, {fs.eta_d}, {s}")
    return True


LAWS = [Law("integrals", fsk.solutions, check, 480, 5000,
            rule="distinct solution problems")]
