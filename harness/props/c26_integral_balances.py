"""C26: reported quantities satisfy the integral equations of the layer."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

import c05_thwaites_ode as laminar
import c09_head_ode as turbulent
import core
import fsk
import thw
from core import Law, Skip, req
from gen import Flow, fl, logf, scaled, velocity_args
from ibl.initial_condition import FalknerSkanStagCondition

RULE = ("A case is a flow, a method (or wedge parameter) and two stations; "
        "non-trivial when the stations are more than 0.05 of the range apart "
        "and the velocity varies.")
ASSUMPTIONS = ["the momentum balance is that of the nonlinear form of "
               "Thwaites' method (the linear one replaces it by a fit) with "
               "the 1e-3 offset of the code or less; the shape factor of the "
               "Cebeci-Bradshaw fit jumps where the velocity gradient changes "
               "sign, which is left out"]

GX, GW = np.polynomial.legendre.leggauss(8)


def nodes(xa, xb, x0, breaks=()):
    """Quadrature nodes and weights, finer near the start of the layer."""
    n = 40
    # panels with ends graded towards the start
    t = np.linspace(math.sqrt(max(xa - x0, 0.0)), math.sqrt(xb - x0), n + 1)
    e = x0 + t*t
    e[0], e[-1] = xa, xb
    e = np.unique(np.concatenate([e, [b for b in breaks if xa < b < xb]]))
    h = 0.5*np.diff(e)
    c = 0.5*(e[1:] + e[:-1])
    return ((c[:, None] + h[:, None]*GX).ravel(),
            (h[:, None]*GW).ravel())


def span(case, x0, x1):
    a, b = sorted(case["ab"])
    xa, xb = x0 + a*(x1 - x0), x0 + b*(x1 - x0)
    if not xb > xa or b - a < 1e-3:
        raise Skip()
    return xa, xb


def probe(*v):
    if hasattr(core, "PROBE"):
        core.PROBE.append(max(v))


def balances(m, xa, xb, x0, rho, what, tol, breaks=(), offset=0.0, mom=True,
             tra=True, ke=False):
    """Momentum, transpiration and kinetic energy balances between stations."""
    x, w = nodes(xa, xb, x0, breaks)
    ends = np.array([xa, xb])

    def q(n, *a):
        return (np.asarray(getattr(m, n)(x, *a), float),
                np.asarray(getattr(m, n)(ends, *a), float))
    (u, ue), (dd, dde), (th, the) = q("u_e"), q("delta_d"), q("delta_m")
    if tra:
        v, _ = q("v_e")
        d = ue*dde
        scale = abs(d[1]) + abs(d[0]) + np.sum(w*abs(v))
        e = abs(d[1] - d[0] - np.sum(w*v))/scale
        probe(e)
        req(e < tol, f"{what}: transpiration velocity adds up to "
            f"{np.sum(w*v)} from {xa} to {xb}, u_e*delta_d changes by "
            f"{d[1] - d[0]}")
    if mom:
        tau, _ = q("tau_w", rho)
        tau = tau/rho
        if ke:      # analytic solutions have no du_e
            du = m.m*u/x
        else:
            du, _ = q("du_e")
        p = u*du*dd
        change = ue[1]**2*the[1] - ue[0]**2*the[0]
        scale = (ue[1]**2*the[1] + ue[0]**2*the[0]
                 + np.sum(w*(abs(tau) + abs(p))))
        # with and without the offset
        got = np.sum(w*(tau - p))
        r = u/(u + offset)
        off = np.sum(w*(2*u*du*th + r*(tau - p - 2*u*du*th)))
        lo, hi = min(got, off), max(got, off)
        e = max(lo - change, change - hi, 0.0)/scale
        probe(e)
        req(e < tol, f"{what}: momentum changes by {change} from {xa} to "
            f"{xb}, wall shear stress and pressure give {got}")
    if ke:
        D, _ = q("dissipation", rho)
        _, dk = q("delta_k")
        change = ue[1]**3*dk[1] - ue[0]**3*dk[0]
        got = np.sum(w*2*D/rho)
        scale = ue[1]**3*dk[1] + ue[0]**3*dk[0] + got
        e = abs(change - got)/scale
        probe(e)
        req(e < tol, f"{what}: kinetic energy changes by {change} from {xa} "
            f"to {xb}, dissipation gives {got}")


def kinks(case, flow):
    return (np.linspace(flow.x0, flow.x1, 41)
            if case["rep"] in ("points", "slopes") else ())


# the layer starts with short transients
ab = st.tuples(fl(0.02, 1.0, 4), fl(0.02, 1.0, 4)).map(list)


# ------------------------------------------------------------------ laminar
@st.composite
def laminar_case(draw):
    c = draw(laminar.ode_case())
    c["model"] = draw(st.sampled_from(["linear", "nonlinear", "nonlinear"]))
    c["ab"] = draw(ab)
    c["rho"] = draw(logf(1e-2, 1e3, 4))
    c["default"] = draw(st.booleans())
    return c


def check_laminar(case):
    flow = Flow(scaled(case["flow"], case["k"], case["rep"]))
    args, (u, du, _) = velocity_args(flow, case["rep"])
    nu = flow.U*flow.L/case["Re"]
    d0 = thw.limit_d0(flow, du, case["d0"])*math.sqrt(nu*flow.L/flow.U)
    m = laminar.build(case, args, nu, d0)
    if flow.kind == "stag" and case["default"]:
        m.set_initial_condition(FalknerSkanStagCondition(1.0, 1.0))
    r = m.solve(flow.x0, flow.x1)
    # C05 decides whether there has to be a solution
    if not r.success or r.x_end - flow.x0 < 0.02*flow.L:
        raise Skip()
    xa, xb = span(case, flow.x0, r.x_end)
    fine = np.linspace(xa, xb, 200)
    th = np.asarray(m.delta_m(fine))
    slope = np.array([float(du(x)) for x in fine])
    lam = th**2*slope/nu
    tra = mom = True
    if np.max(lam) > 0.24:
        raise Skip()
    if case["fit"].startswith("Cebeci"):
        if np.min(slope) <= 0 <= np.max(slope) or np.max(lam) > 0.099:
            tra = mom = False
    if case["model"] == "linear":
        mom = False
    if not tra and not mom:
        raise Skip()
    # the solver has an absolute tolerance in theta^2/nu
    tol = 5e-5 + 1e-10/np.min(th**2/nu)
    balances(m, xa, xb, flow.x0, case["rho"],
             f"{case['model']}, {case['fit']}", tol, kinks(case, flow),
             1e-3, mom, tra)
    return flow.kind != "const" and xb - xa > 0.05*flow.L


# ---------------------------------------------------------------- turbulent
@st.composite
def turbulent_case(draw):
    c = draw(turbulent.head_case())
    c["ab"] = draw(ab)
    c["rho"] = draw(logf(1e-2, 1e3, 4))
    return c


def check_turbulent(case):
    flow = turbulent.flow_of(case)
    args, _ = velocity_args(flow, case["rep"])
    m, nu, th0 = turbulent.build(case, args, case["crit"])
    r = m.solve(flow.x0, flow.x1)
    req(r.success, f"no solution: {r}")
    if r.x_end - flow.x0 < 0.02*flow.L:
        raise Skip()
    xa, xb = span(case, flow.x0, r.x_end)
    fine = np.linspace(xa, xb, 200)
    H = np.asarray(m.shape_d(fine))
    if np.min(H) < 1.12:
        raise Skip()
    # the entrainment relation changes its slope there
    at = [brentq(lambda x: float(m.shape_d(x)) - 1.6, fine[i], fine[i + 1])
          for i in np.nonzero((H[1:] - 1.6)*(H[:-1] - 1.6) < 0)[0]]
    tol = 3e-5 + 1e-10/np.min(m.delta_m(fine))
    balances(m, xa, xb, flow.x0, case["rho"], "Head", tol,
             [*kinks(case, flow), *at])
    return flow.kind != "const" and xb - xa > 0.05*flow.L


# --------------------------------------------------------------- similarity
def similarity_case():
    return st.fixed_dictionaries({
        "beta": st.one_of(st.just(0.0), fl(-0.198, 1.9, 5),
                          fl(-0.19, 0.3, 4)),
        "blasius": st.booleans(), "u_ref": logf(1e-3, 1e3, 4),
        "nu": logf(1e-7, 1e-2, 4), "rho": logf(1e-2, 1e3, 4),
        "x": logf(1e-3, 1e3, 4), "ratio": logf(1.05, 10.0, 4)})


class Wedge:
    """Similarity solution with its exponent."""

    def __init__(self, fs, m):
        self.fs, self.m = fs, m

    def __getattr__(self, n):
        return getattr(self.fs, n)


def check_similarity(c):
    beta = c["beta"]
    fs = (fsk.cached_blasius() if beta == 0.0 and c["blasius"]
          else fsk.cached(beta))
    fs.u_ref, fs.nu_ref = c["u_ref"], c["nu"]
    xa, xb = c["x"], c["x"]*c["ratio"]
    balances(Wedge(fs, beta/(2 - beta)), xa, xb, 0.0, c["rho"],
             f"beta {beta}", 1e-5, ke=True)
    return beta != 0.0 and c["ratio"] > 1.05


LAWS = [
    Law("laminar", laminar_case, check_laminar, 800, 8000,
        rule="balances of Thwaites' method between two stations"),
    Law("turbulent", turbulent_case, check_turbulent, 800, 8000,
        rule="balances of Head's method between two stations"),
    Law("similarity", similarity_case, check_similarity, 800, 8000,
        rule="balances of the similarity solutions between two stations"),
]
