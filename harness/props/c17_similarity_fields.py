"""C17: similarity fields satisfy the boundary layer equations."""
import math

import numpy as np
from hypothesis import strategies as st

import fsk
from core import Law, req
from gen import close, fl, grown, logf

RULE = ("A case is a similarity solution with reference velocity, viscosity, "
        "density and points in the layer; non-trivial when none of the "
        "reference values is one.")
ASSUMPTIONS = ["wedge parameters up to 1.9 (exponent m up to 19), x > 0; "
               "derivatives by fourth order differences, compared at 5e-4 of "
               "the size of the largest term"]


@st.composite
def field_case(draw):
    return {"sol": draw(fsk.solutions(hi=1.9, user=False)),
            "u": draw(logf(0.05, 50, 4)), "nu": draw(logf(1e-6, 1e-1, 4)),
            "rho": draw(st.one_of(logf(0.05, 1000, 4),
                                  logf(1e-9, 1e9, 4))),
            "pts": draw(grown(st.lists(st.tuples(
                st.one_of(logf(0.1, 4, 4), logf(1e-7, 1e5, 4)),
                fl(0.06, 0.94, 4)), min_size=1, max_size=8))),
            "out": draw(st.lists(st.one_of(fl(1.0, 5.0, 4), logf(1, 1e4, 4)),
                                 min_size=1, max_size=3)),
            "form": draw(st.sampled_from(["array", "array", "scalar", "int",
                                          "array2d", "view"]))}


def d1(f, x, h):
    return (f(x - 2*h) - 8*f(x - h) + 8*f(x + h) - f(x + 2*h))/(12*h)


def d2(f, x, h):
    return (-f(x - 2*h) + 16*f(x - h) - 30*f(x) + 16*f(x + h)
            - f(x + 2*h))/(12*h*h)


_X, _W = np.polynomial.legendre.leggauss(8)


def integral(fun, e, n=60):
    edges = np.linspace(0.0, e, n + 1)
    h = np.diff(edges)/2
    x = (edges[:-1, None] + h[:, None]*(1 + _X[None, :])).ravel()
    w = (h[:, None]*_W[None, :]).ravel()
    return float(np.sum(w*np.asarray(fun(x), float)))


def get(case):
    sol = case["sol"]
    fs = fsk.cached_blasius() if sol["kind"] == "blasius" else (
        fsk.cached(sol["beta"]))
    fs.u_ref, fs.nu_ref = case["u"], case["nu"]
    return fs, sol["beta"]


def check_equations(case):
    fs, beta = get(case)
    m = beta/(2 - beta)
    x = np.array([p[0] for p in case["pts"]])
    ue = np.asarray(fs.u_e(x), float)
    req(close(ue, case["u"]*x**m, 1e-12), f"u_e is {ue}, u_ref*x^m is "
        f"{case['u']*x**m}")
    # thickness scale from the equations, not from the code under test
    delta = np.sqrt((2 - beta)*case["nu"]*x/ue)
    y = np.array([p[1] for p in case["pts"]])*fs.eta_inf*delta
    hx, hy = 0.01*x/(1 + abs(m)), 0.02*delta
    lo = y - 2*hy < 0
    y = np.where(lo, 3*hy, y)
    # keep the neighbours inside of the layer
    top = fs.eta_inf*delta*0.95
    y = np.minimum(y, top - 3*hy)
    u, v = np.asarray(fs.u(x, y)), np.asarray(fs.v(x, y))
    ux = d1(lambda s: fs.u(s, y), x, hx)
    uy = d1(lambda s: fs.u(x, s), y, hy)
    vy = d1(lambda s: fs.v(x, s), y, hy)
    uyy = d2(lambda s: fs.u(x, s), y, hy)
    size = (1 + abs(m))*ue/x
    r = np.max(np.abs(ux + vy)/size)
    req(r < 5e-4, f"continuity: u_x={ux}, v_y={vy} at x={x}, y={y} "
        f"(residual {r:.1e})")
    mom = u*ux + v*uy - m*ue**2/x - case["nu"]*uyy
    r = np.max(np.abs(mom)/(size*ue))
    req(r < 5e-4, f"momentum: residual {r:.1e} at x={x}, y={y}")
    # wall and edge
    z = np.zeros_like(x)
    req(np.max(np.abs(fs.u(x, z))/ue) < 1e-10, "u not zero at the wall")
    req(np.max(np.abs(fs.v(x, z))*x/(ue*delta)) < 1e-10,
        "v not zero at the wall")
    edge = fs.u(x, fs.eta_inf*delta)/ue
    req(np.max(np.abs(edge - 1)) < 1e-6, f"u/u_e is {edge} at the edge")
    # beyond it the flow is the outer one, displaced by the layer
    out = np.array([case["out"][i % len(case["out"])] for i in range(x.size)])
    yo = out*fs.eta_inf*delta
    for xo, yy, uo, f in ((x, yo, ue, out),
                          (float(x[0]), float(yo[0]), ue[0], out[0])):
        r = fs.u(xo, yy)/uo
        req(np.max(np.abs(r - 1)) < 1e-6, f"u/u_e is {r} at {f} times the "
            "distance of the edge from the wall")
        want = fs.v_e(xo) - yy*m*uo/xo
        r = np.max(np.abs(fs.v(xo, yy) - want)/((1 + abs(m))*uo/xo*yy))
        req(r < 1e-6, f"v is {fs.v(xo, yy)}, {want} follows from continuity, "
            f"at {f} times the distance of the edge from the wall")
    eta = np.asarray(fs.eta(x, y))
    req(close(eta, y/delta, 1e-9), f"eta is {eta}, not {y/delta}")
    return case["u"] != 1 and case["nu"] != 1


def as_form(x, form):
    a = np.array(x, float)
    if form == "scalar":
        return float(x[0])
    if form == "array2d":
        return np.stack([a, a[::-1]])
    if form == "view":
        return np.repeat(a, 2)[::2]
    if form == "int":
        return np.maximum(np.round(a), 1).astype(int)
    return a


def check_quantities(case):
    fs, beta = get(case)
    m = beta/(2 - beta)
    rho, nu = case["rho"], case["nu"]
    form = case["form"]
    arg = as_form([p[0] for p in case["pts"]], form)
    keep = np.array(arg, copy=True)
    names = ["delta_d", "delta_m", "delta_k", "delta_s", "shape_d", "shape_k",
             "v_e", "tau_w", "dissipation", "u_e"]
    got = {}
    for n in names:
        a = (rho,) if n in ("tau_w", "dissipation") else ()
        got[n] = np.asarray(getattr(fs, n)(arg, *a), float)
        req(got[n].shape == keep.shape, f"{n} has shape {got[n].shape} for "
            f"x of shape {keep.shape}")
    req(np.array_equal(arg, keep), "argument changed")
    y_rel = [p[1] for p in case["pts"]]
    flat = np.ravel(keep).astype(float)
    for i in range(min(flat.size, 3)):
        x = float(flat[i])
        g = {n: float(np.ravel(v)[i]) for n, v in got.items()}
        ue = case["u"]*x**m
        delta = math.sqrt((2 - beta)*nu*x/ue)
        e = fs.eta_inf*delta

        def prof(y):
            return np.asarray(fs.u(np.full_like(y, x), y))/ue
        want = {"u_e": ue,
                "delta_d": integral(lambda y: 1 - prof(y), e),
                "delta_m": integral(lambda y: prof(y)*(1 - prof(y)), e),
                "delta_k": integral(lambda y: prof(y)*(1 - prof(y)**2), e)}
        want["shape_d"] = want["delta_d"]/want["delta_m"]
        want["shape_k"] = want["delta_k"]/want["delta_m"]
        # d(u_e*delta_d)/dx from neighbouring locations
        h = 0.01*x/(1 + abs(m))
        want["v_e"] = float(d1(lambda s: np.asarray(
            case["u"]*s**m*fs.delta_d(s)), x, h))
        # wall slope: polynomial through points close to the wall
        s = delta*0.05*np.arange(0, 6)
        c = np.polynomial.polynomial.polyfit(s/delta, prof(s), 5)
        want["tau_w"] = rho*nu*ue*float(c[1])/delta
        hy = 0.004*delta

        def slope(y):
            return d1(prof, np.maximum(y, 2.001*hy), hy)
        want["dissipation"] = rho*nu*ue**2*integral(
            lambda y: slope(y)**2, e - 2.1*hy)
        for n, w in want.items():
            tol = {"dissipation": 3e-3, "tau_w": 2e-4, "u_e": 1e-12}.get(
                n, 2e-5)
            big = abs(w)
            if n == "tau_w":
                big += rho*nu*ue*0.1/delta
            req(abs(g[n] - w) <= tol*big, f"{n} at x={x} is {g[n]}, from "
                f"the velocity field {w} (beta={beta})")
        us = float(fs.u(x, g["delta_s"]))/ue
        req(abs(us - 0.99) < 1e-7, f"u/u_e is {us} at delta_s")
        # points given as arrays and one by one agree
        y = y_rel[i % len(y_rel)]*e
        for n in ("u", "v", "eta"):
            one = float(getattr(fs, n)(x, y))
            arr = np.asarray(getattr(fs, n)(np.array([x, x]),
                                            np.array([y, 0.5*y])))
            req(arr.shape == (2,) and close(arr[0], one, 1e-12),
                f"{n}: {one} for scalars, {arr} for arrays")
    return case["u"] != 1 and nu != 1 and rho != 1


LAWS = [
    Law("equations", field_case, check_equations, 400, 4000,
        rule="points in the layer of distinct flows"),
    Law("quantities", field_case, check_quantities, 400, 4000,
        rule="stations of distinct flows"),
]
