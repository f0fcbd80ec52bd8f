"""C25: Thwaites' method against the exact similarity solutions."""
import numpy as np
from hypothesis import strategies as st

import fsk
from core import Law, req
from gen import fl, logf
from ibl.thwaites_method import ThwaitesMethodLinear, ThwaitesMethodNonlinear

RULE = ("A case is a wedge flow (beta in [0, 1], reference velocity, "
        "viscosity, streamwise range), a form of Thwaites' method and a data "
        "fit; non-trivial when the momentum thickness changes by more than "
        "10 % over the range or beta is above 0.9.")
ASSUMPTIONS = ["the known error of the method is the largest one over both "
               "forms and all fits, tabulated over beta at the pinned commit, "
               "plus 10 % of it and 0.5 percentage points",
               "edge velocity at least 3 m/s (the method's equation has a "
               "constant offset of 1e-3 m/s)"]

FITS = ["Spline", "White", "Cebeci-Bradshaw", "Drela"]
BETA = [0.0, 0.02, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0]
# largest error in percent over forms and fits
KNOWN = {
    "delta_m": [0.99, 0.65, 1.1, 1.9, 3.1, 3.97, 4.62, 5.12, 5.53, 5.86,
                6.13, 6.37, 6.57],
    "delta_d": [1.73, 1.83, 1.89, 2.41, 3.47, 4.22, 4.66, 4.91, 5.06, 5.14,
                5.17, 5.18, 5.17],
    "shape_d": [0.73, 1.18, 1.74, 2.51, 3.64, 4.57, 5.21, 5.67, 6.01, 6.26,
                6.46, 6.62, 6.75],
    "tau_w": [1.9, 1.6, 2.03, 2.93, 4.14, 4.78, 5.15, 5.39, 5.54, 5.65,
              5.73, 5.79, 5.83]}


def bound(q, beta):
    return 0.01*(1.1*float(np.interp(beta, BETA, KNOWN[q])) + 0.5)


def check(c):
    beta, nu, rho = c["beta"], c["nu"], c["rho"]
    m = beta/(2 - beta)
    x0, x1 = c["x0"], c["x0"]*c["ratio"]
    # velocity at the start of the range
    u_ref = c["u0"]/x0**m

    def u(x):
        return u_ref*x**m

    def du(x):
        return m*u_ref*x**(m - 1)

    def d2u(x):
        return m*(m - 1)*u_ref*x**(m - 2)

    if beta == 0.0 and c["blasius"]:
        fs = fsk.cached_blasius()
    else:
        fs = fsk.cached(beta)
    fs.u_ref, fs.nu_ref = u_ref, nu
    kind = ThwaitesMethodLinear if c["form"] == "linear" \
        else ThwaitesMethodNonlinear
    if c["der"] == 0:
        t = kind(nu=nu, U_e=u, dU_edx=du, d2U_edx2=d2u, data_fits=c["fit"])
    elif c["der"] == 1:
        t = kind(nu=nu, U_e=u, dU_edx=du, data_fits=c["fit"])
    else:
        t = kind(nu=nu, data_fits=c["fit"])
        t.set_velocity(fs.u_e, du)
    t.initial_delta_m = float(fs.delta_m(x0))
    r = t.solve(x0=x0, x_end=x1)
    what = (f"{c['form']} {c['fit']}, beta {beta}, u_ref {u_ref:.6g}, "
            f"nu {nu}, x from {x0} to {x1:.6g}")
    req(r.success and r.x_end == x1, f"{what}: not solved: {r}")
    x = np.linspace(x0, x1, 9)
    got = {"delta_m": t.delta_m(x), "delta_d": t.delta_d(x),
           "shape_d": t.shape_d(x), "tau_w": t.tau_w(x, rho)}
    ref = {"delta_m": fs.delta_m(x), "delta_d": fs.delta_d(x),
           "shape_d": fs.shape_d(x), "tau_w": fs.tau_w(x, rho)}
    for q, v in got.items():
        e = np.abs(np.asarray(v)/np.asarray(ref[q]) - 1)
        i = int(np.argmax(e))
        b = bound(q, beta)
        req(np.all(e <= b), lambda: f"{what}: {q} at {x[i]:.6g} is "
            f"{float(np.asarray(v)[i]):.6g}, exact "
            f"{float(np.asarray(ref[q])[i]):.6g}: {100*e[i]:.2f} % off, known "
            f"error {100*b:.2f} %")
    dm = np.asarray(ref["delta_m"])
    return beta > 0.9 or abs(dm[-1]/dm[0] - 1) > 0.1


def flows(digits):
    return lambda: st.fixed_dictionaries({
        "beta": st.one_of(st.sampled_from([0.0, 0.0, 0.5, 1.0]),
                          st.floats(0.0, 1.0).map(
                              lambda v: round(v, digits))),
        "u0": logf(3.0, 300.0, 4), "nu": logf(1e-7, 1e-3, 4),
        "rho": logf(0.1, 1000.0, 4), "x0": logf(1e-3, 10.0, 4),
        "ratio": st.one_of(fl(1.05, 3.0, 4), logf(1.5, 100.0, 4)),
        "form": st.sampled_from(["linear", "nonlinear"]),
        "fit": st.sampled_from(FITS), "der": st.integers(0, 2),
        "blasius": st.booleans()})


LAWS = [
    Law("wedge", flows(1), check, 1600, 20000, rule="thickness changes"),
    Law("fine_wedge", flows(3), check, 160, 6000, rule="thickness changes"),
]
