"""C05: Thwaites' method integrates its published equation."""
import math

import numpy as np
from hypothesis import strategies as st

import core
import thw
from core import Law, Skip, req
from gen import (ALL_FITS, REPS, Flow, close, fit_arg, fl, flows, logf,
                 query_fracs, scaled,
                 scales, velocity_args)
from models import make

RULE = ("A case is an edge velocity in one of its representations, viscosity, "
        "data fit, start thickness and query locations; non-trivial when the "
        "velocity varies and the solution extends over at least a tenth of "
        "the range.")
ASSUMPTIONS = ["reference: DOP853 at 1e-10 of the documented equation with the "
               "published fits; the 1e-3 offset of the velocity in the code is "
               "accepted, as is any smaller one"]


@st.composite
def ode_case(draw):
    return {"k": draw(scales()),
            "model": draw(st.sampled_from(["linear", "nonlinear"])),
            "flow": draw(st.one_of(flows(), flows(("lin",)), flows(("stag",)))),
            "rep": draw(st.sampled_from(REPS)),
            "fit": draw(st.sampled_from(ALL_FITS)),
            "Re": draw(logf(1e2, 1e6, 4)), "d0": draw(st.one_of(fl(0.02, 1.0, 3),
                                                       logf(1e-4, 0.02, 3))),
            "q": draw(query_fracs()), "late": draw(st.booleans())}


def build(case, args, nu, d0):
    if case["late"]:
        m = make(case["model"], *args, data_fits="White")
        m.set_data_fits(fit_arg(case["fit"]))
        m.nu = nu
    else:
        m = make(case["model"], *args, nu=nu, data_fits=fit_arg(case["fit"]))
    m.initial_delta_m = d0
    return m


def check_ode(case):
    flow = Flow(scaled(case["flow"], case["k"], case["rep"], None))
    args, (u, du, _) = velocity_args(flow, case["rep"])
    nu = flow.U*flow.L/case["Re"]
    d0 = thw.limit_d0(flow, du, case["d0"])*math.sqrt(nu*flow.L/flow.U)
    m = build(case, args, nu, d0)
    r = m.solve(flow.x0, flow.x1)
    if not r.success:
        # the fits have no meaning, and may blow up, beyond Thwaites' data
        ref = thw.reference(case["model"], case["fit"], u, du, flow.x0,
                            flow.x1, d0*d0/nu)
        if ref is not None:
            fine = np.linspace(flow.x0, flow.x1, 400)
            lam = ref(fine)*np.array([float(du(x)) for x in fine])
            req(not np.max(lam) < 0.24, f"no solution: {r}")
        raise Skip()
    req(close(m.delta_m(flow.x0), d0, 1e-10), f"start thickness {m.delta_m(flow.x0)} is not {d0}")
    if r.x_end - flow.x0 < 0.02*flow.L:
        raise Skip()
    xe = r.x_end
    xs = flow.x0 + np.array(case["q"] + [1.0])*(xe - flow.x0)
    breaks = (np.linspace(flow.x0, flow.x1, 41)
              if case["rep"] in ("points", "slopes") else ())
    z0 = d0*d0/nu
    got = np.asarray(m.delta_m(xs), float)
    req(got.shape == xs.shape, f"shape {got.shape}")
    one = np.array([float(m.delta_m(float(x))) for x in xs])
    req(close(one, got, 1e-9), "scalar and array queries differ")
    ref = thw.reference(case["model"], case["fit"], u, du, flow.x0, xe, z0,
                        1e-3, breaks)
    if ref is None:
        raise Skip()
    tol = 3e-5
    if case["rep"] == "u":
        tol = 1e-4
    elif case["rep"] in ("points", "slopes"):
        tol = 6e-5      # kinks in the second derivative
    # absolute tolerance of the solver in theta^2/nu
    tol += 1e-10/np.min(ref(np.linspace(flow.x0, xe, 60)))
    a = np.sqrt(np.maximum(ref(xs), 0)*nu)
    err = np.max(np.abs(got - a)/a)
    fine = np.linspace(flow.x0, xe, 60)
    lam = ref(fine)*np.array([float(du(x)) for x in fine])
    if np.max(lam) > 0.24:
        raise Skip()      # beyond Thwaites' data
    if hasattr(core, "PROBE"): core.PROBE.append(err)
    if err > tol:
        ref = thw.reference(case["model"], case["fit"], u, du, flow.x0, xe,
                            z0, 0.0, breaks)
        req(ref is not None, f"delta_m {got} is not {a} (offset 1e-3)")
        b = np.sqrt(np.maximum(ref(xs), 0)*nu)
        lo, hi = np.minimum(a, b), np.maximum(a, b)
        req(np.all((got >= lo*(1 - tol)) & (got <= hi*(1 + tol))),
            f"delta_m {got} is not {b} (offset 0) or {a} (offset 1e-3), "
            f"relative deviation {err:.2e}")
    return flow.kind != "const" and xe - flow.x0 > 0.1*flow.L


LAWS = [
    Law("equation", ode_case, check_ode, 2400, 15000,
        rule="momentum thickness against an independent accurate solution"),
]
