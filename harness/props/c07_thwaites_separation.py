"""C07: Thwaites' method ends where the flow separates, with every data fit."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

import core
import thw
from core import Law, Skip, req
from gen import (ALL_FITS, Flow, close, fit_arg, fl, flows, logf,
                 velocity_args)
from models import make
from ibl.ibl_method import TermReason

RULE = ("A case is a flow, fit, viscosity and start thickness; non-trivial "
        "when the flow separates, at the start or later.")
ASSUMPTIONS = ["flows that separate and attach again within 0.15 of the range, "
               "or that only just touch separation, are left out (the "
               "integrator samples the sign once per step)"]


@st.composite
def sep_case(draw):
    return {"model": draw(st.sampled_from(["linear", "nonlinear"])),
            "flow": draw(st.one_of(
                flows(("lin",)), flows(("lin",)), flows(("sin",)),
                flows(("pow", "exp", "poly")))),
            "rep": draw(st.sampled_from(["full", "full", "u_du", "spline"])),
            "fit": draw(st.sampled_from(ALL_FITS)),
            "Re": draw(logf(1e2, 1e6, 4)), "d0": draw(fl(0.02, 1.0, 3)),
            "order": draw(st.integers(0, 2))}


def check_sep(case):
    flow = Flow(case["flow"])
    args, (u, du, _) = velocity_args(flow, case["rep"])
    nu = flow.U*flow.L/case["Re"]
    d0 = case["d0"]
    if float(du(flow.x0)) > 0:
        d0 = thw.limit_d0(flow, du, d0)
    elif float(du(flow.x0)) < 0:
        # up to well beyond separation
        d0 = min(d0, math.sqrt(0.2*flow.U/(-float(du(flow.x0))*flow.L)))
    d0 *= math.sqrt(nu*flow.L/flow.U)
    z0 = d0*d0/nu
    fit = case["fit"]
    ref = thw.reference(case["model"], fit, u, du, flow.x0, flow.x1, z0)
    if ref is None:
        raise Skip()
    grid = np.linspace(flow.x0, flow.x1, 241)

    def marg(x):
        return thw.margin(fit, ref(x)[0]*float(du(x)))
    ms = np.array([marg(x) for x in grid])
    lam = ref(grid)*np.array([float(du(x)) for x in grid])
    if lam.max() > 0.24:
        raise Skip()
    if fit.startswith("custom-a") and lam.min() < -0.2:
        # the shear function of this fit rises again further down
        ms = np.where(lam < -0.2, -1.0, ms)
    eps = 1e-4
    m0 = ms[0]
    if abs(m0) < eps:
        raise Skip()
    expect = None
    if m0 < 0:
        expect = flow.x0
        after = ms[:36]
    else:
        neg = np.nonzero(ms < 0)[0]
        if len(neg):
            i = neg[0]
            expect = brentq(marg, grid[i - 1], grid[i], xtol=1e-13*flow.L)
            after = ms[i + 1:i + 37]
        elif ms.min() < 1e-3:
            raise Skip()
    if expect is not None and len(after) and after.max() > -1e-9:
        raise Skip()
    if expect is not None and expect > flow.x1 - 1e-3*flow.L:
        raise Skip()
    kw = {"nu": nu}
    if case["order"] == 0:
        kw["data_fits"] = fit_arg(fit)
    m = make(case["model"], *args, **kw)
    m.initial_delta_m = d0
    if case["order"] == 2:
        m.set_data_fits("White")
        m.solve(flow.x0, flow.x0 + 0.05*flow.L)
    if case["order"]:
        m.set_data_fits(fit_arg(fit))
    r = m.solve(flow.x0, flow.x1)
    req(r.success, f"no success {r}")
    if expect is None:
        req(r.status == TermReason.REACHED_END and r.x_end == flow.x1,
            f"attached flow ended at {r.x_end} with {r.message} (smallest "
            f"margin {ms.min()})")
        return False
    req(r.status == TermReason.SEPARATED,
        f"{r.message} at {r.x_end} but flow separates at {expect}")
    if hasattr(core, "PROBE"):
        core.PROBE.append(abs(r.x_end - expect)/flow.L)
    req(abs(r.x_end - expect) < 2e-5*flow.L,
        f"separation at {r.x_end} instead of {expect}")
    req(flow.x0 <= r.x_end <= flow.x1, "out of the range")
    if m0 < 0:
        req(r.x_end == flow.x0, f"ended at {r.x_end}, separated at the start")
    zr = ref(r.x_end)[0]
    req(close(r.f_end[0], zr, 1e-4), f"end state {r.f_end} is not {zr}")
    req(close(float(m.delta_m(r.x_end)), math.sqrt(zr*nu), 1e-4),
        "thickness at separation")
    if m0 > 0:
        left = thw.margin(fit, float(m.delta_m(r.x_end))**2/nu
                          * float(m.du_e(r.x_end)))
        req(abs(left) < 1e-4, f"margin at separation {left}")
    return True


LAWS = [
    Law("separation", sep_case, check_sep, 2500, 15000,
        rule="separation location against the reference solution"),
]
