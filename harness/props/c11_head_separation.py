"""C11: Head's method ends at the critical shape factor last set."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

import core
import headref
from core import Law, Skip, req
from c09_head_ode import build, flow_of, head_case
from gen import close, fl, flows, velocity_args
from ibl.ibl_method import TermReason

RULE = ("A case is a turbulent flow and a sequence of critical shape factors; "
        "non-trivial when the flow separates, at the start or later.")
ASSUMPTIONS = ["shape factor above 1.12; flows that exceed the critical value "
               "for less than 0.1 of the range, or just touch it, are left out"]


CRIT = st.one_of(fl(1.6, 2.9, 3), fl(1.6, 2.9, 3), fl(2.9, 3.5, 3))


@st.composite
def sep_case(draw):
    c = draw(head_case())
    c["flow"] = draw(st.one_of(flows(("lin",)), flows(("lin",)),
                               flows(("sin", "exp", "poly"))))
    c["rep"] = draw(st.sampled_from(["full", "u_du", "spline"]))
    c["H0"] = draw(st.one_of(fl(1.25, 1.8, 4), fl(1.25, 1.8, 4),
                             fl(1.8, 2.9, 4)))
    c["first"] = draw(st.one_of(st.none(), CRIT))
    c["crits"] = draw(st.lists(st.one_of(CRIT, CRIT, CRIT, st.just(c["H0"])),
                               max_size=3))
    return c


def check_sep(case):
    flow = flow_of(case)
    args, (u, du, _) = velocity_args(flow, case["rep"])
    m, nu, th0 = build(case, args, case["first"])
    crit = case["first"] if case["first"] is not None else 2.4
    H0 = case["H0"]
    hit = False
    ref = headref.reference(u, du, nu, flow.x0, flow.x1, th0, H0, 3.8)
    if ref is None or ref[2]:
        raise Skip()
    sol, x_ref, _ = ref
    n = 201
    grid = np.linspace(flow.x0, x_ref, n)
    Hs = np.array([sol(x)[1] for x in grid])
    for c in [None] + case["crits"]:
        if c is not None:
            m.set_shape_d_critical(c)
            crit = c
        marg = crit - Hs
        if abs(marg[0]) < 1e-5 and crit != H0:
            continue
        expect = None
        if crit == H0:
            # rounding decides on which side it is at the start
            if marg[1] > -1e-6:
                continue
            expect = flow.x0
            k = max(2, np.searchsorted(grid, flow.x0 + 0.1*flow.L))
            after = marg[1:k]
        elif marg[0] < 0:
            expect = flow.x0
            k = max(2, np.searchsorted(grid, flow.x0 + 0.1*flow.L))
            after = marg[:k]
        else:
            neg = np.nonzero(marg < 0)[0]
            if len(neg):
                i = neg[0]
                expect = brentq(lambda x: crit - sol(x)[1], grid[i-1], grid[i],
                                xtol=1e-13*flow.L)
                k = max(i + 2, np.searchsorted(grid, expect + 0.1*flow.L))
                after = marg[i + 1:k]
            elif marg.min() < 1e-3 or x_ref < flow.x1:
                continue
        if expect is not None and len(after) and after.max() > -1e-7:
            continue
        if expect is not None and expect > flow.x1 - 1e-3*flow.L:
            continue
        r = m.solve(flow.x0, flow.x1)
        req(r.success, f"no success: {r}")
        if expect is None:
            req(r.status == TermReason.REACHED_END and r.x_end == flow.x1,
                f"ended at {r.x_end} with {r.message}; largest shape factor "
                f"is {Hs.max()}, critical {crit}")
            xs = np.linspace(flow.x0, flow.x1, 50)
            req(np.max(m.shape_d(xs)) < crit, "critical value exceeded")
            continue
        hit = True
        req(r.status == TermReason.SEPARATED,
            f"{r.message} at {r.x_end}; flow separates at {expect} with "
            f"critical value {crit}")
        err = abs(r.x_end - expect)/flow.L
        if hasattr(core, "PROBE"):
            core.PROBE.append(err)
        req(err < 5e-5, f"separation at {r.x_end} instead of {expect}, "
            f"critical value {crit}")
        if marg[0] < 0 or crit == H0:
            req(r.x_end == flow.x0 or crit == H0 and abs(
                r.x_end - flow.x0) < 1e-9*flow.L, f"ended at {r.x_end}")
            req(close(r.f_end[1], H0, 1e-9), f"end state {r.f_end}")
        else:
            req(close(r.f_end[1], crit, 1e-5), f"end state {r.f_end}, "
                f"critical {crit}")
            req(close(float(m.shape_d(r.x_end)), crit, 1e-5), "shape_d at end")
        req(close(r.f_end[0], sol(r.x_end)[0], 1e-4), "end thickness")
    return hit


LAWS = [
    Law("separation", sep_case, check_sep, 800, 8000,
        rule="separation location for a sequence of critical values"),
]
