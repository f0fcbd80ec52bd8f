"""C06: Thwaites outputs follow from the thickness, velocity and data fit."""
import math

import numpy as np
from hypothesis import strategies as st

import core
import thw
from core import Law, Skip, req
from gen import (ALL_FITS, FORMS, REPS, Flow, check_form, close, fit_arg, fl, flows, logf,
                 query_fracs, scaled, scales, velocity_args)
from models import make

RULE = ("A case is a solved laminar flow (representation of the velocity, fit, "
        "viscosity, start) with query locations and density; non-trivial when "
        "lambda is not zero at a queried location inside the range of the fit.")
ASSUMPTIONS = ["at a jump of a fit (Cebeci-Bradshaw at lambda=0) either side "
               "is accepted", "outside of the range of lambda of the fit the "
               "transpiration velocity is not checked"]


@st.composite
def out_case(draw):
    return {"k": draw(scales()), "model": draw(st.sampled_from(["linear", "nonlinear"])),
            "flow": draw(st.one_of(flows(), flows(("lin",)), flows(("stag",)))),
            "rep": draw(st.sampled_from(REPS)),
            "fit": draw(st.sampled_from(ALL_FITS)),
            "Re": draw(logf(1e2, 1e6, 4)), "d0": draw(fl(0.02, 1.0, 3)),
            "q": draw(query_fracs()), "form": draw(st.sampled_from(FORMS)),
            "rho": draw(st.one_of(logf(0.01, 2000, 4), logf(1e-9, 1e9, 4))),
            "twice": draw(st.booleans()),
            "refit": draw(st.one_of(st.none(), st.none(),
                                    st.sampled_from(ALL_FITS)))}


NAMES = ["delta_m", "delta_d", "delta_k", "shape_d", "shape_k", "v_e", "tau_w",
         "dissipation"]


def outputs(m, xs, rho):
    """Array queries, compared with the scalar ones."""
    out = {}
    for n in NAMES:
        unmodelled = n in ("delta_k", "shape_k", "dissipation")
        extra = (rho,) if n in ("tau_w", "dissipation") else ()
        f = getattr(m, n)
        # one array of locations, changed in place between the queries
        buf = xs[::-1].copy()
        first = f(buf, *extra)
        req(np.array_equal(buf, xs[::-1]), f"{n} changed the locations")
        b = np.array(first, float)
        buf[:] = xs
        a = np.array(f(buf, *extra), float)
        req(np.array_equal(buf, xs), f"{n} changed the locations")
        req(a.shape == xs.shape, f"{n} has shape {a.shape} for {xs.shape}")
        req(np.array_equal(np.asarray(first, float), b, equal_nan=True),
            f"{n}: values returned before were changed by another query")
        req(close(b[::-1], a, 1e-9, 1e-12*(1e-300 + np.max(np.abs(a))))
            or not np.all(np.isfinite(a)),
            lambda: f"{n} at {xs[::-1]} is {b}, at the same locations in "
            f"another order {a}")
        s = [np.asarray(f(float(x), *extra), float) for x in xs]
        req(all(v.shape == () or (v.shape == (1,) and not unmodelled)
                for v in s),
            f"{n}: scalar query has shape {s[0].shape}")
        s = np.array([float(v.reshape(())) for v in s])
        out[n] = a
        out[n + " scalar"] = s
    return out


def solved(case):
    flow = Flow(scaled(case["flow"], case["k"], case["rep"]))
    args, exact = velocity_args(flow, case["rep"])
    nu = flow.U*flow.L/case["Re"]
    m = make(case["model"], *args, nu=nu, data_fits=fit_arg(case["fit"]))
    if case["twice"]:
        m.initial_delta_m = 0.5*math.sqrt(nu*flow.L/flow.U)
        m.solve(flow.x0, flow.x0 + 0.5*flow.L)
    m.initial_delta_m = (thw.limit_d0(flow, exact[1], case["d0"])
                         * math.sqrt(nu*flow.L/flow.U))
    r = m.solve(flow.x0, flow.x1)
    if not r.success or r.x_end - flow.x0 < 0.02*flow.L:
        raise Skip()
    return flow, m, nu, exact, r.x_end


def check_outputs(case):
    flow, m, nu, (u_f, du_f, d2u_f), xe = solved(case)
    xs = flow.x0 + np.array(case["q"])*(xe - flow.x0)
    rho = case["rho"]
    o = outputs(m, xs, rho)
    if case["rep"] not in ("u", "u_du"):      # round-off of differences
        check_form(case["form"], m, NAMES + ["u_e", "du_e"], xs, flow.x0, xe,
                   rho)
    fit = case["fit"]
    if case["refit"] and case["model"] == "linear":
        # the equation is that of all fits, so the outputs follow the new one
        fit = case["refit"]
        m.set_data_fits(fit_arg(fit))
        o = outputs(m, xs, rho)
    S, Hf, Hp, lo, hi = thw.scalar_fit(fit)
    jump = fit == "Cebeci-Bradshaw"
    hit = False
    fd = case["rep"] == "u"
    for i, x in enumerate(xs):
        th = o["delta_m"][i]
        u, du = float(m.u_e(float(x))), float(m.du_e(float(x)))
        d2u = float(m.d2u_e(float(x)))
        req(close(u, u_f(float(x)), 1e-9, 1e-10*flow.U), f"u_e {u}")
        req(close(du, float(du_f(float(x))), 1e-6, 1e-5*flow.U/flow.L),
            f"du_e {du}")
        lam = th*th/nu*du
        sides = [lam]
        if jump and abs(lam) < 1e-7:
            sides = [min(lam, -1e-12), max(lam, 0.0)]
        Fs = [thw.F(case["model"], fit, l) for l in sides]
        ok = {}
        good_any = False
        for l, Fv in zip(sides, Fs):
            H, Sv, H1 = Hf(l), S(l), Hp(l)
            # u_e times the slope of theta^2/nu
            uz = [Fv*u/(1e-3 + u), Fv]
            ve = []
            for z1 in uz:
                ve.append(du*H*th + H*nu*z1/(2*th)
                          + th*H1*(z1*du + u*th*th/nu*d2u))
            scale = (abs(du*H*th) + abs(H*nu*uz[1]/(2*th))
                     + abs(th*H1*uz[1]*du) + abs(u*th*H1*th*th/nu*d2u))
            good = {}
            for sfx in ("", " scalar"):
                req(close(o["delta_m" + sfx][i], th, 1e-9), "delta_m")
                good["shape_d" + sfx] = close(o["shape_d" + sfx][i], H, 1e-6)
                good["delta_d" + sfx] = close(o["delta_d" + sfx][i], H*th,
                                              1e-6)
                tol = 1e-6 if Sv > 0.02 else 1e-3
                good["tau_w" + sfx] = close(o["tau_w" + sfx][i],
                                            rho*nu*u*Sv/th, tol,
                                            1e-6*rho*nu*u/th)
                if lo <= l <= hi and abs(l - lo) > 1e-9:
                    v = o["v_e" + sfx][i]
                    t = (1e-4 if fd or fit.endswith("2")
                         else 1e-6)*scale
                    good["v_e" + sfx] = (min(ve) - t <= v <= max(ve) + t)
            ok = ok or good
            good_any = good_any or all(good.values())
        bad = [k for k, v in ok.items() if not v]
        req(good_any, lambda: f"{bad} wrong at x={x}: " + str(
            {k: float(o[k][i]) for k in bad})
            + f" for delta_m={th} lambda={lam} u={u}, expected H={H} "
              f"S={Sv} tau_w={rho*nu*u*Sv/th} v_e={ve}")
        hit = hit or (lo < lam < hi and abs(lam) > 1e-6)
        for n in ("delta_k", "shape_k", "dissipation"):
            req(o[n][i] == 0 and o[n + " scalar"][i] == 0, f"{n} is not zero")
    return hit


# -- the transpiration velocity is the derivative it is defined as ------------
@st.composite
def slope_case(draw):
    c = draw(out_case())
    c["rep"] = draw(st.sampled_from(["full", "u_du", "spline", "u_dspline"]))
    c["k"] = (1.0, 1.0)     # the absolute tolerance of the solver shows
    c["q"] = draw(st.lists(fl(0.05, 0.95, 3), min_size=1, max_size=3))
    c["flow"] = draw(flows(U=(2.0, 60.0)))
    return c


def check_slope(case):
    flow, m, nu, (u_f, du_f, d2u_f), xe = solved(case)
    S, Hf, Hp, lo, hi = thw.scalar_fit(case["fit"])
    h = 2e-3*(xe - flow.x0)
    hit = False
    for f in case["q"]:
        x = flow.x0 + f*(xe - flow.x0)
        st_ = x + h*np.array([-2, -1, 1, 2])
        lam = m.delta_m(st_)**2/nu*m.du_e(st_)
        if lam.min() < lo + 0.01 or lam.max() > min(hi, 0.2):
            continue
        if case["fit"] == "Cebeci-Bradshaw" and lam.min() < 1e-6 < (
                lam.max() + 2e-6):
            continue
        ds = []     # the smaller step where a fit changes rapidly
        for k in (1.0, 0.125):
            g = m.u_e(x + k*(st_ - x))*m.delta_d(x + k*(st_ - x))
            ds.append((g[0] - 8*g[1] + 8*g[2] - g[3])/(12*k*h))
        v = float(m.v_e(x))
        th = float(m.delta_m(x))
        u, du = float(u_f(x)), float(du_f(x))
        lamx = th*th/nu*du
        # parts that may cancel
        scale = (abs(du*th*2.6) + abs(u*2.6*nu*0.45/u/th)
                 + abs(u*th*Hp(lamx))*abs(0.45*du/u)
                 + abs(u*th*Hp(lamx)*th*th/nu*float(d2u_f(x))))
        err = min(abs(v - d) for d in ds)/scale
        if hasattr(core, "PROBE"):
            core.PROBE.append(err)
        req(err < 5e-4, f"v_e={v} at {x} but d(u_e*delta_d)/dx={ds}")
        hit = True
    return hit


LAWS = [
    Law("outputs", out_case, check_outputs, 1200, 15000,
        rule="all outputs against the published fits at reported delta_m"),
    Law("transpiration", slope_case, check_slope, 600, 8000,
        rule="v_e against the numerical derivative of u_e*delta_d"),
]
