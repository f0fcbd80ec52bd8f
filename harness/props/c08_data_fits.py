"""C08: data fits equal the published relations and are selected as asked."""
import math

import numpy as np
from hypothesis import strategies as st

import thw
from core import Law, Skip, Violation, raises, req
from gen import (CUSTOM_FITS, FIT_NAMES, TAB_LAMBDA, TAB_SHAPE, TAB_SHEAR,
                 close, fit_arg, fl, grown, logf)
from models import make
from ibl import thwaites_method as tm

RULE = ("A case is a fit with values of lambda (inside, outside and at the "
        "ends of the range; scalars and arrays), or a sequence of valid and "
        "malformed selections; non-trivial when lambda values lie on both "
        "sides of a boundary of the fit, or a malformed selection follows a "
        "valid one.")

CLASSES = {"Spline": "_ThwaitesFunctionsSpline",
           "White": "_ThwaitesFunctionsWhite",
           "Cebeci-Bradshaw": "_ThwaitesFunctionsCebeciBradshaw",
           "Drela": "_ThwaitesFunctionsDrela"}

lam_values = st.one_of(
    fl(-0.1, 0.26, 5), fl(-0.4, 0.6, 4), fl(-0.09, 0.0, 5),
    st.sampled_from([-0.09, -0.1, 0.1, 0.25, 0.0, -1.0, 1.0, 0.5, -1e-9,
                     1e-9]), st.sampled_from(TAB_LAMBDA))


@st.composite
def values_case(draw):
    return {"fit": draw(st.sampled_from(FIT_NAMES)),
            "lam": draw(grown(st.lists(lam_values, min_size=1, max_size=8))),
            "form": draw(st.sampled_from(
                ["array", "array", "array", "array2d", "scalar", "np", "zerod",
                 "view", "readonly", "int"])),
            "order": draw(st.permutations(["shear", "shape", "shape_p", "f"]))}


def as_form(lam, form):
    a = np.array(lam, float)
    if form == "array":
        return a
    if form == "array2d":
        return np.stack([a, a[::-1]])
    if form == "scalar":
        return float(lam[0])
    if form == "np":
        return np.float64(lam[0])
    if form == "zerod":
        return np.array(lam[0])
    if form == "view":
        return np.repeat(a, 2)[::2]
    if form == "int":
        return np.round(3*a).astype(int)
    a.setflags(write=False)
    return a


def check_values(case):
    fit = case["fit"]
    cls = getattr(tm, CLASSES[fit], None)
    if cls is None:
        raise Skip()
    try:
        obj = cls()
    except TypeError as e:
        raise Skip() from e     # an internal class of another form
    if not all(hasattr(obj, n) for n in ("range", "shear", "shape", "shape_p",
                                         "f")):
        raise Skip()
    S, Hf, Hp, lo, hi = thw.scalar_fit(fit)
    req(close(obj.range()[0], lo, 1e-12) and (
        obj.range()[1] == hi or close(obj.range()[1], hi, 1e-12)),
        f"range {obj.range()}")
    arg = as_form(case["lam"], case["form"])
    keep = np.array(arg, copy=True)
    flat = np.asarray(keep, float).ravel().tolist()
    fref = [2*(S(l) - l*(Hf(l) + 2)) for l in flat]
    refs = {"shear": [S(l) for l in flat], "shape": [Hf(l) for l in flat],
            "shape_p": [Hp(l) for l in flat], "f": fref}
    for name in case["order"]:
        got = np.asarray(getattr(obj, name)(arg), float)
        req(np.array_equal(np.asarray(arg), keep),
            f"{fit}.{name} changed its argument {keep} to {arg}")
        req(got.shape == keep.shape, f"{fit}.{name} shape {got.shape}")
        ref = np.reshape(refs[name], keep.shape)
        # the power law of White's shear has an infinite slope at its end
        tol = 1e-9 if name in ("shape", "shape_p") else 2e-8
        req(close(got, ref, 1e-9, tol),
            f"{fit}.{name}({keep}) = {got}, expected {ref}")
    inside = [lo < l < hi for l in flat]
    return any(inside) and (not all(inside)
                            or (min(flat) < 0 < max(flat)))


# -- tabulated values ---------------------------------------------------------
@st.composite
def table_case(draw):
    return {"i": draw(st.integers(0, len(TAB_LAMBDA) - 1)),
            "model": draw(st.sampled_from(["linear", "nonlinear"])),
            "nu": draw(logf(1e-6, 1e-3, 4)), "U": draw(logf(0.5, 50, 4))}


def check_table(case):
    """Through the solver, at the start of the integration."""
    i = case["i"]
    lam = TAB_LAMBDA[i]
    return start_values(case, "Spline", lam, TAB_SHEAR[i], TAB_SHAPE[i], None)


def start_values(case, fit, lam, S, H, H1, m=None):
    """Solve a flow that has the given lambda at its start."""
    nu, U = case["nu"], case["U"]
    g = math.copysign(1.0, lam)*U if lam else 0.0   # u_e'
    d0 = math.sqrt(nu*abs(lam)/U) if lam else math.sqrt(0.1*nu/U)
    args = (lambda x: U + g*x, lambda x: g + 0.0*x, lambda x: 0.0*x)
    if m is None:
        m = make(case["model"], *args, nu=nu, data_fits=fit_arg(fit))
    else:
        m.set_velocity(*args)
        m.nu = nu
    m.initial_delta_m = d0
    m.solve(0.0, 1e-4)
    try:
        th = float(m.delta_m(0.0))
    except ValueError as e:
        raise Violation(f"no solution at lambda={lam}: {e}") from e
    req(close(th, d0, 1e-9), f"start thickness {th} {d0}")
    h = float(m.shape_d(0.0))
    req(close(h, H, 1e-6), f"{fit}: shape factor {h} at lambda={lam}, "
        f"expected {H}")
    t = float(m.tau_w(0.0, 1.0))*th/(nu*U)
    req(close(t, S, 1e-6, 1e-4 if abs(lam + 0.09) < 1e-3 else 1e-8),
        f"{fit}: shear {t} at lambda={lam}, expected {S}")
    if H1 is not None:
        F = thw.F(case["model"], fit, lam)
        v = float(m.v_e(0.0))
        zp = [F/(U + 1e-3), F/U]
        ve = [g*H*th + U*H*nu*z/(2*th) + U*th*H1*z*g for z in zp]
        tol = 1e-5*max(abs(g*H*th), abs(U*H*nu*zp[0]/2/th),
                       abs(U*th*H1*zp[0]*g))
        req(min(ve) - tol <= v <= max(ve) + tol,
            f"{fit}: v_e {v} at lambda={lam}, expected {ve}")
    return lam != 0


# -- selections ----------------------------------------------------------------
class NotCallable:
    pass


def bad_selection(kind, pos):
    f = [lambda l: 0.2 + l, lambda l: 2.0 - l, lambda l: -1.0 + 0*l]
    nc = [None, 3.0, "White", NotCallable()][pos % 4]
    if kind == "name":
        return ["spline", "WHITE", "", "Cebeci", "Cebeci-Bradshaw ", "Thwaites",
                "drela", "Splines", "None"][pos % 9]
    if kind == "two":
        g = f[:2]
        g[pos % 2] = nc
        return tuple(g)
    if kind == "three":
        g = list(f)
        g[pos % 3] = nc
        return tuple(g)
    if kind == "size":
        return tuple((f + f)[:[0, 1, 4, 5, 6][pos % 5]])
    if kind == "other":
        return [None, 3, 2.5, f[0], NotCallable(), {"a": 1}, b"White"][pos % 7]
    raise ValueError(kind)


@st.composite
def select_case(draw):
    sel = st.one_of(
        st.fixed_dictionaries({"fit": st.sampled_from(
            FIT_NAMES + ["custom-a", "custom-a2", "custom-b", "custom-b2"])}),
        st.fixed_dictionaries({"bad": st.sampled_from(
            ["name", "two", "three", "size", "other"]),
            "pos": st.integers(0, 70)}))
    return {"model": draw(st.sampled_from(["linear", "nonlinear"])),
            "nu": draw(logf(1e-6, 1e-3, 4)), "U": draw(logf(2, 50, 4)),
            "lam": draw(st.one_of(fl(-0.07, 0.09, 3), fl(0.09, 0.24, 3))),
            "sels": draw(st.lists(sel, min_size=1, max_size=5)),
            "ctor": draw(st.booleans())}


def check_select(case):
    lam = case["lam"]
    if abs(lam) < 1e-3:
        lam = 1e-3
    m = make(case["model"])
    current = "Spline"     # documented default
    bad = False
    for s in case["sels"]:
        if "fit" in s:
            current = s["fit"]
            m.set_data_fits(fit_arg(current))
        else:
            bad = True
            raises(lambda: m.set_data_fits(bad_selection(s["bad"], s["pos"])),
                   f"selection {s}")
            if case["ctor"]:
                raises(lambda: make(case["model"], data_fits=bad_selection(
                    s["bad"], s["pos"])), f"construction with {s}")
        S, Hf, Hp, lo, hi = thw.scalar_fit(current)
        start_values(case, current, lam, S(lam), Hf(lam),
                     Hp(lam) if lo < lam < hi else None, m)
    return bad or len(case["sels"]) > 1


# -- custom fits ---------------------------------------------------------------
@st.composite
def custom_case(draw):
    return {"model": draw(st.sampled_from(["linear", "nonlinear"])),
            "nu": draw(logf(1e-6, 1e-3, 4)), "U": draw(logf(2, 50, 4)),
            "lam": draw(st.one_of(fl(1e-3, 0.6, 3), fl(-0.6, -1e-3, 3),
                                  fl(1e-3, 0.12, 4), fl(-0.12, -1e-3, 4))),
            "S": [draw(fl(1.0, 3.0, 3)), draw(fl(-1.5, 1.5, 3))],
            "H": [draw(fl(0.5, 3.0, 3)), draw(fl(-0.9, 0.9, 3)),
                  draw(fl(1.0, 40.0, 3)), draw(fl(-3.0, 3.0, 3))],
            "slope": draw(st.booleans())}


def check_custom(case):
    """Functions without a range are used as they are everywhere."""
    (s0, s1), (h0, h1, w, p) = case["S"], case["H"]

    def S(l):
        return s0 + s1*l

    def Hf(l):
        return h0 + 1.0 + h1*np.sin(w*l + p)

    def Hp(l):
        return h1*w*np.cos(w*l + p)
    lam, nu, U = case["lam"], case["nu"], case["U"]
    if abs(lam) < 1e-3:
        raise Skip()
    g = math.copysign(U, lam)
    m = make(case["model"], lambda x: U + g*x, lambda x: g + 0.0*x,
             lambda x: 0.0*x, nu=nu,
             data_fits=(S, Hf, Hp) if case["slope"] else (S, Hf))
    d0 = math.sqrt(nu*abs(lam)/U)
    m.initial_delta_m = d0
    m.solve(0.0, 1e-4)
    th = float(m.delta_m(0.0))
    req(close(th, d0, 1e-9), f"start thickness {th} {d0}")
    got = float(m.shape_d(0.0))
    req(close(got, Hf(lam), 1e-8), f"H({lam}) is {got}, the function given "
        f"returns {Hf(lam)}")
    got = float(m.tau_w(0.0, 1.0))*th/(nu*U)
    req(close(got, S(lam), 1e-8), f"S({lam}) is {got}, the function given "
        f"returns {S(lam)}")
    F = (0.45 - 6*lam if case["model"] == "linear"
         else 2*(S(lam) - lam*(Hf(lam) + 2)))
    zp = [F/(U + 1e-3), F/U]
    ve = [g*Hf(lam)*th + U*Hf(lam)*nu*z/(2*th) + U*th*Hp(lam)*z*g for z in zp]
    got = float(m.v_e(0.0))
    tol = 1e-6*(abs(g*Hf(lam)*th) + abs(U*Hf(lam)*nu*zp[1]/2/th)
                + abs(U*th*h1*w*zp[1]*g))
    req(min(ve) - tol <= got <= max(ve) + tol, f"v_e is {got} at lambda="
        f"{lam}, expected {ve} with slope {Hp(lam)}")
    return abs(lam) > 0.09


LAWS = [
    Law("published", values_case, check_values, 3000, 40000,
        rule="fits against independent formulas"),
    Law("table", table_case, check_table, 300, 1000,
        rule="tabulated values through the solver"),
    Law("selection", select_case, check_select, 1500, 10000,
        rule="valid and malformed selections in any order"),
    Law("custom", custom_case, check_custom, 1200, 8000,
        rule="functions of the user, lambda beyond the built-in ranges"),
]
