"""C01: every representation of the edge velocity is consistent."""
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline, PchipInterpolator

from core import Law, req
from gen import (FORMS, Flow, WithDerivative, check_form, close, fl, flows,
                 logf, query_fracs, sig)
from models import MODELS, make

RULE = ("A case is one edge velocity specification with query locations; "
        "non-trivial when the velocity is not constant and at least one query "
        "is strictly inside the range.")
ASSUMPTIONS = ["finite-difference derivatives are compared with tolerances "
               "derived from their documented step sizes"]


def build(case, args):
    """Give the velocity at construction or afterwards."""
    if case["late"]:
        m = make(case["model"])
        if case["late"] == 2:    # replace an unrelated velocity
            m.set_velocity(lambda x: 3.0 + 0.0*x)
        m.set_velocity(*args)
        return m
    return make(case["model"], *args)


def query(m, name, xs, tol=0.0, form="np"):
    """Query scalars and arrays, which must agree."""
    check_form(form, m, [name], xs, min(xs), max(xs), atol=tol)
    f = getattr(m, name)
    arr = np.array(xs, float)
    keep = arr.copy()
    a = np.asarray(f(arr), float)
    req(np.array_equal(arr, keep), f"{name} changed the locations")
    req(a.shape == arr.shape, f"{name}: shape {a.shape} for {arr.shape}")
    s = np.array([float(f(float(x))) for x in xs])
    req(close(s, a, 1e-9, tol + 1e-12*(1 + np.max(np.abs(a)))),
        f"{name}: scalar and array queries differ: {s} {a}")
    return a


common = {"model": st.sampled_from(MODELS), "late": st.integers(0, 2),
          "lform": st.sampled_from(FORMS)}


# -- tabulated points ---------------------------------------------------
@st.composite
def tables(draw, npts=(2, 12)):
    n = draw(st.integers(*npts))
    # now and then a table with many points
    more = draw(st.sampled_from([0]*24 + [120, 450]))
    x0 = draw(fl(-5, 5, 4))
    dx = draw(st.lists(st.sampled_from([0.01, 0.05, 0.1, 0.3, 1.0, 2.5]),
                       min_size=n - 1, max_size=n - 1))
    dx = [dx[i % len(dx)] for i in range(n - 1 + more)]
    x = [sig(v, 8) for v in np.concatenate([[x0], x0 + np.cumsum(dx)])]
    v = draw(st.lists(st.one_of(fl(-100, 100, 4), fl(0, 20, 3),
                                st.sampled_from([0.0, 1.0, 2.0])),
                      min_size=n, max_size=n))
    v = [sig(v[i % n]*(1 + i//n/(more + 1)), 6) for i in range(n + more)]
    if draw(st.integers(0, 4)) == 0:
        step = draw(st.lists(st.integers(1, 4), min_size=n, max_size=n))
        step = [step[i % n] for i in range(n + more)]
        x = [float(i) for i in round(x0) + np.cumsum(step)]
        v = [float(round(i)) for i in v]
    return x, v


@st.composite
def points_case(draw):
    x, v = draw(tables())
    return {"x": x, "v": v, "container": draw(st.integers(0, 8)),
            "reuse": draw(st.booleans()),
            "q": draw(query_fracs()),
            **{k: draw(s) for k, s in common.items()}}


def as_container(kind, x, v):
    if kind == 0:
        return (x, v)
    if kind == 1:
        return (np.array(x), np.array(v))
    if kind == 2:
        return (tuple(x), np.array(v))
    if kind == 3:
        return (np.repeat(x, 2)[::2], np.array(v)[::-1].copy()[::-1])
    if kind == 4:
        both = np.array([x, v])
        both.setflags(write=False)
        return both
    if kind == 5:
        return np.array([x, v]).T.copy().T
    if kind > 6 and all(i == round(i) for i in list(x) + list(v)):
        if kind == 7:
            return ([int(i) for i in x], [int(i) for i in v])
        return (np.array(x, dtype=np.int32), np.array(v, dtype=int))
    return [np.array(x), list(v)]


def build_table(case, first, x, v):
    """Object for tabulated values whose arrays are used for others later."""
    table = as_container(case["container"], list(x), list(v))
    m = build(case, first + (table,))
    now = np.array(table, float)
    req(np.array_equal(now, [x, v]), f"the table was changed to {now}")
    if case["reuse"]:
        for a in table:
            if isinstance(a, list) or (isinstance(a, np.ndarray)
                                       and a.flags.writeable):
                a[:] = [7.0 - 3.0*i for i in range(len(a))]
    return m


def check_points(case):
    x, v = case["x"], case["v"]
    m = build_table(case, (), x, v)
    scale = max(1.0, max(map(abs, v)))
    got = query(m, "u_e", x, form=case["lform"])
    req(close(got, v, 1e-12, 1e-11*scale), f"misses the points: {got} {v}")
    span = x[-1] - x[0]
    qs = [x[0] + f*span for f in case["q"]]
    u = query(m, "u_e", qs, form=case["lform"])
    for xq, uq in zip(qs, u):
        i = min(max(np.searchsorted(x, xq, side="right") - 1, 0), len(x) - 2)
        lo, hi = min(v[i], v[i+1]), max(v[i], v[i+1])
        req(lo - 1e-9*scale <= uq <= hi + 1e-9*scale,
            f"overshoot at {xq}: {uq} not in [{lo}, {hi}]")
    ref = PchipInterpolator(x, v)
    hmin = min(np.diff(x))
    req(close(u, ref(qs), 1e-9, 1e-10*scale), f"u_e {u} is not {ref(qs)}")
    d = query(m, "du_e", qs, form=case["lform"])
    req(close(d, ref(qs, 1), 1e-8, 1e-9*scale/hmin),
        f"du_e {d} is not {ref(qs, 1)}")
    d2 = query(m, "d2u_e", qs, form=case["lform"])
    req(close(d2, ref(qs, 2), 1e-7, 1e-8*scale/hmin**2),
        f"d2u_e {d2} is not {ref(qs, 2)}")
    return len(set(v)) > 1 and any(0 < f < 1 for f in case["q"])


# -- scalar and tabulated slopes -----------------------------------------
@st.composite
def slopes_case(draw):
    x, v = draw(tables())
    kind = draw(st.sampled_from(["float", "int", "np.float64", "np.int64",
                                 "np.int32", "np.float32"]))
    u0 = draw(fl(-50, 50, 4))
    if kind.startswith(("int", "np.int", "np.float32")):
        u0 = float(round(u0))
    return {"x": x, "v": v, "container": draw(st.integers(0, 8)),
            "reuse": draw(st.booleans()),
            "u0": u0, "u0kind": kind,
            "q": draw(query_fracs()),
            **{k: draw(s) for k, s in common.items()}}


def check_slopes(case):
    x, v = case["x"], case["v"]
    u0 = {"float": float, "int": int}.get(
        case["u0kind"], getattr(np, case["u0kind"][3:], None))(case["u0"])
    m = build_table(case, (u0,), x, v)
    span = x[-1] - x[0]
    scale = max(1.0, max(map(abs, v)))
    uscale = abs(case["u0"]) + scale*max(1.0, span)
    got = float(m.u_e(x[0]))
    req(abs(got - case["u0"]) <= 1e-10*uscale,
        f"start velocity {got} is not {case['u0']}")
    got = query(m, "du_e", x, form=case["lform"])
    req(close(got, v, 1e-12, 1e-11*scale), f"misses the slopes: {got} {v}")
    qs = [x[0] + f*span for f in case["q"]]
    ref = PchipInterpolator(x, v)
    # integrate independently, the slopes are cubic on each interval
    gx, gw = np.polynomial.legendre.leggauss(3)

    def part(a, b):
        return (b - a)/2*np.sum(gw*ref((a + b)/2 + (b - a)/2*gx))
    whole = np.cumsum([0.0] + [part(a, b) for a, b in zip(x[:-1], x[1:])])

    def integral(xq):
        i = min(max(int(np.searchsorted(x, xq)) - 1, 0), len(x) - 2)
        return whole[i] + part(x[i], xq)
    uref = np.array([case["u0"] + integral(q) for q in qs])
    u = query(m, "u_e", qs, form=case["lform"])
    req(close(u, uref, 1e-9, 1e-9*uscale), f"u_e {u} is not {uref}")
    d = query(m, "du_e", qs, form=case["lform"])
    hmin = min(np.diff(x))
    req(close(d, ref(qs), 1e-9, 1e-10*scale), f"du_e {d} is not {ref(qs)}")
    d2 = query(m, "d2u_e", qs, form=case["lform"])
    req(close(d2, ref(qs, 1), 1e-8, 1e-9*scale/hmin),
        f"d2u_e {d2} is not {ref(qs, 1)}")
    return len(set(v)) > 1 and any(0 < f < 1 for f in case["q"])


# -- functions -------------------------------------------------------------
@st.composite
def functions_case(draw):
    flow = draw(flows())
    if draw(st.integers(0, 3)) == 0:
        # far from the origin
        flow["xs"] = draw(logf(10, 5000, 4))*draw(st.sampled_from([-1, 1]))
    return {"flow": flow, "q": draw(query_fracs()),
            "form": draw(st.sampled_from(
                ["full", "u_du", "u", "u_deriv", "u_du_deriv", "u_notderiv",
                 "u_du_notderiv", "all_deriv", "cubic", "u_deriv_and_du",
                 "u_other_d2u"])),
            **{k: draw(s) for k, s in common.items()}}


class NotCallableDerivative:
    """Has an attribute of the right name that is not a method."""
    derivative = 3.5

    def __init__(self, fun):
        self._fun = fun

    def __call__(self, x):
        return self._fun(x)


def check_functions(case):
    fl_ = Flow(case["flow"])
    form = case["form"]
    U, L = fl_.U, fl_.L
    e = [fl_.u, fl_.du, fl_.d2u]
    exact = 1e-10
    tol = [exact*U, exact*U/L, exact*U/L**2]
    # five point differences with the step sizes of the library
    fd1 = 1e-6*U/L + 1e-9*U
    fd2_from_u = 1e-4*U/L**2 + 3e-6*U
    fd1_of_du = 1e-5*U/L**2 + 1e-8*U/L
    # round-off of the locations
    eps = 1e-14*(abs(fl_.xs) + L)*U/L
    fd1 += eps/1e-4
    fd2_from_u += eps/1e-8
    fd1_of_du += eps/L/1e-5
    if form == "full":
        args = e
    elif form == "u_du":
        args = e[:2]
        tol[2] = fd1_of_du
    elif form == "u":
        args = e[:1]
        tol[1], tol[2] = fd1, fd2_from_u
    elif form == "u_deriv":
        args = [WithDerivative(fl_)]
    elif form == "u_du_deriv":
        args = [fl_.u, WithDerivative(fl_, 1)]
    elif form == "u_notderiv":
        args = [NotCallableDerivative(fl_.u)]
        tol[1], tol[2] = fd1, fd2_from_u
    elif form == "u_du_notderiv":
        args = [fl_.u, NotCallableDerivative(fl_.du)]
        tol[2] = fd1_of_du
    elif form == "all_deriv":
        args = [WithDerivative(fl_), WithDerivative(fl_, 1),
                WithDerivative(fl_, 2)]
    elif form == "u_deriv_and_du":
        # own derivative functions take precedence over derivative()
        e = [fl_.u, lambda x: fl_.du(x) + U/L, fl_.d2u]
        args = [WithDerivative(fl_), e[1], e[2]]
    elif form == "u_other_d2u":
        e = [fl_.u, fl_.du, lambda x: fl_.d2u(x) - 2*U/L**2]
        args = [fl_.u, WithDerivative(fl_, 1), e[2]]
    else:
        xp = np.linspace(fl_.x0, fl_.x1, 9)
        cs = CubicSpline(xp, fl_.u(xp))
        args = [cs]
        e = [cs, cs.derivative(), cs.derivative(2)]
    m = build(case, args)
    qs = fl_.at(case["q"])
    for name, f, t in zip(["u_e", "du_e", "d2u_e"], e, tol):
        got = query(m, name, qs, t, case["lform"])
        ref = np.array([float(f(float(x))) for x in qs])
        req(close(got, ref, 1e-10, t), f"{form}: {name} {got} is not {ref}")
    return any(0 < f < 1 for f in case["q"])


LAWS = [
    Law("points", points_case, check_points, 2500, 20000,
        rule="random tables, interpolated values against an independent PCHIP"),
    Law("slopes", slopes_case, check_slopes, 2500, 20000,
        rule="random start value and slopes, against independent quadrature"),
    Law("functions", functions_case, check_functions, 3000, 20000,
        rule="all mixes of supplied and derived derivative functions"),
]
