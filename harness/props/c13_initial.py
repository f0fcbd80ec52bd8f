"""C13: initial conditions supply mutually consistent start values."""
import math

import numpy as np
from hypothesis import strategies as st

from core import Law, Skip, raises, req
from gen import Flow, close, fl, flows, logf, velocity_args
from models import internals, make
from ibl.ibl_method import IBLMethod
from ibl.initial_condition import (FalknerSkanStagCondition, InitialCondition,
                                   ManualCondition)

RULE = ("A case is a sequence of parameter changes of a condition, or of "
        "changes of condition, viscosity, velocity and start location of a "
        "method with a solve after each; non-trivial when two different "
        "values were in force in turn.")
ASSUMPTIONS = ["plane stagnation point flow: theta*sqrt(u'/nu)=0.292344, "
               "H=2.216235, H_k=1.625752 (Falkner-Skan, beta=1)"]

# plane stagnation point flow (beta=1), solved independently in C15
H_STAG, HK_STAG, TH_STAG = 2.21623, 1.62575, 0.292344


def consistent(ic, what):
    d, m, k = (np.asarray(f(), float) for f in (ic.delta_d, ic.delta_m,
                                                ic.delta_k))
    req(close(ic.shape_d()*m, d, 1e-12), f"{what}: delta_d {d} is not H*delta_m "
        f"{ic.shape_d()*m}")
    req(close(ic.shape_k()*m, k, 1e-12), f"{what}: delta_k {k} is not "
        f"H_k*delta_m {ic.shape_k()*m}")


def stag_theta(du, nu):
    return TH_STAG*math.sqrt(nu/du)


bad_nu = st.sampled_from([0.0, -1e-5, -1.0, -1e300, 0, -0.0])


@st.composite
def stag_case(draw):
    op = st.one_of(
        st.tuples(st.just("nu"), logf(1e-9, 10, 6)),
        st.tuples(st.just("du"), logf(1e-6, 1e6, 6)),
        st.tuples(st.just("bad"), bad_nu),
        st.tuples(st.just("other"), logf(1e-3, 1e3, 5)))
    return {"du": draw(logf(1e-6, 1e6, 6)), "nu": draw(logf(1e-9, 10, 6)),
            "ops": draw(st.lists(op, max_size=8))}


def check_stag(case):
    ic = FalknerSkanStagCondition(case["du"], case["nu"])
    du, nu = case["du"], case["nu"]
    other = None

    def look():
        req(ic.du_e == du and ic.nu == nu, f"reports u'={ic.du_e}, nu={ic.nu} "
            f"where {du}, {nu} were set")
        consistent(ic, "stagnation condition")
        req(close(ic.shape_d(), H_STAG, 5e-5), f"H is {ic.shape_d()}")
        req(close(ic.shape_k(), HK_STAG, 5e-5), f"H_k is {ic.shape_k()}")
        ref = stag_theta(du, nu)
        req(close(ic.delta_m(), ref, 5e-5), f"delta_m is {ic.delta_m()}, not "
            f"{ref} for u'={du}, nu={nu}")
    look()
    changed = False
    for o, v in case["ops"]:
        if o == "nu":
            changed |= v != nu
            ic.nu = nu = v
        elif o == "du":
            changed |= v != du
            ic.du_e = du = v
        elif o == "bad":
            def f():
                ic.nu = v
            raises(f, f"viscosity {v}")
        else:
            other = FalknerSkanStagCondition(v, v)
            other.delta_m()
        look()
    raises(lambda: FalknerSkanStagCondition(1.0, -nu), "negative viscosity")
    raises(lambda: FalknerSkanStagCondition(1.0, 0.0), "zero viscosity")
    return changed


@st.composite
def manual_case(draw):
    v = st.one_of(logf(1e-6, 10, 6), logf(1e-12, 1e4, 6))
    z = st.one_of(v, st.just(0.0))   # thicknesses that are not modelled
    op = st.one_of(st.tuples(st.sampled_from(["m", "nu", "du"]), v),
                   st.tuples(st.sampled_from(["d", "k"]), z),
                   st.tuples(st.just("bad"), bad_nu))
    return {"d": draw(z), "m": draw(v), "k": draw(z),
            "ops": draw(st.lists(op, max_size=8))}


def check_manual(case):
    ic = ManualCondition(delta_d=case["d"], delta_m=case["m"],
                         delta_k=case["k"])
    now = {n: case[n] for n in "dmk"}

    def look():
        for n, f in (("d", ic.delta_d), ("m", ic.delta_m), ("k", ic.delta_k)):
            req(f() == now[n], f"delta_{n} is {f()}, {now[n]} was set")
        consistent(ic, "manual condition")
    look()
    changed = False
    for o, v in case["ops"]:
        if o in now:
            changed |= now[o] != v
            setattr(ic, "del_" + o, v)
            now[o] = v
        elif o == "nu":
            ic.nu = v
            req(ic.nu == v, "viscosity not kept")
        elif o == "du":
            ic.du_e = v
            req(ic.du_e == v, "velocity gradient not kept")
        else:
            def f():
                ic.nu = v
            raises(f, f"viscosity {v}")
        look()
    return changed


# -- what a solve starts from -------------------------------------------------
class Toy(IBLMethod):
    """Method with constant thickness, started from the condition."""

    def _ode_setup(self):
        return np.array([self._ic.delta_m(), self._ic.shape_d()]), None, None

    def _ode_impl(self, x, f):
        return np.zeros_like(f)

    def delta_m(self, x):
        return self._solution(x)[0]

    def shape_d(self, x):
        return self._solution(x)[1]

    def u_(self, x):
        return self.u_e(x)
    v_e = delta_d = delta_k = shape_k = u_

    def tau_w(self, x, rho):
        return self.u_e(x)
    dissipation = tau_w


class Custom(InitialCondition):
    """User-defined condition depending on both parameters."""

    def __init__(self, c):
        super().__init__(1.0, 1.0)
        self.c = c

    def shape_d(self):
        return 1.3 + 0.1*self.c

    def shape_k(self):
        return 1.5

    def delta_m(self):
        return self.c*math.sqrt(self.nu/(1.0 + abs(self.du_e)))

    def delta_d(self):
        return self.shape_d()*self.delta_m()

    def delta_k(self):
        return self.shape_k()*self.delta_m()


@st.composite
def solve_case(draw):
    model = draw(st.sampled_from(["toy", "linear", "nonlinear", "head"]))
    op = st.one_of(
        st.tuples(st.just("nu"), logf(1e-6, 1e-3, 5)),
        st.tuples(st.just("flow"), flows(("pow", "exp"), decel=False,
                                         U=(5.0, 60.0))),
        st.tuples(st.just("start"), fl(0.0, 0.6, 3)),
        st.tuples(st.just("share"), logf(1e-6, 1e-3, 5)),
        st.tuples(st.just("stag"), logf(0.1, 10, 4)),
        st.tuples(st.just("custom"), logf(0.2, 2.0, 4)),
        st.tuples(st.sampled_from(["manual", "value"]),
                  st.tuples(logf(1e-4, 1e-2, 4), fl(1.3, 1.8, 3))))
    return {"model": model, "ic": draw(st.booleans()),
            "flow": draw(flows(("pow", "exp"), decel=False, U=(5.0, 60.0))),
            "rep": draw(st.sampled_from(["full", "u_du", "spline", "points"])),
            "nu": draw(logf(1e-6, 1e-3, 5)),
            "ops": draw(st.lists(op, min_size=1, max_size=6))}


def check_solve(case):
    if case["model"] == "toy" and not internals():
        raise Skip()
    flow = Flow(case["flow"])
    args, exact = velocity_args(flow, case["rep"])
    nu, start = case["nu"], 0.0
    model = case["model"]
    obj = Custom(1.0)      # the condition in use
    if model == "toy":
        kw = {"ic": obj} if case["ic"] else {}
        m = Toy(nu, *args, **kw)
        cond = ("custom", 1.0) if case["ic"] else ("stag", None)
    else:
        m = make(model, *args, nu=nu)
        m.set_initial_condition(obj)
        cond = ("custom", 1.0)
    if model == "toy" and not case["ic"]:
        obj = None
    seen = set()
    manual = None
    for o, v in [("none", 0)] + [tuple(o) for o in case["ops"]]:
        if o == "nu":
            m.nu = nu = v
        elif o == "flow":
            flow = Flow(v)
            args, exact = velocity_args(flow, case["rep"])
            m.set_velocity(*args)
        elif o == "start":
            start = v
        elif o == "stag":
            obj = FalknerSkanStagCondition(v, v)
            m.set_initial_condition(obj)
            cond = ("stag", None)
        elif o == "custom":
            obj = Custom(v)
            m.set_initial_condition(obj)
            cond = ("custom", v)
        elif o == "manual":
            th, H = v
            if cond[0] == "manual":
                # the condition in use is changed, not replaced
                manual.del_m, manual.del_d = th, th*H
            else:
                manual = ManualCondition(delta_d=th*H, delta_m=th, delta_k=th)
                m.set_initial_condition(manual)
                obj = manual
            cond = ("manual", (th, H))
        elif o == "value" and model != "toy":
            # the values replace any condition
            if model == "head" and seen:
                m.initial_shape_d = v[1]
            m.initial_delta_m = v[0]
            if model == "head" and not seen:
                m.initial_shape_d = v[1]
            cond = ("value", v)
            obj = None
        elif o == "share" and obj is not None:
            # another method starts from the same condition
            m2 = make("linear", lambda x: 3 + 7*v*np.asarray(x),
                      lambda x: 7*v + 0*np.asarray(x), nu=v)
            m2.set_initial_condition(obj)
            m2.solve(0.0, 0.01)
        x0 = float(flow.at(start))
        du = float(exact[1](x0))
        if cond[0] == "stag" and du <= 1e-9*flow.U/flow.L:
            continue
        r = m.solve(x0, x0 + 0.05*flow.L)
        if not r.success:
            raise Skip()
        if cond[0] == "stag":
            ref = stag_theta(du, nu), H_STAG
        elif cond[0] == "custom":
            ref = cond[1]*math.sqrt(nu/(1 + abs(du))), 1.3 + 0.1*cond[1]
        else:
            ref = cond[1]
        tol = 5e-5 if cond[0] == "stag" else 1e-7
        got = float(np.ravel(m.delta_m(x0))[0])
        req(close(got, ref[0], tol), f"after {o}: starts with delta_m {got}, "
            f"not {ref[0]} ({cond[0]}, u'={du}, nu={nu})")
        if model in ("toy", "head"):
            got = float(np.ravel(m.shape_d(x0))[0])
            req(close(got, ref[1], tol), f"after {o}: starts with H {got}, "
                f"not {ref[1]}")
        if model != "toy":
            got = float(m.initial_delta_m)
            req(close(got, ref[0], tol), f"initial_delta_m {got}, "
                f"not {ref[0]}")
            if model == "head":
                got = float(m.initial_shape_d)
                req(close(got, ref[1], tol), f"initial_shape_d {got}, "
                    f"not {ref[1]}")
        seen.add(float(ref[0]))
    return len(seen) > 1


LAWS = [
    Law("stagnation", stag_case, check_stag, 1500, 20000,
        rule="a change of gradient or viscosity"),
    Law("manual", manual_case, check_manual, 1500, 20000,
        rule="a change of thickness"),
    Law("solve", solve_case, check_solve, 2000, 15000,
        rule="two solves from different start values"),
]
