"""C03: a solve reports truthfully why, where and in what state it ended."""
import math

import numpy as np
from hypothesis import strategies as st

from core import Law, Skip, raises, req
from gen import Flow, close, fl, flows, fractions, logf
from models import MODELS, internals, make
from ibl.ibl_method import IBLMethod, TermEvent, TermReason
from ibl.initial_condition import ManualCondition

RULE = ("A case is a method (a model problem with a closed-form solution, or "
        "Thwaites' / Head's method), a range and a set of monotonic events "
        "spread over the method and the solve call; non-trivial when at least "
        "one event changes sign inside the range.")
ASSUMPTIONS = ["events whose value changes sign twice within one step of the "
               "integrator are outside of the property (the integrator samples "
               "the sign once per step)"]

REASONS = {r.name: r for r in TermReason}


class Toy(IBLMethod):
    """y1' = a, y2' = k*y2: closed-form solution."""

    def __init__(self, spec):
        super().__init__(nu=1.0, u_e=lambda x: 1.0 + 0.0*np.asarray(x))
        self.s = spec

    def exact(self, x):
        s = self.s
        d = np.asarray(x, float) - s["x0"]
        return np.array([s["y1"] + s["a"]*d, s["y2"]*np.exp(s["k"]*d)])

    def _ode_setup(self):
        return (np.array([self.s["y1"], self.s["y2"]]), self.s["rtol"],
                self.s["atol"])

    def _ode_impl(self, x, f):
        return np.array([self.s["a"] + 0*f[1], self.s["k"]*f[1]])

    def state(self, x):
        return self._solution(x)

    def has_solution(self):
        return self._solution is not None

    def own(self, how, events):
        """Give the events the ways a method can."""
        if how == 0:
            self._set_kill_event(list(events))
        elif how == 1:
            for e in events:
                self._add_kill_event(e)
        elif how == 2:
            self._add_kill_event(list(events))
        else:
            if events:
                self._set_kill_event(events[0])
                self._add_kill_event(list(events[1:]))

    def _no(self, x, rho=None):
        return np.zeros_like(x)

    v_e = delta_d = delta_m = delta_k = shape_d = shape_k = _no
    tau_w = dissipation = _no


class Blowup(Toy):
    """y1' = k*y1^2 blows up at x0 + 1/(k*y1)."""

    def _ode_impl(self, x, f):
        return np.array([self.s["k"]*f[0]**2, 0.0*f[1]])


class Ev(TermEvent):
    """Changes sign where one of x, y1, y2 passes a value."""

    def __init__(self, spec, value):
        super().__init__()
        self.spec, self.value = spec, value
        self.terminal = spec["terminal"]

    def _call_impl(self, x, f):
        q = x if self.spec["on"] == "x" else f[int(self.spec["on"][1]) - 1]
        v = self.spec["sign"]*(q - self.value)
        kind = self.spec["ret"]
        if kind == "float":
            return float(v)
        if kind == "array1":
            return np.array([v]).reshape(1)
        return np.asarray(v)

    def event_info(self):
        return REASONS[self.spec["reason"]], self.spec["info"]


def events(on):
    return st.fixed_dictionaries({
        "on": st.sampled_from(on), "at": fl(-0.3, 1.4, 4),
        "sign": st.sampled_from([1, -1]),
        "terminal": st.sampled_from([True, True, True, False]),
        "ret": st.sampled_from(["float", "array1", "array0"]),
        "reason": st.sampled_from(["SEPARATED", "TRANSITIONED", "UNKNOWN"]),
        "info": st.sampled_from(["", "alpha", "beta: 3", "shock at hinge", "B",
                                 "0", " ", "naïve", "long "*60, "a\nb"])})


def spread(evs):
    """Keep the events apart from each other and from the ends."""
    out = []
    for e in evs:
        ok = all(abs(e["at"] - o["at"]) > 0.01 for o in out)
        if ok and abs(e["at"]) > 0.01 and abs(e["at"] - 1) > 0.01:
            out.append(e)
    return out


@st.composite
def toy_case(draw):
    sgn = st.sampled_from([1.0, -1.0])
    spec = {"x0": draw(fl(-5, 5, 4)), "len": draw(logf(0.05, 8, 4)),
            "y1": draw(fl(-3, 3, 4)), "a": draw(sgn)*draw(logf(0.2, 4, 4)),
            "y2": draw(sgn)*draw(logf(0.3, 4, 4)),
            "k": draw(sgn)*draw(logf(0.2, 1, 4)),
            "rtol": draw(st.sampled_from([None, 1e-6, 1e-8, 1e-8])),
            "atol": draw(st.sampled_from([None, 1e-9]))}
    evs = spread(draw(st.one_of(
        *[st.lists(events(["x", "y1", "y2"]), max_size=6)]*5,
        st.lists(events(["x", "y1", "y2"]), min_size=8, max_size=24))))
    n_own = draw(st.integers(0, len(evs)))
    return {"spec": spec, "own": evs[:n_own], "user": evs[n_own:],
            "how": draw(st.integers(0, 3)),
            "single": draw(st.booleans()), "q": draw(st.lists(
                fractions, min_size=1, max_size=4)),
            "again": draw(st.booleans())}


def expect(evs, x0, length):
    """First terminal event inside of the range."""
    inside = [e for e in evs if e["terminal"] and 0 < e["at"] < 1]
    return min(inside, key=lambda e: e["at"]) if inside else None


def check_report(r, first, info):
    if first is None:
        req(r.status == TermReason.REACHED_END,
            f"status {r.status!r} without an event ({info})")
        req(str(TermReason.REACHED_END) in r.message, f"message {r.message}")
    else:
        req(r.status == REASONS[first["reason"]],
            f"status {r.status!r} instead of {first['reason']} ({info})")
        req(str(r.status) in r.message and first["info"] in r.message,
            f"message {r.message!r} for {first}")
    req(r.success is True or r.success == True,  # noqa: E712
        f"success is {r.success}")
    text = str(r)
    for v in (r.x_end, r.f_end, r.status, r.message, r.success):
        req(f"{v}" in text, f"{v} is not in {text}")


def check_toy(case):
    if not internals():
        raise Skip()
    s = case["spec"]
    m = Toy(s)
    x0, length = s["x0"], s["len"]

    def make_event(e):
        x = x0 + e["at"]*length
        v = {"x": x, "y1": m.exact(x)[0], "y2": m.exact(x)[1]}[e["on"]]
        return Ev(e, float(v))
    own = [make_event(e) for e in case["own"]]
    user = [make_event(e) for e in case["user"]]
    m.own(case["how"], own)
    arg = list(user)
    if not arg:
        arg = [] if case["single"] else None
    elif len(arg) == 1 and case["single"]:
        arg = arg[0]
    if case["again"]:
        m.solve(x0, x0 + 0.3*length, arg)
    r = m.solve(x0, x0 + length, arg)
    if isinstance(arg, list):
        req(len(arg) == len(user) and all(a is b for a, b in zip(arg, user)),
            "the list of events was changed")
    first = expect(case["own"] + case["user"], x0, length)
    x_end = x0 + (first["at"] if first else 1.0)*length
    # the accuracy asked for (1e-5 when the method does not say)
    rtol = s["rtol"] or 1e-5
    size = max(abs(s["y1"]) + abs(s["a"])*length,
               abs(s["y2"])*max(1, math.exp(s["k"]*length)))
    tol_y = 100*(rtol + 1e-8)*size
    rate = 1.0
    if first and first["on"] == "y1":
        rate = abs(s["a"])
    elif first and first["on"] == "y2":
        rate = abs(s["k"]*m.exact(x_end)[1])
    tol_x = 1e-11*(abs(x0) + length) + (0 if first is None else (
        0 if first["on"] == "x" else tol_y/rate))
    if first is not None and tol_x > 0.004*length:
        return False      # accuracy asked for is too low to tell
    check_report(r, first, f"expected end at {x_end}, ended at {r.x_end}")
    req(abs(r.x_end - x_end) <= tol_x, f"ended at {r.x_end} not {x_end}")
    req(r.x_end <= x0 + length + 1e-12*(abs(x0) + length), "past the end")
    req(r.status != TermReason.REACHED_END or r.x_end == x0 + length,
        f"reached the end {x0 + length!r} but reports {r.x_end!r}")
    req(close(r.f_end, m.exact(x_end), 0, tol_y + tol_x*abs(s["a"])
              + tol_x*abs(s["k"])*size),
        f"end state {r.f_end} not {m.exact(x_end)}")
    y0 = m.state(x0)
    req(close(y0, m.exact(x0), 1e-12, 1e-13), f"start state {y0}")
    qs = x0 + np.array(case["q"])*(r.x_end - x0)
    req(close(m.state(qs), m.exact(qs), 0, tol_y), "solution is inaccurate")
    return any(0 < e["at"] < 1 for e in case["own"] + case["user"])


# -- integrations that cannot be completed -----------------------------------
@st.composite
def blowup_case(draw):
    return {"kind": draw(st.sampled_from(["toy", "nonlinear"])),
            "x0": draw(fl(-2, 2, 4)), "y": draw(logf(0.3, 3, 4)),
            "k": draw(logf(0.5, 2, 4)), "beyond": draw(fl(1.1, 3, 4)),
            "solved": draw(st.booleans()), "event": draw(st.booleans())}


def check_blowup(case):
    if case["kind"] == "toy" and not internals():
        raise Skip()
    k, y, x0 = case["k"], case["y"], case["x0"]
    xb = 1/(k*y)
    ev = Ev({"on": "x", "at": 2.0, "sign": 1, "terminal": True, "ret": "float",
             "reason": "SEPARATED", "info": "later"}, x0 + 10*xb)
    arg = [ev] if case["event"] else None
    if case["kind"] == "toy":
        m = Blowup({"x0": x0, "y1": y, "y2": 1.0, "k": k, "rtol": None,
                    "atol": None})
    else:
        # F = 2*(S - lambda*(H + 2)) = 2*lambda^2 + 2
        m = make("nonlinear", lambda x: 1.0 + 1.0*(x - x0), lambda x: 1.0 + 0*x,
                 lambda x: 0.0*x, data_fits=(lambda l: 1 + 4*l + l*l,
                                             lambda l: 2.0 + 0*l,
                                             lambda l: 0.0*l), nu=1e-3)
        m.initial_delta_m = math.sqrt(50*y*1e-3)
        xb = 1.0
    if case["solved"]:
        r = m.solve(x0, x0 + 1e-3*xb)
        req(r.success, f"short solve failed: {r}")
    r = m.solve(x0, x0 + case["beyond"]*xb, arg)
    req(not r.success, f"success though there is no solution: {r}")
    req(r.status == TermReason.UNKNOWN, f"status {r.status!r}")
    req(len(r.message) > 0, "no message")
    req(f"{r.message}" in str(r), "text form")
    if case["kind"] == "toy":
        req(not m.has_solution(), "an old solution is kept")
    else:
        for name in ("delta_m", "delta_d", "shape_d", "v_e"):
            raises(lambda: getattr(m, name)(x0), f"{name} after failure")
    return True


# -- the real methods --------------------------------------------------------
@st.composite
def real_case(draw):
    evs = spread(draw(st.one_of(
        *[st.lists(events(["x"]), max_size=4)]*5,
        st.lists(events(["x"]), min_size=6, max_size=16))))
    return {"model": draw(st.sampled_from(MODELS)),
            "flow": draw(st.one_of(flows(), flows(("lin",)))),
            "d0": draw(fl(0.1, 0.8, 3)), "H0": draw(fl(1.25, 1.7, 3)),
            "events": evs, "single": draw(st.booleans()),
            "crit": draw(fl(1.9, 2.6, 3))}


def check_real(case):
    flow = Flow(case["flow"])
    head = case["model"] == "head"
    nu = flow.U*flow.L/(3e6 if head else 1e4)

    def fresh():
        m = make(case["model"], flow.u, flow.du, flow.d2u, nu=nu)
        if head:
            m.initial_delta_m = 0.002*case["d0"]*flow.L
            m.initial_shape_d = case["H0"]
            m.set_shape_d_critical(case["crit"])
        else:
            m.initial_delta_m = case["d0"]*math.sqrt(nu*flow.L/flow.U)
        return m
    plain = fresh()
    rp = plain.solve(flow.x0, flow.x1)
    at = (rp.x_end - flow.x0)/flow.L
    evs = [e for e in case["events"] if abs(e["at"] - at) > 0.01]
    built = [Ev(e, flow.x0 + e["at"]*flow.L) for e in evs]
    arg = built if not (len(built) == 1 and case["single"]) else built[0]
    m = fresh()
    r = m.solve(flow.x0, flow.x1, arg)
    first = expect(evs, flow.x0, flow.L)
    if first is not None and first["at"] < at:
        check_report(r, first, f"ended at {r.x_end}")
        x_end = flow.x0 + first["at"]*flow.L
    else:
        req(r.status == rp.status, f"{r.status!r} instead of {rp.status!r}")
        req(r.message == rp.message, f"{r.message} not {rp.message}")
        x_end = rp.x_end
        req(r.status != TermReason.REACHED_END or r.x_end == flow.x1,
            f"reached the end {flow.x1!r} but reports {r.x_end!r}")
    tol = 1e-9*(abs(flow.x0) + flow.L)
    req(abs(r.x_end - x_end) <= tol, f"ended at {r.x_end} not {x_end}")
    req(r.x_end <= flow.x1 + tol, "past the end")
    ref = plain.delta_m(x_end)
    req(close(m.delta_m(r.x_end), ref, 1e-6), "state differs from plain solve")
    fm = r.f_end[0] if head else math.sqrt(r.f_end[0]*nu)
    req(close(fm, ref, 1e-6), f"end state {r.f_end} is not {ref}")
    if head:
        req(close(r.f_end[1], plain.shape_d(x_end), 1e-6), "end shape factor")
    return any(0 < e["at"] < 1 for e in evs)


LAWS = [
    Law("model_problem", toy_case, check_toy, 4000, 30000,
        rule="closed-form method with up to six events, own and user's"),
    Law("no_solution", blowup_case, check_blowup, 150, 1500,
        rule="integrations that blow up"),
    Law("methods", real_case, check_real, 1000, 6000,
        rule="Thwaites' and Head's method with user events"),
]
