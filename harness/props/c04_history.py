"""C04: a solve depends only on the present configuration, not on history."""
import math

import numpy as np
from hypothesis import strategies as st

from core import Law, Violation, raises, req
from gen import (ALL_FITS, Flow, close, fit_arg, fl, flows, logf, query_fracs,
                 velocity_args)
from models import MODELS, make
from ibl.ibl_method import TermEvent, TermReason
from ibl.initial_condition import (FalknerSkanStagCondition, InitialCondition,
                                   ManualCondition)

RULE = ("A case is a sequence of configuration changes, refused calls, solves "
        "with and without user events and queries on two solver objects; after "
        "each solve everything is compared with a new object that is given the "
        "final configuration directly. Non-trivial when a compared solve was "
        "preceded by another solve or a refused call on the same object.")
ASSUMPTIONS = [
    "initial_delta_m is not set while a condition that is not manual is in "
    "force"]

REP = ["full", "u_du", "spline", "points", "slopes", "u", "readonly"]


class XEvent(TermEvent):
    def __init__(self, x, terminal=True, reason="TRANSITIONED"):
        super().__init__()
        self._x, self._reason = x, TermReason[reason]
        self.terminal = terminal

    def _call_impl(self, x, f):
        return x - self._x

    def event_info(self):
        return self._reason, f"at {self._x}"


class OwnCondition(InitialCondition):
    """User condition that depends on viscosity and velocity gradient."""

    def __init__(self, c, H):
        super().__init__(1.0, 1.0)
        self.c, self.H = c, H

    def delta_m(self):
        return self.c*math.sqrt(self.nu/(1.0 + abs(self.du_e)))

    def delta_d(self):
        return self.H*self.delta_m()

    def delta_k(self):
        return 1.6*self.delta_m()

    def shape_d(self):
        return self.H

    def shape_k(self):
        return 1.6


def condition(c):
    if c["kind"] == "manual":
        return ManualCondition(c["H"]*c["d"], c["d"], 1.6*c["d"])
    if c["kind"] == "own":
        return OwnCondition(c["c"], c["H"])
    return FalknerSkanStagCondition(3.0, 7.0)


vel = st.fixed_dictionaries({"flow": flows(U=(2.0, 20.0), L=(0.5, 2.0)),
                             "rep": st.sampled_from(REP)})


@st.composite
def config(draw, model):
    head = model == "head"
    return {"model": model, "vel": draw(vel),
            "nu": draw(logf(1e-6, 2e-5, 4) if head else logf(1e-6, 1e-3, 4)),
            "start": {"kind": "pair", "H_first": draw(st.booleans()), "d": draw(
                logf(5e-4, 4e-3, 4) if head else logf(1e-4, 5e-3, 4)),
                "H": draw(fl(1.25, 1.8, 3))},
            "fit": draw(st.sampled_from(ALL_FITS)),
            "crit": draw(fl(2.0, 2.8, 3))}


@st.composite
def operation(draw, model):
    head = model == "head"
    kind = draw(st.sampled_from(
        ["solve"]*5 + ["velocity", "nu", "start", "start", "option", "option",
                       "refused", "refused", "query", "query"]))
    op = {"op": kind, "obj": draw(st.integers(0, 1))}
    if kind == "solve":
        op.update(a=draw(fl(0.0, 0.4, 3)), b=draw(fl(0.5, 1.0, 3)),
                  events=draw(st.lists(st.tuples(
                      fl(0.02, 1.2, 3), st.booleans()), max_size=2)),
                  single=draw(st.booleans()), q=draw(query_fracs(1, 4)))
    elif kind == "velocity":
        op.update(draw(vel))
    elif kind == "nu":
        op["v"] = draw(logf(1e-6, 2e-5, 4) if head else logf(1e-6, 1e-3, 4))
    elif kind == "start":
        d = draw(logf(5e-4, 4e-3, 4) if head else logf(1e-4, 5e-3, 4))
        h = draw(fl(1.25, 1.8, 3))
        op["v"] = draw(st.one_of(
            st.just({"kind": "pair", "d": d, "H": h}),
            st.just({"kind": "pair", "d": d, "H": h, "H_first": True}),
            st.just({"kind": "part", "d": d}),
            st.just({"kind": "part", "H": h}),
            st.just({"kind": "manual", "d": d, "H": h}),
            st.just({"kind": "own", "c": 0.3 if not head else 1.5, "H": h}),
            st.just({"kind": "stag"})))
    elif kind == "option":
        op["fit"] = draw(st.sampled_from(ALL_FITS))
        op["crit"] = draw(fl(1.8, 2.8, 3))
    elif kind == "refused":
        op["what"] = draw(st.sampled_from(
            ["velocity", "du", "nu", "delta_m", "option", "shape_d"]))
        op["v"] = draw(fl(-5, 0, 3))
    else:
        op["q"] = draw(query_fracs(1, 4))
    return op


@st.composite
def history_case(draw):
    model = draw(st.sampled_from(MODELS))
    other = draw(st.sampled_from(MODELS))
    return {"configs": [draw(config(model)), draw(config(other))],
            "ops": draw(st.lists(operation(model), min_size=3, max_size=12))}


def build(cfg, direct):
    """New object with the configuration.

    Directly by the constructor or with the setters.
    """
    flow = Flow(cfg["vel"]["flow"])
    args = velocity_args(flow, cfg["vel"]["rep"])[0]
    head = cfg["model"] == "head"
    if direct:
        kw = ({"shape_d_crit": cfg["crit"]} if head
              else {"data_fits": fit_arg(cfg["fit"])})
        m = make(cfg["model"], *args, nu=cfg["nu"], **kw)
    else:
        m = make(cfg["model"])
        m.set_velocity(*args)
        m.nu = cfg["nu"]
        option(m, cfg)
    start(m, cfg)
    return m, args


def option(m, cfg):
    if cfg["model"] == "head":
        m.set_shape_d_critical(cfg["crit"])
    else:
        m.set_data_fits(fit_arg(cfg["fit"]))


def start(m, cfg):
    s = cfg["start"]
    if s["kind"] == "pair":
        head = cfg["model"] == "head"
        if head and s.get("H_first"):
            m.initial_shape_d = s["H"]
        m.initial_delta_m = s["d"]
        if head and not s.get("H_first"):
            m.initial_shape_d = s["H"]
    else:
        m.set_initial_condition(condition(s))


def snapshot(m, qs):
    out = {}
    for name in ("delta_m", "delta_d", "shape_d", "v_e"):
        out[name] = np.array(getattr(m, name)(qs), float)
    out["tau_w"] = np.array(m.tau_w(qs, 1.3), float)
    out["u_e"] = np.array(m.u_e(qs), float)
    return out


def arrays(args):
    """The arrays handed in with the velocity."""
    out = []
    for a in args:
        if isinstance(a, tuple):
            out += arrays(a)
        elif isinstance(a, np.ndarray):
            out.append(a)
    return out


class Slot:
    """One solver object and what is known of it."""

    def __init__(self, cfg):
        self.cfg = dict(cfg)
        self.m, args = build(cfg, False)
        self.arrays = [(a, a.copy()) for a in arrays(args)]
        self.last = None       # (qs, snapshot) of the present solution
        self.buf = np.zeros(0)
        self.past = False

    def keep(self, args):
        self.arrays += [(a, a.copy()) for a in arrays(args)]

    def again(self, qs):
        """Snapshot with an array that is changed between the queries."""
        if self.buf.shape != qs.shape:
            self.buf = qs.copy()
        self.buf[:] = qs[::-1]
        back = snapshot(self.m, self.buf)
        self.buf[:] = qs
        now = snapshot(self.m, self.buf)
        for k, v in now.items():
            req(close(back[k][::-1], v, 1e-9,
                      1e-12*(1e-300 + np.max(np.abs(v))))
                or not np.all(np.isfinite(v)),
                f"{k} is {back[k]} at {qs[::-1]}, but {v} at {qs}")
        return now

    def check(self, what):
        """Nothing done meanwhile may have changed solution or inputs."""
        for a, b in self.arrays:
            req(np.array_equal(a, b), f"{what} changed an array handed in")
        if self.last is not None:
            qs, snap = self.last
            now = self.again(qs)
            for k, v in snap.items():
                req(np.array_equal(now[k], v, equal_nan=True),
                    f"{what} changed {k} from {v} to {now[k]}")


def usable(cfg, a):
    """Whether a stagnation condition makes sense there."""
    flow = Flow(cfg["vel"]["flow"])
    return (cfg["start"]["kind"] != "stag"
            or (flow.du(flow.x0 + a*flow.L) > 0.05*flow.U/flow.L
                and cfg["model"] != "head"))


def check_history(case):
    slots = [Slot(c) for c in case["configs"]]
    hit = False
    for i, op in enumerate(case["ops"]):
        s = slots[op["obj"]]
        m, cfg = s.m, s.cfg
        what = f"operation {i} ({op['op']})"
        kind = op["op"]
        if kind == "velocity":
            cfg["vel"] = {"flow": op["flow"], "rep": op["rep"]}
            args = velocity_args(Flow(op["flow"]), op["rep"])[0]
            s.keep(args)
            m.set_velocity(*args)
            s.last = None
        elif kind == "nu":
            cfg["nu"] = op["v"]
            m.nu = op["v"]
            s.last = None
        elif kind == "start":
            if op["v"]["kind"] == "part":
                # one of the two values, the other one stays
                if cfg["start"]["kind"] in ("stag", "own"):
                    continue
                if "d" in op["v"]:
                    m.initial_delta_m = op["v"]["d"]
                elif cfg["model"] == "head":
                    m.initial_shape_d = op["v"]["H"]
                cfg["start"] = {"kind": "pair", "d": cfg["start"]["d"],
                                "H": cfg["start"]["H"]}
                cfg["start"].update({k: v for k, v in op["v"].items()
                                     if k != "kind"})
            else:
                cfg["start"] = op["v"]
                start(m, cfg)
        elif kind == "option":
            cfg["fit"], cfg["crit"] = op["fit"], op["crit"]
            option(m, cfg)
            if cfg["model"] != "head":
                s.last = None
        elif kind == "refused":
            s.past = True
            refuse(m, cfg, op)
        elif kind == "query":
            qs = Flow(cfg["vel"]["flow"]).at(op["q"])
            m.u_e(qs), m.du_e(qs), m.d2u_e(qs), m.nu, m.initial_delta_m
            if s.last is not None:
                snapshot(m, s.last[0])
        else:
            if not usable(cfg, op["a"]):
                continue
            hit = solve(s, op, what) or hit
        for t in slots:
            t.check(what)
    return hit


def refuse(m, cfg, op):
    v = op["v"]
    if op["what"] == "velocity":
        raises(lambda: m.set_velocity(([0.0, 1.0], [v])), "velocity")
    elif op["what"] == "du":
        raises(lambda: m.set_velocity(lambda x: v, 3.0), "velocity slope")
    elif op["what"] == "nu":
        raises(lambda: setattr(m, "nu", v), f"viscosity {v}")
    elif op["what"] == "delta_m":
        raises(lambda: setattr(m, "initial_delta_m", v), f"thickness {v}")
    elif cfg["model"] == "head":
        raises(lambda: setattr(m, "initial_shape_d", v), f"shape factor {v}")
    elif op["what"] == "option":
        raises(lambda: m.set_data_fits("none such"), "fit name")
    else:
        raises(lambda: m.set_data_fits((lambda l: l, v)), "fit functions")


def same_start(m, fresh, cfg, what):
    """Give the new object the start of the other to the last digit.

    The order in which the start was set shows in its last digit, and
    near a kink of the velocity that decides whether a step is accepted.
    Whether that was possible is returned.
    """
    if cfg["start"]["kind"] != "pair":
        return True
    req(close(m.initial_delta_m, fresh.initial_delta_m, 1e-12),
        f"{what}: initial thickness {m.initial_delta_m} is not "
        f"{fresh.initial_delta_m}")
    if cfg["model"] != "head":
        return m.initial_delta_m == fresh.initial_delta_m
    req(close(m.initial_shape_d, fresh.initial_shape_d, 1e-12),
        f"{what}: initial shape factor {m.initial_shape_d} is not "
        f"{fresh.initial_shape_d}")
    d = m.initial_delta_m
    for k in range(-12, 13):
        dd = m.initial_shape_d*d
        c = ManualCondition(dd + k*math.ulp(dd), d, 1.6*d)
        if c.shape_d() == m.initial_shape_d and c.delta_m() == d:
            fresh.set_initial_condition(c)
            return True
    return False


def solve(s, op, what):
    cfg = s.cfg
    flow = Flow(cfg["vel"]["flow"])
    a, b = flow.x0 + op["a"]*flow.L, flow.x0 + op["b"]*flow.L
    events = [(a + f*(b - a), t) for f, t in op["events"]]

    def run(m):
        arg = [XEvent(x, t) for x, t in events]
        keep = list(arg)
        if op["single"] and len(arg) == 1:
            arg = arg[0]
        elif op["single"] and not arg:
            arg = None
        r = m.solve(a, b, arg)
        if isinstance(arg, list):
            req(len(arg) == len(keep) and all(
                p is q for p, q in zip(arg, keep)), "event list was changed")
        return r
    r = run(s.m)
    fresh, _ = build(cfg, True)
    # otherwise other steps may be taken, within the integration's accuracy
    loose = 1.0 if same_start(s.m, fresh, cfg, what) else 100.0
    rf = run(fresh)
    for name in ("status", "message", "success"):
        req(getattr(r, name) == getattr(rf, name),
            f"{what}: {name} {getattr(r, name)} but a new object gives "
            f"{getattr(rf, name)}")
    req(close(r.x_end, rf.x_end, 1e-9*loose, 1e-9*flow.L*loose),
        f"{what}: ended at {r.x_end}, a new object at {rf.x_end}")
    req(close(r.f_end, rf.f_end, 1e-8*loose) or not r.success,
        f"{what}: end state {r.f_end}, new object {rf.f_end}")
    req(close(s.m.initial_delta_m, fresh.initial_delta_m, 1e-12),
        f"{what}: initial thickness {s.m.initial_delta_m} is not "
        f"{fresh.initial_delta_m}")
    if not r.success or r.x_end <= a:
        s.last = None
        return False
    qs = a + np.array(op["q"])*(r.x_end - a)
    got, ref = snapshot(s.m, qs), snapshot(fresh, qs)
    for k, v in ref.items():
        req(close(got[k], v, 1e-7*loose,
                  1e-9*loose*(1e-300 + np.max(np.abs(v))))
            or not np.all(np.isfinite(v)),
            f"{what}: {k} {got[k]} but a new object gives {v}")
    hit = s.past
    s.past = True
    s.last = (qs, got)
    return hit


@st.composite
def functions_case(draw):
    model = draw(st.sampled_from(MODELS))
    style = draw(st.sampled_from(["argument", "scalar", "cached", "frozen"]))
    head = model == "head"
    c = {"model": model, "style": style, "k": draw(logf(0.3, 30, 3)),
         "flow": draw(flows(U=(2.0, 20.0), L=(0.5, 2.0))),
         "n": draw(st.integers(1, 3)),
         "x0": draw(st.one_of(logf(1e-4, 1e-2, 3), fl(0.05, 1.0, 3))),
         "L": draw(fl(0.5, 3.0, 3)),
         "nu": draw(logf(1e-7, 1e-6, 4) if head else logf(1e-6, 1e-3, 4)),
         "d": draw(logf(5e-4, 4e-3, 4) if head else logf(1e-4, 5e-3, 4)),
         "H": draw(fl(1.25, 1.8, 3)),
         "fit": draw(st.sampled_from(["White", "custom-a", "custom-b",
                                      "const"])),
         "q": draw(query_fracs(1, 4))}
    return c


def written(functions, style, kept):
    """The same functions as some user may have written them."""
    def cached(f):
        memo = {}

        def g(x):
            key = (np.shape(x), np.asarray(x, float).tobytes())
            if key not in memo:
                v = f(x)
                memo[key] = v
                if isinstance(v, np.ndarray):
                    kept.append((v, v.copy()))
            return memo[key]
        return g

    def frozen(f):
        def g(x):
            v = np.array(f(x), dtype=float)
            v.setflags(write=False)
            return v
        return g
    return [{"cached": cached, "frozen": frozen}[style](f) for f in functions]


def check_functions(case):
    style, k, nd = case["style"], case["k"], case["n"]
    kept, xs = [], None
    zero, one = (lambda x: 0.0*x), (lambda x: 1.0 + 0.0*x)
    if style == "argument":
        # velocity equal to the location, which is what the function returns
        plain, styled = ([lambda x: 1.0*x, one, zero],
                         [lambda x: x, lambda x: 1, lambda x: 0])
        x0, x1 = case["x0"], case["x0"] + case["L"]
    elif style == "scalar":
        plain, styled = ([lambda x: k + 0.0*x, zero, zero],
                         [lambda x: k, lambda x: 0, lambda x: 0.0])
        x0, x1 = case["x0"], case["x0"] + case["L"]
    else:
        f = Flow(case["flow"])
        plain = [f.u, f.du, f.d2u]
        styled = written(plain, style, kept)
        x0, x1 = f.x0, f.x1
    fit = fit_like = None
    if case["model"] != "head":
        if case["fit"] == "const":
            fit = (lambda l: 0.22 + 0.0*l, lambda l: 2.6 + 0.0*l,
                   lambda l: 0.0*l)
            fit_like = (lambda l: 0.22, lambda l: 2.6, lambda l: 0)
        else:
            fit = fit_like = fit_arg(case["fit"])
            if case["fit"] != "White" and style in ("cached", "frozen"):
                fit_like = tuple(written(fit, style, kept))

    def solved(fs, fit):
        kw = {} if fit is None else {"data_fits": fit}
        m = make(case["model"], *fs[:nd], nu=case["nu"], **kw)
        m.initial_delta_m = case["d"]
        if case["model"] == "head":
            m.initial_shape_d = case["H"]
        return m, m.solve(x0, x1)
    m, r = solved(plain, fit)
    ms, rs = solved(styled, fit_like)
    req(rs.status == r.status and rs.message == r.message
        and rs.success == r.success,
        f"{rs.status} {rs.message}, {r.status} {r.message} with functions "
        "that return new arrays")
    req(close(rs.x_end, r.x_end, 1e-9), f"ended at {rs.x_end}, with "
        f"functions that return new arrays at {r.x_end}")
    if not r.success or r.x_end <= x0:
        return False
    qs = x0 + np.array(case["q"])*(r.x_end - x0)
    given = qs.copy()
    for name in ("u_e", "du_e", "d2u_e", "delta_m", "delta_d", "delta_k",
                 "shape_d", "shape_k", "v_e", "tau_w", "dissipation"):
        extra = (1.3,) if name in ("tau_w", "dissipation") else ()
        for x in (qs, float(qs[0])):
            want = np.asarray(getattr(m, name)(x, *extra), float)
            got = np.asarray(getattr(ms, name)(x, *extra), float)
            top = np.max(np.abs(want)) + (
                k/case["L"]**2 if name == "d2u_e" else 0.0)
            req(got.shape in (want.shape, ())
                and (close(got, want, 1e-7, 1e-9*(1e-300 + top))
                     or not np.all(np.isfinite(want))),
                f"{name} at {x} is {got}, {want} with functions that return "
                "new arrays")
    req(np.array_equal(qs, given), f"queries changed {given} to {qs}")
    for v, was in kept:
        req(np.array_equal(v, was, equal_nan=True),
            f"an array of the user was changed from {was} to {v}")
    return True


LAWS = [
    Law("histories", history_case, check_history, 1400, 12000,
        rule="sequences of 3 to 12 operations on two objects"),
    Law("functions", functions_case, check_functions, 500, 5000,
        rule="solved with functions that return their argument, numbers, "
             "kept or read-only arrays"),
]
