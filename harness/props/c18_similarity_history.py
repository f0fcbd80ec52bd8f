"""C18: a similarity solution object always reflects its latest parameters."""
import math

import numpy as np
from hypothesis import strategies as st

import fsk
from core import Law, raises, req
from gen import close, fl, logf
from ibl.analytic import Blasius, FalknerSkan

RULE = ("A case is a sequence of valid and invalid changes of beta, m, "
        "reference values, outer edge and wall value, all quantities compared "
        "with a new object after each; non-trivial when at least two valid "
        "changes of different kind were made.")
ASSUMPTIONS = ["wedge parameters and outer edges for which the search is "
               "documented as stable"]

QUANT = ["u_e", "v_e", "delta_d", "delta_m", "delta_k", "delta_s", "shape_d",
         "shape_k"]


def state(o):
    """Everything an object reports."""
    x = np.array([0.3, 1.0, 2.5])
    e = np.array([0.0, 0.4, 1.3, 2.9])
    d = {n: getattr(o, n) for n in ("u_ref", "nu_ref", "fw_pp", "eta_inf",
                                    "eta_d", "eta_m", "eta_k", "eta_s")}
    d.update({n: getattr(o, n)(e) for n in ("f", "f_p", "f_pp")})
    if o.__class__ is FalknerSkan:
        d["beta"], d["m"] = o.beta, o.m
        if o.beta > 1.99:
            return d
    d.update({n: getattr(o, n)(x) for n in QUANT})
    d["tau_w"], d["dissipation"] = o.tau_w(x, 1.2), o.dissipation(x, 1.2)
    y = 0.7*np.asarray(d["delta_s"])
    d["eta"], d["u"], d["v"] = o.eta(x, y), o.u(x, y), o.v(x, y)
    return d


def same(a, b, what):
    for n in a:
        req(n in b and (np.array_equal(a[n], b[n])
                        or close(a[n], b[n], 1e-12, 1e-14)),
            f"{what}: {n} is {a[n]}, not {b.get(n)}")


small = fsk.betas(-0.15, 0.6)      # where a given outer edge may be used
eta = fl(4.5, 8.5, 3)

bad_beta = st.sampled_from([-0.2, -0.19885, 2.0001, 3.0, -5.0, 1e9,
                            float("inf"), float("-inf")])
bad_m = st.sampled_from([-0.0905, -0.2, -0.5, -0.999, -1.0, -1.001, -2.0,
                         -1e6, -1, -1e17, -1e300, float("-inf")])
nonpos = st.sampled_from([0.0, -1.0, -1e-12, 0, float("-inf")])


@st.composite
def op(draw):
    k = draw(st.sampled_from(
        ["beta_eta", "beta_eta", "m_eta", "m_eta", "eta", "eta", "u", "nu",
         "beta", "m", "free", "both", "bad_beta", "bad_m", "bad_u", "bad_nu",
         "bad_eta", "bad_fw", "bad_beta_eta", "bad_m_fw", "unsolvable",
         "m_both", "any_both", "any_both", "any_both"]))
    b = draw(small)
    if k in ("beta", "m"):
        return [k, draw(st.one_of(st.sampled_from(fsk.SPECIAL),
                                  st.sampled_from(fsk.SPECIAL),
                                  fsk.betas()))]
    if k in ("beta_eta", "m_eta", "both", "m_both", "unsolvable"):
        return [k, b, draw(eta)]
    if k == "any_both" and draw(st.booleans()):
        # close to the limits, which have almost the same solution
        lim = draw(st.sampled_from([0.0, 2.0]))
        d = draw(logf(1e-9, 1e-5 if lim == 0.0 else 1e-2, 3))
        if lim == 2.0 or draw(st.booleans()):
            d = -d
        return [k, lim + d, d < -(1e-6 if lim == 0.0 else 1e-9)
                and draw(st.booleans()), lim]
    if k == "any_both":
        # edge and wall value of the solution known for this parameter
        return [k, draw(st.sampled_from(fsk.SPECIAL + fsk.STEEP)),
                draw(st.booleans())]
    if k == "eta":
        return [k, draw(eta)]
    if k in ("u", "nu"):
        return [k, draw(logf(1e-4, 1e3, 4))]
    if k == "free":
        return [k]
    if k == "bad_beta":
        return [k, draw(bad_beta)]
    if k == "bad_m":
        return [k, draw(bad_m)]
    if k in ("bad_beta_eta", "bad_m_fw"):
        return [k, b, draw(nonpos)]
    return [k, draw(nonpos)]


@st.composite
def history_case(draw):
    return {"b0": draw(small), "e0": draw(eta), "u": draw(logf(0.01, 100, 3)),
            "nu": draw(logf(1e-6, 1, 3)),
            "ops": draw(st.lists(op(), min_size=1, max_size=7))}


def to_m(b):
    return math.inf if b == 2.0 else b/(2 - b)


def check_history(case):
    b, u, nu = case["b0"], case["u"], case["nu"]
    kw = {"eta_inf": case["e0"]}
    fs = FalknerSkan(b, u, nu, **kw)
    now = state(fs)
    kinds = set()
    for o in case["ops"]:
        k = o[0]
        what = f"after {o}"
        if k.startswith("bad") or k == "unsolvable":
            v = o[-1]
            if k == "bad_beta":
                raises(lambda: fs.reset_beta(v), f"wedge parameter {v}")
                raises(lambda: fs.reset_beta(v, eta_inf=5.0),
                       f"wedge parameter {v}")
                # also with edge and wall value of the nearest solution
                near = fsk.cached(-0.1988 if v < 0 else 2.0)
                raises(lambda: fs.reset_beta(v, eta_inf=near.eta_inf,
                                             fw_pp=near.fw_pp),
                       f"wedge parameter {v}")
            elif k == "bad_m":
                raises(lambda: fs.reset_m(v), f"m={v}")
                raises(lambda: fs.reset_m(v, eta_inf=5.0), f"m={v}")
                near = fsk.cached(-0.1988)
                raises(lambda: fs.reset_m(v, eta_inf=near.eta_inf,
                                          fw_pp=near.fw_pp), f"m={v}")
            elif k == "bad_u":
                raises(lambda: setattr(fs, "u_ref", v), f"u_ref={v}")
            elif k == "bad_nu":
                raises(lambda: setattr(fs, "nu_ref", v), f"nu_ref={v}")
            elif k == "bad_eta":
                raises(lambda: fs.set_solution_parameters(eta_inf=v),
                       f"eta_inf={v}")
            elif k == "bad_fw":
                raises(lambda: fs.set_solution_parameters(fw_pp=v),
                       f"fw_pp={v}")
            elif k == "bad_beta_eta":
                raises(lambda: fs.reset_beta(o[1], eta_inf=v), f"eta_inf={v}")
            elif k == "bad_m_fw":
                raises(lambda: fs.reset_m(to_m(o[1]), fw_pp=v), f"fw_pp={v}")
            else:
                # the velocity does not come near the edge velocity
                raises(lambda: fs.reset_beta(o[1], eta_inf=0.5, fw_pp=0.3),
                       "parameters without solution")
            same(state(fs), now, what + " (refused)")
            continue
        if k == "u":
            fs.u_ref = u = o[1]
        elif k == "nu":
            fs.nu_ref = nu = o[1]
        elif k == "beta":
            fs.reset_beta(o[1])
            b, kw = o[1], {}
        elif k == "m":
            fs.reset_m(to_m(o[1]))
            b, kw = o[1], {}
        elif k == "beta_eta":
            fs.reset_beta(o[1], eta_inf=o[2])
            b, kw = o[1], {"eta_inf": o[2]}
        elif k == "m_eta":
            fs.reset_m(to_m(o[1]), eta_inf=o[2])
            b, kw = o[1], {"eta_inf": o[2]}
        elif k == "free":
            fs.set_solution_parameters()
            kw = {}
        elif k == "any_both":
            b = o[1]
            base = fsk.cached(o[3] if len(o) > 3 else b)
            kw = {"eta_inf": base.eta_inf, "fw_pp": base.fw_pp}
            if o[2] and b != 0:
                fs.reset_m(to_m(b), **kw)
            else:
                fs.reset_beta(b, **kw)
        elif k == "eta":
            if not -0.15 <= b <= 0.6:
                continue
            fs.set_solution_parameters(eta_inf=o[1])
            kw = {"eta_inf": o[1]}
        else:
            s = FalknerSkan(o[1], 1.0, 1.0, eta_inf=o[2]).fw_pp
            kw = {"eta_inf": o[2], "fw_pp": s}
            b = o[1]
            if k == "both":
                fs.reset_beta(b, **kw)
            else:
                fs.reset_m(to_m(b), **kw)
            req(close(fs.fw_pp, s, 1e-12) and fs.eta_inf == o[2],
                f"wall value {fs.fw_pp} and edge {fs.eta_inf}, {s} and {o[2]} "
                "were given")
        kinds.add(k)
        req(close(fs.beta, b, 1e-12, 1e-15), f"{what}: beta is {fs.beta}, "
            f"not {b}")
        if b == 2.0:
            req(fs.m > 1e12, f"m is {fs.m} for beta 2")
        else:
            req(close(fs.m, to_m(b), 1e-9 + 4e-15/(2 - b), 1e-15), f"{what}: m is {fs.m}, not "
                f"{to_m(b)}")
        now = state(fs)
        # m and beta may differ in the last digit
        if kw:
            ref = FalknerSkan(fs.beta, u, nu, **kw)
        else:
            ref = fsk.cached(fs.beta)
            ref.u_ref, ref.nu_ref = u, nu
        same(now, state(ref), what)
        req(now["u_ref"] == u and now["nu_ref"] == nu, f"{what}: reference "
            f"values {now['u_ref']}, {now['nu_ref']}")
    return len(kinds) >= 2


@st.composite
def blasius_case(draw):
    one = st.one_of(
        st.tuples(st.just("eta"), eta), st.tuples(st.just("u"),
                                                  logf(1e-3, 1e3, 4)),
        st.tuples(st.just("nu"), logf(1e-6, 1, 4)),
        st.tuples(st.just("both"), eta), st.tuples(st.just("free")),
        st.tuples(st.just("bad_eta"), nonpos),
        st.tuples(st.just("bad_fw"), nonpos),
        st.tuples(st.just("bad_u"), nonpos),
        st.tuples(st.just("bad_nu"), nonpos))
    return {"u": draw(logf(1e-3, 1e3, 4)), "nu": draw(logf(1e-6, 1, 4)),
            "ops": draw(st.lists(one, max_size=6))}


def check_blasius(case):
    u, nu = case["u"], case["nu"]
    o = Blasius(u, nu)
    kw = {}
    s0 = o.fw_pp_default
    fs = fsk.cached(0.0)
    for op_ in [("none",)] + [tuple(v) for v in case["ops"]]:
        k = op_[0]
        before = state(o)
        if k == "eta":
            o.set_solution_parameters(eta_inf=op_[1])
            kw = {"eta_inf": op_[1]}
        elif k == "both":
            kw = {"eta_inf": op_[1], "fw_pp": s0}
            o.set_solution_parameters(**kw)
        elif k == "free":
            o.set_solution_parameters()
            kw = {}
        elif k == "u":
            o.u_ref = u = op_[1]
        elif k == "nu":
            o.nu_ref = nu = op_[1]
        elif k.startswith("bad"):
            v = op_[1]
            if k in ("bad_u", "bad_nu"):
                raises(lambda: setattr(o, k[4:] + "_ref", v), f"{k}={v}")
            else:
                n = "eta_inf" if k == "bad_eta" else "fw_pp"
                raises(lambda: o.set_solution_parameters(**{n: v}),
                       f"{n}={v}")
            same(state(o), before, f"after {op_} (refused)")
            continue
        got = state(o)
        if kw:
            same(got, state(Blasius(u, nu, **kw)), f"after {op_}")
        # member of the family
        fs.u_ref, fs.nu_ref = u, nu
        fam = state(FalknerSkan(0.0, u, nu, **kw) if kw else fs)
        for n, v in got.items():
            tol = 1e-3 if n == "eta_inf" and not kw else 2e-6
            req(close(v, fam[n], tol, 1e-7 if n.startswith("f") else 0.0), f"Blasius: {n} is {v}, "
                f"Falkner-Skan with beta=0 has {fam[n]}")
    return len(case["ops"]) > 1


LAWS = [
    Law("history", history_case, check_history, 360, 3500,
        rule="two valid changes of different kind"),
    Law("blasius", blasius_case, check_blasius, 240, 3000,
        rule="two changes of a Blasius solution"),
]
