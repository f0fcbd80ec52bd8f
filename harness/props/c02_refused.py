"""C02: unusable edge velocities are refused and change nothing."""
import numpy as np
from hypothesis import strategies as st

from core import Law, Violation, raises, req
from gen import Flow, fl, flows, query_fracs, velocity_args
from models import MODELS, make

RULE = ("A case is a malformed velocity specification, or a sequence of valid "
        "and malformed ones, for one of the methods; non-trivial when a "
        "velocity was in force while a malformed one was refused, or a "
        "solution quantity was asked for before it exists.")

GOOD = [0.0, 1.0, 2.5, 4.0, 5.0, 7.0, 8.5, 9.0]
num = fl(-20, 20, 4)


class Opaque:
    """Neither callable nor with a length."""


def bad_args(bad):
    """Malformed arguments of set_velocity."""
    k, n, v = bad["kind"], bad["n"], bad["v"]
    x = GOOD[:n]
    y = [v + 0.3*i for i in range(n)]
    fun = lambda t: v + 0.1*t   # noqa: E731
    cat = {
        "pts_x_2d": ((np.reshape(x, (n, 1)), y),),
        "pts_x_2d_row": ((np.reshape(x, (1, n)), y),),
        "pts_v_2d": ((x, np.reshape(y*2, (n, 2))),),
        "pts_v_2d_row": ((x, np.reshape(y, (1, n))),),
        "pts_long_x": ((GOOD[:n + 1], y),),
        "pts_long_v": ((x, y + [v]),),
        "pts_one": (([x[0]], [v]),),
        "pts_none": (([], []),),
        "pts_scalars": ((x[0], v),),
        "pts_scalar_x": ((v, y),),
        "pts_scalar_v": ((x, v),),
        "pts_0d_x": ((np.array(v), np.array(y)),),
        "pts_0d_v": ((np.array(x), np.array(v)),),
        "pts_0d": ((np.array(x[0]), np.array(v)),),
        "pts_int_x": ((n, y),),
        "pts_x_3d": ((np.reshape(x, (1, n, 1)), y),),
        "pts_v_3d": ((x, np.reshape(y*6, (n, 2, 3))),),
        "pts_nested": (((x, x), (y, y)),),
        "pts_array": (np.array([x, y, y]),),
        "pts_words": ((["a"]*n, y),),
        "pts_word_values": ((x, ["b"]*n),),
        "pts_two_words": (("ab", "cd"),),
        "two_letters": ("ab",),
        "two_numbers": ([v, v],),
        "scalar_scalar_x": (v, (v, y)),
        "scalar_scalar_v": (v, (x, v)),
        "scalar_0d_x": (v, (np.array(v), np.array(y))),
        "scalar_0d_v": (v, (np.array(x), np.array(v))),
        "scalar_v_3d": (v, (x, np.reshape(y*6, (n, 2, 3)))),
        "scalar_v_2d_wide": (v, (x, np.reshape(y*3, (n, 3)))),
        "scalar_none": (v, ([], [])),
        "scalar_two_letters": (v, "ab"),
        "fun_string": (fun, "du"),
        "fun_fun_string": (fun, fun, "d2u"),
        "pts_tuple1": ((x,),),
        "pts_tuple3": ((x, y, y),),
        "pts_four": ([v, v, v, v],),
        "pts_empty": ((),),
        "pts_unsorted": (([x[1], x[0]] + x[2:], y),),
        "pts_repeated": (([x[0]] + x, [v] + y),),
        "pts_reversed": ((x[::-1], y),),
        "opaque": (Opaque(),),
        "string": ("u_e",),
        "scalar": (v,),
        "scalar_int": (int(v),),
        "scalar_scalar": (v, v),
        "scalar_fun": (v, fun),
        "scalar_tuple1": (v, (x,)),
        "scalar_tuple3": (v, (x, y, y)),
        "scalar_scalars": (v, (x[0], v)),
        "scalar_x_2d": (v, (np.reshape(x, (n, 1)), y)),
        "scalar_v_2d": (v, (x, np.reshape(y*2, (n, 2)))),
        "scalar_long_x": (v, (GOOD[:n + 1], y)),
        "scalar_long_v": (v, (x, y + [v])),
        "scalar_one": (v, ([x[0]], [v])),
        "scalar_unsorted": (v, ([x[1], x[0]] + x[2:], y)),
        "scalar_repeated": (v, ([x[0]] + x, [v] + y)),
        "npscalar": (np.float64(v),),
        "pts_fun": ((x, y), fun),
        "pts_pts": ((x, y), (x, y)),
        "pts_fun_fun": ((x, y), fun, fun),
        "pts_none_fun": ((x, y), None, fun),
        "scalar_slopes_fun": (v, (x, y), fun),
        "scalar_slopes_slopes": (v, (x, y), (x, y)),
        "fun_scalar": (fun, v),
        "fun_pts": (fun, (x, y)),
        "fun_opaque": (fun, Opaque()),
        "fun_none_fun": (fun, None, fun),
        "fun_none_scalar": (fun, None, v),
        "fun_fun_scalar": (fun, fun, v),
        "fun_fun_pts": (fun, fun, (x, y)),
        "fun_fun_opaque": (fun, fun, Opaque()),
    }
    return cat[k]


KINDS = sorted(["pts_x_2d", "pts_x_2d_row", "pts_v_2d", "pts_v_2d_row",
                "pts_long_x", "pts_long_v", "pts_one", "pts_none",
                "pts_scalars", "pts_tuple1", "pts_tuple3", "pts_four",
                "pts_empty", "pts_unsorted", "pts_repeated", "pts_reversed",
                "opaque", "string", "scalar", "scalar_int", "scalar_scalar",
                "scalar_fun", "scalar_tuple1", "scalar_tuple3",
                "scalar_scalars", "scalar_x_2d", "scalar_v_2d",
                "scalar_long_x", "scalar_long_v", "scalar_one",
                "scalar_unsorted", "scalar_repeated", "npscalar",
                "pts_fun", "pts_pts", "pts_fun_fun", "pts_none_fun",
                "scalar_slopes_fun", "scalar_slopes_slopes",
                "fun_scalar", "fun_pts", "fun_opaque", "fun_none_fun",
                "fun_none_scalar", "fun_fun_scalar", "fun_fun_pts",
                "fun_fun_opaque", "pts_scalar_x", "pts_scalar_v", "pts_0d_x",
                "pts_0d_v", "pts_0d", "pts_int_x", "pts_x_3d", "pts_v_3d",
                "pts_nested", "pts_array", "pts_words", "pts_word_values",
                "pts_two_words", "two_letters", "two_numbers",
                "scalar_scalar_x", "scalar_scalar_v", "scalar_0d_x",
                "scalar_0d_v", "scalar_v_3d", "scalar_v_2d_wide",
                "scalar_none", "scalar_two_letters", "fun_string",
                "fun_fun_string"])

bads = st.fixed_dictionaries({"kind": st.sampled_from(KINDS),
                              "n": st.integers(2, 7), "v": num})


GOOD_REPS = ["full", "u_du", "u", "spline", "points", "slopes"]


@st.composite
def malformed_case(draw):
    prior = draw(st.one_of(st.none(), flows()))
    return {"model": draw(st.sampled_from(MODELS)), "prior": prior,
            "rep": draw(st.sampled_from(GOOD_REPS)),
            "ctor": draw(st.booleans()), "bads": draw(st.lists(
                bads, min_size=1, max_size=3)), "q": draw(query_fracs())}


def values(m, qs):
    return [np.array(f(qs), float) for f in (m.u_e, m.du_e, m.d2u_e)]


def unset(m, q):
    for name in ("u_e", "du_e", "d2u_e"):
        raises(lambda: getattr(m, name)(q), f"{name} without a velocity")
    raises(lambda: m.solve(q, q + 1.0), "solve without a velocity")


def check_malformed(case):
    prior = Flow(case["prior"]) if case["prior"] else None
    if case["ctor"]:
        for bad in case["bads"]:
            raises(lambda: make(case["model"], *bad_args(bad)),
                   f"construction with {bad}")
    if prior is None:
        m = make(case["model"])
        q = case["q"][0]
        unset(m, q)
        for bad in case["bads"]:
            raises(lambda: m.set_velocity(*bad_args(bad)), f"{bad}")
            unset(m, q)
        return False
    m = make(case["model"])
    m.set_velocity(*velocity_args(prior, case["rep"])[0])
    qs = prior.at(case["q"])
    before = values(m, qs)
    for bad in case["bads"]:
        raises(lambda: m.set_velocity(*bad_args(bad)), f"{bad}")
        for a, b, name in zip(before, values(m, qs), ["u", "u'", "u''"]):
            req(np.array_equal(a, b),
                f"refusing {bad} changed {name} from {a} to {b}")
    return True


@st.composite
def sequence_case(draw):
    op = st.one_of(
        st.fixed_dictionaries({"op": st.just("set"), "flow": flows(),
                               "rep": st.sampled_from(GOOD_REPS)}),
        st.fixed_dictionaries({"op": st.just("bad"), "bad": bads}))
    return {"model": draw(st.sampled_from(MODELS)),
            "ops": draw(st.lists(op, min_size=2, max_size=6)),
            "q": draw(query_fracs(1, 3))}


def check_sequence(case):
    m = make(case["model"])
    current = None
    hit = False
    for op in case["ops"]:
        if op["op"] == "set":
            current = (op["flow"], op["rep"])
            m.set_velocity(*velocity_args(Flow(op["flow"]), op["rep"])[0])
        else:
            raises(lambda: m.set_velocity(*bad_args(op["bad"])),
                   f"{op['bad']}")
            hit = hit or current is not None
        if current is None:
            unset(m, case["q"][0])
            continue
        flow = Flow(current[0])
        qs = flow.at(case["q"])
        fresh = make(case["model"], *velocity_args(flow, current[1])[0])
        for a, b, name in zip(values(m, qs), values(fresh, qs),
                              ["u", "u'", "u''"]):
            req(np.array_equal(a, b), f"{name} is {a}, not {b} after {op}")
    return hit


# -- constructor arguments that lack the velocity --------------------------
@st.composite
def lone_case(draw):
    return {"model": draw(st.sampled_from(MODELS)),
            "du": draw(st.integers(0, 3)), "d2u": draw(st.integers(0, 2)),
            "v": draw(num)}


def check_lone(case):
    v = case["v"]
    du = [None, v, lambda x: v*x, ([0.0, 1.0, 2.0], [v, v, v])][case["du"]]
    d2u = [None, v, lambda x: v + 0*x][case["d2u"]]
    if du is None and d2u is None:
        unset(make(case["model"]), v)
        return False
    raises(lambda: make(case["model"], None, du, d2u),
           "derivatives without velocity")
    return True


# -- quantities before a solution -------------------------------------------
QUANT = ["delta_m", "delta_d", "shape_d", "tau_w", "v_e", "shape_k"]


@st.composite
def unsolved_case(draw):
    return {"model": draw(st.sampled_from(MODELS)), "flow": draw(flows()),
            "has_u": draw(st.booleans()), "q": draw(query_fracs()),
            "scalar": draw(st.booleans()),
            "names": draw(st.permutations(QUANT)), "rho": draw(fl(0.1, 10))}


def check_unsolved(case):
    flow = Flow(case["flow"])
    m = make(case["model"])
    if case["has_u"]:
        m.set_velocity(flow.u, flow.du, flow.d2u)
    m.nu = 1e-5
    m.initial_delta_m = 1e-3
    qs = flow.at(case["q"])
    if case["scalar"]:
        qs = float(qs[0])
    for name in case["names"]:
        args = (qs, case["rho"]) if name == "tau_w" else (qs,)
        raises(lambda: getattr(m, name)(*args), f"{name} before a solve")
    return True


LAWS = [
    Law("malformed", malformed_case, check_malformed, 4000, 30000,
        rule="a velocity, then up to three malformed ones, all refused"),
    Law("sequence", sequence_case, check_sequence, 2500, 20000,
        rule="valid and malformed specifications in any order"),
    Law("lone_derivative", lone_case, check_lone, 300, 1000,
        rule="construction with derivatives only"),
    Law("unsolved", unsolved_case, check_unsolved, 600, 4000,
        rule="every solution quantity before a solve"),
]
