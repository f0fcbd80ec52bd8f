"""C24: documented value ranges of everything that can be set."""
import math

import numpy as np
from hypothesis import strategies as st

import stan
from core import Law, Violation, raises, req
from gen import logf
from ibl.analytic import Blasius, FalknerSkan
from ibl.head_method import HeadMethod
from ibl.initial_condition import (FalknerSkanStagCondition, InitialCondition,
                                   ManualCondition)
from ibl.reference import XFoilReader
from ibl.reference import (
    StanfordOlympics1968StationData as Station)
from ibl.reference import XFoilAirfoilData, XFoilWakeData
from ibl.thwaites_method import ThwaitesMethodLinear, ThwaitesMethodNonlinear

RULE = ("A case is a sequence of assignments to the settable quantities of "
        "one object, or constructor arguments; non-trivial when it has both "
        "an admissible and an inadmissible value (constructors: an "
        "inadmissible one).")
ASSUMPTIONS = ["NaN is not part of the domain"]

SUMM = stan.summ_text({
    "x": 1.0, "u_e": 30.0, "du_e": -2.0, "delta_m": 3e-3, "shape_d": 1.4,
    "shape_k": 1.75, "shape_eq": 8.0, "c_f": 3e-3, "c_f_lt": 2.9e-3,
    "c_f_exp": 2.8e-3, "beta_eq": 0.5}, True)
ARRAYS = ["y", "y_plus", "y_c", "u", "u_plus", "u_defect"]
X12 = "0.1 0.9 0.05 1.1 0.001 0.0005 0.003 2.0 1.6 0.001 0.002 0.003"
X8 = "1.1 1.1 0.0 0.9 0.004 0.002 0.0 2.0"



def under(model, ic, nu):
    """A method with another condition than a manual one in force."""
    m = model(nu=nu)
    m.set_initial_condition(ic)
    return m


class Own(InitialCondition):
    """User-defined condition."""

    def __init__(self):
        super().__init__(1.0, 1e-5)

    def delta_m(self):
        return 1e-3

    def delta_d(self):
        return 1.5e-3

    def delta_k(self):
        return 1.7e-3

    def shape_d(self):
        return 1.5

    def shape_k(self):
        return 1.7


# kind -> (factory, {quantity: range})
KINDS = {
    "linear": (lambda: ThwaitesMethodLinear(nu=1e-5),
               {"nu": "pos", "initial_delta_m": "pos"}),
    "nonlinear": (lambda: ThwaitesMethodNonlinear(nu=1e-5),
                  {"nu": "pos", "initial_delta_m": "pos"}),
    "head": (lambda: HeadMethod(nu=1e-5),
             {"nu": "pos", "initial_delta_m": "pos",
              "initial_shape_d": "pos"}),
    "linear_stagnation": (
        lambda: under(ThwaitesMethodLinear,
                      FalknerSkanStagCondition(1.0, 1e-5), 1e-5),
        {"initial_delta_m": "pos"}),
    "head_stagnation": (
        lambda: under(HeadMethod, FalknerSkanStagCondition(1.0, 1e-5), 1e-5),
        {"initial_delta_m": "pos", "initial_shape_d": "pos"}),
    "nonlinear_own": (
        lambda: under(ThwaitesMethodNonlinear, Own(), 1e-5),
        {"initial_delta_m": "pos"}),
    "head_own": (lambda: under(HeadMethod, Own(), 1e-5),
                 {"initial_delta_m": "pos", "initial_shape_d": "pos"}),
    "stagnation": (lambda: FalknerSkanStagCondition(1.0, 1e-5),
                   {"nu": "pos", "du_e": "any"}),
    "manual": (lambda: ManualCondition(2e-3, 1e-3, 1.5e-3),
               {"nu": "pos", "du_e": "any", "del_d": "any", "del_m": "any",
                "del_k": "any"}),
    "blasius": (lambda: Blasius(10.0, 1e-5),
                {"u_ref": "pos", "nu_ref": "pos"}),
    "reader": (XFoilReader,
               {"u_ref": "pos", "c": "pos", "reynolds": "nonneg",
                "n_trans": "pos", "alpha": "any", "x_trans_upper": "any",
                "x_trans_lower": "any"}),
    "airfoil": (lambda: XFoilAirfoilData(X12),
                {"s": "nonneg", "x": "any", "y": "any", "u_e_rel": "any",
                 "delta_d": "nonneg", "delta_m": "nonneg", "c_f": "nonneg",
                 "shape_d": "pos", "shape_k": "pos", "mass_defect": "any",
                 "mom_defect": "any", "ke_defect": "any"}),
    "wake": (lambda: XFoilWakeData(WAKE_ROW),
             {"s": "nonneg", "x": "any", "y": "any", "u_e_rel": "any",
              "delta_d": "nonneg", "delta_m": "nonneg", "shape_d": "pos"}),
    "station": (lambda: Station(True, SUMM, "", []),
                {"x": "any", "u_e": "pos", "du_e": "any", "delta_d": "pos",
                 "delta_m": "pos", "delta_k": "pos", "delta_c": "pos",
                 "shape_d": "pos", "shape_k": "pos", "shape_eq": "pos",
                 "c_f": "any", "c_f_lt": "any", "c_f_exp": "any",
                 "beta_eq": "any", "u_star": "pos", "nu": "pos",
                 "re_delta_d": "pos", "re_delta_m": "pos",
                 **{n: "arr" for n in ARRAYS}}),
}
WAKE_ROW = X8
_COSTLY = {}


def admissible(kind, v):
    if kind == "pos":
        return v > 0
    if kind == "nonneg":
        return v >= 0
    if kind == "arr":
        return all(e >= 0 for e in v)
    return True


def make(kind):
    """A new object; the quantities not set are remembered."""
    if kind == "blasius":
        # the solution is costly and does not depend on what is set
        if kind not in _COSTLY:
            _COSTLY[kind] = KINDS[kind][0]()
        o = _COSTLY[kind]
        o.u_ref, o.nu_ref = 10.0, 1e-5
        return o
    return KINDS[kind][0]()


def state(o, spec):
    d = {}
    for n, k in spec.items():
        v = getattr(o, n)
        d[n] = [float(e) for e in v] if k == "arr" else float(v)
    return d


def same(a, b, exact=True):
    if isinstance(b, list):
        return a == b
    if exact or not math.isfinite(b):
        return a == b
    return abs(a - b) <= 1e-12*abs(b)


def check_sets(c):
    kind = c["kind"]
    spec = KINDS[kind][1]
    o = make(kind)
    ref = state(o, spec)
    good = bad = 0
    for i, (k, v, arr, form) in enumerate(c["ops"]):
        n = sorted(spec)[k % len(spec)]
        r = spec[n]
        if r == "arr":
            v = list(arr)
        elif kind.startswith("head") and n != "nu" and math.isfinite(v):
            # their product must not overflow
            v = math.copysign(min(max(abs(v), 1e-100), 1e100), v)*(v != 0)
        given = np.array(v, dtype=float) if r == "arr" else (
            np.float64(v) if form == 1 else
            int(v) if form == 2 and math.isfinite(v) and v == int(v)
            and abs(v) < 1e15 else v)
        what = f"step {i}: {kind}.{n} = {given!r}"
        if admissible(r, v):
            good += 1
            try:
                setattr(o, n, given)
            except Exception as e:  # pylint: disable=broad-except
                raise Violation(f"{what} refused: {type(e).__name__}: {e}"
                                ) from e
            ref[n] = v
        else:
            bad += 1
            raises(lambda: setattr(o, n, given), what)
        now = state(o, spec)
        for q, w in ref.items():
            exact = not (kind.startswith("head") and q == "initial_shape_d")
            req(same(now[q], w, exact),
                lambda: f"{what}: {q} is {now[q]!r}, was set to {w!r}")
    return good > 0 and bad > 0


CONSTRUCT = {
    "linear": lambda v, w: ThwaitesMethodLinear(nu=v),
    "nonlinear": lambda v, w: ThwaitesMethodNonlinear(nu=v),
    "head": lambda v, w: HeadMethod(nu=v),
    "stagnation": lambda v, w: FalknerSkanStagCondition(w, v),
    "blasius_u": lambda v, w: Blasius(v, abs(w) + 1e-6),
    "blasius_nu": lambda v, w: Blasius(abs(w) + 1e-6, v),
    "falkner_u": lambda v, w: FalknerSkan(0.5, v, abs(w) + 1e-6),
    "falkner_nu": lambda v, w: FalknerSkan(0.5, abs(w) + 1e-6, v),
}
ATTR = {"blasius_u": "u_ref", "blasius_nu": "nu_ref", "falkner_u": "u_ref",
        "falkner_nu": "nu_ref"}


def check_construct(c):
    f = CONSTRUCT[c["kind"]]
    v, w = c["v"], c["w"]
    if v > 0:
        o = f(v, w)
        n = ATTR.get(c["kind"], "nu")
        req(getattr(o, n) == v, f"new {c['kind']} with {n} = {v!r} has "
            f"{getattr(o, n)!r}")
        return False
    raises(lambda: f(v, w), f"new {c['kind']} with {v!r}")
    return True


values = st.one_of(
    st.sampled_from([0.0, -0.0, 5e-324, -5e-324, 1e-300, -1e-300, 1e300,
                     -1e300, math.inf, -math.inf, 1.0, -1.0, 1e-16, -1e-16]),
    logf(1e-12, 1e6), logf(1e-12, 1e6).map(lambda v: -v),
    st.integers(-5, 50).map(float))
arrays = st.lists(st.one_of(st.sampled_from([0.0, 1.0, 1e-300]),
                            logf(1e-6, 1e3)), min_size=1, max_size=4)


@st.composite
def arr(draw):
    a = draw(arrays)
    if draw(st.booleans()):
        a[draw(st.integers(0, len(a) - 1))] = -draw(st.one_of(
            st.just(5e-324), logf(1e-12, 1e3)))
    return a


def seq(kind):
    return st.fixed_dictionaries({
        "kind": kind,
        "ops": st.lists(st.tuples(st.integers(0, 40), values, arr(),
                                  st.integers(0, 2)).map(list),
                        min_size=2, max_size=12)})


LAWS = [
    Law("setters", lambda: seq(st.sampled_from(sorted(KINDS))), check_sets,
        4000, 100000, rule="admissible and inadmissible values"),
    Law("station_setters", lambda: seq(st.just("station")), check_sets,
        600, 20000, rule="admissible and inadmissible values"),
    Law("constructors", lambda: st.fixed_dictionaries({
        "kind": st.sampled_from([k for k in sorted(CONSTRUCT)
                                 if "_" not in k]),
        "v": values, "w": logf(1e-6, 1e3)}), check_construct, 400, 8000,
        rule="inadmissible value"),
    Law("similarity_constructors", lambda: st.fixed_dictionaries({
        "kind": st.sampled_from(sorted(ATTR)),
        "v": values.map(lambda v: v if v < 0 else -0.0)
        .filter(lambda v: v <= 0),
        "w": logf(1e-6, 1e3)}), check_construct, 60, 2000,
        rule="every case"),
]
