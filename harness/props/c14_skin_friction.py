"""C14: skin friction correlations equal the published formulas."""
import math

import numpy as np
from hypothesis import strategies as st

from core import Law, req
from gen import close, fl, logf
from ibl.skin_friction import felsch, ludwieg_tillman, white

RULE = ("A case is a set of Reynolds numbers and shape factors in some form "
        "(scalar, array, view, read-only, transposed); non-trivial with two "
        "different states, or with a shape factor at a limit of a relation.")

RE_MIN, RE_MAX = 1.1, 1e12
SEP = 10**(0.93/1.95)    # 2.9986313485


def ref(name, re, H):
    if name == "lt":
        return 0.246*math.exp(-0.268*math.log(re))*10**(-0.678*H)
    if name == "felsch":
        if H >= SEP:
            return 0.0
        g = 0.93 - 1.95*math.log10(max(H, 1.0))
        return 0.058*max(g, 0.0)**1.705*re**-0.268
    return 0.3*math.exp(-1.33*H)*math.log10(re)**-(1.74 + 0.31*H)


FUN = {"lt": ludwieg_tillman, "felsch": felsch, "white": white}

res = st.one_of(logf(RE_MIN, RE_MAX, 6), logf(15.0, 1e4, 6),
               logf(RE_MIN, 30.0, 6), logf(RE_MIN, 1e18, 6),
                st.sampled_from([15.0, 100.0, 1000.0, 1e4, 1e5, 1e6]))
shapes = st.one_of(fl(1.0, 4.0, 5), fl(1.2, 2.8, 5), fl(2.9, 3.1, 7),
                   fl(0.3, 1.2, 5), logf(0.01, 40.0, 5),
                   st.sampled_from([1.0, 2.0, 3.0, 2.9986313485, 2.99863, 2.4,
                                    3.3, 4.0]))
FORMS = ["scalar", "np", "zerod", "array", "array", "array2d", "view",
         "readonly", "int", "fortran", "mixed_re", "mixed_h"]


@st.composite
def value_case(draw):
    n = draw(st.integers(1, 6))
    re = draw(st.lists(res, min_size=n, max_size=n))
    H = draw(st.lists(shapes, min_size=n, max_size=n))
    if draw(st.integers(0, 30)) == 30:
        n = draw(st.sampled_from([40, 150, 1200]))
        re = [re[i % len(re)] for i in range(n)]
        H = [H[(i + i//len(H)) % len(H)] for i in range(n)]
    return {"fun": draw(st.sampled_from(sorted(FUN))),
            "form": draw(st.sampled_from(FORMS)),
            "re": re, "H": H}


def as_form(v, form):
    a = np.array(v, float)
    if form == "scalar":
        return float(v[0])
    if form == "np":
        return np.float64(v[0])
    if form == "zerod":
        return np.array(v[0])
    if form == "array2d":
        return np.stack([a, a[::-1]])
    if form == "fortran":
        return np.asfortranarray(np.stack([a, a[::-1]]))
    if form == "view":
        return np.repeat(a, 2)[::2]
    if form == "int":
        return np.ceil(a).astype(int)
    if form == "readonly":
        a.setflags(write=False)
    return a


def check_values(case):
    form = case["form"]
    f1 = "scalar" if form == "mixed_h" else form
    f2 = "scalar" if form == "mixed_re" else form
    re, H = as_form(case["re"], f1), as_form(case["H"], f2)
    re0, H0 = np.array(re, copy=True), np.array(H, copy=True)
    got = FUN[case["fun"]](re, H)
    req(np.array_equal(re, re0) and np.array_equal(H, H0),
        f"{case['fun']} changed its arguments")
    B1, B2 = np.broadcast_arrays(re0.astype(float), H0.astype(float))
    want = np.array([ref(case["fun"], float(a), float(b)) for a, b in
                     zip(B1.ravel(), B2.ravel())]).reshape(B1.shape)
    req(np.shape(got) == want.shape, f"{case['fun']}: shape {np.shape(got)} "
        f"for arguments of shape {want.shape}")
    # next to separation the difference in Felsch's law cancels
    atol = 1e-12 if case["fun"] == "felsch" else 0.0
    req(close(got, want, 1e-9, atol), f"{case['fun']} is {got}, published "
        f"relation gives {want} for Re {re0}, H {H0}")
    req(bool(np.all(np.asarray(got) >= 0)), f"{case['fun']} negative: {got}")
    # again, with the same objects
    again = FUN[case["fun"]](re, H)
    req(np.array_equal(got, again), f"{case['fun']}: {got}, then {again}")
    return B1.size > 1 or H0.flat[0] in (1.0, 2.9986313485) or H0.flat[0] < 1


@st.composite
def order_case(draw):
    return {"fun": draw(st.sampled_from(sorted(FUN))),
            "re": sorted(draw(st.lists(res, min_size=2, max_size=5,
                                       unique=True))),
            "H": sorted(draw(st.lists(shapes, min_size=2, max_size=5,
                                      unique=True)))}


def check_order(case):
    fun, n = FUN[case["fun"]], case["fun"]
    lo, hi = (1.0, SEP) if n == "felsch" else (0.0, 1e9)
    re = np.array(case["re"])
    nontriv = False
    for H in case["H"]:
        c = np.asarray(fun(re, np.full_like(re, H)))
        if n != "felsch" or H < 2.9986:
            req(bool(np.all(c > 0)), f"{n}: {c} not positive at H={H}")
            req(bool(np.all(np.diff(c) < 0)), f"{n}: {c} does not decrease "
                f"with Re {re} at H={H}")
            nontriv = True
        elif H > 2.99863135:
            req(bool(np.all(c < 1e-15)), f"{n}: friction {c} beyond separation "
                f"at H={H}")
    H = np.array(case["H"])
    for r in case["re"]:
        c = np.asarray(fun(np.full_like(H, r), H))
        inside = (H >= lo) & (H < hi - 1e-6)
        req(bool(np.all(np.diff(c[inside]) < 0)), f"{n}: {c} does not "
            f"decrease with H {H} at Re={r}")
        if n == "felsch" and np.any(H < 1):
            req(close(c[H < 1], fun(r, 1.0), 1e-13), f"felsch does not hold "
                f"its value below H=1: {c} for {H}")
    return nontriv


LAWS = [
    Law("values", value_case, check_values, 6000, 150000,
        rule="several states, or a shape factor at a limit"),
    Law("order", order_case, check_order, 2500, 50000,
        rule="friction compared for different Reynolds numbers"),
]
