"""C15: similarity solutions satisfy the Falkner-Skan problem."""
import numpy as np
from hypothesis import strategies as st

import fsk
from core import Law, raises, req
from gen import close, query_fracs

RULE = ("A case is a wedge parameter with the outer edge and wall value left "
        "to the search or given; non-trivial when a search is done (or the "
        "given pair is used) and the problem is nonlinear, i.e. always "
        "distinct wedge parameters or outer edges.")
ASSUMPTIONS = ["wedge parameters in [-0.198837, 2] (separation is at "
               "-0.1988377); user supplied outer edge "
               "alone only for beta in [-0.15, 0.6], wall value alone only where "
               "the search for the edge converges (documented as unstable)"]


@st.composite
def solve_case(draw):
    return {"sol": draw(fsk.solutions()),
            "q": draw(query_fracs())}


def check_solve(case):
    sol = case["sol"]
    beta = sol["beta"]
    fs, (fw, eta) = fsk.build(sol)
    s, e = fs.fw_pp, fs.eta_inf
    req(np.isfinite(s) and s > 0, f"wall value {s}")
    req(np.isfinite(e) and 0 < e < 20, f"outer edge {e}")
    if fw is not None:
        req(close(s, fw, 1e-12), f"wall value {s}, {fw} was given")
    if eta is not None:
        req(e == eta, f"outer edge {e}, {eta} was given")
    if not sol["kind"].startswith("b"):
        req(fs.beta == beta, f"beta is {fs.beta}")
    tol = 5e-7
    for n, v in (("f", fs.f(0.0)), ("f'", fs.f_p(0.0))):
        req(abs(v) < 1e-12, f"{n}(0) is {v}")
    # the reported functions solve the differential equation
    r = fsk.own(beta, s, e)
    x = np.concatenate([np.linspace(0, e, 41), np.array(case["q"])*e])
    y = r.sol(x)
    for i, (n, g) in enumerate((("f", fs.f), ("f'", fs.f_p),
                                ("f''", fs.f_pp))):
        got = np.asarray(g(x), float)
        req(got.shape == x.shape, f"{n} has shape {got.shape} for {x.shape}")
        d = np.max(np.abs(got - y[i]))
        req(d < tol*max(1.0, e if i == 0 else 1.0),
            f"{n} is off by {d:.2e} from the solution of the equation with "
            f"beta={beta}, f''(0)={s}")
        one = float(g(float(x[-1])))
        req(close(one, got[-1], 1e-12, 1e-13), f"{n} scalar {one}, array "
            f"{got[-1]}")
    # boundary conditions at the outer edge
    f1, f2 = float(r.y[1, -1]), float(r.y[2, -1])
    if fw is None:
        req(abs(f1 - 1) < tol, f"f' is 1{f1 - 1:+.2e} at the outer edge {e}")
    if fw is None and eta is None or sol["kind"] == "fw":
        req(abs(f1 - 1) < 2*tol, f"f' is 1{f1 - 1:+.2e} at outer edge {e}")
        req(abs(f2) < tol, f"f'' is {f2:.2e} at the outer edge {e}")
    if sol.get("rel", 0.0) == 0.0:
        req(np.min(y[1]) > -tol and np.max(y[1]) < 1 + 2*tol,
            f"f' leaves 0..1: {np.min(y[1])}..{np.max(y[1])}")
        u = fs.f_p(np.linspace(0, e, 201))
        req(np.min(np.diff(u)) > -tol, "f' does not rise")
    if fw is None and eta is None:
        # the wall value is bracketed by too small and too large ones
        ds = max(1e-5*s, 2e-5)
        up = float(fsk.own(beta, s + ds, e).y[1, -1]) - 1
        dn = float(fsk.own(beta, s - ds, e).y[1, -1]) - 1
        req(up > 1e-8 and dn < -1e-8, f"wall value {s} is not the solution: "
            f"f'-1 at the edge is {dn:.2e} and {up:.2e} for {s}-+{ds:.1e}")
    return True


# wall values from the literature (Asaithambi 1997, Salama 2004, White)
TABLE = {2.0: 1.687218, 1.0: 1.232588, 0.5: 0.927680, 0.0: 0.469600,
         -0.1: 0.319270, -0.15: 0.216361, -0.18: 0.128636,
         -0.1988: 0.005218}


def check_table(case):
    b = case["beta"]
    fs = fsk.cached(b)
    req(abs(fs.fw_pp - TABLE[b]) < 1.2e-6, f"f''(0)={fs.fw_pp} for "
        f"beta={b}, literature {TABLE[b]}")
    return True


def table_case():
    return st.fixed_dictionaries({"beta": st.sampled_from(sorted(TABLE))})


@st.composite
def refused_case(draw):
    b = draw(st.one_of(
        st.sampled_from([-0.1988401, -0.19885, -0.2, 2.0000001, 2.1, 3.0, -1.0, -1e9, 1e9,
                         float("inf"), float("-inf")]),
        st.floats(2.001, 1e3), st.floats(-1e3, -0.19885)))
    return {"beta": b}


def check_refused(case):
    b = case["beta"]
    # also with edge and wall value of the nearest solution
    near = fsk.cached(-0.1988 if b < 0 else 2.0)
    edge, wall = near.eta_inf, near.fw_pp
    for kw in ({}, {"eta_inf": edge}, {"fw_pp": wall},
               {"eta_inf": edge, "fw_pp": wall}):
        raises(lambda: fsk.FalknerSkan(b, 1.0, 1.0, **kw),
               f"wedge parameter {b} with {kw}")
    for bad in (-1.0, 0.0, -1e-9):
        raises(lambda: fsk.FalknerSkan(0.1, 1.0, 1.0, eta_inf=bad),
               f"outer edge {bad}")
        raises(lambda: fsk.FalknerSkan(0.1, 1.0, 1.0, fw_pp=bad),
               f"wall value {bad}")
        raises(lambda: fsk.Blasius(1.0, 1.0, eta_inf=bad),
               f"outer edge {bad}")
        raises(lambda: fsk.Blasius(1.0, 1.0, fw_pp=bad), f"wall value {bad}")
    return True


LAWS = [
    Law("problem", solve_case, check_solve, 320, 3600,
        rule="distinct solution problems"),
    Law("literature", table_case, check_table, 8, 8, rule="tabulated cases"),
    Law("refused", refused_case, check_refused, 200, 2000,
        rule="wedge parameters out of range"),
]
