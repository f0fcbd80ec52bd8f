"""C19: reading an XFoil dump returns its data, split at stagnation."""
import os

import numpy as np
from hypothesis import strategies as st

import xdump
from core import Law, req
from gen import close, logf
from ibl.reference import XFoilReader

RULE = ("A case is a generated dump file (number of rows, location of the "
        "stagnation point and of the leading edge, header, wake, final "
        "newline); non-trivial when the surfaces have different numbers of "
        "rows or a row is at the stagnation point.")
ASSUMPTIONS = ["dumps have the column layout XFoil writes: airfoil rows of at "
               "least 80 characters, wake rows shorter",
               "with the leading edge next to an interpolated stagnation point "
               "its chord location is only demanded to be ahead of its "
               "neighbours'",
               "mass and energy defect of an interpolated stagnation point "
               "are only demanded to be between its neighbours"]


def near(a, b, scale=0.0):
    return close(a, b, 1e-10, 1e-12 + scale)


def check_rows(got, want, side, first):
    for i, w in enumerate(want):
        for n, v in w.items():
            if first is not None and i == 0 and n in (
                    "x", "mass_defect", "ke_defect"):
                a, b, off = first
                lo, hi = sorted((a[n], b[n]))
                g = getattr(got[i], n)
                if n == "x" and off:
                    req(near(g, v), f"{side} stagnation point: x is {g}, "
                        f"linear interpolation gives {v}")
                elif n == "x":
                    req(-1e-12 <= g <= hi + 1e-12, f"{side} stagnation "
                        f"point: x is {g}, neighbours at {a[n]} and {b[n]}")
                else:
                    req(lo - 1e-12 <= g <= hi + 1e-12, f"{side} stagnation "
                        f"point: {n} is {g}, neighbours have {a[n]}, {b[n]}")
                continue
            if n == "c_f" and side == "wake":
                continue
            g = getattr(got[i], n)
            req(near(g, v), f"{side} station {i}: {n} is {g}, dump has {v}")


@st.composite
def dump_case(draw):
    return {"dump": draw(xdump.dumps()), "u_ref": draw(logf(0.1, 100, 4)),
            "how": draw(st.sampled_from(["init", "set"]))}


def check_dump(case):
    d = case["dump"]
    with xdump.Scratch() as tmp:
        path = os.path.join(tmp, "dump.txt")
        xdump.write(path, xdump.lines(d))
        if case["how"] == "init":
            xf = XFoilReader(path)
        else:
            xf = XFoilReader()
            xf.filename = path
        with open(path, encoding="utf8") as f:
            req(f.readlines() == xdump.lines(d), "file was changed")
    req(xf.filename == path, f"file name is {xf.filename!r}")
    up, lo, wake, between = xdump.expected(d)
    for side, want, count, one in (
            ("upper", up, xf.upper_count, xf.upper),
            ("lower", lo, xf.lower_count, xf.lower),
            ("wake", wake, xf.wake_count, xf.wake)):
        req(count() == len(want), f"{side} has {count()} stations, not "
            f"{len(want)}")
        got = [one(i) for i in range(len(want))]
        check_rows(got, want, side, between if side != "wake" else None)
        if side != "wake":
            req(got[0].s == 0 and abs(got[0].u_e_rel) < 1e-12,
                f"{side} starts at s={got[0].s} with velocity "
                f"{got[0].u_e_rel}")
            req(all(b.s > a.s for a, b in zip(got[:-1], got[1:])),
                f"{side} arc length does not increase")
        # arrays agree with the stations
        names = ["s", "x", "y", "delta_d", "delta_m", "shape_d"]
        if side != "wake":
            names += ["c_f", "shape_k", "mass_defect", "mom_defect",
                      "ke_defect"]
        for n in names:
            a = np.asarray(getattr(xf, f"{n}_{side}")())
            b = [getattr(g, n) for g in got]
            req(a.shape == (len(want),) and np.array_equal(a, b),
                f"{n}_{side} is {a}, stations have {b}")
        for u in (1.0, case["u_ref"]):
            xf.u_ref = u
            a = np.asarray(getattr(xf, f"u_e_{side}")())
            b = [u*g.u_e_rel for g in got]
            req(a.shape == (len(want),) and near(a, b), f"u_e_{side} is {a} "
                f"for reference velocity {u}, stations have {b}")
        if side != "wake":
            a = np.asarray(getattr(xf, f"delta_k_{side}")())
            b = [g.shape_k*g.delta_m for g in got]
            req(a.shape == (len(want),) and near(a, b), f"delta_k_{side} is "
                f"{a}, stations have {b}")
    return len(up) != len(lo) or between is None


LAWS = [Law("dump", dump_case, check_dump, 2400, 40000,
            rule="surfaces of different length or row at stagnation")]
