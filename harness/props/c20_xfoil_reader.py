"""C20: XFoil reader: reloading, metadata and bad files."""
import math
import os

import numpy as np
from hypothesis import strategies as st

import xdump
from core import Law, Violation, raises, req
from gen import close, fl, logf
from ibl.reference import XFoilReader
from ibl.reference import XFoilAirfoilData, XFoilWakeData

RULE = ("A case is a sequence of loads of generated dumps, failed loads and "
        "changes of metadata on one reader, or of resets of one station; "
        "non-trivial when a load follows another load or a failure.")
ASSUMPTIONS = ["malformed airfoil rows keep at least 80 characters (shorter "
               "lines are wake rows in this format)"]

AIRFOIL = ["s", "x", "y", "delta_d", "delta_m", "shape_d", "c_f", "shape_k",
           "mass_defect", "mom_defect", "ke_defect", "u_e", "delta_k"]
WAKE = ["s", "x", "y", "delta_d", "delta_m", "shape_d", "u_e"]
META = ["name", "alpha", "u_ref", "c", "reynolds", "n_trans",
        "x_trans_upper", "x_trans_lower"]
DEFAULTS = {"name": "", "alpha": math.inf, "u_ref": 1.0, "c": 1.0,
            "reynolds": 0.0, "n_trans": math.inf, "x_trans_upper": math.inf,
            "x_trans_lower": math.inf}


def state(xf):
    d = {n: getattr(xf, n) for n in META}
    d["filename"] = xf.filename
    d["counts"] = (xf.upper_count(), xf.lower_count(), xf.wake_count())
    for n in AIRFOIL:
        for side in ("upper", "lower"):
            d[f"{n}_{side}"] = getattr(xf, f"{n}_{side}")().tolist()
    for n in WAKE:
        d[n + "_wake"] = getattr(xf, n + "_wake")().tolist()
    return d


def same(a, b, what):
    for n in b:
        req(a[n] == b[n], f"{what}: {n} is {a[n]}, new reader has {b[n]}")


def corrupt(d, how, where):
    """Lines of the dump with one malformed row (index of it)."""
    text = xdump.lines(d)
    first = 1 if d["header"] else 0
    i = first + where % (len(d["airfoil"]) + len(d["wake"]))
    wake = i >= first + len(d["airfoil"])
    v = text[i].split()
    if how == "more":
        v.append("0.5")
    elif how == "fewer":
        v.pop()
    elif how == "word":
        v[where % len(v)] = "abc"
    elif how == "stars":
        v[where % len(v)] = "********"
    elif how == "neg_s":
        v[0] = "-0.50000"
    elif how == "neg_d":
        v[4] = "-0.001000"
    elif how == "neg_m":
        v[5] = "-0.001000"
    elif how == "neg_cf":
        if wake:
            return None
        v[6] = "-0.001000"
    elif how == "zero_H":
        v[7] = "0.0000"
    elif how == "neg_H":
        v[7] = "-2.0000"
    elif how == "zero_Hk":
        if wake:
            return None
        v[8] = "0.0000"
    elif how == "neg_Hk":
        if wake:
            return None
        v[8] = "-1.5000"
    line = "   ".join(v)
    if not wake:
        line = line.ljust(100)
    elif len(line) >= 79:
        line = " ".join(v)
    text[i] = line + "\n"
    if wake and len(text[i]) >= 80:
        return None
    return text


def cut(d, k):
    """Lines of the dump up to before the velocity changes sign."""
    text = xdump.lines(d)
    first = 1 if d["header"] else 0
    n = 0
    while n < len(d["airfoil"]) and d["airfoil"][n][3] >= 0:
        n += 1
    return text[:k % (first + n + 1)]


HOWS = ["more", "fewer", "word", "stars", "neg_s", "neg_d", "neg_m", "neg_cf",
        "zero_H", "neg_H", "zero_Hk", "neg_Hk"]


@st.composite
def load_case(draw):
    dumps = draw(st.lists(xdump.dumps(), min_size=1, max_size=3))
    k = st.integers(0, len(dumps) - 1)
    op = st.one_of(
        st.tuples(st.just("load"), k), st.tuples(st.just("load"), k),
        st.tuples(st.just("none")),
        st.tuples(st.just("missing")),
        st.tuples(st.just("bad"), k, st.sampled_from(HOWS),
                  st.integers(0, 40)),
        st.tuples(st.just("cut"), k, st.integers(0, 40)),
        st.tuples(st.just("name"), st.sampled_from(["NACA 0012", "", "x"])),
        st.tuples(st.sampled_from(["alpha", "x_trans_upper",
                                   "x_trans_lower"]), fl(-0.5, 1.0, 4)),
        st.tuples(st.sampled_from(["u_ref", "c", "reynolds", "n_trans"]),
                  st.one_of(logf(0.01, 1e7, 4), logf(1e-7, 0.01, 4))),
        st.tuples(st.just("touch"), st.sampled_from(["upper", "lower"])))
    return {"dumps": dumps, "ops": draw(st.lists(op, min_size=1, max_size=9))}


def check_load(case):
    nontriv = False
    with xdump.Scratch() as tmp:
        paths, fresh = [], []
        for i, d in enumerate(case["dumps"]):
            p = os.path.join(tmp, f"dump{i}.txt")
            xdump.write(p, xdump.lines(d))
            paths.append(p)
            one = XFoilReader(p)
            req(one.filename == p, f"filename of {p} is {one.filename!r}")
            fresh.append(state(one))
        empty = state(XFoilReader())
        req(empty["counts"] == (0, 0, 0), "new reader is not empty")
        for n, v in DEFAULTS.items():
            req(empty[n] == v, f"{n} is {empty[n]} in a new reader")
        xf = XFoilReader()
        now = dict(empty)
        loaded = 0
        for o in [tuple(v) for v in case["ops"]]:
            k = o[0]
            if k == "load":
                xf.filename = paths[o[1]]
                req(xf.filename == paths[o[1]],
                    f"filename is {xf.filename!r} after loading")
                now = dict(fresh[o[1]])
                nontriv |= loaded > 0
                loaded += 1
            elif k == "none":
                xf.filename = ""
                now = dict(empty)
            elif k in ("missing", "bad", "cut"):
                p = os.path.join(tmp, "other.txt")
                if os.path.exists(p):
                    os.remove(p)
                if k == "bad":
                    text = corrupt(case["dumps"][o[1]], o[2], o[3])
                    if text is None:
                        continue
                    xdump.write(p, text)
                elif k == "cut":
                    xdump.write(p, cut(case["dumps"][o[1]], o[2]))
                kind = OSError if k == "missing" else ValueError
                raises(lambda: setattr(xf, "filename", p),
                       f"{o} was to be refused", kind)
                raises(lambda: XFoilReader(p), f"{o} was to be refused", kind)
                now = dict(empty)
                loaded += 1
            elif k == "touch":
                # single stations are those of the arrays
                count = getattr(xf, k2 + "_count") if (k2 := o[1]) else None
                if count() < 2:
                    continue
                one = getattr(xf, k2)(1)
                req(one.x == getattr(xf, "x_" + k2)()[1], "station is not "
                    "that of the arrays")
                continue
            else:
                setattr(xf, k, o[1])
                old = now["u_ref"]
                now[k] = o[1]
                if k == "u_ref":
                    for side in ("upper", "lower", "wake"):
                        n = "u_e_" + side
                        got = getattr(xf, n)()
                        want = np.array(now[n])*o[1]/old
                        req(close(got, want, 1e-12), f"{n} is {got} for "
                            f"reference velocity {o[1]}, not {want}")
                        now[n] = got.tolist()
                        one = [float(getattr(xf, side)(j).u_e_rel)*o[1]
                               for j in range(getattr(xf, side + "_count")())]
                        req(close(got, one, 1e-12), f"{n} is {got}, the "
                            f"stations and reference velocity give {one}")
            same(state(xf), now, f"after {o}")
    return nontriv


# -- stations -----------------------------------------------------------------
@st.composite
def station_case(draw):
    wake = draw(st.booleans())
    r = st.composite(xdump.row)(0.1, 0.2, 0.7, wake)
    op = st.one_of(st.tuples(st.just("row"), r), st.tuples(st.just("row"), r),
                   st.tuples(st.just("none")),
                   st.tuples(st.just("bad"), r, st.sampled_from(HOWS),
                             st.integers(0, 11)))
    return {"wake": wake, "ops": draw(st.lists(op, min_size=1, max_size=6))}


def check_station(case):
    wake = case["wake"]
    cls = XFoilWakeData if wake else XFoilAirfoilData
    cols = xdump.WCOLS if wake else xdump.COLS
    fmt = xdump.WROW if wake else xdump.ROW
    names = [c for c in cols if not (wake and c == "c_f")]
    o = cls("")
    good = 0

    def blank(s, what):
        for n in names:
            req(getattr(s, n) == math.inf, f"{n} is {getattr(s, n)} {what}")
    blank(o, "in a new station")
    for op in [tuple(v) for v in case["ops"]]:
        if op[0] == "none":
            o.reset("")
            blank(o, "after reset")
        elif op[0] == "row":
            text = fmt.format(*op[1])
            o.reset(text)
            want = dict(zip(cols, map(float, text.split())))
            for s in (o, cls(text)):
                for n in names:
                    req(getattr(s, n) == want[n], f"{n} is {getattr(s, n)}, "
                        f"{want[n]} in row {text!r}")
            good += 1
        else:
            d = {"header": False, "newline": True,
                 "airfoil": [] if wake else [op[1]],
                 "wake": [op[1]] if wake else []}
            text = corrupt(d, op[2], op[3])
            if text is None:
                continue
            before = {n: getattr(o, n) for n in names}
            raises(lambda: o.reset(text[0]), f"row {text[0]!r}")
            for n in names:
                req(getattr(o, n) == before[n], f"{n} is {getattr(o, n)}, "
                    f"not {before[n]} after a refused row")
            raises(lambda: cls(text[0]), f"row {text[0]!r}")
    return good > 1


LAWS = [
    Law("load", load_case, check_load, 900, 15000,
        rule="a load after another load or failed load"),
    Law("station", station_case, check_station, 1200, 20000,
        rule="two rows read by one station"),
]
