"""Generator and independent reader of XFoil dumps."""
import os
import random
import tempfile

import numpy as np
from hypothesis import strategies as st

from gen import fl, fractions, logf

HEADER = ("#    s        x        y     Ue/Vinf    Dstar     Theta      Cf"
          "       H       H*        P         m          K          tau"
          "         Di\n")
COLS = ["s", "x", "y", "u_e_rel", "delta_d", "delta_m", "c_f", "shape_d",
        "shape_k", "mom_defect", "mass_defect", "ke_defect"]
WCOLS = ["s", "x", "y", "u_e_rel", "delta_d", "delta_m", "c_f", "shape_d"]
ROW = ("{:10.5f}{:9.5f}{:9.5f}{:9.5f}{:10.6f}{:10.6f}{:10.6f}{:10.4f}{:10.4f}"
       "{:9.5f}{:9.5f}{:9.5f}\n")
WROW = "{:10.5f}{:9.5f}{:9.5f}{:9.5f}{:10.6f}{:10.6f}{:10.6f}{:10.4f}\n"


def row(draw, s, x, u, wake=False):
    """Numbers of a row, as in the file."""
    dm = draw(st.one_of(st.just(0.0), fl(1e-6, 0.08, 4)))
    H = draw(fl(1.0, 4.0, 4))
    v = [s, x, draw(fl(-0.2, 0.2, 4)), u, dm*H, dm,
         draw(st.one_of(st.just(0.0), fl(0.0, 1.5, 4))), H]
    if not wake:
        # now and then with a sign that is not the one of the velocity
        sg = draw(st.sampled_from([1, 1, 1, 1, 1, 1, 1, -1]))
        v += [draw(fl(1.3, 2.0, 4)), u*u*dm, sg*u*dm*H, sg*draw(
            fl(0.0, 0.9, 3))*u*abs(u)**2*0.1]
    return v


@st.composite
def dumps(draw):
    """A dump: numbers of the rows and the layout of the file."""
    nu, nl = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    nw = draw(st.sampled_from([0, 0, 1, 2, 5]))
    if draw(st.integers(0, 39)) == 39:
        # as many stations as the program can have
        few, pick = draw, random.Random(draw(st.integers(0, 999)))
        le_at = draw(fractions)
        nu, nl, nw = nu*25, nl*25, nw*12
        pools = {}

        def draw(what):
            pool = pools.get(repr(what))
            if pool is None or len(pool) < 5:
                pool = pools.setdefault(repr(what), [])
                pool.append(few(what))
                return pool[-1]
            return pick.choice(pool)
    zero = draw(st.sampled_from([0, 0, 1]))
    n = nu + nl + zero
    ds = [draw(fl(5e-5, 0.3, 3)) for _ in range(n)]
    s = draw(st.sampled_from([0.0, 0.0, 0.25]))
    # leading edge anywhere
    le = draw(st.integers(0, n - 1)) if n < 20 else int(le_at*(n - 1))
    dx = [draw(fl(1e-4, 0.1, 3)) for _ in range(n)]
    x0 = draw(st.sampled_from([0.0, 0.00024, 0.01]))
    airfoil = []
    # down to the last digit of the file
    speed = st.one_of(fl(1e-3, 2.0, 4), fl(1e-3, 2.0, 4), logf(1e-5, 1e-3, 3))
    for i in range(n):
        s += ds[i] if i else 0.0
        x = x0 + (sum(dx[i:le]) if i < le else sum(dx[le:i]))
        if i < nu:
            u = draw(speed)
        elif i < nu + zero:
            u = draw(st.sampled_from([0.0, 0.0, -0.0]))
        else:
            u = -draw(speed)
        airfoil.append(row(draw, s, x, u))
    wake = []
    for i in range(nw):
        s += draw(fl(5e-5, 0.3, 3))
        wake.append(row(draw, s, 1.0 + i, draw(st.one_of(
            fl(0.2, 1.2, 4), fl(0.2, 1.2, 4), fl(-0.4, 0.2, 4),
            st.just(0.0))), True))
    return {"airfoil": airfoil, "wake": wake,
            "header": draw(st.booleans()),
            "blanks": draw(st.sampled_from([4, 4, 4, 0, 1, 2, 9])),
            "newline": draw(st.booleans())}


def lines(d):
    out = []
    if d["header"]:
        out.append("#" + " "*d.get("blanks", 4) + HEADER[1:].lstrip(" "))
    out += [ROW.format(*r) for r in d["airfoil"]]
    out += [WROW.format(*r) for r in d["wake"]]
    if not d["newline"]:
        out[-1] = out[-1].rstrip("\n")
    return out


def write(path, text):
    with open(path, "w", encoding="utf8") as f:
        f.writelines(text)


class Scratch:
    """Folder for the files of a case."""

    def __enter__(self):
        self._d = tempfile.TemporaryDirectory(
            dir=os.environ.get("VERIF_SCRATCH"))
        return self._d.__enter__()

    def __exit__(self, *a):
        return self._d.__exit__(*a)


def parsed(d):
    """Numbers as they are in the file."""
    a = [dict(zip(COLS, map(float, ROW.format(*r).split())))
         for r in d["airfoil"]]
    w = [dict(zip(WCOLS, map(float, WROW.format(*r).split())))
         for r in d["wake"]]
    return a, w


def expected(d):
    """Upper, lower and wake stations demanded.

    Returns the three lists and the two neighbours of an interpolated
    stagnation point with whether the leading edge is elsewhere (or None).
    """
    rows, wake = parsed(d)
    k = next(i for i, r in enumerate(rows) if r["u_e_rel"] < 0)
    up = [dict(r) for r in rows[:k]][::-1]
    lo = [dict(r) for r in rows[k:]]
    for r in lo:
        for n in ("u_e_rel", "mass_defect", "ke_defect"):
            r[n] = -r[n]
    between = None
    if up[0]["u_e_rel"] == 0:
        stag = dict(up[0])
        lo.insert(0, dict(stag))
    else:
        a, b = up[0], lo[0]
        w = a["u_e_rel"]/(a["u_e_rel"] + b["u_e_rel"])
        stag = {n: (1 - w)*a[n] + w*b[n] for n in COLS}
        stag["u_e_rel"] = 0.0
        # the leading edge is known not to be between the two
        off = any(r["x"] < a["x"] for r in up[1:2]) or any(
            r["x"] < b["x"] for r in lo[1:2])
        between = (dict(a), dict(b), off)
        up.insert(0, dict(stag))
        lo.insert(0, dict(stag))
    s0 = stag["s"]
    for r in up:
        r["s"] = s0 - r["s"]
    for r in lo:
        r["s"] = r["s"] - s0
    if wake:
        s0 = wake[0]["s"]
        for r in wake:
            r["s"] -= s0
    return up, lo, wake, between
