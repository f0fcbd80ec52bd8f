"""C23: the cases of the 1968 Stanford Olympics."""
import math
import os
import re

import numpy as np
from hypothesis import strategies as st

import stan
from core import Law, Violation, req
from ibl.reference import StanfordOlympics1968

RULE = ("A case is a sequence of loads on one object: available cases, "
        "unknown cases, the empty case, and changes the user makes to what "
        "was loaded; non-trivial when data is loaded after other data or "
        "after a failure.")
ASSUMPTIONS = ["the data files at the pinned commit (copied to "
               "harness/data) are the reference; they are parsed "
               "independently"]
CASES = ["1100", "1200", "1300", "2200", "2300"]
HERE = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "data")
SCALARS = [n for n in stan.SCALARS]
PROF = stan.PROF
UNIT_SI = {"delta_m": 1e-2, "delta_d": 1e-2, "delta_k": 1e-2,
           "delta_c": 1e-2, "nu": 1e-4, "y": 1e-2}
UNIT_EN = {"x": 0.3048, "u_e": 0.3048, "u_star": 0.3048, "nu": 0.3048**2,
           "delta_m": 0.0254, "delta_d": 0.0254, "delta_k": 0.0254,
           "delta_c": 0.0254, "y": 0.0254}


def parse(name):
    """Independent reading of a case file: SI values."""
    unit = UNIT_SI if name[0] == "1" else UNIT_EN
    blocks, nu = {}, None
    cur = None
    with open(os.path.join(HERE, f"case {name}.txt"), encoding="utf8") as f:
        for line in f:
            line = line.strip()
            if line.startswith("#"):
                t = line[1:].strip()
                m = re.match(r"Station (\d+) data", t)
                if t.startswith("Summary"):
                    cur = "summ"
                elif t.startswith("Edge"):
                    cur = "edge"
                elif t.startswith("Stations"):
                    cur = "stat"
                elif m:
                    cur = int(m.group(1)) - 1
                continue
            if line.startswith("V"):
                nu = float(line.split("=")[1])*unit["nu"]
            elif line and "=" not in line:
                blocks.setdefault(cur, []).append(
                    [float(v) for v in line.split()])

    def cols(rows, names):
        return [{n: v*unit.get(n, 1.0) for n, v in zip(names, r)}
                for r in rows]
    edge = cols(blocks["edge"], ["x", "u_e", "du_e"])
    summ = cols(blocks["summ"], stan.SUMM)
    stat = cols(blocks["stat"], stan.STAT) if "stat" in blocks else None
    stations = []
    for i, s in enumerate(summ):
        prof = cols(blocks.get(i, []), ["y_plus", "u_plus", "y", "ratio",
                                        "y_c", "u_defect"])
        stations.append(stan.expected(
            {"summ": s, "stat": stat[i] if stat else None, "prof": prof}))
    return {"case": name, "nu_ref": nu, "edge": edge, "stations": stations}


REF = {n: parse(n) for n in CASES}
EMPTY = {"case": "", "nu_ref": math.inf, "edge": [], "stations": []}


def near(a, b):
    return a == b or abs(a - b) <= 1e-9*abs(b)


def compare(so, ref, what):
    """Everything the object tells is what the case has."""
    req(so.case == ref["case"], f"{what}: case is {so.case!r}")
    req(near(so.nu_ref, ref["nu_ref"]), f"{what}: nu_ref {so.nu_ref!r}")
    for n in ("x", "u_e", "du_e"):
        a = getattr(so, n + "_smooth")()
        req(np.shape(a) == (len(ref["edge"]),),
            f"{what}: {np.shape(a)} smoothed {n}")
        for i, r in enumerate(ref["edge"]):
            req(near(float(a[i]), r[n]), lambda: f"{what}: smoothed {n}[{i}] "
                f"is {float(a[i])!r}, file has {r[n]!r}")
    stations = ref["stations"]
    req(so.station_count() == len(stations),
        f"{what}: {so.station_count()} stations of {len(stations)}")
    for n in SCALARS:
        a = getattr(so, n)()
        req(np.shape(a) == (len(stations),), f"{what}: {n} has shape "
            f"{np.shape(a)}")
        for i, s in enumerate(stations):
            req(near(float(a[i]), s[n]), lambda: f"{what}: {n}[{i}] is "
                f"{float(a[i])!r}, file has {s[n]!r}")
            v = getattr(so.station(i), n)
            req(v == float(a[i]), lambda: f"{what}: {n} of station {i} is "
                f"{v!r}, accessor has {float(a[i])!r}")
    for i, s in enumerate(stations):
        sd = so.station(i)
        req(sd.sample_count() == len(s["y"]), f"{what}: samples of {i}")
        for n in PROF:
            a = getattr(so, n)(i)
            req(np.shape(a) == (len(s[n]),), f"{what}: {n}({i})")
            req(np.array_equal(a, getattr(sd, n)), f"{what}: {n}({i}) "
                "differs from the station's")
            for k, v in enumerate(s[n]):
                req(near(float(a[k]), v), lambda: f"{what}: {n}({i})[{k}] is "
                    f"{float(a[k])!r}, file has {v!r}")


def unknown(so, name, what):
    try:
        so.case = name
    except ValueError:
        return
    except Exception as e:  # pylint: disable=broad-except
        raise Violation(f"{what}: {type(e).__name__} for unknown case "
                        f"{name!r}") from e
    raise Violation(f"{what}: unknown case {name!r} accepted")


def meddle(so, k):
    """The user overwrites loaded values."""
    if not so.station_count():
        return
    sd = so.station(k % so.station_count())
    sd.delta_m = 123.0
    sd.u_e = 321.0
    sd.c_f = 0.5
    if sd.sample_count():
        sd.y[:] = 77.0
    so.u_e_smooth()[:] = -1.0
    so.x()[:] = -1.0


def check_history(c):
    start = c[0]
    ref = EMPTY
    if start[0] == "load":
        so = StanfordOlympics1968(start[1])
        ref = REF[start[1]]
    elif start[0] == "unknown":
        try:
            StanfordOlympics1968(start[1])
        except ValueError:
            pass
        else:
            req(False, f"new object with unknown case {start[1]!r}")
        so = StanfordOlympics1968()
    else:
        so = StanfordOlympics1968("") if start[0] == "empty" \
            else StanfordOlympics1968()
    compare(so, ref, "new object")
    loads = 0
    for i, op in enumerate(c[1:]):
        what = f"step {i} ({op[0]} {op[1]})"
        if op[0] == "load":
            so.case = op[1]
            ref = REF[op[1]]
            loads += 1
        elif op[0] == "unknown":
            unknown(so, op[1], what)
            ref = EMPTY
        elif op[0] == "empty":
            so.case = ""
            ref = EMPTY
        elif op[0] == "other":
            # another object loads something: this one keeps its data
            other = StanfordOlympics1968(CASES[op[1] % len(CASES)])
            meddle(other, op[1])
        else:
            meddle(so, op[1])
            so.case = ref["case"]
        compare(so, ref, what)
    return loads > 0


def check_unknown(c):
    so = StanfordOlympics1968(CASES[c["k"] % len(CASES)])
    unknown(so, c["name"], "loaded object")
    compare(so, EMPTY, f"after unknown case {c['name']!r}")
    try:
        StanfordOlympics1968(c["name"])
    except ValueError:
        return True
    raise Violation(f"new object with unknown case {c['name']!r}")


def mutate(name, how, ch):
    return {"drop": name[:-1], "add": name + ch, "pre": ch + name,
            "space": name + " ", "lead": " " + name, "txt": name + ".txt",
            "case": "case " + name, "rev": name[::-1],
            "swap": name[0] + ch + name[2:]}[how]


names = st.one_of(
    st.integers(0, 9999).map(lambda v: f"{v:04d}"),
    st.text("0123456789abcxyz .-_", min_size=1, max_size=12),
    st.tuples(st.sampled_from(CASES), st.sampled_from(
        ["drop", "add", "pre", "space", "lead", "txt", "case", "rev",
         "swap"]), st.sampled_from("0123456789aZ ")).map(
             lambda t: mutate(*t))).filter(
                 lambda s: s not in CASES and s != "")
load = st.tuples(st.just("load"), st.sampled_from(CASES))
op = st.one_of(load, load, load, st.tuples(st.just("unknown"), names),
               st.tuples(st.just("empty"), st.just("")),
               st.tuples(st.just("meddle"), st.integers(0, 30)),
               st.tuples(st.just("other"), st.integers(0, 30)))
first = st.one_of(load, st.tuples(st.just("unknown"), names),
                  st.tuples(st.just("empty"), st.just("")),
                  st.tuples(st.just("none"), st.just("")))

LAWS = [
    Law("history", lambda: st.tuples(
        first, st.lists(op, min_size=1, max_size=6)).map(
            lambda t: [list(t[0])] + [list(o) for o in t[1]]),
        check_history, 300, 8000,
        examples=[[["load", c], ["load", c], ["empty", ""], ["load", c]]
                  for c in CASES],
        rule="something is loaded after the first step"),
    Law("unknown_cases", lambda: st.fixed_dictionaries(
        {"name": names, "k": st.integers(0, 4)}), check_unknown, 400, 8000,
        rule="every case"),
]
