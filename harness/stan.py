"""Model of the station data of the 1968 Stanford proceedings.

A station is held in SI units; `text` writes the rows of the proceedings in
either unit system and `expected` says what has to come out.
"""
import math

from hypothesis import strategies as st

from gen import fl, grown, logf

FT, IN, CM = 0.3048, 0.0254, 0.01
SUMM = ["x", "u_e", "du_e", "delta_m", "shape_d", "shape_k", "shape_eq",
        "c_f", "c_f_lt", "c_f_exp", "beta_eq"]
STAT = ["x", "u_star", "u_e", "nu", "delta_m", "delta_d", "delta_k",
        "delta_c", "shape_d", "shape_eq", "shape_k", "re_delta_m",
        "re_delta_d"]
PROF = ["y_plus", "u_plus", "y", "u", "y_c", "u_defect"]
SCALARS = sorted(set(SUMM + STAT))
# how far station data may be off the summary data (SI units)
TOL = {"x": 2e-3, "u_e": 6e-2, "delta_m": 2e-3, "shape_d": 2e-3,
       "shape_k": 2e-3, "shape_eq": 2e-3, "delta_d": 5e-3, "delta_k": 5e-3,
       "re_delta_d": 5.0, "re_delta_m": 5.0, "u_star": 5e-3}
PTOL = {"y_plus": 1.0, "y_c": 0.5, "u_plus": 0.5, "u_defect": 0.5}
POSITIVE = ["u_e", "delta_m", "shape_d", "shape_k", "shape_eq"]

frac = st.floats(-0.95, 0.95).map(lambda v: round(v, 3))


def summary():
    return st.fixed_dictionaries({
        "x": fl(0.0, 30.0), "u_e": logf(1.0, 150.0), "du_e": fl(-60.0, 60.0),
        "delta_m": logf(2e-4, 0.1), "shape_d": fl(1.1, 4.0),
        "shape_k": fl(1.5, 2.0), "shape_eq": fl(2.0, 60.0),
        "c_f": logf(1e-4, 1e-2), "c_f_lt": logf(1e-4, 1e-2),
        "c_f_exp": logf(1e-4, 1e-2), "beta_eq": fl(-0.5, 30.0)})


def offsets():
    return st.fixed_dictionaries({n: frac for n in sorted(TOL)})


def profile_row():
    return st.fixed_dictionaries({
        "y": st.one_of(st.just(0.0), logf(1e-5, 0.3)),
        "ratio": st.one_of(st.just(0.0), fl(0.0, 1.05), st.just(1.0)),
        "off": st.fixed_dictionaries({n: frac for n in sorted(PTOL)})})


def station():
    """A station with summary only, with station summary, or all of it."""
    def build(d):
        s = {"summ": d["summ"], "stat": None, "prof": []}
        if d["kind"] == 0:
            return s
        s["stat"] = station_values(d["summ"], d["nu"], d["clth"], d["off"])
        if d["kind"] == 2:
            s["prof"] = [profile_values(s["stat"], r) for r in d["rows"]]
        return s
    return st.fixed_dictionaries({
        "kind": st.sampled_from([0, 1, 1, 2, 2, 2]), "summ": summary(),
        "nu": logf(5e-7, 5e-5), "clth": logf(5e-3, 2.0), "off": offsets(),
        "rows": grown(st.lists(profile_row(), max_size=5))}).map(build)


def near(v, tol, f, low=0.3):
    """v off by the fraction f of the tolerance, but well positive."""
    r = v + f*tol
    return r if r > low*v else v*(1 + f*(1 - low))


def base_values(summ):
    """Redundant quantities as they follow from the summary."""
    b = {n: summ[n] for n in ("x", "u_e", "delta_m", "shape_d", "shape_k",
                              "shape_eq")}
    b["delta_d"] = summ["shape_d"]*summ["delta_m"]
    b["delta_k"] = summ["shape_k"]*summ["delta_m"]
    b["u_star"] = summ["u_e"]*math.sqrt(0.5*summ["c_f"])
    return b


def station_values(summ, nu, clth, off):
    b = base_values(summ)
    s = {"nu": nu, "delta_c": clth}
    for n, v in b.items():
        s[n] = v + off[n]*TOL[n] if n == "x" else near(v, TOL[n], off[n])
    # the Reynolds numbers go with the given thicknesses
    s["re_delta_d"] = near(summ["u_e"]*s["delta_d"]/nu, 5.0,
                           off["re_delta_d"])
    s["re_delta_m"] = near(summ["u_e"]*s["delta_m"]/nu, 5.0,
                           off["re_delta_m"])
    return s


def profile_base(s, y, ratio):
    """The redundant profile values; may be off zero by round-off."""
    u = s["u_e"]*ratio
    return {"y_plus": y*s["u_star"]/s["nu"], "y_c": y/s["delta_c"],
            "u_plus": u/s["u_star"], "u_defect": (s["u_e"] - u)/s["u_star"]}


def profile_values(s, r):
    b = profile_base(s, r["y"], r["ratio"])
    out = {"y": r["y"], "ratio": r["ratio"]}
    for n, v in b.items():
        out[n] = max(0.0, v + r["off"][n]*PTOL[n])
    if b["u_defect"] < 0:       # overshoot: keep it in the tolerance
        lo = b["u_defect"] + 0.95*PTOL["u_defect"]
        if lo <= 0:
            out["ratio"] = 1.0
            b = profile_base(s, r["y"], 1.0)
            out["u_plus"] = b["u_plus"]
            out["u_defect"] = 0.0
        else:
            out["u_defect"] = min(out["u_defect"], lo)
    return out


# ------------------------------------------------------------------ text
UNIT = {"x": FT, "u_e": FT, "delta_m": IN, "delta_d": IN, "delta_k": IN,
        "delta_c": IN, "u_star": FT, "nu": FT**2, "y": IN}
UNIT_SI = {"delta_m": CM, "delta_d": CM, "delta_k": CM, "delta_c": CM,
           "nu": 1e-4, "y": CM}


def num(name, v, si):
    u = (UNIT_SI if si else UNIT).get(name, 1.0)
    return repr(float(v/u))


def summ_text(summ, si):
    return "  ".join(num(n, summ[n], si) for n in SUMM)


def stat_text(stat, si):
    if stat is None:
        return ""
    return "  ".join(num(n, stat[n], si) for n in STAT)


def prof_text(rows, si):
    return ["  ".join([num("y_plus", r["y_plus"], si),
                       num("u_plus", r["u_plus"], si), num("y", r["y"], si),
                       num("ratio", r["ratio"], si), num("y_c", r["y_c"], si),
                       num("u_defect", r["u_defect"], si)]) for r in rows]


def text(s, si):
    return (summ_text(s["summ"], si), stat_text(s["stat"], si),
            prof_text(s["prof"], si))


def expected(s):
    """SI values of all quantities (inf for what is not given)."""
    e = {n: math.inf for n in SCALARS}
    e.update(s["summ"])
    e.update(base_values(s["summ"]))
    if s["stat"] is not None:
        e.update(s["stat"])
    for n in ("y_plus", "u_plus", "y", "y_c", "u_defect"):
        e[n] = [r[n] for r in s["prof"]]
    e["u"] = [e["u_e"]*r["ratio"] for r in s["prof"]]
    return e


def got(sd):
    g = {n: getattr(sd, n) for n in SCALARS}
    g.update({n: [float(v) for v in getattr(sd, n)] for n in PROF})
    return g
