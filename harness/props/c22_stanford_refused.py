"""C22: inconsistent or malformed Stanford data are refused."""
import numpy as np
from hypothesis import strategies as st

import stan
from core import Law, Skip, raises, req
from gen import fl, grown, logf
from ibl.reference import (
    StanfordOlympics1968SmoothVel as SmoothVel,
    StanfordOlympics1968StationData as Station)

RULE = ("A case is a generated consistent station together with one change "
        "that makes it inconsistent or malformed, in one of the unit "
        "systems; non-trivial when the unchanged station was accepted and "
        "the change applies.")
ASSUMPTIONS = ["tolerances are those of the code at the pinned commit, "
               "approached to 2 % from both sides"]

excess = st.one_of(st.just(1.02), fl(1.02, 3.0), logf(3.0, 1e4))


def full():
    """Station with a station summary and at least one profile row."""
    return st.fixed_dictionaries({
        "summ": stan.summary(), "nu": logf(5e-7, 5e-5),
        "clth": logf(5e-3, 2.0), "off": stan.offsets(),
        "rows": grown(st.lists(stan.profile_row(), min_size=1, max_size=4))}).map(
            lambda d: make(d))


def make(d):
    stat = stan.station_values(d["summ"], d["nu"], d["clth"], d["off"])
    return {"summ": d["summ"], "stat": stat,
            "prof": [stan.profile_values(stat, r) for r in d["rows"]]}


SCALARS = ["x", "u_e", "du_e", "delta_d", "delta_m", "delta_k", "delta_c",
           "shape_d", "shape_k", "shape_eq", "c_f", "c_f_lt", "c_f_exp",
           "beta_eq", "u_star", "nu", "re_delta_d", "re_delta_m"]
PROFILES = ["y", "y_plus", "y_c", "u", "u_plus", "u_defect"]


def state(o):
    """Everything a station reports."""
    return ({n: float(getattr(o, n)) for n in SCALARS}
            | {n: np.array(getattr(o, n)).tolist() for n in PROFILES})


def refused(c, what):
    """Accepts the consistent station; function to give a changed one."""
    s, si = c["s"], c["si"]
    old = Station(si, *stan.text(s, si))
    if c["way"] == "new":
        return lambda t: raises(lambda: Station(si, *t), what)

    def give(t):
        before = state(old)
        raises(lambda: old.reset(si_unit=si, summ_data=t[0], stat_summ=t[1],
                                 stat_data=t[2]), what)
        after = state(old)
        for n, v in before.items():
            req(after[n] == v, f"{n} is {after[n]}, not {v} after refusing "
                + what)
    return give


def common(**kw):
    return st.fixed_dictionaries({
        "s": full(), "si": st.booleans(),
        "way": st.sampled_from(["new", "reset"]), **kw})


# -------------------------------------------------- contradicting summaries
def check_contradiction(c):
    s, n = c["s"], c["field"]
    ref = stan.base_values(s["summ"])
    stat = dict(s["stat"])
    for r, t in (("re_delta_d", "delta_d"), ("re_delta_m", "delta_m")):
        ref[r] = s["summ"]["u_e"]*stat[t]/stat["nu"]
    v = ref[n] + c["sign"]*c["by"]*stan.TOL[n]
    if n != "x" and v <= 0:
        # cannot be contradicted downwards within the admissible range
        v = ref[n] + c["by"]*stan.TOL[n]
    stat[n] = v
    # Reynolds numbers go with the station's own thickness
    for r, t in (("re_delta_d", "delta_d"), ("re_delta_m", "delta_m")):
        if n == t:
            stat[r] = s["summ"]["u_e"]*v/stat["nu"]
    # no profile: it would be inconsistent with the changed station as well
    t = stan.text({"summ": s["summ"], "stat": stat, "prof": []}, c["si"])
    refused(c, f"{n} = {v!r} in the station summary contradicting "
            f"{ref[n]!r} of the summary")(t)
    return True


# ----------------------------------------------- contradicting profile rows
def check_profile(c):
    s, n = c["s"], c["field"]
    rows = [dict(r) for r in s["prof"]]
    r = rows[c["row"] % len(rows)]
    base = stan.profile_base(s["stat"], r["y"], r["ratio"])[n]
    v = base + c["sign"]*c["by"]*stan.PTOL[n]
    if v < 0:
        v = base + c["by"]*stan.PTOL[n]
    if v < 0:
        raise Skip()
    r[n] = v
    t = stan.text({"summ": s["summ"], "stat": s["stat"], "prof": rows},
                  c["si"])
    refused(c, f"profile {n} = {v!r} contradicting {base!r} from the station "
            "summary")(t)
    return True


# ---------------------------------------------------- within the tolerance
def check_within(c):
    """Everything at the given fraction of the tolerances is accepted."""
    f = c["f"]
    d = c["d"]
    off = {n: f if c["only"] in ("all", n) else 0.0 for n in stan.TOL}
    poff = {n: f if c["only"] in ("all", n) else 0.0 for n in stan.PTOL}
    stat = stan.station_values(d["summ"], d["nu"], d["clth"], off)
    prof = [stan.profile_values(stat, {"y": r["y"], "ratio": r["ratio"],
                                       "off": poff}) for r in d["rows"]]
    s = {"summ": d["summ"], "stat": stat, "prof": prof}
    for si in (True, False):
        sd = Station(si, *stan.text(s, si))
        req(sd.sample_count() == len(prof), "samples of accepted station")
    return True


# ------------------------------------------------------------ malformed rows
def damage(row, how, k):
    v = row.split()
    k %= len(v)
    if how == "more":
        v.append("1.0")
    elif how == "dup":
        v.insert(k, v[k])
    elif how == "fewer":
        v.pop(k)
    elif how == "joined":
        if len(v) < 2:
            return None
        k = min(k, len(v) - 2)
        v[k:k + 2] = [v[k] + v[k + 1]] if not v[k + 1].startswith("-") else [
            v[k] + "_" + v[k + 1]]
    elif how == "none":
        return "   "
    else:
        v[k] = how
    return "  ".join(v)


HOWS = ["more", "dup", "fewer", "joined", "none", "abc", "***", "1.2.3",
        "1,5", "--"]


def check_malformed(c):
    summ, stat, prof = stan.text(c["s"], c["si"])
    prof = list(prof)
    if c["part"] == "summ":
        summ = damage(summ, c["how"], c["k"])
    elif c["part"] == "stat":
        stat = damage(stat, c["how"], c["k"])
    else:
        i = c["row"] % len(prof)
        prof[i] = damage(prof[i], c["how"], c["k"])
    refused(c, f"{c['part']} row damaged ({c['how']})")((summ, stat, prof))
    return True


def check_smooth(c):
    rows = [" ".join(map(repr, r)) for r in c["rows"]]
    i = c["row"] % len(rows)
    bad = list(rows)
    bad[i] = damage(rows[i], c["how"], c["k"])
    raises(lambda: SmoothVel(c["si"], bad), "damaged velocity row")
    sv = SmoothVel(c["si"], rows)
    before = [np.array(v).tolist() for v in (sv.x, sv.u_e, sv.du_e)]
    raises(lambda: sv.reset(c["si"], bad), "damaged velocity row on reset")
    after = [np.array(v).tolist() for v in (sv.x, sv.u_e, sv.du_e)]
    req(before == after, f"refused rows changed {before} to {after}")
    sv.reset(c["si"], rows)
    req(sv.size() == len(rows), "reset after refused reset")
    return True


# ------------------------------------------------------- inadmissible values
def check_inadmissible(c):
    s = {"summ": dict(c["s"]["summ"]), "stat": dict(c["s"]["stat"]),
         "prof": [dict(r) for r in c["s"]["prof"]]}
    n, bad = c["field"], -c["mag"]
    part, n = n.split(".")
    if part == "summ":
        s["summ"][n] = bad
        # the station summary may agree with it
        if c["agree"] == "only":
            s["stat"], s["prof"] = None, []
        elif c["agree"] and n in s["stat"]:
            s["stat"][n] = bad
    elif part == "stat":
        s["stat"][n] = bad
        if n == "nu" and c["agree"] and bad:
            s["stat"]["re_delta_d"] *= -1
            s["stat"]["re_delta_m"] *= -1
        if n in ("re_delta_d", "re_delta_m") and bad == 0:
            pass
        s["prof"] = [] if c["agree"] else s["prof"]
    else:
        # negative within the tolerance of the redundant quantities
        r = s["prof"][c["row"] % len(s["prof"])]
        if bad == 0:
            raise Skip()
        base = stan.profile_base(s["stat"], r["y"], r["ratio"])
        if n == "y":
            r["y"] = bad
        elif n == "u":
            r["ratio"] = bad
        else:
            # keep it consistent where that is possible
            r[n] = max(bad, base[n] - 0.95*stan.PTOL[n])
            if r[n] >= 0:
                r[n] = bad
    refused(c, f"inadmissible {part} {n} (magnitude {c['mag']!r})")(
        stan.text(s, c["si"]))
    return True


FIELDS = ([f"summ.{n}" for n in stan.POSITIVE + ["c_f"]]
          + [f"stat.{n}" for n in stan.STAT if n != "x"]
          + [f"prof.{n}" for n in ["y", "u"] + sorted(stan.PTOL)])
mags = st.one_of(st.just(0.0), logf(1e-9, 1e-3), logf(1e-3, 100.0))
sign = st.sampled_from([-1, 1])
row3 = st.tuples(fl(-5.0, 30.0), logf(0.5, 150.0), fl(-60.0, 60.0)).map(list)
ks = st.one_of(st.integers(0, 40), st.integers(0, 400))

LAWS = [
    Law("station_contradicts_summary", lambda: common(
        field=st.sampled_from(sorted(stan.TOL)), sign=sign, by=excess),
        check_contradiction, 1200, 30000, rule="every case"),
    Law("profile_contradicts_station", lambda: common(
        field=st.sampled_from(sorted(stan.PTOL)), sign=sign, by=excess,
        row=ks), check_profile, 800, 20000, rule="every case"),
    Law("within_tolerance", lambda: st.fixed_dictionaries({
        "d": st.fixed_dictionaries({
            "summ": stan.summary(), "nu": logf(5e-7, 5e-5),
            "clth": logf(5e-3, 2.0),
            "rows": st.lists(stan.profile_row(), max_size=3)}),
        "f": st.sampled_from([-0.98, 0.98, 0.5, 0.0]),
        "only": st.sampled_from(["all"] + sorted(stan.TOL)
                                + sorted(stan.PTOL))}),
        check_within, 600, 15000, rule="every case"),
    Law("malformed_rows", lambda: common(
        part=st.sampled_from(["summ", "stat", "prof"]),
        how=st.sampled_from(HOWS), k=ks, row=ks),
        check_malformed, 800, 20000, rule="every case"),
    Law("malformed_smooth_velocity", lambda: st.fixed_dictionaries({
        "rows": grown(st.lists(row3, min_size=1, max_size=6)), "si": st.booleans(),
        "how": st.sampled_from(HOWS), "k": ks, "row": ks}),
        check_smooth, 300, 8000, rule="every case"),
    Law("inadmissible_values", lambda: common(
        field=st.sampled_from(FIELDS), mag=mags, row=ks,
        agree=st.sampled_from([False, True, "only"])),
        check_inadmissible, 1200, 30000, rule="every case"),
]
