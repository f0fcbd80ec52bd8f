"""C21: Stanford station data in SI units."""
import math

from hypothesis import strategies as st

import stan
from core import Law, req
from gen import fl, grown, logf
from ibl.reference import (
    StanfordOlympics1968SmoothVel as SmoothVel,
    StanfordOlympics1968StationData as Station)

RULE = ("A case is a generated station (summary, optional station summary "
        "with offsets within tolerance, optional profile), a smoothed "
        "velocity table, or a sequence of resets, in both unit systems; "
        "non-trivial when it has a station summary (or two resets that "
        "differ, or at least one velocity row).")
ASSUMPTIONS = ["one foot is 0.3048 m, one inch 0.0254 m",
               "the rate of change of velocity is in 1/s in both systems"]
REL = 1e-9


def eq(a, b):
    if math.isinf(b) or math.isinf(a):
        return a == b
    return abs(a - b) <= REL*abs(b) + 1e-12*(b == 0)


def compare(g, e, what):
    for n, v in e.items():
        if isinstance(v, list):
            req(len(g[n]) == len(v), lambda: f"{what}: {len(g[n])} values of "
                f"{n} for {len(v)} rows")
            for i, (a, b) in enumerate(zip(g[n], v)):
                req(eq(a, b), lambda: f"{what}: {n}[{i}] is {a!r}, given "
                    f"{b!r}")
        else:
            req(eq(g[n], v), lambda: f"{what}: {n} is {g[n]!r}, given {v!r}")


def check_values(c):
    e = stan.expected(c)
    for si in (True, False):
        what = "SI station" if si else "English station"
        summ, stat, prof = stan.text(c, si)
        sd = Station(si, summ, stat, prof)
        compare(stan.got(sd), e, what)
        req(sd.sample_count() == len(c["prof"]),
            f"{what}: sample count {sd.sample_count()} for "
            f"{len(c['prof'])} rows")
    return c["stat"] is not None


def check_resets(c):
    sd = None
    before = None
    for si, s in c:
        summ, stat, prof = stan.text(s, si)
        if sd is None:
            sd = Station(si, summ, stat, prof)
        else:
            sd.reset(si_unit=si, summ_data=summ, stat_summ=stat,
                     stat_data=list(prof))
        compare(stan.got(sd), stan.expected(s),
                f"{'re' if before else ''}set station ({'SI' if si else 'E'})")
        req(sd.sample_count() == len(s["prof"]), "sample count after reset")
        fresh = stan.got(Station(si, summ, stat, prof))
        req(stan.got(sd) == fresh, "reset station differs from a new one")
        before = s
    return len(c) > 1 and c[0] != c[1]


def check_bad_reset(c):
    """A good reset after a refused one equals a new station."""
    (si, s), (si2, s2), how = c
    sd = Station(si, *stan.text(s, si))
    summ, stat, prof = stan.text(s2, si2)
    bad = {"summ": (summ + " 1.0", stat, prof),
           "stat": (summ, (stat or summ) + " 1.0", prof),
           "prof": (summ, stat, list(prof) + ["1.0 2.0"])}[how]
    try:
        sd.reset(si2, *bad)
    except ValueError:
        pass
    else:
        req(False, f"row with a wrong number of columns ({how}) accepted")
    sd.reset(si2, summ, stat, prof)
    compare(stan.got(sd), stan.expected(s2), "reset after refused reset")
    return True


def check_smooth(c):
    for si in (True, False):
        sv = None
        for rows in c:
            data = [" ".join([stan.num("x", r[0], si),
                              stan.num("u_e", r[1], si),
                              stan.num("du_e", r[2], si)]) for r in rows]
            if sv is None:
                sv = SmoothVel(si, data)
            else:
                sv.reset(si, data)
            req(sv.size() == len(rows), "size of smoothed velocity")
            for n, k in (("x", 0), ("u_e", 1), ("du_e", 2)):
                a = getattr(sv, n)
                req(len(a) == len(rows), f"length of smoothed {n}")
                for v, r in zip(a, rows):
                    req(eq(float(v), r[k]), lambda: f"smoothed {n} is {v!r}, "
                        f"given {r[k]!r} ({'SI' if si else 'English'})")
    return len(c[0]) > 0


row3 = st.tuples(fl(-5.0, 30.0), logf(0.5, 150.0), fl(-60.0, 60.0)).map(list)


def later(r, i):
    return [r[0] + 0.01*i] + r[1:]


one = st.tuples(st.booleans(), stan.station()).map(list)

LAWS = [
    Law("values", stan.station, check_values, 1600, 40000,
        rule="station summary given"),
    Law("resets", lambda: st.lists(one, min_size=2, max_size=5),
        check_resets, 400, 12000, rule="second reset differs from first"),
    Law("refused_reset", lambda: st.tuples(
        one, one, st.sampled_from(["summ", "stat", "prof"])).map(list),
        check_bad_reset, 300, 8000, rule="every case"),
    Law("smooth_velocity", lambda: st.lists(
        grown(st.lists(row3, max_size=8), later), min_size=1, max_size=3),
        check_smooth, 400, 8000, rule="at least one row"),
]
