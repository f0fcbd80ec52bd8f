"""Property-check engine: generated-input search with shrinking and replay.

A property module defines a list of laws.  A law is a strategy producing a
JSON-serialisable case and a check that raises :class:`Violation` when the code
under test breaks the property for that case.  The engine runs every law with
Hypothesis over several worker processes, shrinks the first failure, writes a
replay file and the evidence file.
"""
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

# another tree is only used while developing the checks
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
SHRINK_S = float(os.environ.get("VERIF_SHRINK_S", "60"))


class Violation(Exception):
    """The code under test broke the property."""


def req(ok, msg):
    """Demand that the property holds."""
    if not ok:
        raise Violation(msg() if callable(msg) else msg)


def raises(fun, msg, kind=ValueError):
    """Demand that the call is refused."""
    try:
        got = fun()
    except kind:
        return
    except Exception as e:  # pylint: disable=broad-except
        raise Violation(f"{msg}: {type(e).__name__}: {e} instead of "
                        f"{kind.__name__}") from e
    raise Violation(f"{msg}: not refused, returned {got!r}")


class CaseTimeout(BaseException):
    """One case took unreasonably long."""


class Skip(Exception):
    """The case is outside of the domain of the property."""


class Law:
    """One executable statement of a property."""

    def __init__(self, name, strategy, check, quick=200, thorough=2000,
                 examples=(), rule=""):
        self.name = name
        self.strategy = strategy        # callable returning a strategy
        self.check = check              # check(case) -> truthy if non-trivial
        self.budget = {"quick": quick, "thorough": thorough}
        self.examples = list(examples)  # explicit cases run first
        self.rule = rule


def ibl_frame(tb):
    """Tell whether the traceback goes through the code under test."""
    return any(f.filename.startswith(REPO + "/ibl/")
               for f in traceback.extract_tb(tb))


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    return o


def dumps(case):
    return json.dumps(jsonable(case), sort_keys=True)


class Failure:
    def __init__(self, law, case, message):
        self.law, self.case, self.message = law, case, message


def run_case(law, case, limit=150):
    """Run one case.

    Returns (status, info): status is "ok" with info whether non-trivial,
    "skip", or "violation" with the message.
    """
    # the case must behave the same when it is replayed from its file
    case = json.loads(dumps(case))

    def on_alarm(signum, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return "ok", bool(law.check(case))
    except Skip:
        return "skip", False
    except Violation as e:
        return "violation", str(e)
    except CaseTimeout:
        return "violation", f"did not finish within {limit} s"
    except Exception as e:  # pylint: disable=broad-except
        # raised by the code under test, or by the check because of what it
        # got from there (the checks do not raise on the unchanged tree)
        last = traceback.extract_tb(e.__traceback__)[-1]
        return "violation", (
            f"{'unexpected' if ibl_frame(e.__traceback__) else 'unusable'}"
            f" result: {type(e).__name__}: {e} (at "
            f"{os.path.basename(last.filename)}:{last.lineno})")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def seed_for(*parts):
    h = hashlib.sha256(":".join(map(str, parts)).encode()).hexdigest()
    return int(h[:12], 16)


def worker(args):
    """Run a share of the examples of one law."""
    prop_id, law_name, tier, seed, shard, n, deadline = args
    import registry
    law = registry.law(prop_id, law_name)
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    stats = {"law": law_name, "evaluations": 0, "skipped": 0,
             "nontrivial": [], "samples": [], "failure": None, "error": None,
             "truncated": False}
    digests = set()
    state = {"failure": None, "shrink_until": None}

    def one(case):
        if state["failure"] is None and time.time() > deadline:
            stats["truncated"] = True
            return
        if (state["shrink_until"] is not None
                and time.time() > state["shrink_until"]):
            return
        status, info = run_case(law, case)
        if state["failure"] is None:
            stats["evaluations"] += 1
            if status == "skip":
                stats["skipped"] += 1
            elif status == "ok" and info:
                d = hashlib.sha1(dumps(case).encode()).hexdigest()[:16]
                if d not in digests:
                    digests.add(d)
                    if len(stats["samples"]) < 2:
                        stats["samples"].append(jsonable(case))
        if status == "violation":
            if state["failure"] is None:
                state["shrink_until"] = time.time() + SHRINK_S
            state["failure"] = (jsonable(case), info)
            raise Violation(info)

    try:
        if shard == 0:
            for case in law.examples:
                try:
                    one(case)
                except Violation:
                    raise
        test = hypothesis.given(law.strategy())(one)
        test = hypothesis.seed(seed_for(seed, prop_id, law_name, shard))(test)
        test = settings(max_examples=n, database=None, deadline=None,
                        print_blob=False, report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck),
                        phases=[Phase.generate, Phase.shrink])(test)
        test()
    except Violation:
        pass
    except BaseException as e:  # pylint: disable=broad-except
        if state["failure"] is None:
            stats["error"] = traceback.format_exc()
    stats["failure"] = state["failure"]
    stats["nontrivial"] = sorted(digests)
    return stats


def known_findings(prop_id):
    """Cases listed as known findings: (law, canonical case, text)."""
    path = os.path.join(VERIF, "known_findings.json")
    with open(path, encoding="utf8") as f:
        data = json.load(f)
    return [k for k in data["known"] if k["property"] == prop_id]


def write_replay(prop_id, failure):
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    law, case, msg = failure
    body = {"property": prop_id, "law": law, "case": case, "message": msg}
    path = os.path.join(VERIF, "evidence", "replay", f"{prop_id}.json")
    with open(path, "w", encoding="utf8") as f:
        json.dump(body, f, indent=1)
    return path


def main(prop_id, tier, seed, budget_s):
    import registry
    t0 = time.time()
    mod = registry.module(prop_id)
    cpus = min(8, os.cpu_count() or 1)
    deadline = t0 + budget_s
    jobs = []
    only = os.environ.get("VERIF_LAW")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    laws = [l for l in mod.LAWS if not only or l.name == only]
    for law in laws:
        n = max(1, int(law.budget[tier]*scale))
        shards = min(cpus, max(1, n//8))
        for s in range(shards):
            jobs.append((prop_id, law.name, tier, seed, s,
                         max(1, (n + shards - 1)//shards), deadline))
    # spread the shards of the laws over the pool
    jobs.sort(key=lambda j: (j[4], j[1]))
    results = []
    if cpus == 1:
        results = [worker(j) for j in jobs]
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(cpus) as pool:
            for r in pool.imap_unordered(worker, jobs, chunksize=1):
                results.append(r)
                if r["failure"] is not None:
                    # let what runs end the search soon
                    pool.terminate()
                    break
    errors = [r for r in results if r["error"]]
    failures = [(r["law"],) + tuple(r["failure"]) for r in results
                if r["failure"]]
    by_law = {}
    for law in laws:
        rs = [r for r in results if r["law"] == law.name]
        digests = set()
        for r in rs:
            digests |= set(r["nontrivial"])
        by_law[law.name] = {
            "evaluations": sum(r["evaluations"] for r in rs),
            "outside_domain": sum(r["skipped"] for r in rs),
            "distinct_nontrivial": len(digests),
            "truncated_by_time": any(r["truncated"] for r in rs),
            "rule": law.rule}
    samples = []
    for law in laws:
        for r in results:
            if r["law"] == law.name and r["samples"]:
                samples.append({"law": law.name, "case": r["samples"][0]})
                break
    evidence = {
        "property": prop_id, "tier": tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(v["evaluations"] for v in by_law.values()),
            "distinct_nontrivial": sum(v["distinct_nontrivial"]
                                       for v in by_law.values()),
            "rule": mod.RULE, "samples": samples, "laws": by_law},
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop_id + ".json"), "w",
              encoding="utf8") as f:
        json.dump(evidence, f, indent=1)
    for name, v in by_law.items():
        print(f"{prop_id} {name}: {v['evaluations']} cases, "
              f"{v['distinct_nontrivial']} distinct non-trivial, "
              f"{v['outside_domain']} outside domain"
              + (" (stopped by time)" if v["truncated_by_time"] else ""))
    if errors:
        for r in errors[:3]:
            print(f"HARNESS ERROR in {prop_id} {r['law']}:\n{r['error']}",
                  file=sys.stderr)
        if not failures:
            return 3
    # report known findings, and anything else as violation
    known = known_findings(prop_id)
    for k in known:
        print(f"KNOWN-FINDING: property={prop_id} {k['what']}")
    failures = [f for f in failures
                if not any(k["law"] == f[0]
                           and registry.matches_known(k, f[1])
                           for k in known)]
    if failures:
        f = min(failures, key=lambda f: len(dumps(f[1])))
        path = write_replay(prop_id, f)
        print(f"law {f[0]}: {f[2]}")
        print(f"case: {dumps(f[1])[:1500]}")
        print(f"VIOLATION property={prop_id} replay={path}")
        return 1
    print(f"{prop_id}: held on everything explored "
          f"({time.time() - t0:.1f} s, seed {seed}, {tier})")
    return 0


def replay(prop_id, path):
    import registry
    with open(path, encoding="utf8") as f:
        body = json.load(f)
    law = registry.law(body["property"], body["law"])
    status, info = run_case(law, body["case"])
    print(f"{body['property']} {body['law']}: {status} {info}")
    if status == "violation":
        print(f"VIOLATION property={body['property']} replay={path}")
        return 1
    return 0
