"""Entry point: main.py <property id> [--tier T] [--replay FILE]."""
import argparse
import glob
import os
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.abspath(__file__))
# another tree is only used while developing the checks
REPO = os.environ.get("VERIF_REPO", "/repo")


def bootstrap():
    """Make ibl (from /repo) and hypothesis importable."""
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        # appended: numpy and scipy must come from the environment of /repo
        vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        sys.path.append(vt)
        try:
            import hypothesis  # noqa: F401
        except ImportError:
            sys.path.remove(vt)
            target = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
            for pat in ("hypothesis-*.whl", "sortedcontainers-*.whl",
                        "attrs-*.whl"):
                for w in glob.glob("/opt/veriftools/wheels/" + pat):
                    with zipfile.ZipFile(w) as z:
                        z.extractall(target)
            sys.path.append(target)
            import hypothesis  # noqa: F401
    import numpy
    import ibl
    assert os.path.realpath(ibl.__file__).startswith(REPO + "/"), ibl.__file__
    assert not numpy.__file__.startswith("/opt/veriftools"), numpy.__file__


def run():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    bootstrap()
    import core
    if a.selftest:
        import glob as g
        import registry
        for f in sorted(g.glob(os.path.join(HERE, "props", "c*.py"))):
            registry.module(os.path.basename(f)[:3].upper())
        print("all checks load")
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        return core.replay(a.property, a.replay)
    return core.main(a.property, a.tier, seed,
                     300 if a.tier == "quick" else 780)


if __name__ == "__main__":
    try:
        rc = run()
    except BaseException:  # pylint: disable=broad-except
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
