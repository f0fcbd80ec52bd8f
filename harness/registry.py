"""Finds the module and laws of a property."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def module(prop_id):
    sys.path.insert(0, os.path.join(HERE, "props"))
    names = glob.glob(os.path.join(HERE, "props", prop_id.lower() + "_*.py"))
    if len(names) != 1:
        raise LookupError(f"no check for {prop_id}")
    return importlib.import_module(os.path.basename(names[0])[:-3])


def law(prop_id, name):
    for l in module(prop_id).LAWS:
        if l.name == name:
            return l
    raise LookupError(f"{prop_id} has no law {name}")


def matches_known(known, case):
    """A known finding lists the exact values that identify it."""
    case = json.loads(json.dumps(case))
    return all(case.get(k) == v for k, v in known["match"].items())
