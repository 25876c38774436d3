"""
Collects the PROPS tables of the harness modules (h_*.py).
"""

import importlib
import os


def load():
    here = os.path.dirname(os.path.abspath(__file__))
    out = {}
    for fn in sorted(os.listdir(here)):
        if fn.startswith("h_") and fn.endswith(".py"):
            name = fn[:-3]
            mod = importlib.import_module("harness." + name)
            for pid, spec in mod.PROPS.items():
                spec = dict(spec)
                spec["module"] = name
                out[pid] = spec
    return out
