""" ids and bounds of the registered checks, without running anything """

import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def ids():
    out = subprocess.check_output(
        [sys.executable, os.path.join(HERE, "run.py"), "list", "--json"])
    return json.loads(out)
