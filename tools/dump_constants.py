"""Write mc/data/constants.json: a golden, text copy of the tables of the pinned commit.
Run once (by hand) on the pinned tree; the checks only read the JSON file."""
import json
import sys

import numpy as np

sys.path.insert(0, "/repo")
from utide import ut_constants


def conv(x):
    if isinstance(x, dict):
        return {k: conv(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return conv(x.tolist())
    if isinstance(x, list):
        return [conv(v) for v in x]
    if isinstance(x, float) and x != x:
        return None
    return x


json.dump(conv(ut_constants), open("/verif/mc/data/constants.json", "w"), separators=(",", ":"))
