"""C10 largest cluster and flags: shares the cases of C09"""
import c09
from c09 import *


def cases(seed, tier):
    for c in c09.cases(seed + 5, tier):
        yield c
    for k in range(6):
        yield {"what": "nothing", "kind": "gas", "n": [230, 40][k % 2], "box": "ortho", "seed": seed * 10 + k, "types": 2, "p": 0., "nn": 5,
               "how": "attr", "labels": [1, 2]}


def run(c, ctx):
    c = dict(c)
    if c["what"] == "nothing":
        c["what"] = "random"
    return c09.run(c, ctx, "C10")
