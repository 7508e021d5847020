"""V-properties: Variant driven through all bounded operation sequences, conversions and comparisons next to a reference value model."""
import os
from .core import *

SRC = os.path.join(VERIF, "variant")
# (tier, property) -> list of (mode, size, shards)
PLAN = {
    ("quick", "V01"): [("seq", 2, 16)],
    ("quick", "V02"): [("conv", 2, 16)],
    ("quick", "V03"): [("cmp", 2, 16)],
    ("thorough", "V01"): [("seq", 3, 64)],
    ("thorough", "V02"): [("conv", 3, 64)],
    ("thorough", "V03"): [("cmp", 3, 64)],
}


def run(res):
    flags = ["-std=c++11", "-O1", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I" + REPO + "/include", "-I" + REPO + "/src"] + BASE_DEFS
    exe = build("variant", [(SRC + "/var.cpp", flags), (REPO + "/src/variant.cpp", flags)], link=["-fsanitize=address,undefined"], deps=[SRC])
    plan = PLAN[(res.tier, res.prop)]
    cmds = [[exe, m, str(n), str(s), str(k)] for m, n, k in plan for s in range(k)]
    for c, rc, out in run_pool(cmds, 780 if res.tier == "quick" else 7200):
        j = last_json(out)
        if j is None or (rc != 0 and not j["violation"]):
            res.violate("%s: the program did not come to an end (%s): %s" % (" ".join(c[1:3]), rc, out[-1500:]), command=" ".join(c))
            continue
        res.add("states", j["states"]); res.add("transitions", j["transitions"]); res.add("traces_validated_against_impl", j["runs"])
        if j["sample"] and len(res.cov["samples"]) < 3:
            res.cov["samples"].append(j["sample"])
        if j["violation"]:
            res.violate(j["violation"], output=out[-3000:], command=" ".join(c))
    res.notes["enumeration"] = [{"mode": m, "size": n, "shards": k} for m, n, k in plan]
    res.assumptions = ["NaN, doubles closer than the comparison precision, integers beyond 2^53 compared with doubles, and doubles out of the range of the target integer are not judged",
                       "allocation does not fail"]
