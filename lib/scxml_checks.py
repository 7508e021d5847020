"""S-properties: the real scxml2gen is run on every document of a bounded grammar. S01: the generated classes are compiled and explored
next to the reference machine of their document. S02: the diagrams are compared with their document. S03: so are the debugger's frames of every log entry."""
import json, os, shutil, sys
from .core import *

SX = os.path.join(VERIF, "scxml")
ENG = os.path.join(VERIF, "engine")
DEPTH = {"quick": 2, "thorough": 3}


def generate(res, what, out):
    r = sh([sys.executable, os.path.join(SX, "gen.py"), what, res.tier, REPO, out], timeout=3600)
    if r.returncode != 0:
        raise BuildError("gen.py: " + r.stdout[-2000:])
    return json.load(open(os.path.join(out, "index.json")))


def run(res):
    out = os.path.join(BUILD, "scxml_%s_%s" % (res.prop, res.tier))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    try:
        {"S01": s01, "S02": s02, "S03": s03}[res.prop](res, out)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def s02(res, out):
    j = generate(res, "diagram", out)
    res.add("states", len(j["titles"])); res.add("transitions", j["entries"]); res.add("traces_validated_against_impl", j["runs"])
    res.cov["samples"] += j["sample"]
    res.notes["documents"] = len(j["titles"])
    res.assumptions = ["documents of scxml/docs.py; layout, colours and order of the lines are not judged"]
    for e in j["errors"]:
        res.violate("diagram of document %d (%s): %s" % (e["doc"], e["title"], e["error"]), log=e["log"], files=e["files"], failing=[x["title"] for x in j["errors"]])


def s03(res, out):
    parts = 16
    r = run_pool([[sys.executable, "-W", "ignore", os.path.join(SX, "frames.py"), res.tier, REPO, out, str(p), str(parts)] for p in range(parts)], 800 if res.tier == "quick" else 3 * 3600)
    for p, (c, rc, o) in enumerate(r):
        f = os.path.join(out, "frames_%d.json" % p)
        if rc != 0 or not os.path.exists(f):
            raise BuildError("%s: exit code %s: %s" % (" ".join(c), rc, o[-2000:]))
        j = json.load(open(f))
        res.add("states", j["frames"]); res.add("transitions", j["frames"]); res.add("traces_validated_against_impl", j["documents"])
        res.cov["samples"] += j["sample"]
        for e in j["errors"]:
            res.violate("frame of document %d (%s): %s" % (e["doc"], e["title"], e["error"]), frame=e["frame"], files=e["files"])
    res.assumptions = ["documents of scxml/docs.py; log entries as the engine writes them (L01)", "the Qt classes are replaced by stand-ins; layout and drawing are not judged"]


def s01(res, out):
    j = generate(res, "code", out)
    res.notes["documents"] = len(j["titles"])
    for e in j["errors"]:
        res.violate("scxml2gen fails for document %d (%s): %s" % (e["doc"], e["title"], e["error"]), log=e["log"], failing=[x["title"] for x in j["errors"]])
    inc = ["-I" + REPO + "/include", "-I" + SX, "-I" + out]
    flags = ["-std=c++17", "-O0", "-w"] + inc + BASE_DEFS
    objs = []

    def comp(src, fl=flags, cxx="g++"):
        o = os.path.join(out, os.path.basename(src) + ".o")
        r = sh([cxx] + fl + ["-c", src, "-o", o])
        return o, r
    units = [(os.path.join(out, t["file"]), flags, t["docs"]) for t in j["tu"]]
    units.append((SX + "/sx.cpp", ["-std=c++17", "-O1", "-w"] + inc + BASE_DEFS, None))
    units += [(s, f, None) for s, f in lib_units(["-std=c++11", "-O1", "-w"] + BASE_DEFS)]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        done = list(ex.map(lambda u: comp(u[0], u[1]), units))
    for (src, _, ds), (o, r) in zip(units, done):
        if r.returncode == 0:
            objs.append(o)
            continue
        if ds is None:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-3000:]))
        for k in ds:                                 # which document is it
            p = os.path.join(out, "single_%d.cpp" % k)
            with open(p, "w") as f:
                f.write('#include "one_%d.inc"\n' % k)
            o, r1 = comp(p)
            if r1.returncode == 0:
                objs.append(o)
            else:
                res.violate("generated class of document %d (%s) does not compile or lacks something the document defines: %s" % (k, j["titles"][k], r1.stdout[:1500]), output=r1.stdout[:4000])
    exe = os.path.join(out, "sx")
    r = sh(["g++"] + objs + ["-lpthread", "-o", exe])
    if r.returncode != 0:
        raise BuildError("linking failed:\n" + r.stdout[-3000:])
    parts = 16
    for c, rc, o in run_pool([[exe, str(p), str(parts), str(DEPTH[res.tier])] for p in range(parts)], 800 if res.tier == "quick" else 6 * 3600):
        q = last_json(o)
        if q is None:
            crash = [l for l in o.split("\n") if l.startswith("CRASH")]
            res.violate("generated class crashed, hung or never finished: " + (crash[-1] if crash else "%s %s" % (rc, o[-800:])), command=" ".join(c))
            continue
        for k in ("machines", "states", "transitions"):
            res.add(k, q[k])
        res.add("traces_validated_against_impl", q["execs"]); res.add("callbacks_compared", q["records"]); res.add("unspecified_skipped", q["skipped"]); res.add("veto_steps", q["veto_steps"])
        if q["sample"] and len(res.cov["samples"]) < 4:
            res.cov["samples"].append(q["sample"])
        if q["violation"]:
            v = q["violation"]
            res.violate("document %d (%s): %s" % (v["doc"], j["titles"][v["doc"]], v["what"]), machine=v["machine"], path=v["path"], document=v["doc"], command=" ".join(c))
    res.notes["depth"] = DEPTH[res.tier]
    res.assumptions = ["documents of scxml/docs.py", "requests and events of different parallel regions come in no particular order", "the reference machine of the engine checks"]
