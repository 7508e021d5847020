"""E-properties: explicit-state exploration of bounded machines, every model transition replayed on the real engine."""
import os, json, tempfile, shutil
from .core import *

ACTIVE, FORM, SELECT, CALLS, ORDER, ARGS, FAILED, RESULT, ACTION, QUERY = [1 << i for i in range(10)]
ANY = 1023
ENG = os.path.join(VERIF, "engine")
PARTS = 8

# property -> (families, category mask). A category names what has to disagree between model and code to be this property's alarm.
PLAN = {
    "E01": (["sel", "self", "entry", "veto", "hist", "final"], ACTIVE | FORM),
    "E02": (["sel", "self", "entry"], ANY),
    "E03": (["sel", "self", "entry", "hist", "final"], CALLS | ORDER | ARGS | SELECT),
    "E04": (["veto"], ANY),
    "E05": (["entry"], ANY),
    "E06": (["hist"], ANY),
    "E07": (["final"], ANY),
    "E08": (["self"], ANY),
    "E09": (["action", "actargs"], ANY),
    "E10": (["sel", "veto", "entry", "final", "hist"], FAILED | RESULT),
    "E11": (["poss"], ANY),
    "E12": (["fifo"], ANY),
    "E13": (["clear"], ANY),
    "E14": (["life"], ANY),
    "E15": (["struct"], ANY),
}


def engine_exe(name="engine", defs=None, extra=()):
    defs = BASE_DEFS if defs is None else defs
    flags = ["-std=c++11", "-O2", "-w"] + defs
    hf = ["-std=c++17", "-O2", "-w", "-I" + REPO + "/include"] + list(extra)
    if "-DHSM_ENABLE_SAFE_STRUCTURE" not in defs:
        hf.append("-DENGINE_UNSAFE")
    return build(name, lib_units(flags) + [(ENG + "/main.cpp", hf)], link=["-lpthread"], deps=[ENG])


def absorb(res, argv, rc, out, label=""):
    j = last_json(out)
    if j is None:
        crash = [l for l in out.split("\n") if l.startswith("CRASH")]
        what = crash[-1] if crash else "worker ended with %s: %s" % (rc, out[-500:])
        res.violate(label + "the code crashed, hung or never finished: " + what, command=" ".join(argv))
        return None
    res.add("machines", j["machines"]); res.add("states", j["states"]); res.add("transitions", j["transitions"])
    res.add("traces_validated_against_impl", j["execs"]); res.add("callbacks_compared", j["records"])
    res.add("reference_runs", j["ref_runs"]); res.add("unspecified_skipped", j["skipped"]); res.add("state_cap_hit", j["capped"]); res.add("veto_steps", j["veto_steps"])
    for s in j["samples"]:
        if len(res.cov["samples"]) < 6:
            res.cov["samples"].append(s)
    if j["violation"]:
        v = j["violation"]
        res.violate(label + v["what"], machine=v["machine"], path=v["path"], job=v["job"], command=" ".join(argv) + (" --only %d" % v["job"] if v["job"] >= 0 else ""))
    return j


# families cheap enough to be explored to their full bounds on every change
FULL_IN_QUICK = ("E05", "E07", "E08", "E09", "E11", "E12", "E13", "E14")


def run(res):
    prop, tier = res.prop, res.tier
    if prop in FULL_IN_QUICK:
        tier = "thorough"
    if prop == "E16":
        return run_variants(res)
    fams, cats = PLAN[prop]
    exes = [("", engine_exe())]
    if prop == "E15":
        exes.append(("build without HSM_ENABLE_SAFE_STRUCTURE: ", engine_exe("engine_unsafe", [d for d in BASE_DEFS if "SAFE_STRUCTURE" not in d])))
    cmds, labels = [], []
    for label, exe in exes:
        for f in fams:
            for p in range(PARTS):
                cmds.append([exe, "--family", f, "--tier", tier, "--part", str(p), "--parts", str(PARTS), "--cats", str(cats)])
                labels.append(label)
    known = ""
    for (argv, rc, out), label in zip(run_pool(cmds, 800 if tier == "quick" else 6 * 3600), labels):
        j = absorb(res, argv, rc, out, label)
        if j and j.get("known") and not known:
            known = j["known"]
    if known and prop in ("E01", "E04"):
        res.known.append(("followup-veto", known))
    res.notes["families"] = fams
    res.assumptions = ["bounded machines: the hierarchy shapes and transition sets of engine/families.hpp",
                       "combinations the documentation leaves open are skipped and counted under unspecified_skipped"]


VARIANTS = {
    "nosafe": [d for d in BASE_DEFS if "SAFE_STRUCTURE" not in d],
    "nodebug": [d for d in BASE_DEFS if "HSMBUILD_DEBUGGING" not in d],
    "nothreads": BASE_DEFS + ["-DHSM_DISABLE_THREADSAFETY"],
    "trace_nice": BASE_DEFS + ["-DHSM_LOGGING_MODE_NICE"],
    "trace_verbose": BASE_DEFS + ["-DHSM_LOGGING_MODE_STRICT_VERBOSE"],
    "trace_off": BASE_DEFS + ["-DHSM_LOGGING_MODE_OFF"],
    "trace_debug_off": BASE_DEFS + ["-DHSM_LOGGING_MODE_DEBUG_OFF"],
    "minimal": ["-DPLATFORM_POSIX=1", "-DHSM_DISABLE_THREADSAFETY", "-DHSM_LOGGING_MODE_OFF"],
}


def run_variants(res):
    fams = ["sel", "self", "entry", "hist", "final", "action", "fifo"]
    tmp = tempfile.mkdtemp(prefix="e16_")
    try:
        exes = [("default", engine_exe())]
        for n, d in VARIANTS.items():
            try:
                exes.append((n, engine_exe("engine_" + n, d)))
            except BuildError as e:
                res.violate("the library does not build in configuration %s (%s): %s" % (n, " ".join(d), str(e)[-1500:]), command="build " + n)
                return
        cmds, keys = [], []
        parts = 8
        for n, e in exes:
            for f in fams:
                for p in range(parts):
                    if res.tier == "quick" and n in ("trace_verbose", "trace_nice") and p != len(n + f) % parts:
                        continue                      # tracing configurations are slow: an eighth of the machines
                    o = os.path.join(tmp, "%s.%s.%d" % (n, f, p))
                    cmds.append(["sh", "-c", 'exec "$@" >/dev/null 2>&1', "sh", e, "--family", f, "--tier", res.tier, "--dump", "--part", str(p), "--parts", str(parts), "--out", o])
                    keys.append((n, f, p, o))
        outs = {}
        for (n, f, p, o), (argv, rc, out) in zip(keys, run_pool(cmds, 800 if res.tier == "quick" else 6 * 3600)):
            t = open(o).read().split("\n") if os.path.exists(o) else []
            if rc != 0 or not any(l.startswith("TOTAL") for l in t):
                crash = [l for l in t if l.startswith("CRASH")]
                res.violate("configuration %s: run ended with %s %s" % (n, rc, crash[-1:] or t[-2:-1]), command=" ".join(argv[4:]))
            for l in t:
                k = l.split(" ", 3)
                if len(k) == 4 and k[0].isdigit():
                    outs[n, f, int(k[0])] = k
        for (n, f, i), k in sorted(outs.items()):
            res.add("states", 1); res.add("transitions", int(k[1])); res.add("traces_validated_against_impl", int(k[1]))
            ref = outs.get(("default", f, i))
            if n == "default":
                res.add("machines", 1)
                if len(res.cov["samples"]) < 4:
                    res.cov["samples"].append(k[3])
            elif ref is not None and ref[2] != k[2]:
                e1, e2 = dict(exes)["default"], dict(exes)[n]
                res.violate("configuration %s behaves differently from the default one (%s)" % (n, " ".join(VARIANTS[n])), machine=k[3],
                            command="diff of: %s|%s --family %s --tier %s --dump --only %d" % (e1, e2, f, res.tier, i))
        res.notes["configurations"] = {n: " ".join(d) for n, d in VARIANTS.items()}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
