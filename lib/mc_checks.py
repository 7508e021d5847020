"""C-properties: stateless model checking. Every schedule of a bounded program on the real library, up to a preemption bound."""
import json, os, subprocess
from .core import *

MC = os.path.join(VERIF, "mc")
FREERTOS = os.path.join(VERIF, "disp", "freertos")
FREERTOS_SRC = ["src/*.cpp", "src/os/freertos/*.cpp", "src/os/common/*.cpp", "src/HsmEventDispatcherFreeRTOS.cpp"]
MC_SRC = LIB_SRC + ["src/HsmEventDispatcherSTD.cpp"]

# scenario -> bound of the quick tier where it is not 2 (None: thorough only)
QUICK_BOUND = {"c09_pairs": 1, "c09_callback": 1, "c09_expiry_single": 1, "c09_expiry_single_cb": 1, "c09_expiry_periodic": 1, "c09_expiry_periodic_cb": None,
               "c09_expiry_both": None, "c09_expiry_both_cb": None, "c09_possible": 1, "c03_three": 1, "c10_pendingtimer": 1}
THOROUGH_BOUND = 4
THOROUGH_BUDGET = 400        # seconds per scenario; the bound which was completed is reported


def mc_exe(freertos=False):
    flags = ["-std=c++11", "-O1", "-g1", "-w", "-fsanitize=thread"] + BASE_DEFS + ["-I" + REPO + "/include", "-I" + REPO + "/src"]
    src, name, deps = MC_SRC, "mcscen", [MC]
    if freertos:
        flags[flags.index("-DPLATFORM_POSIX=1")] = "-DPLATFORM_FREERTOS=1"
        flags += ["-DMC_FREERTOS", "-I" + FREERTOS]
        src, name, deps = FREERTOS_SRC, "mcfreertos", [MC, FREERTOS]
    units = [(s, flags) for s in expand(src)]
    units.append((MC + "/scen.cpp", flags))
    if freertos:
        units.append((FREERTOS + "/kernel.cpp", ["-std=c++17", "-O2", "-w"]))
    units.append((MC + "/stl.cpp", flags))
    units.append((MC + "/rt.cpp", ["-std=c++17", "-O2", "-w", "-U_FORTIFY_SOURCE", "-fno-exceptions"]))
    return build(name, units, link=["-rdynamic", "-ldl", "-lpthread"], deps=deps)


def run(res):
    exe = mc_exe()
    names = [n for n in subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True).stdout.split() if n.startswith(res.prop.lower() + "_")]
    done = {}
    for n in names:
        if res.tier == "quick":
            b, db, budget = QUICK_BOUND.get(n, 2), 1, 120
            if b is None:
                continue
        else:
            b, db, budget = THOROUGH_BOUND, 2, THOROUGH_BUDGET
        cmd = [exe, "--scenario", n, "--bound", str(b), "--detect-bound", str(min(b, db)), "--budget", str(budget), "--workers", str(NCPU)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        j = last_json(r.stdout)
        if j is None:
            raise RuntimeError("scenario %s gave no answer: %s" % (n, r.stdout[-500:]))
        res.add("states", j["states"]); res.add("transitions", j["transitions"]); res.add("schedules", j["execs"])
        res.add("traces_validated_against_impl", j["execs"])          # every schedule is an execution of the implementation itself
        done[n] = {"bound_completed": j["bound"], "complete": j["complete"], "schedules": j["execs"], "threads": j["threads"], "racy_sites": j["racy"], "longest": j["max_choices"]}
        if len(res.cov["samples"]) < 3 and j.get("sample"):
            res.cov["samples"].append({"scenario": n, "schedule": j["sample"][:1200]})
        v = j["violation"]
        if v:
            res.violate("scenario %s: %s" % (n, v["what"]), scenario=n, racy=v["racy"], choices=v["choices"], schedule=v["schedule"].split("\n")[-400:],
                        command="%s --scenario %s --bound %d --racy %s --replay %s" % (exe, n, v["bound"], v["racy"] or '""', v["choices"] or '""'))
            break
    res.notes["scenarios"] = done
    res.assumptions = ["sequentially consistent memory; every racy access found is a scheduling point",
                       "schedules with more preemptions (forced switches, delays, interrupts, spurious wake-ups together) than the bound are not explored"]
