"""D-properties: every dispatcher driven through all bounded histories of calls, loop iterations and time steps, and through all
interleavings (up to a preemption bound) with a second thread. Real library code, real GLib / glibmm / Qt main loops, virtual time."""
import json, os, re, subprocess
from .core import *

MC = os.path.join(VERIF, "mc")
DISP = os.path.join(VERIF, "disp")
BACK = {"glib": ("GLib", "glib-2.0"), "glibmm": ("GLibmm", "glibmm-2.4"), "qt": ("Qt", "Qt5Core"), "arduino": ("Arduino", None), "std": ("STD", None), "freertos": ("FreeRTOS", None)}

# (tier, property) -> list of (scenario prefix, back ends, preemption bound, seconds per scenario)
OTHERS = ("glib", "glibmm", "qt", "arduino")
ALL = OTHERS + ("std",)
PLAN = {
    ("quick", "D01"): [("d01_seq3", ALL, 0, 120), ("d01_burst", ALL, 0, 60), ("d01_conc", OTHERS, 3, 100)],
    ("quick", "D02"): [("d02_seq4", OTHERS, 0, 120), ("d02_seq3", ("std",), 0, 120), ("d02_conc", OTHERS, 3, 100)],
    ("quick", "D03"): [("d01_seq3", ("freertos",), 0, 120), ("d02_seq3", ("freertos",), 0, 120), ("d01_conc", ("freertos",), 2, 100), ("d02_conc", ("freertos",), 2, 100)],
    ("thorough", "D03"): [("d01_seq4", ("freertos",), 0, 900), ("d02_seq4", ("freertos",), 0, 900), ("d01_conc", ("freertos",), 3, 900), ("d02_conc", ("freertos",), 3, 900)],
    ("thorough", "D01"): [("d01_seq5", OTHERS, 0, 900), ("d01_seq4", ("std",), 0, 900), ("d01_burst", ALL, 0, 60), ("d01_conc", OTHERS, 5, 900)],
    ("thorough", "D02"): [("d02_seq6", OTHERS, 0, 1200), ("d02_seq4", ("std",), 0, 900), ("d02_conc", OTHERS, 5, 900)],
}
# D03 also runs the programs of C01-C10 on the FreeRTOS port; these are too long for the quick tier
LONG = ("c01_3x1", "c01_4x1", "c02_wakeup", "c03_results", "c03_three", "c04_two_waiters", "c06_bursts", "c09_", "c10_sync")
SHORT = ("c09_register", "c09_unreg", "c09_flag")


def pkg(what, name):
    r = subprocess.run(["pkg-config", what, name], stdout=subprocess.PIPE, text=True)
    if r.returncode:
        raise BuildError("pkg-config does not know " + name)
    return r.stdout.split()


def disp_exe(b):
    cls, lib = BACK[b]
    inc = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + DISP + "/stub"]
    flags = ["-std=c++11", "-O1", "-g1", "-w", "-fPIC", "-fsanitize=thread"] + BASE_DEFS + inc
    src = LIB_SRC
    if b == "freertos":
        flags = flags[:]
        flags[flags.index("-DPLATFORM_POSIX=1")] = "-DPLATFORM_FREERTOS=1"
        flags += ["-I" + DISP + "/freertos"]
        src = ["src/*.cpp", "src/os/freertos/*.cpp", "src/os/common/*.cpp"]
    units = [(s, flags) for s in expand(src)]
    ext = pkg("--cflags", lib) if lib else []
    units.append((os.path.join(REPO, "src", "HsmEventDispatcher%s.cpp" % cls), flags + ext))
    units.append((os.path.join(DISP, b + ".cpp"), flags + ext))
    units.append((MC + "/rt.cpp", ["-std=c++17", "-O2", "-w", "-fPIC", "-U_FORTIFY_SOURCE", "-fno-exceptions"]))
    if b == "freertos":
        units.append((DISP + "/freertos/kernel.cpp", ["-std=c++17", "-O2", "-w", "-fPIC"]))
    if b == "qt":
        d = os.path.join(BUILD, "moc"); os.makedirs(d, exist_ok=True)
        moc = os.path.join(d, "moc_qt.cpp")
        r = sh(["moc", REPO + "/include/hsmcpp/HsmEventDispatcherQt.hpp", "-o", moc])
        if r.returncode:
            raise BuildError("moc failed: " + r.stdout)
        units.append((moc, flags + ext + ["-I" + REPO + "/include/hsmcpp"]))
    return build("disp_" + b, units, link=["-rdynamic"] + (pkg("--libs", lib) if lib else []) + ["-ldl", "-lpthread"], deps=[MC, DISP])


def run(res):
    plan = PLAN[(res.tier, res.prop)]
    exes = {b: disp_exe(b) for b in BACK if any(b in x[1] for x in plan)}
    jobs = []
    for prefix, backs, bound, budget in plan:
        for b in backs:
            names = subprocess.run([exes[b], "--list"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.split()
            for n in names:
                if n == prefix or n.startswith(prefix + "_"):
                    jobs.append((b, n, bound, budget))
    if res.prop == "D03":
        from .mc_checks import mc_exe
        exes["freertos programs"] = x = mc_exe(True)
        quick = res.tier == "quick"
        for n in subprocess.run([x, "--list"], stdout=subprocess.PIPE, text=True).stdout.split():
            if not quick or n in SHORT or not n.startswith(LONG):
                jobs.append(("freertos programs", n, 1 if quick else 2, 100 if quick else 600))
    jobs.sort(key=lambda j: -j[2])                                # the long ones first
    cmds = [[exes[b], "--scenario", n, "--bound", str(k), "--detect-bound", str(0 if n.startswith("d02_conc") and b == "freertos" else min(k, 1)), "--budget", str(t), "--workers", "1"] for b, n, k, t in jobs]
    done = {}
    for (b, n, k, t), (c, rc, out) in zip(jobs, run_pool(cmds, max(j[3] for j in jobs) * 3 + 60)):
        j = last_json(out)
        if j is None:
            res.violate("%s dispatcher, %s: the program did not come to an end (%s): %s" % (b, n, rc, out[-600:]), command=" ".join(c))
            continue
        res.add("states", j["states"]); res.add("transitions", j["transitions"]); res.add("histories", j["execs"])
        res.add("traces_validated_against_impl", j["execs"])
        g = done.setdefault("%s %s" % (b, re.sub(r"_\d+n?$", "", n) if n[0] == "d" else n), {"programs": 0, "bound": k, "histories": 0, "incomplete": 0})
        g["programs"] += 1; g["histories"] += j["execs"]; g["incomplete"] += 0 if j["complete"] else 1
        if len(res.cov["samples"]) < 4 and j.get("sample") and b not in [s["dispatcher"] for s in res.cov["samples"]]:
            res.cov["samples"].append({"dispatcher": b, "program": n, "schedule": j["sample"][:900]})
        v = j["violation"]
        if v:
            res.violate("%s dispatcher, %s: %s" % (b, n, v["what"]), backend=b, scenario=n, racy=v["racy"], choices=v["choices"], schedule=v["schedule"].split("\n")[-300:],
                        command="%s --scenario %s --bound %d --racy %s --replay %s" % (exes[b], n, v["bound"], v["racy"] or '""', v["choices"] or '""'))
    res.notes["programs"] = done
    if res.prop == "D03":
        res.assumptions = ["sequentially consistent memory, one core, tasks of equal priority which can be preempted outside of critical sections",
                           "the FreeRTOS kernel is a stand-in which behaves as the kernel's documentation says (notifications, semaphores, timer service task with its command queue); every kernel call is atomic"]
        return
    res.assumptions = ["sequentially consistent memory", "the interior of GLib, glibmm and Qt runs atomically between the calls of the dispatcher (only the library's own code is a source of scheduling points)",
                       "the Arduino dispatcher runs on a stub of Arduino.h (millis())", "timers are not used from inside a timer handler (the dispatcher does not allow it), only from the callbacks it causes"]
