#!/usr/bin/env python3
"""Runs the real scxml2gen (its command line) on every document of the grammar.
gen.py code <tier> <repo> <out>    writes the generated classes and the sources of their drivers (S01)
gen.py diagram <tier> <repo> <out> compares every diagram with its document (S02)"""
import sys, os, json, subprocess, concurrent.futures as cf
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import docs

PER_TU = 12
JOBS = int(os.environ.get("CHECK_JOBS", "8"))


def write(d, files):
    for n, t in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        with open(os.path.join(d, n), "w") as f:
            f.write(t)


def tool(repo, k, args, cwd):
    env = dict(os.environ, PYTHONHASHSEED=str(k % 4), PYTHONDONTWRITEBYTECODE="1")     # nothing may depend on the order of sets
    try:
        r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(repo, "tools/scxml2gen/scxml2gen.py")] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=cwd, timeout=60)
        return (None if r.returncode == 0 else "exit code %d" % r.returncode), r.stdout
    except subprocess.TimeoutExpired:
        return "did not finish within 60 s", ""


def code(tier, repo, out):
    t = os.path.join(repo, "tools/scxml2gen")
    ds = docs.documents(tier)

    def one(k):
        d = ds[k]
        dd = os.path.join(out, "d%d" % k)
        write(dd, d.xml())
        cls = "G%d" % k
        src = "main.scxml" if k % 2 else os.path.join(dd, "main.scxml")
        dest = ["-dest_dir", dd] if k % 3 else ["-dest_hpp", "%s/%sBase.hpp" % (dd, cls), "-dest_cpp", "%s/%sBase.cpp" % (dd, cls)]
        return tool(repo, k, ["-code", "-s", src, "-class_name", cls, "-template_hpp", t + "/template.hpp", "-template_cpp", t + "/template.cpp"] + dest, dd)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, range(len(ds))))
    errors, tu = [], []
    for k, (err, log) in enumerate(res):
        cls = "G%d" % k
        if not err and not (os.path.exists("%s/d%d/%sBase.hpp" % (out, k, cls)) and os.path.exists("%s/d%d/%sBase.cpp" % (out, k, cls))):
            err = "no files were generated"
        if err:
            errors.append({"doc": k, "title": ds[k].title, "error": err, "log": log[-2000:]})
            continue
        with open(os.path.join(out, "one_%d.inc" % k), "w") as f:
            f.write('#include "sx.hpp"\n#include "d%d/%sBase.hpp"\n#include "d%d/%sBase.cpp"\n%s\n' % (k, cls, k, cls, ds[k].cpp(k, cls)))
        tu.append(k)
    files = []
    for i in range(0, len(tu), PER_TU):
        n = "tu_%d.cpp" % (i // PER_TU)
        with open(os.path.join(out, n), "w") as f:
            f.write("".join('#include "one_%d.inc"\n' % k for k in tu[i:i + PER_TU]))
        files.append({"file": n, "docs": tu[i:i + PER_TU]})
    json.dump({"titles": [d.title for d in ds], "errors": errors, "tu": files}, open(os.path.join(out, "index.json"), "w"))


def diagram(tier, repo, out):
    ds = docs.documents(tier)

    def one(k):
        dd = os.path.join(out, "d%d" % k)
        write(dd, ds[k].xml())
        res = []
        for l2r in ([False, True] if k % 5 == 0 else [False]):
            dest = os.path.join(dd, "out%d.plantuml" % l2r)
            err, log = tool(repo, k, ["-plantuml", "-s", os.path.join(dd, "main.scxml"), "-out", dest] + (["-left2right"] if l2r else []), dd)
            if not err:
                with open(dest) as f:
                    err = docs.compare_diagram(ds[k], f.read(), l2r)
            res.append((err, log))
        return res
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, range(len(ds))))
    errors, runs, entries = [], 0, 0
    for k, rs in enumerate(res):
        for err, log in rs:
            runs += 1; entries += len(ds[k].diagram())
            if err:
                errors.append({"doc": k, "title": ds[k].title, "error": err, "log": log[-1000:], "files": ds[k].xml()})
    json.dump({"titles": [d.title for d in ds], "errors": errors, "runs": runs, "entries": entries, "sample": ["%s: %s" % (ds[k].title, ds[k].diagram()[-3:]) for k in (7, 200, 400)]}, open(os.path.join(out, "index.json"), "w"))


if __name__ == "__main__":
    {"code": code, "diagram": diagram}[sys.argv[1]](sys.argv[2], sys.argv[3], sys.argv[4])
