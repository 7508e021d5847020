"""L01: the debug log. Part 1 (engine): the log of every explored run is compared with its callbacks and with a run without log.
Part 2 (arguments): every short text over an alphabet of characters special to YAML, every argument type; read back with PyYAML as the debugger does."""
import itertools, json, os, shutil, subprocess, tempfile
from .core import *
from . import engine_checks

FAMS = ["sel", "self", "entry", "hist", "final", "veto", "action"]
PARTS = 8
ALPHA = ["a", "0", " ", ":", "-", "#", '"', "'", "\\", "\n", "\r", "\t", "{", "}", "[", "]", ",", "&", "*", "!", "|", ">", "%", "@", "`", "?", "=", "~", "<", "\x01", "\x00", "\x7f",
         "\u00e9", "\u0085", "\u2028", "\ufeff", "\ufffe", "\U0001f600", "\u20ac"]
WORDS = ["null", "Null", "~", "true", "yes", "no", "off", "on", "1", "0x1F", "1e5", "1:30", "0o7", "1_000", ".inf", ".nan", "2001-01-01", "<<", "=", "- a", "a: b", "a:", ": a", "# a", "a # b", "--- ", "---", "...", "%YAML 1.1",
         "  args:", "\n-\n  timestamp: \"x\"", "x\n    - y", "!!python/object:os.system", "&x", "*x", "[1, 2]", "{a: b}", "\"", "'", "\"a", "a\"b", "\\x41", "\\", "\\\"", "'a'", "a\\", " a", "a ", "", "x" * 5000]
BROKEN = ["80", "ff", "c3", "c328", "e282", "eda080", "f0808080", "f4908080", "c080", "e0809f", "61c3", "fe", "f09f98", "e28261"]


def hexs(s):
    return s.encode("utf-8", "surrogatepass").hex()


def cases(tier):
    """pairs (argument as understood by logargs, what PyYAML has to read; None: anything)"""
    out = []
    texts = list(WORDS)
    for n in range(1, 3 if tier == "quick" else 4):
        texts += ["".join(t) for t in itertools.product(ALPHA, repeat=n)]
    for t in texts:
        out.append(("S" + hexs(t), t))
    for t in texts[:2000]:
        if t.isascii():
            out.append(("B" + hexs(t), t))
        out.append(("V%s,%s" % (hexs(t), hexs("b")), (t + ", " if t else "") + "b"))
        out.append(("P%s,%s" % (hexs("a"), hexs(t)), "(a, %s)" % t))
        out.append(("M%s,%s" % (hexs("a"), hexs(t)), "a=[%s]" % t))
        out.append(("L%s,%s" % (hexs("a"), hexs(t)), "a, " + t))
    for b in BROKEN:
        out.append(("S" + b, str)); out.append(("B" + b, str))
    for b in range(256):
        out.append(("B%02x" % b, chr(b) if b < 128 else str))
    for n in (0, 1, -1, 42, -2 ** 63, 2 ** 63 - 1):
        out.append(("I%d" % n, n))
    for n in (0, 2 ** 64 - 1):
        out.append(("U%d" % n, n))
    for n in (-128, 0, 10, 34, 127):
        out.append(("c%d" % n, n))
    for x in (0.0, 1.5, -2.25, 1e10):
        out.append(("D%r" % x, x))
    out += [("T", True), ("F", False), ("N", None)]
    return out


def check_args(res, dirname):
    import yaml
    exe = build("logargs", lib_units(["-std=c++11", "-O2", "-w"] + BASE_DEFS) + [(os.path.join(VERIF, "logargs/main.cpp"), ["-std=c++17", "-O1", "-w", "-I" + REPO + "/include"] + BASE_DEFS)],
                link=["-lpthread"])
    cs = cases(res.tier)
    per, chunks = 40, []
    lines = [cs[i:i + per] for i in range(0, len(cs), per)]
    lines += [cs[i:i + 1] for i in range(0, len(cs), 17)] + [[]]
    size = max(1, len(lines) // 8 + 1)
    chunks = [lines[i:i + size] for i in range(0, len(lines), size)]
    jobs = []
    for n, ch in enumerate(chunks):
        jobs.append([sys.executable, "-B", os.path.join(VERIF, "logargs/readback.py"), exe, os.path.join(dirname, "args%d" % n)])
        with open(os.path.join(dirname, "args%d.json" % n), "w") as f:
            json.dump([[(a, "\0any" if e is str else e) for a, e in l] for l in ch], f)
    for argv, rc, out in run_pool(jobs, 800 if res.tier == "quick" else 6 * 3600):
        j = last_json(out)
        if j is None:
            res.violate("reading the log back ended with %s: %s" % (rc, out[-800:]), command=" ".join(argv))
            continue
        res.add("argument_values", j["values"]); res.add("log_entries_read_with_yaml", j["entries"]); res.add("transitions", j["events"]); res.add("traces_validated_against_impl", j["events"])
        if j["error"]:
            res.violate("debug log: " + j["error"], command=" ".join(argv))


def run(res):
    tmp = tempfile.mkdtemp(prefix="l01_")
    try:
        check_args(res, tmp)
        exe = engine_checks.engine_exe()
        cmds = [[exe, "--family", f, "--tier", res.tier, "--part", str(p), "--parts", str(PARTS), "--log", tmp] for f in FAMS for p in range(PARTS)]
        for argv, rc, out in run_pool(cmds, 800 if res.tier == "quick" else 6 * 3600):
            engine_checks.absorb(res, argv, rc, out)
        res.notes["families"] = FAMS
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
