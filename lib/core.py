"""Shared machinery of the checks: building from /repo's working tree, running worker processes, evidence, verdicts."""
import hashlib, json, os, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HSM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
NCPU = int(os.environ.get("CHECK_JOBS", "8"))

BASE_DEFS = ["-DPLATFORM_POSIX=1", "-DHSM_ENABLE_SAFE_STRUCTURE", "-DHSMBUILD_DEBUGGING"]
LIB_SRC = ["src/*.cpp", "src/os/stl/*.cpp", "src/os/common/*.cpp", "src/os/posix/*.cpp"]      # without the dispatchers of the back ends
BACKENDS = ["HsmEventDispatcher%s.cpp" % b for b in ("Arduino", "FreeRTOS", "GLib", "GLibmm", "Qt", "STD")]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def expand(patterns, root=REPO):
    import glob
    out = []
    for p in patterns:
        g = sorted(glob.glob(os.path.join(root, p)))
        if not g:
            raise BuildError("no source matches " + p)
        out += g
    if patterns and patterns[0] == LIB_SRC[0]:
        out = [o for o in sorted(set(out)) if os.path.basename(o) not in BACKENDS or "src/" + os.path.basename(o) in patterns]
    return out


def tree_hash(paths, extra=()):
    h = hashlib.sha256()
    for e in extra:
        h.update(repr(e).encode())
    for p in sorted(set(paths)):
        if os.path.isdir(p):
            for d, ds, fs in sorted(os.walk(p)):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode())
                    with open(q, "rb") as fh:
                        h.update(fh.read())
        else:
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


def build(name, units, link=(), out=None, cxx="g++", deps=(), ld=None):
    """units: list of (source, flags). Compiles all in parallel, links to build/<name>/<hash>/<name>. Cached on content."""
    key = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "include")] + [u[0] for u in units] + list(deps),
                    [cxx, [(u[0], tuple(u[1])) for u in units], tuple(link)])
    base = os.path.join(BUILD, name)
    d = os.path.join(base, key)
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    if os.path.isdir(base):                      # keep one build per harness
        import shutil
        for old in os.listdir(base):
            shutil.rmtree(os.path.join(base, old), ignore_errors=True)
    os.makedirs(d, exist_ok=True)

    def comp(iu):
        i, (src, flags) = iu
        o = os.path.join(d, "%d_%s.o" % (i, os.path.basename(src)))
        cc = cxx if not src.endswith(".c") else ("gcc" if "g++" in cxx else "clang")
        r = sh([cc] + list(flags) + ["-c", src, "-o", o])
        return o, r
    objs = []
    order = sorted(enumerate(units), key=lambda x: 0 if x[1][0].startswith(VERIF) else 1)   # the big ones first
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for o, r in ex.map(comp, order):
            if r.returncode != 0:
                raise BuildError("compiling %s failed:\n%s" % (o, r.stdout[-3000:]))
            objs.append(o)
    r = sh([ld or cxx] + objs + list(link) + ["-o", exe + ".tmp"])
    if r.returncode != 0:
        raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-3000:]))
    os.rename(exe + ".tmp", exe)
    return exe


def lib_units(flags):
    return [(s, flags + ["-I" + REPO + "/include", "-I" + REPO + "/src"]) for s in expand(LIB_SRC)]


def run_pool(cmds, timeout):
    """cmds: list of argv. Returns list of (argv, rc, stdout). Runs NCPU at a time."""
    def one(c):
        try:
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
            return c, r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            o = e.stdout or b""
            return c, "timeout", o.decode(errors="replace") if isinstance(o, bytes) else o
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, cmds))


class Result:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violation = None
        self.known = []          # (key, text)
        self.assumptions = []
        self.notes = {}

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def violate(self, what, **replay):
        if self.violation is None:
            self.violation = dict(what=what, **replay)


def load_findings():
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' and 'fixed: property=<id> <commit> <text>'"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: "):
                f = l.split(None, 3)
                out[(f[1].split("=", 1)[1], f[2].split("=", 1)[1])] = f[3].strip()
    return out


def finish(res):
    os.makedirs(EVID, exist_ok=True)
    findings = load_findings()
    lines = []
    for key, text in res.known:
        if (res.prop, key) in findings:
            lines.append("KNOWN-FINDING: property=%s %s [%s]" % (res.prop, findings[(res.prop, key)], text[:300]))
        else:
            res.violate("unlisted finding %s: %s" % (key, text), key=key)
    ev = {"property": res.prop, "tier": res.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": res.cov, "wall_s": round(time.time() - res.t0, 2)}
    ev["coverage"].update(res.notes)
    if res.assumptions:
        ev["assumptions"] = res.assumptions
    rp = None
    if res.violation:
        rp = os.path.join(EVID, "replay-%s.json" % res.prop)
        with open(rp, "w") as f:
            json.dump(res.violation, f, indent=1)
        ev["violations"] = 1
    else:
        ev["violations"] = 0
    with open(os.path.join(EVID, res.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    if res.violation:
        print("VIOLATION property=%s replay=%s" % (res.prop, rp))
        print(res.violation["what"][:3000])
        for k in ("machine", "path", "command"):
            if k in res.violation:
                print("  %s: %s" % (k, str(res.violation[k])[:2000]))
        return 1
    print("OK property=%s tier=%s states=%d transitions=%d replayed=%d wall=%.1fs" % (
        res.prop, res.tier, res.cov["states"], res.cov["transitions"], res.cov["traces_validated_against_impl"], ev["wall_s"]))
    return 0


def last_json(out):
    for l in reversed(out.strip().split("\n")):
        if l.startswith("{"):
            try:
                return json.loads(l)
            except ValueError:
                return None
    return None
