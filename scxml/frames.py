#!/usr/bin/env python3
"""S03: what hsmdebugger shows for a debug log. The real hsmdebugger.py (its Qt classes replaced by stand-ins) loads every document of the
grammar and log files with every entry the engine can write for it; the diagram of every frame is compared with the document and the entry.
frames.py <tier> <repo> <out> <part> <parts>"""
import sys, os, json, re, types, itertools
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import docs

ACTIVE, BLOCKED = "38EB4B", "EB8421"


class Any:
    """stands for every Qt object which is not judged"""
    def __init__(self, *a, **k): pass
    def __getattr__(self, n): return Any()
    def __call__(self, *a, **k): return Any()
    def __bool__(self): return False
    def __int__(self): return 0


class Index:
    def __init__(self, r, c): self.r, self.c = r, c
    def row(self): return self.r


class ItemModel:
    """rows of the frames' table"""
    def __init__(self): self.rows = []
    def clear(self): self.rows = []
    def setHorizontalHeaderLabels(self, l): pass
    def appendRow(self, r): self.rows.append(r)
    def index(self, r, c, parent=None): return Index(r, c)
    def data(self, i): return self.rows[i.r][i.c]


class Proxy:
    """QSortFilterProxyModel: the rows which the real filterAcceptsRow accepts"""
    def __init__(self): self.src = None
    def setSourceModel(self, m): self.src = m
    def sourceModel(self): return self.src
    def invalidateFilter(self): pass
    def shown(self): return [r for r in range(len(self.src.rows)) if self.filterAcceptsRow(r, None)]
    def index(self, r, c, parent=None): return Index(self.shown()[r], c)
    def data(self, i): return self.src.data(i)


class QObject:
    def __init__(self, *a): pass


def load(repo):
    mods = {}
    for m in ("PySide6", "PySide6.QtCore", "PySide6.QtWidgets", "PySide6.QtGui", "PySide6.QtUiTools"):
        mods[m] = types.ModuleType(m)
        mods[m].__getattr__ = lambda n: type(n, (Any,), {})
    c = mods["PySide6.QtCore"]
    c.QObject, c.QSortFilterProxyModel = QObject, Proxy
    c.Signal = lambda *a: Any()
    c.Slot = lambda *a: (lambda f: f)
    g = mods["PySide6.QtGui"]
    g.QStandardItemModel, g.QStandardItem = ItemModel, (lambda s: s)
    sys.modules.update(mods)
    sys.path.insert(0, os.path.join(repo, "tools/hsmdebugger"))
    import hsmdebugger as H
    return H


class Slider(Any):
    def __init__(self): self.max = self.val = 0
    def setMaximum(self, m): self.max = m
    def setValue(self, v): self.val = v
    def value(self): return self.val


def debugger(H, repo):
    class D(H.hsmdebugger):
        def __init__(self):
            self.threadPlantuml = self.plantuml = self.hsm = self.hsmLog = self.currentScxmlPath = self.currentLogPath = self.currentFrameIndex = None
            self.hsmViewScaleFactor = 1.0
            self.settings = Any(); self.settings.__dict__.update(styleColors={"active_state": ACTIVE, "blocked_transition": BLOCKED}, pathScxml2gen=os.path.join(repo, "tools/scxml2gen/scxml2gen.py"))
            self.window = Any(); self.window.__dict__.update(frameSelector=Slider())
            self.recentFiles = Any(); self.recentFiles.__dict__.update(recentLogFiles=[], addPathToRecentHSMList=lambda p: None, addPathToRecentLogsList=lambda p: None)
            self.statusBarFrame = self.statusBarLog = Any()
            self.signalPlantumlDone = Any()
            ok, msg = self.loadScxml2genModule()
            if not ok:
                raise Exception(msg)
            self.prepareFramesModel()
            self.asked = []

        def createFile(self, path, content):
            self.asked.append((path, content))

        def plantumlGeneratePng(self, src, d):
            if not self.asked or self.asked[-1][0] != src:
                raise Exception("the picture is made from a file which was not written")

        def getDataChecksum(self, data):
            return super().getDataChecksum(data)
    return D()


# ------------------------------------------------------------------ the log and what each entry means
def entries(doc, tier):
    """every entry the engine can write for this document: (log entry, meaning)"""
    out = []
    args = itertools.cycle([None, ["1"], ['"x y"', "true", "-3"]])
    leaves = [s for s in range(doc.n) if not doc.kids(s)]

    def conf(s):                                         # a configuration with s (not a parallel sibling's)
        r = []
        while s >= 0:
            r.append(s)
            s = doc.hparent(s)
        return [doc.full(x) for x in reversed(r)]

    def add(action, frm, to, ev, active, failed=False, a=None, **m):
        m["active"] = active
        out.append((dict(action=action, from_state=doc.full(frm) if frm is not None else "", target_state=doc.full(to) if to is not None else "", event=ev or "", active=active, failed=failed, args=a), m))
    confs = [conf(s) for s in leaves if s not in doc.fin]
    for c in doc.parallel:                               # all regions at once
        confs.append(sorted({x for k in doc.kids(c) for s in leaves if s == k or k in _up(doc, s) for x in conf(s)}))
    for c in confs + [[]]:
        add("idle", None, None, None, c)
    evs = sorted({t["ev"] for t in doc.trans} | {e["ev"] for e in doc.entries if e["ev"]} | {"OTHER"})
    for (src, dst, ev) in sorted({(t["src"], t["dst"], t["ev"]) for t in doc.trans}):
        for a in (None, next(args)):
            add("transition", src, dst, ev, conf(src), a=a, trans=(src, dst, ev))
    for i, h in enumerate(doc.hist):                     # history: to the default target, to the parent, to any remembered state
        for to in {h["parent"], h["default"]} | set(doc.kids(h["parent"])):
            if to is not None:
                add("transition", 50 + i, to, evs[0], conf(h["parent"]), a=next(args), trans=(50 + i, to, None))
    for p, c in sorted({(e["parent"], e["child"]) for e in doc.entries}):
        for ev in evs if any(e["ev"] for e in doc.entries if e["parent"] == p) else evs[:2]:
            if any(e["child"] == c and e["parent"] == p and e["ev"] in (None, ev) for e in doc.entries):
                for a in (None, next(args)):
                    add("transition_entrypoint", p, c, ev, conf(p), a=a, entry=(p, c, ev))
    for s in range(doc.n):
        if doc.cb[s].get("onentry"):
            add("callback_enter", None, s, None, conf(s)[:-1], a=next(args), cb=(s, "onentry"))
            add("callback_enter", None, s, None, conf(s)[:-1], True, a=next(args), cb=(s, "onentry"))
            add("callback_enter", None, s, None, conf(s), a=next(args), cb=(s, "onentry"))
        if doc.cb[s].get("invoke"):
            add("callback_state", None, s, None, conf(s), a=next(args), cb=(s, "invoke"))
        if doc.cb[s].get("onexit"):
            add("callback_exit", s, None, None, conf(s), a=next(args), cb=(s, "onexit"))
            for a in (None, next(args)):
                add("callback_exit", s, None, None, conf(s), True, a=a, cb=(s, "onexit"), blocked=s)
        for where, act in (("onentry", "onenter_actions"), ("onexit", "onexit_actions")):
            if any(a[0] == s and a[1] == where for a in doc.acts):
                add(act, None, s, None, conf(s), acts=(s, where))
    return out


def _up(doc, s):
    r = []
    while doc.hparent(s) >= 0:
        s = doc.hparent(s); r.append(s)
    return r


def log_text(es):
    """as HierarchicalStateMachine writes it (L01)"""
    o = []
    for i, (e, _) in enumerate(es):
        o.append("\n-\n  timestamp: \"2024-01-01 10:00:00.%03d\"\n  active_states:" % (i % 1000))
        o += ["\n    - \"%s\"" % s for s in e["active"]]
        o.append("\n  action: %s\n  from_state: \"%s\"\n  target_state: \"%s\"\n  event: \"%s\"\n  status: %s\n  args:" % (e["action"], e["from_state"], e["target_state"], e["event"], "failed" if e["failed"] else ""))
        o += ["\n    - %s" % a for a in e["args"] or []]
    return "".join(o)


def parse_frame(text):
    """(plain diagram, marked lines, marked texts, coloured states, outlined states, notes)"""
    plain, lines, texts, colour, outline, notes = [], [], [], [], [], []
    src = text.split("\n")
    i = 0
    stack = []
    while i < len(src):
        l = src[i].strip(); i += 1
        if l == "note on link":
            body = []
            while src[i].strip() != "end note":
                body.append(src[i].strip()); i += 1
            i += 1
            notes.append(("link", len(plain) - 1, " ".join(body)))
            continue
        m = re.match(r"^note left of (\S+) : (.*)$", l)
        if m:
            notes.append(("state", m.group(1), m.group(2)))
            continue
        m = re.match(r"^state (\S+) ##\[dotted\]([0-9A-Fa-f]+)$", l)
        if m:
            outline.append(m.group(1)); continue
        m = re.match(r"^state \"\*\*(\S+)\*\*\" as (\S+) #([0-9A-Fa-f]+)$", l)
        if m:
            colour.append((m.group(2), m.group(3)) if m.group(1) == m.group(2) else ("?" + l, m.group(3))); continue
        m = re.match(r"^state (\S+) \{$", l)
        if m:
            stack.append(m.group(1))
        elif l == "}" and stack:
            stack.pop()
        m = re.match(r"^(\S+) -\[#([0-9A-Fa-f]+),bold\]-> (\S+)(.*)$", l)
        if m:
            l = "%s --> %s%s" % (m.group(1), m.group(3), m.group(4).replace("**", ""))
            lines.append((stack[-1] if stack else "", len(plain), l, m.group(2)))
        m = re.match(r"^(\w+) : ?(.*)$", l)
        if m and "**" in m.group(2):
            l = "%s : %s" % (m.group(1), m.group(2).replace("**", ""))
            texts.append((m.group(1), m.group(2).replace("**", "")))
        plain.append(l)
    return plain, lines, texts, colour, outline, notes


def check_frame(doc, e, m, text, plain0):
    plain, lines, texts, colour, outline, notes = parse_frame(text)
    a = [l for l in plain if l]
    b = [l for l in plain0 if l]
    if a != b:
        d = [(x, y) for x, y in itertools.zip_longest(a, b) if x != y]
        return "the frame's diagram is not the document's diagram: %s instead of %s" % d[0]
    leaves = {doc.full(s) for s in range(doc.n) if not doc.kids(s) and s not in doc.fin}
    # active states
    want = sorted((s, BLOCKED if m.get("blocked") is not None and s == doc.full(m["blocked"]) else ACTIVE) for s in m["active"] if s in leaves)
    if sorted(set(colour)) != want or len(colour) != len(want):
        return "coloured states are %s, expected %s" % (colour, want)
    # transitions and entry transitions
    W = []
    lab = lambda t: docs.words("%s %s %s" % (t.get("ev") or "", "[%s is %s]" % (t["cond"][0], "true" if t["cond"][1] else "false") if t.get("cond") else "", "<%s>" % t["script"] if t.get("script") else ""))
    blk = lambda s: doc.full(doc.hparent(s)) if doc.hparent(s) >= 0 else ""
    hn = lambda s: "[H*]" if doc.hist[s - 50]["type"] == "deep" else "[H]"
    if "trans" in m:
        src, dst, ev = m["trans"]
        if src >= 50:
            h = doc.hist[src - 50]
            if h["default"] == dst:
                W.append((blk(src), hn(src), doc.full(dst), lab(dict(ev=h["event"], script=h["script"]))))
        for t in doc.trans:
            if (t["src"], t["dst"], t["ev"]) == (src, dst, ev):
                to = hn(dst) if dst >= 50 else "[*]" if dst in doc.fin else doc.full(dst)
                W.append((blk(dst) if "[" in to else "*", doc.full(src), to, lab(t)))
    if "entry" in m:
        p, c, ev = m["entry"]
        for x in doc.entries:
            if x["parent"] == p and x["child"] == c and x["ev"] in (None, ev):
                W.append((doc.full(p), "[*]", doc.full(c), lab(x)))
    G = []
    for b, _, l, col in lines:
        q = re.match(r"^(\S+) --> (\S+?)(?:\s*:(.*))?$", l)
        G.append((b if "[" in q.group(1) + q.group(2) else "*", q.group(1), q.group(2), docs.words(q.group(3) or "")))
    nm = lambda x: x[:3] + (docs.plain(x[3]),)
    if sorted(map(nm, G)) != sorted(map(nm, W)):
        return "marked transitions are %s, expected %s" % (G, W)
    # the target of a transition is outlined; a self transition's is active anyway
    to, frm = (m["trans"][1], m["trans"][0]) if "trans" in m else (m["entry"][1], None) if "entry" in m else (None, None)
    if to is not None and (to == frm or to >= 50 or to in doc.fin):
        to = None
    if outline != ([doc.full(to)] if to is not None else []):
        return "outlined states are %s, expected %s" % (outline, [doc.full(to)] if to is not None else [])
    # arguments; the callback which vetoed
    val = {"1": 1, '"x y"': "x y", "true": True, "-3": -3}
    av = str([val[x] for x in e["args"]]) if e["args"] else None
    for n in notes:
        if av is None and "Arguments" in n[2] or av is not None and av not in n[2]:
            return "note %s for the arguments %s" % (n, av)
    if av and "trans" in m and m["trans"][1] < 50 or av and "entry" in m:
        if {n[1] for n in notes} != {x[1] for x in lines}:
            return "arguments %s: notes %s, marked transitions %s" % (av, notes, lines)
    elif "cb" in m and doc.full(m["cb"][0]) in leaves and e["active"][-1:] == [doc.full(m["cb"][0])]:
        s = doc.full(m["cb"][0])
        if [n[1] for n in notes] != [s] * (1 if av or e["failed"] else 0) or e["failed"] and not any(doc.cb[m["cb"][0]][m["cb"][1]] in n[2] for n in notes):
            return "notes are %s; arguments %s, %s" % (notes, av, "vetoed" if e["failed"] else "not vetoed")
    elif av is None and notes:
        return "unexpected notes %s" % notes
    # callbacks and actions
    T = set()
    if "cb" in m or "acts" in m:
        s, kind = m.get("cb") or m["acts"]
        if doc.full(s) in leaves:
            f = doc.full(s)
            if kind != "invoke":
                T.add((f, docs.plain(docs.words("<on entry>" if kind == "onentry" else "<on exit>"))))
            if "cb" in m:
                T.add((f, docs.plain(docs.words(doc.cb[s][kind]))))
            else:
                T |= {(f, docs.plain(docs.words("%s %s" % (x[2], x[4])))) for x in doc.acts if x[0] == s and x[1] == kind}
    if {(s, docs.plain(docs.words(t))) for s, t in texts} != T:
        return "marked callbacks and actions are %s, expected %s" % (texts, sorted(T))
    return None


def main(tier, repo, out, part, parts):
    H = load(repo)
    ds = docs.documents(tier)
    os.makedirs(os.path.join(out, "cwd%d" % part), exist_ok=True)
    os.chdir(os.path.join(out, "cwd%d" % part))
    sys.stdout = open(os.devnull, "w")
    frames = nd = nrows = 0
    errors, sample = [], []
    for k in range(part, len(ds), parts):
        doc = ds[k]
        dd = os.path.join(out, "f%d" % k)
        for n, t in doc.xml().items():
            os.makedirs(os.path.dirname(os.path.join(dd, n)), exist_ok=True)
            with open(os.path.join(dd, n), "w") as f:
                f.write(t)
        err = what = None
        nd += 1
        try:
            D = debugger(H, repo)
            if not D.loadScxml(os.path.join(dd, "main.scxml")):
                err = "the document is not loaded"
            else:
                plain0 = parse_frame(D.scxml2gen.generatePlantumlInMemory(D.hsm))[0]
                es = entries(doc, tier)
                with open(os.path.join(dd, "log.hsmlog"), "w") as f:
                    f.write(log_text(es))
                D.loadHsmLog(os.path.join(dd, "log.hsmlog"))
                rows = D.modelFrames.src.rows
                nrows += len(rows)
                if len(rows) != len(es) or D.window.frameSelector.max != len(es) - 1:
                    err = "%d rows, %d frames selectable for %d entries" % (len(rows), D.window.frameSelector.max + 1, len(es))
                for i, (e, m) in enumerate(es):
                    if err:
                        break
                    if rows[i][0] != str(i + 1) or rows[i][2] != e["action"]:
                        err, what = "row %s" % rows[i], e; break
                    n = len(D.asked)
                    if i or D.currentFrameIndex != 0:
                        D.onFrameSelectorUpdated(i) if i % 2 else D.onFrameSelected(Index(i, 0), None)
                        if len(D.asked) != n + 1:
                            err, what = "frame %d is not shown when it is selected" % i, e; break
                    frames += 1
                    err = check_frame(doc, e, m, D.asked[-1][1], plain0)
                    what = e
                # the search: entries whose action (and arguments) contain the filter
                if not err:
                    acts = [e["action"] for e, _ in es]
                    D.modelFrames.enableFilter()
                    for f in ("", "transition", "callback_e", "exit", "idle", "zzz", "transition:x y", "callback:true", ":"):
                        D.onSearchFilterChanged(f)
                        fa, _, fx = f.partition(":")
                        want = [i for i, (e, _) in enumerate(es) if fa in e["action"] and (not fx or fx in rows[i][3])]
                        if D.modelFrames.shown() != want:
                            err = "search for '%s' shows frames %s, expected %s" % (f, D.modelFrames.shown()[:8], want[:8]); what = None
                            break
                    D.modelFrames.disableFilter()
                    if not err and D.modelFrames.shown() != list(range(len(es))):
                        err = "frames are missing when the search is off"
                if k in (7, 200, 400):
                    sample.append("%s: %s" % (doc.title, es[len(es) // 2][0]))
        except BaseException as x:
            import traceback
            err = "%s: %s" % (type(x).__name__, x)
            what = {"trace": traceback.format_exc()[-1500:], "frame": what}
        if err:
            errors.append({"doc": k, "title": doc.title, "error": err, "frame": what, "files": doc.xml()})
    with open(os.path.join(out, "frames_%d.json" % part), "w") as f:
        json.dump({"documents": nd, "frames": frames, "errors": errors, "sample": sample}, f)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]))
