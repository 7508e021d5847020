#!/usr/bin/env python3
"""Bounded grammar of SCXML documents for S01/S02. Every document is described abstractly; from the description come the XML text
(what scxml2gen reads), the reference machine and the expected diagram (what the document means)."""
import copy, itertools
from xml.sax.saxutils import escape, quoteattr

SHAPES = {   # parents, entry points
    "flat":    ([-1, -1, -1], []),
    "comp":    ([-1, -1, 1, 1], [(1, 2)]),
    "par":     ([-1, -1, 1, 1], [(1, 2), (1, 3)]),
    "nest":    ([-1, -1, 1, 2, 2, 1], [(1, 2), (2, 3)]),
    "two":     ([-1, 0, 0, -1, 3, 3], [(0, 1), (3, 4)]),
    "parnest": ([-1, -1, 1, 2, 2, 1, 5, 5], [(1, 2), (1, 5), (2, 3), (5, 6)]),
}
NAMES = [list("ABCDEFGH"), ["S", "S1", "S_1", "s", "S11", "_S", "SS", "S1_"], ["Off", "On", "Online", "OffOn", "OnOff", "Onl", "Offline", "O"]]
CB_KINDS = ("onentry", "onexit", "invoke")


class Doc:
    def __init__(self, shape, names=0, initial=0):
        par, ents = SHAPES[shape]
        self.title = shape
        self.shape, self.parent, self.n = shape, list(par), len(par)
        self.names = NAMES[names][:self.n]
        self.initial = initial
        self.root_initial = "attr"                  # attr | elem
        self.parallel = {c for c in range(self.n) if sum(1 for p, _ in ents if p == c) > 1}    # composites written as <parallel>
        self.entries = [dict(parent=p, child=c, ev=None, cond=None) for p, c in ents]
        self.estyle = {}                            # composite -> attr | elem
        self.cb = {s: {k: "%s_%s" % (k, s) for k in CB_KINDS} for s in range(self.n)}         # callback name per kind
        self.acts = []                              # (state, 'onentry'|'onexit', kind, args)  in document order
        self.scriptpos = {}                         # (state, where) -> position of the callback's <script> among the actions
        self.fin = {}                               # state -> None | event
        self.hist = []                              # dict(parent, type, default, event, script)
        self.trans = []
        self.extra_events = []                      # events sent although no transition has them
        self.order = 0                              # order of the elements inside of a state
        self.ns = 0
        self.pretty = True
        self.inc = {}                               # composite -> src | wrapped | direct
        self.timers = []

    def kids(self, s):
        return [i for i in range(self.n) if self.parent[i] == s]

    def name(self, s):                              # as in the document it is written in
        return self.names[s] if s < 50 else "H%d" % (s - 50)

    def hparent(self, s):
        return self.hist[s - 50]["parent"] if s >= 50 else self.parent[s]

    def full(self, s):                              # as generated: with the prefix of the documents it is included through
        r, p = self.name(s), self.hparent(s)
        while p >= 0:
            if self.inc.get(p) in ("src", "wrapped"):
                r = self.names[p] + "__" + r
            p = self.parent[p]
        return r

    def region(self, s):                            # the region of a parallel state this state belongs to
        while self.parent[s] >= 0:
            if self.parent[s] in self.parallel:
                return s
            s = self.parent[s]
        return None

    def base(self, script=True):
        """every transition between siblings, every self transition and every way into a sibling's history, on events of their own"""
        for a in range(self.n):
            if a in self.fin:
                continue
            for b in range(self.n):
                if a != b and self.parent[a] == self.parent[b]:
                    self.t(a, b)
            self.t(a, a, type="external"); self.t(a, a, type="internal")
            for h, d in enumerate(self.hist):
                if self.parent[a] == self.parent[d["parent"]]:
                    self.t(a, 50 + h)
        return self

    def t(self, a, b, **kw):
        i = len(self.trans)
        d = dict(src=a, dst=b, ev="E%d" % i, cond=None, script="t%d" % i, type="external", omit=False)
        d.update(kw)
        self.trans.append(d)
        return d

    # ------------------------------------------------------------------ XML
    def xml(self):
        files = {}
        xi = any(v in ("wrapped", "direct") for v in self.inc.values())
        head = ['<scxml xmlns="http://www.w3.org/2005/07/scxml"', "<scxml", '<sc:scxml xmlns:sc="http://www.w3.org/2005/07/scxml"'][self.ns]
        pre = "sc:" if self.ns == 2 else ""

        def tag(n):
            return n if n.startswith("xi:") else pre + n

        def el(n, attrs, children=(), text=None):
            a = "".join(" %s=%s" % (k, quoteattr(v)) for k, v in attrs if v is not None)
            if text is not None:
                return ["<%s%s>%s</%s>" % (tag(n), a, escape(text), tag(n))]
            if not children:
                return ["<%s%s/>" % (tag(n), a)]
            return ["<%s%s>" % (tag(n), a)] + [("  " if self.pretty else "") + l for c in children for l in c] + ["</%s>" % tag(n)]

        def transition(t, own):
            return el("transition", [("type", t["type"]), ("event", t["ev"]), ("target", None if t["omit"] else self.name(t["dst"])), ("cond", t["cond"][2] if t["cond"] else None)],
                      [el("script", [], text=t["script"])] if t["script"] else [])

        def handlers(s, where):
            scripts = [el("script", [], text="%s(%s)" % (k, raw)) for st, w, k, args, raw in self.acts if st == s and w == where]
            name = self.cb[s].get(where)
            if name:
                scripts.insert(self.scriptpos.get((s, where), 0), el("script", [], text=name))
            return [el(where, [], scripts)] if scripts else []

        def initial(p):
            es = [e for e in self.entries if e["parent"] == p]
            plain = len(es) == 1 and not es[0]["ev"] and not es[0]["cond"]
            if not es or p in self.parallel:
                return None, []
            if plain and self.estyle.get(p, "attr") == "attr":
                return self.name(es[0]["child"]), []
            return None, [el("initial", [], [el("transition", [("event", e["ev"]), ("target", self.name(e["child"])), ("cond", e["cond"][2] if e["cond"] else None)]) for e in es])]

        def history(h):
            d = self.hist[h]
            tr = []
            if d["default"] is not None:
                tr = [el("transition", [("event", d["event"]), ("target", self.name(d["default"]))], [el("script", [], text=d["script"])] if d["script"] else [])]
            return el("history", [("id", self.name(50 + h)), ("type", d["type"])], tr)

        def content(p):
            return [state(c) for c in self.kids(p)] + [history(h) for h, d in enumerate(self.hist) if d["parent"] == p]

        def doc(name, kids, init, init_elem=None):
            body = ([init_elem] if init_elem else []) + kids
            lines = [head + (' xmlns:xi="http://www.w3.org/2001/XInclude"' if xi else "") + ' version="1.0"' + (" initial=%s" % quoteattr(init) if init else "") + ">"]
            lines += ["  " + l for c in body for l in c] + ["</%sscxml>" % pre]
            files[name] = ('<?xml version="1.0" encoding="UTF-8"?>\n' if self.pretty else "") + ("\n" if self.pretty else "").join(lines) + "\n"

        def state(s):
            kind = "final" if s in self.fin else "parallel" if s in self.parallel else "state"
            attrs = [("id", self.name(s))]
            if kind == "final":
                attrs.append(("event", self.fin[s]))
            body = []
            how = self.inc.get(s)
            if how in ("src", "wrapped"):
                es = [e for e in self.entries if e["parent"] == s]
                sub = "%s.scxml" % self.name(s)
                doc("sub/" + sub if self.ns else sub, content(s), self.name(es[0]["child"]) if es else None)
                path = ("sub/" if self.ns else "./") + sub
                if how == "src":
                    attrs.append(("src", path)); kids = []
                else:
                    kids = [el("xi:include", [("href", path), ("parse", "xml")])]
                ini = []
            elif how == "direct":                       # the first child stays, the others come from the file
                a, ini = initial(s)
                attrs.append(("initial", a))
                c = content(s)
                sub = "%s.scxml" % self.name(s)
                doc(sub, c[1:], None)
                kids = [c[0], el("xi:include", [("href", "./" + sub), ("parse", "xml")])]
            else:
                a, ini = initial(s)
                attrs.append(("initial", a))
                kids = content(s)
            inv = [el("invoke", [("srcexpr", self.cb[s]["invoke"])])] if self.cb[s].get("invoke") else []
            tr = [transition(t, s) for t in self.trans if t["src"] == s]
            en, ex = handlers(s, "onentry"), handlers(s, "onexit")
            o = [[ini, en, ex, inv, tr, kids], [kids, tr, inv, ex, en, ini], [tr, kids, en, ini, inv, ex]][self.order % 3]
            return el(kind, attrs, [c for g in o for c in g])
        top = [s for s in range(self.n) if self.parent[s] < 0]
        kids = [state(s) for s in top]
        if self.inc.get(-1) == "direct":
            doc("more.scxml", kids[1:], None)
            kids = [kids[0], el("xi:include", [("href", "more.scxml"), ("parse", "xml")])]
        if self.order % 2:
            kids = kids[::-1]
        if self.root_initial == "attr":
            doc("main.scxml", kids, self.name(self.initial))
        else:
            doc("main.scxml", kids, None, el("initial", [], [el("transition", [("target", self.name(self.initial))])]))
        return files

    # ------------------------------------------------------------------ the expected diagram
    def diagram(self):
        """what the state diagram shows: (kind, ...) entries, as a sorted list"""
        out = []
        blk = lambda s: self.full(self.hparent(s)) if self.hparent(s) >= 0 else ""

        def label(t):
            return words("%s %s %s" % (t.get("ev") or "", "[%s is %s]" % (t["cond"][0], "true" if t["cond"][1] else "false") if t.get("cond") else "", "<%s>" % t["script"] if t.get("script") else ""))
        for s in range(self.n):
            if s in self.fin:
                continue
            out.append(("state", blk(s), self.full(s)))
            if not self.kids(s):
                cb = self.cb[s]
                d = [cb["invoke"]] if cb.get("invoke") else []
                for where, head in (("onentry", "<on entry>"), ("onexit", "<on exit>")):
                    acts = [a for a in self.acts if a[0] == s and a[1] == where]
                    if cb.get(where) or acts:
                        d.append(head)
                    d += ["- " + cb[where]] if cb.get(where) else []
                    d += ["- %s %s" % (a[2], a[4]) for a in acts]
                for x in d:
                    out.append(("text", self.full(s), words(x)))
        out.append(("line", "", "[*]", self.full(self.initial), ()))
        for e in self.entries:
            out.append(("line", self.full(e["parent"]), "[*]", self.full(e["child"]), label(e)))
        h = lambda s: "[H*]" if self.hist[s - 50]["type"] == "deep" else "[H]"
        for t in self.trans:
            if t["dst"] >= 50:
                out.append(("line", blk(t["dst"]), self.full(t["src"]), h(t["dst"]), label(t)))
            elif t["dst"] in self.fin:
                out.append(("line", blk(t["dst"]), self.full(t["src"]), "[*]", label(t)))
            else:
                out.append(("line", "*", self.full(t["src"]), self.full(t["dst"]), label(t)))
        for i, x in enumerate(self.hist):
            if x["default"] is not None:
                out.append(("line", blk(50 + i), h(50 + i), self.full(x["default"]), label(dict(ev=x["event"], script=x["script"]))))
        return sorted(out)

    # ------------------------------------------------------------------ meaning
    def events(self):
        ev = []
        for t in self.trans:
            ev.append(t["ev"])
        for e in self.entries:
            if e["ev"]:
                ev.append(e["ev"])
        for f in self.fin.values():
            if f:
                ev.append(f)
        for a in self.acts:
            if a[2] == "transition":
                ev.append(a[3][0])
        ev += ["ON_TIMER_" + t for t in self.all_timers()]
        return list(dict.fromkeys(ev))

    def all_timers(self):
        t = [a[3][0] for a in self.acts if a[2] != "transition"] + [t["ev"][9:] for t in self.trans if t["ev"].startswith("ON_TIMER_")]
        return list(dict.fromkeys(t))

    def cpp(self, k, cls):
        ev = self.events(); tm = self.all_timers()
        eid = {e: i + 1 for i, e in enumerate(ev)}
        conds = sorted({c[0] for c in [t["cond"] for t in self.trans] + [e["cond"] for e in self.entries] if c})
        o = []
        ns = "D%d" % k
        o.append("namespace %s {" % ns)
        o.append("struct I : %sBase {\n  Drv* d; explicit I(Drv* x) : d(x) {}" % cls)
        seen = {}

        def method(name, text):
            if name not in seen:
                seen[name] = text
                o.append("  " + text)
        muted, canon = [], []
        first = {}
        for s in range(self.n):
            for kind, rec in (("onentry", "K_ENTER"), ("onexit", "K_EXIT"), ("invoke", "K_CHANGED")):
                name = self.cb[s].get(kind)
                if not name:
                    muted.append((rec, s)); continue
                if (kind, name) in first:
                    canon.append((rec, s, first[(kind, name)])); continue
                first[(kind, name)] = s
                if kind == "onentry":
                    method(name, "bool %s(const VariantVector_t& a) override { bool r = d->enterRes(%d); d->rec(K_ENTER, %d, d->tagOf(a)); return r; }" % (name, s, s))
                elif kind == "onexit":
                    method(name, "bool %s() override { bool r = d->exitRes(%d); d->rec(K_EXIT, %d, -1); return r; }" % (name, s, s))
                else:
                    method(name, "void %s(const VariantVector_t& a) override { d->rec(K_CHANGED, %d, d->tagOf(a)); }" % (name, s))
        for i, t in enumerate(self.trans):
            if not t["script"]:
                muted.append(("K_TRANS", i)); continue
            if ("t", t["script"]) in first:
                canon.append(("K_TRANS", i, first[("t", t["script"])])); continue
            first[("t", t["script"])] = i
            method(t["script"], "void %s(const VariantVector_t& a) override { d->rec(K_TRANS, %d, d->tagOf(a)); }" % (t["script"], i))
        for h, x in enumerate(self.hist):
            if x["script"]:
                method(x["script"], "void %s(const VariantVector_t& a) override { d->rec(K_HCB, %d, d->tagOf(a)); }" % (x["script"], h))
        for c in conds:
            method(c, "bool %s(const VariantVector_t& a) override { (void)d->tagOf(a); return ((d->maskOf(a) >> %d) & 1) != 0; }" % (c, conds.index(c)))
        o.append("  void onTransitionFailed(const std::list<StateID_t>& l, const EventID_t e, const VariantVector_t& a) override { d->failed(l, e, a); }")
        # names
        o.append("  std::string names() const { std::string r;")
        for s in list(range(self.n)) + [50 + h for h in range(len(self.hist))]:
            o.append('    if (getStateName(%sStates::%s) != "%s") r += " state %s is called <" + getStateName(%sStates::%s) + ">";' % (cls, self.full(s), self.full(s), self.full(s), cls, self.full(s)))
        for e in ev:
            o.append('    if (getEventName(%sEvents::%s) != "%s") r += " event %s is called <" + getEventName(%sEvents::%s) + ">";' % (cls, e, e, e, cls, e))
        o.append("    return r; }")
        o.append("};")
        S = lambda s: "%sStates::%s" % (cls, self.full(s))
        o.append("static GenInfo gen{[](Drv* d) -> HierarchicalStateMachine* { return new I(d); }, {%s}, {%s}, {%s}, {%s}};" % (
            ",".join(S(s) for s in range(self.n)), ",".join(S(50 + h) for h in range(len(self.hist))), ",".join("int(%sTimers::%s)" % (cls, t) for t in tm),
            ",".join("{%d,int(%sEvents::%s)}" % (eid[e], cls, e) for e in ev)))
        nn = lambda x: "NONE" if x is None else str(x)
        o.append("static Mach mach() { Mach m; m.gen = &gen; m.name = %s;" % cstr(self.title))
        o.append("  m.n = %d; m.parent = {%s}; m.initial = %d; m.nConds = %d;" % (self.n, ",".join(map(str, self.parent)), self.initial, len(conds)))
        o.append("  m.fin = {%s};" % ",".join("NONE" if s not in self.fin else "SELFDEF" if self.fin[s] is None else str(eid[self.fin[s]]) for s in range(self.n)))
        for e in self.entries:
            o.append("  m.entries.push_back({%d,%d,%s,%d,%s});" % (e["parent"], e["child"], nn(e["ev"] and eid[e["ev"]]), conds.index(e["cond"][0]) if e["cond"] else -1, "true" if not e["cond"] or e["cond"][1] else "false"))
        for t in self.trans:
            self_ = t["src"] == t["dst"]
            o.append("  m.trans.push_back({%d,%d,%d,%s,%s,%d,%s});" % (t["src"], t["dst"], eid[t["ev"]], "true" if self_ else "false", "true" if self_ and t["type"] == "internal" else "false",
                     conds.index(t["cond"][0]) if t["cond"] else -1, "true" if not t["cond"] or t["cond"][1] else "false"))
        for x in self.hist:
            o.append("  m.hist.push_back({%d,%s,%s,%s});" % (x["parent"], "true" if x["type"] == "deep" else "false", nn(x["default"]), "true" if x["script"] else "false"))
        kinds = ["start_timer", "stop_timer", "restart_timer", "transition"]
        for st, where, kind, args, raw in self.acts:
            a = [eid[args[0]] if kind == "transition" else tm.index(args[0])] + [int(x) for x in args[1:]]
            o.append("  m.acts.push_back({%d,%s,%d,{%s}});" % (st, "true" if where == "onentry" else "false", kinds.index(kind), ",".join(map(str, a))))
        for r, s in muted:
            o.append("  m.muted.insert({%s,%d});" % (r, s))
        for r, s, c in canon:
            o.append("  m.canon[{%s,%d}] = %d;" % (r, s, c))
        used = [eid[e] for e in ev]
        o.append("  m.stepEvents = {%s}; m.focusEvents = m.stepEvents; return m; }" % ",".join(map(str, used)))
        o.append("static Reg reg(%d, mach(), &I::names, {%s});" % (k, ",".join("{%d,%d}" % (i, eid["ON_TIMER_" + t]) for i, t in enumerate(tm))))
        o.append("}")
        return "\n".join(o)


def words(s):
    """a label as its words and brackets; how they are laid out does not matter"""
    import re
    return tuple(re.findall(r"[A-Za-z0-9_]+|[\[\]<>]", s.replace("\\n", " ")))


def plain(w):
    return tuple(x for x in w if x not in "[]<>")


def parse_diagram(text):
    """entries of a PlantUML state diagram as Doc.diagram() lists them; anything else in it is an error"""
    import re
    out, stack, errors = [], [], []
    lines = [l.strip() for l in text.split("\n") if l.strip()]
    if not lines or lines[0] != "@startuml" or lines[-1] != "@enduml":
        errors.append("not enclosed in @startuml/@enduml")
    for l in lines[1:-1]:
        m = re.match(r"^state (\S+)( \{)?$", l)
        if m:
            out.append(("state", stack[-1] if stack else "", m.group(1)))
            if m.group(2):
                stack.append(m.group(1))
            continue
        if l == "}" and stack:
            stack.pop(); continue
        if l == "left to right direction":
            out.append(("l2r",)); continue
        m = re.match(r"^(\[\*\]|\[H\*?\]|\w+) -+> (\[\*\]|\[H\*?\]|\w+)\s*(?::(.*))?$", l)
        if m:
            b = stack[-1] if stack else ""
            a, z = m.group(1), m.group(2)
            out.append(("line", b if "[" in a + z else "*", a, z, words(m.group(3) or "")))
            continue
        m = re.match(r"^(\w+) :(.*)$", l)
        if m:
            if m.group(2).strip():
                out.append(("text", m.group(1), words(m.group(2))))
            continue
        errors.append("line which is not part of a state diagram: " + l)
    if stack:
        errors.append("block of %s is not closed" % stack[-1])
    return out, errors


def compare_diagram(doc, text, l2r):
    """None or what is wrong"""
    got, errors = parse_diagram(text)
    if errors:
        return "; ".join(errors[:3])
    leaves = {doc.full(s) for s in range(doc.n) if not doc.kids(s) and s not in doc.fin}
    if (("l2r",) in got) != l2r:
        return "layout direction is wrong"

    def norm(e):
        return e[:-1] + (plain(e[-1]),) if e[0] == "text" else e
    want = sorted(norm(e) for e in doc.diagram())
    have = sorted(norm(e) for e in got if e[0] == "line" or e[0] == "text" and e[1] in leaves) + sorted({e for e in got if e[0] == "state"})
    finals = {doc.full(s) for s in doc.fin}
    have = [e for e in have if not (e[0] == "text" and e[1] in finals)]
    have.sort()
    if want == have:
        return None
    w, h = list(want), []
    for e in have:
        if e in w:
            w.remove(e)
        else:
            h.append(e)
    return "missing %s; not in the document %s" % (w[:4], h[:4])


def cstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


C = lambda exp, text: ("c0", exp, text)
C1 = lambda exp, text: ("c1", exp, text)
CONDS = [None, C(True, "c0"), C(True, "c0 is true"), C(False, "c0 is false"), C(False, "c0 is  FALSE"), C(True, " c0  is True")]


def documents(tier):
    out = []

    def add(d, title):
        d.title = "%s: %s" % (d.shape, title)
        out.append(d)
    nm = itertools.cycle([0, 1, 2])
    for shape in SHAPES:
        add(Doc(shape).base(), "plain")
        for n in (1, 2):
            add(Doc(shape, n).base(), "names %d" % n)
        for o in range(1, 3):
            d = Doc(shape, next(nm)).base(); d.order = o; add(d, "element order %d" % o)
        for ns in (1, 2):
            d = Doc(shape, next(nm)).base(); d.ns = ns; add(d, "namespace form %d" % ns)
        d = Doc(shape).base(); d.pretty = False; add(d, "no whitespace")
        d = Doc(shape).base(); d.root_initial = "elem"; add(d, "<initial> at the top")
        for i in [s for s in range(Doc(shape).n) if Doc(shape).parent[s] < 0][1:]:
            d = Doc(shape, 0, i).base(); add(d, "initial %s" % d.name(i))
        # which callbacks exist: every subset for every state
        for k in range(8):
            d = Doc(shape, next(nm)).base()
            for s in range(d.n):
                for b, kind in enumerate(CB_KINDS):
                    if ((s + k) % 8) >> b & 1:
                        d.cb[s].pop(kind)
            add(d, "callback subsets %d" % k)
        # every presentation of every transition
        forms = [(c, sc) for c in CONDS for sc in (True, False)]
        for k in range(len(forms)):
            d = Doc(shape, next(nm)).base()
            for i, t in enumerate(d.trans):
                c, sc = forms[(i * 5 + k) % len(forms)]
                t["cond"] = c
                if not sc:
                    t["script"] = None
                if t["src"] == t["dst"] and t["type"] == "external":
                    t["omit"] = (i + k) % 2 == 0
                    if k % 3 == 0:
                        t["type"] = None                 # external is the default
                elif t["src"] != t["dst"] and k % 4 == 1:
                    t["type"] = None
            add(d, "transition forms %d" % k)
        # transitions which share an event, told apart by conditions
        d0 = Doc(shape).base()
        byev = {}
        groups = [[i for i, t in enumerate(d0.trans) if t["src"] == s] for s in range(d0.n)]
        for k in range(4 if tier == "quick" else 10):
            d = Doc(shape, next(nm)).base()
            for g in groups:
                if len(g) >= 2:
                    a, b = d.trans[g[k % len(g)]], d.trans[g[(k + 1 + k // len(g)) % len(g)]]
                    if a is b:
                        continue
                    b["ev"] = a["ev"]
                    a["cond"], b["cond"] = [(C(True, "c0"), C(False, "c0 is false")), (C(True, "c0 is true"), C1(True, "c1")), (None, C(True, "c0")), (C(False, "c0 is false"), C1(False, "c1 is false")), (None, None)][k % 5]
            add(d, "shared events %d" % k)
        # different states which react to the same event: with the same target, with different targets
        for n in (1, 2):
            d = Doc(shape, n).base()
            for tr in d.trans:
                if tr["src"] != tr["dst"]:
                    tr["ev"] = "TO_%s" % tr["dst"]
            add(d, "event per target %d" % n)
            d = Doc(shape, n).base()
            for tr in d.trans:
                sib = [s for s in range(d.n) if d.parent[s] == d.parent[tr["src"]]]
                if tr["src"] != tr["dst"]:
                    tr["ev"] = "STEP%d_%s" % ((sib.index(tr["dst"]) - sib.index(tr["src"])) % len(sib), d.parent[tr["src"]] + 1)
            add(d, "event per step %d" % n)
        # the same callback for several states and transitions (sequential machines only: who calls is not visible)
        if shape in ("flat", "comp"):
            for k in range(3):
                d = Doc(shape).base()
                for s in range(d.n):
                    for kind in CB_KINDS:
                        if (s + k) % 2:
                            d.cb[s][kind] = kind + "_shared"
                for i, t in enumerate(d.trans):
                    if i % 3 != k:
                        t["script"] = "t_shared"
                add(d, "shared callbacks %d" % k)
            d = Doc(shape).base()                          # one function for a state and a transition
            d.cb[0]["invoke"] = "t0_or_state"; d.trans[1]["script"] = "other"
            add(d, "callback names")
        comps = [c for c in range(d0.n) if d0.kids(c)]
        # entry points
        for c in comps:
            kids = d0.kids(c)
            if c not in d0.parallel:
                d = Doc(shape).base(); d.estyle[c] = "elem"; add(d, "<initial> of %s" % d.name(c))
            into = [t["ev"] for t in d0.trans if t["dst"] == c and t["src"] != c] or ["NOEVENT"]
            variants = [("one condition", [(kids[0], None, CONDS[2])]), ("opposite conditions", [(kids[0], None, CONDS[1]), (kids[1], None, CONDS[3])]),
                        ("event", [(kids[0], into[0], None), (kids[1], into[-1], None)]), ("event and condition", [(kids[0], into[0], CONDS[4]), (kids[1], into[0], CONDS[5])]),
                        ("two targets", [(kids[0], None, None), (kids[1], None, None)]), ("unconditional and event", [(kids[0], None, None), (kids[1], into[0], None)]),
                        ("two conditions", [(kids[0], None, CONDS[1]), (kids[1], None, C1(False, "c1 is false"))]), ("unconditional and condition", [(kids[1], None, None), (kids[0], None, CONDS[3])]),
                        ("two events, one target", [(kids[0], into[0], None), (kids[0], into[-1] if into[-1] != into[0] else "OTHER", None)]),
                        ("two conditions, one target", [(kids[0], None, CONDS[1]), (kids[0], None, C1(False, "c1 is false")), (kids[1], into[0], None)])]
            for title, es in variants:
                d = Doc(shape, next(nm)).base()
                d.parallel.discard(c)
                d.entries = [e for e in d.entries if e["parent"] != c] + [dict(parent=c, child=k, ev=e, cond=q) for k, e, q in es]
                add(d, "entry points of %s: %s" % (d.name(c), title))
        # history
        for c in comps:
            kids = d0.kids(c)
            for typ in ("shallow", "deep"):
                for default in (None, kids[0], kids[-1]):
                    for script in ((None,) if default is None else (None, "hist_cb")):
                        for evn in ((None,) if default is None else (None, "HIST_EVENT")):
                            if evn and tier == "quick" and typ == "deep":
                                continue
                            d = Doc(shape, next(nm))
                            d.hist.append(dict(parent=c, type=typ, default=default, event=evn, script=script))
                            d.base()
                            add(d, "%s history of %s, default %s%s%s" % (typ, d.name(c), d.name(default) if default is not None else "none", " with callback" if script else "", " with event" if evn else ""))
            d = Doc(shape)
            d.hist += [dict(parent=c, type="shallow", default=None, event=None, script=None), dict(parent=c, type="deep", default=kids[-1], event=None, script=None)]
            d.base(); add(d, "two histories of %s" % d.name(c))
        # final states
        leaves = [s for s in range(d0.n) if not d0.kids(s) and d0.parent[s] >= 0 and not any(e["child"] == s for e in d0.entries)]
        if shape == "flat":
            leaves = [2]
        for s in leaves:
            if d0.kids(s):
                continue
            outs = [t for t in d0.trans if t["src"] == d0.parent[s]]
            for ev in [None, "FIN_UNUSED"] + ([outs[0]["ev"], outs[-1]["ev"]] if outs else []):
                d = Doc(shape, next(nm)); d.fin[s] = None; d.base()
                out_ev = [t for t in d.trans if t["src"] == d.parent[s]] if d.parent[s] >= 0 else []
                if ev in (None, "FIN_UNUSED"):
                    d.fin[s] = ev
                elif out_ev:
                    d.fin[s] = (out_ev[0] if ev == outs[0]["ev"] else out_ev[-1])["ev"]
                else:
                    continue
                if d.parent[s] < 0 and ev is not None:
                    continue
                add(d, "final %s event %s" % (d.name(s), d.fin[s]))
            d = Doc(shape); d.fin[s] = None; d.base(); d.cb[s] = {}; add(d, "final %s without callbacks" % d.name(s))
        # state actions and timers
        A = [("start_timer", ["T1", 1000, 1], "T1, 1000, true"), ("stop_timer", ["T1"], "T1"), ("restart_timer", ["T1"], "T1"), ("start_timer", ["T2", 20, 0], "T2,20,false"),
             ("transition", ["GO"], "GO"), ("transition", ["GO", 1, 801], "GO, 1, 801"), ("start_timer", ["T1", 5, 0], " T1 , 5 , false "), ("transition", ["GO", 0, 802], "GO,0,802")]
        for k in range(len(A)):
            d = Doc(shape, next(nm)).base()
            for s in range(d.n):
                if s % 3 != k % 3:
                    continue
                for w, where in enumerate(("onentry", "onexit")):
                    for j in range(1 + (s + w) % 3):
                        kind, args, raw = A[(k + j * 3 + w + s) % len(A)]
                        r = d.region(s)                    # nothing orders the requests of different regions
                        if r is not None and kind == "transition":
                            kind, args, raw = A[(k + j + s) % 4]
                        if r is not None:
                            args = [args[0] + "_R%d" % r] + args[1:]; raw = raw.replace("T1", "T1_R%d" % r).replace("T2", "T2_R%d" % r)
                        if kind == "transition" and where == "onexit" and k % 2:
                            continue
                        d.acts.append((s, where, kind, args, raw))
                    d.scriptpos[(s, where)] = (k + w) % 4
                    if (k + s + w) % 3 == 0:
                        d.cb[s].pop(where)
            if any(a[2] == "transition" for a in d.acts):      # GO: internal everywhere, never leaves a state
                for s in range(d.n):
                    if d.parent[s] < 0:
                        d.t(s, s, ev="GO", type="internal", cond=None if k % 2 else CONDS[1])
            add(d, "state actions %d" % k)
        for k, (kind, args, raw) in enumerate(A[:4]):
            d = Doc(shape, next(nm)).base()
            top = [t for t in d.trans if d.parent[t["src"]] < 0]
            top[0]["ev"] = "ON_TIMER_" + args[0]
            if k % 2:
                top[1]["ev"] = "ON_TIMER_OTHER"
            d.acts.append((top[0]["src"], "onentry", kind, args, raw))
            add(d, "timer event %d" % k)
        d = Doc(shape).base(); d.trans[0]["ev"] = "ON_TIMER_CODE"; add(d, "timer without action")
        d = Doc(shape).base(); d.acts.append((0, "onentry", "transition", ["NOWHERE"], "NOWHERE")); add(d, "action with an event of its own")
        # documents in several files
        for c in comps:
            if c in d0.parallel:
                continue
            for how in ("src", "wrapped", "direct"):
                if how == "direct" and len(d0.kids(c)) < 2:
                    continue
                d = Doc(shape, next(nm)).base(); d.inc[c] = how
                if how == "wrapped":
                    d.ns = 0
                add(d, "%s included (%s)" % (d.name(c), how))
            d = Doc(shape); d.hist.append(dict(parent=c, type="shallow", default=None, event=None, script=None)); d.base(); d.inc[c] = "src"
            # the history's name is only known in the other file
            d.trans = [t for t in d.trans if t["dst"] < 50]
            add(d, "%s with history included" % d.name(c))
        d = Doc(shape, next(nm)).base(); d.inc[-1] = "direct"; add(d, "top level included (direct)")
        if shape in ("nest", "two"):
            for hows in itertools.product(("src", "wrapped"), repeat=2):
                d = Doc(shape, next(nm)).base()
                cs = [c for c in comps][:2]
                for c, h in zip(cs, hows):
                    d.inc[c] = h
                add(d, "included: %s" % ",".join("%s %s" % (d.name(c), h) for c, h in zip(cs, hows)))
        if tier != "quick":
            # pairs of features
            for c in comps:
                for typ in ("shallow", "deep"):
                    for k in range(6):
                        d = Doc(shape, next(nm))
                        d.hist.append(dict(parent=c, type=typ, default=d.kids(c)[k % len(d.kids(c))] if k % 3 else None, event=None, script="hist_cb" if k % 3 == 2 else None))
                        d.base()
                        for i, t in enumerate(d.trans):
                            t["cond"] = CONDS[(i + k) % len(CONDS)]
                            if (i + k) % 4 == 0:
                                t["script"] = None
                        d.order = k; d.ns = k % 3
                        add(d, "%s history of %s with conditions %d" % (typ, d.name(c), k))
    return out


if __name__ == "__main__":
    ds = documents("quick")
    print(len(ds), len(documents("thorough")))
    for n, t in ds[37].xml().items():
        print(n); print(t)
