// Explicit-state exploration: reference model x real code, every transition replayed on the real code.
#pragma once
#include "ref.hpp"
#include "impl.hpp"
#include <functional>

enum Cat { C_ACTIVE = 1, C_FORM = 2, C_SELECT = 4, C_CALLS = 8, C_ORDER = 16, C_ARGS = 32, C_FAILED = 64, C_RESULT = 128, C_ACTION = 256, C_QUERY = 512, C_ANY = 1023 };

struct Stats {
    long machines = 0, states = 0, transitions = 0, execs = 0, skipped = 0, vetoSteps = 0, records = 0, capped = 0, knownHits = 0, refRuns = 0;
};
struct Opts {
    int maxVetoes = 0;          // vetoes per step on focus events
    bool vetoBase = false;      // also on non-focus events
    int contDepth = 1;          // how deep to continue after a focus/veto step before merging with visited states
    int maxDepth = 12;
    size_t maxNodes = 60000;
    int maxBurst = 1;
    bool queries = false, pendingQueries = false;
    bool fuVeto = false;        // explore vetoes in follow-up steps as known-finding probes
    int catMask = C_ANY;
    bool tagFocus = true;       // a focus step without veto also counts as disturbance
};
struct Violation { std::string mach, what, detail; std::vector<std::string> path; bool set = false; };

inline bool dependent(const Mach& m, const Rec& a, const Rec& b) {
    if (a.k == K_FAILED || b.k == K_FAILED || a.k == K_BAD || b.k == K_BAD) return true;
    if (a.b >= 0 && b.b >= 0 && a.b != b.b) return true;            // different events never interleave
    auto states = [&](const Rec& r, int* o) {
        switch (r.k) {
            case K_TRANS: { auto& t = m.trans[r.a]; o[0] = t.from; o[1] = t.to >= HBASE ? m.hist[t.to - HBASE].parent : t.to; return 2; }
            case K_HCB: o[0] = m.hist[r.a].def != NONE ? m.hist[r.a].def : m.hist[r.a].parent; return -1;
            case K_TSTART: case K_TSTOP: case K_TRESTART: return 0;
            default: o[0] = r.a; return 1;
        }
    };
    int sa[2], sb[2];
    int na = states(a, sa), nb = states(b, sb);
    if (na == 0 || nb == 0) {                                       // requests for one timer keep their order
        auto timer = [](const Rec& r) { return r.k == K_TSTART ? r.c / 10000 : r.c; };
        return na == nb && timer(a) == timer(b);
    }
    bool ha = na < 0, hb = nb < 0;
    if (ha) na = 1;
    if (hb) nb = 1;
    for (int i = 0; i < na; ++i) for (int j = 0; j < nb; ++j) {
        if (ha || hb) {  // the default-history callback: after leaving the source, before its target is entered
            if (sa[i] == sb[j] || (ha && m.isSub(sa[i], sb[j])) || (hb && m.isSub(sb[j], sa[i]))) return true;
            if (a.k == K_TRANS || b.k == K_TRANS) { if (m.related(sa[i], sb[j])) return true; }
        } else if (m.related(sa[i], sb[j])) return true;
    }
    return false;
}
// equal up to swapping independent records
inline bool sameUpToCommutation(const Mach& m, const Trace& x, const Trace& y) {
    if (x == y) return true;
    if (x.size() != y.size()) return false;
    // greedy: match y[i] against the first remaining equal record of x that is independent of everything remaining before it
    std::vector<Rec> rest = x;
    for (auto& r : y) {
        size_t i = 0;
        for (; i < rest.size(); ++i) {
            if (rest[i] == r) break;
            if (dependent(m, rest[i], r)) return false;
        }
        if (i == rest.size()) return false;
        rest.erase(rest.begin() + i);
    }
    return true;
}

struct Explorer {
    const Opts& opt;
    Stats& st;
    Violation& viol;
    std::function<void(const Mach&, const std::vector<Step>*, const Step*)> progress;
    std::vector<std::string>* samples = nullptr;
    bool fuKnown = false;
    std::string fuExample;

    struct Node { std::vector<Step> path; RefState rs; long tag; int cont; };

    Explorer(const Opts& o, Stats& s, Violation& v) : opt(o), st(s), viol(v) {}

    int classify(const Mach& m, const Outcome& i, const Outcome& r, const Step& s, std::string& why) {
        int c = 0;
        if (i.active != r.active) { c |= C_ACTIVE; why += "active states " + setStr(i.active) + ", expected " + setStr(r.active) + "; "; }
        if (s.sync && s.burst.size() == 1 && i.result != r.result) { c |= C_RESULT; why += std::string("synchronous result ") + (i.result ? "true" : "false") + ", expected " + (r.result ? "true" : "false") + "; "; }
        if (s.query != NONE && s.burst.size() == 1 && s.sync && i.query != r.query) { c |= C_QUERY; why += std::string("isTransitionPossible ") + (i.query ? "true" : "false") + ", expected " + (r.query ? "true" : "false") + "; "; }
        if (s.query != NONE && !s.sync && i.query && !couldEver(m, s.query, s.qmask)) { c |= C_QUERY; why += "isTransitionPossible true (events pending) for an event which no transition of the machine accepts; "; }
        if (s.query != NONE && !s.sync && r.ahead >= 0 && i.query != (r.ahead == 1)) { c |= C_QUERY; why += std::string("isTransitionPossible (events pending) ") + (i.query ? "true" : "false") + ", expected " + (r.ahead ? "true" : "false") + " in the state where these events lead; "; }
        if (!sameUpToCommutation(m, i.trace, r.trace)) {
            auto pick = [&](const Trace& t, std::function<bool(const Rec&)> f, bool args) {
                std::multiset<Rec> o; for (auto& x : t) if (f(x)) { Rec y = x; if (!args) y.b = 0; o.insert(y); } return o; };
            auto cls = [](const Rec& x) { return x.k == K_FAILED ? 2 : x.k == K_TRANS ? 1 : (x.k == K_TSTART || x.k == K_TSTOP || x.k == K_TRESTART) ? 3 : 0; };
            int before = c;
            for (int g = 0; g < 4; ++g) {
                auto f = [&](const Rec& x) { return cls(x) == g; };
                if (pick(i.trace, f, false) != pick(r.trace, f, false)) c |= g == 0 ? C_CALLS : g == 1 ? C_SELECT : g == 2 ? C_FAILED : C_ACTION;
                else if (pick(i.trace, f, true) != pick(r.trace, f, true)) c |= g == 2 ? C_FAILED : C_ARGS;
            }
            if (c == before) c |= C_ORDER;
            why += "callbacks [" + traceStr(i.trace) + "], expected [" + traceStr(r.trace) + "]; ";
        }
        return c;
    }
    static bool couldEver(const Mach& m, int ev, int mask) {
        for (auto& t : m.trans) if (t.ev == ev && (t.cond < 0 || (((mask >> t.cond) & 1) != 0) == t.exp)) return true;
        return false;
    }
    void report(const Mach& m, const std::vector<Step>& path, const Step* last, const std::string& what) {
        if (viol.set) return;
        viol.set = true; viol.mach = m.describe(); viol.what = what;
        for (auto& p : path) viol.path.push_back(p.str());
        if (last) viol.path.push_back(last->str());
    }
    static constexpr int TAGSTEP = 10;
    void replay(Drv& d, const std::vector<Step>& path) {
        Outcome o;
        d.startup(o);
        int t = 0;
        for (auto& s : path) { Outcome x; d.step(s, 10 + TAGSTEP * t++, x); }
    }
    // evaluates one step from a node; true = matched (ns/trace valid)
    bool eval(const Mach& m, const Node& n, const Step& s, RefState& ns, Trace& tr, std::vector<char>& fu, bool& skipped) {
        skipped = false;
        if (progress) progress(m, &n.path, &s);
        Outcome io;
        int tagBase = 10 + TAGSTEP * int(n.path.size());
        std::string form;
        Drv d(m);
        replay(d, n.path);
        d.step(s, tagBase, io);
        ++st.execs; ++st.transitions; st.records += long(io.trace.size());
        Chooser ch;
        int guard = 0;
        std::string why; int cats = 0; bool first = true;
        do {
            ch.rewind();
            Ref r(m); r.st = n.rs; r.ch = &ch;
            try { r.step(s, tagBase); } catch (Unspecified&) { ++st.skipped; skipped = true; return false; }
            ++st.refRuns;
            if (r.followUpVeto) {
                // Known finding: a veto inside a follow-up step (substate entry, history restore) is not rolled back.
                skipped = true; ++st.knownHits;
                return false;
            }
            std::string w;
            int c = classify(m, io, r.out, s, w);
            if (c == 0) {
                form = d.wellFormed(r.st.limbo);
                if (!form.empty()) { if (opt.catMask & C_FORM) report(m, n.path, &s, "illegal configuration: " + form); skipped = true; return false; }
                ns = r.st; tr = r.out.trace; fu = r.followUpPoint;
                return true;
            }
            if (first) { why = w; cats = c; first = false; }
        } while (ch.next() && ++guard < 400);
        form = d.wellFormed(false);
        if (!form.empty()) { cats |= C_FORM; why += "illegal configuration: " + form; }
        if (cats & opt.catMask) report(m, n.path, &s, why);
        skipped = true;
        return false;
    }
    // A veto in a follow-up step (entry-point substate, history restore) must cancel the transition. Known finding: it is
    // not rolled back. What the code does instead is pinned down: the target stays entered and only states at or below the
    // vetoed one (or restored after it) are missing, so any other outcome is still a violation.
    void probeFollowUpVeto(const Mach& m, const Node& n, const Step& s, const RefState& ns) {
        if (progress) progress(m, &n.path, &s);
        Outcome io; Drv d(m); replay(d, n.path); d.step(s, 10 + TAGSTEP * int(n.path.size()), io);
        ++st.execs;
        if (io.active == n.rs.mask() && !io.result) return;
        uint32_t full = ns.mask(), low = 0;
        uint32_t act = io.active & ((1u << 26) - 1);                 // the history pseudo state may stay listed
        int v = s.vetoes[0].second;
        for (int x = 0; x < m.n; ++x) if (x == v || m.isSub(v, x)) low |= 1u << x;
        bool viaHistory = false;
        for (auto& t : m.trans) if (t.ev == s.burst[0].ev && t.to >= HBASE) viaHistory = true;
        if (viaHistory) low = 1u << v;                               // restored states are entered one by one
        if ((act & ~full) == 0 && (act & low) == 0 && (act != 0 || viaHistory)) {
            ++st.knownHits; fuKnown = true;
            if (fuExample.empty()) fuExample = m.describe() + " :: " + s.str() + " -> active " + setStr(io.active) + " instead of " + setStr(n.rs.mask());
        } else if (opt.catMask & C_ACTIVE) report(m, n.path, &s, "vetoed follow-up step: active " + setStr(io.active) + ", before " + setStr(n.rs.mask()) + ", without veto " + setStr(full));
    }
    static long tagOf(const Step& s) {
        long h = 17;
        for (auto& e : s.burst) h = h * 31 + e.ev * 8 + e.mask + 1;
        for (auto& v : s.vetoes) h = h * 131 + v.first * 64 + v.second + 1;
        h = h * 7 + (s.query != NONE);
        return h;
    }
    bool startup(const Mach& m, Node& root) {
        if (progress) progress(m, nullptr, nullptr);
        Outcome io; Drv d(m);
        bool ok = d.startup(io);
        ++st.execs;
        if (!d.regError.empty()) { report(m, {}, nullptr, "registration refused:" + d.regError); return false; }
        if (!ok) { report(m, {}, nullptr, "initialize() returned false"); return false; }
        Chooser ch; std::string why; int cats = 0; bool first = true;
        do {
            ch.rewind();
            Ref r(m); r.ch = &ch;
            try { r.startup(); } catch (Unspecified&) { return false; }
            std::string w; Step s; s.sync = false;
            int c = classify(m, io, r.out, s, w);
            if (c == 0) {
                std::string form = d.wellFormed(false);
                if (!form.empty()) { if (opt.catMask & C_FORM) report(m, {}, nullptr, "after initialize(): illegal configuration: " + form); return false; }
                root = Node{{}, r.st, 0, 0};
                return true;
            }
            if (first) { first = false; why = w; cats = c; }
        } while (ch.next());
        if (cats & opt.catMask) report(m, {}, nullptr, "after initialize(): " + why);
        return false;
    }
    // baseNodes: if given and filled, exploration starts there and steps on base events are only taken after a focus step
    void explore(const Mach& m, std::vector<Node>* baseNodes) {
        ++st.machines;
        std::deque<Node> q;
        std::set<std::tuple<uint32_t, std::vector<std::vector<int>>, long, int>> seen;
        auto push = [&](Node&& n) {
            if (n.path.size() > size_t(opt.maxDepth)) return;
            if (seen.insert({n.rs.mask(), n.rs.hist, n.tag, n.cont}).second) {
                if (seen.size() > opt.maxNodes) { ++st.capped; return; }
                ++st.states; q.push_back(std::move(n));
            }
        };
        bool reuse = baseNodes && !baseNodes->empty();
        Node root;
        if (!startup(m, root)) return;
        if (reuse) for (auto n : *baseNodes) push(std::move(n));
        else push(std::move(root));
        while (!q.empty() && !viol.set) {
            Node n = std::move(q.front()); q.pop_front();
            if (baseNodes && !reuse && n.tag == 0) baseNodes->push_back(n);
            auto doStep = [&](const Step& s0, bool focus) {
                std::vector<Step> work{s0};
                std::set<std::vector<Veto>> tried;
                while (!work.empty() && !viol.set) {
                    Step s = work.back(); work.pop_back();
                    RefState ns; Trace tr; std::vector<char> fu; bool skipped;
                    bool known = false;
                    if (!eval(m, n, s, ns, tr, fu, skipped)) { (void)known; continue; }
                    if (!s.vetoes.empty()) ++st.vetoSteps;
                    bool disturb = !s.vetoes.empty() || s.query != NONE || (focus && opt.tagFocus);
                    Node c; c.path = n.path; c.path.push_back(s); c.rs = ns; c.tag = n.tag; c.cont = n.cont;
                    if (n.tag != 0) { c.cont = n.cont - 1; if (c.cont <= 0) { c.tag = 0; c.cont = 0; } }
                    else if (disturb && opt.contDepth > 0) { c.tag = tagOf(s) ^ (long(n.rs.mask()) << 32); c.cont = opt.contDepth; }
                    if (samples && samples->size() < 3 && c.path.size() >= 3 && tr.size() >= 5) {
                        std::string t = m.describe() + " :: ";
                        for (auto& p : c.path) t += p.str() + " ; ";
                        samples->push_back(t + " => " + traceStr(tr) + " active " + setStr(ns.mask()));
                    }
                    bool vetoOk = (focus || opt.vetoBase) && n.tag == 0 && int(s.vetoes.size()) < opt.maxVetoes;
                    if (vetoOk) {
                        for (size_t i = 0; i < tr.size(); ++i) if (tr[i].k == K_EXIT || tr[i].k == K_ENTER) {
                            Veto v{tr[i].k, tr[i].a};
                            if (std::find(s.vetoes.begin(), s.vetoes.end(), v) != s.vetoes.end()) continue;
                            Step sv = s; sv.vetoes.push_back(v); std::sort(sv.vetoes.begin(), sv.vetoes.end());
                            if (!tried.insert(sv.vetoes).second) continue;
                            if (fu[i]) { if (opt.fuVeto && s.vetoes.empty()) probeFollowUpVeto(m, n, sv, ns); continue; }
                            work.push_back(sv);
                        }
                    }
                    if (!(c.tag == 0 && n.tag != 0)) push(std::move(c));
                    else push(std::move(c));
                }
            };
            int masks = 1 << m.nConds;
            auto isFocus = [&](int e) { return std::find(m.focusEvents.begin(), m.focusEvents.end(), e) != m.focusEvents.end(); };
            for (int e : m.stepEvents) {
                if (viol.set) break;
                bool f = isFocus(e);
                if (reuse && n.tag == 0 && !f) continue;
                for (int mask = 0; mask < (f ? masks : 1); ++mask) {
                    Step s; s.burst = {{e, mask}};
                    doStep(s, f);
                    if (opt.queries && n.tag == 0) for (int qe : m.stepEvents) for (int qm = 0; qm < (isFocus(qe) ? masks : 1); ++qm) {
                        if (viol.set) break;
                        if (!f && e != m.stepEvents[0]) continue;
                        Step sq = s; sq.query = qe; sq.qmask = qm; doStep(sq, f);
                        if (opt.pendingQueries) {
                            sq.sync = false; doStep(sq, f);
                            if (f && qe == m.stepEvents.front()) { sq.burst.push_back({m.stepEvents.back(), 0}); doStep(sq, f); }
                        }
                    }
                }
            }
            // chains of pending events through a machine without hierarchy
            if (opt.pendingQueries && n.tag == 0 && __builtin_popcount(n.rs.mask()) == 1 && std::all_of(m.parent.begin(), m.parent.end(), [](int p) { return p < 0; }) && m.name.find("flat") != std::string::npos)
                for (int e1 : m.stepEvents) for (int e2 : m.stepEvents) for (int qe : m.stepEvents) {
                    if (viol.set) break;
                    if (reuse && !isFocus(e1) && !isFocus(e2) && !isFocus(qe)) continue;
                    if (reuse && (int(isFocus(e1)) + isFocus(e2) + isFocus(qe) < 2)) continue;
                    Step s; s.sync = false; s.burst = {{e1, 0}, {e2, 0}}; s.query = qe;
                    ahead(m, n, s);
                }
            if (n.tag == 0 && opt.maxBurst > 1 && !viol.set) bursts(m, n, doStep);
        }
    }
    void ahead(const Mach& m, const Node& n, const Step& s) { RefState ns; Trace tr; std::vector<char> fu; bool sk; eval(m, n, s, ns, tr, fu, sk); }
    template <class F> void bursts(const Mach& m, const Node& n, F& doStep) {
        std::vector<Ev> al;
        int masks = 1 << m.nConds;
        for (int e : m.focusEvents) for (int k = 0; k < masks; ++k) al.push_back({e, k});
        std::vector<std::vector<Ev>> cur{{}};
        for (int len = 1; len <= opt.maxBurst; ++len) {
            std::vector<std::vector<Ev>> nx;
            for (auto& c : cur) for (auto& a : al) { auto d = c; d.push_back(a); nx.push_back(d); }
            cur = nx;
            for (auto& b : cur) { if (viol.set) return; Step s; s.sync = false; s.burst = b; doStep(s, true); }
        }
    }
};
