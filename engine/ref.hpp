// Reference interpreter: written from the documented semantics, not from the implementation.
// Orders that the documentation leaves open are choices; the checker accepts any of them.
#pragma once
#include "mach.hpp"
#include <stdexcept>

struct Unspecified {};

struct Chooser {
    std::vector<int> path, lim; size_t pos = 0;
    int choose(int n) {
        if (n <= 1) return 0;
        if (pos == path.size()) { path.push_back(0); lim.push_back(n); }
        return path[pos++];
    }
    void rewind() { pos = 0; }
    bool next() {
        while (!path.empty() && path.back() + 1 >= lim.back()) { path.pop_back(); lim.pop_back(); }
        if (path.empty()) return false;
        ++path.back(); pos = 0; return true;
    }
};

struct RefState {
    std::vector<int> order;                    // activation order (hint for the default choice only)
    std::vector<std::vector<int>> hist;        // stored states, sorted; empty = nothing stored
    bool limbo = false;                        // a follow-up step was vetoed (see known findings)
    uint32_t mask() const { uint32_t m = 0; for (int s : order) m |= 1u << s; return m; }
    bool has(int s) const { return std::find(order.begin(), order.end(), s) != order.end(); }
};

struct Ref {
    const Mach& m;
    RefState st;
    Chooser* ch = nullptr;
    Outcome out;
    std::set<Veto> vetoes;
    struct QEv { int ev; int mask; int tag; bool external; };
    std::deque<QEv> queue;
    std::vector<char> emitUsed;
    int emitTag = 0;
    bool followUpVeto = false;
    std::vector<char> followUpPoint;           // per trace record: belongs to a follow-up step
    bool inFollowUp = false;
    int evDone = 0;

    explicit Ref(const Mach& mm) : m(mm) { st.hist.resize(mm.hist.size()); }

    bool cond(int c, bool exp, int mask) const { return c < 0 || (((mask >> c) & 1) != 0) == exp; }
    void rec(uint8_t k, int a, int b, int c = 0) {
        if ((m.silent >> k) & 1) return;
        if (!m.muted.empty() && m.muted.count({k, a})) return;
        if (!m.canon.empty()) { auto c = m.canon.find({k, a}); if (c != m.canon.end()) a = c->second; }
        out.trace.push_back({k, a, b, c});
        followUpPoint.push_back(inFollowUp);
        for (size_t i = 0; i < m.emits.size(); ++i) {
            auto& e = m.emits[i];
            if (e.kind == k && e.id == a && !emitUsed[i]) {
                emitUsed[i] = 1;
                if (e.clear) clearQueue();
                queue.push_back({e.ev, e.mask, 900 + int(i), true});
            }
        }
    }
    void clearQueue() {
        for (auto& q : queue) if (!q.external) throw Unspecified();
        queue.clear();
    }
    void actions(int s, bool entry) {
        for (auto& a : m.acts) if (a.state == s && a.onEntry == entry) {
            switch (a.kind) {
                case 0: rec(K_TSTART, 0, -1, a.args[0] * 10000 + a.args[1] * 2 + a.args[2]); break;
                case 1: rec(K_TSTOP, 0, -1, a.args[0]); break;
                case 2: rec(K_TRESTART, 0, -1, a.args[0]); break;
                case 3: queue.push_back({a.args[0], a.args.size() > 1 ? a.args[1] : 0, a.args.size() > 2 ? a.args[2] : -1, true}); break;
            }
        }
    }
    bool vetoed(uint8_t k, int s) const {
        if (!m.canon.empty()) { auto c = m.canon.find({k, s}); if (c != m.canon.end()) s = c->second; }
        return vetoes.count({k, s}) != 0;
    }
    bool exitCb(int s) {
        rec(K_EXIT, s, -1);
        bool ok = !vetoed(K_EXIT, s);
        if (ok) actions(s, false);
        return ok;
    }
    bool enterCb(int s, int tag) {
        rec(K_ENTER, s, tag);
        bool ok = !vetoed(K_ENTER, s);
        if (ok) actions(s, true);
        return ok;
    }
    void activate(int s) { if (!st.has(s)) st.order.push_back(s); }
    void deactivate(int s) { st.order.erase(std::remove(st.order.begin(), st.order.end(), s), st.order.end()); }

    // 1 yes, 0 no, 2 mixed (unspecified)
    int feasible(int s, int ev, int mask) const {
        if (s >= HBASE || !m.composite(s)) return 1;
        int yes = 0, no = 0, mixed = 0;
        for (auto& e : m.entries) if (e.parent == s && (e.ev == NONE || e.ev == ev) && cond(e.cond, e.exp, mask)) {
            int f = feasible(e.child, ev, mask);
            if (f == 1) ++yes; else if (f == 0) ++no; else ++mixed;
        }
        if (mixed || (yes && no)) return 2;
        return yes ? 1 : 0;
    }
    std::vector<int> enabled(int s, int ev, int mask) {
        std::vector<int> r;
        for (size_t i = 0; i < m.trans.size(); ++i) {
            auto& t = m.trans[i];
            if (t.from != s || t.ev != ev || !cond(t.cond, t.exp, mask)) continue;
            int f = feasible(t.to, ev, mask);
            if (f == 2) f = ch->choose(2) == 0 ? 1 : 0;
            if (f == 1) r.push_back(int(i));
        }
        if (m.rev) std::reverse(r.begin(), r.end());
        return r;
    }

    struct Task { int kind; int id; QEv ev; };  // 0 entry(composite), 1 history
    std::vector<Task> tasks;
    std::vector<QEv> raised;

    void completion(int f, const QEv& e) {
        int p = m.parent[f];
        if (p < 0) return;
        for (int s : st.order) if (m.isSub(p, s) && m.fin[s] == NONE) return;
        raised.push_back({m.fin[f] == SELFDEF ? e.ev : m.fin[f], e.mask, e.tag, false});
    }
    // state d has become active (or was already): follow-up obligations
    void entered(int d, const QEv& e, bool wasActive, bool useEntryPoints) {
        if (m.fin[d] != NONE) { completion(d, e); return; }
        bool child = false;
        for (int x : st.order) if (m.parent[x] == d) child = true;
        if ((!wasActive || !child) && useEntryPoints && m.composite(d)) tasks.push_back({0, d, e});
    }
    void rollback(std::vector<int> exited) {
        std::reverse(exited.begin(), exited.end());   // parents before children
        for (int s : exited) {
            if (st.has(s)) continue;
            enterCb(s, -1);
            activate(s);
            rec(K_CHANGED, s, -1);
        }
    }
    void storeHistory(int top, const std::vector<int>& exited) {
        for (size_t h = 0; h < m.hist.size(); ++h) {
            int p = m.hist[h].parent;
            bool inside = (p == top) || m.isSub(top, p);
            if (!inside) continue;
            if (std::find(exited.begin(), exited.end(), p) == exited.end()) continue;
            std::vector<int> v;
            for (int s : exited) if (m.isSub(p, s)) {
                if (m.hist[h].deep || m.parent[s] == p) v.push_back(s);
            }
            std::sort(v.begin(), v.end());
            if (!v.empty()) st.hist[h] = v;
        }
    }
    // returns 0 nothing enabled, 1 accepted, 2 vetoed
    int handle(int s, const QEv& e) {
        std::vector<int> en = enabled(s, e.ev, e.mask);
        if (en.empty()) return 0;
        std::vector<int> ext; bool anyInternal = false;
        for (int t : en) {
            if (m.trans[t].internal) { rec(K_TRANS, t, e.tag); anyInternal = true; }
            else ext.push_back(t);
        }
        if (ext.empty()) return 1;
        // exit phase, children first, most recently activated first
        std::vector<int> leave;
        for (auto it = st.order.rbegin(); it != st.order.rend(); ++it) if (*it == s || m.isSub(s, *it)) leave.push_back(*it);
        bool anyVeto = false;
        for (auto& v : vetoes) if (v.first == K_EXIT) anyVeto = true;
        leave = childrenFirst(leave, anyVeto && leave.size() > 2);
        std::vector<int> exited;
        bool blocked = false;
        for (int x : leave) { if (exitCb(x)) exited.push_back(x); else { blocked = true; break; } }
        if (blocked) {
            for (int x : exited) deactivate(x);
            rollback(exited);
            if (anyInternal) return ch->choose(2) == 0 ? 2 : 1;
            return 2;
        }
        for (int x : exited) deactivate(x);
        auto histBefore = st.hist;
        storeHistory(s, exited);
        // enter phase
        int okCount = 0, vetoCount = 0;
        bool lastOk = false;
        std::vector<int> todo = ext;
        while (!todo.empty()) {
            int i = ch->choose(int(todo.size()));
            int t = todo[i]; todo.erase(todo.begin() + i);
            rec(K_TRANS, t, e.tag);
            int d = m.trans[t].to;
            if (d >= HBASE && st.has(m.hist[d - HBASE].parent)) throw Unspecified();   // history of a region being left by the same event
            if (d >= HBASE) { tasks.push_back({1, d - HBASE, e}); ++okCount; lastOk = true; continue; }
            bool was = st.has(d);
            bool good = was || enterCb(d, e.tag);
            if (good) {
                if (!was) { activate(d); rec(K_CHANGED, d, e.tag); }
                entered(d, e, was, true);
                ++okCount; lastOk = true;
            } else {
                rollback(exited);
                ++vetoCount; lastOk = false;
            }
        }
        if (okCount == 0) { st.hist = histBefore; return 2; }
        if (vetoCount == 0) return 1;
        // some of several parallel targets refused: only the plain case is specified
        for (int t : ext) if (m.trans[t].to >= HBASE || m.composite(m.trans[t].to)) throw Unspecified();
        return ch->choose(2) == (lastOk ? 0 : 1) ? 1 : 2;
    }
    // which of several parallel leaves goes first is open; it matters only when one of them vetoes
    std::vector<int> childrenFirst(const std::vector<int>& v, bool open) {
        std::vector<int> in = v, r;
        while (!in.empty()) {
            std::vector<size_t> ready;
            for (size_t i = 0; i < in.size(); ++i) {
                bool ok = true;
                for (size_t j = 0; j < in.size(); ++j) if (j != i && m.isSub(in[i], in[j])) ok = false;
                if (ok) ready.push_back(i);
            }
            size_t i = ready[open ? ch->choose(int(ready.size())) : 0];
            r.push_back(in[i]); in.erase(in.begin() + i);
        }
        return r;
    }
    void runTask(const Task& t, bool& ok) {
        if (t.kind == 0) {
            for (int s : st.order) if (m.parent[s] == t.id) return;
            if (!st.has(t.id)) return;
            std::vector<const EntryDef*> es;
            for (auto& e : m.entries) if (e.parent == t.id && (e.ev == NONE || e.ev == t.ev.ev) && cond(e.cond, e.exp, t.ev.mask)) es.push_back(&e);
            if (m.rev) std::reverse(es.begin(), es.end());
            for (auto* e : es) {
                bool was = st.has(e->child);
                if (was || enterCb(e->child, t.ev.tag)) {
                    if (!was) { activate(e->child); rec(K_CHANGED, e->child, t.ev.tag); }
                    entered(e->child, t.ev, was, true);
                } else { ok = false; followUpVeto = true; }
            }
        } else {
            restore(t, ok);
        }
    }
    // history restore: parent, then what was stored (or the default), parents before children
    void restore(const Task& t, bool& ok) {
        auto& h = m.hist[t.id];
        if (st.has(h.parent)) throw Unspecified();
        std::vector<int> target = st.hist[t.id];
        st.hist[t.id].clear();
        bool stored = !target.empty();
        if (!stored && h.def != NONE) target = {h.def};
        if (!stored && h.def == NONE && h.cb) rec(K_HCB, t.id, t.ev.tag);
        if (!enterInto(h.parent, t.ev, ok)) return;
        if (!stored && h.def == NONE) { tasks.push_back({0, h.parent, t.ev}); return; }
        if (!stored && h.cb) rec(K_HCB, t.id, t.ev.tag);
        std::sort(target.begin(), target.end(), [&](int a, int b) { return m.depth(a) != m.depth(b) ? m.depth(a) < m.depth(b) : a < b; });
        for (int s : target) {
            if (!st.has(m.parent[s])) { ok = false; continue; }
            if (!enterInto(s, t.ev, ok)) continue;
            bool hasChildTarget = false;
            for (int x : target) if (m.isSub(s, x)) hasChildTarget = true;
            entered(s, t.ev, false, !hasChildTarget);
        }
    }
    bool enterInto(int s, const QEv& e, bool& ok) {
        if (st.has(s)) return true;
        if (!enterCb(s, e.tag)) { ok = false; followUpVeto = true; return false; }
        activate(s);
        rec(K_CHANGED, s, e.tag);
        return true;
    }
    void followUps(bool& ok) {
        inFollowUp = true;
        while (!tasks.empty()) { Task t = tasks.front(); tasks.erase(tasks.begin()); runTask(t, ok); }
        inFollowUp = false;
        // completion events go in front of everything else; their mutual order is open
        std::vector<QEv> r = raised; raised.clear();
        std::vector<QEv> ord;
        while (!r.empty()) { int i = ch->choose(int(r.size())); size_t k = r.size() - 1 - i; ord.push_back(r[k]); r.erase(r.begin() + k); }
        for (auto it = ord.rbegin(); it != ord.rend(); ++it) queue.push_front(*it);
    }
    bool doEvent(const QEv& e) {
        std::vector<int> snap = st.order, rest = st.order, accepted;
        uint32_t snapMask = st.mask();
        bool ok = false, fuOk = true;
        while (!rest.empty()) {
            std::vector<int> ready;  // no remaining descendants; latest activated first
            for (auto it = rest.rbegin(); it != rest.rend(); ++it) {
                bool r = true;
                for (int x : rest) if (m.isSub(*it, x)) r = false;
                if (r) ready.push_back(*it);
            }
            int pick = -1;
            std::vector<int> cand;
            for (int s : ready) {
                bool has = false;
                for (auto& t : m.trans) if (t.from == s && t.ev == e.ev) has = true;
                if (!has) { pick = s; break; }
                cand.push_back(s);
            }
            if (pick < 0) pick = cand[ch->choose(int(cand.size()))];
            rest.erase(std::find(rest.begin(), rest.end(), pick));
            if (!st.has(pick)) continue;
            bool hidden = false;
            for (int a : accepted) if (m.isSub(pick, a)) hidden = true;
            if (hidden) continue;
            int r = handle(pick, e);
            if (r == 1) { ok = true; accepted.push_back(pick); }
        }
        if (!ok) rec(K_FAILED, e.ev, e.tag, int(snapMask));
        followUps(fuOk);
        return ok && fuOk;
    }
    void drain(bool& firstResult) {
        bool first = true;
        int guard = 0;
        while (!queue.empty()) {
            if (++guard > 40) throw Unspecified();   // endless event ping-pong
            QEv e = queue.front(); queue.pop_front();
            bool r = doEvent(e);
            if (first) { firstResult = r; first = false; }
        }
    }
    void startup() {
        emitUsed.assign(m.emits.size(), 1);
        QEv e{NONE, 0, -1, false};
        rec(K_ENTER, m.initial, -1);
        actions(m.initial, true);
        activate(m.initial);
        rec(K_CHANGED, m.initial, -1);
        bool any = false;
        for (auto& en : m.entries) if (en.parent == m.initial && en.ev == NONE && cond(en.cond, en.exp, 0)) any = true;
        bool ok = true, res = false;
        if (any) { tasks.push_back({0, m.initial, e}); }
        followUps(ok);
        drain(res);
        out.active = st.mask();
    }
    void step(const Step& s, int tagBase) {
        out = Outcome(); followUpPoint.clear(); followUpVeto = false;
        vetoes = std::set<Veto>(s.vetoes.begin(), s.vetoes.end());
        emitUsed.assign(m.emits.size(), 0);
        int k = 0;
        for (auto& e : s.burst) queue.push_back({e.ev, e.mask, tagBase + k++, true});
        if (s.query != NONE) { out.query = possible(s.query, s.qmask); out.ahead = ahead(s); }
        bool r = false;
        drain(r);
        out.result = r;
        out.active = st.mask();
        if (followUpVeto) st.limbo = true;
    }
    // flat machine, every pending event leads to one known state: the answer is about the last one. -1: nothing is said
    int ahead(const Step& s) {
        if (st.order.size() != 1 || !s.vetoes.empty()) return -1;
        for (int i = 0; i < m.n; ++i) if (m.parent[i] >= 0 || m.fin[i] != NONE) return -1;
        auto at = [&](int from, int ev, int mask) { std::set<int> r; for (size_t i = 0; i < m.trans.size(); ++i) { auto& t = m.trans[i]; if (t.from == from && t.ev == ev && cond(t.cond, t.exp, mask)) r.insert(int(i)); } return r; };
        int cur = st.order[0];
        for (auto& e : s.burst) {
            auto x = at(cur, e.ev, e.mask); if (x.empty() || x != at(cur, e.ev, s.qmask)) return -1;
            int to = m.trans[*x.begin()].to; for (int t : x) if (m.trans[t].to != to) return -1;
            cur = to;
        }
        return !at(cur, s.query, s.qmask).empty();
    }
    bool possible(int ev, int mask) {
        for (int s : st.order) if (!enabled(s, ev, mask).empty()) return true;
        return false;
    }
};
