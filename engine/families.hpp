// Bounded grammars of machines ("programs"), enumerated completely for each family and tier.
#pragma once
#include "explore.hpp"

struct Shape { std::string name; std::vector<int> parent; std::vector<EntryDef> entries; };
constexpr int EX = 1, EY = 2, EZ = 3, BASE = 10;

inline std::vector<Shape> shapes(int level) {
    std::vector<Shape> r;
    r.push_back({"flat3", {-1, -1, -1}, {}});
    r.push_back({"comp", {-1, -1, 1, 1}, {{1, 2}}});                              // A, B{C,D}
    r.push_back({"comp2par", {-1, -1, 1, 1}, {{1, 2}, {1, 3}}});                  // A, B{*C,*D}
    r.push_back({"nest", {-1, -1, 1, 2, 2, 1}, {{1, 2}, {2, 3}}});                // A, B{C{D,E},F}
    r.push_back({"two", {-1, 0, 0, -1, 3, 3}, {{0, 1}, {3, 4}}});                 // A{B,C}, D{E,F}
    if (level >= 1) {
        r.push_back({"comp3", {-1, -1, 1, 1, 1}, {{1, 2}}});                      // A, B{C,D,E}
        r.push_back({"side", {-1, -1, 1, -1}, {{1, 2}}});                         // A, B{C}, D
        r.push_back({"parnest", {-1, -1, 1, 2, 2, 1, 5, 5}, {{1, 2}, {1, 5}, {2, 3}, {5, 6}}});  // A, B{*C{D,E},*F{G,H}}
    }
    if (level >= 2) {
        r.push_back({"flat4", {-1, -1, -1, -1}, {}});
        r.push_back({"deep", {-1, -1, 1, 2, 3, 3, 2}, {{1, 2}, {2, 3}, {3, 4}}});  // A, B{C{D{E,F},G}}
        r.push_back({"three", {-1, 0, 0, -1, 3, -1}, {{0, 1}, {3, 4}}});          // A{B,C}, D{E}, F
    }
    return r;
}

// all transitions the grammar allows: siblings, self (external/internal), siblings' and own history
inline std::vector<TransDef> candidates(const Mach& m, bool withHist) {
    std::vector<TransDef> c;
    for (int a = 0; a < m.n; ++a) {
        if (m.fin[a] != NONE && m.parent[a] < 0) continue;
        for (int b = 0; b < m.n; ++b) if (a != b && m.parent[a] == m.parent[b]) c.push_back({a, b, 0});
        c.push_back({a, a, 0, true, false});
        c.push_back({a, a, 0, true, true});
        if (withHist) for (size_t h = 0; h < m.hist.size(); ++h)
            if (m.parent[a] == m.parent[m.hist[h].parent]) c.push_back({a, HBASE + int(h), 0});
    }
    return c;
}
inline Mach baseMach(const Shape& s) {
    Mach m; m.name = s.name; m.n = int(s.parent.size()); m.parent = s.parent; m.fin.assign(m.n, NONE); m.entries = s.entries; return m;
}
// every candidate on an event of its own, plus events that start two siblings in parallel
inline void addBaseEvents(Mach& m, bool withHist, bool par) {
    int ev = BASE;
    for (auto t : candidates(m, withHist)) { t.ev = ev++; m.trans.push_back(t); m.stepEvents.push_back(t.ev); }
    if (par) for (int a = 0; a < m.n; ++a) for (int b = 0; b < m.n; ++b) for (int c = b + 1; c < m.n; ++c)
        if (a != b && a != c && m.parent[a] == m.parent[b] && m.parent[a] == m.parent[c]) {
            m.trans.push_back({a, b, ev}); m.trans.push_back({a, c, ev}); m.stepEvents.push_back(ev++);
        }
}

struct Job { Mach m; int group; };   // machines of a group share their base exploration
struct Family { std::vector<Job> jobs; Opts opt; };

// k transitions sharing event X (condition patterns), on top of the base events
inline void overlaps(Family& f, const Mach& base, int group, int maxK, const std::vector<TransDef>& cand, bool condsFor2, bool condsFor3,
                     const std::function<bool(const std::vector<TransDef>&)>& keep) {
    auto add = [&](std::vector<TransDef> ts, std::vector<std::pair<int, bool>> cs, bool rev) {
        if (keep && !keep(ts)) return;
        Mach m = base; int nc = 0;
        for (size_t i = 0; i < ts.size(); ++i) { ts[i].ev = EX; ts[i].cond = cs[i].first; ts[i].exp = cs[i].second; nc = std::max(nc, cs[i].first + 1); m.trans.push_back(ts[i]); }
        m.nConds = nc; m.stepEvents.insert(m.stepEvents.begin(), EX); m.focusEvents = {EX}; m.rev = rev;
        f.jobs.push_back({m, group});
    };
    std::pair<int, bool> N{-1, true}, T0{0, true}, F0{0, false}, T1{1, true};
    size_t n = cand.size();
    for (size_t i = 0; i < n; ++i) { add({cand[i]}, {N}, false); add({cand[i]}, {T0}, false); add({cand[i]}, {F0}, false); }
    // the same internal transition registered twice: both are enabled together
    if (maxK >= 2) for (size_t i = 0; i < n; ++i) if (cand[i].internal) { add({cand[i], cand[i]}, {N, N}, false); add({cand[i], cand[i]}, {T0, N}, false); if (condsFor2) { add({cand[i], cand[i]}, {T0, F0}, true); add({cand[i], cand[i], cand[i]}, {T0, N, T1}, false); } }
    if (maxK >= 2) for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) {
        add({cand[i], cand[j]}, {N, N}, false);
        if (condsFor2) {
            add({cand[i], cand[j]}, {T0, N}, true); add({cand[i], cand[j]}, {N, F0}, false);
            add({cand[i], cand[j]}, {T0, F0}, false); add({cand[i], cand[j]}, {T0, T1}, false);
        }
    }
    if (maxK >= 3) for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) for (size_t k = j + 1; k < n; ++k) {
        add({cand[i], cand[j], cand[k]}, {N, N, N}, false);
        if (condsFor3) add({cand[i], cand[j], cand[k]}, {T0, T1, N}, true);
    }
}

inline Family famSelect(int tier) {
    Family f; int g = 0;
    for (auto& s : shapes(tier ? 2 : 1)) {
        Mach b = baseMach(s); b.name = "sel/" + s.name;
        addBaseEvents(b, false, true);
        f.jobs.push_back({b, g});
        int k = s.parent.size() <= 4 ? 3 : (tier ? 3 : 2);
        if (s.parent.size() >= 7) k = 2;
        overlaps(f, b, g, k, candidates(b, false), s.parent.size() <= 6 || tier, tier, nullptr);
        ++g;
    }
    f.opt.contDepth = 1;
    return f;
}
inline Family famSelf(int tier) {
    Family f; int g = 0;
    for (auto& s : shapes(tier ? 2 : 1)) {
        Mach b = baseMach(s); b.name = "self/" + s.name;
        addBaseEvents(b, false, true);
        b.focusEvents = b.stepEvents;
        f.jobs.push_back({b, g});
        b.focusEvents.clear();
        overlaps(f, b, g, s.parent.size() <= 4 ? 3 : 2, candidates(b, false), s.parent.size() <= 6 || tier, tier, [](const std::vector<TransDef>& ts) {
            for (auto& t : ts) if (t.self) return true;
            return false; });
        ++g;
    }
    f.opt.contDepth = 1; f.opt.maxVetoes = 1;
    return f;
}
inline Family famVeto(int tier) {
    Family f; int g = 0;
    for (auto& s : shapes(tier ? 2 : 1)) {
        Mach b = baseMach(s); b.name = "veto/" + s.name;
        addBaseEvents(b, false, true);
        Mach b0 = b; b0.focusEvents = b0.stepEvents;
        f.jobs.push_back({b0, g});
        overlaps(f, b, g, 2, candidates(b, false), false, false, nullptr);
        ++g;
        if (s.parent.size() <= 6) {    // with history: a cancelled exit must not disturb it
            Mach h = baseMach(s); h.name = "veto+hist/" + s.name;
            for (int p = 0; p < h.n; ++p) if (h.composite(p)) { h.hist.push_back({p, false}); h.hist.push_back({p, true}); }
            if (!h.hist.empty()) { addBaseEvents(h, true, s.parent.size() <= 4); h.focusEvents = h.stepEvents; f.jobs.push_back({h, g}); ++g; }
        }
    }
    f.opt.maxVetoes = tier ? 2 : 1; f.opt.contDepth = tier ? 3 : 2; f.opt.tagFocus = false; f.opt.fuVeto = true;
    return f;
}
inline Family famEntry(int tier) {
    Family f; int g = 0;
    auto optsFor = [&](int p, int c, int cnd, bool small) {
        std::vector<std::vector<EntryDef>> o{{}, {{p, c}}, {{p, c, EX}}, {{p, c, NONE, cnd, true}}};
        if (!small) { o.push_back({{p, c, EY}}); o.push_back({{p, c, NONE, cnd, false}}); o.push_back({{p, c, EX, cnd, true}}); o.push_back({{p, c, EX}, {p, c, EY}}); o.push_back({{p, c, EX, cnd, true}, {p, c, EX, cnd, false}}); }
        return o;
    };
    auto gen = [&](const Shape& s, bool small) {
        Mach b = baseMach(s); b.entries.clear();
        std::vector<std::pair<int, std::vector<std::vector<EntryDef>>>> slots;
        for (int c = 0; c < b.n; ++c) if (b.parent[c] >= 0) slots.push_back({c, optsFor(b.parent[c], c, b.depth(c) == 1 ? 0 : 1, small)});
        std::vector<size_t> idx(slots.size(), 0);
        for (;;) {
            Mach m = b; m.name = "entry/" + s.name; m.nConds = 0;
            for (size_t i = 0; i < slots.size(); ++i) for (auto& e : slots[i].second[idx[i]]) { m.entries.push_back(e); m.nConds = std::max(m.nConds, e.cond + 1); }
            bool ok = true;
            for (int p = 0; p < m.n; ++p) if (m.composite(p)) { bool any = false; for (auto& e : m.entries) if (e.parent == p) any = true; ok &= any; }
            if (ok) for (int init = 0; init < 2; ++init) {
                Mach x = m; x.initial = init;
                int A = 0, P = 1;
                x.trans.push_back({A, P, EX}); x.trans.push_back({A, P, EY});
                x.trans.push_back({P, P, EX, true, false});
                x.trans.push_back({P, P, EY, true, true});
                int ev = BASE;
                x.trans.push_back({P, A, ev}); x.stepEvents.push_back(ev++);
                for (int a = 2; a < x.n; ++a) for (int c2 = 2; c2 < x.n; ++c2) if (a != c2 && x.parent[a] == x.parent[c2]) {
                    x.trans.push_back({a, c2, ev}); x.stepEvents.push_back(ev++);
                    if (x.composite(c2)) x.trans.push_back({a, c2, EX});
                }
                x.stepEvents.push_back(EX); x.stepEvents.push_back(EY); x.focusEvents = {EX, EY};
                x.rev = (f.jobs.size() % 2) != 0;
                f.jobs.push_back({x, -1});
            }
            size_t i = 0;
            for (; i < idx.size(); ++i) { if (++idx[i] < slots[i].second.size()) break; idx[i] = 0; }
            if (i == idx.size()) break;
        }
        (void)g;
    };
    gen({"comp", {-1, -1, 1, 1}, {}}, false);
    gen({"comp3", {-1, -1, 1, 1, 1}, {}}, !tier);
    gen({"nest", {-1, -1, 1, 2, 2, 1}, {}}, !tier);
    gen({"parnest-s", {-1, -1, 1, 2, 1, 4}, {}}, !tier);    // A, B{C{D},E{F}}
    if (tier) gen({"parnest", {-1, -1, 1, 2, 2, 1, 5}, {}}, true);
    f.opt.contDepth = 1; f.opt.maxVetoes = 1; f.opt.tagFocus = false;
    return f;
}
inline Family famHist(int tier) {
    Family f; int g = 0;
    std::vector<Shape> sh = {{"comp", {-1, -1, 1, 1}, {{1, 2}}}, {"comp2par", {-1, -1, 1, 1}, {{1, 2}, {1, 3}}}, {"comp3", {-1, -1, 1, 1, 1}, {{1, 2}}},
                             {"nest", {-1, -1, 1, 2, 2, 1}, {{1, 2}, {2, 3}}}, {"side", {-1, -1, 1, 1, -1}, {{1, 2}}},
                             {"parnest", {-1, -1, 1, 2, 2, 1, 5, 5}, {{1, 2}, {1, 5}, {2, 3}, {5, 6}}}};
    if (tier) {
        sh.push_back({"two", {-1, 0, 0, -1, 3, 3}, {{0, 1}, {3, 4}}});
        sh.push_back({"deep", {-1, -1, 1, 2, 3, 3, 2}, {{1, 2}, {2, 3}, {3, 4}}});
    }
    for (auto& s : sh) for (int variant = 0; variant < 4; ++variant) {
        // history on the outer composite, on the nested ones, default target / callback variants
        for (int def = 0; def < 3; ++def) {
            Mach b = baseMach(s); b.name = "hist/" + s.name;
            for (int p = 0; p < b.n; ++p) if (b.composite(p)) {
                bool nested = b.parent[p] >= 0;
                if (nested && variant < 2) continue;
                HistDef h; h.parent = p; h.deep = (variant % 2) != 0; h.cb = def != 0;
                if (def == 2) { for (int c = 0; c < b.n; ++c) if (b.parent[c] == p) h.def = c; }
                b.hist.push_back(h);
                if (!nested && variant >= 2) { h.deep = !h.deep; b.hist.push_back(h); }
            }
            bool nestedAny = false;
            for (int p = 0; p < b.n; ++p) if (b.composite(p) && b.parent[p] >= 0) nestedAny = true;
            if (variant >= 2 && !nestedAny && def != 1) continue;
            addBaseEvents(b, true, b.n <= 6);
            b.focusEvents = b.stepEvents;
            if (b.n > 6) { b.focusEvents.clear(); for (auto& t : b.trans) if (t.to >= HBASE) b.focusEvents.push_back(t.ev); }
            f.jobs.push_back({b, g});
            b.focusEvents.clear();
            // an event shared by a history transition and something else (history inside parallel configurations)
            if (b.n <= 5 || tier) {
                Family tmp;
                overlaps(tmp, b, g, 2, candidates(b, true), false, false, [](const std::vector<TransDef>& ts) {
                    for (auto& t : ts) if (t.to >= HBASE) return true;
                    return false; });
                for (auto& j : tmp.jobs) f.jobs.push_back(j);
            }
            ++g;
        }
    }
    f.opt.contDepth = 1; f.opt.maxVetoes = 1; f.opt.tagFocus = false; f.opt.maxDepth = 16;
    return f;
}
inline Family famFinal(int tier) {
    Family f; int g = 0;
    struct FS { Shape s; std::vector<int> finals; };
    std::vector<FS> fs = {
        {{"comp", {-1, -1, 1, 1}, {{1, 2}}}, {3}},
        {{"comp3", {-1, -1, 1, 1, 1}, {{1, 2}}}, {3, 4}},
        {{"par", {-1, -1, 1, 1, 1, 1}, {{1, 2}, {1, 3}}}, {4, 5}},                                  // A, B{*C,*D,E!,F!}
        {{"parnest", {-1, -1, 1, 2, 2, 1, 5, 5}, {{1, 2}, {1, 5}, {2, 3}, {5, 6}}}, {4, 7}},       // A, B{*C{D,E!},*F{G,H!}}
        {{"nest", {-1, -1, 1, 2, 2, 1}, {{1, 2}, {2, 3}}}, {4, 5}},                                 // A, B{C{D,E!},F!}
        {{"top", {-1, -1, -1, -1, 3}, {{3, 4}}}, {2, 1}},
    };
    for (auto& x : fs) for (int variant = 0; variant < 4; ++variant) {
        Mach b = baseMach(x.s); b.name = "final/" + x.s.name;
        for (size_t i = 0; i < x.finals.size(); ++i) b.fin[x.finals[i]] = (variant >> (i & 1)) & 1 ? SELFDEF : EZ;
        addBaseEvents(b, false, b.n <= 6);
        // reactions to the completion event at every composite level and in other regions
        for (int p = 0; p < b.n; ++p) if (b.composite(p)) {
            int to = -1; for (int q = 0; q < b.n; ++q) if (q != p && b.parent[q] == b.parent[p]) { to = q; break; }
            if (to >= 0) b.trans.push_back({p, to, EZ});
        }
        b.stepEvents.push_back(EZ);
        Mach b0 = b; b0.focusEvents = b0.stepEvents;
        f.jobs.push_back({b0, g});
        auto cand = candidates(b, false);
        overlaps(f, b, g, 2, cand, false, false, [&](const std::vector<TransDef>& ts) {
            for (auto& t : ts) if (b.fin[t.to] != NONE) return true;
            for (auto& t : ts) if (b.composite(t.from)) return variant != 0;
            return false; });
        ++g;
    }
    (void)tier;
    f.opt.contDepth = 1; f.opt.maxVetoes = 1; f.opt.tagFocus = false;
    return f;
}
inline Family famAction(int tier) {
    Family f; int g = 0;
    for (auto& s : shapes(tier ? 2 : 1)) {
        Mach b = baseMach(s); b.name = "action/" + s.name;
        addBaseEvents(b, false, s.parent.size() <= 6);
        std::vector<int> nav = b.stepEvents;
        // timers: an action on every state and trigger, each with its own timer
        for (int kindSet = 0; kindSet < 3; ++kindSet) {
            Mach m = b; int id = 1;
            for (int st = 0; st < m.n; ++st) for (int tr = 0; tr < 2; ++tr) {
                int kind = (id + kindSet) % 3;
                ActDef a{st, tr == 0, kind, {}};
                if (kind == 0) a.args = {id, 100 + id, id & 1}; else a.args = {id};
                m.acts.push_back(a); ++id;
                if (kindSet == 2) { ActDef a2 = a; a2.kind = 1; a2.args = {a.args[0]}; m.acts.push_back(a2); }   // two actions, registration order
            }
            m.focusEvents = m.stepEvents; if (m.n > 6) m.focusEvents.resize(8);
            f.jobs.push_back({m, -1});
        }
        // every ordered pair of actions on one state and trigger (they run in registration order, all of them)
        if (b.n <= 6) for (int st = 0; st < b.n; ++st) for (int tr = 0; tr < 2; ++tr) for (int k1 = 0; k1 < 4; ++k1) for (int k2 = 0; k2 < 4; ++k2) {
            Mach m = b;
            for (int i = 0; i < 2; ++i) {
                ActDef a{st, tr == 0, i ? k2 : k1, {}};
                if (a.kind == 0) a.args = {1 + i, 200 + i, i}; else if (a.kind == 3) { a.args = {nav[(st * 7 + k1 * 3 + k2 + i * 5) % nav.size()]}; if (k2 & 1) { a.args.push_back(0); a.args.push_back(860 + i); } } else a.args = {1 + i};
                m.acts.push_back(a);
            }
            f.jobs.push_back({m, -1});
        }
        // TRANSITION actions: one sender, every base event as target
        int evCount = 0;
        for (int st = 0; st < b.n; ++st) for (int tr = 0; tr < 2; ++tr) for (size_t ei = 0; ei < nav.size(); ei += (b.n > 4 && !tier ? 5 : b.n > 6 ? 4 : 1)) {
            Mach m = b; ++evCount;
            ActDef a{st, tr == 0, 3, {nav[ei]}};
            if (evCount & 1) { a.args.push_back(0); a.args.push_back(850); }
            m.acts.push_back(a);
            m.rev = (evCount & 2) != 0;
            f.jobs.push_back({m, -1});
        }
    }
    (void)g;
    f.opt.contDepth = 1; f.opt.maxVetoes = 1; f.opt.tagFocus = false;
    return f;
}
inline Family famPossible(int tier) {
    Family f; int g = 0;
    for (auto& s : shapes(tier ? 2 : 1)) {
        Mach b = baseMach(s); b.name = "poss/" + s.name;
        addBaseEvents(b, false, true);
        f.jobs.push_back({b, g});
        overlaps(f, b, g, s.parent.size() <= 4 ? 2 : (tier ? 2 : 1), candidates(b, false), s.parent.size() <= 4, false, nullptr);
        ++g;
    }
    Family e = famEntry(0);
    for (size_t i = 0; i < e.jobs.size(); i += tier ? 1 : 7) f.jobs.push_back(e.jobs[i]);
    f.opt.queries = true; f.opt.pendingQueries = true; f.opt.contDepth = 1; f.opt.tagFocus = false;
    return f;
}
// senders inside callbacks
inline Family famQueue(int tier, bool clear) {
    Family f;
    std::vector<Shape> sh = {{"flat3", {-1, -1, -1}, {}}, {"comp", {-1, -1, 1, 1}, {{1, 2}}}, {"nest", {-1, -1, 1, 2, 2}, {{1, 2}, {2, 3}}}};
    if (tier) sh.push_back({"parnest", {-1, -1, 1, 2, 1, 4}, {{1, 2}, {1, 4}, {2, 3}, {4, 5}}});
    for (auto& s : sh) {
        Mach b = baseMach(s); b.name = std::string(clear ? "clear/" : "fifo/") + s.name;
        b.hist.clear();
        if (b.n > 3) { b.hist.push_back({1, true, NONE, true}); }
        // X and Y: two different cyclic walks through the machine; Z: rarely enabled
        auto sib = [&](int a, int step) { std::vector<int> v; for (int q = 0; q < b.n; ++q) if (b.parent[q] == b.parent[a]) v.push_back(q);
            if (v.size() < 2) return -1; size_t i = std::find(v.begin(), v.end(), a) - v.begin(); return v[(i + step) % v.size()]; };
        for (int a = 0; a < b.n; ++a) {
            int x = sib(a, 1), y = sib(a, int(2));
            if (x >= 0 && b.parent[a] < 0) b.trans.push_back({a, x, EX});
            if (b.parent[a] >= 0 && x >= 0) b.trans.push_back({a, x, EY});
            if (b.parent[a] < 0) { if (y >= 0 && y != a) b.trans.push_back({a, y, EY}); else b.trans.push_back({a, a, EY, true, false}); }
        }
        if (!b.hist.empty()) b.trans.push_back({0, HBASE, EZ});
        b.trans.push_back({1, 1, EZ, true, true});
        b.trans.push_back({b.n - 1, b.n - 1, EZ, true, false});
        b.stepEvents = {EX, EY, EZ}; b.focusEvents = b.stepEvents;
        for (int kind : {int(K_EXIT), int(K_TRANS), int(K_ENTER), int(K_CHANGED), int(K_HCB), int(K_FAILED)}) {
            int lim = kind == K_TRANS ? int(b.trans.size()) : kind == K_HCB ? int(b.hist.size()) : kind == K_FAILED ? 4 : b.n;
            for (int id = (kind == K_FAILED ? 1 : 0); id < lim; ++id) for (int ev : b.stepEvents) {
                Mach m = b; EmitDef e; e.kind = uint8_t(kind); e.id = id; e.ev = ev; e.clear = clear;
                m.emits.push_back(e);
                f.jobs.push_back({m, -1});
                if (tier || kind == K_CHANGED) {      // second sender
                    for (int id2 = 0; id2 < b.n; ++id2) { if (s.name == "parnest" && (kind == K_TRANS || kind == K_HCB || kind == K_FAILED || !b.related(id, id2))) continue; /* regions have no order */ Mach m2 = m; EmitDef e2; e2.kind = K_ENTER; e2.id = id2; e2.ev = EX + (ev % 3); e2.clear = clear && (id2 & 1); m2.emits.push_back(e2); f.jobs.push_back({m2, -1}); }
                }
            }
        }
        if (!clear) f.jobs.push_back({b, -1});
    }
    f.opt.maxBurst = 3; f.opt.contDepth = 0; f.opt.tagFocus = false; f.opt.maxVetoes = 0;
    return f;
}
