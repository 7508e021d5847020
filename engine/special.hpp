// Checks whose alphabet is the API itself rather than events: lifecycle, hierarchy registration, action registration.
#pragma once
#include <unistd.h>
#include "families.hpp"

using Progress = std::function<void(const std::string&)>;
inline bool isSpecial(const std::string& f) { return f == "life" || f == "struct" || f == "actargs"; }

// ---------------------------------------------------------------------------------------------------------------- E14
struct LifeModel {
    int phase = 0;                 // 0 new, 1 running, 2 released, 3 destroyed, 4 dispatcher gone
    int initial = 0;
    int state = -1;
    int starts = 0;
    bool timer = false;
};
struct LifeRun {
    enum Op { INIT, INIT_AGAIN_OTHER, INIT_FAILSTART, INIT_NULL, INIT_REFUSE_EV, INIT_REFUSE_TM, SET_A, SET_B, SEND, SYNC, CLEAR, ISR, QUERY, T_START, T_RESTART, T_STOP, T_QUERY, LATE, RELEASE, DROP_DISP, DESTROY, NOPS };
    static const char* name(int o) {
        static const char* n[] = {"initialize", "initialize(other dispatcher)", "initialize(dispatcher whose start fails)", "initialize(null)", "initialize(dispatcher refusing event handlers)", "initialize(dispatcher refusing timer handlers)",
                                  "setInitialState(A)", "setInitialState(B)", "transition", "transitionSync", "transitionWithQueueClear", "transitionInterruptSafe", "isTransitionPossible", "startTimer", "restartTimer", "stopTimer", "isTimerRunning",
                                  "deliver stale handlers", "release", "destroy dispatcher", "destroy"};
        return n[o];
    }
    struct D : InlineDispatcher { bool isTimerRunning(const TimerID_t) override { return true; } };
    std::shared_ptr<D> disp = std::make_shared<D>(), other = std::make_shared<D>(), bad = std::make_shared<D>(), refEv = std::make_shared<D>(), refTm = std::make_shared<D>();
    std::unique_ptr<NamedHsm> hsm{new NamedHsm(0)};
    Trace tr;
    std::vector<EventHandlerFunc_t> staleEv; std::vector<TimerHandlerFunc_t> staleTm; std::vector<EnqueuedEventHandlerFunc_t> staleEq;
    LifeModel m;
    LifeRun() {
        bad->startResult = false; refEv->refuseEvents = true; refTm->refuseTimers = true;
        for (int s = 0; s < 2; ++s) hsm->registerState(s, [this, s](const VariantVector_t&) { tr.push_back({K_CHANGED, s, -1}); }, [this, s](const VariantVector_t&) { tr.push_back({K_ENTER, s, -1}); return false || m.phase == 1; },
                                                       [this, s]() { tr.push_back({K_EXIT, s, -1}); return true; });
        hsm->registerTransition(0, 1, 1, [this](const VariantVector_t&) { tr.push_back({K_TRANS, 0, -1}); });
        hsm->registerTransition(1, 0, 1, [this](const VariantVector_t&) { tr.push_back({K_TRANS, 1, -1}); });
        hsm->registerTimer(5, 1);
        hsm->registerFailedTransitionCallback([this](const std::list<StateID_t>&, const EventID_t e, const VariantVector_t&) { tr.push_back({K_FAILED, e, -1}); });
        for (auto d : {disp, other, bad, refEv, refTm}) d->onTimerCall = [this](const InlineDispatcher::TimerCall& c) { tr.push_back({uint8_t(c.kind == 0 ? K_TSTART : c.kind == 1 ? K_TSTOP : K_TRESTART), c.timer, -1, c.interval * 2 + c.single}); };
    }
    Trace toggle() {      // what one processed event does
        int s = m.state; m.state = 1 - s;
        return {{K_EXIT, s, -1}, {K_TRANS, s, -1}, {K_ENTER, 1 - s, -1}, {K_CHANGED, 1 - s, -1}};
    }
    static bool enabled(const LifeModel& m, int op) {
        if (m.phase == 3) return op == LATE;
        if (m.phase == 2 && op <= INIT_REFUSE_TM) return false;               // "HSM can't be reused after calling this API"
        if (m.phase == 4 && (op <= INIT_REFUSE_TM || op == DROP_DISP || op == LATE)) return false;
        if (op == DROP_DISP) return m.phase == 1;
        if (op == LATE) return m.phase >= 2;
        return true;
    }
    std::string apply(int op) {
        Trace want; bool ret = false, wantRet = false, hasRet = true;
        tr.clear();
        bool run = m.phase == 1;
        auto init = [&](std::shared_ptr<D> d, bool usable) {
            bool wasRunning = m.phase == 1;
            if (!wasRunning && usable) { m.phase = 1; m.state = m.initial; want = {{K_ENTER, m.initial, -1}, {K_CHANGED, m.initial, -1}}; wantRet = true; }
            if (!wasRunning && usable) m.phase = 0;      // entry callback vetoes during initialize(): the veto is ignored
            ret = hsm->initialize(d);
            if (!wasRunning && usable) { m.phase = 1; if (d == other) std::swap(disp, other); }
        };
        switch (op) {
            case INIT: init(disp, true); break;
            case INIT_AGAIN_OTHER: init(other, true); break;
            case INIT_FAILSTART: init(bad, false); break;
            case INIT_NULL: ret = hsm->initialize(std::weak_ptr<IHsmEventDispatcher>()); break;
            case INIT_REFUSE_EV: init(refEv, false); break;
            case INIT_REFUSE_TM: init(refTm, false); break;
            case SET_A: case SET_B: hasRet = false; hsm->setInitialState(op == SET_A ? 0 : 1); if (m.phase == 0) m.initial = op == SET_A ? 0 : 1; break;
            case SEND: hasRet = false; if (run) want = toggle(); hsm->transition(1); break;
            case SYNC: if (run) { want = toggle(); wantRet = true; } ret = hsm->transitionSync(1, 1); break;
            case CLEAR: hasRet = false; if (run) want = toggle(); hsm->transitionWithQueueClear(1); break;
            case ISR: if (run) { want = toggle(); wantRet = true; } ret = hsm->transitionInterruptSafe(1); break;
            case QUERY: hasRet = m.phase <= 1; wantRet = run; ret = hsm->isTransitionPossible(1); break;
            case T_START: hasRet = false; if (run) want = {{K_TSTART, 5, -1, 15}}; hsm->startTimer(5, 7, true); break;
            case T_RESTART: hasRet = false; if (run) want = {{K_TRESTART, 5, -1}}; hsm->restartTimer(5); break;
            case T_STOP: hasRet = false; if (run) want = {{K_TSTOP, 5, -1}}; hsm->stopTimer(5); break;
            case T_QUERY: wantRet = run; ret = hsm->isTimerRunning(5); break;
            case LATE:       // the dispatcher still holds copies of the handlers and calls them
                for (auto& h : staleEv) ret |= h();
                for (auto& h : staleTm) ret |= h(5);
                for (auto& h : staleEq) ret |= h(1);
                break;
            case RELEASE: case DESTROY: case DROP_DISP:
                hasRet = false;
                if (run) { for (auto& h : disp->handlers) staleEv.push_back(h.second); for (auto& h : disp->timerHandlers) staleTm.push_back(h.second); for (auto& h : disp->enqHandlers) staleEq.push_back(h.second); }
                if (op == RELEASE) { hsm->release(); m.phase = 2; }
                else if (op == DESTROY) { hsm.reset(); m.phase = 3; }
                else { disp.reset(); m.phase = 4; staleEv.clear(); staleTm.clear(); staleEq.clear(); }
                if (op != DROP_DISP && run && (!disp->handlers.empty() || !disp->timerHandlers.empty() || !disp->enqHandlers.empty())) return "handlers left registered at the dispatcher";
                break;
        }
        std::string e;
        if (tr != want) e += "callbacks/dispatcher calls [" + traceStr(tr) + "], expected [" + traceStr(want) + "]; ";
        if (hasRet && ret != wantRet) e += std::string("returned ") + (ret ? "true" : "false") + ", expected " + (wantRet ? "true" : "false") + "; ";
        if (m.phase != 3) {
            if (hsm->isInitialized() != (m.phase == 1)) e += "isInitialized() is wrong; ";
            if (hsm->dispatcher().expired() != (m.phase != 1)) e += "dispatcher() is wrong; ";
            if (m.phase <= 1) {
                if (hsm->getLastActiveState() != (m.phase == 1 ? m.state : int(INVALID_HSM_STATE_ID))) e += "getLastActiveState() is wrong; ";
                if (hsm->getActiveStates().size() != (m.phase == 1 ? 1u : 0u)) e += "getActiveStates() is wrong; ";
                for (int s = 0; s < 2; ++s) if (hsm->isStateActive(s) != (m.phase == 1 && m.state == s)) e += "isStateActive() is wrong; ";
            }
        }
        return e;
    }
};
inline void lifeRec(std::vector<int>& seq, int depth, Stats& st, Violation& v, std::vector<std::string>& samples, Progress& pr, int part, int parts) {
    if (v.set) return;
    auto text = [&](size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += std::string(LifeRun::name(seq[i])) + " ; "; return s; };
    if (seq.size() >= 2 && (seq[0] * 31 + seq[1]) % parts != part) return;
    LifeModel m;
    {
        LifeRun r;
        pr(text(seq.size()));
        for (size_t i = 0; i < seq.size(); ++i) {
            std::string e = r.apply(seq[i]);
            ++st.execs;
            if (!e.empty()) { v.set = true; v.mach = "lifecycle: states A,B; event 1 toggles; timer 5"; v.what = e; for (size_t k = 0; k <= i; ++k) v.path.push_back(LifeRun::name(seq[k])); return; }
        }
        m = r.m;
        if (!seq.empty()) { ++st.transitions; }
        ++st.states;
        if (samples.size() < 3 && int(seq.size()) == depth && m.phase >= 2) samples.push_back(text(seq.size()));
    }
    if (int(seq.size()) >= depth) { ++st.machines; return; }
    for (int op = 0; op < LifeRun::NOPS; ++op) if (LifeRun::enabled(m, op)) { seq.push_back(op); lifeRec(seq, depth, st, v, samples, pr, part, parts); seq.pop_back(); if (v.set) return; }
}

// ---------------------------------------------------------------------------------------------------------------- E15
inline void runStruct(int tier, int part, int parts, bool safe, Stats& st, Violation& v, std::vector<std::string>& samples, Progress& pr) {
    const int N = 4;
    std::vector<RegCall> alpha;
    for (int p = 0; p < N; ++p) for (int s = 0; s < N; ++s) for (int e = 0; e < 2; ++e) alpha.push_back({p, s, e == 1, false});
    int maxLen = tier ? 4 : 3, mixedLen = maxLen;
    long idx = 0;
    std::function<void(std::vector<RegCall>&, std::vector<int>&, std::vector<EntryDef>&)> rec = [&](std::vector<RegCall>& calls, std::vector<int>& par, std::vector<EntryDef>& ents) {
        if (v.set) return;
        if (!calls.empty() && (idx++ % parts) == part) {
            Mach m; m.name = "struct"; m.n = N; m.parent = par; m.fin.assign(N, NONE); m.entries = ents; m.regCalls = calls; m.lateStates = (idx & 1) != 0;
            bool forest = true;
            if (!safe) {       // a structure that is no forest is not meant to be driven
                std::set<std::pair<int, int>> uniq;
                for (auto& c : calls) if (c.accept) { if (!uniq.insert({c.parent, c.child}).second) forest = false; }
                for (auto& a : uniq) for (auto& b : uniq) if (a.second == b.second && a.first != b.first) forest = false;
                std::map<int, int> up; for (auto& a : uniq) up[a.second] = a.first;
                for (int s = 0; s < N && forest; ++s) { int c = s, g = 0; while (up.count(c) && g++ < 9) c = up[c]; if (g >= 9) forest = false; }
            }
            std::string text = m.describe();
            pr(text);
            ++st.machines;
            if (samples.size() < 3 && calls.size() == 3 && ents.size() == 2) samples.push_back(text);
            if (!forest) { Drv d(m); ++st.execs; ++st.transitions; if (!d.regError.empty()) { v.set = true; v.mach = text; v.what = "wrong answer:" + d.regError; } }
            else {
                int ev = BASE;
                for (auto t : candidates(m, false)) { t.ev = ev++; m.trans.push_back(t); m.stepEvents.push_back(t.ev); }
                for (int init = 0; init < N && !v.set; ++init) {
                    if (m.parent[init] >= 0) continue;
                    Mach x = m; x.initial = init;
                    Opts o; o.contDepth = 0; o.maxDepth = tier ? 4 : 2; o.tagFocus = false;
                    Explorer ex(o, st, v);
                    ex.progress = [&](const Mach&, const std::vector<Step>*, const Step*) {};
                    ex.explore(x, nullptr);
                }
            }
        }
        if (int(calls.size()) >= maxLen) return;
        for (auto c : alpha) {
            if (c.entry && int(calls.size()) >= mixedLen) continue;
            bool ok = c.parent != c.child;
            if (ok && safe) {
                if (par[c.child] >= 0) ok = c.entry && par[c.child] == c.parent;    // one more entry transition to the same substate
                for (int q = c.parent; q >= 0 && ok; q = par[q]) if (q == c.child) ok = false;
            }
            c.accept = ok;
            auto par2 = par; auto ents2 = ents;
            if (ok) { par2[c.child] = c.parent; if (c.entry) ents2.push_back({c.parent, c.child}); }
            calls.push_back(c);
            rec(calls, par2, ents2);
            calls.pop_back();
        }
    };
    std::vector<RegCall> calls; std::vector<int> par(N, -1); std::vector<EntryDef> ents;
    rec(calls, par, ents);
    if (!safe || v.set) return;
    // every forest over K states x several build orders x every further pair: the answer alone
    const int K = tier ? 6 : 5;
    long fi = 0;
    std::vector<int> fp(K, -1);
    std::function<void(int)> forest = [&](int at) {
        if (v.set) return;
        if (at < K) { for (int p = -1; p < K; ++p) if (p != at) { fp[at] = p; forest(at + 1); } fp[at] = -1; return; }
        for (int s = 0; s < K; ++s) { int c = s, g = 0; while (c >= 0 && g++ <= K) c = fp[c]; if (c >= 0) return; }
        if ((fi++ % parts) != part) return;
        std::vector<int> kids; for (int s = 0; s < K; ++s) if (fp[s] >= 0) kids.push_back(s);
        int orders = 0;
        do {
            std::string text; for (int s : kids) text += std::string(1, char('A' + s)) + "<" + char('A' + fp[s]) + " ";
            pr("forest " + text);
            HierarchicalStateMachine h(0);
            ++st.machines; ++st.states;
            auto bad = [&](int p, int s, bool got) { v.set = true; v.mach = "hierarchy registered as " + text; v.what = std::string("wrong answer: registerSubstate(") + char('A' + p) + "," + char('A' + s) + ") returned " + (got ? "true" : "false"); };
            for (int s : kids) { ++st.execs; if (!(s & 1 ? h.registerSubstate(fp[s], s) : h.registerSubstateEntryPoint(fp[s], s))) { bad(fp[s], s, false); return; } }
            for (int p = 0; p < K; ++p) for (int s = 0; s < K; ++s) {
                if (p == fp[s] && p != s) {
                    ++st.transitions; ++st.execs;
                    if (h.registerSubstate(p, s)) { bad(p, s, true); return; }
                    HierarchicalStateMachine g(0);
                    for (int x : kids) (void)g.registerSubstate(fp[x], x);
                    if (!g.registerSubstateEntryPoint(p, s)) { bad(p, s, false); return; }
                    continue;
                }
                bool ok = p != s && fp[s] < 0;
                for (int q = p; q >= 0 && ok; q = fp[q]) if (q == s) ok = false;
                ++st.transitions; ++st.execs;
                if (ok) {      // an acceptance changes the hierarchy: ask a fresh machine
                    HierarchicalStateMachine g(0);
                    for (int x : kids) (void)g.registerSubstate(fp[x], x);
                    if (!g.registerSubstate(p, s)) { bad(p, s, false); return; }
                } else if (h.registerSubstate(p, s) || h.registerSubstateEntryPoint(p, s)) { bad(p, s, true); return; }
            }
        } while (++orders < (K > 5 ? 2 : 24) && std::next_permutation(kids.begin(), kids.end()));
    };
    forest(0);
}

// ---------------------------------------------------------------------------------------------------------------- E09 argument lists
inline Variant argOf(int t) {
    switch (t) {
        case 0: return Variant(5);
        case 1: return Variant(true);
        case 2: return Variant(7.0);
        case 3: return Variant("x");
        case 4: return Variant();
        case 5: return Variant(static_cast<uint64_t>(9));
        default: { VariantVector_t v; v.emplace_back(1); return Variant(v); }
    }
}
inline void runActArgs(int tier, int part, int parts, Stats& st, Violation& v, std::vector<std::string>& samples, Progress& pr) {
    const char* kinds[] = {"START_TIMER", "STOP_TIMER", "RESTART_TIMER", "TRANSITION"};
    const char* tn[] = {"int 5", "bool true", "double 7", "string", "empty", "uint64 9", "vector"};
    StateAction acts[] = {StateAction::START_TIMER, StateAction::STOP_TIMER, StateAction::RESTART_TIMER, StateAction::TRANSITION};
    auto numeric = [](int t) { return t == 0 || t == 2 || t == 5; };
    auto num = [](int t) { return t == 0 ? 5 : t == 2 ? 7 : 9; };
    int T = 7, maxLen = 4;
    long idx = 0;
    std::vector<std::vector<int>> lists{{}};
    for (size_t i = 0; i < lists.size(); ++i) if (int(lists[i].size()) < maxLen) for (int t = 0; t < T; ++t) { auto l = lists[i]; l.push_back(t); lists.push_back(l); }
    (void)tier;
    for (auto& l : lists) for (int k = 0; k < 4; ++k) for (int trg = 0; trg < 2 && !v.set; ++trg) {
        if ((idx++ % parts) != part) continue;
        std::string text = std::string(kinds[k]) + (trg ? " ON_STATE_EXIT" : " ON_STATE_ENTRY") + " args:";
        for (int t : l) text += std::string(" ") + tn[t];
        pr(text);
        if (samples.size() < 3 && l.size() == 3) samples.push_back(text);
        bool want = k == 0 ? (l.size() == 3 && numeric(l[0]) && numeric(l[1]) && l[2] == 1) : k == 3 ? (!l.empty() && numeric(l[0])) : (l.size() == 1 && numeric(l[0]));
        auto disp = std::make_shared<InlineDispatcher>();
        NamedHsm h(0);
        Trace tr; std::vector<VariantVector_t> got;
        disp->onTimerCall = [&](const InlineDispatcher::TimerCall& c) { tr.push_back({uint8_t(c.kind == 0 ? K_TSTART : c.kind == 1 ? K_TSTOP : K_TRESTART), c.timer, -1, c.interval * 2 + c.single}); };
        h.registerState(0); h.registerState(1);
        h.registerTransition(0, 1, 1); h.registerTransition(1, 0, 2);
        for (int e : {5, 7, 9}) for (int s : {0, 1}) h.registerSelfTransition(s, e, TransitionType::INTERNAL_TRANSITION, [&, e](const VariantVector_t& a) { tr.push_back({K_TRANS, e, -1, int(a.size())}); got.push_back(a); });
        auto trig = trg ? StateActionTrigger::ON_STATE_EXIT : StateActionTrigger::ON_STATE_ENTRY;
        bool ok = false;
        std::vector<Variant> a; for (int t : l) a.push_back(argOf(t));
        switch (a.size()) {
            case 0: ok = h.registerStateAction(1, trig, acts[k]); break;
            case 1: ok = h.registerStateAction(1, trig, acts[k], a[0]); break;
            case 2: ok = h.registerStateAction(1, trig, acts[k], a[0], a[1]); break;
            case 3: ok = h.registerStateAction(1, trig, acts[k], a[0], a[1], a[2]); break;
            default: ok = h.registerStateAction(1, trig, acts[k], a[0], a[1], a[2], a[3]); break;
        }
        ++st.machines; ++st.execs; st.transitions += 2; st.states += 2;
        std::string e;
        if (ok != want) e += std::string("registerStateAction returned ") + (ok ? "true" : "false") + ", expected " + (want ? "true" : "false") + "; ";
        h.initialize(disp);
        Trace expect;
        h.transitionSync(1, 1);
        Trace one;
        if (want) {
            if (k == 0) one = {{K_TSTART, num(l[0]), -1, num(l[1]) * 2 + 1}};
            else if (k == 1) one = {{K_TSTOP, num(l[0]), -1, 0}};
            else if (k == 2) one = {{K_TRESTART, num(l[0]), -1, 0}};
            else one = {{K_TRANS, num(l[0]), -1, int(l.size()) - 1}};
        }
        if (!trg) expect = one;
        if (tr != expect) e += "after entering: [" + traceStr(tr) + "], expected [" + traceStr(expect) + "]; ";
        h.transitionSync(2, 1);
        if (trg) expect = one;
        if (tr != expect) e += "after leaving: [" + traceStr(tr) + "], expected [" + traceStr(expect) + "]; ";
        if (want && k == 3) for (auto& g : got) for (size_t i = 1; i < l.size(); ++i) if (g.size() < i || !(g[i - 1] == argOf(l[i])) || g[i - 1].getType() != argOf(l[i]).getType()) e += "wrong argument delivered; ";
        if (!e.empty()) { v.set = true; v.mach = "registerStateAction " + text; v.what = e; }
    }
}

// thread-safety/trace/validation variants must show the same behaviour: exhaustive event sequences, one hash per machine
inline Family makeFamily(const std::string& f, int tier);
inline int dumpTraces(FILE* out, const std::string& fam, int tier, int part, int parts, long only) {
    Family f = makeFamily(fam, tier);
    long total = 0;
    size_t stride = std::max<size_t>(1, f.jobs.size() / (tier ? 1200 : 240));
    for (size_t i = 0, k = 0; i < f.jobs.size(); i += stride, ++k) {
        if (only >= 0 ? long(i) != only : int(k % parts) != part) continue;
        Mach m = f.jobs[i].m;
        std::vector<Step> al;
        int masks = 1 << m.nConds;
        for (int e : m.stepEvents) for (int q = 0; q < (std::find(m.focusEvents.begin(), m.focusEvents.end(), e) != m.focusEvents.end() ? masks : 1); ++q) { Step s; s.burst = {{e, q}}; al.push_back(s); }
        int depth = al.size() > 12 ? 2 : 3;
        uint64_t h = 1469598103934665603ull; long n = 0;
        auto mix = [&](uint64_t x) { h = (h ^ x) * 1099511628211ull; };
        std::vector<int> idx;
        std::function<void()> rec = [&]() {
            Drv d(m); Outcome o; d.startup(o);
            auto add = [&](const Outcome& x, const std::string& what) {
                for (auto& r : x.trace) { mix(r.k); mix(uint64_t(r.a)); mix(uint64_t(r.b)); mix(uint64_t(r.c)); }
                mix(x.active); mix(x.result); mix(x.query);
                if (only >= 0) fprintf(out, "%s => [%s] active %s result %d query %d\n", what.c_str(), traceStr(x.trace).c_str(), setStr(x.active).c_str(), x.result, x.query);
            };
            std::string path;
            if (idx.empty()) add(o, "startup");
            for (size_t k = 0; k < idx.size(); ++k) {
                Outcome x; Step s = al[idx[k]];
                if (k + 1 == idx.size() && (idx[k] & 1)) { s.query = s.burst[0].ev; s.qmask = s.burst[0].mask; }
                d.step(s, 10 + 10 * int(k), x); path += s.str() + " ; "; if (k + 1 == idx.size()) add(x, path);
            }
            ++n;
            if (int(idx.size()) < depth) for (size_t a = 0; a < al.size(); ++a) { idx.push_back(int(a)); rec(); idx.pop_back(); }
        };
        alarm(120);
        rec();
        total += n;
        if (only < 0) fprintf(out, "%zu %ld %016llx %s\n", i, n, (unsigned long long)h, m.describe().c_str());
    }
    fprintf(out, "TOTAL %ld\n", total);
    return 0;
}

inline void runSpecial(const std::string& fam, int tier, int part, int parts, Stats& st, Violation& v, std::vector<std::string>& samples, std::string&, Progress pr) {
    if (fam == "life") { std::vector<int> seq; lifeRec(seq, tier ? 6 : 4, st, v, samples, pr, part, parts); }
#ifdef ENGINE_UNSAFE
    if (fam == "struct") runStruct(tier, part, parts, false, st, v, samples, pr);
#else
    if (fam == "struct") runStruct(tier, part, parts, true, st, v, samples, pr);
#endif
    if (fam == "actargs") runActArgs(tier, part, parts, st, v, samples, pr);
}
inline Family makeFamily0(const std::string& f, int tier) {
    if (f == "sel") return famSelect(tier);
    if (f == "self") return famSelf(tier);
    if (f == "veto") return famVeto(tier);
    if (f == "entry") return famEntry(tier);
    if (f == "hist") return famHist(tier);
    if (f == "final") return famFinal(tier);
    if (f == "action") return famAction(tier);
    if (f == "poss") return famPossible(tier);
    if (f == "fifo") return famQueue(tier, false);
    if (f == "clear") return famQueue(tier, true);
    fprintf(stderr, "unknown family %s\n", f.c_str()); exit(2);
}
// every family: half of the machines registered through member pointers, and the base machines also with kinds of callbacks left out
inline Family makeFamily(const std::string& fam, int tier) {
    Family f = makeFamily0(fam, tier);
    size_t n = f.jobs.size();
    std::set<int> groups;
    for (size_t i = 0; i < n; ++i) {
        f.jobs[i].m.style = ((uint32_t(i) * 2654435761u) >> 20) & 1;
        if (f.jobs[i].group < 0 || !groups.insert(f.jobs[i].group).second) continue;
        const std::vector<int> modes = {1 << K_ENTER, 1 << K_EXIT, 1 << K_CHANGED, 1 << K_TRANS, 1 << K_HCB, (1 << K_ENTER) | (1 << K_EXIT), (1 << K_CHANGED) | (1 << K_TRANS)};
        const bool all = tier && fam != "hist" && fam != "entry";
        const size_t g = groups.size();
        for (size_t k = 0; k < modes.size(); ++k) {
            if (!all && k != g % modes.size() && k != (g + 3) % modes.size()) continue;
            if ((modes[k] & (1 << K_HCB)) && f.jobs[i].m.hist.empty()) continue;
            Job j = f.jobs[i]; j.m.silent = modes[k]; j.m.style = ((k + g) & 1) != 0; j.group = -1;
            if (j.m.focusEvents.size() > 6) j.m.focusEvents.resize(6);
            f.jobs.push_back(j);
        }
    }
    return f;
}
