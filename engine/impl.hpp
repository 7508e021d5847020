// Drives the real HierarchicalStateMachine through a synchronous in-line dispatcher (public API only).
#pragma once
#include "mach.hpp"
#include <memory>
#include <functional>
#include <hsmcpp/hsm.hpp>
#include <hsmcpp/IHsmEventDispatcher.hpp>
#include <hsmcpp/variant.hpp>

using namespace hsmcpp;

class InlineDispatcher : public IHsmEventDispatcher {
public:
    struct TimerCall { int kind; int timer; int interval; bool single; HandlerID_t handler; };
    std::function<void(const TimerCall&)> onTimerCall;
    bool hold = false, running = false, startResult = true, refuseEvents = false, refuseTimers = false;
    int runBudget = 0;
    bool overrun = false;
    std::deque<HandlerID_t> pending;
    std::map<HandlerID_t, EventHandlerFunc_t> handlers;
    std::map<HandlerID_t, EnqueuedEventHandlerFunc_t> enqHandlers;
    std::map<HandlerID_t, TimerHandlerFunc_t> timerHandlers;
    HandlerID_t next = 1;
    int starts = 0;

    bool start() override { ++starts; return startResult; }
    void stop() override {}
    HandlerID_t registerEventHandler(const EventHandlerFunc_t& h) override { if (refuseEvents) return INVALID_HSM_DISPATCHER_HANDLER_ID; handlers[next] = h; return next++; }
    void unregisterEventHandler(const HandlerID_t id) override {
        handlers.erase(id);
        pending.erase(std::remove(pending.begin(), pending.end(), id), pending.end());
    }
    HandlerID_t registerEnqueuedEventHandler(const EnqueuedEventHandlerFunc_t& h) override { enqHandlers[next] = h; return next++; }
    void unregisterEnqueuedEventHandler(const HandlerID_t id) override { enqHandlers.erase(id); }
    void emitEvent(const HandlerID_t id) override { pending.push_back(id); if (!hold) run(); }
    void run() {
        if (running) return;
        running = true;
        int budget = 400;
        while (!pending.empty()) {
            if (--budget < 0) { overrun = true; pending.clear(); break; }
            HandlerID_t id = pending.front(); pending.pop_front();
            auto it = handlers.find(id);
            if (it != handlers.end()) { auto h = it->second; h(); }
        }
        running = false;
    }
    bool enqueueEvent(const HandlerID_t id, const EventID_t ev) override {
        auto it = enqHandlers.find(id);
        if (it == enqHandlers.end()) return false;
        auto h = it->second; h(ev);
        return true;
    }
    void enqueueAction(ActionHandlerFunc_t a) override { a(); }
    HandlerID_t registerTimerHandler(const TimerHandlerFunc_t& h) override { if (refuseTimers) return INVALID_HSM_DISPATCHER_HANDLER_ID; timerHandlers[next] = h; return next++; }
    void unregisterTimerHandler(const HandlerID_t id) override { timerHandlers.erase(id); }
    void startTimer(const HandlerID_t h, const TimerID_t t, const unsigned int i, const bool s) override {
        if (onTimerCall) onTimerCall({0, t, int(i), s, h});
    }
    void restartTimer(const TimerID_t t) override { if (onTimerCall) onTimerCall({2, t, 0, false, 0}); }
    void stopTimer(const TimerID_t t) override { if (onTimerCall) onTimerCall({1, t, 0, false, 0}); }
    bool isTimerRunning(const TimerID_t) override { return false; }
};

class NamedHsm : public HierarchicalStateMachine {
public:
    using HierarchicalStateMachine::HierarchicalStateMachine;
    std::string getStateName(const StateID_t s) const override { return s >= HBASE ? "H" + std::to_string(s - HBASE) : (s >= 0 ? std::string(1, char('A' + s)) : std::string()); }
    std::string getEventName(const EventID_t e) const override { return e == NONE ? std::string() : "ev" + std::to_string(e); }
};

struct Drv;
// the same callbacks as members of a handler object, for the member-pointer overloads of the API
struct Handler {
    Drv* d;
    template <int S> void changed(const VariantVector_t& a);
    template <int S> bool enter(const VariantVector_t& a);
    template <int S> bool exit();
    template <int T> void trans(const VariantVector_t& a);
    template <int X> void hist(const VariantVector_t& a);
    template <int C> bool cond(const VariantVector_t& a);
    void failed(const std::list<StateID_t>& l, const EventID_t e, const VariantVector_t& a);
    using V = void (Handler::*)(const VariantVector_t&); using B = bool (Handler::*)(const VariantVector_t&); using E = bool (Handler::*)();
    static constexpr int NS = 12, NT = 96, NH = 6, NC = 4;
    struct Tab { V changed[NS]; B enter[NS]; E exit[NS]; V trans[NT]; V hist[NH]; B cond[NC]; };
    template <int... S, int... T, int... X, int... C>
    static Tab mk(std::integer_sequence<int, S...>, std::integer_sequence<int, T...>, std::integer_sequence<int, X...>, std::integer_sequence<int, C...>) {
        return Tab{{&Handler::changed<S>...}, {&Handler::enter<S>...}, {&Handler::exit<S>...}, {&Handler::trans<T>...}, {&Handler::hist<X>...}, {&Handler::cond<C>...}};
    }
    static const Tab& tab() {
        static const Tab t = mk(std::make_integer_sequence<int, NS>(), std::make_integer_sequence<int, NT>(), std::make_integer_sequence<int, NH>(), std::make_integer_sequence<int, NC>());
        return t;
    }
};

struct Drv {
    const Mach& m;
    Handler handler{this};
    std::shared_ptr<InlineDispatcher> disp = std::make_shared<InlineDispatcher>();
    std::unique_ptr<HierarchicalStateMachine> hsm;
    Trace tr;
    bool recording = true;
    std::set<Veto> vetoes;
    std::vector<char> emitUsed;
    std::string regError;
    std::vector<std::vector<int>>* actAt = nullptr;     // active states at every record

    explicit Drv(const Mach& mm) : m(mm) {
        if (m.gen) { hsm.reset(m.gen->make(this)); watchTimers(); }
        else { hsm.reset(new NamedHsm(mm.initial)); build(); }
    }
    // ids of the machine <-> ids of the code
    int sid(int s) const { return !m.gen ? s : s >= HBASE ? m.gen->hist[s - HBASE] : m.gen->states[s]; }
    int sOf(int id) const {
        if (!m.gen) return id;
        for (size_t i = 0; i < m.gen->states.size(); ++i) if (m.gen->states[i] == id) return int(i);
        for (size_t i = 0; i < m.gen->hist.size(); ++i) if (m.gen->hist[i] == id) return HBASE + int(i);
        return -1;
    }
    int eid(int e) const { return m.gen ? m.gen->events.at(e) : e; }
    int eOf(int id) const { if (m.gen) { for (auto& e : m.gen->events) if (e.second == id) return e.first; return id == INVALID_HSM_EVENT_ID ? NONE : -1; } return id; }
    int tOf(int id) const { if (m.gen) { for (size_t i = 0; i < m.gen->timers.size(); ++i) if (m.gen->timers[i] == id) return int(i); return -1; } return id; }
    ~Drv() { hsm.reset(); }

    static VariantVector_t mkArgs(int mask, int tag) {
        VariantVector_t v;
        v.emplace_back(mask); v.emplace_back(tag); v.emplace_back(std::string("s") + std::to_string(tag));
        return v;
    }
    int tagOf(const VariantVector_t& a) {
        if (a.empty()) return -1;
        if (a.size() == 3 && a[0].isNumeric() && a[1].isNumeric() && a[2].isString()) {
            int t = int(a[1].toInt64());
            if (a[2].toString() == std::string("s") + std::to_string(t)) return t;
        }
        if (a.size() == 2 && a[0].isNumeric() && a[1].isNumeric() && a[1].toInt64() >= 800) return int(a[1].toInt64());
        rec(K_BAD, 1, int(a.size()));
        return -2;
    }
    int maskOf(const VariantVector_t& a) { return a.empty() ? 0 : int(a[0].toInt64()); }
    void rec(uint8_t k, int a, int b, int c = 0) {
        tr.push_back({k, a, b, c});
        if (actAt) { std::vector<int> v; for (int x : hsm->getActiveStates()) v.push_back(sOf(x)); actAt->push_back(v); }
        for (size_t i = 0; i < m.emits.size(); ++i) {
            auto& e = m.emits[i];
            if (e.kind == k && e.id == a && !emitUsed[i]) {
                emitUsed[i] = 1;
                (void)hsm->transitionExWithArgsArray(eid(e.ev), e.clear, false, 0, mkArgs(e.mask, 900 + int(i)));
            }
        }
    }
    bool enterRes(int s) const { return vetoes.count({K_ENTER, s}) == 0; }
    bool exitRes(int s) const { return vetoes.count({K_EXIT, s}) == 0; }
    HsmTransitionConditionCallback_t condCb(int c) {
        if (c < 0) return nullptr;
        return [this, c](const VariantVector_t& a) { (void)tagOf(a); return ((maskOf(a) >> c) & 1) != 0; };
    }
    template <class F> void each(size_t n, F f) { if (!m.rev) for (size_t i = 0; i < n; ++i) f(i); else for (size_t i = n; i-- > 0;) f(i); }
    void build() {
        const bool style = m.style && m.n <= Handler::NS && int(m.trans.size()) <= Handler::NT && int(m.hist.size()) <= Handler::NH && m.nConds <= Handler::NC;
        const Handler::Tab& tab = Handler::tab();
        Handler* hp = &handler;
        auto has = [&](int kind) { return ((m.silent >> kind) & 1) == 0; };
        auto mcond = [&](int c) -> Handler::B { return c < 0 ? nullptr : tab.cond[c]; };
        if (style) hsm->registerFailedTransitionCallback<Handler>(hp, &Handler::failed);
        else hsm->registerFailedTransitionCallback([this](const std::list<StateID_t>& l, const EventID_t e, const VariantVector_t& a) {
            int mask = 0; for (int s : l) mask |= 1 << (s < 26 ? s : 26);
            rec(K_FAILED, e, tagOf(a), mask);
        });
        auto states = [&]() {
        each(m.n, [&](size_t i) {
            int s = int(i);
            if (style) {
                Handler::V ch = has(K_CHANGED) ? tab.changed[s] : nullptr; Handler::B en = has(K_ENTER) ? tab.enter[s] : nullptr; Handler::E ex = has(K_EXIT) ? tab.exit[s] : nullptr;
                if (m.fin[s] == NONE) hsm->registerState<Handler>(s, hp, ch, en, ex);
                else hsm->registerFinalState<Handler>(s, m.fin[s] == SELFDEF ? INVALID_HSM_EVENT_ID : m.fin[s], hp, ch, en, ex);
                return;
            }
            HsmStateChangedCallback_t ch; HsmStateEnterCallback_t en; HsmStateExitCallback_t ex;
            if (has(K_CHANGED)) ch = [this, s](const VariantVector_t& a) { rec(K_CHANGED, s, tagOf(a)); };
            if (has(K_ENTER)) en = [this, s](const VariantVector_t& a) { bool r = enterRes(s); rec(K_ENTER, s, tagOf(a)); return r; };
            if (has(K_EXIT)) ex = [this, s]() { bool r = exitRes(s); rec(K_EXIT, s, -1); return r; };
            if (m.fin[s] == NONE) hsm->registerState(s, ch, en, ex);
            else hsm->registerFinalState(s, m.fin[s] == SELFDEF ? INVALID_HSM_EVENT_ID : m.fin[s], ch, en, ex);
        });
        };
        if (!m.lateStates) states();
        if (m.regCalls.empty()) {
        each(m.n, [&](size_t i) {
            int s = int(i);
            if (m.parent[s] < 0) return;
            auto entry = [&](const EntryDef& e) {
                return style ? hsm->registerSubstateEntryPoint<Handler>(e.parent, s, e.ev == NONE ? INVALID_HSM_EVENT_ID : e.ev, e.cond < 0 ? nullptr : hp, mcond(e.cond), e.exp)
                             : hsm->registerSubstateEntryPoint(e.parent, s, e.ev == NONE ? INVALID_HSM_EVENT_ID : e.ev, condCb(e.cond), e.exp); };
            std::vector<const EntryDef*> es;
            for (auto& x : m.entries) if (x.child == s) es.push_back(&x);
            bool ok = true;
            if (es.empty()) ok = hsm->registerSubstate(m.parent[s], s);
            else each(es.size(), [&](size_t k) { ok &= entry(*es[k]); });
            if (!ok) regError += " substate";
        });
        } else for (auto& c : m.regCalls) {
            bool ok = c.entry ? hsm->registerSubstateEntryPoint(c.parent, c.child) : hsm->registerSubstate(c.parent, c.child);
            if (ok != c.accept) regError += std::string(" ") + (c.entry ? "registerSubstateEntryPoint(" : "registerSubstate(") + char('A' + c.parent) + "," + char('A' + c.child) + ") returned " + (ok ? "true" : "false");
        }
        if (m.lateStates) states();
        for (size_t h = 0; h < m.hist.size(); ++h) {
            const StateID_t def = m.hist[h].def == NONE ? INVALID_HSM_STATE_ID : m.hist[h].def;
            if (style) {
                hsm->registerHistory<Handler>(m.hist[h].parent, HBASE + int(h), m.hist[h].deep ? HistoryType::DEEP : HistoryType::SHALLOW, def, hp, m.hist[h].cb && has(K_HCB) ? tab.hist[h] : nullptr);
                continue;
            }
            HsmTransitionCallback_t cb;
            if (m.hist[h].cb && has(K_HCB)) cb = [this, h](const VariantVector_t& a) { rec(K_HCB, int(h), tagOf(a)); };
            hsm->registerHistory(m.hist[h].parent, HBASE + int(h), m.hist[h].deep ? HistoryType::DEEP : HistoryType::SHALLOW,
                                 m.hist[h].def == NONE ? INVALID_HSM_STATE_ID : m.hist[h].def, cb);
        }
        each(m.trans.size(), [&](size_t i) {
            auto& t = m.trans[i];
            const TransitionType type = t.internal ? TransitionType::INTERNAL_TRANSITION : TransitionType::EXTERNAL_TRANSITION;
            if (style) {
                Handler::V cb = has(K_TRANS) ? tab.trans[i] : nullptr;
                if (t.self) hsm->registerSelfTransition<Handler>(t.from, t.ev, type, hp, cb, mcond(t.cond), t.exp);
                else hsm->registerTransition<Handler>(t.from, t.to, t.ev, hp, cb, mcond(t.cond), t.exp);
                return;
            }
            HsmTransitionCallback_t cb;
            if (has(K_TRANS)) cb = [this, i](const VariantVector_t& a) { rec(K_TRANS, int(i), tagOf(a)); };
            if (t.self) hsm->registerSelfTransition(t.from, t.ev, t.internal ? TransitionType::INTERNAL_TRANSITION : TransitionType::EXTERNAL_TRANSITION, cb, condCb(t.cond), t.exp);
            else hsm->registerTransition(t.from, t.to, t.ev, cb, condCb(t.cond), t.exp);
        });
        for (auto& a : m.acts) {
            auto trg = a.onEntry ? StateActionTrigger::ON_STATE_ENTRY : StateActionTrigger::ON_STATE_EXIT;
            bool ok = false;
            if (a.kind == 0) ok = hsm->registerStateAction(a.state, trg, StateAction::START_TIMER, a.args[0], a.args[1], a.args[2] != 0);
            if (a.kind == 1) ok = hsm->registerStateAction(a.state, trg, StateAction::STOP_TIMER, a.args[0]);
            if (a.kind == 2) ok = hsm->registerStateAction(a.state, trg, StateAction::RESTART_TIMER, a.args[0]);
            if (a.kind == 3) ok = a.args.size() >= 3 ? hsm->registerStateAction(a.state, trg, StateAction::TRANSITION, a.args[0], a.args[1], a.args[2])
                                                     : hsm->registerStateAction(a.state, trg, StateAction::TRANSITION, a.args[0]);
            if (!ok) regError += " action";
        }
        watchTimers();
    }
    void watchTimers() {
        disp->onTimerCall = [this](const InlineDispatcher::TimerCall& c) {
            const int t = tOf(c.timer);
            if (c.kind == 0) rec(K_TSTART, 0, -1, t * 10000 + c.interval * 2 + (c.single ? 1 : 0));
            if (c.kind == 1) rec(K_TSTOP, 0, -1, t);
            if (c.kind == 2) rec(K_TRESTART, 0, -1, t);
        };
        emitUsed.assign(m.emits.size(), 1);
    }
    void failed(const std::list<StateID_t>& l, const EventID_t e, const VariantVector_t& a) {
        int mask = 0; for (int x : l) { int s = sOf(x); mask |= 1 << (s >= 0 && s < 26 ? s : 26); }
        rec(K_FAILED, eOf(e), tagOf(a), mask);
    }
    uint32_t active() const { uint32_t r = 0; for (int x : hsm->getActiveStates()) { int s = sOf(x); r |= 1u << (s >= 0 && s < 26 ? s : 26); } return r; }
    bool startup(Outcome& o) {
        tr.clear();
        bool ok = hsm->initialize(disp);
        o.trace = tr; o.active = active();
        return ok;
    }
    void step(const Step& s, int tagBase, Outcome& o) {
        tr.clear();
        vetoes = std::set<Veto>(s.vetoes.begin(), s.vetoes.end());
        emitUsed.assign(m.emits.size(), 0);
        if (s.sync && s.burst.size() == 1) {
            if (s.query != NONE) o.query = hsm->isTransitionPossible(eid(s.query), s.qmask, 7, std::string("s7"));
            o.result = hsm->transitionExWithArgsArray(eid(s.burst[0].ev), false, true, 1, mkArgs(s.burst[0].mask, tagBase));
        } else {
            disp->hold = true;
            int k = 0;
            for (auto& e : s.burst) hsm->transitionWithArgsArray(eid(e.ev), mkArgs(e.mask, tagBase + k++));
            if (s.query != NONE) o.query = hsm->isTransitionPossible(eid(s.query), s.qmask, 7, std::string("s7"));
            disp->hold = false;
            disp->run();
        }
        vetoes.clear();
        emitUsed.assign(m.emits.size(), 1);
        o.trace = tr; o.active = active();
        if (disp->overrun) { o.trace.push_back({K_BAD, 2, 0, 0}); disp->overrun = false; }
    }
    // legality of what the accessors report, independent of the reference model; empty = fine
    std::string wellFormed(bool limbo) const {
        const auto& l = hsm->getActiveStates();
        std::vector<int> v; for (int x : l) v.push_back(sOf(x));
        std::set<int> seen;
        for (size_t i = 0; i < v.size(); ++i) {
            int s = v[i];
            if (limbo && s >= HBASE) continue;
            if (s < 0 || s >= m.n) return "unknown or pseudo state " + std::to_string(s) + " active";
            if (!seen.insert(s).second) return std::string("duplicate active state ") + char('A' + s);
            if (m.parent[s] >= 0) {
                auto p = std::find(v.begin(), v.end(), m.parent[s]);
                if (p == v.end()) return std::string("active state without active parent: ") + char('A' + s);
                if (p > v.begin() + i) return std::string("child precedes its parent in the active list: ") + char('A' + s);
            }
        }
        for (int s = 0; s < m.n; ++s) if (hsm->isStateActive(sid(s)) != (seen.count(s) != 0)) return std::string("isStateActive disagrees for ") + char('A' + s);
        if (!v.empty() && sOf(hsm->getLastActiveState()) != v.back()) return "getLastActiveState disagrees";
        if (v.empty()) return "no active state";
        if (!limbo) for (int s : seen) {
            bool uncond = false, child = false;
            for (auto& e : m.entries) if (e.parent == s && e.ev == NONE && e.cond < 0) uncond = true;
            for (int x : seen) if (m.parent[x] == s) child = true;
            if (uncond && !child) return std::string("active composite without active child: ") + char('A' + s);
        }
        return "";
    }
};
template <int S> void Handler::changed(const VariantVector_t& a) { d->rec(K_CHANGED, S, d->tagOf(a)); }
template <int S> bool Handler::enter(const VariantVector_t& a) { bool r = d->enterRes(S); d->rec(K_ENTER, S, d->tagOf(a)); return r; }
template <int S> bool Handler::exit() { bool r = d->exitRes(S); d->rec(K_EXIT, S, -1); return r; }
template <int T> void Handler::trans(const VariantVector_t& a) { d->rec(K_TRANS, T, d->tagOf(a)); }
template <int X> void Handler::hist(const VariantVector_t& a) { d->rec(K_HCB, X, d->tagOf(a)); }
template <int C> bool Handler::cond(const VariantVector_t& a) { (void)d->tagOf(a); return ((d->maskOf(a) >> C) & 1) != 0; }
inline void Handler::failed(const std::list<StateID_t>& l, const EventID_t e, const VariantVector_t& a) {
    int mask = 0; for (int s : l) mask |= 1 << (s < 26 ? s : 26);
    d->rec(K_FAILED, e, d->tagOf(a), mask);
}
