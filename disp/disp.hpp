// D01/D02: bounded programs on a dispatcher which is driven by somebody else's event loop, run under the controlled scheduler of
// ../mc (virtual time, all input choices, all interleavings up to the preemption bound). The including file defines `Backend`.
#pragma once
#include "../mc/mc.hpp"
#include <hsmcpp/hsm.hpp>
#include <hsmcpp/HsmEventDispatcherBase.hpp>
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
using namespace hsmcpp;
#define NOTSAN __attribute__((no_sanitize("thread")))

// struct Backend {
//   typedef ... Disp;                       the dispatcher class
//   static std::shared_ptr<Disp> create(size_t cap);
//   static void iterate(Disp*);             runs the loop until it is at rest, time stands still
//   static void round(Disp*);               one non-blocking iteration of the loop
//   static void advance(int ms);
//   static void drop(std::shared_ptr<Disp>&);   releases the last reference and runs the loop
//   static const bool threads, foreignTimers;   other threads may use it / its timers
//   static const bool ownTime;                  its loop runs by itself while time passes (threads of its own)
// };

struct Token { bool* alive; Token(bool* a) : alive(a) { *a = true; } ~Token() { *alive = false; } };

static IHsmEventDispatcher* api(const std::shared_ptr<HsmEventDispatcherBase>& d) { return d.get(); }
template <class F> static void onThread(bool other, F f) {
    if (!other) { f(); return; }
    std::thread t(f); t.join();
}

// ================================================================================================================ D01
namespace d01 {
enum Op { EMIT_A, EMIT_B, ENQ, ACTION, UNREG_A, UNREG_B, UNREG_ENQ, ITERATE, T_EMIT_A, T_ENQ, T_ACTION, REREG_A, STOP, NOPS };
static const char* opName[] = {"emit A", "emit B", "enqueue", "action", "unregister A", "unregister B", "unregister enqueued", "iterate", "emit A (other thread)", "enqueue (other thread)", "action (other thread)", "register A again", "stop"};
enum Where { W_NONE, W_EVENT, W_ENQ, W_ACTION };
static const Op nestedOps[] = {EMIT_A, EMIT_B, ENQ, ACTION, UNREG_A, UNREG_B, UNREG_ENQ, REREG_A, STOP};
constexpr int NNEST = 9;
constexpr int CAP = 2;

template <class B> struct Run {
    typedef std::shared_ptr<typename B::Disp> D;
    D d;
    HandlerID_t idA = 0, idB = 0, idE = 0; bool regA = false, regB = false, regE = false, stopped = false;
    int genA = 0;
    std::deque<int> evs;                      // expected calls: generation of A (>= 0) or -1 for B
    std::deque<int> enq, act;
    int nextEnq = 100, nextAct = 0, dispatching = 0;
    Where where; Op nested; bool nestedDone = false;
    bool tokA = false;
    int tid0;

    NOTSAN void onCall(const char* what) {
        if (mc::tid() != tid0) mc::fail("%s was called on another thread than the loop's", what);
        if (++dispatching > 400) mc::fail("endless dispatching");
    }
    NOTSAN void nest(Where w) {
        if (w == where && !nestedDone) { nestedDone = true; mc::note("  nested: %s", opName[nested]); apply(nested, true); }
    }
    NOTSAN void gotA(int gen) {
        mc::note("  handler A(%d) called", gen);
        onCall("event handler");
        if (stopped) mc::fail("event handler called after stop()");
        if (!regA || gen != genA) mc::fail("event handler called after it was unregistered");
        if (evs.empty()) mc::fail("event handler called without an event");
        if (evs.front() != gen) mc::fail("events were not delivered in the order they were emitted");
        evs.pop_front(); nest(W_EVENT);
    }
    NOTSAN void gotB() {
        mc::note("  handler B called");
        onCall("event handler");
        if (stopped) mc::fail("event handler called after stop()");
        if (!regB) mc::fail("event handler called after it was unregistered");
        if (evs.empty()) mc::fail("event handler called without an event");
        if (evs.front() != -1) mc::fail("events were not delivered in the order they were emitted");
        evs.pop_front();
    }
    NOTSAN void gotE(int e) {
        mc::note("  enqueued event %d", e);
        onCall("handler of enqueued events");
        if (stopped) mc::fail("handler of enqueued events called after stop()");
        if (!regE) mc::fail("handler of enqueued events called after it was unregistered");
        if (enq.empty()) mc::fail("enqueued event %d delivered twice", e);
        if (enq.front() != e) mc::fail("enqueued event %d delivered instead of %d", e, enq.front());
        enq.pop_front(); nest(W_ENQ);
    }
    NOTSAN void gotAct(int a) {
        mc::note("  action %d", a);
        onCall("action");
        if (act.empty() || act.front() != a) { if (!stopped) mc::fail("action %d was run twice or too early", a); else return; }
        act.pop_front(); nest(W_ACTION);
    }
    NOTSAN void registerA() {
        int gen = ++genA; auto tok = std::make_shared<Token>(&tokA);
        idA = d->registerEventHandler([this, gen, tok]() { gotA(gen); return true; }); regA = true;
        if (idA == INVALID_HSM_DISPATCHER_HANDLER_ID || idA == idB) mc::fail("registration failed");
    }
    NOTSAN void purge(int what) { std::deque<int> n; for (int e : evs) if ((e == -1) != (what == -1)) n.push_back(e); evs = n; }
    NOTSAN void apply(Op o, bool nestedCall) {
        bool t = (o == T_EMIT_A || o == T_ENQ || o == T_ACTION);
        switch (o) {
            case EMIT_A: case T_EMIT_A: if (regA && !stopped) evs.push_back(genA); onThread(t, [&] { d->emitEvent(idA); }); break;
            case EMIT_B: if (regB && !stopped) evs.push_back(-1); d->emitEvent(idB); break;
            case ENQ: case T_ENQ: {
                int e = nextEnq++; bool acc = false; size_t before = enq.size();
                bool dead = stopped, known = regE;
                if (!dead && known) enq.push_back(e);                           // (it may be delivered before enqueueEvent() returns)
                onThread(t, [&] { acc = d->enqueueEvent(idE, e); });
                if (!dead && known) {
                    if (!acc) { if (!enq.empty() && enq.back() == e) enq.pop_back(); else mc::fail("refused event was delivered"); }
                    if (!acc && before < CAP) mc::fail("event was refused although only %d of %d are queued", int(before), CAP);
                    if (acc && !nestedCall && before >= CAP) mc::fail("event was accepted although the buffer is full");
                }
                break;
            }
            case ACTION: case T_ACTION: { int a = nextAct++; act.push_back(a); onThread(t, [&] { d->enqueueAction([this, a]() { gotAct(a); }); }); break; }
            case UNREG_A: d->unregisterEventHandler(idA); regA = false; purge(0); if (tokA && !dispatchingNow()) mc::fail("handler is kept after it was unregistered"); break;
            case UNREG_B: d->unregisterEventHandler(idB); regB = false; purge(-1); break;
            case UNREG_ENQ: d->unregisterEnqueuedEventHandler(idE); regE = false; enq.clear(); break;
            case REREG_A: d->unregisterEventHandler(idA); regA = false; purge(0); registerA(); break;
            case ITERATE: iterate(); break;
            case STOP: d->stop(); stopped = true; evs.clear(); enq.clear(); break;
            default: break;
        }
    }
    int inLoop = 0;
    NOTSAN bool dispatchingNow() { return inLoop > 0; }
    NOTSAN void iterate() {
        ++inLoop; B::iterate(d.get()); --inLoop;
        if (!evs.empty()) mc::fail("an emitted event was not delivered");
        if (!enq.empty()) mc::fail("an accepted enqueued event was not delivered");
        if (!act.empty() && !stopped) mc::fail("an action was not run");
        if (stopped) act.clear();
    }
    NOTSAN void run(int depth, int first) {
        tid0 = B::loopTid();
        d = B::create(CAP);
        if (!d->start()) mc::fail("start() failed");
        registerA();
        idB = d->registerEventHandler([this]() { gotB(); return true; }); regB = true;
        idE = d->registerEnqueuedEventHandler([this](const EventID_t e) { gotE(e); return true; }); regE = true;
        if (idB == idE || idA == idE) mc::fail("handlers with the same id");
        where = W_NONE; nested = NOPS;
        if (first < 0) { where = W_NONE; first = -1 - first; } else { where = Where(1 + mc::choose(3)); nested = nestedOps[mc::choose(NNEST)]; }
        for (int i = 0; i < depth; ++i) {
            Op o = Op(i == 0 ? first : mc::choose(NOPS));
            if (!B::threads && o >= T_EMIT_A && o <= T_ACTION) o = ITERATE;
            mc::note("%s", opName[o]);
            apply(o, false);
            if (B::eager) { iterate(); }
        }
        iterate();
        void* p = d.get(); B::drop(d);
        if (tokA || !mc::wasFreed(p)) mc::fail("dispatcher or its handlers are not destroyed after the last reference is released and the loop has run");
    }
};

template <class B> void seq(int depth) { std::unique_ptr<Run<B>> r(new Run<B>()); r->run(depth, mc::arg()); }

// many requests while the loop does not run
template <class B> NOTSAN void burst() {
    mc::maxSteps = 4000000;
    auto d = B::create(4); long n = 0, want = 70000;
    if (!d->start()) mc::fail("start() failed");
    HandlerID_t id = d->registerEventHandler([&]() { ++n; return true; });
    for (long i = 0; i < want; ++i) d->emitEvent(id);
    for (int i = 0; i < 20 && n < want; ++i) B::iterate(d.get());
    if (n != want) mc::fail("%ld of %ld events were delivered", n, want);
    d->enqueueAction([&]() { n = -1; });
    B::iterate(d.get());
    if (n != -1) mc::fail("dispatcher does not react any more after many requests");
    B::drop(d);
}

// another thread sends while the loop is dispatching (all interleavings)
template <class B> struct Conc {
    std::shared_ptr<typename B::Disp> d; HandlerID_t idA, idB, idE;
    int nA = 0, nB = 0, tid0; std::vector<int> enq, act; bool unregB = false, stopping = false;
    int wantA = 0, wantB = 0; std::vector<int> wantEnq, wantAct;
    NOTSAN void in(const char* w) { if (mc::tid() != tid0) mc::fail("%s was called on another thread than the loop's", w); mc::touch(); mc::point(); }
    NOTSAN void foreign(int o, int k) {
        switch (o) {
            case 0: ++wantA; d->emitEvent(idA); break;
            case 1: { bool r = d->enqueueEvent(idE, 100 + k); if (r) wantEnq.push_back(100 + k); else if (k == 0) mc::fail("event was refused although the buffer is empty"); break; }
            case 2: wantAct.push_back(k); d->enqueueAction([this, k]() { in("action"); act.push_back(k); }); break;
            case 3: d->unregisterEventHandler(idB); unregB = true; break;
            case 4: { HandlerID_t n = d->registerEventHandler([]() { return true; }); if (n == idA || n == idB || n == idE) mc::fail("handlers with the same id"); d->emitEvent(n); break; }
        }
    }
    NOTSAN void run(int stopToo) {
        d = B::create(8); tid0 = B::loopTid();
        if (!d->start()) mc::fail("start() failed");
        idA = d->registerEventHandler([this]() { in("event handler"); ++nA; if (nA == 1) { ++wantB; d->emitEvent(idB); } return true; });
        idB = d->registerEventHandler([this]() { in("event handler"); ++nB; return true; });
        idE = d->registerEnqueuedEventHandler([this](const EventID_t e) { in("handler"); enq.push_back(e); return true; });
        int o1 = mc::choose(5), o2 = stopToo ? 0 : mc::choose(5);
        wantA = 1; d->emitEvent(idA);
        std::thread t([&]() { foreign(o1, 0); if (!stopToo) foreign(o2, 1); });
        for (int i = 0; i < 3; ++i) { B::round(d.get()); std::this_thread::yield(); }
        if (stopToo) { d->stop(); t.join(); B::iterate(d.get()); B::drop(d); return; }
        t.join();
        B::iterate(d.get());
        if (nA != wantA) mc::fail("%d of %d events were delivered", nA, wantA);
        if (unregB ? nB > wantB : nB != wantB) mc::fail("%d of %d events were delivered", nB, wantB);
        if (enq != wantEnq) mc::fail("%d of %d enqueued events were delivered", int(enq.size()), int(wantEnq.size()));
        if (act != wantAct) mc::fail("%d of %d actions were run", int(act.size()), int(wantAct.size()));
        B::drop(d);
    }
};
template <class B> void conc(int stopToo) { std::unique_ptr<Conc<B>> c(new Conc<B>()); c->run(stopToo); }
}  // namespace d01

// ================================================================================================================ D02
namespace d02 {
enum Op { ADV1, ADV3, ADV10, START_S5, START_P5, START_S3, START_P3, RESTART, STOP, UNREG, START2, T_START_P5, T_RESTART, T_STOP, STOPDISP, NOPS };
static const char* opName[] = {"advance 1", "advance 3", "advance 10", "start(5, single)", "start(5, periodic)", "start(3, single)", "start(3, periodic)", "restart", "stop timer", "unregister handler", "start timer 2 (3, periodic)", "start(5, periodic) (other thread)", "restart (other thread)", "stop timer (other thread)", "stop dispatcher"};
static const Op nestedOps[] = {START_S5, START_P3, RESTART, STOP, UNREG, START2};
constexpr int NNEST = 6;
constexpr long NEVER = 1000000000;          // started by another thread and perhaps not yet known to the loop
struct Tm { bool exists = false, running = false, single = false; int interval = 0; long from = 0, due = -1; int fires = 0; bool afterStop = false; };

template <class B> struct Run {
    std::shared_ptr<typename B::Disp> d; HandlerID_t hTimer = 0, hEvent = 0;
    Tm t[3]; bool reg = true, stopped = false; long now = 0; int tid0;
    int nested = -1; bool nestedDone = false; int firedInRound[3];

    NOTSAN void start(int id, int iv, bool single) {
        if (stopped) t[id].afterStop = true;      // the interface does not say what a timer does which is started after stop()
        if (reg && !stopped) { Tm& x = t[id]; x.exists = x.running = true; x.single = single; x.interval = iv; x.from = now; x.fires = 0; x.due = -1; }
        api(d)->startTimer(hTimer, id, unsigned(iv), single);
    }
    NOTSAN void apply(int o, bool other) {
        switch (o) {
            case START_S5: start(1, 5, true); break;
            case START_P5: start(1, 5, false); break;
            case START_S3: start(1, 3, true); break;
            case START_P3: start(1, 3, false); break;
            case START2: start(2, 3, false); break;
            case RESTART: if (stopped) t[1].afterStop = true; if (t[1].exists && !stopped) { t[1].running = true; t[1].from = now; t[1].fires = 0; t[1].due = -1; } api(d)->restartTimer(1); break;
            case STOP: t[1] = Tm(); t[1].afterStop = stopped; api(d)->stopTimer(1); break;
            case UNREG: if (reg && !stopped) { t[1] = t[2] = Tm(); } reg = false; d->unregisterTimerHandler(hTimer); break;
            case STOPDISP: stopped = true; d->stop(); break;
            default: break;
        }
        for (Tm& x : t) if (x.running && x.due < 0) { if (other) x.due = NEVER; else x.due = x.from + x.interval; }
        check();
    }
    NOTSAN void check() {
        if (stopped) return;
        for (int id = 1; id <= 2; ++id) { bool r = api(d)->isTimerRunning(id); if (r != t[id].running) mc::fail("isTimerRunning(%d) is %s, but the timer is %s", id, r ? "true" : "false", t[id].running ? "running" : "not running"); }
    }
    NOTSAN void fired(int id) {
        if (B::ownTime) now = long(mc::nowMs());
        mc::note("  %ld ms: timer %d", now, id);
        if (mc::tid() != tid0) mc::fail("timer handler was called on another thread than the loop's");
        if (stopped && id >= 1 && id <= 2 && !t[id].afterStop) mc::fail("timer handler called after stop()");
        if (stopped) return;
        if (!reg) mc::fail("timer handler called after it was unregistered");
        if (id < 1 || id > 2) mc::fail("wrong timer id %d", id);
        Tm& x = t[id];
        if (!x.running) mc::fail("timer %d fired although it is not running", id);
        ++x.fires;
        if (now < x.from + long(x.fires) * x.interval) mc::fail("timer %d (interval %d, started at %ld) fired the %d. time after %ld ms", id, x.interval, x.from, x.fires, now - x.from);
        ++firedInRound[id];
        if (x.single) { x.running = false; x.due = -1; } else x.due = now + x.interval;
        if (id == 1) { d->emitEvent(hEvent); }
    }
    NOTSAN void event() {
        if (nested >= 0 && !nestedDone) { nestedDone = true; mc::note("  nested: %s", opName[nestedOps[nested]]); apply(nestedOps[nested], false); }
    }
    NOTSAN void loop() {
        if (B::ownTime) { now = long(mc::nowMs()); B::iterate(d.get()); for (int i = 1; i <= 2; ++i) firedInRound[i] = 0; for (int i = 1; i <= 2; ++i) if (t[i].running && t[i].due >= 0 && t[i].due < now && !stopped) mc::fail("timer %d (interval %d, started at %ld) did not fire until %ld", i, t[i].interval, t[i].from, now); check(); return; }
        bool must[3] = {}; for (int i = 1; i <= 2; ++i) { must[i] = t[i].running && t[i].due >= 0 && t[i].due <= now && !stopped; firedInRound[i] = 0; }
        B::iterate(d.get());
        for (int i = 1; i <= 2; ++i) {
            if (must[i] && !firedInRound[i] && t[i].running && t[i].due <= now && t[i].due >= 0) mc::fail("timer %d (interval %d, started at %ld) did not fire at %ld", i, t[i].interval, t[i].from, now);
            if (t[i].running && t[i].due == NEVER) t[i].due = now + t[i].interval;      // started by another thread: known to the loop from now on
        }
        check();
    }
    NOTSAN void adv(int ms) { if (!B::ownTime) now += ms; B::advance(ms); loop(); }
    NOTSAN void run(int depth, int first) {
        d = B::create(4); tid0 = B::timerTid();
        if (!d->start()) mc::fail("start() failed");
        hTimer = d->registerTimerHandler([this](const TimerID_t id) { fired(id); return true; });
        hEvent = d->registerEventHandler([this]() { event(); return true; });
        nested = mc::choose(NNEST + 1) - 1;
        for (int i = 0; i < depth; ++i) {
            int o = i == 0 ? first : mc::choose(NOPS);
            if ((!B::foreignTimers || !B::threads) && o >= T_START_P5 && o <= T_STOP) o = o == T_START_P5 ? START_P5 : o == T_RESTART ? RESTART : STOP;
            mc::note("%s", opName[o]);
            switch (o) {
                case ADV1: adv(1); break;
                case ADV3: adv(3); break;
                case ADV10: adv(10); break;
                case T_START_P5: onThread(true, [&] { apply(START_P5, true); }); break;
                case T_RESTART: onThread(true, [&] { apply(RESTART, true); }); break;
                case T_STOP: onThread(true, [&] { apply(STOP, true); }); break;
                default: apply(o, false); break;
            }
        }
        for (int i = 0; i < 7; ++i) adv(1);
        void* p = d.get(); B::drop(d);
        if (!mc::wasFreed(p)) mc::fail("dispatcher is not destroyed after the last reference is released and the loop has run");
    }
};
template <class B> void seq(int depth) { std::unique_ptr<Run<B>> r(new Run<B>()); r->run(depth, mc::arg()); }

// another thread uses a timer around its expiry (all interleavings)
template <class B> struct Conc {
    std::shared_ptr<typename B::Disp> d; typename B::Disp* raw = nullptr; HandlerID_t h = 0, hE = 0;
    long notBefore = 0; int fires = 0, firesAfter = 0; bool dead = false, settled = false, single; int interval = 5; long lastFrom = 0; int tid0; bool cb;
    NOTSAN void fired(int id) {
        if (mc::tid() != tid0) mc::fail("timer handler was called on another thread than the loop's");
        mc::note("  %ld ms: timer %d", long(mc::nowMs()), id);
        if (id != 1) mc::fail("wrong timer id");
        if (dead) mc::fail("timer handler called although the timer was stopped");
        if (long(mc::nowMs()) < notBefore) mc::fail("timer fired before its interval had passed (%ld ms too early)", notBefore - long(mc::nowMs()));
        ++fires; if (settled) ++firesAfter;
        mc::touch(); mc::point();
        if (cb) raw->emitEvent(hE);      // (also while the last reference is being released)
    }
    // two threads may use the timer: what an operation guarantees is only known if no starting operation overlapped with it
    int inflight = 0, begun = 0; bool unreg = false, vague = false;
    NOTSAN void op(int o) {
        long t0 = long(mc::nowMs()); int b0 = begun; bool solo = inflight == 0;
        switch (o) {
            case 0: case 1: case 2: {
                int iv = o == 2 ? interval : 3; bool s = o == 2 ? single : o == 0;
                auto call = [&] { if (o == 2) api(d)->restartTimer(1); else api(d)->startTimer(unreg ? -7 : h, 1, 3, s); };
                if (unreg || (o == 2 && dead && solo)) { call(); break; }                  // starts nothing
                dead = false; ++inflight; int my = ++begun; if (t0 + iv < notBefore) notBefore = t0 + iv; call(); --inflight;
                if (solo && inflight == 0 && begun == my) { interval = iv; single = s; notBefore = t0 + iv; firesAfter = 0; settled = true; if (long(mc::nowMs()) != t0) vague = true; }
                else { notBefore = 0; vague = true; }
                break;
            }
            case 3: api(d)->stopTimer(1); if (solo && begun == b0) dead = true; else vague = true; break;
            case 4: d->unregisterTimerHandler(h); if (solo && begun == b0) { dead = true; unreg = true; } else { vague = true; } break;
            case 5: (void)api(d)->isTimerRunning(1); break;
        }
    }
    NOTSAN void run(bool withCb) {
        cb = withCb; d = B::create(4); raw = d.get(); tid0 = B::timerTid();
        if (!d->start()) mc::fail("start() failed");
        h = d->registerTimerHandler([this](const TimerID_t id) { fired(id); return true; });
        int co = cb ? mc::choose(5) : 0;
        hE = d->registerEventHandler([this, co]() { if (co && fires == 1) op(co - 1); return true; });
        single = mc::choose(2) == 0;
        int o1 = mc::choose(6), o2 = cb ? 5 : mc::choose(6);
        long t0 = long(mc::nowMs()); api(d)->startTimer(h, 1, 5, single); notBefore = t0 + 5;
        B::round(d.get());
        bool foreign = B::foreignTimers;
        std::thread t([&]() { if (foreign) { op(o1); if (!cb) { op(o2); } } });
        for (int i = 0; i < 3; ++i) { B::advance(5); B::round(d.get()); std::this_thread::yield(); }
        t.join();
        if (cb) { B::iterate(d.get()); for (int i = 0; i < 12; ++i) { B::advance(1); B::iterate(d.get()); } B::drop(d); return; }   // only safety
        bool r = api(d)->isTimerRunning(1);
        if (dead && r) mc::fail("timer is reported as running after it was stopped");
        for (int i = 0; i < 12; ++i) { B::advance(1); B::iterate(d.get()); }
        if (!dead && !vague) {
            int n = settled ? firesAfter : fires;
            if (single && n != 1) mc::fail("single shot timer fired %d times", n);
            if (!single && n < 2) mc::fail("periodic timer fired %d times in %d ms", n, 12);
            if (api(d)->isTimerRunning(1) == single) mc::fail("isTimerRunning() is wrong");
        }
        B::drop(d);
    }
};
template <class B> void conc(bool cb) { std::unique_ptr<Conc<B>> c(new Conc<B>()); c->run(cb); }
}  // namespace d02

#define DISP_SCENARIOS(B)                                                                                       \
    template <int N> static void d01Seq() { d01::seq<B>(N); }                                                   \
    template <int N> static void d02Seq() { d02::seq<B>(N); }                                                   \
    static void d01Burst() { d01::burst<B>(); }                                                                 \
    static void d01Conc() { d01::conc<B>(0); }                                                                  \
    static void d01ConcStop() { d01::conc<B>(1); }                                                              \
    static void d02Conc() { d02::conc<B>(false); }                                                              \
    static void d02ConcCb() { d02::conc<B>(true); }                                                             \
    static std::vector<mc::Scenario>* scenarios() {                                                             \
        auto* v = new std::vector<mc::Scenario>();                                                              \
        auto add = [&](std::string n, void (*f)(), int a) { v->push_back({(new std::string(n))->c_str(), f, a}); }; \
        for (int f = 0; f < d01::NOPS; ++f) for (int nn = 0; nn < 2; ++nn) {                                    \
            std::string s = std::to_string(f) + (nn ? "n" : ""); int a = nn ? f : -1 - f;                       \
            add("d01_seq2_" + s, d01Seq<2>, a); add("d01_seq3_" + s, d01Seq<3>, a); add("d01_seq4_" + s, d01Seq<4>, a); add("d01_seq5_" + s, d01Seq<5>, a); \
        }                                                                                                       \
        for (int f = 0; f < d02::NOPS; ++f) { std::string s = std::to_string(f);                                \
            add("d02_seq3_" + s, d02Seq<3>, f); add("d02_seq4_" + s, d02Seq<4>, f); add("d02_seq5_" + s, d02Seq<5>, f); add("d02_seq6_" + s, d02Seq<6>, f); } \
        add("d01_burst", d01Burst, 0);                                                                          \
        if (B::threads) { add("d01_conc", d01Conc, 0); add("d01_conc_stop", d01ConcStop, 0); }                  \
        if (B::threads) { add("d02_conc", d02Conc, 0); add("d02_conc_cb", d02ConcCb, 0); }                      \
        return v;                                                                                               \
    }
