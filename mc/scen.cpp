// Bounded programs on the real library (STD dispatcher) for the controlled scheduler. The name's prefix tells the property.
#include "mc.hpp"
#include <hsmcpp/hsm.hpp>
#ifdef MC_FREERTOS
#include "../disp/freertos/scaled.hpp"
#include <hsmcpp/os/AtomicFlag.hpp>
#else
#include <hsmcpp/HsmEventDispatcherSTD.hpp>
#endif
#include <functional>
#include <memory>
#include <thread>
#include <vector>
using namespace hsmcpp;
#define NOTSAN __attribute__((no_sanitize("thread")))
#ifdef MC_FREERTOS                           // the same programs on the FreeRTOS port
typedef ScaledMachine H;
typedef ScaledDispatcher HsmEventDispatcherSTD;
typedef std::shared_ptr<ScaledDispatcher> D;
#else
typedef HierarchicalStateMachine H;
typedef std::shared_ptr<HsmEventDispatcherSTD> D;
#endif

// ------------------------------------------------------------------------------------------------------------- log
enum { TRANS, ENTER, EXIT, STATE, FAIL, COND, TIMER, ACTION, RAW, MARK };
struct Rec { int m, kind, a, b, tid; uint64_t t; };
static Rec L[300]; static int nL;
static int inside, dispTid = -1, dispSeen = -1;   // dispTid = 1: from now on all callbacks have to come from one thread, not the scenario's own
static bool overlapCheck = true;
NOTSAN static void rec(int m, int kind, int a, int b = 0) {
    mc::touch();
    static const char* n[] = {"transition", "enter", "exit", "state", "failed", "condition", "timer", "action", "handler", "mark"};
    mc::note("machine %d: %s %d (%d)", m, n[kind], a, b);
    if (nL < 300) { L[nL].m = m; L[nL].kind = kind; L[nL].a = a; L[nL].b = b; L[nL].tid = mc::tid(); L[nL].t = mc::nowMs(); ++nL; }
}
NOTSAN static int countOf(int m, int kind, int a, int b = -99) { int n = 0; for (int i = 0; i < nL; ++i) n += L[i].m == m && L[i].kind == kind && L[i].a == a && (b == -99 || L[i].b == b); return n; }
NOTSAN static int posOf(int m, int kind, int a, int b = -99) { for (int i = 0; i < nL; ++i) if (L[i].m == m && L[i].kind == kind && L[i].a == a && (b == -99 || L[i].b == b)) return i; return -1; }
NOTSAN static int countKind(int m, int kind) { int n = 0; for (int i = 0; i < nL; ++i) n += L[i].m == m && L[i].kind == kind; return n; }

struct Cb {
    NOTSAN Cb(int m, int kind, int a, int b = 0) {
        if (overlapCheck && inside) mc::fail("a callback of machine %d runs while another callback has not returned", m);
        ++inside;
        if (dispTid >= 0 && dispSeen < 0 && mc::tid() > 0) dispSeen = mc::tid();
        if (dispTid >= 0 && mc::tid() != dispSeen) mc::fail("callback of machine %d (kind %d, %d) runs on thread T%d instead of the dispatcher's", m, kind, a, mc::tid());
        rec(m, kind, a, b);
        mc::point();
    }
    NOTSAN ~Cb() { --inside; }
};
static int argOf(const VariantVector_t& v) { return v.empty() ? -1 : int(v[0].toInt64()); }
static HsmTransitionCallback_t T(int m, int a, std::function<void()> f = nullptr) { return [=](const VariantVector_t& v) { Cb c(m, TRANS, a, argOf(v)); if (f) f(); }; }
static HsmStateChangedCallback_t SC(int m, int a, std::function<void()> f = nullptr) { return [=](const VariantVector_t&) { Cb c(m, STATE, a); if (f) f(); }; }
static HsmStateEnterCallback_t EN(int m, int a) { return [=](const VariantVector_t&) { Cb c(m, ENTER, a); return true; }; }
static HsmStateExitCallback_t EX(int m, int a) { return [=]() { Cb c(m, EXIT, a); return true; }; }
static HsmTransitionConditionCallback_t CO(int m, int a, bool r) { return [=](const VariantVector_t&) { Cb c(m, COND, a); return r; }; }
static void failed(H& h, int m) { h.registerFailedTransitionCallback([=](const std::list<StateID_t>&, const EventID_t e, const VariantVector_t& v) { Cb c(m, FAIL, e, argOf(v)); }); }

// a machine with one state: event e -> callback with the event's argument
static void flat(H& h, int m, std::initializer_list<int> events) {
    h.registerState(0);
    for (int e : events) h.registerSelfTransition(0, e, TransitionType::INTERNAL_TRANSITION, T(m, e));
    failed(h, m);
}
static void init(H& h, const D& d) { MC_CHECK(h.initialize(d), "initialize() failed"); }
struct Th { std::thread t; explicit Th(std::function<void()> f) : t(f) {} ~Th() { if (t.joinable()) t.join(); } void join() { t.join(); } };
static void finish(H& h, D& d) { h.release(); d.reset(); }

// ------------------------------------------------------------------------------------------------------------- C01
static void once(int m, int e, int arg, const char* what) { int n = countOf(m, TRANS, e, arg); MC_CHECK(n == 1, "%s (event %d, argument %d) was processed %d times", what, e, arg, n); }
static void ordered(int m, int e1, int a1, int e2, int a2) { MC_CHECK(posOf(m, TRANS, e1, a1) < posOf(m, TRANS, e2, a2), "events of one thread were processed in another order than sent (%d/%d after %d/%d)", e1, a1, e2, a2); }
static void c01_2x2() {
    D d = HsmEventDispatcherSTD::create(); H h(0); flat(h, 0, {1}); init(h, d); dispTid = 1;
    { Th a([&] { h.transition(1, 10); h.transition(1, 11); });
      h.transition(1, 20); h.transition(1, 21); }
    mc::idle();
    for (int a : {10, 11, 20, 21}) once(0, 1, a, "event");
    ordered(0, 1, 10, 1, 11); ordered(0, 1, 20, 1, 21);
    MC_CHECK(nL == 4, "more callbacks than events"); finish(h, d);
}
static void c01_3x1() {
    D d = HsmEventDispatcherSTD::create(); H h(0); flat(h, 0, {1}); init(h, d); dispTid = 1;
    { Th a([&] { h.transition(1, 10); }); Th b([&] { h.transition(1, 20); }); h.transition(1, 30); }
    mc::idle();
    for (int a : {10, 20, 30}) once(0, 1, a, "event");
    finish(h, d);
}
static void c01_4x1() {
    D d = HsmEventDispatcherSTD::create(); H h(0); flat(h, 0, {1}); init(h, d); dispTid = 1;
    { Th a([&] { h.transition(1, 10); }); Th b([&] { h.transition(1, 20); }); Th c([&] { h.transition(1, 40); }); h.transition(1, 30); }
    mc::idle();
    for (int a : {10, 20, 30, 40}) once(0, 1, a, "event");
    finish(h, d);
}
static void c01_cb() {                      // a callback sends, another thread as well
    D d = HsmEventDispatcherSTD::create(); H h(0);
    h.registerState(0); failed(h, 0);
    h.registerSelfTransition(0, 1, TransitionType::INTERNAL_TRANSITION, T(0, 1, [&] { h.transition(2, 100); h.transition(2, 101); }));
    h.registerSelfTransition(0, 2, TransitionType::INTERNAL_TRANSITION, T(0, 2));
    init(h, d); dispTid = 1;
    { Th a([&] { h.transition(2, 10); h.transition(2, 11); }); h.transition(1, 20); }
    mc::idle();
    once(0, 1, 20, "event"); for (int a : {10, 11, 100, 101}) once(0, 2, a, "event");
    ordered(0, 2, 10, 2, 11); ordered(0, 2, 100, 2, 101); ordered(0, 1, 20, 2, 100);
    finish(h, d);
}
static void c01_states() {                  // real state changes, substate entries and failing events in between
    D d = HsmEventDispatcherSTD::create(); H h(0);
    h.registerState(0, SC(0, 0)); h.registerState(1, SC(0, 1)); h.registerState(2, SC(0, 2)); failed(h, 0);
    h.registerSubstateEntryPoint(1, 2);
    h.registerTransition(0, 1, 1, T(0, 1)); h.registerTransition(1, 0, 2, T(0, 2));
    init(h, d); dispTid = 1;
    { Th a([&] { h.transition(1, 10); h.transition(2, 11); });
      h.transition(1, 20); h.transition(2, 21); }
    mc::idle();
    for (int e : {1, 2}) for (int a : {10, 20}) { int n = countOf(0, TRANS, e, a + e - 1) + countOf(0, FAIL, e, a + e - 1); MC_CHECK(n == 1, "event %d/%d was processed %d times", e, a + e - 1, n); }
    int pos[4]; int k = 0;
    for (int a : {10, 11, 20, 21}) { int e = 1 + a % 10; int p = posOf(0, TRANS, e, a); if (p < 0) p = posOf(0, FAIL, e, a); pos[k++] = p; }
    MC_CHECK(pos[0] < pos[1] && pos[2] < pos[3], "events of one thread were processed in another order than sent");
    MC_CHECK(countOf(0, STATE, 2) == countOf(0, STATE, 1), "substate entered %d times, parent %d times", countOf(0, STATE, 2), countOf(0, STATE, 1));
    finish(h, d);
}
static void c01_histdef() {                 // senders while history leads to its default target
    D d = HsmEventDispatcherSTD::create(); H h(0); failed(h, 0);
    for (int s : {0, 1, 2, 3}) h.registerState(s, SC(0, s));
    h.registerState(4); h.registerSubstateEntryPoint(1, 2); h.registerSubstate(1, 3); h.registerHistory(1, 4, HistoryType::SHALLOW, 3, T(0, 7));
    h.registerTransition(0, 4, 4, T(0, 4)); h.registerTransition(1, 0, 3, T(0, 3)); h.registerSelfTransition(3, 5, TransitionType::INTERNAL_TRANSITION, T(0, 5)); h.registerSelfTransition(0, 5, TransitionType::INTERNAL_TRANSITION, T(0, 5));
    init(h, d); dispTid = 1;
    { Th a([&] { h.transition(5, 10); h.transition(5, 11); }); h.transition(4, 20); h.transition(5, 21); }
    mc::idle();
    once(0, 4, 20, "event"); for (int a : {10, 11, 21}) once(0, 5, a, "event"); ordered(0, 5, 10, 5, 11); ordered(0, 4, 20, 5, 21);
    MC_CHECK(countOf(0, STATE, 3) == 1 && countOf(0, STATE, 2) == 0, "default target entered %d times", countOf(0, STATE, 3));
    finish(h, d);
}
static void c01_mixed() {                   // transition(), transitionEx() async, transitionSync from another thread
    D d = HsmEventDispatcherSTD::create(); H h(0); flat(h, 0, {1}); init(h, d); dispTid = 1;
    { Th a([&] { h.transition(1, 10); MC_CHECK(h.transitionSync(1, HSM_WAIT_INDEFINITELY, 11), "result of a handled synchronous transition is false"); h.transition(1, 12); });
      MC_CHECK(h.transitionEx(1, false, false, 0, 20), "asynchronous transition returned false"); VariantVector_t v; v.emplace_back(21); h.transitionWithArgsArray(1, std::move(v)); }
    mc::idle();
    for (int a : {10, 11, 12, 20, 21}) once(0, 1, a, "event");
    ordered(0, 1, 10, 1, 11); ordered(0, 1, 11, 1, 12); ordered(0, 1, 20, 1, 21);
    finish(h, d);
}
static void c01_wake() {                    // the dispatcher has come to rest in between
    D d = HsmEventDispatcherSTD::create(); H h(0); flat(h, 0, {1}); init(h, d); dispTid = 1;
    mc::idle(); h.transition(1, 1); mc::idle(); once(0, 1, 1, "event");
    { Th a([&] { h.transition(1, 2); }); mc::idle(); } mc::idle(); once(0, 1, 2, "event");
    h.transition(1, 3); h.transition(1, 4); mc::idle(); once(0, 1, 3, "event"); once(0, 1, 4, "event");
    finish(h, d);
}

// ------------------------------------------------------------------------------------------------------------- C02
static void ab(H& h, int m, int t = -1) {   // two states, everything observed
    h.registerState(0, SC(m, 0), EN(m, 0), EX(m, 0)); h.registerState(1, SC(m, 1), EN(m, 1), EX(m, 1)); failed(h, m);
    h.registerTransition(0, 1, 1, T(m, 1), CO(m, 1, true)); h.registerTransition(1, 0, 1, T(m, 2), CO(m, 1, true));
    h.registerTransition(0, 1, 2, T(m, 3), CO(m, 2, false));
    if (t >= 0) h.registerTimer(t, 1);
}
// after the initial records every event's callbacks come as one uninterrupted group
NOTSAN static void groups(int from, int machines) {
    int state[3] = {0, 0, 0}; (void)machines;
    for (int i = from; i < nL;) {
        int m = L[i].m, s = state[m];
        static const int okSeq[5] = {COND, EXIT, TRANS, ENTER, STATE};
        int n = 0;
        if (L[i].kind == COND && L[i].a == 2) { if (!(i + 1 < nL && L[i + 1].m == m && L[i + 1].kind == FAIL)) mc::fail("callbacks of different events are interleaved (record %d)", i); i += 2; continue; }
        if (L[i].kind == FAIL) { ++i; continue; }
        for (; n < 5 && i + n < nL && L[i + n].m == m && L[i + n].kind == okSeq[n]; ++n) {
            int a = L[i + n].a;
            if ((n == 1 && a != s) || (n >= 3 && a != 1 - s)) break;
        }
        if (n != 5) mc::fail("callbacks of different events are interleaved (record %d, machine %d)", i + n, m);
        i += 5; state[m] = 1 - s;
    }
}
static void c02_send() {
    D d = HsmEventDispatcherSTD::create(); H h(0); ab(h, 0); init(h, d); dispTid = 1; int n0 = nL;
    { Th a([&] { h.transition(1); }); h.transition(1); h.transition(2); }
    mc::idle(); groups(n0, 1); finish(h, d);
}
static void c02_irq() {
    D d = HsmEventDispatcherSTD::create(); H h(0); ab(h, 0); init(h, d); dispTid = 1; int n0 = nL;
    { Th a([&] { h.transitionInterruptSafe(1); }); h.transition(1); h.transitionInterruptSafe(1); }
    mc::idle(); groups(n0, 1); MC_CHECK(countKind(0, TRANS) == 3, "%d of 3 events processed", countKind(0, TRANS)); finish(h, d);
}
static void c02_timer() {
    D d = HsmEventDispatcherSTD::create(); H h(0); ab(h, 0, 7); init(h, d); dispTid = 1; int n0 = nL;
    h.startTimer(7, 2, true);
    mc::sleepMs(2); h.transition(1); h.transition(2);
    mc::sleepMs(2); mc::idle(); groups(n0, 1); MC_CHECK(countKind(0, TRANS) == 2, "%d of 2 events processed", countKind(0, TRANS)); finish(h, d);
}
static void c02_two() {
    D d = HsmEventDispatcherSTD::create(); H g(0), h(0); ab(g, 0); ab(h, 1); init(g, d); dispTid = -1; init(h, d); mc::idle(); dispTid = 1; int n0 = nL;
    { Th a([&] { g.transition(1); }); h.transition(1); g.transition(1); }
    mc::idle(); groups(n0, 2); MC_CHECK(countKind(0, TRANS) == 2 && countKind(1, TRANS) == 1, "events lost: %d of 2, %d of 1", countKind(0, TRANS), countKind(1, TRANS)); g.release(); finish(h, d);
}
static void c02_nested() {                  // events sent by callbacks wait until the current event is complete, substate entry included
    D d = HsmEventDispatcherSTD::create(); H h(0);
    h.registerState(0, SC(0, 0)); h.registerState(1, SC(0, 1, [&] { h.transition(2); })); h.registerState(2, SC(0, 2)); failed(h, 0);
    h.registerSubstateEntryPoint(1, 2);
    h.registerTransition(0, 1, 1, T(0, 1, [&] { h.transition(2); }));
    h.registerSelfTransition(2, 2, TransitionType::INTERNAL_TRANSITION, T(0, 2));
    init(h, d); dispTid = 1;
    { Th a([&] { h.transition(2); }); h.transition(1); }
    mc::idle();
    int f = countKind(0, FAIL); MC_CHECK(countOf(0, TRANS, 2) + f == 3, "event 2: %d processed, %d failed of 3", countOf(0, TRANS, 2), f);
    MC_CHECK(f <= 1 && (f == 0 || posOf(0, FAIL, 2) < posOf(0, TRANS, 1)), "an event was processed before the entry of the substate was complete");
    finish(h, d);
}
static bool initDone;
static void c02_init() {                    // senders while initialize() is still calling the callbacks of the initial state
    D d = HsmEventDispatcherSTD::create(); static H* hp; H h(0); hp = &h; initDone = false;
    h.registerState(0, [&](const VariantVector_t&) { rec(0, STATE, 0); hp->transition(1, 1); mc::point(); rec(0, MARK, 1); });
    h.registerState(1, SC(0, 1)); failed(h, 0);
    h.registerSubstateEntryPoint(0, 1);
    h.registerSelfTransition(1, 1, TransitionType::INTERNAL_TRANSITION, T(0, 1));
    init(h, d); initDone = true; h.transition(1, 2);
    mc::idle();
    once(0, 1, 1, "event sent by the initial state's callback"); once(0, 1, 2, "event sent after initialize()"); ordered(0, 1, 1, 1, 2);
    MC_CHECK(posOf(0, STATE, 1) < posOf(0, TRANS, 1) && countKind(0, FAIL) == 0, "an event was processed before the initial substate was entered");
    MC_CHECK(posOf(0, MARK, 1) < posOf(0, STATE, 1), "a callback ran while a callback of the initial state had not returned");
    finish(h, d);
}
static void c02_init2() {                   // second machine's dispatcher is already running: its thread is free to run the new machine's events
    D d = HsmEventDispatcherSTD::create(); H g(0); flat(g, 1, {1}); init(g, d); static H* hp; H h(0); hp = &h;
    h.registerState(0, [&](const VariantVector_t&) { rec(0, STATE, 0); hp->transition(1, 1); mc::point(); rec(0, MARK, 1); }, [&](const VariantVector_t&) { rec(0, ENTER, 0); hp->transition(1, 2); mc::point(); rec(0, MARK, 2); return true; });
    h.registerState(1, SC(0, 1)); failed(h, 0);
    h.registerSubstateEntryPoint(0, 1);
    h.registerSelfTransition(1, 1, TransitionType::INTERNAL_TRANSITION, T(0, 1));
    overlapCheck = false;
    { Th a([&] { g.transition(1, 5); }); init(h, d); }
    mc::idle();
    once(0, 1, 1, "event sent by the initial state's callback"); once(0, 1, 2, "event sent by the initial state's callback"); once(1, 1, 5, "event of the other machine");
    MC_CHECK(posOf(0, MARK, 1) < posOf(0, STATE, 1) && posOf(0, STATE, 1) < posOf(0, TRANS, 1), "an event was processed before the initial state was complete");
    g.release(); finish(h, d);
}
static void c02_wakeup() {                  // everything at once
    D d = HsmEventDispatcherSTD::create(); H h(0); ab(h, 0, 7); init(h, d); dispTid = 1; int n0 = nL;
    h.startTimer(7, 1, true);
    { Th a([&] { h.transitionSync(1, HSM_WAIT_INDEFINITELY); }); mc::sleepMs(1); h.transitionInterruptSafe(1); d->enqueueAction([] { Cb c(2, ACTION, 1); }); }
    mc::sleepMs(1); mc::idle();
    int k = 0; for (int i = n0; i < nL; ++i) if (L[i].kind == ACTION) { MC_CHECK((i - n0) % 5 == 0, "an action ran in the middle of a transition"); for (int j = i; j + 1 < nL; ++j) L[j] = L[j + 1]; --nL; ++k; break; }
    groups(n0, 1); MC_CHECK(k == 1, "action ran %d times", k); MC_CHECK(countKind(0, TRANS) == 3, "%d of 3 events processed", countKind(0, TRANS)); finish(h, d);
}

// ------------------------------------------------------------------------------------------------------------- C03
static void abs_(H& h, int m) {             // 0 -1-> 1{2}; 1 -2-> 0; event 3 is handled nowhere; event 4 vetoed
    h.registerState(0, SC(m, 0)); h.registerState(1, SC(m, 1)); h.registerState(2, SC(m, 2));
    h.registerState(3, nullptr, [m](const VariantVector_t&) { Cb c(m, ENTER, 3); return false; });
    failed(h, m); h.registerSubstateEntryPoint(1, 2);
    h.registerTransition(0, 1, 1, T(m, 1)); h.registerTransition(1, 0, 2, T(m, 2)); h.registerTransition(0, 3, 4, T(m, 4)); h.registerTransition(1, 3, 4, T(m, 4));
    h.registerSelfTransition(0, 5, TransitionType::INTERNAL_TRANSITION, T(m, 5)); h.registerSelfTransition(1, 5, TransitionType::INTERNAL_TRANSITION, T(m, 5));
}
static void sync1(H& h, int e, int arg, bool expected) {
    bool r = h.transitionSync(e, HSM_WAIT_INDEFINITELY, arg);
    mc::touch();
    int n = countOf(0, TRANS, e, arg) + countOf(0, FAIL, e, arg);
    MC_CHECK(n > 0, "synchronous transition (event %d) returned before its event was processed", e);
    MC_CHECK(r == expected, "synchronous transition (event %d) returned %d instead of %d", e, r, expected);
}
static void once2(int e, int n) { MC_CHECK(countOf(0, FAIL, e) == n, "%d of %d unhandled events %d were reported", countOf(0, FAIL, e), n, e); }
static void c03_results() {
    D d = HsmEventDispatcherSTD::create(); H h(0); abs_(h, 0); init(h, d); dispTid = 1;
    { Th a([&] { sync1(h, 5, 10, true); sync1(h, 3, 11, false); }); sync1(h, 3, 20, false); sync1(h, 5, 21, true); }
    finish(h, d);
}
static void c03_entry() {                   // returns only after the substate was entered
    D d = HsmEventDispatcherSTD::create(); H h(0); abs_(h, 0); init(h, d); dispTid = 1;
    { Th a([&] { h.transition(5, 1); });
      sync1(h, 1, 20, true); MC_CHECK(countOf(0, STATE, 2) == 1, "synchronous transition returned before the substate was entered"); }
    finish(h, d);
}
static void c03_back() {
    D d = HsmEventDispatcherSTD::create(); H h(0); abs_(h, 0); init(h, d); dispTid = 1;
    sync1(h, 1, 1, true); sync1(h, 2, 2, true); sync1(h, 4, 3, false); sync1(h, 1, 4, true); MC_CHECK(countOf(0, STATE, 2) == 2, "substate not entered");
    finish(h, d);
}
static void c03_three() {
    D d = HsmEventDispatcherSTD::create(); H h(0); abs_(h, 0); init(h, d); dispTid = 1;
    { Th a([&] { sync1(h, 5, 10, true); }); Th b([&] { sync1(h, 3, 20, false); }); sync1(h, 5, 30, true); }
    finish(h, d);
}
static void c03_veto() {
    D d = HsmEventDispatcherSTD::create(); H h(0); abs_(h, 0); init(h, d); dispTid = 1;
    { Th a([&] { sync1(h, 4, 10, false); }); sync1(h, 5, 30, true); }
    finish(h, d);
}
static void c03_timeout() {                 // the handler takes 5 ms, the caller waits 3 ms
    D d = HsmEventDispatcherSTD::create(); H h(0); h.registerState(0); failed(h, 0);
    h.registerSelfTransition(0, 1, TransitionType::INTERNAL_TRANSITION, T(0, 1, [] { mc::sleepMs(5); rec(0, MARK, 1); }));
    h.registerSelfTransition(0, 2, TransitionType::INTERNAL_TRANSITION, T(0, 2));
    init(h, d); dispTid = 1;
    { Th a([&] { h.transition(2, 9); });
      uint64_t t0 = mc::nowMs(); bool r = h.transitionSync(1, 3, 1); uint64_t t1 = mc::nowMs();
      if (!mc::timeWasForced()) { MC_CHECK(!r, "synchronous transition reported success although its event takes longer than the timeout"); MC_CHECK(t1 - t0 == 3, "synchronous transition with timeout 3 returned after %d ms", int(t1 - t0)); }
      if (r) MC_CHECK(countOf(0, MARK, 1) == 1, "synchronous transition returned true before its event was processed"); }
    mc::sleepMs(10); mc::idle(); once(0, 1, 1, "event whose caller gave up waiting"); once(0, 2, 9, "event"); finish(h, d);
}
#ifdef MC_FREERTOS                           // the timeout is not a number of ticks
static void c03_ticks() {
    D d = HsmEventDispatcherSTD::create(); H h(0); h.registerState(0);
    h.registerSelfTransition(0, 1, TransitionType::INTERNAL_TRANSITION, T(0, 1)); init(h, d); dispTid = 1;
    int iv[] = {1, RTOS_TICK + 1}; int ms = iv[mc::choose(2)]; uint64_t t0 = mc::nowMs(); bool r = h.HierarchicalStateMachine::transitionSync(1, ms, 1); uint64_t t1 = mc::nowMs();
    if (!r) MC_CHECK(t1 - t0 >= uint64_t((ms + RTOS_TICK - 1) / RTOS_TICK), "synchronous transition with a timeout of %d ms (a tick has %d ms) gave up after %d ticks", ms, RTOS_TICK, int(t1 - t0));
    mc::idle(); once(0, 1, 1, "event"); finish(h, d);
}
#endif
static void c03_intime() {                  // enough time
    D d = HsmEventDispatcherSTD::create(); H h(0); h.registerState(0); failed(h, 0);
    h.registerSelfTransition(0, 1, TransitionType::INTERNAL_TRANSITION, T(0, 1, [] { mc::sleepMs(2); rec(0, MARK, 1); }));
    init(h, d); dispTid = 1;
    { Th a([&] { bool r = h.transitionSync(7, 10, 1); MC_CHECK(!r, "unhandled event reported as handled"); });
      bool r = h.transitionSync(1, 10, 1); if (!mc::timeWasForced()) MC_CHECK(r, "handled in time but reported as failed"); if (r) MC_CHECK(countOf(0, MARK, 1) == 1, "synchronous transition returned true before its event was processed"); }
    mc::sleepMs(10); mc::idle(); once(0, 1, 1, "event"); finish(h, d);
}
static void c03_timer() {                   // timer event and synchronous calls
    D d = HsmEventDispatcherSTD::create(); H h(0); abs_(h, 0); h.registerTimer(7, 5); init(h, d); dispTid = 1;
    h.startTimer(7, 1, true); mc::sleepMs(1); sync1(h, 1, 1, true); sync1(h, 3, 2, false);
    mc::sleepMs(2); mc::idle(); MC_CHECK(countOf(0, TRANS, 5) == 1, "timer event was processed %d times", countOf(0, TRANS, 5)); finish(h, d);
}

static void c03_parallel(int v) {           // two regions handle the event, one of them enters a composite state; both orders
    D d = HsmEventDispatcherSTD::create(); H h(0); failed(h, 0);
    for (int s : {0, 1, 2, 3, 4, 5}) h.registerState(s, SC(0, s));
    h.registerSubstateEntryPoint(2, 3);
    h.registerTransition(0, v ? 4 : 1, 1, T(0, 1)); h.registerTransition(0, v ? 1 : 4, 1);
    h.registerTransition(1, 2, 2, T(0, 2)); h.registerTransition(4, 5, 2);
    init(h, d); dispTid = 1; sync1(h, 1, 1, true);
    { Th a([&] { h.transition(9, 1); });
      sync1(h, 2, 20, true); MC_CHECK(countOf(0, STATE, 3) == 1 && countOf(0, STATE, 2) == 1 && countOf(0, STATE, 5) == 1, "synchronous transition returned before all regions had handled its event"); }
    finish(h, d);
}
static void c03_parallel1() { c03_parallel(0); }
static void c03_parallel2() { c03_parallel(1); }
static void c03_deep() {                    // two levels of entry points, the inner ones parallel
    D d = HsmEventDispatcherSTD::create(); H h(0); failed(h, 0);
    for (int s : {0, 1, 2, 3, 4}) h.registerState(s, SC(0, s));
    h.registerSubstateEntryPoint(1, 2); h.registerSubstateEntryPoint(2, 3); h.registerSubstateEntryPoint(2, 4);
    h.registerTransition(0, 1, 1, T(0, 1)); init(h, d); dispTid = 1;
    { Th a([&] { h.transition(9, 1); });
      sync1(h, 1, 20, true); for (int s : {1, 2, 3, 4}) MC_CHECK(countOf(0, STATE, s) == 1, "synchronous transition returned before state %d was entered", s); }
    finish(h, d);
}
static void c03_history(bool def) {         // stored or default target
    D d = HsmEventDispatcherSTD::create(); H h(0); failed(h, 0);
    for (int s : {0, 1, 2, 3}) h.registerState(s, SC(0, s));
    h.registerState(4); h.registerSubstateEntryPoint(1, 2); h.registerSubstate(1, 3); h.registerHistory(1, 4, HistoryType::SHALLOW, 3, T(0, 7));
    h.registerTransition(0, 1, 1, T(0, 1)); h.registerTransition(2, 3, 2, T(0, 2)); h.registerTransition(1, 0, 3, T(0, 3)); h.registerTransition(0, 4, 4, T(0, 4));
    init(h, d); dispTid = 1; int n = 0;
    if (!def) { sync1(h, 1, 1, true); sync1(h, 2, 2, true); sync1(h, 3, 3, true); n = 1; }
    { Th a([&] { h.transition(9, 1); h.transition(9, 2); });
      sync1(h, 4, 20, true); MC_CHECK(countOf(0, STATE, 3) == n + 1 && countOf(0, STATE, 1) == n + 1, "synchronous transition returned before history was restored"); MC_CHECK(countOf(0, TRANS, 7) == (def ? 1 : 0), "default transition of history called %d times", countOf(0, TRANS, 7)); }
    mc::idle(); once2(9, 2); finish(h, d);
}
static void c03_hist() { c03_history(false); }
static void c03_histdef() { c03_history(true); }

// ------------------------------------------------------------------------------------------------------------- C04
static void c04_waiter() {
    D d = HsmEventDispatcherSTD::create(); H h(0); flat(h, 0, {1, 2, 3}); init(h, d); dispTid = 1; bool r = false;
    { Th a([&] { r = h.transitionSync(1, HSM_WAIT_INDEFINITELY, 10); });
      h.transitionEx(2, true, false, 0, 20); h.transition(3, 21); }
    mc::idle();
    int n = countOf(0, TRANS, 1, 10); MC_CHECK(n <= 1, "event processed %d times", n);
    MC_CHECK(r == (n == 1), "synchronous transition returned %d, its event was processed %d times", r, n);
    once(0, 2, 20, "event which cleared the queue"); once(0, 3, 21, "event sent after the queue was cleared"); ordered(0, 2, 20, 3, 21);
    finish(h, d);
}
static void c04_failed_waiter() {           // the discarded event would have failed anyway
    D d = HsmEventDispatcherSTD::create(); H h(0); flat(h, 0, {2}); init(h, d); dispTid = 1; bool r = true;
    { Th a([&] { r = h.transitionSync(1, HSM_WAIT_INDEFINITELY, 10); });
      MC_CHECK(h.transitionEx(2, true, true, HSM_WAIT_INDEFINITELY, 20), "synchronous clearing transition failed"); }
    mc::idle(); MC_CHECK(!r, "unhandled or discarded event returned true"); once(0, 2, 20, "event which cleared the queue"); finish(h, d);
}
static void c04_two_clears() {
    D d = HsmEventDispatcherSTD::create(); H h(0); flat(h, 0, {1, 2}); init(h, d); dispTid = 1; bool r1 = false, r2 = false;
    { Th a([&] { r1 = h.transitionEx(1, true, true, HSM_WAIT_INDEFINITELY, 10); }); r2 = h.transitionEx(2, true, true, HSM_WAIT_INDEFINITELY, 20); }
    mc::idle(); int n1 = countOf(0, TRANS, 1, 10), n2 = countOf(0, TRANS, 2, 20);
    MC_CHECK(n1 <= 1 && n2 <= 1 && n1 + n2 >= 1, "clearing events: %d and %d processed", n1, n2);
    MC_CHECK(r1 == (n1 == 1) && r2 == (n2 == 1), "results %d %d, processed %d %d", r1, r2, n1, n2); finish(h, d);
}
static void c04_two_waiters() {
    D d = HsmEventDispatcherSTD::create(); H h(0); flat(h, 0, {1, 2, 3}); init(h, d); dispTid = 1; bool r1 = false, r2 = false;
    { Th a([&] { r1 = h.transitionSync(1, HSM_WAIT_INDEFINITELY, 10); }); Th b([&] { r2 = h.transitionSync(2, HSM_WAIT_INDEFINITELY, 11); }); h.transitionEx(3, true, false, 0, 20); }
    mc::idle(); int n1 = countOf(0, TRANS, 1, 10), n2 = countOf(0, TRANS, 2, 11);
    MC_CHECK(r1 == (n1 == 1) && r2 == (n2 == 1) && n1 < 2 && n2 < 2, "results %d %d, processed %d %d", r1, r2, n1, n2); once(0, 3, 20, "event which cleared the queue"); finish(h, d);
}
static void c04_entry() {                   // substate entry is never discarded
    D d = HsmEventDispatcherSTD::create(); H h(0); h.registerState(0, SC(0, 0)); h.registerState(1, SC(0, 1)); h.registerState(2, SC(0, 2)); failed(h, 0);
    h.registerSubstateEntryPoint(1, 2); h.registerTransition(0, 1, 1, T(0, 1)); h.registerSelfTransition(0, 3, TransitionType::INTERNAL_TRANSITION, T(0, 3)); h.registerSelfTransition(1, 3, TransitionType::INTERNAL_TRANSITION, T(0, 3)); init(h, d); dispTid = 1;
    h.transition(1, 1); mc::point(); h.transitionEx(3, true, false, 0, 2);
    { Th a([&] { h.transitionEx(3, true, false, 0, 3); }); }
    mc::idle();
    MC_CHECK(countOf(0, STATE, 1) == countOf(0, STATE, 2), "state entered %d times but its substate %d times", countOf(0, STATE, 1), countOf(0, STATE, 2));
    once(0, 3, 3, "last event"); MC_CHECK(countOf(0, TRANS, 1) <= 1 && countOf(0, TRANS, 3, 2) <= 1, "an event was processed twice"); finish(h, d);
}
static void c04_history() {
    D d = HsmEventDispatcherSTD::create(); H h(1); for (int i = 0; i < 4; ++i) h.registerState(i, SC(0, i)); failed(h, 0);
    h.registerSubstateEntryPoint(1, 2); h.registerSubstate(1, 3); h.registerHistory(1, 9, HistoryType::SHALLOW, 2);
    h.registerTransition(2, 3, 1, T(0, 1)); h.registerTransition(1, 0, 2, T(0, 2)); h.registerTransition(0, 9, 3, T(0, 3)); h.registerSelfTransition(0, 4, TransitionType::INTERNAL_TRANSITION, T(0, 4)); h.registerSelfTransition(1, 4, TransitionType::INTERNAL_TRANSITION, T(0, 4));
    init(h, d); MC_CHECK(h.transitionSync(1, HSM_WAIT_INDEFINITELY) && h.transitionSync(2, HSM_WAIT_INDEFINITELY), "setup"); dispTid = 1; int n3 = countOf(0, STATE, 3);
    { Th a([&] { h.transition(3); }); h.transitionEx(4, true, false, 0, 5); }
    mc::idle();
    MC_CHECK(countOf(0, TRANS, 3) <= 1 && countOf(0, STATE, 3) - n3 == countOf(0, TRANS, 3), "history transition taken %d times, previous substate restored %d times", countOf(0, TRANS, 3), countOf(0, STATE, 3) - n3); once(0, 4, 5, "event which cleared the queue"); finish(h, d);
}
static void c04_sender() {                  // an event sent after the clear returned is never discarded by it
    D d = HsmEventDispatcherSTD::create(); H h(0); flat(h, 0, {1, 2}); init(h, d); dispTid = 1; static bool cleared; cleared = false; bool late = false;
    { Th a([&] { mc::touch(); late = cleared; h.transition(1, 10); }); h.transitionEx(2, true, false, 0, 20); mc::touch(); cleared = true; }
    mc::idle(); int n = countOf(0, TRANS, 1, 10); MC_CHECK(n <= 1 && (!late || n == 1), "event sent after the clear was processed %d times", n); once(0, 2, 20, "event which cleared the queue"); finish(h, d);
}

// ------------------------------------------------------------------------------------------------------------- C05
static bool silent;
static HsmTransitionCallback_t TS(int m, int a, int ms = 0) { return [=](const VariantVector_t& v) { MC_CHECK(!silent, "a callback was called after release() had returned"); Cb c(m, TRANS, a, argOf(v)); if (ms) mc::sleepMs(ms); MC_CHECK(!silent, "release() returned while a callback was running"); }; }
static void quiet(H& h, int timer = -1, int ms = 0) { h.registerState(0); h.registerSelfTransition(0, 1, TransitionType::INTERNAL_TRANSITION, TS(0, 1, ms)); if (timer >= 0) h.registerTimer(timer, 1); silent = false; }
static void c05_release() {
    D d = HsmEventDispatcherSTD::create(); H h(0); quiet(h); init(h, d); dispTid = 1;
    { Th a([&] { h.transition(1, 1); h.transition(1, 2); }); h.release(); mc::touch(); silent = true; }
    mc::idle(); d.reset();
}
static void c05_destroy() {                 // events queued when the machine is destroyed
    D d = HsmEventDispatcherSTD::create(); { std::unique_ptr<H> h(new H(0)); quiet(*h); init(*h, d); dispTid = 1; h->transition(1, 1); h->transitionInterruptSafe(1); h->transition(1, 2); h.reset(); mc::touch(); silent = true; }
    mc::idle(); d.reset();
}
static void c05_sync() {
    D d = HsmEventDispatcherSTD::create(); H h(0); quiet(h); init(h, d); dispTid = 1; bool r = false;
    { Th a([&] { r = h.transitionSync(1, HSM_WAIT_INDEFINITELY, 1); }); h.release(); mc::touch(); silent = true; }
    int n = countOf(0, TRANS, 1); MC_CHECK(n <= 1 && (!r || n == 1), "synchronous caller got %d, its event was processed %d times", r, n); mc::idle(); d.reset();
}
static void c05_sync2() {
    D d = HsmEventDispatcherSTD::create(); H h(0); quiet(h); init(h, d); dispTid = 1; bool r = false, q = false;
    { Th a([&] { r = h.transitionSync(1, HSM_WAIT_INDEFINITELY, 1); }); Th b([&] { q = h.transitionSync(1, HSM_WAIT_INDEFINITELY, 2); }); h.release(); mc::touch(); silent = true; }
    MC_CHECK(r <= countOf(0, TRANS, 1, 1) && q <= countOf(0, TRANS, 1, 2) && countOf(0, TRANS, 1, 1) < 2 && countOf(0, TRANS, 1, 2) < 2, "results %d %d, processed %d %d", r, q, countOf(0, TRANS, 1, 1), countOf(0, TRANS, 1, 2)); mc::idle(); d.reset();
}
static void c05_timer() {
    D d = HsmEventDispatcherSTD::create(); { H h(0); quiet(h, 7); init(h, d); dispTid = 1; h.startTimer(7, 1, false); mc::sleepMs(1); h.release(); mc::touch(); silent = true; }
    mc::sleepMs(3); mc::idle(); d.reset();
}
static void c05_slow() {                    // released while a callback is running
    D d = HsmEventDispatcherSTD::create(); { H h(0); quiet(h, -1, 2); init(h, d); dispTid = 1; h.transition(1, 1); mc::sleepMs(1); h.release(); mc::touch(); silent = true; }
    mc::sleepMs(3); mc::idle(); d.reset();
}
static void c05_stop() {                    // dispatcher stopped while events come in
    D d = HsmEventDispatcherSTD::create(); H h(0); quiet(h); init(h, d); dispTid = 1;
    { Th a([&] { h.transition(1, 1); h.transition(1, 2); }); d->stop(); d->join(); mc::touch(); silent = true; }
    h.release(); d.reset();
}
static void c05_stop_timer() {
    D d = HsmEventDispatcherSTD::create(); H h(0); quiet(h, 7); init(h, d); dispTid = 1; h.startTimer(7, 1, false); mc::sleepMs(1);
    d->stop(); d->join(); mc::touch(); silent = true; mc::sleepMs(3); h.release(); d.reset();
}
static void c05_stop_sync() {               // stop() may leave the caller waiting, release() must free it
    D d = HsmEventDispatcherSTD::create(); H h(0); quiet(h); init(h, d); dispTid = 1; bool r = false;
    { Th a([&] { r = h.transitionSync(1, HSM_WAIT_INDEFINITELY, 1); }); d->stop(); h.release(); mc::touch(); silent = true; }
    int n = countOf(0, TRANS, 1); MC_CHECK(n <= 1 && (!r || n == 1), "synchronous caller got %d, its event was processed %d times", r, n); d.reset();
}
static void c05_unused() { { D d = HsmEventDispatcherSTD::create(); } { D d = HsmEventDispatcherSTD::create(); d->start(); } { D d = HsmEventDispatcherSTD::create(); d->start(); d->stop(); d->stop(); d->join(); d->join(); } { D d = HsmEventDispatcherSTD::create(); d->stop(); } }
static void c05_reinit() {                  // released and initialized again
    D d = HsmEventDispatcherSTD::create(); H h(0); quiet(h, 7); init(h, d); dispTid = 1; h.startTimer(7, 1, false); h.transition(1, 1); h.release(); mc::touch(); silent = true; mc::sleepMs(2); mc::idle(); d.reset();
}
static void c05_timerstart() {              // timers started while the dispatcher stops
    D d = HsmEventDispatcherSTD::create(); H h(0); quiet(h, 7); init(h, d); dispTid = 1;
    { Th a([&] { h.startTimer(7, 1, false); h.startTimer(8, 1, true); h.stopTimer(7); }); d->stop(); }
    d->join(); mc::touch(); silent = true; h.release(); d.reset();
}
static void c05_action() {                  // queued actions and the end of the dispatcher
    D d = HsmEventDispatcherSTD::create(); H h(0); quiet(h); init(h, d); dispTid = 1;
    { D e = d; Th a([&] { e->enqueueAction([] { rec(0, ACTION, 1); }); e->enqueueAction([&] { h.transition(1, 1); }); }); h.release(); mc::touch(); silent = true; }
    mc::idle(); d.reset();
}

// ------------------------------------------------------------------------------------------------------------- C06
static int irqOk, irqNo;
static void c06_threads(size_t cache, int perThread) {
    D d = HsmEventDispatcherSTD::create(cache); H h(0); flat(h, 0, {1, 2, 3}); init(h, d); dispTid = 1; int ok[2] = {0, 0};
    { Th a([&] { for (int i = 0; i < perThread; ++i) if (h.transitionInterruptSafe(1)) ++ok[0]; });
      for (int i = 0; i < perThread; ++i) if (h.transitionInterruptSafe(2)) ++ok[1]; }
    mc::idle();
    int n1 = countOf(0, TRANS, 1), n2 = countOf(0, TRANS, 2);
    MC_CHECK(n1 == ok[0] && n2 == ok[1], "accepted %d and %d events, processed %d and %d", ok[0], ok[1], n1, n2);
    MC_CHECK(size_t(n1 + n2) >= (cache < size_t(2 * perThread) ? cache : size_t(2 * perThread)), "refused although there was room");
    finish(h, d);
}
static void c06_t1() { c06_threads(1, 1); }
static void c06_t2() { c06_threads(2, 2); }
static void c06_t10() { c06_threads(10, 2); }
static void c06_full() {                    // the dispatcher is busy: exactly `cache` are accepted
    D d = HsmEventDispatcherSTD::create(2); H h(0); h.registerState(0); failed(h, 0);
    h.registerSelfTransition(0, 1, TransitionType::INTERNAL_TRANSITION, T(0, 1, [&] { int ok = 0; for (int i = 0; i < 4; ++i) { bool r = h.transitionInterruptSafe(2 + i); ok += r; MC_CHECK(r == (i < 2), "buffer of 2: request %d %s", i, r ? "accepted" : "refused"); } }));
    for (int e = 2; e < 7; ++e) h.registerSelfTransition(0, e, TransitionType::INTERNAL_TRANSITION, T(0, e));
    init(h, d); dispTid = 1; h.transition(1, 0); mc::idle();
    for (int e = 2; e < 6; ++e) MC_CHECK(countOf(0, TRANS, e) == (e < 4), "event %d processed %d times", e, countOf(0, TRANS, e));
    MC_CHECK(h.transitionInterruptSafe(6), "refused although the buffer is empty again"); mc::idle(); MC_CHECK(countOf(0, TRANS, 6) == 1, "event processed %d times", countOf(0, TRANS, 6));
    finish(h, d);
}
static void c06_bursts() {                  // the buffer keeps its size whatever was in it before
    int cap = 1 + mc::choose(12); D d = HsmEventDispatcherSTD::create(size_t(cap)); H h(0); h.registerState(0); failed(h, 0); int want = 0;
    h.registerSelfTransition(0, 1, TransitionType::INTERNAL_TRANSITION, [&](const VariantVector_t& v) { Cb c(0, TRANS, 1); for (int i = 0; i < argOf(v); ++i) { bool r = h.transitionInterruptSafe(2); want += r; MC_CHECK(r == (i < cap), "buffer of %d: request %d %s", cap, i + 1, r ? "accepted" : "refused"); } });
    h.registerSelfTransition(0, 2, TransitionType::INTERNAL_TRANSITION, T(0, 2));
    init(h, d); dispTid = 1;
    for (int k = 0; k < 3; ++k) { int sizes[] = {cap + 1, cap, (cap + 1) / 2, 1}; h.transition(1, sizes[mc::choose(4)]); mc::idle(); MC_CHECK(countOf(0, TRANS, 2) == want, "%d events accepted, %d processed", want, countOf(0, TRANS, 2)); }
    finish(h, d);
}
static H* irqH; static D* irqD;
static void irqSend() { if (irqH->transitionInterruptSafe(3)) ++irqOk; else ++irqNo; }
static void c06_interrupt(size_t cache, int times) {
    D d = HsmEventDispatcherSTD::create(cache); H h(0); flat(h, 0, {1, 2, 3}); init(h, d); dispTid = 1; irqOk = irqNo = 0; irqH = &h; mc::idle();
    mc::setInterrupt(irqSend, times);
    int ok = h.transitionInterruptSafe(1); h.transition(2, 5); ok += h.transitionInterruptSafe(1);
    mc::idle(); mc::setInterrupt(irqSend, 0);
    int n3 = countOf(0, TRANS, 3), n1 = countOf(0, TRANS, 1);
    MC_CHECK(n3 == irqOk, "interrupt handler: %d events accepted, %d processed", irqOk, n3); MC_CHECK(n1 == ok, "thread: %d events accepted, %d processed", ok, n1);
    if (cache > 4) MC_CHECK(irqNo == 0 && ok == 2, "refused although there was room");
    once(0, 2, 5, "event"); finish(h, d);
}
static void c06_i1() { c06_interrupt(1, 1); }
static void c06_i2() { c06_interrupt(10, 2); }
static void irqMany() { for (int i = 0; i < 3; ++i) irqSend(); }
static void c06_icap() {                    // more requests than room, from an interrupt
    D d = HsmEventDispatcherSTD::create(2); H h(0); flat(h, 0, {1, 3}); init(h, d); dispTid = 1; irqOk = irqNo = 0; irqH = &h; mc::idle();
    mc::setInterrupt(irqMany, 1); bool ok = h.transitionInterruptSafe(1); mc::idle(); mc::setInterrupt(irqMany, 0);
    MC_CHECK(countOf(0, TRANS, 3) == irqOk && countOf(0, TRANS, 1) == ok, "accepted %d+%d, processed %d+%d", irqOk, ok, countOf(0, TRANS, 3), countOf(0, TRANS, 1));
    if (irqOk + irqNo) MC_CHECK(irqOk >= 1 && irqOk <= 3, "%d of 3 accepted", irqOk);
    finish(h, d);
}
static void c06_order() {                   // requests of one thread keep their order
    D d = HsmEventDispatcherSTD::create(); H h(0); flat(h, 0, {1, 2, 3}); init(h, d); dispTid = 1;
    MC_CHECK(h.transitionInterruptSafe(1) && h.transitionInterruptSafe(2) && h.transitionInterruptSafe(3), "refused although there was room"); mc::idle();
    int a = posOf(0, TRANS, 1), b = posOf(0, TRANS, 2), c = posOf(0, TRANS, 3); MC_CHECK(a >= 0 && b > a && c > b, "interrupt-safe events were processed in another order than sent (%d %d %d)", a, b, c);
    finish(h, d);
}
static void c06_norun() {
    H g(0); flat(g, 1, {1}); MC_CHECK(!g.transitionInterruptSafe(1), "accepted by a machine which is not initialized");
    D d = HsmEventDispatcherSTD::create(); H h(0); flat(h, 0, {1}); init(h, d); dispTid = 1; MC_CHECK(h.transitionInterruptSafe(1), "refused"); mc::idle(); MC_CHECK(countOf(0, TRANS, 1) == 1, "not processed");
    h.release(); MC_CHECK(!h.transitionInterruptSafe(1), "accepted by a released machine"); mc::idle(); MC_CHECK(countOf(0, TRANS, 1) == 1, "processed after release"); d.reset();
}
static void c06_raw() {                     // directly on the dispatcher, two handlers
    D d = HsmEventDispatcherSTD::create(3); d->start(); dispTid = 1; int ok[2] = {0, 0};
    HandlerID_t a = d->registerEnqueuedEventHandler([](const EventID_t e) { Cb c(0, RAW, e); return true; }), b = d->registerEnqueuedEventHandler([](const EventID_t e) { Cb c(1, RAW, e); return true; });
    { Th t([&] { ok[0] += d->enqueueEvent(a, 1); ok[1] += d->enqueueEvent(b, 2); }); ok[0] += d->enqueueEvent(a, 3); ok[1] += d->enqueueEvent(b, 4); }
    mc::idle(); int na = countKind(0, RAW), nb = countKind(1, RAW); MC_CHECK(na == ok[0] && nb == ok[1], "accepted %d %d, delivered %d %d", ok[0], ok[1], na, nb);
    d->unregisterEnqueuedEventHandler(a); MC_CHECK(d->enqueueEvent(a, 9) && d->enqueueEvent(b, 5), "refused"); mc::idle(); MC_CHECK(countOf(0, RAW, 9) == 0 && countOf(1, RAW, 5) == 1, "unregistered handler called or other handler not called"); d.reset();
}

// ------------------------------------------------------------------------------------------------------------- C07
static ActionHandlerFunc_t A(int a, std::function<void()> f = nullptr) { return [=] { Cb c(0, ACTION, a); if (f) f(); }; }
static void acted(int a) { int n = countOf(0, ACTION, a); MC_CHECK(n == 1, "action %d ran %d times", a, n); }
static void c07_one() { D d = HsmEventDispatcherSTD::create(); d->start(); dispTid = 1; d->enqueueAction(A(1)); mc::idle(); acted(1); d->enqueueAction(A(2)); d->enqueueAction(A(3)); mc::idle(); acted(2); acted(3); MC_CHECK(posOf(0, ACTION, 2) < posOf(0, ACTION, 3), "order"); d.reset(); }
static void c07_two() {
    D d = HsmEventDispatcherSTD::create(); d->start(); dispTid = 1;
    { Th a([&] { d->enqueueAction(A(1)); d->enqueueAction(A(2)); }); d->enqueueAction(A(3)); d->enqueueAction(A(4)); }
    mc::idle(); for (int i = 1; i < 5; ++i) acted(i);
    MC_CHECK(posOf(0, ACTION, 1) < posOf(0, ACTION, 2) && posOf(0, ACTION, 3) < posOf(0, ACTION, 4), "actions of one thread ran in another order"); d.reset();
}
static void c07_three() {
    D d = HsmEventDispatcherSTD::create(); d->start(); dispTid = 1;
    { Th a([&] { d->enqueueAction(A(1)); }); Th b([&] { d->enqueueAction(A(2)); }); d->enqueueAction(A(3)); }
    mc::idle(); for (int i = 1; i < 4; ++i) acted(i); d.reset();
}
static void c07_nested() {
    D d = HsmEventDispatcherSTD::create(); H h(0); flat(h, 0, {1}); init(h, d); dispTid = 1; static HandlerID_t id; id = INVALID_HSM_DISPATCHER_HANDLER_ID;
    { Th t([&] { h.transition(1, 7); });
      d->enqueueAction(A(1, [&] { d->enqueueAction(A(2)); h.transition(1, 5); h.transitionInterruptSafe(1); id = d->registerEventHandler([] { Cb c(0, RAW, 1); return true; }); d->emitEvent(id); })); }
    mc::idle(); acted(1); acted(2); once(0, 1, 5, "event sent by an action"); once(0, 1, 7, "event"); once(0, 1, -1, "interrupt-safe event sent by an action"); MC_CHECK(countOf(0, RAW, 1) == 1, "handler registered by an action was called %d times", countOf(0, RAW, 1));
    finish(h, d);
}
static void c07_events() {
    D d = HsmEventDispatcherSTD::create(); H h(0); flat(h, 0, {1}); init(h, d); dispTid = 1;
    { Th t([&] { h.transition(1, 7); h.transition(1, 8); }); d->enqueueAction(A(1)); d->enqueueAction(A(2)); }
    mc::idle(); acted(1); acted(2); once(0, 1, 7, "event"); once(0, 1, 8, "event"); MC_CHECK(posOf(0, ACTION, 1) < posOf(0, ACTION, 2), "order"); finish(h, d);
}
static void c07_chain() {
    D d = HsmEventDispatcherSTD::create(); d->start(); dispTid = 1;
    { Th t([&] { d->enqueueAction(A(4)); }); d->enqueueAction(A(1, [&] { d->enqueueAction(A(2, [&] { d->enqueueAction(A(3)); })); })); }
    mc::idle(); for (int i = 1; i < 5; ++i) acted(i); d.reset();
}
static void c07_early() {                   // given before the dispatcher was started
    D d = HsmEventDispatcherSTD::create(); d->enqueueAction(A(1, [&] { d->enqueueAction(A(3)); })); d->enqueueAction(A(2));
    { D e = d; Th t([&] { e->enqueueAction(A(4)); }); d->start(); dispTid = -1; }
    mc::idle(); for (int i = 1; i < 5; ++i) acted(i); MC_CHECK(posOf(0, ACTION, 1) < posOf(0, ACTION, 2) && posOf(0, ACTION, 2) < posOf(0, ACTION, 3), "actions called out of order"); d.reset();
}

// ------------------------------------------------------------------------------------------------------------- C08
#define STRICT (!mc::timeWasForced())
static HandlerID_t tm(const D& d, int m = 0, std::function<void()> f = nullptr) { return d->registerTimerHandler([=](const TimerID_t id) { rec(m, TIMER, id); if (f) f(); return true; }); }
NOTSAN static int firedBy(int m, int id, uint64_t t) { int n = 0; for (int i = 0; i < nL; ++i) n += L[i].kind == TIMER && L[i].m == m && L[i].a == id && L[i].t <= t; return n; }
NOTSAN static uint64_t fireTime(int m, int id, int k) { for (int i = 0; i < nL; ++i) if (L[i].kind == TIMER && L[i].m == m && L[i].a == id && k-- == 0) return L[i].t; return 0; }
static void times(int id, std::initializer_list<int> want, const char* what, int m = 0) {
    int k = 0; for (int w : want) { if (STRICT) MC_CHECK(int(fireTime(m, id, k)) == w && countOf(m, TIMER, id) > k, "%s: firing %d is due at %d ms but came at %d ms (%d firings)", what, k, w, int(fireTime(m, id, k)), countOf(m, TIMER, id)); else if (countOf(m, TIMER, id) > k) MC_CHECK(int(fireTime(m, id, k)) >= w, "%s: firing %d is due at %d ms but came already at %d ms", what, k, w, int(fireTime(m, id, k))); ++k; }
    if (STRICT) MC_CHECK(countOf(m, TIMER, id) == k, "%s: fired %d times instead of %d", what, countOf(m, TIMER, id), k); else MC_CHECK(countOf(m, TIMER, id) <= k, "%s: fired %d times instead of at most %d", what, countOf(m, TIMER, id), k);
}
static void running(const D& d, int id, bool want, const char* what) { bool r = d->isTimerRunning(id); if (STRICT) MC_CHECK(r == want, "isTimerRunning() of a timer which %s returned %d", what, r); }
static D startD() { D d = HsmEventDispatcherSTD::create(); d->start(); return d; }
static void c08_single() {
    D d = startD(); HandlerID_t h = tm(d); MC_CHECK(!d->isTimerRunning(1), "a timer which was never started is running"); d->startTimer(h, 1, 10, true); running(d, 1, true, "was started"); mc::sleepMs(9); running(d, 1, true, "was started and has not expired"); mc::sleepMs(2); mc::idle(); running(d, 1, false, "has expired"); mc::sleepMs(20);
    times(1, {10}, "single shot timer of 10 ms"); d.reset();
}
static void c08_periodic() { D d = startD(); HandlerID_t h = tm(d); d->startTimer(h, 1, 5, false); mc::sleepMs(16); mc::idle(); running(d, 1, true, "is periodic"); if (STRICT) times(1, {5, 10, 15}, "periodic timer of 5 ms"); d->stopTimer(1); int n = countOf(0, TIMER, 1); MC_CHECK(!d->isTimerRunning(1), "stopped timer is running"); mc::sleepMs(12); MC_CHECK(countOf(0, TIMER, 1) == n, "timer fired after it was stopped"); d.reset(); }
static void c08_stop() { D d = startD(); HandlerID_t h = tm(d); d->startTimer(h, 1, 5, true); Th a([&] { mc::sleepMs(5); d->stopTimer(1); mc::touch(); rec(0, MARK, 1, countOf(0, TIMER, 1)); }); mc::sleepMs(20); a.join(); mc::idle(); MC_CHECK(countOf(0, TIMER, 1) == L[posOf(0, MARK, 1)].b, "timer fired after stopTimer() had returned"); MC_CHECK(countOf(0, TIMER, 1) <= 1, "fired twice"); MC_CHECK(!d->isTimerRunning(1), "stopped timer is running"); d.reset(); }
static void c08_stop_before() { D d = startD(); HandlerID_t h = tm(d); d->startTimer(h, 1, 5, true); d->startTimer(h, 2, 3, false); mc::sleepMs(4); d->stopTimer(1); d->stopTimer(2); int n = countOf(0, TIMER, 2), k = countOf(0, TIMER, 1); mc::sleepMs(20); mc::idle(); if (STRICT) MC_CHECK(n == 1 && k == 0, "fired %d times, %d times", n, k); MC_CHECK(countOf(0, TIMER, 1) == k && countOf(0, TIMER, 2) == n, "stopped timer fired"); d.reset(); }
static void c08_restart() { D d = startD(); HandlerID_t h = tm(d); d->startTimer(h, 1, 10, true); mc::sleepMs(6); bool fired = countOf(0, TIMER, 1); uint64_t t = mc::nowMs(); d->restartTimer(1); mc::sleepMs(30); mc::idle(); if (!fired && STRICT) times(1, {int(t) + 10}, "restarted timer"); d.reset(); }
static void c08_restart_race() {            // restarted at the moment of expiry
    D d = startD(); HandlerID_t h = tm(d); d->startTimer(h, 1, 5, false);
    mc::sleepMs(5); uint64_t t = mc::nowMs(); d->restartTimer(1); mc::touch(); int n = countOf(0, TIMER, 1); mc::sleepMs(6); mc::idle();
    MC_CHECK(firedBy(0, 1, t + 4) <= n, "timer fired %d ms after it had been restarted with 5 ms", int(fireTime(0, 1, n) - t)); if (STRICT) MC_CHECK(countOf(0, TIMER, 1) == n + 1 && int(fireTime(0, 1, n)) == int(t) + 5, "restarted timer fired %d times, at %d ms", countOf(0, TIMER, 1) - n, int(fireTime(0, 1, n))); d.reset();
}
static void c08_start_race() {              // single shot started again at the moment of expiry, with another interval
    D d = startD(); HandlerID_t h = tm(d); d->startTimer(h, 1, 5, true);
    mc::sleepMs(5); uint64_t t = mc::nowMs(); d->startTimer(h, 1, 7, true); mc::touch(); int n = countOf(0, TIMER, 1); mc::sleepMs(20); mc::idle();
    MC_CHECK(firedBy(0, 1, t + 6) <= n, "timer fired %d ms after it had been started with 7 ms", int(fireTime(0, 1, n) - t)); if (STRICT) MC_CHECK(countOf(0, TIMER, 1) == n + 1 && int(fireTime(0, 1, n)) == int(t) + 7, "timer started again fired %d times, at %d ms", countOf(0, TIMER, 1) - n, int(fireTime(0, 1, n))); d.reset();
}
static void c08_expired_restart() { D d = startD(); HandlerID_t h = tm(d); d->startTimer(h, 1, 5, true); mc::sleepMs(7); mc::idle(); bool strict = STRICT; uint64_t t = mc::nowMs(); d->restartTimer(1); if (strict) running(d, 1, true, "was restarted after it had expired"); mc::sleepMs(20); mc::idle(); if (STRICT) times(1, {5, int(t) + 5}, "expired single shot timer, restarted"); d->stopTimer(1); d->restartTimer(1); MC_CHECK(!d->isTimerRunning(1), "stopped timer was restarted"); d.reset(); }
static void c08_shorter() { D d = startD(); HandlerID_t h = tm(d); d->startTimer(h, 1, 20, true); mc::sleepMs(2); d->startTimer(h, 2, 3, true); mc::sleepMs(1); d->startTimer(h, 3, 30, true); mc::sleepMs(60); mc::idle(); if (STRICT) { times(1, {20}, "timer of 20 ms"); times(2, {5}, "shorter timer started later"); times(3, {33}, "longer timer started later"); } d.reset(); }
static void c08_two_threads() { D d = startD(); HandlerID_t h = tm(d); { Th a([&] { d->startTimer(h, 1, 4, true); }); d->startTimer(h, 2, 6, false); } mc::sleepMs(13); mc::idle(); if (STRICT) { times(1, {4}, "timer of 4 ms"); times(2, {6, 12}, "periodic timer of 6 ms"); } d->stopTimer(2); d.reset(); }
static void c08_interval() { D d = startD(); HandlerID_t h = tm(d); d->startTimer(h, 1, 20, true); mc::sleepMs(2); d->startTimer(h, 1, 4, false); mc::sleepMs(9); mc::idle(); if (STRICT) times(1, {6, 10}, "timer started again with another interval"); d->startTimer(h, 1, 9, true); mc::sleepMs(30); if (STRICT) times(1, {6, 10, 20}, "timer started again as single shot"); d.reset(); }
static void c08_unregister() { D d = startD(); HandlerID_t h = tm(d), g = tm(d, 1); d->startTimer(h, 1, 5, false); d->startTimer(g, 2, 5, true); mc::sleepMs(5); d->unregisterTimerHandler(h); mc::touch(); int n = countOf(0, TIMER, 1); MC_CHECK(!d->isTimerRunning(1), "timer of an unregistered handler is running"); mc::sleepMs(12); mc::idle(); MC_CHECK(countOf(0, TIMER, 1) == n, "handler called after it was unregistered"); if (STRICT) times(2, {5}, "timer of another handler", 1); d->startTimer(h, 1, 5, true); mc::sleepMs(6); MC_CHECK(countOf(0, TIMER, 1) == n && !d->isTimerRunning(1), "timer started for an unregistered handler"); d.reset(); }
static void c08_zero() { D d = startD(); HandlerID_t h = tm(d); d->startTimer(h, 1, 0, false); mc::sleepMs(3); MC_CHECK(nL == 0, "timer with interval 0 fired"); d->startTimer(h, 1, 4000000000u, true); mc::sleepMs(5); MC_CHECK(!STRICT || nL == 0, "timer of 46 days fired at once"); d->stopTimer(1); d->stopTimer(1); d->stopTimer(99); d->restartTimer(99); MC_CHECK(!d->isTimerRunning(1) && !d->isTimerRunning(99), "unknown timer is running"); d.reset(); }
#ifdef MC_FREERTOS                           // intervals which are not a number of ticks (virtual time is counted in ticks): never early, at most a tick late
static void c08_ticks() {
    D d = startD(); HandlerID_t h = tm(d); unsigned iv[] = {1, RTOS_TICK - 1, RTOS_TICK + 1, 3 * RTOS_TICK - 1}; unsigned ms = iv[mc::choose(4)]; bool once = mc::choose(2), again = mc::choose(2); uint64_t want = (ms + RTOS_TICK - 1) / RTOS_TICK;
    if (again) { d->startTimer(h, 1, 20, once); mc::sleepMs(1); }
    uint64_t t = mc::nowMs(); d->HsmEventDispatcherFreeRTOS::startTimer(h, 1, ms, once); mc::sleepMs(8); mc::idle();
    if (STRICT) { MC_CHECK(countOf(0, TIMER, 1) >= 1, "timer of %u ms (a tick has %d ms) did not fire", ms, RTOS_TICK); MC_CHECK(fireTime(0, 1, 0) >= t + want, "timer of %u ms (a tick has %d ms) fired after %d ticks", ms, RTOS_TICK, int(fireTime(0, 1, 0) - t)); MC_CHECK(fireTime(0, 1, 0) <= t + want + 1, "timer of %u ms (a tick has %d ms) fired after %d ticks", ms, RTOS_TICK, int(fireTime(0, 1, 0) - t)); }
    d->stopTimer(1); d.reset();
}
#endif
static void c08_machine() {                 // through the machine: actions start and stop timers
    D d = HsmEventDispatcherSTD::create(); H h(0); h.registerState(0, SC(0, 0)); h.registerState(1, SC(0, 1)); failed(h, 0); h.registerTimer(7, 2); h.registerTimer(8, 3);
    h.registerTransition(0, 1, 1, T(0, 1)); h.registerTransition(1, 0, 2, T(0, 2)); h.registerSelfTransition(1, 3, TransitionType::INTERNAL_TRANSITION, T(0, 3));
    h.registerStateAction(1, StateActionTrigger::ON_STATE_ENTRY, StateAction::START_TIMER, 7, 10, true); h.registerStateAction(1, StateActionTrigger::ON_STATE_ENTRY, StateAction::START_TIMER, 8, 3, false); h.registerStateAction(1, StateActionTrigger::ON_STATE_EXIT, StateAction::STOP_TIMER, 8);
    init(h, d); dispTid = 1; mc::sleepMs(1); h.transition(1); mc::sleepMs(30); mc::idle();
    { bool r7 = h.isTimerRunning(7), r8 = h.isTimerRunning(8); if (STRICT) MC_CHECK(!r7 && !r8, "timers still running"); } if (STRICT) { MC_CHECK(countOf(0, TRANS, 3) == 3, "timer of 3 ms fired %d times within 10 ms", countOf(0, TRANS, 3)); MC_CHECK(countOf(0, TRANS, 2) == 1 && int(L[posOf(0, TRANS, 2)].t) == 11, "timer of 10 ms fired %d times", countOf(0, TRANS, 2)); }
    int n = countOf(0, TRANS, 3); mc::sleepMs(10); if (STRICT) MC_CHECK(countOf(0, TRANS, 3) == n && countKind(0, FAIL) == 0, "stopped timer fired"); finish(h, d);
}
static void c08_cb() {                      // restart and stop from the machine's callback
    D d = HsmEventDispatcherSTD::create(); H h(0); h.registerState(0); h.registerTimer(7, 1); h.registerTimer(8, 2); static int k; k = 0;
    h.registerSelfTransition(0, 1, TransitionType::INTERNAL_TRANSITION, T(0, 1, [&] { if (++k < 3) h.restartTimer(7); if (k == 1) h.stopTimer(8); }));
    h.registerSelfTransition(0, 2, TransitionType::INTERNAL_TRANSITION, T(0, 2));
    init(h, d); dispTid = 1; h.startTimer(7, 4, true); h.startTimer(8, 6, false); mc::sleepMs(40); mc::idle();
    if (STRICT) { MC_CHECK(countOf(0, TRANS, 2) == 0, "stopped timer fired"); MC_CHECK(countOf(0, TRANS, 1) == 3, "timer restarted twice from its callback fired %d times", countOf(0, TRANS, 1)); } finish(h, d);
}
static void c08_query() { D d = startD(); HandlerID_t h = tm(d); d->startTimer(h, 1, 5, true); bool r = true; { Th a([&] { mc::sleepMs(5); r = d->isTimerRunning(1); mc::touch(); rec(0, MARK, r); }); mc::sleepMs(5); } mc::idle(); mc::sleepMs(2); running(d, 1, false, "has expired"); if (STRICT) MC_CHECK(countOf(0, TIMER, 1) == 1, "single shot timer fired %d times", countOf(0, TIMER, 1)); d.reset(); }

// ------------------------------------------------------------------------------------------------------------- C09
static const int NOPS = 14;
static void op(int k, H& h, const D& d, int who) {
    static const char* n[] = {"transition", "transitionEx clear", "transitionInterruptSafe", "startTimer single", "startTimer periodic", "restartTimer", "stopTimer", "isTimerRunning", "enqueueAction", "enqueueEvent", "register+unregister event handler", "register+unregister timer handler", "register+unregister enqueued handler", "emitEvent of a raw handler"};
    mc::note("operation: %s", n[k]);
    switch (k) {
        case 0: h.transition(1, who); break;
        case 1: h.transitionEx(1, true, false, 0, who); break;
        case 2: h.transitionInterruptSafe(1); break;
        case 3: h.startTimer(7, 1, true); break;
        case 4: h.startTimer(8, 1, false); break;
        case 5: h.restartTimer(7); break;
        case 6: h.stopTimer(7); break;
        case 7: (void)h.isTimerRunning(7); break;
        case 8: d->enqueueAction([] {}); break;
        case 9: (void)d->enqueueEvent(12345, 1); break;
        case 10: { HandlerID_t id = d->registerEventHandler([] { return true; }); d->emitEvent(id); d->unregisterEventHandler(id); break; }
        case 11: { HandlerID_t id = d->registerTimerHandler([](const TimerID_t) { return true; }); d->startTimer(id, 20 + who, 1, true); d->unregisterTimerHandler(id); break; }
        case 12: { HandlerID_t id = d->registerEnqueuedEventHandler([](const EventID_t) { return true; }); d->enqueueEvent(id, 1); d->unregisterEnqueuedEventHandler(id); break; }
        case 13: d->emitEvent(54321); break;
    }
}
static void nine(std::function<void(H&, const D&)> body) {
    overlapCheck = false;
    D d = HsmEventDispatcherSTD::create(); H h(0); h.registerState(0); h.registerSelfTransition(0, 1, TransitionType::INTERNAL_TRANSITION, T(0, 1)); h.registerTimer(7, 1); h.registerTimer(8, 1); h.registerTimer(21, 1); h.registerTimer(22, 1);
    static H* hp; static D* dp; hp = &h; dp = &d; static int inner; inner = -1;
    h.registerSelfTransition(0, 2, TransitionType::INTERNAL_TRANSITION, [&](const VariantVector_t& v) { if (!v.empty()) { op(int(v[0].toInt64()), *hp, *dp, 2); } });
    init(h, d); body(h, d);
    h.stopTimer(8); h.stopTimer(7); mc::idle();
    int n = countOf(0, TRANS, 1); h.transition(1, 77); mc::idle(); MC_CHECK(countOf(0, TRANS, 1, 77) == 1 && countOf(0, TRANS, 1) >= n + 1, "the machine does not react any more");
    finish(h, d);
}
static void c09_pairs() { int a = mc::choose(NOPS), b = mc::choose(NOPS); if (b < a) return; nine([=](H& h, const D& d) { Th t([&, a] { op(a, h, d, 1); }); op(b, h, d, 0); }); }
static void c09_callback() { int a = mc::choose(NOPS), b = mc::choose(NOPS); nine([=](H& h, const D& d) { h.transition(2, a); op(b, h, d, 0); }); }
static void c09_expiry() { int b = mc::choose(NOPS); nine([=](H& h, const D& d) { if (mc::arg() & 1) h.startTimer(7, 1, true); if (mc::arg() & 2) h.startTimer(8, 1, false); mc::sleepMs(1); op(b, h, d, 0); }); }
static void c09_expiry_cb() { int a = mc::choose(NOPS); nine([=](H& h, const D& d) { if (mc::arg() & 1) h.startTimer(7, 1, true); if (mc::arg() & 2) h.startTimer(8, 1, false); mc::sleepMs(1); h.transition(2, a); }); }
static void c09_possible() {                // isTransitionPossible() with a condition callback that uses the machine, from a callback
    overlapCheck = false; D d = HsmEventDispatcherSTD::create(); static H* hp; H h(0); hp = &h; h.registerState(0); h.registerState(1); static int k; k = mc::choose(5); static D* dp; dp = &d;
    h.registerTimer(7, 3);
    h.registerTransition(0, 1, 1, nullptr, [](const VariantVector_t&) { rec(0, COND, 1); if (k < 4) op(k == 0 ? 0 : k == 1 ? 2 : k == 2 ? 3 : 7, *hp, *dp, 5); return true; });
    h.registerSelfTransition(0, 2, TransitionType::INTERNAL_TRANSITION, T(0, 2, [&] { h.transition(mc::choose(2) ? 1 : 3); bool r = h.isTransitionPossible(1); rec(0, MARK, r); }));
    h.registerSelfTransition(0, 3, TransitionType::INTERNAL_TRANSITION, T(0, 3));
    init(h, d); h.startTimer(7, 1, true); mc::sleepMs(1); h.transition(2); mc::idle(); MC_CHECK(countKind(0, MARK) == 1, "callback did not come back"); finish(h, d);
}
#ifdef MC_FREERTOS
static void c09_flag() {                    // a task waits until another one clears the flag
    rtosStart(); static AtomicFlag* f; AtomicFlag flag; f = &flag;
    MC_CHECK(!f->test() && !f->test_and_set() && f->test() && f->test_and_set(), "test_and_set() of a flag"); f->wait(false);
    { Th a([] { f->wait(true); mc::touch(); MC_CHECK(!f->test(), "wait() ended although the flag is still set"); rec(0, MARK, 1); }); if (mc::choose(2)) mc::sleepMs(1); MC_CHECK(countKind(0, MARK) == 0, "wait() ended although the flag was not cleared"); f->clear(); f->notify(); }
    MC_CHECK(!f->test_and_set(), "flag is set although it was cleared");
}
#endif
static void c09_register() { D d = startD(); static HandlerID_t ids[4]; { Th a([&] { ids[0] = d->registerEventHandler([] { rec(0, RAW, 0); return true; }); ids[1] = d->registerTimerHandler([](const TimerID_t) { return true; }); }); ids[2] = d->registerEventHandler([] { rec(0, RAW, 2); return true; }); ids[3] = d->registerEnqueuedEventHandler([](const EventID_t) { return true; }); } for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) MC_CHECK(ids[i] != ids[j], "two handlers got the same id"); d->emitEvent(ids[0]); d->emitEvent(ids[2]); mc::idle(); MC_CHECK(countOf(0, RAW, 0) == 1 && countOf(0, RAW, 2) == 1, "handler not called"); d.reset(); }
static void c09_unreg() {                   // a handler unregisters itself and another one while events for both are pending
    D d = startD(); static HandlerID_t a, b; a = d->registerEventHandler([&] { rec(0, RAW, 0); d->unregisterEventHandler(a); d->unregisterEventHandler(b); return true; }); b = d->registerEventHandler([] { rec(0, RAW, 1); return true; });
    { Th t([&] { d->emitEvent(b); d->emitEvent(a); }); d->emitEvent(a); } mc::idle(); int n = nL; d->emitEvent(a); d->emitEvent(b); mc::idle(); MC_CHECK(nL == n, "unregistered handler called"); d.reset();
}

// ------------------------------------------------------------------------------------------------------------- C10
static void c10_two() {
    D d = HsmEventDispatcherSTD::create(); H g(0), h(0); flat(g, 0, {1, 2}); flat(h, 1, {1, 2}); init(g, d); init(h, d); dispTid = 1;
    { Th a([&] { g.transition(1, 10); g.transition(2, 11); g.transitionInterruptSafe(1); }); h.transition(1, 20); h.transition(2, 21); h.transitionInterruptSafe(2); }
    mc::idle(); once(0, 1, 10, "event"); once(0, 2, 11, "event"); once(1, 1, 20, "event"); once(1, 2, 21, "event"); once(0, 1, -1, "interrupt-safe event"); once(1, 2, -1, "interrupt-safe event"); ordered(0, 1, 10, 2, 11); ordered(1, 1, 20, 2, 21); MC_CHECK(nL == 6, "%d callbacks instead of 6", nL);
    g.release(); finish(h, d);
}
static void c10_release(bool destroy) {
    static bool more; more = destroy;        // without: nothing happens any more which could wake up the dispatcher
    D d = HsmEventDispatcherSTD::create(); std::unique_ptr<H> g(new H(0)); H h(0); quiet(*g, 7); flat(h, 1, {1, 2}); h.registerTimer(8, 2); init(*g, d); init(h, d); dispTid = 1;
    g->startTimer(7, 1, false); h.startTimer(8, 2, true);
    g->transition(1, 1); g->transitionInterruptSafe(1); h.transition(1, 20); h.transitionInterruptSafe(1); g->transition(1, 2); h.transition(1, 21);
    if (destroy) g.reset(); else g->release();
    mc::touch(); silent = true; if (more) h.transition(1, 22); mc::sleepMs(3); mc::idle();
    for (int a : {20, 21, 22}) if (a < 22 || more) once(1, 1, a, "event of the other machine"); once(1, 1, -1, "interrupt-safe event of the other machine"); if (STRICT) once(1, 2, -1, "timer event of the other machine"); finish(h, d);
}
static void c10_rel() { c10_release(false); }
static void c10_destroy() { c10_release(true); }
static void c10_pending() {                 // nothing but the queued events themselves wakes the dispatcher for the other machine
    D d = HsmEventDispatcherSTD::create(); H g(0), h(0), k(0); quiet(g, 7); flat(h, 1, {1}); flat(k, 2, {1}); init(g, d); init(h, d); init(k, d); dispTid = 1;
    g.transition(1, 1); h.transition(1, 20); k.transition(1, 30); g.release();
    mc::touch(); silent = true; mc::idle();
    once(1, 1, 20, "event of the other machine"); once(2, 1, 30, "event of the third machine"); k.release(); finish(h, d);
}
static void c10_pendingirq() {              // the same with an interrupt-safe event only
    D d = HsmEventDispatcherSTD::create(); H g(0), h(0); quiet(g, 7); flat(h, 1, {1}); init(g, d); init(h, d); dispTid = 1;
    g.transitionInterruptSafe(1); h.transitionInterruptSafe(1); g.release();
    mc::touch(); silent = true; mc::idle();
    once(1, 1, -1, "interrupt-safe event of the other machine"); finish(h, d);
}
static void c10_pendingtimer() {            // timers of the other machine survive, running and just expired
    D d = HsmEventDispatcherSTD::create(); H g(0), h(0); quiet(g, 7); flat(h, 1, {1, 2}); h.registerTimer(8, 1); h.registerTimer(9, 2); init(g, d); init(h, d); dispTid = 1;
    g.startTimer(7, 1, false); h.startTimer(8, 1, true); h.startTimer(9, 3, true); mc::sleepMs(1); g.release();
    mc::touch(); silent = true; mc::sleepMs(4); mc::idle();
    if (STRICT) { once(1, 1, -1, "timer event of the other machine"); once(1, 2, -1, "timer event of the other machine"); } finish(h, d);
}
static void c10_sync() {
    D d = HsmEventDispatcherSTD::create(); H g(0), h(0); flat(g, 0, {1}); flat(h, 1, {1}); init(g, d); init(h, d); dispTid = 1;
    { Th a([&] { MC_CHECK(g.transitionSync(1, HSM_WAIT_INDEFINITELY, 10), "result"); MC_CHECK(!g.transitionSync(5, HSM_WAIT_INDEFINITELY, 11), "result"); }); MC_CHECK(!h.transitionSync(5, HSM_WAIT_INDEFINITELY, 20), "result"); MC_CHECK(h.transitionSync(1, HSM_WAIT_INDEFINITELY, 21), "result"); }
    once(0, 1, 10, "event"); once(1, 1, 21, "event"); g.release(); finish(h, d);
}
static void c10_clear() {                   // clearing one queue leaves the other alone
    D d = HsmEventDispatcherSTD::create(); H g(0), h(0); flat(g, 0, {1}); flat(h, 1, {1}); init(g, d); init(h, d); dispTid = 1;
    { Th a([&] { h.transition(1, 20); h.transition(1, 21); }); g.transition(1, 10); g.transitionEx(1, true, false, 0, 11); }
    mc::idle(); once(0, 1, 11, "event which cleared the queue"); once(1, 1, 20, "event of the other machine"); once(1, 1, 21, "event of the other machine"); g.release(); finish(h, d);
}
static void c10_timers() {
    D d = HsmEventDispatcherSTD::create(); H g(0), h(0); flat(g, 0, {1}); g.registerTimer(7, 1); flat(h, 1, {1}); h.registerTimer(8, 1); init(g, d); init(h, d); dispTid = 1;
    g.startTimer(7, 2, false); h.startTimer(8, 3, true); mc::sleepMs(5); mc::idle(); if (STRICT) { MC_CHECK(countKind(0, TRANS) == 2, "timer of 2 ms fired %d times in 5 ms", countKind(0, TRANS)); MC_CHECK(countKind(1, TRANS) == 1, "single shot timer of the other machine fired %d times", countKind(1, TRANS)); }
    g.stopTimer(7); g.release(); h.startTimer(8, 3, true); int n = countKind(1, TRANS); mc::sleepMs(5); mc::idle(); if (STRICT) MC_CHECK(countKind(1, TRANS) == n + 1, "timer of the remaining machine fired %d times", countKind(1, TRANS) - n); finish(h, d);
}
static void c10_join() {                    // the second machine starts while the first is busy
    D d = HsmEventDispatcherSTD::create(); H g(0), h(0); flat(g, 0, {1}); flat(h, 1, {1}); init(g, d); overlapCheck = false;
    { Th a([&] { g.transition(1, 10); g.transition(1, 11); }); init(h, d); h.transition(1, 20); }
    mc::idle(); once(0, 1, 10, "event"); once(0, 1, 11, "event"); once(1, 1, 20, "event"); g.release(); finish(h, d);
}

#define S(n) {#n, n, 0}
static const mc::Scenario LIST[] = {
    S(c01_2x2), S(c01_3x1), S(c01_4x1), S(c01_cb), S(c01_states), S(c01_mixed), S(c01_histdef), S(c01_wake),
    S(c02_send), S(c02_irq), S(c02_timer), S(c02_two), S(c02_nested), S(c02_init), S(c02_init2), S(c02_wakeup),
    S(c03_results), S(c03_entry), S(c03_back), S(c03_three), S(c03_veto), S(c03_timeout), S(c03_intime), S(c03_timer), S(c03_parallel1), S(c03_parallel2), S(c03_deep), S(c03_hist), S(c03_histdef),
    S(c04_waiter), S(c04_failed_waiter), S(c04_two_clears), S(c04_two_waiters), S(c04_entry), S(c04_history), S(c04_sender),
    S(c05_release), S(c05_destroy), S(c05_sync), S(c05_sync2), S(c05_timer), S(c05_slow), S(c05_stop), S(c05_stop_timer), S(c05_stop_sync), S(c05_unused), S(c05_reinit), S(c05_timerstart), S(c05_action),
    S(c06_t1), S(c06_t2), S(c06_t10), S(c06_full), S(c06_bursts), S(c06_i1), S(c06_i2), S(c06_icap), S(c06_order), S(c06_norun), S(c06_raw),
    S(c07_one), S(c07_two), S(c07_three), S(c07_nested), S(c07_events), S(c07_chain), S(c07_early),
    S(c08_single), S(c08_periodic), S(c08_stop), S(c08_stop_before), S(c08_restart), S(c08_restart_race), S(c08_start_race), S(c08_expired_restart), S(c08_shorter), S(c08_two_threads), S(c08_interval), S(c08_unregister), S(c08_zero), S(c08_machine), S(c08_cb), S(c08_query),
    S(c09_pairs), S(c09_callback), {"c09_expiry_single", c09_expiry, 1}, {"c09_expiry_single_cb", c09_expiry_cb, 1}, {"c09_expiry_periodic", c09_expiry, 2}, {"c09_expiry_periodic_cb", c09_expiry_cb, 2}, {"c09_expiry_both", c09_expiry, 3}, {"c09_expiry_both_cb", c09_expiry_cb, 3}, S(c09_possible), S(c09_register), S(c09_unreg),
#ifdef MC_FREERTOS
    S(c08_ticks), S(c03_ticks), S(c09_flag),
#endif
    S(c10_two), S(c10_rel), S(c10_destroy), S(c10_pending), S(c10_pendingirq), S(c10_pendingtimer), S(c10_sync), S(c10_clear), S(c10_timers), S(c10_join),
};
int main(int c, char** v) { return mc::main(c, v, LIST, sizeof LIST / sizeof *LIST); }
