// L01: writes a debug log of events with the arguments read from stdin. main <log file>
// input: one event per line, arguments separated by spaces: S<hex> string, B<hex> byte array, I<n> int64, U<n> uint64, D<x> double, T/F bool, N empty,
//        V<a>,<b> L<a>,<b> vector/list of strings (hex), P<a>,<b> pair, M<a>,<b> map of one item; "-" reopens the log
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <hsmcpp/hsm.hpp>
#include <hsmcpp/IHsmEventDispatcher.hpp>
using namespace hsmcpp;

struct Disp : IHsmEventDispatcher {
    std::map<HandlerID_t, EventHandlerFunc_t> handlers; HandlerID_t next = 1; bool pending = false;
    bool start() override { return true; }
    void stop() override {}
    void emitEvent(const HandlerID_t) override { pending = true; }
    bool enqueueEvent(const HandlerID_t, const EventID_t) override { return false; }
    HandlerID_t registerEventHandler(const EventHandlerFunc_t& f) override { handlers[next] = f; return next++; }
    void unregisterEventHandler(const HandlerID_t h) override { handlers.erase(h); }
    HandlerID_t registerEnqueuedEventHandler(const EnqueuedEventHandlerFunc_t&) override { return next++; }
    void unregisterEnqueuedEventHandler(const HandlerID_t) override {}
    HandlerID_t registerTimerHandler(const TimerHandlerFunc_t&) override { return next++; }
    void unregisterTimerHandler(const HandlerID_t) override {}
    void startTimer(const HandlerID_t, const TimerID_t, const unsigned int, const bool) override {}
    void restartTimer(const TimerID_t) override {}
    void stopTimer(const TimerID_t) override {}
    bool isTimerRunning(const TimerID_t) override { return false; }
    void enqueueAction(ActionHandlerFunc_t) override {}
    void run() { for (int i = 0; i < 100 && pending; ++i) { pending = false; for (auto& h : std::map<HandlerID_t, EventHandlerFunc_t>(handlers)) if (h.second()) pending = true; } }
};
static std::string unhex(const std::string& h) { std::string r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(std::stoi(h.substr(i, 2), nullptr, 16)); return r; }
static Variant arg(const std::string& w) {
    const std::string v = w.substr(1); const size_t c = v.find(',');
    const bool text = std::string("SBVLPM").find(w[0]) != std::string::npos;
    const std::string a = text ? unhex(v.substr(0, c)) : "", b = text && c != std::string::npos ? unhex(v.substr(c + 1)) : "";
    switch (w[0]) {
        case 'S': return Variant(a);
        case 'B': return Variant(ByteArray_t(a.begin(), a.end()));
        case 'I': return Variant(int64_t(std::stoll(v)));
        case 'U': return Variant(uint64_t(std::stoull(v)));
        case 'c': return Variant(int8_t(std::stoi(v)));
        case 'D': return Variant(std::stod(v));
        case 'T': return Variant(true);
        case 'F': return Variant(false);
        case 'V': { VariantVector_t x; x.emplace_back(a); x.emplace_back(b); return Variant(x); }
        case 'L': { VariantList_t x; x.emplace_back(a); x.emplace_back(b); return Variant(x); }
        case 'P': return Variant(VariantPair_t(Variant(a), Variant(b)));
        case 'M': { VariantMap_t x; x[Variant(a)] = Variant(b); return Variant(x); }
        default: return Variant();
    }
}
int main(int argc, char** argv) {
    auto d = std::make_shared<Disp>();
    HierarchicalStateMachine hsm(1);
    hsm.registerState(1); hsm.registerState(2);
    hsm.registerTransition(1, 2, 10); hsm.registerTransition(2, 1, 10); hsm.registerSelfTransition(1, 11, TransitionType::INTERNAL_TRANSITION);
    hsm.registerSelfTransition(2, 11, TransitionType::INTERNAL_TRANSITION);
    hsm.registerState(1, [](const VariantVector_t&) {}, [](const VariantVector_t&) { return true; }, []() { return true; });
    if (!hsm.enableHsmDebugging(argv[1])) { puts("enable failed"); return 1; }
    if (!hsm.initialize(d)) return 2;
    d->run();
    std::string line; int n = 0;
    while (std::getline(std::cin, line)) {
        if (line == "-") { hsm.disableHsmDebugging(); hsm.transition(11); d->run(); if (!hsm.enableHsmDebugging(argv[1])) { puts("second enable failed"); return 1; } continue; }
        VariantVector_t args; std::istringstream is(line); std::string w;
        while (is >> w) args.push_back(arg(w));
        hsm.transitionWithArgsArray(n++ % 3 == 2 ? 11 : 10, std::move(args));
        d->run();
    }
    hsm.disableHsmDebugging();
    return 0;
}
