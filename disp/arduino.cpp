#include "disp.hpp"
#include <Arduino.h>
#include <hsmcpp/HsmEventDispatcherArduino.hpp>
static unsigned long vms;
extern "C" NOTSAN unsigned long millis() { return 1000000 + vms; }
struct Backend {
    typedef HsmEventDispatcherArduino Disp;
    static const bool threads = false, foreignTimers = false, eager = false, ownTime = false;
    static int loopTid() { return 0; }
    static int timerTid() { return 0; }
    static std::shared_ptr<Disp> create(size_t cap) { vms = 0; return HsmEventDispatcherArduino::create(cap); }
    static void iterate(Disp* d) { for (int i = 0; i < 5; ++i) d->dispatchEvents(); }
    static void round(Disp* d) { d->dispatchEvents(); }
    NOTSAN static void advance(int ms) { vms += (unsigned long)ms; }
    static void drop(std::shared_ptr<Disp>& d) { d.reset(); }
};
DISP_SCENARIOS(Backend)
int main(int argc, char** argv) {
    auto* v = scenarios();
    return mc::main(argc, argv, v->data(), int(v->size()));
}
