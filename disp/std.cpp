#include "disp.hpp"
#include <hsmcpp/HsmEventDispatcherSTD.hpp>
struct Backend {
    typedef HsmEventDispatcherSTD Disp;
    static const bool threads = false, foreignTimers = false, eager = false, ownTime = true;
    static int loopTid() { return 1; }
    static int timerTid() { return 2; }
    static std::shared_ptr<Disp> create(size_t cap) { return HsmEventDispatcherSTD::create(cap); }
    static void iterate(Disp*) { mc::idle(); }
    static void round(Disp*) { mc::idle(); }
    static void advance(int ms) { mc::sleepMs(ms); }
    static void drop(std::shared_ptr<Disp>& d) { d.reset(); }
};
DISP_SCENARIOS(Backend)
int main(int argc, char** argv) {
    auto* v = scenarios();
    return mc::main(argc, argv, v->data(), int(v->size()));
}
