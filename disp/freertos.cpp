#include "disp.hpp"
#include "freertos/scaled.hpp"
struct Backend {
    typedef ScaledDispatcher Disp;
    static const bool threads = false, foreignTimers = true, eager = false, ownTime = true;
    static int loopTid() { return 2; }
    static int timerTid() { return 1; }
    static std::shared_ptr<Disp> create(size_t cap) { return ScaledDispatcher::create(cap); }
    static void iterate(Disp*) { mc::idle(); }
    static void round(Disp*) { mc::point(); }
    static void advance(int ms) { mc::sleepMs(ms); }
    static void drop(std::shared_ptr<Disp>& d) {
        d.reset(); mc::idle();
        if (rtosLiveTimers()) mc::fail("%d native timers were never deleted", rtosLiveTimers());
        rtosStop();
    }
};
DISP_SCENARIOS(Backend)
int main(int argc, char** argv) {
    auto* v = scenarios();
    v->push_back({"d01_conc", d01Conc, 0}); v->push_back({"d01_conc_stop", d01ConcStop, 0});
    v->push_back({"d02_conc", d02Conc, 0}); v->push_back({"d02_conc_cb", d02ConcCb, 0});
    return mc::main(argc, argv, v->data(), int(v->size()));
}
