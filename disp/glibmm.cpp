#include "disp.hpp"
#include <glibmm.h>
#include <hsmcpp/HsmEventDispatcherGLibmm.hpp>
struct Backend {
    typedef HsmEventDispatcherGLibmm Disp;
    // NOTE: glibmm documents signal_timeout() itself as not thread-safe; its inside is not explored here
    static const bool threads = true, foreignTimers = true, eager = false, ownTime = false;
    static int loopTid() { return 0; }
    static int timerTid() { return 0; }
    static std::shared_ptr<Disp> create(size_t cap) { return HsmEventDispatcherGLibmm::create(cap); }
    static void iterate(Disp*) { int n = 0; while (g_main_context_iteration(nullptr, FALSE)) if (++n > 100000) mc::fail("the loop never comes to rest"); }
    static void round(Disp*) { g_main_context_iteration(nullptr, FALSE); }
    static void advance(int ms) { mc::advance(ms); }
    static void drop(std::shared_ptr<Disp>& d) { d.reset(); iterate(nullptr); }
};
DISP_SCENARIOS(Backend)
int main(int argc, char** argv) {
    Glib::init();
    mc::useLibraries = true;
    auto* v = scenarios();
    return mc::main(argc, argv, v->data(), int(v->size()));
}
