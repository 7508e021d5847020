#include "disp.hpp"
#include <hsmcpp/HsmEventDispatcherGLib.hpp>
struct Backend {
    typedef HsmEventDispatcherGLib Disp;
    static const bool threads = true, foreignTimers = true, eager = false, ownTime = false;
    static GMainContext* ctx;
    static int loopTid() { return 0; }
    static int timerTid() { return 0; }
    static std::shared_ptr<Disp> create(size_t cap) { ctx = g_main_context_new(); return HsmEventDispatcherGLib::create(ctx, cap); }
    static void iterate(Disp*) { int n = 0; while (g_main_context_iteration(ctx, FALSE)) if (++n > 100000) mc::fail("the loop never comes to rest"); }
    static void round(Disp*) { g_main_context_iteration(ctx, FALSE); }
    static void advance(int ms) { mc::advance(ms); }
    static void drop(std::shared_ptr<Disp>& d) { d.reset(); iterate(nullptr); g_main_context_unref(ctx); ctx = nullptr; }
};
GMainContext* Backend::ctx;
DISP_SCENARIOS(Backend)
int main(int argc, char** argv) {
    mc::useLibraries = true;
    auto* v = scenarios();
    return mc::main(argc, argv, v->data(), int(v->size()));
}
