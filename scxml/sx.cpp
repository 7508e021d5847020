// S01: every generated class explored against the reference machine of its document.
#include "sx.hpp"
#include <csignal>
#include <cstring>
#include <unistd.h>
std::vector<Entry>& registry() { static std::vector<Entry> r; return r; }
static char g_where[8192];
static void onSignal(int s) { char b[9000]; int n = snprintf(b, sizeof b, "\nCRASH signal %d at %s\n", s, g_where); if (write(1, b, size_t(n)) < 0) {} _exit(3); }
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c < 32) o += ' '; else o += char(c); } return o; }

int main(int argc, char** argv) {
    int part = argc > 1 ? atoi(argv[1]) : 0, parts = argc > 2 ? atoi(argv[2]) : 1, depth = argc > 3 ? atoi(argv[3]) : 3, only = argc > 4 ? atoi(argv[4]) : -1;
    for (int s : {SIGSEGV, SIGABRT, SIGALRM, SIGFPE, SIGBUS, SIGILL}) signal(s, onSignal);
    Stats st; Violation viol; std::vector<std::string> samples; int bad = -1;
    std::sort(registry().begin(), registry().end(), [](const Entry& a, const Entry& b) { return a.id < b.id; });
    for (size_t i = 0; i < registry().size() && !viol.set; ++i) {
        Entry& e = registry()[i];
        if (only >= 0 ? e.id != only : int(i) % parts != part) continue;
        const Mach& m = e.m;
        bad = e.id;
        Opts o; o.maxVetoes = 1; o.contDepth = 1; o.maxDepth = depth; o.tagFocus = false;
        Explorer ex(o, st, viol); ex.samples = &samples;
        ex.progress = [&](const Mach& x, const std::vector<Step>* p, const Step* s) {
            std::string t = "doc " + std::to_string(e.id) + " " + x.describe() + " :: "; if (p) for (auto& q : *p) t += q.str() + " ; "; if (s) t += s->str();
            strncpy(g_where, t.c_str(), sizeof g_where - 1); alarm(30);
        };
        ex.explore(m, nullptr);
        if (viol.set) break;
        { Drv d(m); std::string n = e.names(d.hsm.get()); if (!n.empty()) { viol.set = true; viol.mach = m.describe(); viol.what = "wrong names:" + n; break; } }
        // a timer which expires sends its event
        std::vector<Ev> pre{{-1, 0}}; for (int v : m.stepEvents) pre.push_back({v, 0});
        for (auto& t : e.timers) for (auto& p : pre) {
            Drv a(m), b(m); Outcome x, y;
            a.startup(x); b.startup(y);
            if (p.ev >= 0) { Step s; s.burst = {p}; a.step(s, 10, x); b.step(s, 10, y); }
            HandlerID_t h = 0; auto prev = a.disp->onTimerCall;
            a.disp->onTimerCall = [&](const InlineDispatcher::TimerCall& c) { h = c.handler; };
            a.hsm->startTimer(m.gen->timers[size_t(t.first)], 100, true);
            a.disp->onTimerCall = prev;
            std::string why;
            a.tr.clear(); b.tr.clear();
            if (!a.disp->timerHandlers.count(h)) why = "starting the timer does not reach the dispatcher";
            else {
                (void)a.disp->timerHandlers[h](m.gen->timers[size_t(t.first)]);
                b.hsm->transition(b.eid(t.second));
                if (a.tr != b.tr || a.active() != b.active()) why = "timer: callbacks [" + traceStr(a.tr) + "] active " + setStr(a.active()) + ", its event: [" + traceStr(b.tr) + "] active " + setStr(b.active());
            }
            ++st.execs; ++st.transitions;
            if (!why.empty()) { viol.set = true; viol.mach = m.describe(); viol.what = "timer " + std::to_string(t.first) + ": " + why; break; }
        }
    }
    printf("{\"machines\":%ld,\"states\":%ld,\"transitions\":%ld,\"execs\":%ld,\"records\":%ld,\"skipped\":%ld,\"veto_steps\":%ld,\"sample\":\"%s\",\"violation\":", st.machines, st.states, st.transitions, st.execs, st.records, st.skipped, st.vetoSteps, samples.empty() ? "" : jesc(samples[0]).c_str());
    if (viol.set) { std::string p; for (auto& s : viol.path) p += s + " ; "; printf("{\"doc\":%d,\"machine\":\"%s\",\"what\":\"%s\",\"path\":\"%s\"}}\n", bad, jesc(viol.mach).c_str(), jesc(viol.what).c_str(), jesc(p).c_str()); }
    else printf("null}\n");
    fflush(stdout);
    _exit(0);
}
