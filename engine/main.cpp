#include "families.hpp"
#include "special.hpp"
#include "logmode.hpp"
#include <chrono>
#include <csignal>
#include <cstring>
#include <fstream>
#include <unistd.h>

// Exploration is dominated by small allocations: size-class free lists instead of the general allocator.
namespace {
struct FreeNode { FreeNode* next; };
FreeNode* g_free[64];
char* g_chunk = nullptr; size_t g_left = 0;
}
void* operator new(std::size_t n) {
    size_t c = (n + 15) / 16;
    if (c >= 64) { char* p = static_cast<char*>(malloc(n + 16)); if (!p) abort(); *reinterpret_cast<size_t*>(p) = 64; return p + 16; }
    if (FreeNode* f = g_free[c]) { g_free[c] = f->next; return f; }
    size_t bytes = (c + 1) * 16;
    if (g_left < bytes) { g_left = 1 << 20; g_chunk = static_cast<char*>(malloc(g_left)); if (!g_chunk) abort(); }
    char* p = g_chunk; g_chunk += bytes; g_left -= bytes;
    *reinterpret_cast<size_t*>(p) = c;
    return p + 16;
}
void operator delete(void* p) noexcept {
    if (!p) return;
    char* b = static_cast<char*>(p) - 16;
    size_t c = *reinterpret_cast<size_t*>(b);
    if (c >= 64) { free(b); return; }
    FreeNode* f = static_cast<FreeNode*>(p); f->next = g_free[c]; g_free[c] = f;
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

static char g_progress[8192];
static const Mach* g_mach = nullptr; static const std::vector<Step>* g_path = nullptr; static const Step* g_step = nullptr; static long g_job = -1;
static void formatProgress() {
    if (!g_mach) return;
    size_t n = snprintf(g_progress, sizeof g_progress, "job %ld %s :: ", g_job, g_mach->name.c_str());
    if (!g_path) return;
    auto put = [&](const Step& s) { if (n < sizeof g_progress) n += snprintf(g_progress + n, sizeof g_progress - n, "%s ; ", s.str().c_str()); };
    for (auto& x : *g_path) put(x);
    if (g_step) put(*g_step);
}
static std::string g_progressFile;
static FILE* g_dump = nullptr;
static void dumpProgress(const char* why) {
    // crash / hang report: raw write of what was being executed
    for (const char* s : {"\nCRASH ", why, " :: ", (const char*)g_progress, "\n"}) if (write(g_dump ? fileno(g_dump) : 1, s, strlen(s)) < 0) return;
}
static void onSignal(int sig) {
    formatProgress();
    dumpProgress(sig == SIGALRM ? "hang" : sig == SIGSEGV ? "segfault" : sig == SIGABRT ? "abort" : "signal");
    _exit(3);
}
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; } return o; }

int main(int argc, char** argv) {
    std::string fam = "sel"; int tier = 0, part = 0, parts = 1, cats = C_ANY; long only = -1; int traceMode = 0; std::string logDir;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--family") fam = val(); else if (a == "--tier") tier = val() == "thorough"; else if (a == "--part") part = stoi(val());
        else if (a == "--parts") parts = stoi(val()); else if (a == "--cats") cats = stoi(val()); else if (a == "--only") only = stol(val());
        else if (a == "--log") logDir = val(); else if (a == "--dump") traceMode = 1; else if (a == "--out") { g_dump = fopen(argv[++i], "w"); if (!g_dump) return 2; }
    }
    for (int s : {SIGSEGV, SIGABRT, SIGALRM, SIGFPE, SIGBUS, SIGILL}) signal(s, onSignal);
    Stats st; Violation viol; std::vector<std::string> samples; std::string known;
    long jobIndex = -1;
    if (traceMode) { int r = dumpTraces(g_dump ? g_dump : stdout, fam, tier, part, parts, only); if (g_dump) fclose(g_dump); return r; }
    if (!logDir.empty()) {
        runLog(fam, tier, part, parts, only, logDir, st, viol, samples, [&](const std::string& s) { strncpy(g_progress, s.c_str(), sizeof g_progress - 1); alarm(120); });
        printf("{\"jobs\":0,");
    } else if (isSpecial(fam)) {
        runSpecial(fam, tier, part, parts, st, viol, samples, known, [&](const std::string& s) { strncpy(g_progress, s.c_str(), sizeof g_progress - 1); alarm(120); });
    } else {
        Family f = makeFamily(fam, tier);
        f.opt.catMask = cats;
        std::map<int, std::vector<Explorer::Node>> baseNodes;
        std::map<int, size_t> firstOf;
        for (size_t i = 0; i < f.jobs.size(); ++i) if (f.jobs[i].group >= 0 && !firstOf.count(f.jobs[i].group)) firstOf[f.jobs[i].group] = i;
        auto progress = [&](const Mach& m, const std::vector<Step>* p, const Step* st) { g_mach = &m; g_path = p; g_step = st; g_job = jobIndex; alarm(120); };
        for (size_t i = 0; i < f.jobs.size() && !viol.set; ++i) {
            if (only >= 0 ? long(i) != only : int(i % parts) != part) continue;
            jobIndex = long(i);
            Explorer ex(f.opt, st, viol);
            ex.progress = progress; ex.samples = &samples;
            auto& job = f.jobs[i];
            std::vector<Explorer::Node>* bn = nullptr;
            if (job.group >= 0) {
                bn = &baseNodes[job.group];
                if (bn->empty() && firstOf[job.group] != i) {
                    // navigation only: not counted, no vetoes, any disagreement is left to the job that owns it
                    Stats dummy; Violation dv; Opts o = f.opt; o.maxVetoes = 0; o.queries = false; o.maxBurst = 1; o.tagFocus = false;
                    Mach nav = f.jobs[firstOf[job.group]].m; nav.focusEvents.clear();
                    Explorer nx(o, dummy, dv); nx.progress = progress;
                    nx.explore(nav, bn);
                    if (dv.set) { viol = dv; break; }
                }
            }
            ex.explore(job.m, bn);
            if (ex.fuKnown && known.empty()) known = ex.fuExample;
        }
        printf("{\"jobs\":%zu,", f.jobs.size());
    }
    if (logDir.empty() && isSpecial(fam)) printf("{\"jobs\":0,");
    printf("\"machines\":%ld,\"states\":%ld,\"transitions\":%ld,\"execs\":%ld,\"skipped\":%ld,\"veto_steps\":%ld,\"records\":%ld,\"capped\":%ld,\"ref_runs\":%ld,\"fu_skipped\":%ld,",
           st.machines, st.states, st.transitions, st.execs, st.skipped, st.vetoSteps, st.records, st.capped, st.refRuns, st.knownHits);
    printf("\"known\":\"%s\",\"samples\":[", jesc(known).c_str());
    for (size_t i = 0; i < samples.size(); ++i) printf("%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
    printf("],\"violation\":");
    if (viol.set) {
        printf("{\"job\":%ld,\"machine\":\"%s\",\"what\":\"%s\",\"path\":[", jobIndex, jesc(viol.mach).c_str(), jesc(viol.what).c_str());
        for (size_t i = 0; i < viol.path.size(); ++i) printf("%s\"%s\"", i ? "," : "", jesc(viol.path[i]).c_str());
        printf("]}");
    } else printf("null");
    printf("}\n");
    fflush(stdout);
    _exit(0);
}
