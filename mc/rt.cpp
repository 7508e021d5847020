// See mc.hpp. Compiled without instrumentation; must not use operator new or std templates shared with the program under test.
#include "mc.hpp"

#include <initializer_list>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" char __libc_single_threaded;
extern "C" char __data_start[], _end[], __executable_start[], etext[];
extern "C" void mc_switch(void** save, void* load);
asm(R"(
.text
.globl mc_switch
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
namespace mc { bool useLibraries = false; int maxSteps = 60000; }
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace {
constexpr int MAXT = 12, MAXCH = 20000;
constexpr size_t STACK = 256 * 1024, ARENA = 64u << 20, NOBJ = 1 << 14, NSH = 1 << 17, NVIS = 1u << 23;
enum St : uint8_t { FREE, READY, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_IDLE, DONE };
const char* stName[] = {"free", "ready", "waiting for a mutex", "waiting for a condition", "joining", "sleeping", "idle", "done"};
constexpr uint64_t NEVER = ~0ull;

struct Thr {
    void* sp; St st; bool timedOut, detached, masked; int irq; void* obj; uint64_t deadline, h; uint32_t vc[MAXT];
    void* (*fn)(void*); void* arg; void* ret; uint64_t eh[2]; int joiner; int crit; bool service;
};
struct Obj { uintptr_t addr; uint32_t epoch; int owner; int count; uint64_t h; uint32_t vc[MAXT]; };
struct Acc { uint32_t clk; uint32_t pc; };
struct Sh { uintptr_t addr; uint32_t epoch; int wt; Acc w; Acc r[MAXT]; };
struct Choice { uint16_t n, c; };
struct Vis { uint64_t key; };

// shared between the worker processes
struct Shared {
    volatile int violated; char what[4096]; int nch; uint16_t ch[MAXCH]; int vbound; int vdetect;
    long execs, points, states, pruned, transitions, maxDepth, threads; int newRacy; int nVisUsed; volatile int stop; int overflow;
    char sample[3][1500]; int nsample;
};
struct G_t {
    Thr t[MAXT]; int nt, cur; char* stacks; void* schedSp; bool in; bool verbose; bool detect; bool pruneNow, failed;
    Obj obj[NOBJ]; uint32_t epoch; Sh sh[NSH]; uint64_t shOverflow;
    Choice ch[MAXCH]; int nch, prefix; int budget, used; int bound; long steps; int devs;
    uint64_t clock; bool forced; void (*irqFn)(); int irqLeft;
    int worker, workers; const mc::Scenario* sc; uint64_t extra; double deadlineWall;
    bool pruneOn; size_t arenaTop; FILE* vout; void* snap; uint64_t lastSig;
};
G_t* G; Shared* S; Vis* V; uint8_t* racy; uint8_t* arenaMem; uint8_t* arenaSh;
size_t textLen; uintptr_t textBase;

inline uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; a ^= a >> 33; return a; }
double wall() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void* bigmap(size_t n, bool shared) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return p;
}
Thr& me() { return G->t[G->cur]; }

void vlog(const char* fmt, ...) {
    if (!G->verbose) return;
    va_list ap; va_start(ap, fmt);
    char b[600]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fprintf(G->vout, "  [%6llu ms] T%d%s %s\n", (unsigned long long)((G->clock - 1000ull * 1000000000ull) / 1000000), G->cur, me().irq ? "(interrupt)" : "", b);
}
#define VLOG(...) do { if (__builtin_expect(G->verbose, 0)) vlog(__VA_ARGS__); } while (0)

[[noreturn]] void endExec() { void* dummy; mc_switch(&dummy, G->schedSp); __builtin_unreachable(); }
void report(const char* what) {
    if (__sync_bool_compare_and_swap(&S->violated, 0, 1)) {
        snprintf(S->what, sizeof S->what, "%s", what);
        S->nch = G->nch; for (int i = 0; i < G->nch; ++i) S->ch[i] = G->ch[i].c;
        S->vbound = G->bound; S->vdetect = G->detect;
        __sync_synchronize(); S->violated = 2;
    }
    if (G->verbose) fprintf(G->vout, "  ==> %s\n", what);
    G->failed = true;
}

// ---------------------------------------------------------------------------------------------- sync object table
Obj& obj(const void* a) {
    uintptr_t x = (uintptr_t)a; size_t i = (x >> 2) * 0x9E3779B97F4A7C15ull >> 50;
    for (size_t n = 0;; ++n) {
        Obj& o = G->obj[i & (NOBJ - 1)];
        if (o.epoch != G->epoch) { o.epoch = G->epoch; o.addr = x; o.owner = 0; o.count = 0; o.h = 7; memset(o.vc, 0, sizeof o.vc); return o; }
        if (o.addr == x) return o;
        ++i;
        if (n > NOBJ - 2) { fprintf(stderr, "object table full\n"); _exit(2); }
    }
}
void join(uint32_t* a, const uint32_t* b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
void opOn(Obj& o, int kind) { Thr& t = me(); t.h = mix(mix(t.h, o.h), kind); o.h = t.h; }
void acq(Obj& o) { join(me().vc, o.vc); }
void rel(Obj& o) { Thr& t = me(); join(o.vc, t.vc); ++t.vc[G->cur]; }

// ---------------------------------------------------------------------------------------------- choices
uint64_t signature(int kind) {
    uint64_t s = mix(G->clock, kind * 64 + G->cur);
    for (int i = 0; i < G->nt; ++i) s = mix(s, G->t[i].h + G->t[i].st);
    return mix(s, G->irqLeft * 2 + G->extra);
}
// visited: true = already explored with at least this much budget left
bool visited(uint64_t sig, int left) {
    uint64_t key = (sig & ~7ull) | 0; if (key == 0) key = 8;
    size_t i = (sig >> 3) * 0x9E3779B97F4A7C15ull >> 41;
    for (int n = 0; n < 64; ++n, ++i) {
        uint64_t* e = &V[i & (NVIS - 1)].key; uint64_t v = __atomic_load_n(e, __ATOMIC_RELAXED);
        if (v == 0) {
            if (__atomic_compare_exchange_n(e, &v, key | unsigned(left), false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __sync_fetch_and_add(&S->states, 1); return false; }
        }
        if ((v & ~7ull) == key) {
            if (int(v & 7) >= left) return true;
            __atomic_store_n(e, key | unsigned(left), __ATOMIC_RELAXED);
            return false;
        }
    }
    S->overflow = 1;
    return false;
}
// option 0 is the default and free; returns the chosen index
int pick(int n, int kind) {
    if (n <= 1) return 0;
    if (G->nch >= MAXCH) { report("too many choice points (endless run)"); endExec(); }
    int i = G->nch, c = 0;
    if (i < G->prefix) c = G->ch[i].c;
    else if (mc::useLibraries) (void)visited(signature(kind), G->bound - G->used);
    else if (G->pruneOn && visited(signature(kind), G->bound - G->used)) { G->pruneNow = true; endExec(); }
    if (c >= n) { fprintf(stderr, "replay diverged at choice %d: %d of %d\n", i, c, n); fflush(stderr); report("INTERNAL: replay diverged (nondeterministic execution)"); endExec(); }
    G->ch[i].n = uint16_t(n); G->ch[i].c = uint16_t(c); G->nch = i + 1;
    return c;
}

// ---------------------------------------------------------------------------------------------- scheduling
void resume(int to) {
    if (to == G->cur) return;
    Thr& a = me(); int from = G->cur;
    uint64_t* eh = (uint64_t*)__cxxabiv1::__cxa_get_globals();
    a.eh[0] = eh[0]; a.eh[1] = eh[1];
    G->cur = to;
    eh[0] = G->t[to].eh[0]; eh[1] = G->t[to].eh[1];
    (void)from;
    mc_switch(&a.sp, G->t[to].sp);
}
void expire() {                                    // advance time to the earliest deadline
    uint64_t d = NEVER;
    for (int i = 0; i < G->nt; ++i) if (G->t[i].st >= W_MUTEX && G->t[i].st <= W_SLEEP && G->t[i].deadline < d) d = G->t[i].deadline;
    if (d > G->clock) G->clock = d;
    for (int i = 0; i < G->nt; ++i) { Thr& t = G->t[i]; if (t.st >= W_MUTEX && t.st <= W_SLEEP && t.deadline <= G->clock) { t.st = READY; t.timedOut = true; t.deadline = NEVER; } }
}
bool hasDeadline() { for (int i = 0; i < G->nt; ++i) if (G->t[i].st >= W_MUTEX && G->t[i].st <= W_SLEEP && G->t[i].deadline != NEVER) return true; return false; }
void runInterrupt() {
    --G->irqLeft; Thr& t = me(); bool m = t.masked; t.masked = true; ++t.irq; 
    VLOG("interrupt");
    t.h = mix(t.h, 977);
    G->irqFn();
    --t.irq; t.masked = m;
}
void checkSteps() { if (++G->steps > mc::maxSteps) { report("endless run: no thread ever comes to rest"); endExec(); } }
// before a visible operation of the running thread
void point(int kind) {
    checkSteps();
    if (me().crit) return;
    int ready[MAXT], n = 0;
    for (int k = 1; k < G->nt; ++k) { int i = (G->cur + k) % G->nt; if (G->t[i].st == READY) ready[n++] = i; }
    if (G->used >= G->bound) return;
    bool dl = hasDeadline();
    bool irq = G->irqFn && G->irqLeft > 0 && !me().masked;
    if (n == 0 && !dl && !irq) return;
    int c = pick(1 + n + dl + irq, kind);
    if (c == 0) return;
    ++G->used;
    if (c <= n) { VLOG("-- preempted, T%d continues", ready[c - 1]); resume(ready[c - 1]); return; }
    if (irq && c == n + 1 + dl) { runInterrupt(); return; }
    // time passes while threads could still run
    G->forced = true;
    bool was[MAXT]; for (int i = 0; i < G->nt; ++i) was[i] = G->t[i].st == READY;
    expire();
    VLOG("-- delayed: a timeout expires now");
    for (int i = 0; i < G->nt; ++i) if (G->t[i].st == READY && !was[i]) { resume(i); return; }
}
void irqPoint(int kind) {                           // only an interrupt can come in here
    if (me().crit) return;
    if (!G->irqFn || G->irqLeft <= 0 || me().masked || G->used >= G->bound) return;
    if (pick(2, kind)) { ++G->used; runInterrupt(); }
}
// the running thread cannot continue
void block() {
    checkSteps();
    if (me().crit && me().st != DONE) { report("a task waits inside of a critical section"); endExec(); }
    for (;;) {
        int ready[MAXT], n = 0;
        for (int k = 1; k <= G->nt; ++k) { int i = (G->cur + k) % G->nt; if (G->t[i].st == READY) ready[n++] = i; }
        if (n == 0) {                               // a sleeping thread is not at rest
            bool sleeping = false; for (int i = 0; i < G->nt; ++i) sleeping |= G->t[i].st == W_SLEEP;
            if (sleeping) { expire(); continue; }
            for (int i = 0; i < G->nt; ++i) if (G->t[i].st == W_IDLE) { G->t[i].st = READY; n = 1; ready[0] = i; break; }
        }
        if (n == 0) {
            if (hasDeadline()) { expire(); continue; }
            char b[2000]; size_t o = snprintf(b, sizeof b, "deadlock: nothing can run any more.");
            for (int i = 0; i < G->nt; ++i) if (G->t[i].st != DONE) {
                o += snprintf(b + o, sizeof b - o, " T%d %s", i, stName[G->t[i].st]);
                if (G->t[i].st == W_MUTEX) o += snprintf(b + o, sizeof b - o, " held by T%d", obj(G->t[i].obj).owner - 1);
                o += snprintf(b + o, sizeof b - o, ";");
            }
            report(b); endExec();
        }
        int opts = n;
        bool dl = G->used < G->bound && hasDeadline();
        int c = pick(opts + dl, 900);
        if (c < n) { resume(ready[c]); return; }
        ++G->used; G->forced = true;
        bool was[MAXT]; for (int i = 0; i < G->nt; ++i) was[i] = G->t[i].st == READY;
        expire();
        for (int i = 0; i < G->nt; ++i) if (G->t[i].st == READY && !was[i]) { resume(i); return; }
    }
}
void threadMain() {
    Thr& t = me();
    t.ret = t.fn(t.arg);
    t.h = mix(t.h, 31);
    if (G->cur == 0) {
        for (;;) {                                  // threads which are about to end may do so
            bool ready = false; for (int i = 1; i < G->nt; ++i) ready |= G->t[i].st == READY;
            if (!ready) break;
            t.st = W_IDLE; block();
        }
        for (int i = 1; i < G->nt; ++i) if (G->t[i].st != DONE && !G->t[i].service) { char b[200]; snprintf(b, sizeof b, "T%d is still there (%s) after the program has ended", i, stName[G->t[i].st]); report(b); break; }
        endExec();
    }
    VLOG("thread ends");
    t.st = DONE;
    ++t.vc[G->cur];
    for (int i = 0; i < G->nt; ++i) if (G->t[i].st == W_JOIN && G->t[i].obj == (void*)(intptr_t)(G->cur + 1)) G->t[i].st = READY;
    block();
    abort();
}
int spawn(void* (*fn)(void*), void* arg) {
    if (G->nt >= MAXT) { fprintf(stderr, "too many threads\n"); _exit(2); }
    int i = G->nt++; Thr& t = G->t[i];
    memset((void*)&t, 0, sizeof t);
    t.st = READY; t.deadline = NEVER; t.fn = fn; t.arg = arg; t.h = mix(i ? me().h : 1, 1000 + i);
    if (i) { memcpy(t.vc, me().vc, sizeof t.vc); ++me().vc[G->cur]; }
    t.vc[i] = 1;
    void** sp = (void**)(G->stacks + (i + 1) * STACK);
    *--sp = nullptr;
    *--sp = (void*)threadMain;
    for (int k = 0; k < 6; ++k) *--sp = nullptr;
    t.sp = sp;
    return i;
}

// ---------------------------------------------------------------------------------------------- memory
enum : uint8_t { NOTHING = 0, LIVE = 1, FREED = 2 };
bool inArena(uintptr_t a) { return a - (uintptr_t)arenaMem < ARENA; }
void badAccess(const char* what, uintptr_t a, void* pc) {
    char b[300]; Dl_info di; const char* sym = "?";
    if (dladdr(pc, &di) && di.dli_sname) sym = di.dli_sname;
    snprintf(b, sizeof b, "%s (T%d, in %s, text offset 0x%lx)", what, G->cur, sym, (unsigned long)((uintptr_t)pc - textBase));
    (void)a; report(b); endExec();
}
inline void checkLive(uintptr_t a, void* pc) {
    if (!inArena(a)) return;
    uint8_t s = arenaSh[(a - (uintptr_t)arenaMem) >> 4];
    if (__builtin_expect(s != LIVE, 0)) badAccess(s == FREED ? "access to freed memory" : "access outside of an allocation", a, pc);
}
void markRacy(uint32_t pc) {
    if (pc < textLen && !racy[pc]) { racy[pc] = 2; S->newRacy = 1; }
}
Sh* shadow(uintptr_t a) {
    uintptr_t k = a >> 3; size_t i = k * 0x9E3779B97F4A7C15ull >> 47;
    for (int n = 0; n < 200; ++n, ++i) {
        Sh& s = G->sh[i & (NSH - 1)];
        if (s.epoch != G->epoch) { memset((void*)&s, 0, sizeof s); s.epoch = G->epoch; s.addr = k; s.wt = -1; return &s; }
        if (s.addr == k) return &s;
    }
    ++G->shOverflow; return nullptr;
}
void detectAccess(uintptr_t a, bool write, uint32_t pc) {
    Sh* s = shadow(a); if (!s) return;
    Thr& t = me(); int c = G->cur;
    if (s->wt >= 0 && s->wt != c && s->w.clk > t.vc[s->wt]) { markRacy(pc); markRacy(s->w.pc); }
    if (write) {
        for (int i = 0; i < G->nt; ++i) if (i != c && s->r[i].clk > t.vc[i]) { markRacy(pc); markRacy(s->r[i].pc); }
        s->wt = c; s->w.clk = t.vc[c]; s->w.pc = pc;
    } else { s->r[c].clk = t.vc[c]; s->r[c].pc = pc; }
}
bool onStack(uintptr_t a) { return a - (uintptr_t)G->stacks < STACK * MAXT; }
inline void access(const void* p, size_t n, bool write, void* ret) {
    if (!G || !G->in) return;
    uintptr_t a = (uintptr_t)p;
    if (onStack(a)) return;
    uint32_t pc = uint32_t((uintptr_t)ret - textBase);
    if (__builtin_expect(pc < textLen && racy[pc] == 1, 0)) { point(int(pc % 100003) + 2000); VLOG("%s racy access @%x", write ? "write" : "read", pc); opOn(obj((void*)(a & ~7ull)), write ? 5 : 6); }
    checkLive(a, ret);
    if (n > 1) checkLive(a + n - 1, ret);
    if (G->detect) { detectAccess(a, write, pc); if (((a + n - 1) >> 3) != (a >> 3)) detectAccess(a + n - 1, write, pc); }
}
// an atomic operation: contended ones are scheduling points
inline void atomicOp(const void* p, bool write, void* ret) {
    if (!G || !G->in) return;
    uintptr_t a = (uintptr_t)p; uint32_t pc = uint32_t((uintptr_t)ret - textBase);
    if (onStack(a)) return;
    if (pc < textLen && racy[pc] == 1) { point(int(pc % 100003) + 2000); VLOG("atomic %s @%x", write ? "write" : "read", pc); }
    checkLive(a, ret);
    if (G->detect) detectAccess(a, write, pc);
    Obj& o = obj((void*)(a & ~7ull)); opOn(o, write ? 7 : 8);
    acq(o); if (write) rel(o);
}
void* arenaAlloc(size_t n) {
    size_t need = ((n + 15) & ~size_t(15)) + 32;               // 16 bytes header, 16 bytes red zone
    if (G->arenaTop + need > ARENA) { report("out of memory (endless allocation)"); endExec(); }
    uint8_t* p = arenaMem + G->arenaTop; G->arenaTop += need;
    *(size_t*)p = n;
    memset(p + 16, 0xCD, need - 32);
    memset(arenaSh + ((p - arenaMem) >> 4) + 1, LIVE, (need - 32) >> 4);
    return p + 16;
}
void arenaFree(void* q, void* ret) {
    uint8_t* p = (uint8_t*)q - 16; size_t n = *(size_t*)p; size_t g = (n + 15) >> 4;
    uint32_t pc = uint32_t((uintptr_t)ret - textBase);
    if (pc < textLen && racy[pc] == 1) { point(int(pc % 100003) + 2000); for (size_t i = 0; i < n; i += 8) { Obj& o = obj((char*)q + i); opOn(o, 5); if (i > 256) break; } }
    size_t i0 = ((uint8_t*)q - arenaMem) >> 4;
    if (g && arenaSh[i0] == FREED) { badAccess("memory freed twice", (uintptr_t)q, ret); }
    if (G->detect) for (size_t i = 0; i < n; i += 8) {
        Sh* s = shadow((uintptr_t)q + i); if (s && (s->wt >= 0)) detectAccess((uintptr_t)q + i, true, pc);
        else if (s) { bool any = false; for (int k = 0; k < G->nt; ++k) any |= s->r[k].clk != 0; if (any) detectAccess((uintptr_t)q + i, true, pc); }
    }
    memset(arenaSh + i0, FREED, g);
}

// ---------------------------------------------------------------------------------------------- exploration
void* scenarioThread(void*) { G->sc->fn(); return nullptr; }
void onSignal(int sig, siginfo_t* si, void* uc) {
    char b[400]; snprintf(b, sizeof b, "%s (T%d)", sig == SIGSEGV || sig == SIGBUS ? "crash: invalid memory access" : sig == SIGABRT ? "crash: abort/terminate (uncaught exception or std::terminate)" : sig == SIGALRM ? "hang: code loops without ever reaching a scheduling point" : "crash", G->cur);
    if (sig == SIGSEGV || sig == SIGBUS) {
        uintptr_t pc = uintptr_t(((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]); Dl_info di; const char* sym = dladdr((void*)pc, &di) && di.dli_sname ? di.dli_sname : "?";
        size_t l = strlen(b); snprintf(b + l, sizeof b - l, " in %s, text offset 0x%lx", sym, (unsigned long)(pc - textBase)); (void)si;
    }
    report(b);
    S->execs += 1;
    if (G->verbose) fflush(G->vout);
    _exit(7);
}
void runOnce() {
    size_t len = size_t(_end - __data_start);
    G->nt = 0; G->cur = 0; G->nch = 0; G->used = 0; G->clock = 1000ull * 1000000000ull; G->forced = false; G->irqFn = nullptr; G->irqLeft = 0;
    G->steps = 0; G->pruneNow = G->failed = false; G->extra = 0; ++G->epoch;
    memset(arenaSh, 0, (G->arenaTop >> 4) + 2); G->arenaTop = 0;
    uint64_t* eh = (uint64_t*)__cxxabiv1::__cxa_get_globals(); eh[0] = eh[1] = 0;
    spawn(scenarioThread, nullptr);
    alarm(20);
    G->in = true;
    mc_switch(&G->schedSp, G->t[0].sp);
    G->in = false;
    eh[0] = eh[1] = 0;
    __sync_fetch_and_add(&S->execs, 1); __sync_fetch_and_add(&S->transitions, G->steps); if (G->pruneNow) __sync_fetch_and_add(&S->pruned, 1);
    if (G->nch > S->maxDepth) S->maxDepth = G->nch;
    if (G->nt > S->threads) S->threads = G->nt;
    memcpy(__data_start, G->snap, len);
}
bool backtrack() {
    int first = MAXCH;
    for (int i = 0; i < G->nch; ++i) if (G->ch[i].c) { first = i; break; }
    for (int i = G->nch - 1; i >= 0; --i) {
        if (G->ch[i].c + 1 >= G->ch[i].n) continue;
        if (i <= first && i % G->workers != G->worker) continue;
        ++G->ch[i].c; G->prefix = i + 1;
        return true;
    }
    return false;
}
void explore() {
    G->prefix = 0;
    for (;;) {
        runOnce();
        if (S->violated || S->stop) return;
        if ((G->epoch & 63) == 0 && wall() > G->deadlineWall) { S->stop = 1; return; }
        if (!backtrack()) return;
    }
}
}  // namespace

// ================================================================================================ API
namespace mc {
void fail(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); char b[2000]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    report(b); endExec();
}
void note(const char* fmt, ...) {
    if (!G->verbose) return;
    va_list ap; va_start(ap, fmt); char b[500]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    vlog("%s", b);
}
int arg() { return G->sc->arg; }
int tid() { return G->cur; }
uint64_t nowMs() { me().h = mix(me().h, G->clock); return (G->clock - 1000ull * 1000000000ull) / 1000000; }
void touch() { static char log; Obj& o = obj(&log); opOn(o, 9); }
int choose(int n) { int c = pick(n, 800); me().h = mix(me().h, 100 + c); VLOG("input %d of %d", c, n); return c; }
void idle() { me().st = W_IDLE; me().h = mix(me().h, 55); block(); for (int i = 0; i < G->nt; ++i) { me().h = mix(me().h, G->t[i].h); } }
bool othersDone() { for (int i = 0; i < G->nt; ++i) if (i != G->cur && G->t[i].st != DONE && !G->t[i].service) return false; return true; }
void setInterrupt(void (*fn)(), int times) { G->irqFn = fn; G->irqLeft = times; }
bool timeWasForced() { return G->forced; }
void point() { if (G && G->in) ::point(13); }
void sleepMs(int ms) { struct timespec t = {ms / 1000, long(ms % 1000) * 1000000}; nanosleep(&t, nullptr); }
bool inInterrupt() { return me().irq > 0; }
bool wasFreed(const void* p) { uintptr_t a = (uintptr_t)p; return inArena(a) && arenaSh[(a - (uintptr_t)arenaMem) >> 4] == FREED; }
static char criticalObj;
// a kernel simulated on top: critical sections cannot be preempted or interrupted, queues of waiting threads
void enterCritical() { if (!G || !G->in) return; if (!me().crit) ::point(20); if (me().crit++ == 0) sync(&criticalObj); }
void exitCritical() { if (!G || !G->in) return; if (me().crit <= 0) fail("a critical section is left which was not entered"); if (--me().crit == 0) { sync(&criticalObj); } }
bool wait(void* w, long ms) {
    Thr& t = me(); opOn(obj(w), 22);
    t.st = W_COND; t.obj = w; t.timedOut = false; t.deadline = ms < 0 ? NEVER : G->clock + uint64_t(ms) * 1000000ull;
    block();
    bool to = t.timedOut; t.timedOut = false; t.deadline = NEVER; t.h = mix(t.h, to ? 71 : 72);
    Obj& o = obj(w); opOn(o, 23); acq(o);
    return !to;
}
void wake(void* w, bool all) {
    Obj& o = obj(w); opOn(o, 24); rel(o);
    int l[MAXT], n = 0; for (int i = 0; i < G->nt; ++i) if (G->t[i].st == W_COND && G->t[i].obj == w) l[n++] = i;
    if (!n) return;
    if (all) { for (int i = 0; i < n; ++i) { G->t[l[i]].st = READY; G->t[l[i]].deadline = NEVER; } return; }
    Thr& t = G->t[l[pick(n, 700)]]; t.st = READY; t.deadline = NEVER;
}
void sync(void* p) { Obj& o = obj(p); opOn(o, 25); acq(o); rel(o); }
int threadCount() { return G->nt; }
void service(int i) { G->t[i].service = true; }
void killThread(int i) { G->t[i].st = DONE; join(me().vc, G->t[i].vc); }
void advance(int ms) { G->clock += uint64_t(ms) * 1000000ull; me().h = mix(me().h, G->clock); }

int main(int argc, char** argv, const Scenario* list, int count) {
    const char* only = nullptr; int bound = 2, workers = 8, dbound = 1; double budget = 600; const char* replay = nullptr; const char* racyIn = nullptr;
    bool listOnly = false, noprune = false;
    for (int i = 1; i < argc; ++i) {
        auto is = [&](const char* o) { return !strcmp(argv[i], o); };
        if (is("--scenario")) only = argv[++i]; else if (is("--bound")) bound = atoi(argv[++i]); else if (is("--detect-bound")) dbound = atoi(argv[++i]);
        else if (is("--workers")) workers = atoi(argv[++i]); else if (is("--budget")) budget = atof(argv[++i]); else if (is("--replay")) replay = argv[++i];
        else if (is("--racy")) racyIn = argv[++i]; else if (is("--list")) listOnly = true; else if (is("--noprune")) noprune = true;
    }
    if (listOnly) { for (int i = 0; i < count; ++i) printf("%s\n", list[i].name); return 0; }
    const Scenario* sc = nullptr;
    for (int i = 0; i < count; ++i) if (only && !strcmp(list[i].name, only)) sc = &list[i];
    if (!sc) { fprintf(stderr, "no such scenario\n"); return 2; }
    __libc_single_threaded = 0;
    textBase = (uintptr_t)__executable_start; textLen = (uintptr_t)etext - textBase;
    S = (Shared*)bigmap(sizeof(Shared), true);
    V = (Vis*)bigmap(sizeof(Vis) * NVIS, true);
    racy = (uint8_t*)bigmap(textLen + 64, true);
    arenaMem = (uint8_t*)bigmap(ARENA, false); arenaSh = (uint8_t*)bigmap(ARENA >> 4, false);
    G_t* g = (G_t*)bigmap(sizeof(G_t), false);
    g->stacks = (char*)bigmap(STACK * MAXT, false);
    g->sc = sc; g->workers = workers; g->vout = stdout; g->deadlineWall = wall() + budget;
    size_t len = size_t(_end - __data_start); g->snap = bigmap(len, false);
    stack_t ss; ss.ss_sp = bigmap(1 << 16, false); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_SIGINFO; sigaction(s, &sa, nullptr); }
    G = g;
    memcpy(g->snap, __data_start, len);     // (taken with G set)
    if (racyIn && *racyIn) for (const char* p = racyIn; *p;) { char* e; racy[strtoul(p, &e, 16)] = 1; p = *e ? e + 1 : e; }
    double t0 = wall();
    if (replay) {
        int n = 0; static uint16_t c[MAXCH];
        for (const char* p = replay; *p && n < MAXCH;) { char* e; c[n++] = uint16_t(strtoul(p, &e, 10)); p = *e ? e + 1 : e; }
        g->verbose = true; g->bound = bound; g->prefix = n; g->workers = 1;
        for (int i = 0; i < n; ++i) g->ch[i].c = c[i];
        memcpy(g->snap, __data_start, len);
        runOnce();
        printf("%s\n", S->violated ? "REPRODUCED" : "not reproduced");
        fflush(stdout); _exit(S->violated ? 1 : 0);
    }
    // Passes: (1) find racy accesses with all schedules up to dbound until no new one shows up; (2) all schedules up to bound.
    int passes = 0, nr = 0; bool complete = true; long execs = 0, trans = 0, states = 0, pruned = 0; int doneBound = -1; bool again = true;
    auto pass = [&](int b, bool detect) {
        memset((void*)V, 0, 0); madvise(V, sizeof(Vis) * NVIS, MADV_REMOVE);
        S->states = S->execs = S->transitions = S->pruned = 0; S->newRacy = 0; S->stop = 0; ++passes;
        fflush(stdout);
        pid_t pid[64];
        for (int w = 0; w < workers; ++w) {
            pid[w] = fork();
            if (pid[w] == 0) { G->worker = w; G->bound = b; G->detect = detect; G->pruneOn = !noprune && !(detect && b <= 1); explore(); _exit(0); }
        }
        for (int w = 0; w < workers; ++w) {
            int st; waitpid(pid[w], &st, 0);
            if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 7)) && !S->violated) { S->violated = 2; snprintf(S->what, sizeof S->what, "worker died with status %d", st); }
        }
        execs += S->execs; trans += S->transitions; states = S->states; pruned += S->pruned;
        if (S->stop) complete = false;
    };
    for (int b = 0; b <= dbound && !S->violated && complete; ++b) {
        again = true;
        while (again && !S->violated && complete) {
            pass(b, true);
            again = S->newRacy != 0;
            if (again && !S->violated) for (size_t i = 0; i < textLen; ++i) if (racy[i] == 2) { racy[i] = 1; ++nr; }
        }
        if (complete) doneBound = b;
    }
    for (int b = dbound + 1; b <= bound && !S->violated && complete; ++b) { pass(b, false); if (complete) doneBound = b; }
    auto esc = [](const char* s) { for (; *s; ++s) { if (*s == '"' || *s == '\\') putchar('\\'); if (*s == '\n') { fputs("\\n", stdout); continue; } if (*s < 32) { putchar(' '); continue; } putchar(*s); } };
    char racyList[8192]; size_t ro = 0; racyList[0] = 0;
    for (size_t i = 0; i < textLen && ro < sizeof racyList - 16; ++i) if (racy[i] == 1) ro += snprintf(racyList + ro, sizeof racyList - ro, "%s%zx", ro ? "," : "", i);
    // one written-out schedule, and the failing one if there is any
    char trace[60000]; size_t tl = 0; trace[0] = 0;
    {
        int fd[2]; if (pipe(fd)) return 2;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            close(fd[0]); G->vout = fdopen(fd[1], "w"); G->verbose = true; G->workers = 1; G->pruneOn = false;
            G->detect = false;
            if (S->violated) { G->bound = S->vbound; G->prefix = S->nch; for (int i = 0; i < S->nch; ++i) G->ch[i].c = S->ch[i]; } else { G->bound = 0; G->prefix = 0; }
            S->stop = 0; runOnce(); fflush(G->vout); _exit(0);
        }
        close(fd[1]); ssize_t r; while ((r = read(fd[0], trace + tl, tl < sizeof trace - 1 ? sizeof trace - 1 - tl : 0)) > 0) tl += size_t(r);
        trace[tl] = 0; close(fd[0]); kill(p, SIGKILL); waitpid(p, nullptr, 0);
    }
    printf("{\"scenario\":\"%s\",\"execs\":%ld,\"transitions\":%ld,\"states\":%ld,\"pruned\":%ld,\"racy\":%d,\"passes\":%d,\"bound\":%d,\"complete\":%s,\"overflow\":%d,\"max_choices\":%ld,\"threads\":%ld,\"wall\":%.1f,\"violation\":", sc->name, execs, trans, states, pruned, nr, passes, doneBound, complete ? "true" : "false", S->overflow, S->maxDepth, S->threads, wall() - t0);
    if (S->violated) {
        printf("{\"what\":\""); esc(S->what); printf("\",\"bound\":%d,\"racy\":\"%s\",\"choices\":\"", S->vbound, racyList);
        for (int i = 0; i < S->nch; ++i) printf("%s%d", i ? "," : "", S->ch[i]);
        printf("\",\"schedule\":\""); esc(trace); printf("\"}");
    } else printf("null");
    printf(",\"sample\":\""); if (tl > 1500) trace[1500] = 0; if (!S->violated) esc(trace); printf("\"}\n");
    fflush(stdout);
    _exit(S->violated ? 1 : 0);
}
}  // namespace mc

// ================================================================================================ interposed functions
#define IN (G && G->in)
extern "C" {
static void checkObj(const void* m, void* ret) { checkLive((uintptr_t)m, ret); }

int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!IN) return 0;
    checkObj(m, __builtin_return_address(0));
    point(1);
    for (;;) {
        Obj& o = obj(m);
        if (o.owner == 0) { o.owner = G->cur + 1; o.count = 1; opOn(o, 1); acq(o); VLOG("lock %p", (void*)m); return 0; }
        if (o.owner == G->cur + 1 && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { ++o.count; return 0; }
        VLOG("blocked on mutex %p held by T%d", (void*)m, o.owner - 1);
        me().st = W_MUTEX; me().obj = m;
        block();
        checkObj(m, __builtin_return_address(0));
    }
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!IN) return 0;
    checkObj(m, __builtin_return_address(0));
    point(2);
    Obj& o = obj(m);
    if (o.owner) { opOn(o, 3); return EBUSY; }
    o.owner = G->cur + 1; o.count = 1; opOn(o, 1); acq(o);
    return 0;
}
static void unlockMutex(pthread_mutex_t* m) {
    Obj& o = obj(m);
    if (o.owner != G->cur + 1) { report(o.owner ? "unlock of a mutex held by another thread" : "unlock of a mutex which is not locked"); endExec(); }
    if (--o.count > 0) return;
    o.owner = 0; opOn(o, 2); rel(o);
    for (int i = 0; i < G->nt; ++i) if (G->t[i].st == W_MUTEX && G->t[i].obj == m) G->t[i].st = READY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!IN) return 0;
    checkObj(m, __builtin_return_address(0));
    irqPoint(12);
    unlockMutex(m);
    VLOG("unlock %p", (void*)m);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); if (a) m->__data.__kind = *(const int*)a & 3; return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
static int lockUntil(pthread_mutex_t* m, uint64_t deadline, void* ret) {
    if (!IN) return 0;
    checkObj(m, ret);
    point(1);
    for (;;) {
        Obj& o = obj(m);
        if (o.owner == 0) { o.owner = G->cur + 1; o.count = 1; opOn(o, 1); acq(o); return 0; }
        Thr& t = me();
        if (deadline <= G->clock || t.timedOut) { t.timedOut = false; t.h = mix(t.h, 74); return ETIMEDOUT; }
        t.st = W_MUTEX; t.obj = m; t.deadline = deadline; t.timedOut = false; block(); t.deadline = NEVER;
        checkObj(m, ret);
    }
}
static uint64_t toNs(const struct timespec* t);
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return lockUntil(m, toNs(ts), __builtin_return_address(0)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return lockUntil(m, toNs(ts), __builtin_return_address(0)); }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline, void* ret) {
    checkObj(c, ret); checkObj(m, ret);
    point(3);
    { Obj& o = obj(c); opOn(o, 4); }
    VLOG("wait on condition %p%s", (void*)c, deadline == NEVER ? "" : " (timed)");
    Thr& t = me();
    if (G->used < G->bound && pick(2, 750)) { ++G->used; t.h = mix(t.h, 73); VLOG("-- spurious wakeup"); return 0; }
    unlockMutex(m);
    t.st = W_COND; t.obj = c; t.deadline = deadline; t.timedOut = false;
    if (deadline <= G->clock) { t.st = READY; t.timedOut = true; t.deadline = NEVER; }
    else block();
    bool to = t.timedOut; t.timedOut = false; t.deadline = NEVER;
    t.h = mix(t.h, to ? 71 : 72);
    { Obj& o = obj(c); opOn(o, 4); if (!to) acq(o); }
    for (;;) {
        checkObj(m, ret);
        Obj& o = obj(m);
        if (o.owner == 0) { o.owner = G->cur + 1; o.count = 1; opOn(o, 1); acq(o); break; }
        t.st = W_MUTEX; t.obj = m; block();
    }
    VLOG("woke up from %p%s", (void*)c, to ? " (timeout)" : "");
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!IN) return 0; return condWait(c, m, NEVER, __builtin_return_address(0)); }
static uint64_t toNs(const struct timespec* t) { return uint64_t(t->tv_sec) * 1000000000ull + uint64_t(t->tv_nsec); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!IN) return 0; return condWait(c, m, toNs(ts), __builtin_return_address(0)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { if (!IN) return 0; return condWait(c, m, toNs(ts), __builtin_return_address(0)); }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static void wake(Thr& t, Obj& o) { t.st = READY; t.deadline = NEVER; (void)o; }
int pthread_cond_signal(pthread_cond_t* c) {
    if (!IN) return 0;
    checkObj(c, __builtin_return_address(0));
    point(4);
    Obj& o = obj(c); opOn(o, 10); rel(o);
    int w[MAXT], n = 0;
    for (int i = 0; i < G->nt; ++i) if (G->t[i].st == W_COND && G->t[i].obj == c) w[n++] = i;
    VLOG("signal %p (%d waiting)", (void*)c, n);
    if (n) wake(G->t[w[pick(n, 700)]], o);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!IN) return 0;
    checkObj(c, __builtin_return_address(0));
    point(5);
    Obj& o = obj(c); opOn(o, 11); rel(o);
    int n = 0;
    for (int i = 0; i < G->nt; ++i) if (G->t[i].st == W_COND && G->t[i].obj == c) { wake(G->t[i], o); ++n; }
    VLOG("broadcast %p (%d waiting)", (void*)c, n);
    return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    if (!IN) return EAGAIN;
    int i = spawn(fn, arg);
    *t = pthread_t(i + 1);
    VLOG("create T%d", i);
    me().h = mix(me().h, 90);
    point(6);
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    if (!IN) return 0;
    int i = int(t) - 1;
    if (i < 0 || i >= G->nt) { report("join of an invalid thread"); endExec(); }
    if (i == G->cur) return EDEADLK;
    point(7);
    while (G->t[i].st != DONE) { VLOG("join T%d", i); me().st = W_JOIN; me().obj = (void*)(intptr_t)(i + 1); block(); }
    join(me().vc, G->t[i].vc); me().h = mix(mix(me().h, G->t[i].h), 91);
    if (ret) *ret = G->t[i].ret;
    return 0;
}
int pthread_detach(pthread_t t) { if (IN) G->t[int(t) - 1].detached = true; return 0; }
pthread_t pthread_self(void) { return G && G->in ? pthread_t(G->cur + 1) : pthread_t(1); }
int pthread_sigmask(int how, const sigset_t* set, sigset_t* old) {
    if (!IN) return 0;
    Thr& t = me();
    if (old) { sigemptyset(old); if (t.masked) sigfillset(old); }
    if (set) { if (how == SIG_BLOCK) t.masked = true; else if (how == SIG_UNBLOCK) t.masked = false; else t.masked = sigismember(set, SIGUSR1) == 1; }
    return 0;
}
int sigprocmask(int how, const sigset_t* set, sigset_t* old) { return pthread_sigmask(how, set, old); }
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!IN) return int(syscall(SYS_clock_gettime, c, ts));
    me().h = mix(me().h, G->clock);
    ts->tv_sec = time_t(G->clock / 1000000000ull); ts->tv_nsec = long(G->clock % 1000000000ull);
    return 0;
}
int nanosleep(const struct timespec* r, struct timespec*) {
    if (!IN) return 0;
    Thr& t = me();
    t.st = W_SLEEP; t.deadline = G->clock + toNs(r); t.timedOut = false;
    VLOG("sleep %llu ms", (unsigned long long)(toNs(r) / 1000000));
    block();
    t.h = mix(t.h, G->clock);
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* r, struct timespec*) {
    if (!IN) return 0;
    Thr& t = me();
    uint64_t d = flags & TIMER_ABSTIME ? toNs(r) : G->clock + toNs(r);
    if (d <= G->clock) return 0;
    t.st = W_SLEEP; t.deadline = d; t.timedOut = false;
    block();
    t.h = mix(t.h, G->clock);
    return 0;
}
int usleep(useconds_t us) { struct timespec r = {time_t(us / 1000000), long(us % 1000000) * 1000}; return nanosleep(&r, nullptr); }
unsigned sleep(unsigned sec) { struct timespec r = {time_t(sec), 0}; nanosleep(&r, nullptr); return 0; }
// reader-writer locks: owner = writer, count = readers
static int rwLock(pthread_rwlock_t* m, bool wr, bool wait, void* ret) {
    if (!IN) return 0;
    checkObj(m, ret);
    point(13);
    for (;;) {
        Obj& o = obj(m);
        if (o.owner == 0 && (!wr || o.count == 0)) { if (wr) o.owner = G->cur + 1; else ++o.count; opOn(o, wr ? 14 : 15); acq(o); VLOG("%s lock %p", wr ? "write" : "read", (void*)m); return 0; }
        if (!wait) { opOn(o, 16); return EBUSY; }
        me().st = W_MUTEX; me().obj = m;
        block();
        checkObj(m, ret);
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return rwLock(m, true, true, __builtin_return_address(0)); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return rwLock(m, false, true, __builtin_return_address(0)); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return rwLock(m, true, false, __builtin_return_address(0)); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return rwLock(m, false, false, __builtin_return_address(0)); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!IN) return 0;
    Obj& o = obj(m);
    if (o.owner) o.owner = 0; else if (o.count > 0) --o.count; else { report("unlock of a reader-writer lock which is not locked"); endExec(); }
    opOn(o, 17); rel(o);
    for (int i = 0; i < G->nt; ++i) if (G->t[i].st == W_MUTEX && G->t[i].obj == m) G->t[i].st = READY;
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) { memset(m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int sched_yield(void) { if (IN) { int r = 0; for (int i = 0; i < G->nt; ++i) r += G->t[i].st == READY; if (r > 1) { checkSteps(); for (int k = 1; k < G->nt; ++k) { int i = (G->cur + k) % G->nt; if (G->t[i].st == READY) { resume(i); break; } } } } return 0; }

// ------------------------------------------------------------------------------------------------ hooks of the instrumentation
#define RET __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, RET); } \
    void __tsan_write##n(void* p) { access(p, n, true, RET); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, RET); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, RET); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, RET); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, RET); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { for (unsigned long i = 0; i < n; i += 8) access((char*)p + i, n - i < 8 ? n - i : 8, false, RET); }
void __tsan_write_range(void* p, unsigned long n) { for (unsigned long i = 0; i < n; i += 8) access((char*)p + i, n - i < 8 ? n - i : 8, true, RET); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, RET); else access(p, 8, false, RET); }
void __tsan_vptr_read(void** p) { access(p, 8, false, RET); }
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int) { atomicOp((void*)p, false, RET); return *p; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) { atomicOp((void*)p, true, RET); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { atomicOp((void*)p, true, RET); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { atomicOp((void*)p, true, RET); T o = *p; *p = (T)(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { atomicOp((void*)p, true, RET); T o = *p; *p = (T)(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { atomicOp((void*)p, true, RET); T o = *p; *p = (T)(o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { atomicOp((void*)p, true, RET); T o = *p; *p = (T)(o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { atomicOp((void*)p, true, RET); T o = *p; *p = (T)(o ^ v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atomicOp((void*)p, true, RET); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { atomicOp((void*)p, true, RET); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { atomicOp((void*)p, true, RET); T o = *p; if (o == e) *p = v; return o; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

static inline bool ownCode(void* ret) { return !mc::useLibraries || uintptr_t(ret) - textBase < textLen; }
static void irqAlloc() { if (me().irq) { report("memory is allocated inside an interrupt handler (the interrupted code may hold the allocator's lock)"); endExec(); } }
void* operator new(size_t n) { if (IN) irqAlloc(); if (IN && ownCode(RET)) return arenaAlloc(n); void* p = malloc(n); if (!p) abort(); return p; }
void* operator new[](size_t n) { if (IN && ownCode(RET)) return arenaAlloc(n); void* p = malloc(n); if (!p) abort(); return p; }
static void del(void* p, void* ret) { if (!p) return; if (IN) irqAlloc(); if (inArena((uintptr_t)p)) { if (IN) arenaFree(p, ret); } else free(p); }
void operator delete(void* p) noexcept { del(p, RET); }
void operator delete[](void* p) noexcept { del(p, RET); }
void operator delete(void* p, size_t) noexcept { del(p, RET); }
void operator delete[](void* p, size_t) noexcept { del(p, RET); }
