// Controlled scheduler for model checking real pthread code. All threads of the program under test run as fibers of one
// OS thread; the pthread, clock and allocation functions are interposed; the code under test is compiled with
// -fsanitize=thread and linked with the hooks in rt.cpp, which turn racy accesses into scheduling points.
#pragma once
#include <cstdint>

namespace mc {

struct Scenario { const char* name; void (*fn)(); int arg; };
// The program's main calls this with its scenarios.
int main(int argc, char** argv, const Scenario* list, int count);

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // shown when a schedule is replayed
int arg();                                   // Scenario::arg
int tid();                                   // 0 = the scenario's own thread
uint64_t nowMs();                            // virtual time since the start of the execution
void touch();                                // the calling thread records something whose global order matters
int choose(int n);                           // nondeterministic input
void point();                                // a scheduling point
void sleepMs(int ms);
void idle();                                 // wait until every other thread is blocked (time stands still)
bool othersDone();                           // all threads but the calling one have ended
void setInterrupt(void (*fn)(), int times);  // fn may be run on top of any thread which does not block signals
bool timeWasForced();                        // a timeout expired while other threads could still run (delays are legal)
bool inInterrupt();
bool wasFreed(const void* p);                 // memory of the program under test was given back
void advance(int ms);                        // time passes
// for a kernel simulated on top of the scheduler: sections which are neither preempted nor interrupted, queues of waiting threads
void enterCritical();
void exitCritical();
bool wait(void* queue, long ms);             // false = timeout; ms < 0: no timeout
void wake(void* queue, bool all);
void sync(void* object);                     // orders what happens before and after it
int threadCount();
void killThread(int tid);
void service(int tid);                       // this thread need not end
// for programs which use libraries with a state of their own: only allocations made by the program itself are checked, every
// execution is run to its end
extern bool useLibraries;
extern int maxSteps;                         // scheduling points of one execution after which it counts as endless
}  // namespace mc

#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail(__VA_ARGS__); } while (0)
