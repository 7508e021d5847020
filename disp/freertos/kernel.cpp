// The part of the FreeRTOS kernel which hsmcpp uses, as the kernel's documentation describes it: one core, tasks of equal
// priority with preemption anywhere outside of critical sections, a timer service task with a bounded command queue.
// Compiled without instrumentation: every kernel call is one atomic step.
#include "kernel.hpp"
#include "FreeRTOS.h"
#include "task.h"
#include "semphr.h"
#include "timers.h"
#include "../../mc/mc.hpp"
#include <pthread.h>

struct tskTaskControlBlock { bool used, deleted, suspended; uint32_t notify; TaskFunction_t fn; void* arg; };
struct QueueDefinition { bool used, deleted, mutex; int count, owner; };
struct tmrTimerControl { bool used, deleted, active, reload; long period, expiry; void* id; TimerCallbackFunction_t fn; };
static tskTaskControlBlock task[16];
static QueueDefinition sem[512]; static int nsem;
static tmrTimerControl timer[64]; static int ntimer;
enum Cmd { START, STOP, PERIOD, DEL, CALL };
struct Command { Cmd c; tmrTimerControl* t; long stamp, value; PendedFunction_t fn; void* arg; };
static Command queue[configTIMER_QUEUE_LENGTH]; static int nqueue;
static bool kernelStop, failNextCommand; static int daemonTid = -1; static pthread_t daemonThread;
static int liveTimers;
static char space;

static tskTaskControlBlock& cur() { tskTaskControlBlock& t = task[mc::tid()]; t.used = true; return t; }
static void valid(TaskHandle_t t, const char* what) { mc::note("%s(task %d)", what, int(t - task)); if (!t) mc::fail("%s(NULL)", what); if (t->deleted) mc::fail("%s() with a task which was deleted", what); }
static void valid(SemaphoreHandle_t s, const char* what) { mc::note("%s(semaphore %d)", what, int(s - sem)); if (!s || !s->used) mc::fail("%s() without a semaphore", what); if (s->deleted) mc::fail("%s() with a semaphore which was deleted", what); }
static void valid(TimerHandle_t t, const char* what) { mc::note("%s(timer %d)", what, int(t - timer)); if (!t || !t->used) mc::fail("%s() without a timer", what); if (t->deleted) mc::fail("%s() with a timer which was deleted", what); }

static void* taskMain(void* p) {
    tskTaskControlBlock* t = (tskTaskControlBlock*)p;
    t->fn(t->arg);
    if (!t->deleted) mc::fail("a task function returned without vTaskDelete()");
    return nullptr;
}
static void inTask(const char* what) { if (mc::inInterrupt()) mc::fail("%s() inside of an interrupt", what); }
static long now() { return long(mc::nowMs()); }

static void* daemonMain(void*) {
    while (!kernelStop) {
        while (nqueue > 0) {
            Command c = queue[0]; --nqueue; for (int i = 0; i < nqueue; ++i) queue[i] = queue[i + 1];
            mc::sync(&nqueue); mc::wake(&space, true);
            if (c.c == CALL) { c.fn(c.arg, uint32_t(c.value)); continue; }
            if (c.t->deleted) mc::fail("command for a timer which was deleted");
            switch (c.c) {
                case START:
                    c.t->active = true; c.t->expiry = c.stamp + c.t->period;
                    if (c.t->expiry <= now()) { if (c.t->reload) { c.t->expiry += c.t->period; } else c.t->active = false; c.t->fn(c.t); }
                    break;
                case STOP: c.t->active = false; break;
                case PERIOD: c.t->period = c.value; c.t->active = true; c.t->expiry = now() + c.value; break;
                case DEL: c.t->active = false; c.t->deleted = true; --liveTimers; break;
            }
        }
        tmrTimerControl* next = nullptr;
        for (int i = 0; i < ntimer; ++i) if (timer[i].active && (!next || timer[i].expiry < next->expiry)) next = &timer[i];
        if (next && next->expiry <= now()) {
            if (next->reload) next->expiry += next->period; else next->active = false;
            next->fn(next);
            mc::point();
            continue;
        }
        if (nqueue == 0 && !kernelStop) mc::wait(&nqueue, next ? next->expiry - now() : -1);
    }
    return nullptr;
}
void rtosStart() { if (daemonTid >= 0) return; mc::enterCritical(); pthread_create(&daemonThread, nullptr, daemonMain, nullptr); daemonTid = int(daemonThread) - 1; mc::service(daemonTid); mc::exitCritical(); }
void rtosStop() { kernelStop = true; mc::wake(&nqueue, true); pthread_join(daemonThread, nullptr); }
int rtosLiveTimers() { return liveTimers - nqueue; }
int rtosTimerTid() { return daemonTid; }
static BaseType_t send(Cmd c, TimerHandle_t t, long v, TickType_t ticks, PendedFunction_t fn = nullptr, void* arg = nullptr) {
    inTask("a timer function without FromISR");
    mc::sync(&nqueue);
    while (nqueue >= configTIMER_QUEUE_LENGTH) {
        if (ticks != portMAX_DELAY || mc::tid() == daemonTid) return pdFAIL;
        mc::wait(&space, -1);
    }
    queue[nqueue++] = {c, t, now(), v, fn, arg};
    mc::wake(&nqueue, true);
    return pdPASS;
}

extern "C" {
BaseType_t xPortIsInsideInterrupt(void) { return mc::inInterrupt() ? pdTRUE : pdFALSE; }
void mcEnterCritical(void) { mc::enterCritical(); }
void mcTaskEnterCritical(void) { inTask("taskENTER_CRITICAL"); mc::enterCritical(); }
void mcExitCritical(void) { mc::exitCritical(); }

BaseType_t xTaskCreate(TaskFunction_t fn, const char*, configSTACK_DEPTH_TYPE, void* arg, UBaseType_t, TaskHandle_t* handle) {
    mc::point();
    mc::enterCritical();
    pthread_t th; int i;
    tskTaskControlBlock tmp = {true, false, false, 0, fn, arg};
    i = mc::threadCount();
    task[i] = tmp;
    if (handle) *handle = &task[i];
    pthread_create(&th, nullptr, taskMain, &task[i]);
    mc::exitCritical();
    mc::point();
    return pdPASS;
}
TaskHandle_t xTaskGetCurrentTaskHandle(void) { return &cur(); }
void vTaskSuspend(TaskHandle_t t) {
    mc::point();
    if (t && t != &cur()) mc::fail("the stand-in kernel cannot suspend another task");
    tskTaskControlBlock& c = cur(); mc::note("vTaskSuspend()"); c.suspended = true; mc::sync(&c);
    while (c.suspended) mc::wait(&c.suspended, -1);
    mc::sync(&c);
}
void vTaskResume(TaskHandle_t t) { inTask("vTaskResume"); mc::point(); valid(t, "vTaskResume"); mc::sync(t); if (t->suspended) { t->suspended = false; mc::wake(&t->suspended, true); } }
void vTaskDelete(TaskHandle_t t) { mc::point(); tskTaskControlBlock* x = t ? t : &cur(); valid(x, "vTaskDelete"); mc::sync(x); x->deleted = true; if (x != &cur()) mc::killThread(int(x - task)); }
TickType_t xTaskGetTickCount(void) { return TickType_t(1000000 + now()); }
void vTaskDelay(TickType_t ticks) { mc::sleepMs(int(ticks)); }
eTaskState eTaskGetState(TaskHandle_t t) { mc::point(); valid(t, "eTaskGetState"); mc::sync(t); return t == &cur() ? eRunning : t->suspended ? eSuspended : eReady; }
BaseType_t xTaskNotifyGive(TaskHandle_t t) { inTask("xTaskNotifyGive"); mc::point(); valid(t, "xTaskNotifyGive"); mc::sync(t); ++t->notify; mc::wake(&t->notify, true); return pdPASS; }
void vTaskNotifyGiveFromISR(TaskHandle_t t, BaseType_t*) { valid(t, "vTaskNotifyGiveFromISR"); mc::sync(t); ++t->notify; mc::wake(&t->notify, true); }
uint32_t ulTaskNotifyTake(BaseType_t clear, TickType_t ticks) {
    inTask("ulTaskNotifyTake"); mc::point();
    tskTaskControlBlock& t = cur(); mc::note("ulTaskNotifyTake(%u)", t.notify); mc::sync(&t);
    while (t.notify == 0) if (!mc::wait(&t.notify, ticks == portMAX_DELAY ? -1 : long(ticks))) break;
    mc::sync(&t);
    uint32_t r = t.notify; if (r) t.notify = clear ? 0 : r - 1;
    return r;
}

static SemaphoreHandle_t newSem(bool mutex) { if (nsem >= 512) mc::fail("too many semaphores"); QueueDefinition& s = sem[nsem++]; s.used = true; s.deleted = false; s.mutex = mutex; s.count = mutex ? 1 : 0; s.owner = -1; return &s; }
SemaphoreHandle_t xSemaphoreCreateMutex(void) { return newSem(true); }
SemaphoreHandle_t xSemaphoreCreateBinary(void) { return newSem(false); }
void vSemaphoreDelete(SemaphoreHandle_t s) { valid(s, "vSemaphoreDelete"); mc::sync(s); s->deleted = true; }
BaseType_t xSemaphoreTake(SemaphoreHandle_t s, TickType_t ticks) {
    mc::point();
    valid(s, "xSemaphoreTake"); mc::sync(s);
    if (mc::inInterrupt()) mc::fail("xSemaphoreTake() inside of an interrupt");
    long end = ticks == portMAX_DELAY ? -1 : now() + long(ticks);
    while (s->count == 0) {
        if (s->mutex && s->owner == mc::tid()) mc::fail("deadlock: a task takes a mutex which it already holds");
        if (end >= 0 && now() >= end) return pdFALSE;
        (void)mc::wait(s, end < 0 ? -1 : end - now());
        valid(s, "xSemaphoreTake");
    }
    mc::sync(s);
    s->count = 0; s->owner = mc::tid();
    return pdTRUE;
}
BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t s, BaseType_t*) { valid(s, "xSemaphoreTakeFromISR"); mc::sync(s); if (!s->count) { if (s->mutex) mc::fail("an interrupt waits for a mutex which an interrupted task holds"); return pdFALSE; } s->count = 0; s->owner = mc::tid(); return pdTRUE; }
static BaseType_t give(SemaphoreHandle_t s) {
    mc::sync(s);
    if (s->count) return pdFALSE;
    if (s->mutex && s->owner != mc::tid()) mc::fail("a mutex is given by a task which does not hold it");
    s->count = 1; s->owner = -1;
    mc::wake(s, false);
    return pdTRUE;
}
BaseType_t xSemaphoreGive(SemaphoreHandle_t s) { inTask("xSemaphoreGive"); valid(s, "xSemaphoreGive"); if (!s->mutex) mc::point(); valid(s, "xSemaphoreGive"); return give(s); }
BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t s, BaseType_t*) { valid(s, "xSemaphoreGiveFromISR"); return give(s); }

TimerHandle_t xTimerCreate(const char*, TickType_t period, UBaseType_t reload, void* id, TimerCallbackFunction_t fn) {
    mc::point();
    if (period == 0) mc::fail("xTimerCreate() with a period of zero");
    if (ntimer >= 64) mc::fail("too many timers");
    ++liveTimers;
    timer[ntimer] = {true, false, false, reload != pdFALSE, long(period), 0, id, fn};
    return &timer[ntimer++];
}
BaseType_t xTimerStart(TimerHandle_t t, TickType_t ticks) { mc::point(); valid(t, "xTimerStart"); return send(START, t, 0, ticks); }
BaseType_t xTimerReset(TimerHandle_t t, TickType_t ticks) { mc::point(); valid(t, "xTimerReset"); return send(START, t, 0, ticks); }
BaseType_t xTimerStop(TimerHandle_t t, TickType_t ticks) { mc::point(); valid(t, "xTimerStop"); return send(STOP, t, 0, ticks); }
BaseType_t xTimerChangePeriod(TimerHandle_t t, TickType_t p, TickType_t ticks) { mc::point(); valid(t, "xTimerChangePeriod"); if (!p) mc::fail("xTimerChangePeriod() with a period of zero"); return send(PERIOD, t, long(p), ticks); }
BaseType_t xTimerDelete(TimerHandle_t t, TickType_t ticks) { mc::point(); valid(t, "xTimerDelete"); return send(DEL, t, 0, ticks); }
BaseType_t xTimerPendFunctionCall(PendedFunction_t fn, void* p, uint32_t v, TickType_t ticks) { mc::point(); return send(CALL, nullptr, long(v), ticks, fn, p); }
TaskHandle_t xTimerGetTimerDaemonTaskHandle(void) { return daemonTid < 0 ? nullptr : &task[daemonTid]; }
BaseType_t xTimerIsTimerActive(TimerHandle_t t) { valid(t, "xTimerIsTimerActive"); return t->active; }
TickType_t xTimerGetPeriod(TimerHandle_t t) { mc::point(); valid(t, "xTimerGetPeriod"); return TickType_t(t->period); }
void vTimerSetReloadMode(TimerHandle_t t, UBaseType_t r) { mc::point(); valid(t, "vTimerSetReloadMode"); mc::sync(t); t->reload = r != pdFALSE; }
void* pvTimerGetTimerID(TimerHandle_t t) { valid(t, "pvTimerGetTimerID"); return t->id; }
}
