#pragma once
#include "FreeRTOS.h"
struct tmrTimerControl;
typedef tmrTimerControl* TimerHandle_t;
typedef void (*TimerCallbackFunction_t)(TimerHandle_t);
typedef void (*PendedFunction_t)(void*, uint32_t);
extern "C" {
TimerHandle_t xTimerCreate(const char* name, TickType_t period, UBaseType_t reload, void* id, TimerCallbackFunction_t fn);
BaseType_t xTimerStart(TimerHandle_t t, TickType_t ticks);
BaseType_t xTimerReset(TimerHandle_t t, TickType_t ticks);
BaseType_t xTimerStop(TimerHandle_t t, TickType_t ticks);
BaseType_t xTimerChangePeriod(TimerHandle_t t, TickType_t period, TickType_t ticks);
BaseType_t xTimerDelete(TimerHandle_t t, TickType_t ticks);
BaseType_t xTimerIsTimerActive(TimerHandle_t t);
TickType_t xTimerGetPeriod(TimerHandle_t t);
void vTimerSetReloadMode(TimerHandle_t t, UBaseType_t reload);
BaseType_t xTimerPendFunctionCall(PendedFunction_t fn, void* p, uint32_t v, TickType_t ticks);
TaskHandle_t xTimerGetTimerDaemonTaskHandle(void);
void* pvTimerGetTimerID(TimerHandle_t t);
}
