#pragma once
#include "FreeRTOS.h"
struct tskTaskControlBlock;
typedef tskTaskControlBlock* TaskHandle_t;
typedef void (*TaskFunction_t)(void*);
typedef enum { eRunning = 0, eReady, eBlocked, eSuspended, eDeleted, eInvalid } eTaskState;
extern "C" {
BaseType_t xTaskCreate(TaskFunction_t fn, const char* name, configSTACK_DEPTH_TYPE depth, void* arg, UBaseType_t prio, TaskHandle_t* handle);
TaskHandle_t xTaskGetCurrentTaskHandle(void);
TickType_t xTaskGetTickCount(void);
void vTaskSuspend(TaskHandle_t t);
void vTaskResume(TaskHandle_t t);
void vTaskDelete(TaskHandle_t t);
void vTaskDelay(TickType_t ticks);
eTaskState eTaskGetState(TaskHandle_t t);
BaseType_t xTaskNotifyGive(TaskHandle_t t);
void vTaskNotifyGiveFromISR(TaskHandle_t t, BaseType_t* woken);
uint32_t ulTaskNotifyTake(BaseType_t clear, TickType_t ticks);
void mcEnterCritical(void);
void mcTaskEnterCritical(void);
void mcExitCritical(void);
}
#define taskENTER_CRITICAL() mcTaskEnterCritical()
#define taskEXIT_CRITICAL() mcExitCritical()
#define taskENTER_CRITICAL_FROM_ISR() (mcEnterCritical(), (UBaseType_t)0)
#define taskEXIT_CRITICAL_FROM_ISR(x) ((void)(x), mcExitCritical())
