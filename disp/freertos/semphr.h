#pragma once
#include "FreeRTOS.h"
struct QueueDefinition;
typedef QueueDefinition* SemaphoreHandle_t;
extern "C" {
SemaphoreHandle_t xSemaphoreCreateMutex(void);
SemaphoreHandle_t xSemaphoreCreateBinary(void);
void vSemaphoreDelete(SemaphoreHandle_t s);
BaseType_t xSemaphoreTake(SemaphoreHandle_t s, TickType_t ticks);
BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t s, BaseType_t* woken);
BaseType_t xSemaphoreGive(SemaphoreHandle_t s);
BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t s, BaseType_t* woken);
}
