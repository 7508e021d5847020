// Stand-in for the FreeRTOS kernel (kernel.cpp): tasks are threads of the controlled scheduler of ../../mc.
#pragma once
#include <stdint.h>
#include <stddef.h>
#define INC_FREERTOS_H
typedef long BaseType_t;
typedef unsigned long UBaseType_t;
typedef uint32_t TickType_t;
#define pdFALSE ((BaseType_t)0)
#define pdTRUE ((BaseType_t)1)
#define pdPASS pdTRUE
#define pdFAIL pdFALSE
#define portMAX_DELAY ((TickType_t)0xffffffffUL)
#define portTICK_PERIOD_MS ((TickType_t)5)
#define configTICK_RATE_HZ ((TickType_t)200)
#define pdMS_TO_TICKS(ms) ((TickType_t)(((uint64_t)(ms) * configTICK_RATE_HZ) / 1000u))
#define configSTACK_DEPTH_TYPE uint32_t
#define configMINIMAL_STACK_SIZE ((unsigned short)70)
#define configUSE_TASK_NOTIFICATIONS 1
#define configUSE_TIMERS 1
#define configUSE_MUTEXES 1
#define configSUPPORT_DYNAMIC_ALLOCATION 1
#define configTIMER_QUEUE_LENGTH 20
#define INCLUDE_xTimerPendFunctionCall 1
#define INCLUDE_xTaskGetCurrentTaskHandle 1
#define tskIDLE_PRIORITY ((UBaseType_t)0U)
extern "C" BaseType_t xPortIsInsideInterrupt(void);
