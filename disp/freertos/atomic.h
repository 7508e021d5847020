#pragma once
#include "FreeRTOS.h"
#include "task.h"
#define ATOMIC_COMPARE_AND_SWAP_SUCCESS 0x1U
#define ATOMIC_COMPARE_AND_SWAP_FAILURE 0x0U
static inline uint32_t Atomic_CompareAndSwap_u32(uint32_t volatile* dst, uint32_t value, uint32_t comparand) {
    uint32_t r;
    taskENTER_CRITICAL();
    if (*dst == comparand) { *dst = value; r = ATOMIC_COMPARE_AND_SWAP_SUCCESS; } else r = ATOMIC_COMPARE_AND_SWAP_FAILURE;
    taskEXIT_CRITICAL();
    return r;
}
