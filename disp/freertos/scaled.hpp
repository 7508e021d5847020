// A tick of the stand-in kernel lasts several milliseconds. Programs count in ticks, so the intervals they ask for are scaled here, on
// the user's side of the API.
#pragma once
#include <hsmcpp/hsm.hpp>
#include <hsmcpp/HsmEventDispatcherFreeRTOS.hpp>
#include "kernel.hpp"
#define RTOS_TICK 5
struct ScaledDispatcher : hsmcpp::HsmEventDispatcherFreeRTOS {
    explicit ScaledDispatcher(size_t cap) : HsmEventDispatcherFreeRTOS(70, 0, cap) {}
    void startTimer(const hsmcpp::HandlerID_t h, const hsmcpp::TimerID_t t, const unsigned int ms, const bool once) override {
        HsmEventDispatcherFreeRTOS::startTimer(h, t, ms < 100000000u ? ms * RTOS_TICK : ms, once);
    }
    static std::shared_ptr<ScaledDispatcher> create(size_t cap = DISPATCHER_DEFAULT_EVENTS_CACHESIZE) {
        rtosStart(); return std::shared_ptr<ScaledDispatcher>(new ScaledDispatcher(cap), &hsmcpp::HsmEventDispatcherBase::handleDelete);
    }
};
struct ScaledMachine : hsmcpp::HierarchicalStateMachine {
    using hsmcpp::HierarchicalStateMachine::HierarchicalStateMachine;
    template <class... A> bool transitionSync(const hsmcpp::EventID_t e, const int ms, A&&... a) {
        return hsmcpp::HierarchicalStateMachine::transitionSync(e, ms > 0 && ms < 100000000 ? ms * RTOS_TICK : ms, std::forward<A>(a)...);
    }
};
