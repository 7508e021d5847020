#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=x) for x in state]
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)
I="src/HsmImpl.cpp"; B="src/HsmEventDispatcherBase.cpp"; S="src/HsmEventDispatcherSTD.cpp"; T="src/HsmImplTypes.cpp"
ACT="HierarchicalStateMachine::getActiveStates()/isStateActive() and the registered callbacks"

# ---------------------------------------------------------------- engine
p("E01","Active states always form a legal configuration",
  "Whenever an event has been completely processed, the active states of a machine form a legal configuration: no duplicates, every active substate has its parent active, every active composite state with an unconditional entry point has an active child, and states that belong to different exclusive branches are never active together. getActiveStates(), isStateActive() and getLastActiveState() describe the same configuration, and parents precede their children in it.",
  ["programs","histories","inputs"],"all machines of the bounded grammar (flat, nested, parallel, history, final), all event/condition/veto sequences up to the depth",
  "A test follows one path through one machine; a broken configuration only appears after particular sequences of parallel exits, vetoes and history restores.",
  [I,"src/HsmImpl.hpp"],[("replaceActiveState/addActiveState","src/HsmImpl.cpp replaceActiveState()"),("executeExitTransition","src/HsmImpl.cpp executeExitTransition()"),("handleStartup","src/HsmImpl.cpp handleStartup()")],
  ["mActiveStates","mSubstates"],[ACT])
p("E02","The right transitions are selected, innermost state first",
  "For an event, exactly those transitions fire whose source state is active, whose event matches, whose condition (evaluated with the event's arguments) gives the expected value and whose target can be entered; a transition taken (not vetoed) in a substate hides transitions of its ancestors, and an event no substate accepts is offered to the parents. All enabled transitions of one state fire together, and independent active states each react to the event once.",
  ["programs","inputs","histories"],"all bounded machines x active configurations x events x condition valuations",
  "The number of combinations of active states, overlapping transitions and condition values is far beyond what hand-written cases sample.",
  [I],[("doTransition","src/HsmImpl.cpp doTransition()"),("findTransitionTarget","src/HsmImpl.cpp findTransitionTarget()"),("isSubstateOf","src/HsmImpl.cpp isSubstateOf()")],
  ["mTransitionsByEvent","mActiveStates"],[ACT])
p("E03","Transition callbacks run in protocol order, once each, with event args",
  "A transition calls onExiting of the states it leaves (children before parents), then the transition callback, then onEntering and onStateChanged of each state it enters (parents before children), each exactly once. onEntering, onStateChanged, transition and condition callbacks all receive exactly the arguments the event was sent with, and no callback of an uninvolved state is called.",
  ["programs","inputs","histories"],"all bounded machines with callbacks on every element x event sequences x argument lists",
  "Ordering and exactly-once over nested/parallel targets depends on the whole configuration; tests pin a few cases.",
  [I],[("handleSingleTransition","src/HsmImpl.cpp handleSingleTransition()"),("processExternalTransition","src/HsmImpl.cpp processExternalTransition()"),("onStateEntering/onStateExiting/onStateChanged","src/HsmImpl.cpp")],
  ["mRegisteredStates"],["registered callbacks"])
p("E04","A vetoed transition leaves the machine where it was",
  "If an onExiting or onEntering callback returns false, that transition does not take place: the states already exited are re-entered (parents before children, each once, their own veto being ignored), the active configuration and its order of precedence are as before the event, history is not modified, and a synchronous call returns false. Later events behave exactly as if the cancelled event had never been sent.",
  ["programs","fault_sequences","histories"],"every callback position of every transition of the bounded machines as veto point, followed by all continuation sequences to the depth",
  "Each veto point gives a different rollback, and damage to the bookkeeping only shows in later events.",
  [I],[("executeExitTransition rollback","src/HsmImpl.cpp executeExitTransition()"),("enter veto rollback","src/HsmImpl.cpp processExternalTransition()")],
  ["mActiveStates"],[ACT])
p("E05","Entering a composite activates exactly its matching entry points",
  "When a composite state becomes active without a history restore, exactly those entry points whose event filter and condition match the triggering event and its arguments are entered (recursively for nested composites, all matching ones in parallel, each once) before any other queued event is handled. A transition to a composite state none of whose entry points match is not taken, and the initial state's entry points are entered at initialization.",
  ["programs","inputs","histories"],"all bounded machines x entry point sets (filters, conditions, several, nested) x events x condition valuations",
  "Entry filters, conditions, nesting and parallel entry multiply; tests cover isolated combinations.",
  [I],[("getEntryPoints","src/HsmImpl.cpp getEntryPoints()"),("ENTRYPOINT event","src/HsmImpl.cpp determineTargetState()"),("findTransitionTarget feasibility","src/HsmImpl.cpp findTransitionTarget()")],
  ["mSubstateEntryPoints","mPendingEvents"],[ACT])
p("E06","History states restore exactly what was left",
  "A transition to a history state re-enters its parent and restores what was active when the parent was last left: the direct children (shallow, nested ones through their entry points) or the complete substate hierarchy (deep, no entry points used). Without stored history it goes to the default target (running its transition callback) or to the parent's entry points; states outside the parent are unaffected, and a cancelled exit does not change the stored history.",
  ["programs","histories"],"all bounded machines with shallow/deep history x default target or not x all event/veto sequences to the depth",
  "What is restored depends on the whole history of exits since start-up.",
  [I],[("updateHistory","src/HsmImpl.cpp updateHistory()"),("transitionToPreviousActiveStates","src/HsmImpl.cpp transitionToPreviousActiveStates()"),("transitionToDefaultHistoryState","src/HsmImpl.cpp transitionToDefaultHistoryState()")],
  ["mHistoryData","mHistoryStates"],[ACT])
p("E07","Final states complete their parent exactly once",
  "When a final state is entered and no non-final substate of its parent is active any more, exactly one event is raised before any other queued event is handled: the final state's own event or, if it has none, the event that led to it, with the same arguments. While a non-final substate is still active, or for a final state without a parent, nothing is raised.",
  ["programs","histories"],"all bounded machines with final states in one or more (parallel, nested) regions x event sequences",
  "Completion of parallel regions depends on the order in which regions finish.",
  [I],[("processFinalStateTransition","src/HsmImpl.cpp processFinalStateTransition()"),("hasActiveChildren","src/HsmImpl.cpp hasActiveChildren()")],
  ["mFinalStates","mPendingEvents"],[ACT])
p("E08","Self transitions: internal never leaves the state, external always does",
  "An internal self transition only runs its transition callback: no exit, enter or state-changed callback, no state action and no change of the active configuration or of the state's substates. An external self transition exits the state with all active substates and enters it again through its entry points, honouring vetoes.",
  ["programs","histories"],"all bounded machines with internal/external self transitions on simple and composite states, alone and together with other enabled transitions",
  "Tests use one state; interaction with substates, parallel regions and several enabled transitions is untested.",
  [I],[("executeSelfTransitions","src/HsmImpl.cpp executeSelfTransitions()"),("executeExitTransition","src/HsmImpl.cpp executeExitTransition()")],None,[ACT])
p("E09","State actions run on exactly the accepted entries and exits",
  "Each action registered for a state runs exactly once per accepted entry (ON_STATE_ENTRY) or accepted exit (ON_STATE_EXIT) of this state and never for a vetoed one; START/STOP/RESTART_TIMER reach the dispatcher with the registered arguments, and TRANSITION queues the registered event with its registered arguments behind the events already queued. registerStateAction() accepts exactly well-formed argument lists and a refused action never runs.",
  ["programs","histories","inputs"],"all bounded machines with actions x event/veto sequences; all argument-type lists up to length 4 for registration",
  "Which entries and exits are accepted depends on vetoes elsewhere in the same transition.",
  [I],[("executeStateAction","src/HsmImpl.cpp executeStateAction()"),("registerStateAction","src/HsmImpl.cpp registerStateAction()")],["mRegisteredActions"],["IHsmEventDispatcher::startTimer/stopTimer/restartTimer, callbacks"])
p("E10","Every event is reported as done or failed, exactly once and correctly",
  "The failed-transition callback is called exactly once for every event that caused no transition (no match, false conditions or cancelled by a veto), with the states that were active, the event id and its arguments, and never for an event that was handled or for the machine's own follow-up steps. A synchronous transition returns true if and only if its event was handled completely, including the entry into substates.",
  ["programs","histories","inputs"],"all bounded machines x event/condition/veto sequences, synchronous and asynchronous",
  "Success is an accumulated result over all active states and follow-up steps.",
  [I,T],[("doTransition","src/HsmImpl.cpp doTransition()"),("PendingEventInfo::unlock","src/HsmImplTypes.cpp")],["transitionStatus"],["registerFailedTransitionCallback(), transitionSync()"])
p("E11","isTransitionPossible() predicts what the event would do, without effect",
  "With no event pending, isTransitionPossible(event, args) is true exactly when sending that event with those arguments now (nobody vetoing) would cause a transition, whether enabled in an active state or in one of its ancestors. With events pending it answers for the state where they lead: on a machine without hierarchy, when each pending event leads to one definite state, it is true exactly when the event would then cause a transition; it never answers true for an event that can cause no transition in any configuration. In all cases it neither calls state or transition callbacks nor changes the machine or its queue.",
  ["programs","inputs","histories"],"all bounded machines x reachable configurations x events x condition valuations x pending queues up to two events",
  "The prediction has to agree with the engine in every reachable configuration.",
  [I],[("checkTransitionPossibility","src/HsmImpl.cpp checkTransitionPossibility()"),("findTransitionTarget","src/HsmImpl.cpp findTransitionTarget()")],None,["isTransitionPossible() vs transitionSync()"])
p("E12","Events run to completion, one at a time, in the order they were sent",
  "An event sent from inside a callback, a state action or outside never interrupts the event being processed: it is handled after it and after its follow-up steps (substate entry, history restore), in the order of sending. No accepted event is lost, duplicated or merged, whatever callback it is sent from.",
  ["programs","histories"],"all placements of event-sending callbacks in the bounded machines x event sequences (bursts up to three events)",
  "Tests send from one or two callbacks; the queue discipline has to hold for every callback of every step.",
  [I],[("mPendingEvents","src/HsmImpl.cpp transitionExWithArgsArray()"),("dispatchEvents","src/HsmImpl.cpp dispatchEvents()")],["mPendingEvents"],["callback trace"])
p("E13","Clearing the queue drops waiting events and nothing else",
  "transitionWithQueueClear()/transitionEx(clearQueue) discards all events that were sent but not started, then queues its own event; discarded synchronous events return false. A transition in progress including its entry into substates or history restore completes, and events sent afterwards are unaffected.",
  ["programs","histories","schedules"],"all queue contents up to three events x all callbacks as calling point in the bounded machines; schedules for synchronous waiters",
  "The effect depends on what the queue holds at the moment of the call, including internal follow-up steps.",
  [I,T],[("clearPendingEvents","src/HsmImpl.cpp clearPendingEvents()")],["mPendingEvents"],["callback trace, return value of transitionSync()"])
p("E14","Lifecycle: calls outside the running phase are harmless and initialize is exact",
  "Every public call before initialize() and after release() is harmless: sends and queries report failure or do nothing, no callback is called, and release() may be repeated. initialize() succeeds exactly once per running phase with a usable dispatcher, enters the initial state set last before it (a veto of it is ignored) and calls its callbacks exactly once; setInitialState() after it has no effect.",
  ["histories"],"all sequences of public API calls up to the depth from a fixed alphabet, including destruction",
  "Order of lifecycle calls is unbounded; tests use the normal order.",
  [I,"src/hsm.cpp"],[("initialize/release","src/HsmImpl.cpp"),("handleStartup","src/HsmImpl.cpp handleStartup()")],["mDispatcher","mStopDispatching"],["return values and callbacks"])
p("E15","Safe-structure builds accept exactly well-formed hierarchies",
  "With HSM_ENABLE_SAFE_STRUCTURE, registerSubstate()/registerSubstateEntryPoint() return true exactly for a pair that keeps the hierarchy a forest (no self-parent, no second parent, no cycle); a known substate may get further entry points of its parent but is not registered as its substate again. A refused call changes nothing. Without the option only a self-parent is refused. The machine then behaves as the accepted calls say.",
  ["histories","configurations"],"all registration sequences up to length 4 over 4 states (parent/child/entry flags) in both builds",
  "Cycle detection must work for every order of registration.",
  [I],[("registerSubstate","src/HsmImpl.cpp registerSubstate()"),("hasParentState","src/HsmImpl.cpp hasParentState()")],["mSubstates","mTopLevelStates"],["registerSubstate() result"])
p("E16","Build options do not change behaviour",
  "The same machine driven with the same calls shows the same callbacks, results and active states in every supported build: thread safety disabled, debug traces enabled, structure checks enabled, debug logging compiled in.",
  ["configurations","programs","histories"],"build variants x bounded machines x event sequences",
  "The test suite is built in one configuration only.",
  [I,"include/hsmcpp/logging.hpp"],[("HSM_DISABLE_THREADSAFETY","src/HsmImpl.cpp"),("HSM_DISABLE_DEBUG_TRACES","include/hsmcpp/logging.hpp"),("HSMBUILD_DEBUGGING","src/HsmImpl.cpp logHsmAction()")],None,["callback trace"])

# ---------------------------------------------------------------- concurrency (STD dispatcher)
p("C01","Concurrently sent events are each processed once, in per-thread order",
  "With the STD dispatcher, every event sent by any number of threads while the machine runs is processed exactly once, events of one thread in the order they were sent, whatever the interleaving with the dispatcher thread. Once the senders stop, the queue drains without a further call.",
  ["schedules"],"all thread interleavings up to the preemption bound of 2-3 sender threads x dispatcher thread",
  "Lost wake-ups and queue races need a particular interleaving that stress tests rarely hit.",
  [I,B,S],[("dispatchEvents","src/HsmImpl.cpp"),("emitEvent","src/HsmEventDispatcherBase.cpp"),("doDispatching","src/HsmEventDispatcherSTD.cpp")],["mPendingEvents","mIsDispatching"],["callback trace"])
p("C02","Callbacks of a machine never overlap and run on the dispatcher thread",
  "After initialize() has returned, all state, transition, condition and failed-transition callbacks caused by events, timers or enqueued events run on the dispatcher's thread, one at a time, and each event is processed to completion before the next starts, for machines sharing a dispatcher as well. ",
  ["schedules"],"all interleavings up to the preemption bound of senders, timers and the dispatcher thread",
  "Overlap is a property of interleavings.",
  [I,B,S],[("mIsDispatching","src/HsmImpl.cpp dispatchEvents()"),("doDispatching","src/HsmEventDispatcherSTD.cpp")],None,["thread id and nesting in callbacks"])
p("C03","A synchronous transition returns, with the result of its own event",
  "transitionSync()/transitionEx(sync) without timeout returns on a running machine in every interleaving, only after its event including substate entry has been processed, and its result is that of its own event, whatever other threads send. With a timeout it returns at the latest when the timeout has elapsed, and returns true only if the event was handled.",
  ["schedules"],"all interleavings up to the preemption bound of waiting callers, other senders, dispatcher; all timeout expiry points",
  "A lost wake-up hangs the caller only if the completion falls between the caller's check and its wait.",
  [I,T],[("PendingEventInfo::wait/unlock","src/HsmImplTypes.cpp"),("transitionExWithArgsArray","src/HsmImpl.cpp")],["transitionStatus"],["return of transitionSync()"])
p("C04","Queue clearing releases synchronous waiters and loses nothing else",
  "When one thread clears the queue while others wait in synchronous transitions or send events, every waiter returns: false if its event was discarded, its own result otherwise. Entry into substates and history restores that have begun complete, and every event is either processed once or discarded by a clear that came after it.",
  ["schedules"],"all interleavings up to the preemption bound of a clearing thread, waiting and sending threads and the dispatcher",
  "The window is between taking an event from the queue and queueing its follow-up steps.",
  [I,T],[("clearPendingEvents","src/HsmImpl.cpp"),("releaseLock","src/HsmImplTypes.cpp")],["mPendingEvents"],["return of transitionSync(), callback trace"])
p("C05","Shutdown terminates, silences callbacks and releases everybody",
  "release() and destruction of a machine, then stop()/join()/destruction of its dispatcher, terminate in every interleaving with concurrent senders, timers and waiting synchronous callers. Once release() has returned (called from outside its callbacks) no callback of this machine is called any more and nothing freed is accessed; a synchronous caller still waiting returns, with false if its event was not processed. After stop() and join() no handler is called.",
  ["schedules"],"all interleavings up to the preemption bound of release/destroy/stop with senders, sync callers, timers",
  "Use-after-free and missed notifications at shutdown depend on the instant of the shutdown.",
  [I,B,S,"src/hsm.cpp"],[("release","src/HsmImpl.cpp release()"),("stop/join","src/HsmEventDispatcherSTD.cpp"),("handleDelete","src/HsmEventDispatcherBase.cpp")],["mStopDispatching","mStopDispatcher"],["termination, callbacks after release"])
p("C06","Interrupt-safe events: accepted means delivered once, full means refused",
  "transitionInterruptSafe() returning true means the event is processed exactly once without any further call; it returns false only if the dispatcher's bounded buffer is full or the machine is not running, and such an event is never processed. The buffer never grows beyond the size given at creation.",
  ["schedules","histories"],"all interleavings up to the preemption bound of enqueuing threads and the dispatcher for small buffer sizes, and all operation sequences to a depth",
  "Capacity and wake-up races need particular interleavings.",
  [B,S],[("enqueueEvent","src/HsmEventDispatcherBase.cpp"),("dispatchEnqueuedEvents","src/HsmEventDispatcherBase.cpp"),("wait predicate","src/HsmEventDispatcherSTD.cpp doDispatching()")],["mEnqueuedEvents"],["return value vs callback trace"])
p("C07","Enqueued actions run exactly once, in order, on the dispatcher thread",
  "Every action given to enqueueAction() of a running dispatcher runs exactly once on the dispatcher's thread, actions of one thread in order, without needing any other event to wake the dispatcher; an action may itself enqueue actions, send events or register handlers.",
  ["schedules"],"all interleavings up to the preemption bound of enqueuing threads and the dispatcher",
  "Whether the dispatcher wakes up depends on the interleaving with its wait.",
  [B,S],[("enqueueAction","src/HsmEventDispatcherBase.cpp"),("dispatchPendingActions","src/HsmEventDispatcherBase.cpp"),("doDispatching","src/HsmEventDispatcherSTD.cpp")],["mPendingActions"],["action trace"])
p("C08","STD timers fire on time, as often as asked, and not after being stopped",
  "On the STD dispatcher a started timer raises its event no earlier than its interval (one millisecond resolution) after the last start or restart, once if single shot and again every interval otherwise; it fires without any other activity. A timer stopped before it expires never fires until started again, restarting postpones it by a full interval, and isTimerRunning() tells whether it is pending.",
  ["schedules","histories"],"all start/stop/restart sequences to a depth x interleavings of caller, timer thread and dispatcher up to the preemption bound, in virtual time",
  "Wake-up races between the timer thread and start/stop calls decide; real-time tests are excluded from the stable suite as unreliable.",
  [S,B],[("handleTimers","src/HsmEventDispatcherSTD.cpp"),("handleTimerEvent","src/HsmEventDispatcherBase.cpp"),("startTimer/stopTimer/restartTimer","src/HsmEventDispatcherBase.cpp")],["mRunningTimers","mActiveTimers"],["timer handler calls in virtual time"])
p("C09","No combination of thread-safe calls deadlocks or corrupts memory",
  "Calling any of the thread-safe functions of a machine (sends, timers, queries of timers) and of the STD dispatcher (registration, enqueue, emit, timers) concurrently from several threads and from inside the machine's callbacks - there also isTransitionPossible(), whose condition callbacks may use the machine - never deadlocks, never accesses freed memory, never terminates the process and leaves the machine reacting; concurrently registered handlers get different ids.",
  ["schedules"],"all pairs and selected triples of API calls in concurrent threads (plus calls nested in callbacks) x interleavings up to the preemption bound",
  "Lock-order inversions between pairs of calls never show up in single-scenario tests.",
  [I,B,S],[("mHandlersSync/mEmitSync/mRunningTimersSync","src/HsmEventDispatcherBase.cpp"),("stop","src/HsmEventDispatcherSTD.cpp")],None,["termination, allocator shadow state"])
p("C10","Machines sharing one dispatcher do not disturb each other",
  "Several machines on one dispatcher each process their own events, enqueued events and timers exactly as they would alone; releasing or destroying one machine, even while its events are queued, leaves the others fully working.",
  ["schedules","histories"],"all interleavings up to the preemption bound of two machines on one dispatcher with sends, timers, release and destruction",
  "Handler tables are shared; interference depends on interleaving and order of release.",
  [B,S,I],[("dispatchPendingEventsImpl","src/HsmEventDispatcherBase.cpp"),("unregisterEventHandler","src/HsmEventDispatcherBase.cpp"),("dispatchEnqueuedEvents","src/HsmEventDispatcherBase.cpp")],["mEventHandlers"],["callback trace per machine"])

# ---------------------------------------------------------------- other dispatchers
p("D01","Every dispatcher delivers events, actions and enqueued events exactly once",
  "On the GLib, GLibmm, Qt and Arduino dispatchers (as on STD) every emitted event calls exactly its handler once per emission in emission order, every accepted enqueued event and every enqueued action is delivered exactly once, all on the thread that runs the dispatcher's loop, and nothing is delivered to a handler after its unregistration or after stop(). An accepted request needs nothing but the running loop to be delivered.",
  ["histories","programs"],"all operation sequences to a depth (register, emit, enqueue, action, unregister, nested calls from handlers, calls from a second thread, loop iterations)",
  "Each back end has its own wake-up mechanism; tests check a few sequences.",
  [B,"src/HsmEventDispatcherGLib.cpp","src/HsmEventDispatcherGLibmm.cpp","src/HsmEventDispatcherQt.cpp","src/HsmEventDispatcherArduino.cpp"],
  [("notifyDispatcherAboutEvent","src/HsmEventDispatcher*.cpp"),("dispatchPendingEvents","src/HsmEventDispatcherBase.cpp")],None,["handler calls"])
p("D02","Timers behave the same on every dispatcher",
  "On the GLib, GLibmm, Qt and Arduino dispatchers a started timer calls its handler no earlier than its interval after the last start or restart and, with the loop running, without unbounded delay: once if single shot, every interval otherwise. Stopping, restarting (also an expired single-shot timer is restarted or stays stopped consistently), starting with a new interval, and unregistering the handler take effect immediately, also when done from a machine's callback for that timer's event, and isTimerRunning() agrees.",
  ["histories","programs"],"all start/stop/restart/unregister sequences to a depth for two timers in virtual time, outside and inside handlers",
  "The back ends create and destroy native timers; ownership mistakes appear only for particular sequences, and the suite's timer tests are unstable.",
  [B,"src/HsmEventDispatcherGLib.cpp","src/HsmEventDispatcherGLibmm.cpp","src/HsmEventDispatcherQt.cpp","src/HsmEventDispatcherArduino.cpp"],
  [("startTimerImpl/stopTimerImpl","src/HsmEventDispatcher*.cpp"),("handleTimerEvent","src/HsmEventDispatcherBase.cpp")],["mActiveTimers"],["handler calls in virtual time"])

# ---------------------------------------------------------------- variant
p("D03","The FreeRTOS port keeps the dispatcher guarantees and the thread-safe calls",
  "On the FreeRTOS dispatcher, with hsmcpp's FreeRTOS implementations of mutex, condition variable, atomic flag and critical sections, events, actions, enqueued events and timers are delivered as D01 and D02 say, and the machine's thread-safe and interrupt-safe calls keep what C01-C10 say: no event is lost or duplicated, synchronous calls report their event's outcome and end, stop(), join(), release() and destruction end and nothing runs or is touched afterwards, for every interleaving of tasks, timer service task and interrupts. No kernel object is used after its deletion, no function meant for tasks is called from an interrupt, nothing blocks inside a critical section, and timers are released.",
  ["schedules","histories","programs"],"programs of C01-C10 and D01/D02 x all interleavings of tasks, timer service and interrupts up to a preemption bound",
  "The FreeRTOS port is not even compiled by the tests.",
  ["src/HsmEventDispatcherFreeRTOS.cpp","src/os/freertos/ConditionVariable.cpp","src/os/freertos/AtomicFlag.cpp","src/os/freertos/Mutex.cpp","src/os/freertos/InterruptsFreeSection.cpp","src/os/common/CriticalSection.cpp"],[("doDispatching","src/HsmEventDispatcherFreeRTOS.cpp"),("onTimerEvent","src/HsmEventDispatcherFreeRTOS.cpp"),("ConditionVariable::wait","src/os/freertos/ConditionVariable.cpp")],["HsmEventDispatcherFreeRTOS on a stand-in kernel"])
p("V01","Variant keeps type and value, and copies are independent",
  "A Variant built, assigned or copied from a value reports that value's type and returns an equal value; copies and copies of copies (through vectors, lists, maps, pairs) are independent, so that changing, moving from, clearing or destroying one never changes or invalidates another. Assigning an element of a value to the variant which holds it works like assigning a copy of that element. Moving transfers the value, clear() and a moved-from or default object are empty, and self-assignment changes nothing.",
  ["histories","inputs"],"all operation sequences (construct, copy, move, assign, clear, mutate through pointers) up to the depth over three variables and values of all types",
  "Ownership mistakes show only in particular operation sequences.",
  ["src/variant.cpp","include/hsmcpp/variant.hpp"],[("operator=/freeMemory/createType","src/variant.cpp, include/hsmcpp/variant.hpp")],["memoryAllocator","data"],["getType(), value<T>(), toString()"])
p("V02","Variant conversions follow their documented rules for all types",
  "toInt64, toUInt64, toDouble, toBool, toString, toByteArray, getMap/Vector/List/Pair and the is...() predicates give the documented result for every stored type, including the documented default for unsupported types, and never throw or crash.",
  ["inputs"],"all types x boundary values of each type x all conversions",
  "Tests check a few values per type.",
  ["src/variant.cpp","include/hsmcpp/variant.hpp"],[("toInt64 and friends","src/variant.cpp")],None,["return values"])
p("V03","Variant comparison is consistent",
  "operator== is reflexive and symmetric, != is its negation, values of the same type compare like the stored C++ values, and values of incompatible types are never equal. For numbers of any numeric type the relations agree with the mathematical values (doubles are compared with a small precision), and at most one of a<b, a==b, a>b holds. operator< is a strict weak order also over values of different types, so that variants of mixed types are usable as keys of a map.",
  ["inputs"],"all pairs and triples over boundary values of all types",
  "Order laws are statements over all pairs.",
  ["src/variant.cpp"],[("operator==/compareOperator","src/variant.cpp")],None,["comparison operators"])

# ---------------------------------------------------------------- tools
p("S01","Code generated by scxml2gen behaves as the SCXML document says",
  "The C++ class generated from a supported SCXML document builds a machine with exactly the document's states, hierarchy, initial states, transitions (event, condition, callback), self transitions, history, final states, timers and state actions: driven with any event sequence it shows the behaviour of the document, and all named callbacks are declared and connected.",
  ["programs","histories"],"all documents of a bounded grammar of SCXML features x all event sequences to a depth, run on the generated code",
  "Tests generate from two fixed documents.",
  ["tools/scxml2gen/scxml2gen.py","tools/scxml2gen/template.hpp","tools/scxml2gen/template.cpp"],[("parser/generator","tools/scxml2gen/scxml2gen.py")],None,["generated class driven at run time"])
p("S02","Diagrams generated by scxml2gen show the SCXML document",
  "The PlantUML state diagram generated from a supported SCXML document shows exactly the document's states inside of their parents, its initial states with their conditions, every transition between the right states (final states as end points, histories as history points of the right state) with its event, condition and callback, and callbacks and actions of every state without substates. States and transitions which the document does not have never appear.",
  ["programs"],"all documents of a bounded grammar of SCXML features",
  "Tests do not cover diagrams.",
  ["tools/scxml2gen/scxml2gen.py"],[("generatePlantuml*","tools/scxml2gen/scxml2gen.py")],None,["PlantUML file"])
p("S03","The debugger shows every entry of a log as it happened",
  "For a document and a debug log of its machine hsmdebugger lists every entry of the log in order, and the diagram of every entry is the document's diagram with nothing added or missing but the marks of that entry: exactly the states without substates which are active are coloured, exactly the transitions (with the entry's source, target and event; from a history its default transition) or entry transitions (of the entered state, for the entry's event) are marked and the target is outlined, and exactly the callback or actions of the entry are marked; a callback which vetoed an exit is shown as blocking, and arguments are shown. The search shows exactly the entries whose action (and arguments) match.",
  ["programs"],"all documents of a bounded grammar of SCXML features x every log entry the engine can write for them",
  "Tests do not cover the debugger at all.",
  ["tools/hsmdebugger/hsmdebugger.py","tools/hsmdebugger/impl/search.py","tools/scxml2gen/scxml2gen.py"],[("updateHsmFrame","tools/hsmdebugger/hsmdebugger.py"),("generatePlantumlState","tools/scxml2gen/scxml2gen.py"),("filterAcceptsRow","tools/hsmdebugger/impl/search.py")],None,["PlantUML text of a frame, rows of the table"])
p("L01","The debug log is a faithful, parseable record of the run",
  "In an HSMBUILD_DEBUGGING build with debugging enabled the log file is valid YAML and lists, in order, exactly the transitions, entry-point transitions, exit/enter/state callbacks (with their success) and state actions that happened, each with the right from/target state, event, arguments and the states active at that moment. Enabling or disabling the log changes nothing else.",
  ["programs","histories"],"bounded machines x event/veto sequences, log parsed and compared with the callback trace",
  "The suite is not built with debugging enabled.",
  [I],[("logHsmAction","src/HsmImpl.cpp"),("enableHsmDebugging","src/HsmImpl.cpp")],["mHsmLogFile"],["log file"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P),"properties")
