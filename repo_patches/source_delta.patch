From 2e1ad715e8d0098027943666729ecdf734618fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:11 +0000
Subject: [PATCH 01/62] fix: keep entry point and history transitions when
 queue is cleared

---
 src/HsmImpl.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index b00c921..53f5cef 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1543,14 +1543,15 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
 void HierarchicalStateMachine::Impl::clearPendingEvents() {
     HSM_TRACE_CALL_DEBUG_ARGS("clearPendingEvents: mPendingEvents.size()=%ld", mPendingEvents.size());
 
-    for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()); ++it) {
-        // since ongoing transitions can't be canceled we need to treat entry point transitions as atomic
+    for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end());) {
+        // since ongoing transitions can't be canceled we need to treat entry point and history transitions as atomic
         if (TransitionBehavior::REGULAR == it->transitionType) {
             it->releaseLock();
+            it = mPendingEvents.erase(it);
+        } else {
+            ++it;
         }
     }
-
-    mPendingEvents.clear();
 }
 
 bool HierarchicalStateMachine::Impl::hasSubstates(const StateID_t parent) const {
-- 
2.43.0


From 083657ce7cec3bf2079693ccae0e573e456b0841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 02/62] fix: don't repeat exit callbacks for parallel
 transitions when exit was blocked

---
 src/HsmImpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 53f5cef..82b27b9 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1280,6 +1280,11 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
     bool isExitAllowed = true;
 
     for (const auto& curTransition : matchingTransitions) {
+        // exit was already blocked while processing another parallel transition
+        if (false == isExitAllowed) {
+            break;
+        }
+
         if (  // process everything except internal self-transitions
             ((curTransition.fromState != curTransition.destinationState) ||
              (TransitionType::EXTERNAL_TRANSITION == curTransition.transitionType)) &&
-- 
2.43.0


From ca145eb46180b642a42205aad165e9f6ac83eae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 03/62] fix: restore parent states before their substates when
 transition is canceled

---
 src/HsmImpl.cpp | 26 ++++++++++++++++----------
 src/HsmImpl.hpp |  1 +
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 82b27b9..8d0f0a2 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1170,17 +1170,25 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             }
         }
     } else {
-        for (const StateID_t& curState : exitedStates) {
-            // to prevent infinite loops we don't allow state to cancel transition
-            (void)onStateEntering(curState, VariantVector_t());
-            (void)addActiveState(curState);
-            onStateChanged(curState, VariantVector_t());
-        }
+        restoreExitedStates(exitedStates);
     }
 
     return res;
 }
 
+void HierarchicalStateMachine::Impl::restoreExitedStates(const std::list<StateID_t>& exitedStates) {
+    // substates are exited before their parents so they must be restored in a reversed order
+    for (auto it = exitedStates.rbegin(); it != exitedStates.rend(); ++it) {
+        // state could have been already restored or activated by another parallel transition
+        if (false == isStateActive(*it)) {
+            // to prevent infinite loops we don't allow state to cancel transition
+            (void)onStateEntering(*it, VariantVector_t());
+            (void)addActiveState(*it);
+            onStateChanged(*it, VariantVector_t());
+        }
+    }
+}
+
 bool HierarchicalStateMachine::Impl::determineTargetState(const PendingEventInfo& event,
                                                           const StateID_t fromState,
                                                           std::list<TransitionInfo>& outMatchingTransitions) {
@@ -1320,11 +1328,9 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
             else {
                 for (const auto& curState : outExitedStates) {
                     mActiveStates.remove(curState);
-                    // to prevent infinite loops we don't allow state to cancel transition
-                    (void)onStateEntering(curState, VariantVector_t());
-                    mActiveStates.emplace_back(curState);
-                    onStateChanged(curState, VariantVector_t());
                 }
+
+                restoreExitedStates(outExitedStates);
             }
         }
     }
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index 06a4053..632adb0 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -142,6 +142,7 @@ private:
                                              const StateID_t fromState,
                                              const TransitionInfo& curTransition,
                                              const std::list<StateID_t>& exitedStates);
+    void restoreExitedStates(const std::list<StateID_t>& exitedStates);
     bool determineTargetState(const PendingEventInfo& event,
                               const StateID_t fromState,
                               std::list<TransitionInfo>& outMatchingTransitions);
-- 
2.43.0


From e14f1d84d5bef4a84ebd81503565eb32ab41f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 04/62] fix: don't apply history transition to every active
 state

---
 src/HsmImpl.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 8d0f0a2..5f85a1e 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1048,13 +1048,18 @@ bool HierarchicalStateMachine::Impl::findTransitionTarget(const StateID_t fromSt
 HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventInfo& event) {
     HSM_TRACE_CALL_DEBUG_ARGS("event=<%s>, transitionType=%d", getEventName(event.id).c_str(), SC2INT(event.transitionType));
     HsmEventStatus res = HsmEventStatus::DONE_FAILED;
+    const bool isForcedTransition = (TransitionBehavior::FORCED == event.transitionType);
     auto activeStatesSnapshot = mActiveStates;
+    // NOTE: forced transitions originate from a history state and must be handled only once
+    //       (independent from the amount of active states)
+    const std::list<StateID_t> sourceStates =
+        (isForcedTransition ? std::list<StateID_t>{event.forcedTransitionsInfo->front().fromState} : activeStatesSnapshot);
     std::list<StateID_t> acceptedStates;  // list of states that accepted transitions
 
-    for (auto it = activeStatesSnapshot.rbegin(); it != activeStatesSnapshot.rend(); ++it) {
+    for (auto it = sourceStates.rbegin(); it != sourceStates.rend(); ++it) {
         // in case of parallel transitions some states might become inactive after handleSingleTransition()
         // example: [*B, *C] -> D
-        if (true == isStateActive(*it)) {
+        if ((true == isForcedTransition) || (true == isStateActive(*it))) {
             // we don't need to process transitions for active states if their child already processed it
             bool childStateProcessed = false;
 
-- 
2.43.0


From e975bef51ed2eb1dbb5fad247a85f6f6b569af37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 05/62] fix: don't silently deactivate state restored after
 canceled parallel transition

---
 src/HsmImpl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 5f85a1e..653aaeb 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1136,7 +1136,13 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
     }
 
     if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {
-        if (true == replaceActiveState(fromState, curTransition.destinationState)) {
+        // NOTE: during regular transitions source state was already deactivated in executeExitTransition(). It could be active
+        //       again only if it was restored because another parallel transition was canceled
+        const bool isActivated = ((TransitionBehavior::REGULAR == event.transitionType)
+                                      ? addActiveState(curTransition.destinationState)
+                                      : replaceActiveState(fromState, curTransition.destinationState));
+
+        if (true == isActivated) {
             onStateChanged(curTransition.destinationState, event.getArgs());
         }
 
-- 
2.43.0


From 7ca06249e659ef962f043c75231158c89b4ba621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 06/62] fix: restore nested states of parallel regions
 correctly during deep history transition

---
 src/HsmImpl.cpp | 50 ++++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 653aaeb..72ab24f 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1375,36 +1375,44 @@ bool HierarchicalStateMachine::Impl::processHistoryTransition(const PendingEvent
 void HierarchicalStateMachine::Impl::transitionToPreviousActiveStates(std::list<StateID_t>& previousActiveStates,
                                                                       const PendingEventInfo& event,
                                                                       const StateID_t destinationState) {
-    StateID_t prevChildState = INVALID_HSM_STATE_ID;
     PendingEventInfo historyTransitionEvent = event;
+    auto parentTransitions = std::make_shared<std::list<TransitionInfo>>();
+    auto leafTransitions = std::make_shared<std::list<TransitionInfo>>();
 
     historyTransitionEvent.transitionType = TransitionBehavior::FORCED;
-    historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();
+
+    for (const StateID_t prevState : previousActiveStates) {
+        const bool hasRestoredSubstates =
+            std::any_of(previousActiveStates.begin(), previousActiveStates.end(), [&](const StateID_t otherState) {
+                // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                return isSubstateOf(prevState, otherState);
+            });
+
+        // NOTE: states are stored in the order they were exited (substates first) but parents must be restored first
+        if (true == hasRestoredSubstates) {
+            parentTransitions->emplace_front(destinationState,
+                                             prevState,
+                                             TransitionType::EXTERNAL_TRANSITION,
+                                             nullptr,
+                                             nullptr);
+        } else {
+            leafTransitions->emplace_back(destinationState, prevState, TransitionType::EXTERNAL_TRANSITION, nullptr, nullptr);
+        }
+    }
 
     {
         HSM_SYNC_EVENTS_QUEUE();
 
-        for (const StateID_t prevState : previousActiveStates) {
-            if ((INVALID_HSM_STATE_ID != prevChildState) && (true == isSubstateOf(prevState, prevChildState))) {
-                if (false == historyTransitionEvent.forcedTransitionsInfo->empty()) {
-                    mPendingEvents.push_front(historyTransitionEvent);
-                }
-
-                historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();
-                historyTransitionEvent.ignoreEntryPoints = true;
-            } else {
-                historyTransitionEvent.ignoreEntryPoints = false;
-            }
+        historyTransitionEvent.forcedTransitionsInfo = leafTransitions;
+        historyTransitionEvent.ignoreEntryPoints = false;
+        mPendingEvents.push_front(historyTransitionEvent);
 
-            prevChildState = prevState;
-            historyTransitionEvent.forcedTransitionsInfo->emplace_back(destinationState,
-                                                                       prevState,
-                                                                       TransitionType::EXTERNAL_TRANSITION,
-                                                                       nullptr,
-                                                                       nullptr);
+        if (false == parentTransitions->empty()) {
+            // substates of these states will be restored from history
+            historyTransitionEvent.forcedTransitionsInfo = parentTransitions;
+            historyTransitionEvent.ignoreEntryPoints = true;
+            mPendingEvents.push_front(historyTransitionEvent);
         }
-
-        mPendingEvents.push_front(historyTransitionEvent);
     }
 
     previousActiveStates.clear();
-- 
2.43.0


From 0fc7593264f843d50b67aa710264a0f5111a5841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 07/62] fix: isTransitionPossible reported true when only
 pending events were possible

---
 src/HsmImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 72ab24f..dba5556 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -955,6 +955,7 @@ bool HierarchicalStateMachine::Impl::checkTransitionPossibility(const StateID_t
 
         for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()) && (true == possible); ++it) {
             nextEvent = it->id;
+            possibleTransitions.clear();
             possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
 
             if (true == possible) {
@@ -970,6 +971,7 @@ bool HierarchicalStateMachine::Impl::checkTransitionPossibility(const StateID_t
 
     if (true == possible) {
         nextEvent = event;
+        possibleTransitions.clear();
         possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
     }
 
-- 
2.43.0


From 7bba8ef26286c9f6b2bad3c01db93cc7bb3f5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 08/62] fix: don't report failed transition when entry points
 were already handled

---
 src/HsmImpl.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index dba5556..1e1068d 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1159,8 +1159,12 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             // check if new state has substates and initiate entry transition
             if (false == event.ignoreEntryPoints) {
                 std::list<StateID_t> entryPoints;
+                // there is no need to use entry points if substates are already active
+                const bool isEntryRequired =
+                    (true == isActivated) || (false == hasActiveChildren(curTransition.destinationState, true));
 
-                if (true == getEntryPoints(curTransition.destinationState, event.id, event.getArgs(), entryPoints)) {
+                if ((true == isEntryRequired) &&
+                    (true == getEntryPoints(curTransition.destinationState, event.id, event.getArgs(), entryPoints))) {
                     HSM_TRACE_DEBUG("state <%s> has substates with %d entry points (first: <%s>)",
                                     getStateName(curTransition.destinationState).c_str(),
                                     SC2INT(entryPoints.size()),
@@ -1171,7 +1175,17 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
 
                     {
                         HSM_SYNC_EVENTS_QUEUE();
-                        mPendingEvents.push_front(entryPointTransitionEvent);
+                        // single entry point event handles all states which were activated by the same event
+                        const bool isEntryPointPending =
+                            std::any_of(mPendingEvents.begin(), mPendingEvents.end(), [&event](const PendingEventInfo& item) {
+                                // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" belongs to lambda function
+                                return ((TransitionBehavior::ENTRYPOINT == item.transitionType) && (item.id == event.id) &&
+                                        (item.args == event.args));
+                            });
+
+                        if (false == isEntryPointPending) {
+                            mPendingEvents.push_front(entryPointTransitionEvent);
+                        }
                     }
                     res = HsmEventStatus::PENDING;
                 } else {
-- 
2.43.0


From e0ce25d27c9f8b73560d94bb9f88f18e5bea0e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 09/62] fix: lost wakeup and changed result of synchronous
 transitions

---
 src/HsmImplTypes.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/HsmImplTypes.cpp b/src/HsmImplTypes.cpp
index 3406f41..bcb227d 100644
--- a/src/HsmImplTypes.cpp
+++ b/src/HsmImplTypes.cpp
@@ -170,9 +170,16 @@ void PendingEventInfo::unlock(const HsmEventStatus status) {
 
     if (true == isSync()) {
         HSM_TRACE_DEBUG("SYNC object (%p)", transitionStatus.get());
-        *transitionStatus = status;
 
         if (status != HsmEventStatus::PENDING) {
+            // NOTE: status must be changed under the lock. Otherwise waiting thread could miss notification
+            UniqueLock lck(*cvLock);
+
+            // result which could have been already received by the waiting thread must not be changed
+            if (HsmEventStatus::PENDING == *transitionStatus) {
+                *transitionStatus = status;
+            }
+
             syncProcessed->notify();
         }
     } else {
-- 
2.43.0


From 2ec262d089f7b594d136696e149621097595af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 10/62] fix: don't process events before initial state is
 activated

---
 src/HsmImpl.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 1e1068d..b9892bd 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -595,6 +595,9 @@ void HierarchicalStateMachine::Impl::handleStartup() {
         HSM_TRACE_DEBUG("state=<%s>", getStateName(mInitialState).c_str());
         std::list<StateID_t> entryPoints;
 
+        // prevent dispatcher from processing events (sent by callbacks or other threads) until initial state is activated
+        (void)mIsDispatching.test_and_set();
+
         (void)onStateEntering(mInitialState, VariantVector_t());
         mActiveStates.emplace_back(mInitialState);
         onStateChanged(mInitialState, VariantVector_t());
@@ -611,7 +614,17 @@ void HierarchicalStateMachine::Impl::handleStartup() {
             }
         }
 
-        if (false == mPendingEvents.empty()) {
+        mIsDispatching.clear();
+        mIsDispatching.notify();
+
+        bool hasPendingEvents = false;
+
+        {
+            HSM_SYNC_EVENTS_QUEUE();
+            hasPendingEvents = (false == mPendingEvents.empty());
+        }
+
+        if (true == hasPendingEvents) {
             dispatcherPtr->emitEvent(mEventsHandlerId);
         }
     }
-- 
2.43.0


From 1638ecb3f229d45062bf086d06835e4e7f3013a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 11/62] fix: process final state event only after ongoing
 transition was finished

---
 src/HsmImpl.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index b9892bd..692b389 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1537,7 +1537,14 @@ bool HierarchicalStateMachine::Impl::processFinalStateTransition(const PendingEv
 
                 {
                     HSM_SYNC_EVENTS_QUEUE();
-                    mPendingEvents.push_front(finalStateEvent);
+                    // entry point and history transitions of other parallel states must be finished first
+                    const auto itPosition =
+                        std::find_if(mPendingEvents.begin(), mPendingEvents.end(), [](const PendingEventInfo& item) {
+                            // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" belongs to lambda function
+                            return (TransitionBehavior::REGULAR == item.transitionType);
+                        });
+
+                    (void)mPendingEvents.insert(itPosition, finalStateEvent);
                 }
             }
         }
-- 
2.43.0


From bb8905137af6d64f2d038a5b0309eef77f8ded8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 12/62] fix: build with HSM_DISABLE_THREADSAFETY

---
 src/HsmImpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index 632adb0..43a7bc6 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -224,8 +224,9 @@ private:
     std::list<StateID_t> mTopLevelStates;  // list of states which are not substates and dont have substates of their own
 #endif
 
-#ifndef HSM_DISABLE_THREADSAFETY
     AtomicFlag mIsDispatching;
+
+#ifndef HSM_DISABLE_THREADSAFETY
     Mutex mEventsSync;
   #if !defined(HSM_DISABLE_DEBUG_TRACES)
     Mutex mParentSync;
-- 
2.43.0


From 26065cfbe8a888b31418724d24a0c97db0ecf979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 13/62] fix: HSM was reported as initialized when registration
 of handlers failed

---
 src/HsmImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 692b389..3139ab5 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -142,6 +142,7 @@ bool HierarchicalStateMachine::Impl::initialize(const std::weak_ptr<IHsmEventDis
                         dispatcherPtr->unregisterEventHandler(mEventsHandlerId);
                         dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);
                         dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);
+                        mDispatcher.reset();
                     }
                 }
             } else {
-- 
2.43.0


From 7056610bb617496f21cf20e17a51fc81fab8df3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:52 +0000
Subject: [PATCH 14/62] fix: lost wakeup of STD dispatcher thread

Notification about enqueued events, actions and stop() could come between the
check of the condition and the wait. Enqueued actions were not part of the
condition at all.
---
 include/hsmcpp/HsmEventDispatcherSTD.hpp |  2 ++
 src/HsmEventDispatcherSTD.cpp            | 39 ++++++++++++++++--------
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherSTD.hpp b/include/hsmcpp/HsmEventDispatcherSTD.hpp
index c04001f..6599cf5 100644
--- a/include/hsmcpp/HsmEventDispatcherSTD.hpp
+++ b/include/hsmcpp/HsmEventDispatcherSTD.hpp
@@ -109,6 +109,8 @@ private:
     // NOTE: ideally it would be better to use a semaphore here, but there are no semaphores in C++11
     ConditionVariable mEmitEvent;
     ConditionVariable mTimerEvent;
+    Mutex mNotifySync;
+    bool mDispatcherNotified = false; // protected by mNotifySync
     bool mNotifiedTimersThread = false;
     std::map<TimerID_t, RunningTimerInfo> mRunningTimers; // protected by mRunningTimersSync
 };
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 2f216a7..d7d4805 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -5,6 +5,7 @@
 
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/InterruptsFreeSection.hpp"
 
 namespace hsmcpp {
 
@@ -125,6 +126,12 @@ void HsmEventDispatcherSTD::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherSTD::notifyDispatcherAboutEvent() {
+    {
+        // NOTE: can be called from an interrupt
+        CriticalSection cs(mNotifySync);
+        mDispatcherNotified = true;
+    }
+
     mEmitEvent.notify();
 }
 
@@ -132,22 +139,28 @@ void HsmEventDispatcherSTD::doDispatching() {
     HSM_TRACE_CALL_DEBUG();
 
     while (false == mStopDispatcher) {
+        {
+            // everything that was added before this point will be handled by dispatchPendingEvents()
+            CriticalSection cs(mNotifySync);
+            mDispatcherNotified = false;
+        }
+
         HsmEventDispatcherBase::dispatchPendingEvents();
 
         if (false == mStopDispatcher) {
-            UniqueLock lck(mEmitSync);
-
-            if (true == mPendingEvents.empty()) {
-                HSM_TRACE_DEBUG("wait for emit...");
-                // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
-                //       "return" statement belogs to a lamda function, not doDispatching.
-                // cppcheck-suppress misra-c2012-15.5
-                mEmitEvent.wait(lck, [=]() {
-                    // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
-                    return (false == mPendingEvents.empty()) || (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher);
-                });
-                HSM_TRACE_DEBUG("woke up. pending events=%lu", mPendingEvents.size());
-            }
+            // NOTE: mNotifySync is also used by interrupts
+            InterruptsFreeSection interruptsBlock;
+            UniqueLock lck(mNotifySync);
+
+            HSM_TRACE_DEBUG("wait for emit...");
+            // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
+            //       "return" statement belogs to a lamda function, not doDispatching.
+            // cppcheck-suppress misra-c2012-15.5
+            mEmitEvent.wait(lck, [=]() {
+                // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                return (true == mDispatcherNotified) || (true == mStopDispatcher);
+            });
+            HSM_TRACE_DEBUG("woke up. pending events=%lu", mPendingEvents.size());
         }
     }
 
-- 
2.43.0


From 4ac903be08605d8231120f6243824997c1b47ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:53 +0000
Subject: [PATCH 15/62] fix: limit of enqueued events could be exceeded by
 concurrent calls

---
 src/HsmEventDispatcherBase.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index b1c8812..7ea5689 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -75,13 +75,17 @@ void HsmEventDispatcherBase::emitEvent(const HandlerID_t handlerID) {
 bool HsmEventDispatcherBase::enqueueEvent(const HandlerID_t handlerID, const EventID_t event) {
     bool wasAdded = false;
 
-    if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
-        {
-            CriticalSection cs(mEnqueuedEventsSync);
+    {
+        CriticalSection cs(mEnqueuedEventsSync);
+
+        // NOTE: available space must be checked under lock. otherwise a concurrent call could cause reallocation
+        if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
             mEnqueuedEvents.emplace_back(handlerID, event);
+            wasAdded = true;
         }
+    }
 
-        wasAdded = true;
+    if (true == wasAdded) {
         notifyDispatcherAboutEvent();
     }
 
-- 
2.43.0


From 3e266ad6182ff5840826e84144b51f3f6a8dbe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:53 +0000
Subject: [PATCH 16/62] fix: crash when handler of enqueued event was
 unregistered

---
 src/HsmEventDispatcherBase.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 7ea5689..3cd53e2 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -303,11 +303,16 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
         // need to traverse events in reverse order
         for (auto it = currentEvents.rbegin(); (it != currentEvents.rend()) && (false == mStopDispatcher); ++it) {
             if (prevHandlerID != it->handlerID) {
+                LockGuard lck(mHandlersSync);
                 callback = getEnqueuedEventHandlerFunc(it->handlerID);
                 prevHandlerID = it->handlerID;
             }
 
-            callback(it->eventID);
+            // handler could be already unregistered
+            // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::function has bool() operator
+            if (callback) {
+                (void)callback(it->eventID);
+            }
         }
     }
 }
-- 
2.43.0


From 19b0531a48fc54a45b09abd51d227658b2dee79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:53 +0000
Subject: [PATCH 17/62] fix: dispatch enqueued events in the order they were
 added

---
 src/HsmEventDispatcherBase.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 3cd53e2..d1350e8 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -300,8 +300,7 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
             mEnqueuedEvents.clear();
         }
 
-        // need to traverse events in reverse order
-        for (auto it = currentEvents.rbegin(); (it != currentEvents.rend()) && (false == mStopDispatcher); ++it) {
+        for (auto it = currentEvents.begin(); (it != currentEvents.end()) && (false == mStopDispatcher); ++it) {
             if (prevHandlerID != it->handlerID) {
                 LockGuard lck(mHandlersSync);
                 callback = getEnqueuedEventHandlerFunc(it->handlerID);
-- 
2.43.0


From e4dccc98801fa46fb971e9ec984e7eb30788b32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:59 +0000
Subject: [PATCH 18/62] fix: don't call handlers which were unregistered while
 their events were pending

---
 src/HsmEventDispatcherBase.cpp | 40 ++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index d1350e8..0b0ad39 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -3,6 +3,8 @@
 
 #include "hsmcpp/HsmEventDispatcherBase.hpp"
 
+#include <algorithm>
+
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
 #include "hsmcpp/os/LockGuard.hpp"
@@ -288,8 +290,6 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
 
 void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
     if ((false == mStopDispatcher) && (false == mEnqueuedEvents.empty())) {
-        HandlerID_t prevHandlerID = INVALID_HSM_DISPATCHER_HANDLER_ID;
-        EnqueuedEventHandlerFunc_t callback;
         std::vector<EnqueuedEventInfo> currentEvents;
 
         {
@@ -301,10 +301,12 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
         }
 
         for (auto it = currentEvents.begin(); (it != currentEvents.end()) && (false == mStopDispatcher); ++it) {
-            if (prevHandlerID != it->handlerID) {
+            // cppcheck-suppress misra-c2012-17.7 ; false-positive. This a function pointer, not function call.
+            EnqueuedEventHandlerFunc_t callback;
+
+            {
                 LockGuard lck(mHandlersSync);
                 callback = getEnqueuedEventHandlerFunc(it->handlerID);
-                prevHandlerID = it->handlerID;
             }
 
             // handler could be already unregistered
@@ -348,22 +350,28 @@ void HsmEventDispatcherBase::dispatchPendingEventsImpl(const std::list<HandlerID
     dispatchEnqueuedEvents();
 
     if ((false == mStopDispatcher) && (false == events.empty())) {
-        std::map<HandlerID_t, EventHandlerFunc_t> eventHandlersCopy;
-
-        {
-            // TODO: workaround to prevent recursive lock if registerEventHandler/unregisterEventHandler is called from handler
-            // callback
-            LockGuard lck(mHandlersSync);
-            eventHandlersCopy = mEventHandlers;
-        }
+        std::list<HandlerID_t> ignoredHandlers;
 
         for (auto it = events.begin(); (it != events.end()) && (false == mStopDispatcher); ++it) {
-            auto itHandler = eventHandlersCopy.find(*it);
+            // cppcheck-suppress misra-c2012-17.7 ; false-positive. This a function pointer, not function call.
+            EventHandlerFunc_t handler;
 
-            if (itHandler != eventHandlersCopy.end()) {
+            if (std::find(ignoredHandlers.begin(), ignoredHandlers.end(), *it) == ignoredHandlers.end()) {
+                // NOTE: handler must be called without lock since it's allowed to use
+                //       registerEventHandler/unregisterEventHandler. It also could be already unregistered
+                LockGuard lck(mHandlersSync);
+                auto itHandler = mEventHandlers.find(*it);
+
+                if (itHandler != mEventHandlers.end()) {
+                    handler = itHandler->second;
+                }
+            }
+
+            // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::function has bool() operator
+            if (handler) {
                 // NOTE: if callback returns FALSE it means the handler doesn't want to process more events
-                if (false == itHandler->second()) {
-                    eventHandlersCopy.erase(itHandler);
+                if (false == handler()) {
+                    ignoredHandlers.emplace_back(*it);
                 }
             }
         }
-- 
2.43.0


From c444ad2d676b8a783656e9968ae5495388102402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 19/62] fix: don't allocate memory when event is enqueued from
 an interrupt

---
 include/hsmcpp/os/common/CriticalSection.hpp | 6 +++---
 src/os/common/CriticalSection.cpp            | 4 +---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/hsmcpp/os/common/CriticalSection.hpp b/include/hsmcpp/os/common/CriticalSection.hpp
index 2f57053..0ffb436 100644
--- a/include/hsmcpp/os/common/CriticalSection.hpp
+++ b/include/hsmcpp/os/common/CriticalSection.hpp
@@ -3,12 +3,11 @@
 #ifndef HSMCPP_OS_COMMON_CRITICALSECTION_HPP
 #define HSMCPP_OS_COMMON_CRITICALSECTION_HPP
 
-#include <memory>
+#include "hsmcpp/os/InterruptsFreeSection.hpp"
 
 namespace hsmcpp {
 
 class Mutex;
-class InterruptsFreeSection;
 
 class CriticalSection {
 public:
@@ -23,7 +22,8 @@ private:
 
 private:
     Mutex& mSync;
-    std::unique_ptr<InterruptsFreeSection> mInterruptsBlock;
+    // NOTE: CriticalSection is used inside interrupts, so it should not allocate memory dynamically
+    InterruptsFreeSection mInterruptsBlock;
 };
 
 }  // namespace hsmcpp
diff --git a/src/os/common/CriticalSection.cpp b/src/os/common/CriticalSection.cpp
index f35a29a..48c773a 100644
--- a/src/os/common/CriticalSection.cpp
+++ b/src/os/common/CriticalSection.cpp
@@ -2,14 +2,12 @@
 // Distributed under MIT license. See file LICENSE for details
 #include "hsmcpp/os/common/CriticalSection.hpp"
 
-#include "hsmcpp/os/InterruptsFreeSection.hpp"
 #include "hsmcpp/os/Mutex.hpp"
 
 namespace hsmcpp {
 
 CriticalSection::CriticalSection(Mutex& sync)
-    : mSync(sync)
-    , mInterruptsBlock(new InterruptsFreeSection()) {
+    : mSync(sync) {
     mSync.lock();
 }
 
-- 
2.43.0


From 1d1020fb7f84e51ef50e7c8ee93908db8ef4c1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 20/62] fix: deadlock between stop() of STD dispatcher and a
 timer

---
 src/HsmEventDispatcherSTD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index d7d4805..1e500dc 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -61,8 +61,8 @@ bool HsmEventDispatcherSTD::start() {
 
 void HsmEventDispatcherSTD::stop() {
     HSM_TRACE_CALL_DEBUG();
-    UniqueLock lck(mEmitSync);
 
+    // NOTE: mEmitSync shouldn't be locked here because timers thread locks it after mHandlersSync
     HsmEventDispatcherBase::stop();
     unregisterAllEventHandlers();
     notifyDispatcherAboutEvent();
-- 
2.43.0


From a1fa0480cffc64b3c7388567d8b54e3f608842b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:11 +0000
Subject: [PATCH 21/62] fix: races in timers thread of STD dispatcher

- wakeups could be lost and the thread could wait forever
- deadlock between the timers thread and start/stop/restart of timers
- timer restarted at the moment of its expiration fired too early or was lost
- timers were triggered up to 1 ms too early
- intervals larger than INT_MAX expired immediately
---
 include/hsmcpp/HsmEventDispatcherBase.hpp |   6 +-
 include/hsmcpp/HsmEventDispatcherSTD.hpp  |   2 +-
 src/HsmEventDispatcherBase.cpp            |   5 +-
 src/HsmEventDispatcherSTD.cpp             | 131 +++++++++++++---------
 4 files changed, 85 insertions(+), 59 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherBase.hpp b/include/hsmcpp/HsmEventDispatcherBase.hpp
index 07d95f9..005ccf3 100644
--- a/include/hsmcpp/HsmEventDispatcherBase.hpp
+++ b/include/hsmcpp/HsmEventDispatcherBase.hpp
@@ -4,6 +4,7 @@
 #ifndef HSMCPP_HSMEVENTDISPATCHERBASE_HPP
 #define HSMCPP_HSMEVENTDISPATCHERBASE_HPP
 
+#include <functional>
 #include <list>
 #include <map>
 #include <memory>
@@ -217,11 +218,14 @@ protected:
      * @brief Contains common logic for handling timer event
      *
      * @param timerID id of the expired timer
+     * @param isExpired (optional) called while timers can't be changed to check that timer wasn't stopped or restarted after
+     *                  it expired
      *
      * @return interval in milliseconds to use for restarting the timer or zero if timer can be deleted
      *         (usually because it's a singleshot timer)
      */
-    unsigned int handleTimerEvent(const TimerID_t timerID);
+    // cppcheck-suppress misra-c2012-17.8 ; false positive. setting default parameter value is not parameter modification
+    unsigned int handleTimerEvent(const TimerID_t timerID, const std::function<bool()>& isExpired = nullptr);
 
     /**
      * @brief Wakeup dispatching thread to process pending events.
diff --git a/include/hsmcpp/HsmEventDispatcherSTD.hpp b/include/hsmcpp/HsmEventDispatcherSTD.hpp
index 6599cf5..37ddecc 100644
--- a/include/hsmcpp/HsmEventDispatcherSTD.hpp
+++ b/include/hsmcpp/HsmEventDispatcherSTD.hpp
@@ -111,7 +111,7 @@ private:
     ConditionVariable mTimerEvent;
     Mutex mNotifySync;
     bool mDispatcherNotified = false; // protected by mNotifySync
-    bool mNotifiedTimersThread = false;
+    bool mNotifiedTimersThread = false; // protected by mRunningTimersSync
     std::map<TimerID_t, RunningTimerInfo> mRunningTimers; // protected by mRunningTimersSync
 };
 
diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 0b0ad39..c431e35 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -257,7 +257,7 @@ void HsmEventDispatcherBase::stopTimerImpl(const TimerID_t timerID) {
     // do nothing. must be implemented in platfrom specific dispatcher
 }
 
-unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
+unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID, const std::function<bool()>& isExpired) {
     HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
     unsigned int nextIntervalMs = 0;
 
@@ -267,7 +267,8 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
 
         auto itTimer = mActiveTimers.find(timerID);
 
-        if (mActiveTimers.end() != itTimer) {
+        // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::function has bool() operator
+        if ((mActiveTimers.end() != itTimer) && ((!isExpired) || (true == isExpired()))) {
             HSM_TRACE_DEBUG("curTimer.handlerID=%d", itTimer->second.handlerID);
 
             if (INVALID_HSM_DISPATCHER_HANDLER_ID != itTimer->second.handlerID) {
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 1e500dc..f159b7f 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -3,6 +3,9 @@
 
 #include "hsmcpp/HsmEventDispatcherSTD.hpp"
 
+#include <algorithm>
+#include <limits>
+
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
 #include "hsmcpp/os/InterruptsFreeSection.hpp"
@@ -169,80 +172,98 @@ void HsmEventDispatcherSTD::doDispatching() {
 
 void HsmEventDispatcherSTD::notifyTimersThread() {
     HSM_TRACE_CALL_DEBUG();
-    mNotifiedTimersThread = true;
+
+    {
+        CriticalSection cs(mRunningTimersSync);
+        mNotifiedTimersThread = true;
+    }
+
     mTimerEvent.notify();
 }
 
 void HsmEventDispatcherSTD::handleTimers() {
     HSM_TRACE_CALL_DEBUG();
-    Mutex timerEventSync;
-    UniqueLock lck(timerEventSync);
 
     while (false == mStopDispatcher) {
-        mRunningTimersSync.lock();
+        bool hasExpiredTimer = false;
+        TimerID_t expiredTimerId = INVALID_HSM_TIMER_ID;
+        std::chrono::time_point<std::chrono::steady_clock> expiredAt;
+        std::chrono::time_point<std::chrono::steady_clock> wakeupTime;
 
-        if (false == mRunningTimers.empty()) {
-            auto itTimeout = mRunningTimers.begin();
-
-            for (auto it = mRunningTimers.begin(); it != mRunningTimers.end(); ++it) {
-                if (it->second.elapseAfter < itTimeout->second.elapseAfter) {
-                    itTimeout = it;
-                }
-            }
-
-            TimerID_t waitingTimerId = itTimeout->first;
-            const int waitDurationMs = std::chrono::duration_cast<std::chrono::milliseconds>(itTimeout->second.elapseAfter -
-                                                                                         std::chrono::steady_clock::now())
-                                       .count();
-
-            // unlock after itTimeout value is not needed anymore
-            mRunningTimersSync.unlock();
-            // NOTE: make sure we don't use itTimeout value after this line
-
-            bool waitResult = false;
-
-            // if waitDurationMs <= 0 it means that timer already expired and we only need to trigger event
-            if (waitDurationMs > 0) {
-                // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
-                //       "return" statement belogs to a lamda function, not doDispatching.
-                // cppcheck-suppress misra-c2012-15.5
-                waitResult = mTimerEvent.wait_for(lck, waitDurationMs, [&]() { return mNotifiedTimersThread; });
-            }
+        {
+            UniqueLock lck(mRunningTimersSync);
 
+            // any changes which were done before this point will be handled below
             mNotifiedTimersThread = false;
 
-            if (false == waitResult) {
-                // timeout expired
+            if (false == mRunningTimers.empty()) {
+                auto itTimeout = mRunningTimers.begin();
 
-                // store wakeup time in case we'll need to calculate new elapseAfter value
-                // needed to avoid potential delays caused by CriticalSection and handleTimerEvent()
-                const auto wakeupTime = std::chrono::steady_clock::now();
-                CriticalSection lckExpired(mRunningTimersSync);
-
-                itTimeout = mRunningTimers.find(waitingTimerId);
-
-                if (itTimeout != mRunningTimers.end()) {
-                    const unsigned int nextIntervalMs = handleTimerEvent(waitingTimerId);
-
-                    if (nextIntervalMs > 0u) {
-                        // restart timer
-                        itTimeout->second.startedAt = wakeupTime;
-                        itTimeout->second.elapseAfter = itTimeout->second.startedAt + std::chrono::milliseconds(nextIntervalMs);
-                    } else {
-                        // single shot timer. remove from queue
-                        mRunningTimers.erase(itTimeout);
+                for (auto it = mRunningTimers.begin(); it != mRunningTimers.end(); ++it) {
+                    if (it->second.elapseAfter < itTimeout->second.elapseAfter) {
+                        itTimeout = it;
                     }
+                }
+
+                // store wakeup time in case we'll need to calculate new elapseAfter value
+                // needed to avoid potential delays caused by locks and handleTimerEvent()
+                wakeupTime = std::chrono::steady_clock::now();
+
+                if (itTimeout->second.elapseAfter <= wakeupTime) {
+                    hasExpiredTimer = true;
+                    expiredTimerId = itTimeout->first;
+                    expiredAt = itTimeout->second.elapseAfter;
+                } else if (false == mStopDispatcher) {
+                    // round up to make sure that timer will not be triggered earlier than requested
+                    const auto waitDurationMs = std::chrono::duration_cast<std::chrono::milliseconds>(
+                                                    itTimeout->second.elapseAfter - wakeupTime +
+                                                    std::chrono::milliseconds(1) - std::chrono::steady_clock::duration(1))
+                                                    .count();
+                    const auto maxWaitMs = static_cast<decltype(waitDurationMs)>(std::numeric_limits<int>::max());
+
+                    // NOTE: it doesn't matter why thread woke up since expired timers will be checked again
+                    // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                    (void)mTimerEvent.wait_for(lck, static_cast<int>(std::min(waitDurationMs, maxWaitMs)), [&]() {
+                        return mNotifiedTimersThread;
+                    });
                 } else {
                     // do nothing
                 }
+            } else if (false == mStopDispatcher) {
+                // wait for timer events
+                // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                mTimerEvent.wait(lck, [&]() { return mNotifiedTimersThread; });
             } else {
-                // thread was woken up by start/stop operation. no need to do anything
+                // do nothing
             }
-        } else {
-            mRunningTimersSync.unlock();
+        }
+
+        if (true == hasExpiredTimer) {
+            // NOTE: mRunningTimersSync shouldn't be locked during this call because it's locked after mHandlersSync
+            //       when timers are started or stopped
+            const unsigned int nextIntervalMs = handleTimerEvent(expiredTimerId, [&]() {
+                // timer could have been stopped or restarted in the meantime
+                CriticalSection cs(mRunningTimersSync);
+                auto it = mRunningTimers.find(expiredTimerId);
 
-            // wait for timer events
-            mTimerEvent.wait(lck);
+                // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                return ((it != mRunningTimers.end()) && (it->second.elapseAfter == expiredAt));
+            });
+
+            CriticalSection cs(mRunningTimersSync);
+            auto it = mRunningTimers.find(expiredTimerId);
+
+            // don't touch timer if it was restarted
+            if ((it != mRunningTimers.end()) && (it->second.elapseAfter == expiredAt)) {
+                if (nextIntervalMs > 0u) {
+                    // restart timer
+                    it->second.startedAt = wakeupTime;
+                    it->second.elapseAfter = it->second.startedAt + std::chrono::milliseconds(nextIntervalMs);
+                } else {
+                    // single shot timer. remove from queue
+                    mRunningTimers.erase(it);
+                }
+            }
         }
     }
 
-- 
2.43.0


From d1ead94d9ee17a5dfffe35dbfd66021a8bf06d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:11 +0000
Subject: [PATCH 22/62] fix: data race in isTimerRunning()

---
 src/HsmEventDispatcherBase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index c431e35..e78b4a3 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -213,6 +213,8 @@ void HsmEventDispatcherBase::stopTimer(const TimerID_t timerID) {
 }
 
 bool HsmEventDispatcherBase::isTimerRunning(const TimerID_t timerID) {
+    LockGuard lck(mHandlersSync);
+
     return (mActiveTimers.find(timerID) != mActiveTimers.end());
 }
 
-- 
2.43.0


From e1ae187c6b535e8c3f729d700e3d082f5037efe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:40 +0000
Subject: [PATCH 23/62] fix: expired singleshot timers couldn't be restarted

---
 include/hsmcpp/HsmEventDispatcherBase.hpp |  1 +
 src/HsmEventDispatcherBase.cpp            | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherBase.hpp b/include/hsmcpp/HsmEventDispatcherBase.hpp
index 005ccf3..02a84a2 100644
--- a/include/hsmcpp/HsmEventDispatcherBase.hpp
+++ b/include/hsmcpp/HsmEventDispatcherBase.hpp
@@ -32,6 +32,7 @@ protected:
         HandlerID_t handlerID = INVALID_HSM_DISPATCHER_HANDLER_ID;
         unsigned int intervalMs = 0;
         bool isSingleShot = false;
+        bool isRunning = false;  // FALSE for expired singleshot timers
     };
 
     struct EnqueuedEventInfo {
diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index e78b4a3..cdb20aa 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -168,6 +168,7 @@ void HsmEventDispatcherBase::startTimer(const HandlerID_t handlerID,
                 it->second.handlerID = handlerID;
                 it->second.intervalMs = intervalMs;
                 it->second.isSingleShot = isSingleShot;
+                it->second.isRunning = true;
 
                 // restart timer
                 stopTimerImpl(timerID);
@@ -178,6 +179,7 @@ void HsmEventDispatcherBase::startTimer(const HandlerID_t handlerID,
                 newTimer.handlerID = handlerID;
                 newTimer.intervalMs = intervalMs;
                 newTimer.isSingleShot = isSingleShot;
+                newTimer.isRunning = true;
 
                 mActiveTimers[timerID] = newTimer;
                 startTimerImpl(timerID, intervalMs, isSingleShot);
@@ -195,6 +197,7 @@ void HsmEventDispatcherBase::restartTimer(const TimerID_t timerID) {
 
     if (mActiveTimers.end() != it) {
         stopTimerImpl(timerID);
+        it->second.isRunning = true;
         startTimerImpl(timerID, it->second.intervalMs, it->second.isSingleShot);
     }
 }
@@ -215,7 +218,9 @@ void HsmEventDispatcherBase::stopTimer(const TimerID_t timerID) {
 bool HsmEventDispatcherBase::isTimerRunning(const TimerID_t timerID) {
     LockGuard lck(mHandlersSync);
 
-    return (mActiveTimers.find(timerID) != mActiveTimers.end());
+    auto it = mActiveTimers.find(timerID);
+
+    return ((mActiveTimers.end() != it) && (true == it->second.isRunning));
 }
 
 int HsmEventDispatcherBase::getNextHandlerID() {
@@ -270,7 +275,7 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID, c
         auto itTimer = mActiveTimers.find(timerID);
 
         // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::function has bool() operator
-        if ((mActiveTimers.end() != itTimer) && ((!isExpired) || (true == isExpired()))) {
+        if ((mActiveTimers.end() != itTimer) && (true == itTimer->second.isRunning) && ((!isExpired) || (true == isExpired()))) {
             HSM_TRACE_DEBUG("curTimer.handlerID=%d", itTimer->second.handlerID);
 
             if (INVALID_HSM_DISPATCHER_HANDLER_ID != itTimer->second.handlerID) {
@@ -278,9 +283,9 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID, c
 
                 nextIntervalMs = ((true == itTimer->second.isSingleShot) ? 0 : itTimer->second.intervalMs);
 
-                // Remove singleshot timer from active list
+                // Singleshot timer is not running anymore, but it can be restarted
                 if (0u == nextIntervalMs) {
-                    mActiveTimers.erase(itTimer);
+                    itTimer->second.isRunning = false;
                 }
 
                 timerHandler(timerID);
-- 
2.43.0


From cf35740d5a28c477d708564ed9c8388456aed54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:21 +0000
Subject: [PATCH 24/62] fix: crash when last reference to STD dispatcher was
 released by its own thread

---
 src/HsmEventDispatcherSTD.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index f159b7f..c5258af 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -34,8 +34,20 @@ std::shared_ptr<HsmEventDispatcherSTD> HsmEventDispatcherSTD::create(const size_
 }
 
 bool HsmEventDispatcherSTD::deleteSafe() {
-    // NOTE: just delete the instance. Calling destructor from any thread is safe
-    return true;
+    const std::thread::id currentThread = std::this_thread::get_id();
+    bool canDelete = true;
+
+    // NOTE: calling destructor is safe from any thread except dispatcher's own ones because they can't join themselves. This
+    //       could happen if the last reference to dispatcher was released while it was calling a handler
+    if ((currentThread == mDispatcherThread.get_id()) || (currentThread == mTimersThread.get_id())) {
+        canDelete = false;
+        std::thread([this]() {
+            // NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
+            delete this;
+        }).detach();
+    }
+
+    return canDelete;
 }
 
 void HsmEventDispatcherSTD::emitEvent(const HandlerID_t handlerID) {
-- 
2.43.0


From 5181d69720ed5076919f2289ec14d1e420e27d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:25 +0000
Subject: [PATCH 25/62] fix: release synchronous callers when HSM is released

---
 src/HsmImpl.cpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 3139ab5..54394c4 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -185,6 +185,17 @@ void HierarchicalStateMachine::Impl::release() {
         // wait for current dispatching to finish if it's ongoing
         mIsDispatching.wait(true);
     }
+
+    // events which are still pending will never be processed. release everyone who is waiting for them
+    {
+        HSM_SYNC_EVENTS_QUEUE();
+
+        for (auto it = mPendingEvents.begin(); it != mPendingEvents.end(); ++it) {
+            it->releaseLock();
+        }
+
+        mPendingEvents.clear();
+    }
 }
 
 void HierarchicalStateMachine::Impl::registerFailedTransitionCallback(HsmTransitionFailedCallback_t onFailedTransition) {
@@ -419,6 +430,7 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
         PendingEventInfo eventInfo;
+        bool wasAdded = false;
 
         eventInfo.id = event;
         eventInfo.args = std::make_shared<VariantVector_t>(std::move(args));
@@ -430,17 +442,26 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
         {
             HSM_SYNC_EVENTS_QUEUE();
 
-            if (true == clearQueue) {
-                clearPendingEvents();
-            }
+            // NOTE: must be checked under lock to make sure that nothing is added after release()
+            wasAdded = (false == mStopDispatching);
+
+            if (true == wasAdded) {
+                if (true == clearQueue) {
+                    clearPendingEvents();
+                }
 
-            mPendingEvents.emplace_back(eventInfo);
+                mPendingEvents.emplace_back(eventInfo);
+            }
         }
 
-        HSM_TRACE_DEBUG("transitionEx: emit");
-        dispatcherPtr->emitEvent(mEventsHandlerId);
+        if (true == wasAdded) {
+            HSM_TRACE_DEBUG("transitionEx: emit");
+            dispatcherPtr->emitEvent(mEventsHandlerId);
+        }
 
-        if (true == sync) {
+        if (false == wasAdded) {
+            HSM_TRACE_WARNING("HSM was already released");
+        } else if (true == sync) {
             HSM_TRACE_DEBUG("transitionEx: wait...");
             eventInfo.wait(timeoutMs);
             status = (HsmEventStatus::DONE_OK == *eventInfo.transitionStatus);
-- 
2.43.0


From 20caef7b1c0e7782f1147b89c3b9ad07bf7f091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 26/62] fix: don't call condition callbacks under lock in
 isTransitionPossible()

---
 src/HsmImpl.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 54394c4..bfe0e10 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -983,23 +983,28 @@ bool HierarchicalStateMachine::Impl::checkTransitionPossibility(const StateID_t
     EventID_t nextEvent = INVALID_HSM_EVENT_ID;
     bool possible = true;
 
+    std::list<EventID_t> pendingEvents;
+
     {
-        // NOTE: findTransitionTarget can be a bit heavy. possible optimization to reduce lock time is
-        //       to make a copy of mPendingEvents and work with it
+        // NOTE: condition callbacks are called by findTransitionTarget() and could also use HSM. so it can't be done under lock
         HSM_SYNC_EVENTS_QUEUE();
 
-        for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()) && (true == possible); ++it) {
-            nextEvent = it->id;
-            possibleTransitions.clear();
-            possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
+        for (const auto& pendingEvent : mPendingEvents) {
+            pendingEvents.emplace_back(pendingEvent.id);
+        }
+    }
 
-            if (true == possible) {
-                if (false == possibleTransitions.empty()) {
-                    currentState = possibleTransitions.front().destinationState;
-                } else {
-                    possible = false;
-                    break;
-                }
+    for (auto it = pendingEvents.begin(); (it != pendingEvents.end()) && (true == possible); ++it) {
+        nextEvent = *it;
+        possibleTransitions.clear();
+        possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
+
+        if (true == possible) {
+            if (false == possibleTransitions.empty()) {
+                currentState = possibleTransitions.front().destinationState;
+            } else {
+                possible = false;
+                break;
             }
         }
     }
-- 
2.43.0


From 2096d8920c5633c87c927e328cf159064bc00be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:35 +0000
Subject: [PATCH 27/62] fix: concurrently registered handlers could get the
 same id

---
 src/HsmEventDispatcherBase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index cdb20aa..bdafd78 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -224,6 +224,8 @@ bool HsmEventDispatcherBase::isTimerRunning(const TimerID_t timerID) {
 }
 
 int HsmEventDispatcherBase::getNextHandlerID() {
+    LockGuard lck(mHandlersSync);
+
     return mNextHandlerId++;
 }
 
-- 
2.43.0


From ff1b7c74640b86db368c4c3d9981d10fe98ac23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 28/62] fix: GLib dispatcher: timer which is restarted while
 its previous expiration is being handled was lost or fired early

---
 src/HsmEventDispatcherGLib.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 52443cd..c595227 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -186,18 +186,21 @@ gboolean HsmEventDispatcherGLib::onTimerEvent(const TimerData_t* timerData) {
     bool restartTimer = false;
 
     if (nullptr != timerData) {
-        restartTimer = (timerData->first->handleTimerEvent(timerData->second) > 0);
+        GSource* currentSource = g_main_current_source();
+
+        // NOTE: timer could have been stopped or restarted while its event was waiting to be handled
+        restartTimer = (timerData->first->handleTimerEvent(timerData->second, [currentSource]() {
+            return (FALSE == g_source_is_destroyed(currentSource));
+        }) > 0);
 
         if (false == restartTimer) {
             CriticalSection lckExpired(timerData->first->mRunningTimersSync);
             auto itTimer = timerData->first->mNativeTimerHandlers.find(timerData->second);
 
-            if (timerData->first->mNativeTimerHandlers.end() != itTimer) {
+            // NOTE: if timer was started again there will be a different source
+            if ((timerData->first->mNativeTimerHandlers.end() != itTimer) && (currentSource == itTimer->second)) {
                 g_source_unref(itTimer->second);
                 timerData->first->mNativeTimerHandlers.erase(itTimer);
-            } else {
-                HSM_TRACE_DEF();
-                HSM_TRACE_ERROR("unexpected error. timer not found");
             }
         }
     }
-- 
2.43.0


From e369024dbf5e40c0624f21765a8605bb38adec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 29/62] fix: GLibmm dispatcher: timer which is restarted while
 its previous expiration is being handled was lost or fired early

---
 src/HsmEventDispatcherGLibmm.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 0c1081e..529ac06 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -151,16 +151,19 @@ void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
 
 bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID) {
     HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
-    const bool restartTimer = (handleTimerEvent(timerID) > 0);
+    GSource* currentSource = g_main_current_source();
+    // NOTE: timer could have been stopped or restarted while its event was waiting to be handled
+    const auto isCurrentTimer = [currentSource]() {
+        return (FALSE == g_source_is_destroyed(currentSource));
+    };
+    const bool restartTimer = (handleTimerEvent(timerID, isCurrentTimer) > 0);
 
     if (false == restartTimer) {
         CriticalSection cs(mRunningTimersSync);
-        auto itTimer = mNativeTimerHandlers.find(timerID);
 
-        if (mNativeTimerHandlers.end() != itTimer) {
-            mNativeTimerHandlers.erase(itTimer);
-        } else {
-            HSM_TRACE_ERROR("unexpected error. timer not found");
+        // NOTE: if timer was started again there will be a different connection
+        if (true == isCurrentTimer()) {
+            (void)mNativeTimerHandlers.erase(timerID);
         }
     }
 
-- 
2.43.0


From a98733d4367f8f797313c257ec6ccfc177667736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 30/62] fix: GLibmm dispatcher: crash when event or action is
 enqueued before start() or after stop()

---
 src/HsmEventDispatcherGLibmm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 529ac06..632ee92 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -146,7 +146,10 @@ void HsmEventDispatcherGLibmm::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
-    mDispatcher->emit();
+    // NOTE: dispatcher could be not started yet or already stopped
+    if (mDispatcher) {
+        mDispatcher->emit();
+    }
 }
 
 bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID) {
-- 
2.43.0


From 25c7d6f2ba9291f38c51b02fd88f2523a855dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 31/62] fix: Arduino dispatcher: periodic timers fired only
 once

---
 src/HsmEventDispatcherArduino.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherArduino.cpp b/src/HsmEventDispatcherArduino.cpp
index 513ce13..2b11aa4 100644
--- a/src/HsmEventDispatcherArduino.cpp
+++ b/src/HsmEventDispatcherArduino.cpp
@@ -105,7 +105,7 @@ void HsmEventDispatcherArduino::handleTimers() {
 
         while (it != mRunningTimers.end()) {
             if (curTime >= it->second.elapseAfter) {
-                if (true == handleTimerEvent(it->first)) {
+                if (handleTimerEvent(it->first) > 0u) {
                     // fast way to check timer interval without searching the map
                     it->second.elapseAfter = it->second.elapseAfter - it->second.startedAt;
                     it->second.startedAt = millis();
-- 
2.43.0


From 09da067dffa05878202d217fa7e94648b8d40cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 32/62] fix: Qt dispatcher: timer started from another thread
 could not be stopped or restarted until it was created

---
 src/HsmEventDispatcherQt.cpp | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 4b79444..30427a6 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -95,37 +95,25 @@ void HsmEventDispatcherQt::startTimerImpl(const TimerID_t timerID, const unsigne
                               SC2INT(timerID),
                               intervalMs,
                               BOOL2INT(isSingleShot));
+    CriticalSection cs(mRunningTimersSync);
     auto it = mNativeTimerHandlers.find(timerID);
 
     if (mNativeTimerHandlers.end() == it) {
-        auto funcCreateTimer = [=]() {
-            QTimer* newTimer = new QTimer(this);
-
-            newTimer->setProperty("hsmid", QVariant(timerID));
-            connect(newTimer, SIGNAL(timeout()), this, SLOT(onTimerEvent()));
-            newTimer->setSingleShot(isSingleShot);
-            newTimer->start(intervalMs);
-
-            CriticalSection cs(mRunningTimersSync);
-            mNativeTimerHandlers[timerID] = newTimer;
-        };
-
         // NOTE: need to make sure that QTimer is started only from Qt main thread
-        QThread* callerThread = QThread::currentThread();
-
-        if (qApp->thread() != callerThread) {
-            QTimer* mainthreadTimer = new QTimer();
+        const bool isMainThread = (qApp->thread() == QThread::currentThread());
+        QTimer* newTimer = new QTimer((true == isMainThread) ? this : nullptr);
 
-            mainthreadTimer->moveToThread(qApp->thread());
-            mainthreadTimer->setSingleShot(true);
+        newTimer->setProperty("hsmid", QVariant(timerID));
+        newTimer->setSingleShot(isSingleShot);
+        newTimer->setInterval(static_cast<int>(intervalMs));
+        connect(newTimer, SIGNAL(timeout()), this, SLOT(onTimerEvent()));
+        mNativeTimerHandlers[timerID] = newTimer;
 
-            QObject::connect(mainthreadTimer, &QTimer::timeout, [=]() {
-                funcCreateTimer();
-                mainthreadTimer->deleteLater();
-            });
-            QMetaObject::invokeMethod(mainthreadTimer, "start", Qt::QueuedConnection, Q_ARG(int, 0));
+        if (true == isMainThread) {
+            newTimer->start();
         } else {
-            funcCreateTimer();
+            newTimer->moveToThread(qApp->thread());
+            QMetaObject::invokeMethod(newTimer, "start", Qt::QueuedConnection);
         }
     } else {
         HSM_TRACE_ERROR("timer with id=%d already exists", timerID);
-- 
2.43.0


From 35d10235ba9e0a864a8fcb44f595a9e6368fa957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 33/62] fix: Qt dispatcher: already stopped or restarted timer
 could still fire

---
 src/HsmEventDispatcherQt.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 30427a6..c3170a6 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -139,16 +139,23 @@ void HsmEventDispatcherQt::onTimerEvent() {
 
         HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
 
-        if (0 == handleTimerEvent(timerID)) {
+        // NOTE: timers are deleted by the main loop. until then they could still expire
+        const auto isCurrentTimer = [this, timerID, ptrTimer]() {
+            CriticalSection cs(mRunningTimersSync);
+            auto itTimer = mNativeTimerHandlers.find(timerID);
+
+            return ((mNativeTimerHandlers.end() != itTimer) && (ptrTimer == itTimer->second));
+        };
+
+        if (0 == handleTimerEvent(timerID, isCurrentTimer)) {
             // delete timer since it doesn't need to be restarted
             CriticalSection cs(mRunningTimersSync);
             auto itTimer = mNativeTimerHandlers.find(timerID);
 
-            if (mNativeTimerHandlers.end() != itTimer) {
+            // NOTE: if timer was started again there will be a different native timer
+            if ((mNativeTimerHandlers.end() != itTimer) && (ptrTimer == itTimer->second)) {
                 itTimer->second->deleteLater();
                 mNativeTimerHandlers.erase(itTimer);
-            } else {
-                HSM_TRACE_ERROR("unexpected error. timer not found");
             }
         }
     }
-- 
2.43.0


From e45bf9203b6673b4887474fca714bd4337edda28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 34/62] fix: GLib dispatcher: sending many events while main
 loop is not running blocked the sender

---
 src/HsmEventDispatcherGLib.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index c595227..77d0fb6 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -3,6 +3,7 @@
 
 #include "hsmcpp/HsmEventDispatcherGLib.hpp"
 
+#include <fcntl.h>
 #include <unistd.h>
 
 #include "hsmcpp/logging.hpp"
@@ -68,6 +69,8 @@ bool HsmEventDispatcherGLib::start() {
         int rc = pipe(mPipeFD);
 
         if (0 == rc) {
+            // NOTE: sending thread must not wait for free space in the pipe. it could be the one who runs the main loop
+            (void)fcntl(mPipeFD[1], F_SETFL, fcntl(mPipeFD[1], F_GETFL) | O_NONBLOCK);
             mReadChannel = g_io_channel_unix_new(mPipeFD[0]);
 
             if (nullptr != mReadChannel) {
@@ -217,7 +220,7 @@ void HsmEventDispatcherGLib::notifyDispatcherAboutEvent() {
     char dummy = 1;
 
     // we just need to trigger the callback. there is no need to pass any real data there
-    // TODO: should we check for result?
+    // if pipe is full then result can be ignored because there are already notifications which were not handled yet
     write(mPipeFD[1], &dummy, sizeof(dummy));
 }
 
-- 
2.43.0


From 0570a18a1418643c5654d2634ef0ea15b48db94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 35/62] fix: GLib dispatcher with a custom context was deleted
 by the default main context

---
 src/HsmEventDispatcherGLib.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 77d0fb6..358df3d 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -41,7 +41,11 @@ std::shared_ptr<HsmEventDispatcherGLib> HsmEventDispatcherGLib::create(GMainCont
 }
 
 bool HsmEventDispatcherGLib::deleteSafe() {
-    g_idle_add(
+    // NOTE: must be deleted by the main loop which uses this dispatcher
+    GSource* idleSource = g_idle_source_new();
+
+    g_source_set_callback(
+        idleSource,
         // cppcheck-suppress misra-c2012-13.1 ; false-positive. this is a functor, not initializer list
         [](void* data) {
             if (nullptr != data) {
@@ -55,7 +59,10 @@ bool HsmEventDispatcherGLib::deleteSafe() {
             // cppcheck-suppress misra-c2012-15.5
             return G_SOURCE_REMOVE;
         },
-        this);
+        this,
+        nullptr);
+    g_source_attach(idleSource, mContext);
+    g_source_unref(idleSource);
 
     return false;
 }
-- 
2.43.0


From 345289a24cda81258750c21f1952484023485c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 36/62] fix: GLibmm dispatcher: sending many events while main
 loop is not running blocked the sender

---
 include/hsmcpp/HsmEventDispatcherGLibmm.hpp |  3 +++
 src/HsmEventDispatcherGLibmm.cpp            | 12 ++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
index 3070855..968ee5c 100644
--- a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
@@ -6,6 +6,7 @@
 
 #include <glibmm.h>
 
+#include <atomic>
 #include <memory>
 
 #include "HsmEventDispatcherBase.hpp"
@@ -107,11 +108,13 @@ protected:
 
     void notifyDispatcherAboutEvent() override;
     bool onTimerEvent(const TimerID_t timerID);
+    void onDispatcherEvent();
 
 private:
     Glib::RefPtr<Glib::MainContext> mMainContext;
     std::unique_ptr<Glib::Dispatcher> mDispatcher;
     sigc::connection mDispatcherConnection;
+    std::atomic<bool> mNotificationPending{false};
     std::map<TimerID_t, sigc::connection> mNativeTimerHandlers; // protected by mRunningTimersSync
 };
 
diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 632ee92..6ddf9c3 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -75,12 +75,13 @@ bool HsmEventDispatcherGLibmm::start() {
 
     if (mMainContext) {
         if (!mDispatcher) {
+            mNotificationPending = false;
             mDispatcher.reset(new Glib::Dispatcher(mMainContext));
 
             if (mDispatcher) {
                 if (mDispatcherConnection.connected() == false) {
                     mDispatcherConnection =
-                        mDispatcher->connect(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::dispatchPendingEvents));
+                        mDispatcher->connect(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::onDispatcherEvent));
                 }
 
                 result = true;
@@ -147,11 +148,18 @@ void HsmEventDispatcherGLibmm::stopTimerImpl(const TimerID_t timerID) {
 
 void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
     // NOTE: dispatcher could be not started yet or already stopped
-    if (mDispatcher) {
+    // NOTE: Glib::Dispatcher blocks the sender if there are too many notifications which were not handled yet.
+    //       pending one will handle everything that was enqueued before it
+    if (mDispatcher && (false == mNotificationPending.exchange(true))) {
         mDispatcher->emit();
     }
 }
 
+void HsmEventDispatcherGLibmm::onDispatcherEvent() {
+    mNotificationPending = false;
+    dispatchPendingEvents();
+}
+
 bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID) {
     HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
     GSource* currentSource = g_main_current_source();
-- 
2.43.0


From 54ac97ffb40f64abed1498f6364669bf33ba8c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:19 +0000
Subject: [PATCH 37/62] fix: GLib dispatcher: stop() closed the pipe while
 another thread could be writing to it

---
 src/HsmEventDispatcherGLib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 358df3d..f9f6b8a 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -129,6 +129,9 @@ void HsmEventDispatcherGLib::stop() {
     }
 
     if (nullptr != mReadChannel) {
+        // NOTE: events could be sent from other threads
+        std::lock_guard<std::mutex> lck(mPipeSync);
+
         g_io_channel_unref(mReadChannel);
         mReadChannel = nullptr;
         close(mPipeFD[0]);
-- 
2.43.0


From 77f06cb2580e445999b3e4ee64dccadf39cb5d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 38/62] fix: GLibmm dispatcher: crash when stop() is called
 while another thread is sending an event

---
 include/hsmcpp/HsmEventDispatcherGLibmm.hpp |  4 +++-
 src/HsmEventDispatcherGLibmm.cpp            | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
index 968ee5c..f1c04fa 100644
--- a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
@@ -10,6 +10,7 @@
 #include <memory>
 
 #include "HsmEventDispatcherBase.hpp"
+#include "os/Mutex.hpp"
 
 namespace hsmcpp {
 
@@ -112,7 +113,8 @@ protected:
 
 private:
     Glib::RefPtr<Glib::MainContext> mMainContext;
-    std::unique_ptr<Glib::Dispatcher> mDispatcher;
+    Mutex mDispatcherSync;
+    std::unique_ptr<Glib::Dispatcher> mDispatcher;  // protected by mDispatcherSync
     sigc::connection mDispatcherConnection;
     std::atomic<bool> mNotificationPending{false};
     std::map<TimerID_t, sigc::connection> mNativeTimerHandlers; // protected by mRunningTimersSync
diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 6ddf9c3..61409ae 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -7,6 +7,7 @@
 
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -76,7 +77,10 @@ bool HsmEventDispatcherGLibmm::start() {
     if (mMainContext) {
         if (!mDispatcher) {
             mNotificationPending = false;
-            mDispatcher.reset(new Glib::Dispatcher(mMainContext));
+            {
+                LockGuard lck(mDispatcherSync);
+                mDispatcher.reset(new Glib::Dispatcher(mMainContext));
+            }
 
             if (mDispatcher) {
                 if (mDispatcherConnection.connected() == false) {
@@ -105,6 +109,9 @@ void HsmEventDispatcherGLibmm::stop() {
 
     unregisterAllTimerHandlers();
     unregisterAllEventHandlers();
+
+    // NOTE: events could be sent from other threads
+    LockGuard lck(mDispatcherSync);
     mDispatcher.reset();
 }
 
@@ -150,6 +157,8 @@ void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
     // NOTE: dispatcher could be not started yet or already stopped
     // NOTE: Glib::Dispatcher blocks the sender if there are too many notifications which were not handled yet.
     //       pending one will handle everything that was enqueued before it
+    LockGuard lck(mDispatcherSync);
+
     if (mDispatcher && (false == mNotificationPending.exchange(true))) {
         mDispatcher->emit();
     }
-- 
2.43.0


From 30f6c717ff7b29c3fe56129ab83991ccd5b4806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 39/62] fix: Variant: negative numbers were greater than
 unsigned ones or equal to them

---
 include/hsmcpp/variant.hpp |  3 +++
 src/variant.cpp            | 25 +++++++++++++++++++------
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 41697c8..46c9e65 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -659,6 +659,9 @@ private:
 
     bool isSameObject(const Variant& val) const;
 
+    // returns 0 if both integer values are equal, -1 if current value is less and 1 if it's greater
+    int compareIntegers(const Variant& val) const;
+
     template <typename T>
     void assign(const T& v, const Type t);
 
diff --git a/src/variant.cpp b/src/variant.cpp
index a249742..f8cc309 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -172,10 +172,8 @@ bool Variant::operator>(const Variant& val) const {
         if (isNumeric() && val.isNumeric()) {
             if ((Type::DOUBLE == type) || (Type::DOUBLE == val.type)) {
                 isGreater = toDouble() > val.toDouble();
-            } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {
-                isGreater = toUInt64() > val.toUInt64();
             } else {
-                isGreater = toInt64() > val.toInt64();
+                isGreater = (compareIntegers(val) > 0);
             }
         } else if (type == val.type) {
             isGreater = (1 == compareOperator(data.get(), val.data.get()));
@@ -210,10 +208,8 @@ bool Variant::operator==(const Variant& val) const {
                     // compare with precision for double
                     // cppcheck-suppress misra-c2012-10.4 : false positive. both operands have type double
                     equal = (std::abs(toDouble() - val.toDouble()) < comparePrecision);
-                } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {
-                    equal = (toUInt64() == val.toUInt64());
                 } else {
-                    equal = (toInt64() == val.toInt64());
+                    equal = (0 == compareIntegers(val));
                 }
             } else if (val.type == type) {
                 equal = (0 == compareOperator(data.get(), val.data.get()));
@@ -778,6 +774,23 @@ bool Variant::isSameObject(const Variant& val) const {
     return ((val.data.get() == data.get()) && data);
 }
 
+int Variant::compareIntegers(const Variant& val) const {
+    const bool isNegative = (isSignedNumeric() && (toInt64() < 0));
+    const bool isOtherNegative = (val.isSignedNumeric() && (val.toInt64() < 0));
+    int res = 0;
+
+    if (isNegative != isOtherNegative) {
+        res = (isNegative ? -1 : 1);
+    } else if (toUInt64() != val.toUInt64()) {
+        // NOTE: order of values with the same sign doesn't change when they are converted to unsigned
+        res = ((toUInt64() > val.toUInt64()) ? 1 : -1);
+    } else {
+        // do nothing
+    }
+
+    return res;
+}
+
 void Variant::freeMemory() {
     data.reset();
     type = Type::UNKNOWN;
-- 
2.43.0


From ae372e19d4b85e95c8f2a77d4e2bc4c4c8125b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 40/62] fix: Variant: infinite values were not equal to
 themselves and almost equal ones were both equal and greater

---
 src/variant.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index f8cc309..c56e4a1 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -3,6 +3,7 @@
 
 #include "hsmcpp/variant.hpp"
 
+#include <cmath>
 #include <cstring>
 
 #include "hsmcpp/os/os.hpp"
@@ -33,6 +34,14 @@
 
 namespace hsmcpp {
 
+// compare with precision for double (infinite values have to be compared directly)
+static bool isEqualDouble(const double left, const double right) {
+    constexpr double comparePrecision = 0.00000001;
+
+    // cppcheck-suppress misra-c2012-10.4 : false positive. both operands have type double
+    return ((left == right) || (std::abs(left - right) < comparePrecision));
+}
+
 // =================================================================================================================
 // make()
 IMPL_MAKE(int8_t)
@@ -171,7 +180,7 @@ bool Variant::operator>(const Variant& val) const {
     if ((data != val.data) && (data) && (val.data)) {
         if (isNumeric() && val.isNumeric()) {
             if ((Type::DOUBLE == type) || (Type::DOUBLE == val.type)) {
-                isGreater = toDouble() > val.toDouble();
+                isGreater = (toDouble() > val.toDouble()) && (false == isEqualDouble(toDouble(), val.toDouble()));
             } else {
                 isGreater = (compareIntegers(val) > 0);
             }
@@ -198,16 +207,13 @@ bool Variant::operator<=(const Variant& val) const {
 }
 
 bool Variant::operator==(const Variant& val) const {
-    constexpr double comparePrecision = 0.00000001;
     bool equal = false;
 
     if (data != val.data) {
         if ((data) && (val.data)) {
             if (isNumeric() && val.isNumeric()) {
                 if ((Type::DOUBLE == type) || (Type::DOUBLE == val.type)) {
-                    // compare with precision for double
-                    // cppcheck-suppress misra-c2012-10.4 : false positive. both operands have type double
-                    equal = (std::abs(toDouble() - val.toDouble()) < comparePrecision);
+                    equal = isEqualDouble(toDouble(), val.toDouble());
                 } else {
                     equal = (0 == compareIntegers(val));
                 }
-- 
2.43.0


From 3af90300a61539738c895587baba16b1ba3bee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 41/62] fix: Variant: values of incompatible types were less
 than each other which broke maps with keys of different types

---
 include/hsmcpp/variant.hpp | 4 ++--
 src/variant.cpp            | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 46c9e65..5380dfe 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -635,7 +635,7 @@ public:
 
     /**
      * @brief Checks if this Variant object is less than another Variant object.
-     * @details Impelemented using operator!=() and operator>().
+     * @details Impelemented using operator>(). Values which can't be compared with each other are ordered by their type.
      *
      * @param val The Variant object to compare to.
      * @return true if this object is less than val, false otherwise.
@@ -644,7 +644,7 @@ public:
 
     /**
      * @brief Checks if this Variant object is less than or equal to another Variant object.
-     * @details Impelemented using operator==() and operator>().
+     * @details Impelemented using operator==() and operator<().
      *
      * @param val The Variant object to compare to.
      * @return true if this object is less than or equal to val, false otherwise.
diff --git a/src/variant.cpp b/src/variant.cpp
index c56e4a1..57becc4 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -199,11 +199,14 @@ bool Variant::operator>=(const Variant& val) const {
 }
 
 bool Variant::operator<(const Variant& val) const {
-    return (*this != val) && !(*this > val);
+    const bool isComparable = ((isNumeric() && val.isNumeric()) || (type == val.type));
+
+    // NOTE: values which can't be compared are ordered by type. otherwise they can't be used as keys of the same map
+    return (isComparable ? (val > *this) : (type < val.type));
 }
 
 bool Variant::operator<=(const Variant& val) const {
-    return (*this == val) || !(*this > val);
+    return (*this == val) || (*this < val);
 }
 
 bool Variant::operator==(const Variant& val) const {
-- 
2.43.0


From 9461e7b6793f2bd6aabb1cebc548f91b8028bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 42/62] fix: Variant: comparing values of different custom
 types accessed one of them as if it was the other one

---
 include/hsmcpp/variant.hpp | 4 ++--
 src/variant.cpp            | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 5380dfe..97d6104 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -89,7 +89,7 @@ private:
      */
     // using MemoryHandlerFunc_t = std::function<void*(void*, const bool)>;
     using MemoryAllocatorFunc_t = std::function<std::shared_ptr<void>(const void*)>;
-    using CompareFunc_t = std::function<int(const void*, const void*)>;
+    using CompareFunc_t = int (*)(const void*, const void*);
 
 public:
     /**
@@ -677,7 +677,7 @@ private:
     Type type = Type::UNKNOWN;
     std::shared_ptr<void> data;
     MemoryAllocatorFunc_t memoryAllocator;
-    CompareFunc_t compareOperator;
+    CompareFunc_t compareOperator = nullptr;  // also identifies the stored type
 };
 
 template <typename T>
diff --git a/src/variant.cpp b/src/variant.cpp
index 57becc4..88fbae8 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -157,7 +157,7 @@ Variant& Variant::operator=(Variant&& v) noexcept {
         data = std::move(v.data);
         type = v.type;
         memoryAllocator = std::move(v.memoryAllocator);
-        compareOperator = std::move(v.compareOperator);
+        compareOperator = v.compareOperator;
 
         v.type = Type::UNKNOWN;
     }
@@ -184,7 +184,7 @@ bool Variant::operator>(const Variant& val) const {
             } else {
                 isGreater = (compareIntegers(val) > 0);
             }
-        } else if (type == val.type) {
+        } else if ((type == val.type) && (compareOperator == val.compareOperator)) {
             isGreater = (1 == compareOperator(data.get(), val.data.get()));
         } else {
             // do nothing
@@ -220,7 +220,7 @@ bool Variant::operator==(const Variant& val) const {
                 } else {
                     equal = (0 == compareIntegers(val));
                 }
-            } else if (val.type == type) {
+            } else if ((val.type == type) && (compareOperator == val.compareOperator)) {
                 equal = (0 == compareOperator(data.get(), val.data.get()));
             } else {
                 // do nothing
-- 
2.43.0


From 9ceeb82cb8533644fd13862bf2ebb3864410b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 43/62] fix: Variant: assigning part of the current value to
 the variant itself accessed released memory

---
 include/hsmcpp/variant.hpp | 3 +++
 src/variant.cpp            | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 97d6104..ee2f78f 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -867,6 +867,9 @@ Variant::Variant(const T& v, const Type t) {
 
 template <typename T>
 void Variant::assign(const T& v, const Type t) {
+    // NOTE: assigned value could be part of the current one
+    const std::shared_ptr<void> oldData = data;
+
     freeMemory();
     createMemoryAllocator<T>();
     type = t;
diff --git a/src/variant.cpp b/src/variant.cpp
index 88fbae8..9be6ff2 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -139,6 +139,9 @@ Variant& Variant::operator=(const char* v) {
 
 Variant& Variant::operator=(const Variant& v) {
     if (false == isSameObject(v)) {
+        // NOTE: assigned object could be part of the current value
+        const std::shared_ptr<void> oldData = data;
+
         if ((Type::UNKNOWN != v.type) && (v.memoryAllocator)) {
             data = v.memoryAllocator(v.data.get());
             type = v.type;
@@ -154,6 +157,9 @@ Variant& Variant::operator=(const Variant& v) {
 
 Variant& Variant::operator=(Variant&& v) noexcept {
     if (false == isSameObject(v)) {
+        // NOTE: assigned object could be part of the current value
+        const std::shared_ptr<void> oldData = data;
+
         data = std::move(v.data);
         type = v.type;
         memoryAllocator = std::move(v.memoryAllocator);
-- 
2.43.0


From 0834384a60f77732861cf0572574a2766c0d86b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 44/62] fix: Variant: toBool() returned false for numbers
 between -1 and 1

---
 src/variant.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index 9be6ff2..2b18ec0 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -634,7 +634,7 @@ bool Variant::toBool() const {
 
         if (strValue != "true") {
             HSM_TRY {
-                result = (0 != std::stoll(strValue));
+                result = (0.0 != std::stod(strValue));
             }
             HSM_CATCH(...) {
                 // return empty value
@@ -642,6 +642,8 @@ bool Variant::toBool() const {
         } else {
             result = true;
         }
+    } else if (Type::DOUBLE == type) {
+        result = (0.0 != *value<double>());
     } else {
         result = (0 != toInt64());
     }
-- 
2.43.0


From f3595e42290dbca925e8e153b507fe2768f7840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 45/62] fix: scxml2gen: generated code for history with a
 default transition did not compile

---
 tools/scxml2gen/scxml2gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index aaa3a73..4f1c31b 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -575,12 +575,12 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
 
                             if ('transitions' in curSubstate) and (len(curSubstate['transitions']) > 0):
                                 defaultTransition = curSubstate['transitions'][0]
-                                defaultTarget = f", {getStateEnumValue(genVars, defaultTransition['target'])})"
+                                defaultTarget = f", {getStateEnumValue(genVars, defaultTransition['target'])}"
                                 if 'callback' in defaultTransition:
                                     if defaultTransition['callback'] not in definedCallbacks:
                                         genVars["HSM_TRANSITION_ACTIONS"].add(prepareHsmcppTransitionCallbackDeclaration(defaultTransition['callback']))
                                         definedCallbacks.append(defaultTransition['callback'])
-                                    historyCallback += f", &{genVars['CLASS_NAME']}::{defaultTransition['callback']}"
+                                    historyCallback += f", this, {prepareTransitionCallbackPtr(defaultTransition['callback'])}"
 
                             genVars["REGISTER_SUBSTATES"].append(f"registerHistory({getStateEnumValue(genVars, curState['id'])}, " +
                                                                  f"{getStateEnumValue(genVars, curSubstate['id'])}, " +
-- 
2.43.0


From 1fa9a949c6ef2625052d82bf7171f95c9f9de7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 46/62] fix: scxml2gen: xi:include on the top level of a
 document failed with an exception

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 4f1c31b..17cccdf 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -206,7 +206,7 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         if ('id' in parentElement.attrib) and (xmlFind(parentElement, "state") is None) and (len(list(xmlFindAll(parentElement, "include"))) == 1):
                             newPrefix += parentElement.attrib['id'] + "__"
                         else:
-                            print(f"WARNING: parent state({parentElement.attrib['id']}) of xi:include has other child states. State names will not be prefixed")
+                            print(f"WARNING: parent state({parentElement.attrib.get('id', getTag(parentElement.tag))}) of xi:include has other child states. State names will not be prefixed")
                         subScxml = parseScxml(includePath, newPrefix)
 
                         if subScxml is not None:
-- 
2.43.0


From 43cb2d99c453221e42f5d2f3cb453fd82b8b075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 47/62] fix: scxml2gen: spaces around arguments of state
 actions duplicated timers, commas inside of strings were changed

---
 tools/scxml2gen/scxml2gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 17cccdf..91d9234 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -25,7 +25,8 @@ def isStateActionDefinition(identifier):
     if m is not None:
         isAction = True
         actionFunc = m.group(1).strip(' \r\n\t')
-        actionArgs = m.group(2).strip(' \r\n\t').split(',')
+        # commas inside of string literals do not separate arguments
+        actionArgs = [arg.strip(' \r\n\t') for arg in re.split(r',(?=(?:[^"]*"[^"]*")*[^"]*$)', m.group(2))]
     return (isAction, actionFunc, actionArgs)
 
 
-- 
2.43.0


From 589da35d39ede15103b2a701dffb545a458efb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 48/62] fix: scxml2gen: events which are only used by final
 states or state actions were not declared

---
 tools/scxml2gen/scxml2gen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 91d9234..571ef7b 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -656,6 +656,8 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
                     for curAction in curState['actions'][actionTrigger]:
                         if '_timer' in curAction['action']:
                             genVars["ENUM_TIMERS_ITEM"].add(curAction['args'][0])
+                        else:
+                            genVars["ENUM_EVENTS_ITEM"].add(curAction['args'][0])
                         stateId = f"{getStateEnumValue(genVars, curState['id'])}"
                         genVars["REGISTER_ACTIONS"].append(prepareRegisterActionFunction(stateId,
                                                                                          genVars['ENUM_EVENTS'],
@@ -671,6 +673,7 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
             if (curState["type"] != STATETYPE_HISTORY):
                 if curState["type"] == STATETYPE_FINAL:
                     if "final_event" in curState:
+                        genVars["ENUM_EVENTS_ITEM"].add(curState['final_event'])
                         finalEventID = f"{getEventEnumValue(genVars, curState['final_event'])}"
                     else:
                         finalEventID = "hsmcpp::INVALID_HSM_EVENT_ID"
-- 
2.43.0


From c1e844ff348d48a2be2b7a5bf1e0deace8512c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 49/62] fix: scxml2gen: default transition of a history state
 was ignored when it has no event

---
 tools/scxml2gen/scxml2gen.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 571ef7b..61cca20 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -253,9 +253,11 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         newState["actions"] = actions
 
                     for curTransition in xmlFindAll(curState, "transition"):
-                        if "event" in curTransition.attrib:
-                            newTransition = {"event": curTransition.attrib["event"]}
-                            validateIdentifier(newTransition["event"])
+                        # default transition of a history state doesn't need an event
+                        if ("event" in curTransition.attrib) or (newState["type"] == STATETYPE_HISTORY):
+                            newTransition = {"event": curTransition.attrib.get("event", "")}
+                            if len(newTransition["event"]) > 0:
+                                validateIdentifier(newTransition["event"])
 
                             if "target" in curTransition.attrib:
                                 newTransition["target"] = namePrefix + curTransition.attrib["target"]
@@ -825,7 +827,11 @@ def prepareTransitionHighlight(highlight, highlightColorActive, stateData, curTr
 
 
 def preparePlantumlTransition(offset, fromState, toState, curTransition, highlightTransition, highlightTransitionEvent):
-    plantumlTransition = f"{offset}{fromState} -{highlightTransition}-> {toState}: {highlightTransitionEvent}{curTransition['event']}{highlightTransitionEvent}"
+    plantumlTransition = f"{offset}{fromState} -{highlightTransition}-> {toState}"
+    if len(curTransition['event']) > 0:
+        plantumlTransition += f": {highlightTransitionEvent}{curTransition['event']}{highlightTransitionEvent}"
+    elif ("condition" in curTransition) or ("callback" in curTransition):
+        plantumlTransition += ": "
 
     if "condition" in curTransition:
         plantumlTransition += f"\\n{highlightTransitionEvent}[{curTransition['condition'][0]} is {curTransition['condition'][1]}]{highlightTransitionEvent}"
-- 
2.43.0


From 611fc0d9e385571ae712fd9b7b6acf1f7c2ae117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 50/62] fix: scxml2gen: history of a parallel state was
 registered as a regular state

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 61cca20..81d951c 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -233,7 +233,7 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         newState["type"] = STATETYPE_HISTORY
                         newState["history_type"] = curState.attrib["type"]
 
-                    if (getTag(parentElement.tag) == "parallel") or (newState['id'] in initialStates):
+                    if (newState["type"] != STATETYPE_HISTORY) and ((getTag(parentElement.tag) == "parallel") or (newState['id'] in initialStates)):
                         newState["type"] = STATETYPE_INITIAL
                         if newState['id'] in initialStatesTransitions:
                             newState["initial_state_transitions"] = initialStatesTransitions[newState['id']]
-- 
2.43.0


From 6b026231507d08bbf70a68cf2a7d72a78202c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:17 +0000
Subject: [PATCH 51/62] fix: scxml2gen: states whose names start with the name
 of a final state were missing in diagrams

---
 tools/scxml2gen/scxml2gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 81d951c..a4391ab 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -1067,7 +1067,8 @@ def generatePlantumlInMemory(hsm, left2right=False, highlight=None):
         finalStates += stateFinalStates
 
     for finalID in finalStates:
-        plantuml = plantuml.replace(f"--> {finalID}", "--> [*]")
+        # must not affect states which have finalID as a prefix of their name
+        plantuml = re.sub(rf"-> {re.escape(finalID)}(?!\w)", "-> [*]", plantuml)
 
     plantuml += "\n@enduml"
     return plantuml
-- 
2.43.0


From 1ebe239c1d73138251391ff4c4a2e34bdb866ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 52/62] fix: names of states and events were missing in debug
 log when debug traces are disabled

---
 src/HsmImpl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index bfe0e10..bddf536 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1881,7 +1881,10 @@ void HierarchicalStateMachine::Impl::dumpActiveStates() {
 
     HSM_TRACE_DEBUG("active states: <%s>", temp.c_str());
 }
+#endif  // HSM_DISABLE_DEBUG_TRACES
 
+// NOTE: names are also needed for debug log
+#if !defined(HSM_DISABLE_DEBUG_TRACES) || defined(HSMBUILD_DEBUGGING)
 std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state) {
     std::string res;
   #ifndef HSM_DISABLE_THREADSAFETY
@@ -1907,7 +1910,7 @@ std::string HierarchicalStateMachine::Impl::getEventName(const EventID_t event)
 
     return res;
 }
-#else   // HSM_DISABLE_DEBUG_TRACES
+#else   // !defined(HSM_DISABLE_DEBUG_TRACES) || defined(HSMBUILD_DEBUGGING)
 
 std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state) {
     return std::string();
@@ -1916,6 +1919,6 @@ std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state)
 std::string HierarchicalStateMachine::Impl::getEventName(const EventID_t event) {
     return std::string();
 }
-#endif  // HSM_DISABLE_DEBUG_TRACES
+#endif  // !defined(HSM_DISABLE_DEBUG_TRACES) || defined(HSMBUILD_DEBUGGING)
 
 }  // namespace hsmcpp
\ No newline at end of file
-- 
2.43.0


From 19e086e77a02de00e3ca3a261661f254a7dabcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 53/62] fix: text arguments were not quoted in debug log which
 made it unreadable

---
 src/HsmImpl.cpp | 62 ++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 61 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index bddf536..fb41aea 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1776,6 +1776,66 @@ void HierarchicalStateMachine::Impl::disableHsmDebugging() {
 #endif
 }
 
+#ifdef HSMBUILD_DEBUGGING
+// converts transition argument to YAML value. text is quoted and escaped since it could have a special meaning in YAML otherwise
+static std::string toYamlValue(const Variant& value) {
+    constexpr size_t bufSize = 11;
+    std::array<char, bufSize> buf = {0};
+    const std::string text = value.toString();
+    std::string res;
+
+    if ((true == value.isNumeric()) || (true == value.isBool()) || (true == value.isEmpty())) {
+        res = text;
+    } else {
+        res = "\"";
+
+        for (size_t i = 0; i < text.size(); ++i) {
+            const uint8_t curByte = static_cast<uint8_t>(text[i]);
+
+            if ((curByte >= 0x20U) && (curByte < 0x7FU)) {
+                if (('"' == text[i]) || ('\\' == text[i])) {
+                    res += '\\';
+                }
+
+                res += text[i];
+            } else {
+                // decode UTF-8 sequence. everything which isn't a valid sequence is logged byte by byte
+                const size_t length = ((curByte >= 0xC2U) && (curByte < 0xE0U))   ? 2U
+                                      : ((curByte >= 0xE0U) && (curByte < 0xF0U)) ? 3U
+                                      : ((curByte >= 0xF0U) && (curByte < 0xF5U)) ? 4U
+                                                                                  : 1U;
+                uint32_t code = (length > 1U) ? (curByte & (0xFFU >> (length + 1U))) : curByte;
+                size_t decoded = 1;
+
+                while ((decoded < length) && ((i + decoded) < text.size()) &&
+                       (0x80U == (static_cast<uint8_t>(text[i + decoded]) & 0xC0U))) {
+                    code = (code << 6U) | (static_cast<uint8_t>(text[i + decoded]) & 0x3FU);
+                    ++decoded;
+                }
+
+                const bool isValid = (decoded == length) && ((length != 3U) || ((code >= 0x800U) && ((code & 0xF800U) != 0xD800U))) &&
+                                     ((length != 4U) || ((code >= 0x10000U) && (code <= 0x10FFFFU)));
+
+                if ((true == isValid) && (length > 1U)) {
+                    // NOLINTNEXTLINE(cppcoreguidelines-pro-type-vararg): using snprintf instead stringstream for performance reasons
+                    (void)snprintf(buf.data(), buf.size(), "\\U%08X", static_cast<unsigned int>(code));
+                    i += (length - 1U);
+                } else {
+                    // NOLINTNEXTLINE(cppcoreguidelines-pro-type-vararg): using snprintf instead stringstream for performance reasons
+                    (void)snprintf(buf.data(), buf.size(), "\\x%02X", static_cast<unsigned int>(curByte));
+                }
+
+                res += buf.data();
+            }
+        }
+
+        res += '"';
+    }
+
+    return res;
+}
+#endif  // HSMBUILD_DEBUGGING
+
 void HierarchicalStateMachine::Impl::logHsmAction(const HsmLogAction action,
                                                   const StateID_t fromState,
                                                   const StateID_t targetState,
@@ -1861,7 +1921,7 @@ void HierarchicalStateMachine::Impl::logHsmAction(const HsmLogAction action,
                     "  args:";
 
         for (const auto& curArg : args) {
-            *mHsmLog << "\n    - " << curArg.toString();
+            *mHsmLog << "\n    - " << toYamlValue(curArg);
         }
 
         mHsmLog->flush();
-- 
2.43.0


From 2c2c30bcd75be294332d4ac070ac2b1134babec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 54/62] fix: events sent while history led to its default
 target could get lost

---
 src/HsmImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index fb41aea..de27218 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1535,7 +1535,10 @@ void HierarchicalStateMachine::Impl::transitionToDefaultHistoryState(
                                                                       cbTransition,
                                                                       nullptr);
 
-        mPendingEvents.push_front(defHistoryTransitionEvent);
+        {
+            HSM_SYNC_EVENTS_QUEUE();
+            mPendingEvents.push_front(defHistoryTransitionEvent);
+        }
     }
 }
 
-- 
2.43.0


From 6e7d9b8916af905449211002358f6626e580d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 55/62] fix: hsmdebugger: final states were drawn as additional
 boxes in diagrams of log entries

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index a4391ab..72336b8 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -1015,7 +1015,7 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
     # highlighting transition targets must be done AFTER state is fully defined (since transitions can appear earlier)
     # but skip self transitions since in this case state will be active
     if highlight \
-            and (stateData["type"] != STATETYPE_HISTORY) \
+            and (stateData["type"] not in [STATETYPE_HISTORY, STATETYPE_FINAL]) \
             and (stateData['id'] in highlight['transitions']) \
             and (stateData['id'] != highlight['transitions'][stateData['id']]["from"]):
         plantumlState += f"{offset}state {stateData['id']} ##[dotted]{highlightColorActive}\n"
-- 
2.43.0


From 45fafd9eb72e9b5e27e7c4d55c9a35a379088274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 56/62] fix: hsmdebugger: entry transitions with events or
 conditions were not highlighted

---
 tools/scxml2gen/scxml2gen.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 72336b8..338c1f3 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -872,8 +872,6 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
     # handle initial states
     if stateData["type"] == STATETYPE_INITIAL:
         condition = ""
-        highlightEntryTransition = ""
-        entryTransitionArgs = ""
         if 'initial_state_transitions' in stateData:
             initialTransitions = stateData['initial_state_transitions']
         else:
@@ -881,6 +879,8 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
 
         for currentEntryTransition in initialTransitions:
             condition = ""
+            highlightEntryTransition = ""
+            entryTransitionArgs = ""
             if currentEntryTransition is not None:
                 condition = " : "
                 if 'event' in currentEntryTransition:
@@ -891,8 +891,9 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
             if highlight and (stateData['id'] in highlight['transitions']):
                 highlightEntryTransitionInfo = highlight['transitions'][stateData['id']]
                 if (highlightEntryTransitionInfo["from"] == "") and \
-                    (('initial_state_transitions' not in stateData) or \
-                    highlightEntryTransitionInfo["event"] == stateData['initial_state_transitions']):
+                    ((currentEntryTransition is None) or \
+                    ('event' not in currentEntryTransition) or \
+                    (highlightEntryTransitionInfo["event"] == currentEntryTransition['event'])):
                     highlightEntryTransition = f"[#{highlightColorActive},bold]"
                     if "args" in highlightEntryTransitionInfo:
                         entryTransitionArgs = highlightEntryTransitionInfo['args']
-- 
2.43.0


From b7aee643b8b9dfd20ac1728a9a5e44d3da96a55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 57/62] fix: substates could have only one entry point when
 HSM_ENABLE_SAFE_STRUCTURE is enabled

---
 src/HsmImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index de27218..39bca95 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -280,6 +280,9 @@ bool HierarchicalStateMachine::Impl::registerSubstate(const StateID_t parent,
 
                 curState = prevState;
             }
+        } else if ((true == isEntryPoint) && (parent == prevState)) {
+            // same substate can have multiple entry points (with different events and conditions)
+            registrationAllowed = true;
         } else {
             HSM_TRACE_CALL_DEBUG_ARGS("substate <%s> already has a parent <%s>",
                                       getStateName(substate).c_str(),
-- 
2.43.0


From e27cad48d42adcd17867027cafba289e6e4173ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 58/62] fix: FreeRTOS dispatcher: enqueued events were
 dispatched by the emitting task, pending events were not protected when
 handlers are unregistered

---
 src/HsmEventDispatcherFreeRTOS.cpp | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index c282fa3..98eeabf 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -59,15 +59,7 @@ void HsmEventDispatcherFreeRTOS::emitEvent(const HandlerID_t handlerID) {
     HSM_TRACE_CALL_DEBUG();
 
     if (nullptr != mDispatcherTask) {
-        dispatchEnqueuedEvents();
-
-        {
-            // TODO: this will work only for single-core FreeRTOS
-            InterruptsFreeSection lck;
-            mPendingEvents.emplace_back(handlerID);
-        }
-
-        notifyDispatcherAboutEvent();
+        HsmEventDispatcherBase::emitEvent(handlerID);
     }
 }
 
@@ -229,18 +221,7 @@ void HsmEventDispatcherFreeRTOS::doDispatching(void* pvParameters) {
 
     if (nullptr != pThis) {
         while (false == pThis->mStopDispatcher) {
-            std::list<HandlerID_t> events;
-
-            pThis->dispatchPendingActions();
-
-            {
-                // NOTE: this will work only on a single core implementation of FreeRTOS
-                //       for multi-core system mutex lock will be required
-                InterruptsFreeSection lck;
-                events = std::move(pThis->mPendingEvents);
-            }
-
-            pThis->dispatchPendingEventsImpl(events);
+            pThis->dispatchPendingEvents();
 
             if (false == pThis->mStopDispatcher) {
                 if (true == pThis->mPendingEvents.empty()) {
-- 
2.43.0


From 698a0df31053d732dc8e6c606c48eabe49a71aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 59/62] fix: FreeRTOS dispatcher: join() could block forever
 and its task used the deleted dispatcher

---
 include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp |  5 ++
 src/HsmEventDispatcherFreeRTOS.cpp            | 59 +++++++++++++++----
 2 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp b/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
index 63f2ce3..0cdf243 100644
--- a/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
+++ b/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
@@ -11,6 +11,8 @@
 #include <vector>
 
 #include "HsmEventDispatcherBase.hpp"
+#include "os/ConditionVariable.hpp"
+#include "os/Mutex.hpp"
 
 namespace hsmcpp {
 
@@ -105,12 +107,15 @@ protected:
 
     void notifyDispatcherAboutEvent() override;
     static void doDispatching(void* pvParameters);
+    static void doDelete(void* pvParameters);
 
     static void onTimerEvent(TimerHandle_t timerHandle);
 
 private:
     TaskHandle_t mMainTask = nullptr;
     TaskHandle_t mDispatcherTask = nullptr;
+    Mutex mJoinSync;
+    ConditionVariable mDispatcherFinished;
 
     configSTACK_DEPTH_TYPE mStackDepth = configMINIMAL_STACK_SIZE;
     UBaseType_t mPriority = tskIDLE_PRIORITY;
diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index 98eeabf..75247b0 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -5,6 +5,7 @@
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/InterruptsFreeSection.hpp"
 #include "hsmcpp/os/ConditionVariable.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 #include "hsmcpp/os/freertos/FreeRtosPort.hpp"
 
 #if (INCLUDE_xTaskGetCurrentTaskHandle != 1)
@@ -44,8 +45,25 @@ HsmEventDispatcherFreeRTOS::~HsmEventDispatcherFreeRTOS() {
 }
 
 bool HsmEventDispatcherFreeRTOS::deleteSafe() {
-    // NOTE: just delete the instance. Calling destructor from any thread is safe
-    return true;
+    const TaskHandle_t currentTask = xTaskGetCurrentTaskHandle();
+    bool canDelete = true;
+
+    // NOTE: calling destructor is safe from any task except dispatcher's own one and timers task because destructor waits for
+    //       them. This could happen if the last reference to dispatcher was released while it was calling a handler
+    if ((currentTask == mDispatcherTask) || (currentTask == xTimerGetTimerDaemonTaskHandle())) {
+        canDelete = false;
+
+        if (pdPASS != xTaskCreate(HsmEventDispatcherFreeRTOS::doDelete,
+                                  "HsmEventDispatcherFreeRTOS",
+                                  mStackDepth,
+                                  this,
+                                  mPriority,
+                                  nullptr)) {
+            HSM_TRACE_ERROR("failed to start task");
+        }
+    }
+
+    return canDelete;
 }
 
 std::shared_ptr<HsmEventDispatcherFreeRTOS> HsmEventDispatcherFreeRTOS::create(const configSTACK_DEPTH_TYPE stackDepth,
@@ -120,7 +138,15 @@ void HsmEventDispatcherFreeRTOS::join() {
     HSM_TRACE_CALL_DEBUG();
 
     if (nullptr != mDispatcherTask) {
-        vTaskSuspend(nullptr);
+        UniqueLock lck(mJoinSync);
+
+        mDispatcherFinished.wait(lck);
+
+        const TaskHandle_t dispatcherTask = mDispatcherTask;
+
+        // NOTE: dispatcher task doesn't access this object anymore and only waits to be deleted
+        mDispatcherTask = nullptr;
+        vTaskDelete(dispatcherTask);
     }
 }
 
@@ -204,14 +230,17 @@ void HsmEventDispatcherFreeRTOS::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherFreeRTOS::notifyDispatcherAboutEvent() {
-    if (nullptr != mDispatcherTask) {
-        BaseType_t isInsideISR = xPortIsInsideInterrupt();
+    if (pdFALSE == xPortIsInsideInterrupt()) {
+        // NOTE: task must not be deleted by join() in between
+        LockGuard lck(mJoinSync);
 
-        if (pdFALSE == isInsideISR) {
+        if (nullptr != mDispatcherTask) {
             xTaskNotifyGive(mDispatcherTask);
-        } else {
-            vTaskNotifyGiveFromISR(mDispatcherTask, nullptr);
         }
+    } else if (nullptr != mDispatcherTask) {
+        vTaskNotifyGiveFromISR(mDispatcherTask, nullptr);
+    } else {
+        // dispatcher is not running
     }
 }
 
@@ -235,13 +264,17 @@ void HsmEventDispatcherFreeRTOS::doDispatching(void* pvParameters) {
 
     HSM_TRACE_DEBUG("EXIT");
 
-    if (nullptr != pThis->mMainTask) {
-        if (eSuspended == eTaskGetState(pThis->mMainTask)) {
-            vTaskResume(pThis->mMainTask);
-        }
+    // NOTE: task handle must stay valid until everybody stopped using it, so the task will be deleted in join()
+    pThis->mDispatcherFinished.notify();
+
+    while (true) {
+        vTaskSuspend(nullptr);
     }
+}
 
-    pThis->mDispatcherTask = nullptr;
+void HsmEventDispatcherFreeRTOS::doDelete(void* pvParameters) {
+    // NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
+    delete static_cast<HsmEventDispatcherFreeRTOS*>(pvParameters);
     vTaskDelete(nullptr);
 }
 
-- 
2.43.0


From 64ce00a514babd3a14990f29703235e1f3770e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 60/62] fix: FreeRTOS dispatcher: restarted timers fired early
 or with an old period, native timers were not released and used a deleted
 dispatcher

---
 include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp | 10 ++-
 src/HsmEventDispatcherFreeRTOS.cpp            | 80 +++++++++++--------
 2 files changed, 57 insertions(+), 33 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp b/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
index 0cdf243..72fda9a 100644
--- a/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
+++ b/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
@@ -110,16 +110,24 @@ protected:
     static void doDelete(void* pvParameters);
 
     static void onTimerEvent(TimerHandle_t timerHandle);
+    static void onTimersDeleted(void* pvDispatcher, uint32_t unused);
 
 private:
+    struct NativeTimer {
+        TimerHandle_t handle = nullptr;
+        TickType_t startedAt = 0;
+        TickType_t period = 0;
+    };
+
     TaskHandle_t mMainTask = nullptr;
     TaskHandle_t mDispatcherTask = nullptr;
     Mutex mJoinSync;
     ConditionVariable mDispatcherFinished;
+    ConditionVariable mTimersDeleted;
 
     configSTACK_DEPTH_TYPE mStackDepth = configMINIMAL_STACK_SIZE;
     UBaseType_t mPriority = tskIDLE_PRIORITY;
-    std::map<TimerID_t, TimerHandle_t> mNativeTimerHandlers; // protected by InterruptsFreeSection class
+    std::map<TimerID_t, NativeTimer> mNativeTimerHandlers; // protected by InterruptsFreeSection class
 };
 
 }  // namespace hsmcpp
diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index 75247b0..74a4ed3 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -17,6 +17,9 @@
 #if (configUSE_TIMERS != 1)
   #error configUSE_TIMERS feature is required
 #endif
+#if (INCLUDE_xTimerPendFunctionCall != 1)
+  #error INCLUDE_xTimerPendFunctionCall feature is required
+#endif
 
 // TODO: supports only single core implementation of FreeRTOS. For multi-core systems need to clarify:
 //       - AMP or SMP is used?
@@ -42,6 +45,12 @@ HsmEventDispatcherFreeRTOS::~HsmEventDispatcherFreeRTOS() {
 
     stop();
     join();
+
+    // NOTE: deleting a timer only sends a command to the timers task. it could still be executing onTimerEvent()
+    if (pdPASS == xTimerPendFunctionCall(HsmEventDispatcherFreeRTOS::onTimersDeleted, this, 0, portMAX_DELAY)) {
+        UniqueLock lck(mJoinSync);
+        mTimersDeleted.wait(lck);
+    }
 }
 
 bool HsmEventDispatcherFreeRTOS::deleteSafe() {
@@ -126,12 +135,17 @@ void HsmEventDispatcherFreeRTOS::stop() {
     }
 
     // delete timers
-    InterruptsFreeSection lck;
+    std::map<TimerID_t, NativeTimer> timers;
+
+    {
+        LockGuard lck(mHandlersSync);
+        InterruptsFreeSection section;
+        timers.swap(mNativeTimerHandlers);
+    }
 
-    for (auto it = mNativeTimerHandlers.begin(); it != mNativeTimerHandlers.end(); ++it) {
-        xTimerDelete(it->second, 0);
+    for (auto it = timers.begin(); it != timers.end(); ++it) {
+        xTimerDelete(it->second.handle, portMAX_DELAY);
     }
-    mNativeTimerHandlers.clear();
 }
 
 void HsmEventDispatcherFreeRTOS::join() {
@@ -159,7 +173,9 @@ void HsmEventDispatcherFreeRTOS::startTimerImpl(const TimerID_t timerID,
                               BOOL2INT(isSingleShot));
     auto it = mNativeTimerHandlers.end();
     TimerHandle_t timer = nullptr;
-    UBaseType_t reloadMode = (false == isSingleShot ? pdTRUE : pdFALSE);
+    const UBaseType_t reloadMode = (false == isSingleShot ? pdTRUE : pdFALSE);
+    const TickType_t period = intervalMs / portTICK_PERIOD_MS;
+    const TickType_t startedAt = xTaskGetTickCount();
 
     {
         InterruptsFreeSection lck;
@@ -168,28 +184,21 @@ void HsmEventDispatcherFreeRTOS::startTimerImpl(const TimerID_t timerID,
 
     if (mNativeTimerHandlers.end() == it) {
         timer = xTimerCreate("hsmtimer",
-                             intervalMs / portTICK_PERIOD_MS,
+                             period,
                              reloadMode,
                              this,
                              HsmEventDispatcherFreeRTOS::onTimerEvent);
 
         if (nullptr != timer) {
             InterruptsFreeSection lck;
-            mNativeTimerHandlers[timerID] = timer;
+            mNativeTimerHandlers[timerID].handle = timer;
         }
     } else {
-        timer = it->second;
-
-        if ((xTimerGetPeriod(timer) * portTICK_PERIOD_MS) != intervalMs) {
-            if (pdPASS != xTimerChangePeriod(timer, intervalMs / portTICK_PERIOD_MS, 0)) {
-                xTimerDelete(timer, 0);
-                {
-                    InterruptsFreeSection lck;
-                    mNativeTimerHandlers.erase(timerID);
-                }
+        timer = it->second.handle;
 
-                HSM_TRACE_ERROR("xTimerChangePeriod failed");
-            }
+        // NOTE: command is executed later, so current period of the timer could be different from the last requested one
+        if (pdPASS != xTimerChangePeriod(timer, period, 0)) {
+            HSM_TRACE_ERROR("xTimerChangePeriod failed");
         }
 
         // NOTE: not available in all versions
@@ -208,6 +217,12 @@ void HsmEventDispatcherFreeRTOS::startTimerImpl(const TimerID_t timerID,
             }
 
             HSM_TRACE_ERROR("xTimerStart failed");
+        } else {
+            InterruptsFreeSection lck;
+            NativeTimer& nativeTimer = mNativeTimerHandlers[timerID];
+
+            nativeTimer.startedAt = startedAt;
+            nativeTimer.period = period;
         }
     } else {
         HSM_TRACE_ERROR("xTimerCreate failed");
@@ -225,7 +240,7 @@ void HsmEventDispatcherFreeRTOS::stopTimerImpl(const TimerID_t timerID) {
 
     if (mNativeTimerHandlers.end() != it) {
         // NOTE: this will not work for sync transitions which are called from ISR
-        xTimerStop(it->second, 0);  // NOTE: this will not be processed instantly and can actually fail
+        xTimerStop(it->second.handle, 0);  // NOTE: this will not be processed instantly and can actually fail
     }
 }
 
@@ -291,29 +306,30 @@ void HsmEventDispatcherFreeRTOS::onTimerEvent(TimerHandle_t timerHandle) {
                 InterruptsFreeSection lck;
 
                 for (auto it = pThis->mNativeTimerHandlers.begin(); it != pThis->mNativeTimerHandlers.end(); ++it) {
-                    if (it->second == timerHandle) {
+                    if (it->second.handle == timerHandle) {
                         timerID = it->first;
                         break;
                     }
                 }
             }
 
-            const bool restartTimer = pThis->handleTimerEvent(timerID);
-
-            HSM_TRACE_DEBUG("restartTimer=%d", (int)restartTimer);
-
-            if (false == restartTimer) {
+            // NOTE: timer could be restarted after it has expired
+            (void)pThis->handleTimerEvent(timerID, [=]() {
                 InterruptsFreeSection lck;
-                auto itTimer = pThis->mNativeTimerHandlers.find(timerID);
+                auto it = pThis->mNativeTimerHandlers.find(timerID);
 
-                if (pThis->mNativeTimerHandlers.end() != itTimer) {
-                    pThis->mNativeTimerHandlers.erase(itTimer);
-                } else {
-                    HSM_TRACE_ERROR("unexpected error. timer not found");
-                }
-            }
+                return ((pThis->mNativeTimerHandlers.end() != it) &&
+                        ((xTaskGetTickCount() - it->second.startedAt) >= it->second.period));
+            });
         }
     }
 }
 
+void HsmEventDispatcherFreeRTOS::onTimersDeleted(void* pvDispatcher, uint32_t unused) {
+    HsmEventDispatcherFreeRTOS* pThis = static_cast<HsmEventDispatcherFreeRTOS*>(pvDispatcher);
+
+    (void)unused;
+    pThis->mTimersDeleted.notify();
+}
+
 }  // namespace hsmcpp
\ No newline at end of file
-- 
2.43.0


From 3ad5f8c634cb985ba98132b2d6160cfb5db5ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 61/62] fix: FreeRTOS: timers and timeouts which are not a
 number of ticks were too short, timers shorter than a tick failed

---
 src/HsmEventDispatcherFreeRTOS.cpp    | 3 ++-
 src/os/freertos/ConditionVariable.cpp | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index 74a4ed3..2a950ae 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -174,7 +174,8 @@ void HsmEventDispatcherFreeRTOS::startTimerImpl(const TimerID_t timerID,
     auto it = mNativeTimerHandlers.end();
     TimerHandle_t timer = nullptr;
     const UBaseType_t reloadMode = (false == isSingleShot ? pdTRUE : pdFALSE);
-    const TickType_t period = intervalMs / portTICK_PERIOD_MS;
+    // NOTE: round up. timer can't have a period of 0 ticks and must not expire earlier than requested
+    const TickType_t period = (intervalMs / portTICK_PERIOD_MS) + ((0U == (intervalMs % portTICK_PERIOD_MS)) ? 0U : 1U);
     const TickType_t startedAt = xTaskGetTickCount();
 
     {
diff --git a/src/os/freertos/ConditionVariable.cpp b/src/os/freertos/ConditionVariable.cpp
index 2da0cc5..ee1ac7b 100644
--- a/src/os/freertos/ConditionVariable.cpp
+++ b/src/os/freertos/ConditionVariable.cpp
@@ -54,7 +54,11 @@ bool ConditionVariable::wait_for(UniqueLock& sync, const int timeoutMs, std::fun
                 // NOTE: timeouts are not supported inside of ISR calls
                 locked = (pdTRUE == xSemaphoreTakeFromISR(mHandle, nullptr));
             } else {
-                locked = (pdTRUE == xSemaphoreTake(mHandle, timeoutMs / portTICK_PERIOD_MS));
+                // NOTE: round up. waiting must not end earlier than requested
+                const TickType_t timeout = static_cast<TickType_t>(timeoutMs);
+                const TickType_t partialTick = ((0U == (timeout % portTICK_PERIOD_MS)) ? 0U : 1U);
+
+                locked = (pdTRUE == xSemaphoreTake(mHandle, (timeout / portTICK_PERIOD_MS) + partialTick));
             }
         }
     }
-- 
2.43.0


From 2d25742fd10d2e79c047a463965e2b1f155982ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:54 +0000
Subject: [PATCH 62/62] fix: FreeRTOS: Mutex was unlocked inside of interrupts
 with a function which only tasks are allowed to use

---
 src/os/freertos/Mutex.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/os/freertos/Mutex.cpp b/src/os/freertos/Mutex.cpp
index 4731961..645a155 100644
--- a/src/os/freertos/Mutex.cpp
+++ b/src/os/freertos/Mutex.cpp
@@ -37,7 +37,11 @@ void Mutex::lock() {
 
 void Mutex::unlock() {
     if (nullptr != mHandle) {
-        xSemaphoreGive(mHandle);
+        if (pdTRUE == xPortIsInsideInterrupt()) {
+            xSemaphoreGiveFromISR(mHandle, nullptr);
+        } else {
+            xSemaphoreGive(mHandle);
+        }
     }
 }
 
-- 
2.43.0

