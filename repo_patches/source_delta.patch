From dbd3d7eac47229c794b90bf271064469fb89d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:17 +0000
Subject: [PATCH 01/18] fix: keep a machine that ends while it is starting
 ended

start() reset the ended flag after the initial entry, so an end reached by an
event processed during the initial entry was undone.
---
 .../java/com/webotech/statemachine/GenericStateMachine.java   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 51b54bb..798e2e2 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -230,11 +230,11 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       }
     }
     if (isStarted.compareAndSet(false, true)) {
+      isEnded.set(false);
       currentState = initState;
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
-      isEnded.set(false);
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
@@ -259,8 +259,8 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
     if (isStarted.compareAndSet(false, true)) {
-      this.currentState = state;
       isEnded.set(false);
+      this.currentState = state;
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
-- 
2.43.0


From ae5fa3b88b24a3f12cad7ad676a33dcd1f56972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:17 +0000
Subject: [PATCH 02/18] fix: report a machine as started only once it has a
 current state

An event fired by another thread between the two was accepted and failed with a
NullPointerException.
---
 .../com/webotech/statemachine/GenericStateMachine.java    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 798e2e2..6fa8ca7 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -26,6 +26,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   public static final String RESERVED_STATE_EVENT_NAME_IMMEDIATE = "_immediate_";
   static final List<String> reservedStateNames = List.of(RESERVED_STATE_NAME_UNINITIALISED,
       RESERVED_STATE_NAME_END, RESERVED_STATE_NAME_NOOP);
+  private final AtomicBoolean isStarting;
   private final AtomicBoolean isStarted;
   private final AtomicBoolean isEnded;
   private final Map<StateEvent<S>, State<T, S>> noTransitionMap;
@@ -57,6 +58,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     this.eventProcessingStrategy = eventProcessingStrategy;
     this.unexpectedFlowListener = eventProcessingStrategy.getUnexpectedFlowListener();
     this.eventProcessingStrategy.setStates(this.states);
+    isStarting = new AtomicBoolean(false);
     isStarted = new AtomicBoolean(false);
     isEnded = new AtomicBoolean(false);
   }
@@ -229,9 +231,10 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         }
       }
     }
-    if (isStarted.compareAndSet(false, true)) {
+    if (isStarting.compareAndSet(false, true)) {
       isEnded.set(false);
       currentState = initState;
+      isStarted.set(true);
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
@@ -258,9 +261,10 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     if (!states.containsKey(state)) {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
-    if (isStarted.compareAndSet(false, true)) {
+    if (isStarting.compareAndSet(false, true)) {
       isEnded.set(false);
       this.currentState = state;
+      isStarted.set(true);
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
-- 
2.43.0


From 10c3c7fd0347874656e71d9cd9604e3d42d5f54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:17 +0000
Subject: [PATCH 03/18] fix: make the current state visible to other threads

---
 .../java/com/webotech/statemachine/GenericStateMachine.java     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 6fa8ca7..31795a8 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -42,7 +42,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   private State<T, S> initState;
   private State<T, S> markedState;
   private StateEvent<S> markedEvent;
-  private State<T, S> currentState;
+  private volatile State<T, S> currentState;
 
   private GenericStateMachine(T context, Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states,
       StateMachineListener<T, S> stateMachineListener,
-- 
2.43.0


From d2c0f8f1d97be934d31e951cb658e8596cf98811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:17 +0000
Subject: [PATCH 04/18] fix: update the current state and the ended flag
 atomically

A stop racing with a transition could leave an ended machine in a state other
than the end state, and the machine was seen as ended before its state was.
---
 .../java/com/webotech/statemachine/GenericStateMachine.java  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 31795a8..d40c493 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -319,9 +319,10 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     this.stateMachineListener = stateMachineListener;
   }
 
-  public void updateCurrentState(State<T, S> state) {
-    if (isEnded.compareAndSet(false, state.equals(endState))) {
+  public synchronized void updateCurrentState(State<T, S> state) {
+    if (!isEnded.get()) {
       currentState = state;
+      isEnded.set(state.equals(endState));
     }
   }
 
-- 
2.43.0


From 28d29c4ba151e69a18996cf9baeeb6ef7fccf701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 05/18] fix: do not let a concurrent stop leave a started
 machine half ended

A stop from another thread between resetting the ended flag and setting the
starting state left an ended machine in its starting state.
---
 .../webotech/statemachine/GenericStateMachine.java | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index d40c493..525859b 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -232,9 +232,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       }
     }
     if (isStarting.compareAndSet(false, true)) {
-      isEnded.set(false);
-      currentState = initState;
-      isStarted.set(true);
+      markStarted(initState);
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
@@ -262,14 +260,18 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
     if (isStarting.compareAndSet(false, true)) {
-      isEnded.set(false);
-      this.currentState = state;
-      isStarted.set(true);
+      markStarted(state);
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
   }
 
+  private synchronized void markStarted(State<T, S> state) {
+    isEnded.set(false);
+    currentState = state;
+    isStarted.set(true);
+  }
+
   @Override
   public boolean isStarted() {
     return isStarted.get();
-- 
2.43.0


From adb4efbd71895dec4297ff0f70cb58a24cc1346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 06/18] fix: give every machine built by a builder its own
 default strategy

A second build() reused the default strategy of the first machine, which then
followed the transition table of the second.
---
 .../com/webotech/statemachine/GenericStateMachine.java    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 525859b..e6c5d1c 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -371,11 +371,11 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     }
 
     public GenericStateMachine<T, S> build() {
-      if (eventProcessingStrategy == null) {
-        eventProcessingStrategy = EventProcessingStrategyFactory.createDefaultStrategy();
+      EventProcessingStrategy<T, S> strategy = eventProcessingStrategy;
+      if (strategy == null) {
+        strategy = EventProcessingStrategyFactory.createDefaultStrategy();
       }
-      return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener,
-          eventProcessingStrategy);
+      return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener, strategy);
     }
   }
 }
-- 
2.43.0


From 6072a8d304aa4f6a3e4e092347953b38840d2406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 07/18] fix: do not share the default event queue between
 strategies

All strategies created from one Config (or from the shared basic config) used the
same queue, so an event fired at an ended machine's queue could be discarded for
another machine, and bounds and duplicate checks mixed up the machines.
---
 .../strategy/EventProcessingStrategyFactory.java            | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
index 458d3b7..297c8bb 100644
--- a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
+++ b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
@@ -137,10 +137,8 @@ public class EventProcessingStrategyFactory {
     }
 
     Queue<EventMachinePair<T, S>> getEventQueue() {
-      if (eventQueue == null) {
-        eventQueue = new ConcurrentLinkedQueue<>();
-      }
-      return eventQueue;
+      // The default queue is never shared between strategies
+      return eventQueue == null ? new ConcurrentLinkedQueue<>() : eventQueue;
     }
   }
 }
-- 
2.43.0


From 280f38b75b759850318c27cff97f6cb982648309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 08/18] fix: report an event that the event queue refuses

A capacity bounded queue set with Config.withEventQueue lost events silently.
---
 .../statemachine/strategy/DefaultEventStrategy.java        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 3e870db..477e40c 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -83,7 +83,12 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     } else {
       inboundPair.setEventMachinePair(stateEvent, stateMachine);
     }
-    eventQueue.offer(inboundPair);
+    if (!eventQueue.offer(inboundPair)) {
+      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
+          Thread.currentThread(),
+          new IllegalStateException("Queue refused the event - dropping event"));
+      return;
+    }
     executor.execute(() -> {
       while (!eventQueue.isEmpty()) {
         EventMachinePair<T, S> consumedPair = eventQueue.poll();
-- 
2.43.0


From 6f011a535cfe57caf39f00a5c7b3d24a9f34c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 09/18] fix: count the event being processed in the event queue
 size

getEventQueueSize() is documented as the number of events that haven't completed
processing but left out the event being processed.
---
 .../strategy/DefaultEventStrategy.java        | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 477e40c..cdbd005 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -13,6 +13,7 @@ import com.webotech.statemachine.api.StateMachine;
 import java.util.Map;
 import java.util.Queue;
 import java.util.concurrent.ExecutorService;
+import java.util.concurrent.atomic.AtomicInteger;
 import java.util.function.BiConsumer;
 
 public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S> {
@@ -23,6 +24,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
   private final UnexpectedFlowListener<T, S> unexpectedFlowListener;
   private final EventMachinePairPool<T, S> eventMachinePairPool;
   private final int maxQueueSize;
+  private final AtomicInteger unfinishedEvents = new AtomicInteger();
 
   /**
    * The default {@link EventProcessingStrategy}, it transitions state atomically. All
@@ -63,12 +65,12 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   @Override
   public int getEventQueueSize() {
-    return eventQueue.size();
+    return unfinishedEvents.get();
   }
 
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
-    int queueSize = getEventQueueSize();
+    int queueSize = eventQueue.size();
     if (maxQueueSize > 0 && queueSize >= maxQueueSize) {
       unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
           Thread.currentThread(), new IllegalStateException(
@@ -83,7 +85,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     } else {
       inboundPair.setEventMachinePair(stateEvent, stateMachine);
     }
-    if (!eventQueue.offer(inboundPair)) {
+    if (!offer(inboundPair)) {
       unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
           Thread.currentThread(),
           new IllegalStateException("Queue refused the event - dropping event"));
@@ -102,12 +104,26 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
           unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
               Thread.currentThread(), e);
         } finally {
+          unfinishedEvents.decrementAndGet();
           eventMachinePairPool.give(consumedPair);
         }
       }
     });
   }
 
+  private boolean offer(EventMachinePair<T, S> eventMachinePair) {
+    boolean isAccepted = false;
+    unfinishedEvents.incrementAndGet();
+    try {
+      isAccepted = eventQueue.offer(eventMachinePair);
+    } finally {
+      if (!isAccepted) {
+        unfinishedEvents.decrementAndGet();
+      }
+    }
+    return isAccepted;
+  }
+
   @Override
   public void setStates(Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states) {
     this.transitionTask.setStates(states);
-- 
2.43.0


From 755c6db53e494405be886b1efed23189312840c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 10/18] fix: never exceed the maximum queue size

The size check and the insertion were not atomic, so events fired by several
threads at once could exceed the maximum.
---
 .../strategy/DefaultEventStrategy.java        | 41 ++++++++++++++-----
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index cdbd005..8a3dff6 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -24,6 +24,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
   private final UnexpectedFlowListener<T, S> unexpectedFlowListener;
   private final EventMachinePairPool<T, S> eventMachinePairPool;
   private final int maxQueueSize;
+  private final Object boundLock = new Object();
   private final AtomicInteger unfinishedEvents = new AtomicInteger();
 
   /**
@@ -70,13 +71,35 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
-    int queueSize = eventQueue.size();
-    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {
+    String refusal = enqueue(stateEvent, stateMachine);
+    if (refusal != null) {
       unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
-          Thread.currentThread(), new IllegalStateException(
-              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
+          Thread.currentThread(), new IllegalStateException(refusal));
       return;
     }
+    drainQueue(stateMachine);
+  }
+
+  /**
+   * Adds a {@link StateEvent} to the event queue without scheduling its processing.
+   *
+   * @return null if the {@link StateEvent} was accepted otherwise the reason why it was refused
+   */
+  private String enqueue(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+    if (maxQueueSize <= 0) {
+      return offer(stateEvent, stateMachine);
+    }
+    synchronized (boundLock) {
+      // Checking the size and adding to the queue have to be atomic
+      int queueSize = eventQueue.size();
+      if (queueSize >= maxQueueSize) {
+        return String.format("Queue size is maxed out at %s - dropping event", queueSize);
+      }
+      return offer(stateEvent, stateMachine);
+    }
+  }
+
+  private String offer(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
     if (stateEvent.getPayload() != null) {
       /* Use a safe copy of the StateEvent in case the client is
@@ -85,12 +108,10 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     } else {
       inboundPair.setEventMachinePair(stateEvent, stateMachine);
     }
-    if (!offer(inboundPair)) {
-      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
-          Thread.currentThread(),
-          new IllegalStateException("Queue refused the event - dropping event"));
-      return;
-    }
+    return offer(inboundPair) ? null : "Queue refused the event - dropping event";
+  }
+
+  private void drainQueue(GenericStateMachine<T, S> stateMachine) {
     executor.execute(() -> {
       while (!eventQueue.isEmpty()) {
         EventMachinePair<T, S> consumedPair = eventQueue.poll();
-- 
2.43.0


From aee3fc3c84c8c4783bb03e92054e08df07658d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 11/18] fix: drop duplicates also when equal events are fired
 concurrently

The duplicate check and the insertion were not atomic, so two threads could both
queue an equal event.
---
 .../strategy/DefaultEventStrategy.java             | 12 ++++++++++--
 .../strategy/DropDuplicateEventStrategy.java       | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 8a3dff6..0fb1ec7 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -71,7 +71,15 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
-    String refusal = enqueue(stateEvent, stateMachine);
+    process(stateEvent, stateMachine, enqueue(stateEvent, stateMachine));
+  }
+
+  /**
+   * Completes the processing of a {@link StateEvent} that has been passed to
+   * {@link #enqueue(StateEvent, GenericStateMachine)}.
+   */
+  void process(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine,
+      String refusal) {
     if (refusal != null) {
       unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
           Thread.currentThread(), new IllegalStateException(refusal));
@@ -85,7 +93,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
    *
    * @return null if the {@link StateEvent} was accepted otherwise the reason why it was refused
    */
-  private String enqueue(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+  String enqueue(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     if (maxQueueSize <= 0) {
       return offer(stateEvent, stateMachine);
     }
diff --git a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
index 2abcb94..36166a6 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
@@ -18,6 +18,7 @@ public class DropDuplicateEventStrategy<T, S> implements EventProcessingStrategy
   private static final Logger logger = LogManager.getLogger(DropDuplicateEventStrategy.class);
   public static final String EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT = "Event [{}] already in queue, will drop it";
   private final DefaultEventStrategy<T, S> defaultStrategy;
+  private final Object enqueueLock = new Object();
 
   /**
    * An {@link EventProcessingStrategy} that transitions state atomically. Any {@link StateEvent}
@@ -42,11 +43,20 @@ public class DropDuplicateEventStrategy<T, S> implements EventProcessingStrategy
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
-    if (eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent))) {
+    boolean isDuplicate;
+    String refusal = null;
+    synchronized (enqueueLock) {
+      // Checking for a duplicate and adding to the queue have to be atomic
+      isDuplicate = eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent));
+      if (!isDuplicate) {
+        refusal = defaultStrategy.enqueue(stateEvent, stateMachine);
+      }
+    }
+    if (isDuplicate) {
       logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
       return;
     }
-    defaultStrategy.processEvent(stateEvent, stateMachine);
+    defaultStrategy.process(stateEvent, stateMachine, refusal);
   }
 
   @Override
-- 
2.43.0


From adf33749ff5e7127aede246305c6bcf382fbfc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 12/18] fix: do not stop the app again when it has exited

When the latch was released start() could find the machine not ended yet and call
stop(), which threw an IllegalStateException if the machine ended meanwhile.
---
 .../com/webotech/statemachine/service/AbstractAppService.java    | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index ec4893f..a306e44 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -128,7 +128,6 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
       } catch (InterruptedException e) {
         logger.error("Main latch was interrupted", e);
         Thread.currentThread().interrupt();
-      } finally {
         if (!appStateMachine.isEnded()) {
           stop();
         }
-- 
2.43.0


From 519b0d78c4b1e2957b6e8b3f6069f6b49d3d1427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 13/18] fix: return from the start of a restartable app when
 the app has exited

The latch was only released in exit on stop mode.
---
 .../webotech/statemachine/service/AbstractAppService.java    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index a306e44..266a690 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -101,6 +101,11 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
         appLatch.countDown();
       }
     });
+    stopped.appendExitActions((evt, stateMachine) -> {
+      if (LifecycleStateMachineUtil.evtStop.equals(evt)) {
+        appLatch.countDown();
+      }
+    });
 
     LifecycleStateMachineUtil.configureAppStateMachine(appStateMachine, uninitialised, starting,
         started, stopping, stopped);
-- 
2.43.0


From c31c844321942a7425e024b08ddeaab6f98e95b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 14/18] fix: notify all the listeners when one of them throws

The listeners are documented to be called back independently of each other.
---
 .../MultiConsumerStateMachineListener.java    | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java b/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
index aeaf46d..794b711 100644
--- a/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
+++ b/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
@@ -10,6 +10,7 @@ import com.webotech.statemachine.api.StateMachineListener;
 import java.util.Map;
 import java.util.Objects;
 import java.util.concurrent.ConcurrentHashMap;
+import java.util.function.Consumer;
 import java.util.stream.Stream;
 
 /**
@@ -45,15 +46,29 @@ public class MultiConsumerStateMachineListener<T, S> implements StateMachineList
 
   @Override
   public void onStateChangeBegin(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
-    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
-      stateMachineListener.onStateChangeBegin(fromState, event, toState);
-    }
+    notifyConsumers(consumer -> consumer.onStateChangeBegin(fromState, event, toState));
   }
 
   @Override
   public void onStateChangeEnd(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
+    notifyConsumers(consumer -> consumer.onStateChangeEnd(fromState, event, toState));
+  }
+
+  private void notifyConsumers(Consumer<StateMachineListener<T, S>> notification) {
+    RuntimeException failure = null;
     for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
-      stateMachineListener.onStateChangeEnd(fromState, event, toState);
+      try {
+        notification.accept(stateMachineListener);
+      } catch (RuntimeException e) {
+        if (failure == null) {
+          failure = e;
+        } else if (failure != e) {
+          failure.addSuppressed(e);
+        }
+      }
+    }
+    if (failure != null) {
+      throw failure;
     }
   }
 }
-- 
2.43.0


From 14be87218f4e9a6c5d3ee61dd76c655dd40a6573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:57 +0000
Subject: [PATCH 15/18] fix: keep the missing payload of an event fired without
 one

Only events with a payload were copied, so a payload set after firing the same
event object without one reached the actions of the first firing.
---
 .../webotech/statemachine/strategy/DefaultEventStrategy.java    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 0fb1ec7..79881c3 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -109,7 +109,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   private String offer(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
-    if (stateEvent.getPayload() != null) {
+    if (stateEvent.getPayload() != null || stateEvent.getClass() == NamedStateEvent.class) {
       /* Use a safe copy of the StateEvent in case the client is
         setting different payloads on the same event instance */
       inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
-- 
2.43.0


From 99a564d248e3f0c7fc70ba97d22b289ac71ea0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:04 +0000
Subject: [PATCH 16/18] fix: events waiting behind a failed task are processed
 when the executor had rejected their own tasks

---
 .../strategy/DefaultEventStrategy.java        | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 79881c3..3a9b3b8 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -13,6 +13,7 @@ import com.webotech.statemachine.api.StateMachine;
 import java.util.Map;
 import java.util.Queue;
 import java.util.concurrent.ExecutorService;
+import java.util.concurrent.RejectedExecutionException;
 import java.util.concurrent.atomic.AtomicInteger;
 import java.util.function.BiConsumer;
 
@@ -125,21 +126,42 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
         EventMachinePair<T, S> consumedPair = eventQueue.poll();
         StateEvent<S> event = consumedPair.getStateEvent();
         GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
+        boolean isContained = false;
         try {
           if (!stateMachine.isEnded()) {
             transitionTask.execute(event, machine);
           }
+          isContained = true;
         } catch (Exception e) {
           unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
               Thread.currentThread(), e);
+          isContained = true;
         } finally {
           unfinishedEvents.decrementAndGet();
           eventMachinePairPool.give(consumedPair);
+          if (!isContained) {
+            drainRemaining(stateMachine);
+          }
         }
       }
     });
   }
 
+  /**
+   * For a task that is about to fail. It may be the last one, the executor can have rejected the
+   * tasks of {@link StateEvent}s that are waiting.
+   */
+  private void drainRemaining(GenericStateMachine<T, S> stateMachine) {
+    if (eventQueue.isEmpty()) {
+      return;
+    }
+    try {
+      drainQueue(stateMachine);
+    } catch (RejectedExecutionException e) {
+      // Don't hide the original failure
+    }
+  }
+
   private boolean offer(EventMachinePair<T, S> eventMachinePair) {
     boolean isAccepted = false;
     unfinishedEvents.incrementAndGet();
-- 
2.43.0


From 4abdbcea4e684143d776c7ea796c1217cafa6a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:17 +0000
Subject: [PATCH 17/18] fix: do not let a late interrupt make start throw when
 the app has exited

---
 .../webotech/statemachine/service/AbstractAppService.java  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index 266a690..cede7b3 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -133,8 +133,13 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
       } catch (InterruptedException e) {
         logger.error("Main latch was interrupted", e);
         Thread.currentThread().interrupt();
-        if (!appStateMachine.isEnded()) {
+        try {
           stop();
+        } catch (IllegalStateException ise) {
+          // nothing to stop when the app has exited in the meantime
+          if (appLatch.getCount() > 0) {
+            throw ise;
+          }
         }
       }
     } else if (!isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState)) {
-- 
2.43.0


From 0a17aec92998da403c59355b099c7f5c3e053375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:00 +0000
Subject: [PATCH 18/18] fix: events waiting behind a failed task are processed
 when the executor rejects another task

---
 .../strategy/DefaultEventStrategy.java        | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 3a9b3b8..198769a 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -12,6 +12,7 @@ import com.webotech.statemachine.api.StateEvent;
 import com.webotech.statemachine.api.StateMachine;
 import java.util.Map;
 import java.util.Queue;
+import java.util.concurrent.Executor;
 import java.util.concurrent.ExecutorService;
 import java.util.concurrent.RejectedExecutionException;
 import java.util.concurrent.atomic.AtomicInteger;
@@ -86,7 +87,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
           Thread.currentThread(), new IllegalStateException(refusal));
       return;
     }
-    drainQueue(stateMachine);
+    drainQueue(stateMachine, executor);
   }
 
   /**
@@ -120,7 +121,8 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     return offer(inboundPair) ? null : "Queue refused the event - dropping event";
   }
 
-  private void drainQueue(GenericStateMachine<T, S> stateMachine) {
+  @SuppressWarnings("hiding")
+  private void drainQueue(GenericStateMachine<T, S> stateMachine, Executor executor) {
     executor.execute(() -> {
       while (!eventQueue.isEmpty()) {
         EventMachinePair<T, S> consumedPair = eventQueue.poll();
@@ -139,7 +141,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
         } finally {
           unfinishedEvents.decrementAndGet();
           eventMachinePairPool.give(consumedPair);
-          if (!isContained) {
+          if (!isContained && executor == this.executor) {
             drainRemaining(stateMachine);
           }
         }
@@ -156,9 +158,16 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
       return;
     }
     try {
-      drainQueue(stateMachine);
+      drainQueue(stateMachine, executor);
     } catch (RejectedExecutionException e) {
-      // Don't hide the original failure
+      // There may be no other task
+      while (!eventQueue.isEmpty()) {
+        try {
+          drainQueue(stateMachine, Runnable::run);
+        } catch (Throwable t) {
+          // Don't hide the original failure
+        }
+      }
     }
   }
 
-- 
2.43.0

