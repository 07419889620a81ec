import json
P=[]
S="src/main/java/com/webotech/statemachine/"
GSM=S+"GenericStateMachine.java"; DES=S+"strategy/DefaultEventStrategy.java"; DDS=S+"strategy/DropDuplicateEventStrategy.java"
EPF=S+"strategy/EventProcessingStrategyFactory.java"; TT=S+"strategy/TransitionTask.java"; POOL=S+"strategy/EventMachinePairPool.java"
MCL=S+"MultiConsumerStateMachineListener.java"; HEA=S+"HandleExceptionAction.java"; APP=S+"service/AbstractAppService.java"
CTX=S+"service/AbstractAppContext.java"; LCU=S+"service/LifecycleStateMachineUtil.java"; THR=S+"util/Threads.java"; NSE=S+"NamedStateEvent.java"
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
p("C01","Every fired event gets exactly one outcome",
 "Every event fired at a started state machine, from any number of threads and from inside its own actions, is handled exactly once: it is processed against the state the machine is in at its turn, or refused with exactly one notification to the unexpected-flow listener, or (duplicate-dropping machines only) dropped because an equal event is waiting, or discarded because the machine has ended by its turn. No accepted event is lost, processed twice or left waiting for ever while the machine is idle. If handing the event to the executor fails so that fire throws, the event is processed at most once.",
 ["schedules","fault_sequences","histories"],"All interleavings of firing threads, re-entrant fires, the processing thread, start and stop; all configurations of executor, queue bound and queue implementation; failing actions, listeners and executors.",
 "The tests fire a few events from one thread (one test uses a handful of threads and sleeps) and look at the final state; they cannot enumerate the interleavings of enqueue and drain.",
 [DES,GSM,POOL,EPF],[("queue then drain task per event",DES),("started/ended routing in fire",GSM),("pooled event/machine pairs",POOL)],["StateAction.execute","StateMachineListener","UnexpectedFlowListener","unmapped event handler"])
p("C02","Events are processed in the order they were received",
 "With the library's default executor or any executor that runs its tasks one at a time, if one fire call returns before another fire call on the same machine begins, the first event is processed before the second; in particular the events fired by one thread are processed in the order that thread fired them, and events fired by an action are processed after the event being processed and after all events already received.",
 ["schedules","histories"],"All interleavings of firing threads with each other and with processing, including re-entrant fires, worker death and failing actions.",
 "Tests check order for one firing thread on one schedule.",
 [DES,EPF],[("FIFO event queue",EPF),("single processing thread",EPF)],["StateMachineListener","StateAction.execute","unmapped event handler"])
p("C03","Transitions are atomic and complete",
 "Each transition runs to completion before the next one begins: listeners are told of its beginning, then every exit action of the old state runs in the configured order, then every entry action of the new state runs in the configured order, then listeners are told of its end, with nothing belonging to another event of that machine in between. The machine reports the old state as its current state while exit actions run and the new state while entry actions run. This also holds when the work is spread over several executor threads one task at a time, and when actions fire further events.",
 ["schedules","histories","configurations"],"All interleavings of firing threads and processing, re-entrant fires and slow actions, any configuration of actions.",
 "Tests observe the callback order of single transitions without concurrency; overlapping would only show up under particular schedules.",
 [TT,GSM,DES,S+"NamedState.java"],[("transition execution",TT),("state update",GSM),("one drain loop at a time",DES)],["StateMachineListener","StateAction.execute","StateMachine.getCurrentState"])
p("C04","Processing follows the configured transition table",
 "The sequence of states a machine goes through is exactly the one obtained by applying its configured table to its events in processing order, starting from the initial state (or the state it was started in): a mapped event moves it to the configured state, an event configured not to transition leaves the state unchanged and runs no action but is announced to listeners, an unmapped event changes nothing and reaches the unmapped-event handler exactly once, and an event configured to end, or a transition into a state configured to end immediately, ends it. The event and the from and to states passed to actions and listeners are the ones of that step.",
 ["histories","configurations","schedules"],"Random transition tables with several states and events, random event histories fired concurrently, all schedules.",
 "Tests use two or three hand-written tables and short fixed histories.",
 [TT,GSM],[("transition table lookup",TT),("immediate end of terminal states",TT)],["StateMachineListener","StateAction.execute","unmapped event handler"])
p("C05","Ending is final",
 "Once a started machine has ended, by an event, by completing a transition into a terminal state (also while start is still running) or by stop, it stays ended: it reports ended and the end state for ever, and any later fire is reported exactly once to the unexpected-flow listener as fired after the end and changes nothing. Events still waiting when it ends run no action and notify no state-change listener; only an event already being processed when stop is called from another thread may still complete its own callbacks.",
 ["schedules","histories","fault_sequences"],"All interleavings of stop, ending events, start, queued events and firing threads.",
 "Tests stop an idle machine and then fire one event.",
 [GSM,TT,DES],[("ended flag checked before each event",DES),("end state assignment",GSM)],["StateMachine.isEnded","StateMachine.getCurrentState","UnexpectedFlowListener.onEventAfterMachineEnd","StateMachineListener"])
p("C06","Starting happens exactly once and is safe against concurrent use",
 "However many threads call start or startInState concurrently, exactly one succeeds, the others throw IllegalStateException and have no other effect, and the initial entry actions run at most once. An event fired concurrently with starting is either reported once as fired before the start, changing nothing, or accepted and processed from the starting state; events fired before the start are reported once and never processed later. Once any thread sees the machine started it has a current state.",
 ["schedules","histories"],"All interleavings of several start and startInState calls, fires and state queries.",
 "Tests call start twice from one thread.",
 [GSM],[("start flag compare-and-set",GSM)],["StateMachine.start","StateMachine.startInState","StateMachine.isStarted","UnexpectedFlowListener.onEventBeforeMachineStart"])
p("C07","An accepted event keeps the payload it was fired with",
 "Actions, handlers and listeners processing an event (an instance of the library's event class) see the name and the payload, or its absence, the event object had when fire was called, even if the caller changes the payload of the same event object, or fires it again with another payload, before the first firing has been processed. An event's payload is never mixed up with that of another event, whatever was processed or reused before. An event object a callback keeps still has that name and payload later, unless a callback changed it.",
 ["schedules","histories"],"All interleavings of payload updates and re-fires of one event object with processing and with other events fired by other threads.",
 "Tests fire one instance with different payloads from one thread and cannot see reuse of internal carriers under contention.",
 [DES,NSE,POOL],[("safe copy on fire",DES),("carrier reuse",POOL)],["StateEvent.getPayload in actions, listeners and handlers"])
p("C08","A failing callback is contained and reported exactly once",
 "If an action, listener or unmapped-event handler throws an exception while an event is processed, the unexpected-flow listener is told exactly once, with that event, machine, exception and the processing thread, the rest of that event's processing is skipped, and every other event is processed normally from the state then reached: the old state if an exit action failed, the new one if an entry action failed. An Error, or a failing unexpected-flow listener, may end the worker thread but events accepted before or after it are still all processed.",
 ["fault_sequences","schedules","histories"],"Exceptions and errors thrown from any action, listener, unmapped-event handler or unexpected-flow listener at any invocation, combined with all schedules.",
 "Tests throw from one action in a two-state machine.",
 [DES,TT,EPF],[("exception routing in the drain loop",DES),("worker replacement by the executor",EPF)],["UnexpectedFlowListener.onExceptionDuringEventProcessing","subsequent processing"])
p("C09","A bounded machine never holds more than its maximum of waiting events",
 "With a positive maximum queue size, at no instant are more than that many events waiting, however many threads fire; an event fired when the maximum is already waiting is reported exactly once to the unexpected-flow listener with an IllegalStateException on the firing thread and is never processed. An event is never refused while fewer than the maximum are waiting, and a bounded user-supplied queue that refuses an event leads to such a report rather than a silent loss. With no positive maximum nothing is refused.",
 ["schedules","fault_sequences","configurations"],"All interleavings of several firing threads around the bound with processing stalled at arbitrary points; queue implementations that refuse offers.",
 "The test fills the queue from one thread with a mocked queue size.",
 [DES,EPF],[("size check before enqueue",DES)],["UnexpectedFlowListener.onExceptionDuringEventProcessing","StateMachine.getEventQueueSize"])
p("C10","A duplicate-dropping machine drops exactly the duplicates of waiting events",
 "On a duplicate-dropping machine no two equal events are ever waiting at the same time, however many threads fire concurrently. An event is dropped only if an equal event is waiting during the fire call; an event equal only to the one being processed, or to events already processed, is accepted. For every dropped event an equal event is processed after its fire call began, unless the machine ends.",
 ["schedules","histories"],"All interleavings of threads firing equal and different events with processing.",
 "The tests use a mocked queue and one thread.",
 [DDS,DES],[("look up in waiting queue before enqueue",DDS)],["StateAction.execute","StateMachineListener"])
p("C11","Machines do not interfere with each other",
 "Several machines in one process (each with its own event queue), built with default settings, from one configuration or builder, sharing an executor or not, behave as if each were alone: every event is processed only by the machine it was fired at, with that machine's table, context, listeners and handlers. One machine ending, being stopped, failing or being slow neither drops, fails nor reorders another machine's events, and bounds, duplicate detection and queue counts concern only that machine's events.",
 ["configurations","schedules","fault_sequences"],"Two or three machines with equal or different tables built by every supported route, events fired concurrently, faults in one of them.",
 "Tests use one machine at a time.",
 [EPF,GSM,DES],[("strategy and queue created per machine",EPF),("builder",GSM)],["StateAction.execute","StateMachineListener","UnexpectedFlowListener"])
p("C12","State-change fan-out reaches every registered listener exactly once",
 "Each beginning and end of a state change is delivered exactly once, with the same arguments, to every listener registered during the whole notification, at most once to one being added or removed meanwhile, and not at all to one whose removal completed before; listeners may be added and removed from any thread and from inside callbacks, and concurrent additions of one listener report success exactly once (likewise removals). A listener that throws does not keep the others from being notified, and its exception is still reported like any failure of that event.",
 ["schedules","fault_sequences","histories"],"All interleavings of add and remove with notifications, listeners throwing at any invocation.",
 "Tests register mocks up front and notify from one thread.",
 [MCL],[("concurrent listener map",MCL)],["StateMachineListener"])
p("C13","Subsystems start in order and stop in reverse, bracketed by app states",
 "In every run of an app its subsystems are started one after another in the configured order and stopped one after another in reverse order, each at most once per cycle, never overlapping. The app is reported started only after every subsystem has started and stopped (on a normal stop) only after every subsystem's stop has returned, and after a normal stop of a restartable app a new start runs the full sequence again.",
 ["schedules","histories","fault_sequences"],"All interleavings of app start, stop, restart and state queries from several threads with slow subsystems.",
 "Tests run one start/stop cycle and wait for states by polling.",
 [APP,LCU,CTX],[("lifecycle state machine actions",APP),("lifecycle table",LCU)],["Subsystem.start","Subsystem.stop","getLifecycleState","StateMachineListener"])
p("C14","App start blocks for the life of the app and then returns",
 "The first start call of an app does not return while the app is starting or running, and returns, without an exception, once the app has exited: in exit-on-stop mode when the stop has completed, in restartable mode when the stopped app is stopped again. If the thread blocked in start is interrupted while the app is started and nobody else is stopping it, the app is stopped gracefully, start returns with the interrupt status set, and subsystems are stopped.",
 ["schedules","fault_sequences"],"All interleavings of the blocked start thread, the app's processing thread, and threads calling stop or restart; interrupts at any instant.",
 "Tests cover one schedule per mode and release the blocked thread by other means.",
 [APP],[("latch awaited by start",APP)],["AppService.start return"])
p("C15","App failures lead to the stopped state and only there",
 "If a subsystem fails to start or stop, or an error is reported while the app is starting, started or stopping, the app ends up stopped: later subsystems are not started after a failed start, the app is not reported started after a failed start, and an error reported once the app is stopped or ended changes nothing. In exit-on-stop mode the app then exits and its start call returns; in restartable mode it can be started again and works normally.",
 ["fault_sequences","schedules"],"A failure of any subsystem's start or stop at any cycle and error reports at any instant, combined with stop and restart calls, all schedules.",
 "Tests inject one failing subsystem on one schedule.",
 [APP,LCU,HEA],[("exception handler firing the error event",APP),("error transitions",LCU)],["getLifecycleState","Subsystem.start","AppService.start return"])
p("C16","A machine resumed in a recorded state continues where it left off",
 "If a process dies at any instant and a new machine with the same configuration is started in the last state its listener recorded as completed, no entry action of that state runs again, events recorded as handled are not needed again, and (unless that state ends the machine) re-firing the unhandled events in order brings it through the same states and to the same final state as an uninterrupted run. Starting in a state that was never configured is refused and leaves the machine not started.",
 ["crash_points","histories","configurations"],"A crash at any scheduling point of a random run, any recorded state, random remaining events.",
 "Tests start in one fixed state with no preceding history.",
 [GSM],[("start in a given state",GSM)],["StateMachine.startInState","StateMachineListener","StateAction.execute"])
p("C17","The reported queue size counts exactly the unfinished events",
 "The queue size a machine reports is never larger than the number of its events accepted and not yet finished at some instant of the call, nor smaller than it: an event counts from its acceptance until its processing, including all actions and listeners, has finished or failed. It returns to zero when the machine is idle, whatever failed, and refused or dropped events are not counted once their fire call has returned.",
 ["schedules","fault_sequences"],"Queries from any thread, including from inside actions, at any instant of random concurrent runs with failing actions.",
 "Tests query an idle machine or a mocked queue.",
 [DES,DDS,GSM],[("pending event accounting",DES)],["StateMachine.getEventQueueSize"])
p("C18","Handled action exceptions go to the handler only",
 "When an action wrapped for exception handling throws an exception, the handler is called exactly once with the event, machine and exception of that invocation, on the processing thread, the remaining actions and the transition complete normally, and the unexpected-flow listener is not told. An exception thrown by the handler itself is reported as a failure of that event, an Error is not passed to the handler, and the handler is not called when nothing is thrown.",
 ["fault_sequences","schedules"],"Exceptions and errors at any invocation of wrapped actions and handlers, with concurrent fires and fires from inside the handler.",
 "Tests call the wrapper directly once.",
 [HEA,DES],[("catch and route",HEA)],["ExceptionHandler.onException","UnexpectedFlowListener"])
p("C19","State changes become visible to other threads",
 "Under the Java memory model, a thread that only polls a machine's or app's current state, its started or its ended status eventually sees every lasting change made by another thread, and a thread that has seen a machine started or ended, or is running one of its callbacks, sees the state, configuration and effects that precede it.",
 ["schedules"],"All executions the Java memory model allows for the program's unsynchronised accesses: any read not ordered after a write may return an older value.",
 "Tests run on hardware and compilers that seldom exhibit stale reads, and poll with sleeps.",
 [GSM,TT],[("volatile or atomic state fields",GSM)],["StateMachine.getCurrentState","StateMachine.isStarted","StateMachine.isEnded","getLifecycleState"])
p("C20","Firing never waits for processing",
 "A fire call never runs the machine's actions, handlers or state-change listeners on the firing thread and returns without waiting for any event's processing, so an event can be fired from inside an action, with a slow or permanently blocked action in progress, or while holding a lock an action needs, without deadlock. All processing happens on the machine's executor; by default this is one daemon thread carrying the configured name.",
 ["schedules","fault_sequences"],"All interleavings with actions blocked at any point, locks shared between firing threads and actions, queue bounds and duplicate dropping.",
 "Tests' actions are short; a wait for processing would show only when the action is blocked on the firing thread.",
 [DES,DDS,EPF,THR],[("hand-off to executor",DES),("named daemon threads",THR)],["StateMachine.fire return","thread of callbacks"])
p("C21","Lifecycle calls out of place are refused without side effects",
 "An app refuses start and stop calls its lifecycle state does not permit with an IllegalStateException, and such a refused call, at any instant and from any thread, changes no state, starts or stops no subsystem and does not disturb the run in progress; permitted calls are never refused.",
 ["schedules","histories"],"All interleavings of several threads calling start, stop and error reports on one app in both modes.",
 "Tests issue one refused call per state from one thread.",
 [APP,LCU],[("state checks before events are fired",APP)],["AppService.start","AppService.stop","Subsystem.start","Subsystem.stop"])
p("C30","Invalid table definitions are rejected",
 "Defining a machine in an invalid order, with reserved names, with an incomplete mapping, or with a second initial state throws an IllegalStateException and the machine cannot be started with an incomplete table.",
 ["inputs","configurations"],"All sequences of definition calls.","Tests cover one example of each rule.",
 [GSM],[("definition assertions",GSM)],["StateMachine definition calls"])
p("C31","States and events are equal exactly when their names are",
 "Two named states (or two named events) are equal, with equal hash codes, exactly when their names are equal, whatever their actions or payloads, and never equal to an object of another kind.",
 ["inputs"],"All pairs of names and payloads.","Tests compare a few pairs.",
 [S+"NamedState.java",NSE],[("equals and hashCode by name",NSE)],["equals","hashCode"])
p("C32","State-change log lines describe the change",
 "The logging listener writes, for every state change, one line at its beginning naming the machine, the from state, the event and the to state, and one at its end naming the machine and the state reached; payloads are left out.",
 ["inputs"],"All names of machines, states and events.","Tests compare a few lines.",
 [S+"LoggingStateMachineListener.java"],[("log format",S+"LoggingStateMachineListener.java")],["log output"])
for x in P: assert len(x["title"])<=80
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
