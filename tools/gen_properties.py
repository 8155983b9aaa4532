#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept so that statements are edited in one readable place."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

C="crates/"
p("C01","Every destination sees next* then at most one terminal, then nothing",
 "Every observer subscribed to any observable, operator chain or subject receives zero or more next notifications, then at most one of complete or error, and nothing after that terminal notification. Once a subscription has been unsubscribed, or its destination has closed itself while handling a notification, that observer never again receives a next, complete or error from it. This holds whatever the source does, including a source that keeps emitting, errors or completes again after its own terminal or after it was closed.",
 ["inputs","histories","programs"],"all operator chains, sources that misbehave after termination, and all points at which the destination closes",
 "Unit tests drive each operator alone with a few well-behaved notifications; the guarantee is about arbitrary compositions and about closing at any of the notifications in flight.",
 [C+"rx_core_common/src/subscribers",C+"rx_core_macro_subscriber_derive/src/lib.rs",C+"rx_core_common/src/subject.rs",C+"rx_core_testing/src"],
 [("is_closed guards at the head of next/error/complete of every operator subscriber","crates/rx_core_operator_*/src/*_subscriber.rs"),("ObserverSubscriber closed flag","crates/rx_core_common/src/subscribers/subscriber_observer.rs")],
 ["an instrumented subscriber at the end of every generated pipeline"])

p("C02","Closing a subscription tears everything down, each teardown exactly once",
 "When a subscription ends - by complete, by error, by unsubscribe, by being dropped, or because its destination closed itself - every teardown registered on it runs exactly once (and one added after closing runs at once), finalize callbacks run exactly once, and the subscription reports closed from then on. The close reaches every upstream source and every inner subscription: a source never stays subscribed behind a destination that has ended. Dropping a subscription has the same observable effect as unsubscribing it.",
 ["histories","programs","inputs"],"all operator chains, all close causes at every point of the history, teardowns added at any point",
 "Tests check a handful of teardowns on single operators and one close cause at a time; leaks and double runs show up in chains closed at awkward moments.",
 [C+"rx_core_common/src/subscriptions",C+"rx_core_common/src/subscribers",C+"rx_core_operator_finalize/src",C+"rx_core_macro_subscription_derive/src/lib.rs"],
 [("SubscriptionData / teardown collection","crates/rx_core_common/src/subscriptions/subscription_data.rs"),("SubscriptionClosedFlag","crates/rx_core_common/src/subscriptions/subscription_closed_flag.rs"),("SharedSubscriber / SharedSubscription","crates/rx_core_common/src")],
 ["teardown counters registered by manual sources, by the client on the subscription, and by finalize; is_closed at source and client"])

p("C03","Synchronous operators compute their reference function on any input",
 "For every finite or infinite sequence of next notifications followed by an optional complete or error, each single-input synchronous operator (map, map_into, filter, filter_map, take, skip, first, find, find_index, element_at, is_empty, count, scan, reduce, enumerate, pairwise, buffer_count, start_with, end_with, tap, tap_next, on_next, lift_option, lift_result, into_result, materialize, dematerialize, map_error, identity, composed chains) emits exactly the sequence its documentation defines: same values, same order, same terminal, with index arguments counting from zero per subscription. Each output is emitted synchronously during the input notification that causes it, and short-circuiting operators complete at the very notification that decides them. A chain of such operators behaves as the composition of its members.",
 ["inputs","programs","configurations"],"all input sequences, all parameters including 0 and out-of-range, all chains of the operators",
 "Each operator has a few example sequences; parameters at the edges, terminal notifications with partial state and chains of operators are not sampled.",
 [C+"rx_core_operator_"+x+"/src" for x in "map filter take skip first find find_index element_at is_empty count scan reduce enumerate pairwise buffer_count start_with end_with tap on_next lift_option lift_result into_result materialize dematerialize map_error".split()],
 [("one subscriber type per operator","crates/rx_core_operator_*/src")],["instrumented sink at the end of the pipeline, compared step by step to an executable model"])

p("C04","Flattening operators follow merge, concat, switch and exhaust semantics",
 "concat, merge (with its concurrency limit), switch and exhaust, in their _all and _map forms, subscribe to inner observables exactly when their policy says so: never more than the limit at a time and the rest queued in arrival order; one at a time in order; only the latest, closing the previous one first; or ignoring new ones while one is active. Values of active inner observables are forwarded in arrival order, an upstream or inner error goes downstream at once and closes everything, and completion is emitted exactly when the upstream has completed and no inner is active or queued. An inner that closes without completing frees its place exactly as a completed one does.",
 ["inputs","schedules","configurations"],"all interleavings of upstream and inner notifications, synchronous and asynchronous inners, all concurrency limits",
 "Tests fix a couple of interleavings per operator with 2-3 inners; mixtures of synchronous, asynchronous, failing and self-unsubscribing inners are not covered.",
 [C+"rx_core_subscriber_higher_order"+s+"/src" for s in ["","_all","_map","_concurrent","_switch","_exhaust"]],
 [("concurrent, switch and exhaust subscriber providers","crates/rx_core_subscriber_higher_order_*/src"),("higher-order shared state","crates/rx_core_subscriber_higher_order/src")],
 ["subscription, close and notification events of script-controlled inner sources; instrumented sink"])

p("C05","Combining observables pair and order values as specified for any interleaving",
 "For every interleaving of their inputs, merge forwards all values in arrival order, concat runs inputs one after the other, zip pairs the n-th with the n-th value within its queue limit, combine_latest emits the pair of latest values on each new value once both inputs have one, combine_changes emits on every new value of either input, marking which side changed, with_latest_from samples the other input on each main value, and join emits the last pair once when both have completed. zip completes as soon as one completed input has no unpaired value left, combine_changes and join once both inputs have completed, combine_latest likewise or when one input has a value and the other completed without one, with_latest_from with its main input or when the other input completes without a value. Each forwards the first error of any input at once; once it has ended, every input is unsubscribed.",
 ["inputs","schedules","configurations"],"all interleavings of two or more inputs including completions, errors and early unsubscription by one side, all queue options",
 "Tests fix particular orders of a few values per input.",
 [C+"rx_core_observable_"+x+"/src" for x in "merge concat zip combine_latest combine_changes join".split()]+[C+"rx_core_operator_with_latest_from/src",C+"rx_core_notification_store/src",C+"rx_core_notification_variadics/src"],
 [("notification store / queue","crates/rx_core_notification_store/src"),("per-input subscribers","crates/rx_core_observable_zip/src")],
 ["instrumented sink and script-controlled inputs"])

p("C06","Subjects multicast exactly to current subscribers and replay what they promise",
 "A subject delivers each notification exactly once, in order, to every subscriber that is subscribed at that moment and to no other. A late subscriber first receives exactly what the subject kind promises: nothing from a publish subject, the latest value from a behavior subject, the last N values from a replay subject, the reduced value on completion from an async subject, and values with their provenance from a provenance subject; after termination it receives that terminal notification and is closed. After a subject has terminated or been unsubscribed, further notifications have no effect on current or later subscribers, and clones of a subject are the same subject.",
 ["histories","programs"],"all histories of subscribe, unsubscribe, next, error, complete over any number of subscribers and clones",
 "Tests use one or two subscribers with short scripted histories.",
 [C+"rx_core_subject_"+x+"/src" for x in "publish behavior replay async provenance".split()],
 [("PublishSubject subscriber list and deferred queue","crates/rx_core_subject_publish/src")],["each subscriber's log, compared with a model of the subject"])

p("C07","Re-entrant use neither deadlocks, loses, duplicates nor reorders notifications",
 "A callback that runs inside a notification (observer, operator function, teardown or finalize) may itself emit on, subscribe to, complete, fail or unsubscribe the same subject, pipeline or subscription. The outer call always returns without deadlock or panic, the nested notifications are delivered exactly once to every subscriber in one consistent order after the notification being delivered, and nested closes take effect no later than the end of the outer call.",
 ["histories","programs"],"all nested actions at every notification of every subscriber, up to the documented nesting limit",
 "A few tests re-enter a subject once; which subscriber re-enters, with what, and at which notification is unbounded.",
 [C+"rx_core_subject_publish/src",C+"rx_core_common/src/subscribers",C+"rx_core_common/src/subscriptions",C+"rx_core_observable_connectable/src"],
 [("try_lock and deferred notification queue","crates/rx_core_subject_publish/src"),("SharedSubscriber deferred queue","crates/rx_core_common/src")],
 ["instrumented sinks with scripted nested actions, under a watchdog"])

p("C08","Subjects and shared subscribers used from several threads stay consistent",
 "When several threads emit on, subscribe to and unsubscribe from the same subject or merged pipeline concurrently, every notification from a thread reaches each subscriber that was subscribed throughout exactly once and in that thread's order, and no subscriber's callback runs concurrently with itself. At most one terminal notification is delivered and nothing after it, every teardown runs exactly once, and no call deadlocks, panics or loses a notification.",
 ["schedules","histories"],"all thread interleavings of concurrent emitters, subscribers and unsubscribers",
 "Only a few tests use threads at all, and without any scheduling pressure.",
 [C+"rx_core_subject_publish/src",C+"rx_core_common/src/subscribers",C+"rx_core_common/src/subscriptions"],
 [("mutex plus deferred notification queue","crates/rx_core_subject_publish/src"),("SharedSubscription","crates/rx_core_common/src/subscriptions")],
 ["per-thread stamped notifications recorded at the subscriber, checked offline"])

p("C09","Scheduled work runs once, in order, never early and never after cancellation",
 "The ticking executor runs immediate work at the next tick, delayed work at the first tick at or after its deadline, repeating work once for each elapsed interval up to its limit per tick and until it reports done, and continuous work once per tick until done; work due in the same tick runs in activation order. Cancelled work never starts running after the cancelling call, cancelling one piece of work affects no other, and an invokable work runs exactly once for each invocation and stops being invokable once cancelled. Time never goes backwards for work, and work scheduled by running work is executed at the same or a later tick, never lost.",
 ["schedules","histories","inputs"],"all sequences of schedule, cancel, invoke and tick with arbitrary time steps",
 "Tests schedule one or two works and tick in round steps.",
 [C+"rx_core_scheduler_ticking/src",C+"rx_core_common/src/scheduling"],
 [("TickingSchedulerExecutor","crates/rx_core_scheduler_ticking/src"),("work implementations","crates/rx_core_scheduler_ticking/src")],
 ["each execution with tick number and time, compared with a model of the executor"])

p("C10","Time operators and timers obey their timing contract however time is sliced",
 "For any partition of time into ticks: delay re-emits each value and completion in order at the first tick at or after its delay while errors pass at once; debounce_time emits only the latest value once the silence has lasted its duration; throttle_time emits leading and/or trailing values at most once per window, its trailing value being the latest of the window and never lost; observe_on and subscribe_on defer by a work item; fallback_when_silent emits exactly once per tick, the observed value or else the fallback; adsr emits the envelope state of its trigger. interval emits 0,1,2,... once per elapsed duration, timer emits once at its deadline and completes, and iterator_on_tick emits items in order at every n-th tick and completes. Unsubscribing delay, debounce_time, throttle_time or observe_on lets what is already pending out first; otherwise, and after termination, none of them emits again.",
 ["schedules","inputs","configurations"],"all interleavings of input notifications with ticks of arbitrary size, all durations and option combinations",
 "Tests tick in steps that line up with the durations; ticks that overshoot, coincide, or bunch up several deadlines are not sampled.",
 [C+"rx_core_operator_"+x+"/src" for x in "delay debounce_time throttle_time observe_on subscribe_on fallback_when_silent adsr".split()]+[C+"rx_core_observable_"+x+"/src" for x in "interval timer iterator_on_tick".split()],
 [("per-operator scheduled work with cancellation id","crates/rx_core_operator_delay/src"),("scheduler handle","crates/rx_core_common/src/scheduling")],
 ["sink log stamped with tick number, compared with a timed model"])

p("C11","Errors are recovered, retried and converted exactly as specified",
 "catch forwards the source's values, and on error subscribes to the recovery observable once, forwarding it including its own error; retry(n) subscribes to its source anew on each of the first n errors, swallowing them, and forwards the error after the last allowed attempt; both forward completion. A value lost or emitted twice across attempts, or a source left subscribed after a failed attempt, never happens. materialize followed by dematerialize, and into_result followed by lift_result, reproduce the original notifications.",
 ["inputs","fault_sequences","configurations"],"all placements of errors among values and attempts, synchronous or later, all retry counts including 0",
 "Tests use one error at a fixed place and one kind (synchronous) of source.",
 [C+"rx_core_operator_"+x+"/src" for x in "catch retry materialize dematerialize into_result lift_result error_boundary map_error".split()],
 [("RetrySubscription / caught subscriber","crates/rx_core_operator_retry/src"),("CatchSubscriber","crates/rx_core_operator_catch/src")],
 ["subscription, close and notification events at scripted failing sources; sink log"])

p("C12","Shared sources are connected once and reference-counted",
 "A connectable observable subscribes to its source only when connected and at most once per connection; share connects with the first subscriber, whichever clone it subscribes through, every subscriber gets the source's notifications from its subscription on, and when so configured the source is unsubscribed exactly when the last subscriber leaves, even if that happens while the source is being subscribed or inside a notification. After disconnect, completion or error, the connector is kept or replaced exactly as the reset options say, so that later subscribers and connections see the old terminal state or a fresh connection accordingly.",
 ["histories","configurations"],"all histories of subscribe, unsubscribe, connect, disconnect and source notifications, all option combinations",
 "Tests follow one scenario per option.",
 [C+"rx_core_observable_connectable/src",C+"rx_core_operator_share/src"],
 [("Connector state","crates/rx_core_observable_connectable/src")],["source subscription and close events, each subscriber's log"])

p("C13","Subscriptions are independent; composition and wrapping change nothing",
 "Subscribing again to a cold pipeline gives an independent execution: operator state (indices, accumulators, buffers, counters, timers) is never shared between subscriptions, unsubscribing one never affects another, and each sees what it would have seen alone. Building the same pipeline through extension methods, composed operators, pipe, erased observables, cloned pipelines or optional observables yields the same notifications, teardowns and closing behaviour.",
 ["programs","histories"],"all pipelines, any number of interleaved subscriptions to the same pipeline value, all ways of wrapping it",
 "Tests subscribe once per pipeline, or twice one after the other for a few operators.",
 [C+"rx_core_common/src/observables",C+"rx_core_common/src/pipe",C+"rx_core_operator_composite/src"],
 [("operator_subscribe creating a fresh subscriber per subscription","crates/rx_core_operator_*/src/*_operator.rs"),("ErasedObservable","crates/rx_core_common/src/observables")],
 ["logs of interleaved subscriptions compared with each one's solo model"])

p("C14","Nothing is retained once a subscription has ended",
 "Once a subscription has ended and its handle has been dropped, and the scheduler has ticked, no scheduled work of it remains active and nothing it captured - values buffered, queued, delayed or cached by operators, callbacks, destinations, inner sources - is kept alive by the pipeline, the source or the scheduler. Subscribing and ending repeatedly does not grow the state of a subject or the scheduler.",
 ["histories","programs"],"all pipelines and close causes, with values in every buffer at the time of closing",
 "Tests assert notifications, never what stays alive afterwards.",
 [C+"rx_core_scheduler_ticking/src",C+"rx_core_subject_publish/src",C+"rx_core_common/src/subscriptions"],
 [("work cancellation on teardown","crates/rx_core_common/src/scheduling"),("drop of subscriber state on close","crates/rx_core_common/src")],
 ["live counts of tokens carried by values, callbacks and destinations; executor emptiness"])

p("C15","In an App, a subscription lives and dies with its entities",
 "A subscription created through commands becomes active even if its observable entity receives its observable later in the same or the next frame, delivers each notification to its destination exactly once and in order, and exists as an entity which reports closed and disappears after termination. Unsubscribing it, despawning its entity or removing its component, or the end of the subject it observes (unsubscribed when its component or entity goes away) closes the destination and runs teardowns and satellites exactly once; nothing is delivered afterwards and other subscriptions are unaffected. Removing a plain observable prevents new subscriptions and leaves existing ones running; a despawned destination receives nothing more; a subscription that can never attach does not outlive the frame; when the app exits every subscription is closed. No order of such operations makes the app panic.",
 ["histories","programs","schedules"],"all orders of spawn, insert, replace, remove, subscribe by any route, emit, unsubscribe, despawn, update and exit over several entities, subscriptions and schedules, between systems and inside observers",
 "Tests run one scenario each over a few updates.",
 [C+"rx_bevy_common/src",C+"rx_bevy/src"],
 [("SubscribeCommand with retries","crates/rx_bevy_common/src/observable/command_subscribe.rs"),("subscription component hooks and satellites","crates/rx_bevy_common/src/subscription_component.rs")],
 ["events and notifications recorded in a real headless App per update, compared with a model"])

p("C16","In an App, scheduled work follows the chosen schedule and clock",
 "Work scheduled through a scheduler tied to a schedule and a clock runs once per run of that schedule with that clock's elapsed time: interval, timer, delay and iterator pipelines emit in the frame at which the clock reaches their deadline, exactly as many times as the elapsed time warrants, in every pattern of frame durations, and do not progress while their clock is paused. Cancelling or unsubscribing stops them before their next emission.",
 ["schedules","inputs"],"all patterns of frame durations, pauses and time scaling, several clocks and schedules side by side",
 "Tests use a single fixed frame duration.",
 [C+"rx_bevy_common/src",C+"rx_core_scheduler_ticking/src"],
 [("RxSchedulerPlugin tick system","crates/rx_bevy_common/src")],["notifications stamped with frame and clock time"])

p("C17","App sources deliver every occurrence exactly once, in order",
 "Observables over entity events, messages, resources and keyboard input deliver each occurrence that happens while the subscription is active exactly once and in order to each subscriber: every triggered event of the observed entity, every message written, every key signal according to its emit options, and every resource change per its trigger options. An event observable is active from the next tick of its scheduler and completes when its entity is gone. A proxy observable behaves, from the next tick of its scheduler, as the observable it points to. Occurrences from before subscribing (but for messages that are still buffered then) and from after unsubscribing, also from inside a notification, are not delivered, and what has ended leaves no work or observer behind.",
 ["histories","inputs"],"all sequences of occurrences and updates, subscribing and unsubscribing at any frame, several subscribers",
 "Tests deliver one or two occurrences to one subscriber.",
 [C+"rx_bevy_observable_"+x+"/src" for x in "event message resource keyboard proxy".split()],
 [("observer / message cursor / change detection works","crates/rx_bevy_observable_message/src")],["notifications per frame compared with what the script caused"])

p("C18","App destinations and subject components route signals faithfully",
 "A notification sent to an entity destination appears as a signal event on exactly that entity, to a resource destination as exactly one write of that resource, and a signal sent to an entity carrying a subject reaches each subscriber of that subject exactly once, in order and in the frame its command was applied. Completion and errors are routed the same way, and nothing is delivered after them or after the target is gone.",
 ["histories","programs"],"all sequences of signals, subscriptions, subjects and despawns",
 "Tests route a signal or two along one path.",
 [C+"rx_bevy_common/src"],
 [("EntityDestination, ResourceDestination, SubjectComponent","crates/rx_bevy_common/src")],["signal events and resource writes recorded per frame"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
