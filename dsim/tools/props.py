#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Targets converge to the pipeline applied to the current sources",
"After any finite history of creations, changes and deletions of source objects, the objects of a controller's target become, and stay, exactly what its declared pipeline (selection, projection, list unwinding, source filters by namespace, label selector and predicate) yields on the sources that exist at the end: nothing missing, nothing stale, nothing extra, with the declared content. (Objects that leave a source's label selector keep their last result: controllers that relabel their own sources rely on it.) It holds for view and Kubernetes sources and targets, for chains of controllers that feed each other, and whatever the timing of the events and of the controllers' own start-up.",
["schedules","histories","configurations"],"for every event history over a small set of keys, every delivery timing and every interleaving of the watch, queue and write goroutines of one or more chained controllers",
"The suites replay a handful of single-event histories and wait for one expected object; they never check the whole final target after long create/change/delete histories of the same keys, nor under adverse interleavings.",
["pkg/controller/declarative.go","pkg/controller/reconcilers.go","pkg/reconciler/source.go","pkg/reconciler/reconciler.go","pkg/reconciler/target.go","pkg/pipeline/pipeline.go","pkg/pipeline/zset_adaptor.go","pkg/dbsp","pkg/expression","pkg/predicate/predicate.go"],
[("event snapshots queued in order","pkg/reconciler/reconciler.go enqueue"),("delta evaluation","pkg/pipeline/pipeline.go Evaluate"),("delta to target writes","pkg/reconciler/target.go Write")],
[("source cache","last source snapshot folded into the pipeline","pkg/pipeline/zset_adaptor.go"),("target cache","target content the pipeline believes it has produced","pkg/pipeline/zset_adaptor.go Reconcile")],
["target objects in the view store / API server"])

p("C02","Convergence survives transient API failures",
"If requests to the Kubernetes API fail transiently (server errors, throttling, refused or reset connections, write conflicts, writes whose response is lost, watches that break or expire), then once the failures stop every target object again becomes exactly what the pipeline yields on the current sources, without any further source change. No failed write is forgotten, none is applied out of order over a newer one, and no retry counts a source object twice.",
["fault_sequences","schedules","histories"],"for every finite sequence of failed, delayed or half-completed API requests and watch interruptions interleaved with every event history",
"The tests run against an envtest or in-memory server that never fails, so no retry path is executed by them.",
["pkg/controller/reconcilers.go","pkg/reconciler/target.go","pkg/reconciler/ctrlutils.go","pkg/pipeline/zset_adaptor.go","pkg/cache/composite.go"],
[("requeue of failed requests","pkg/controller/reconcilers.go Reconcile"),("create-or-update and conflict handling","pkg/reconciler/ctrlutils.go"),("relist after a broken watch","controller-runtime informers behind pkg/cache/composite.go")],
[("pipeline state vs. target state","the pipeline advances when a delta is evaluated, the target when it is written","pkg/controller/reconcilers.go")],
["objects in the simulated API server"])

p("C03","A restart after a crash reconverges from the API server alone",
"If the process hosting the operators dies at any instruction and a new one starts against the same API server, the Kubernetes targets become exactly what the pipelines yield on the sources that exist then, even if the old process died between evaluating and writing, or sources changed while nothing was running; target objects whose inputs were already gone when the new process first saw its sources are exempt, as nothing durable records them. Views are rebuilt from scratch and hold no object without a current source.",
["crash_points","histories","schedules"],"for every crash point at statement granularity, every set of source changes before, during and after the outage, and repeated crashes",
"No test ever kills a controller in mid-write or restarts it over existing targets.",
["pkg/operator/operator.go","pkg/kubernetes/controllers/operator.go","pkg/controller/reconcilers.go","pkg/reconciler/target.go","pkg/cache/view_cache.go"],
[("initial list replayed as additions","pkg/reconciler/source.go GetSource"),("idempotent create-or-update","pkg/reconciler/ctrlutils.go CreateOrUpdate")],
[("views","purely in memory, lost in a crash","pkg/cache/view_cache.go")],
["objects in the simulated API server","views of the restarted process"])

p("C04","Joins and aggregations do not depend on the order of events",
"For controllers that join several sources or gather and unwind lists, the incrementally maintained target equals the result of evaluating the whole pipeline once on the final sources, whatever the order and interleaving in which additions, changes and removals of the different sources arrived. Objects that meet several partners, change the key they are joined or grouped by, or leave and re-enter a join or a group, neither leave a residue nor lose a result.",
["histories","schedules","configurations"],"for every interleaved history of changes to two or three sources, including key changes and repeated add/remove, and every interleaving of the per-source workers",
"Unit tests feed a few fixed delta sequences to the pipeline from one goroutine; the order in which several sources race into one shared pipeline is never explored.",
["pkg/dbsp/op_bilinear.go","pkg/dbsp/op_nonlinear.go","pkg/dbsp/op_linear.go","pkg/dbsp/op_misc.go","pkg/dbsp/zset.go","pkg/dbsp/rewrite_engine.go","pkg/dbsp/executor.go","pkg/pipeline/op.go","pkg/pipeline/zset_adaptor.go"],
[("incremental join","pkg/dbsp/op_bilinear.go"),("gather with integrator and differentiator","pkg/dbsp/op_nonlinear.go"),("rewriting of the operator chain","pkg/dbsp/rewrite_engine.go")],
[("join and gather state","accumulated inputs per source or group","pkg/dbsp")],
["target objects in the view store / API server"])

p("C05","Controllers write only when the declared outcome changes",
"A source event that does not change what the pipeline yields causes no write to the target, a target object that is wanted before and after a change is updated in place and never deleted in between, and once the sources stop changing the controllers stop writing. Re-deliveries of unchanged objects (resynchronisations, watch reconnects, metadata-only touches the pipeline ignores) are such events. (Yielding the same object once more, from a further source object, may rewrite it in place.)",
["histories","schedules","fault_sequences"],"for every history containing effect-free source events, re-lists and reconnects, under every schedule",
"Tests look at the final object only; transient deletions and redundant writes are invisible to them.",
["pkg/pipeline/zset_adaptor.go","pkg/reconciler/target.go","pkg/reconciler/ctrlutils.go","pkg/cache/view_client.go","pkg/cache/view_cache.go"],
[("suppression of no-op deltas","pkg/pipeline/zset_adaptor.go ConvertDeltaToZSet"),("delete/add pairs folded into one upsert","pkg/pipeline/zset_adaptor.go Reconcile"),("no event for an unchanged view","pkg/cache/view_cache.go Update")],
[],["write log of the simulated API server","event log of the view store"])

p("C06","Targets keep what belongs to others",
"An Updater target replaces the content of its object but keeps labels, annotations and other metadata that others put on it; a Patcher target changes only the fields named in its patch, and withdrawing the patch removes exactly those fields. This also holds when others write the same object concurrently: no change made by another writer to data the controller does not own is ever undone.",
["schedules","histories","inputs","fault_sequences"],"for every interleaving of controller writes with writes of other clients to the same object, including stale reads and write conflicts",
"The tests have a single writer; a lost update needs another client to write between the controller's read and its write.",
["pkg/reconciler/target.go","pkg/reconciler/ctrlutils.go","pkg/object/patch.go"],
[("metadata merge","pkg/reconciler/target.go mergeMetadata"),("read-modify-write with resource versions","pkg/reconciler/ctrlutils.go Update"),("merge patch and its inverse","pkg/object/patch.go, removeNestedMap")],
[],["objects in the simulated API server after every write"])

p("C07","Concurrent use is free of data races and crashes",
"However many operators, controllers, users, watches, HTTP requests and registrations run at the same time in one process, and whatever starts, stops, fails or times out meanwhile, no two of its goroutines touch the same memory without synchronization when one of them writes, and no panic or fatal error (such as concurrent map access) ends the process.",
["schedules","histories","fault_sequences"],"for every interleaving of every kind of activity the other properties exercise: event histories, API faults, crashes, starts and stops, store clients, watches, extension API requests and registrations",
"The suites are not run with the race detector, start one component at a time and mostly drive it from one goroutine; races depend on which activities overlap.",
["pkg/cache","pkg/reconciler","pkg/controller","pkg/operator","pkg/kubernetes/controllers","pkg/apiserver","pkg/auth","pkg/manager"],
[("per-cache locks","pkg/cache/view_cache.go"),("delegating informer registry","pkg/cache/delegating_view_cache.go"),("controller status and errors","pkg/controller/declarative.go"),("registered groups","pkg/apiserver/registry.go")],
[],["memory accesses of the repository's packages","process exit"])

p("C08","The view store is a linearizable object store with isolated values",
"Concurrent creations, reads, lists, updates, patches and deletions of views behave as if executed one at a time in an order consistent with real time, each returning what the latest preceding write stored: a read never returns a mixture of two writes, and reading, updating or deleting an absent view reports not-found. Objects handed out are private copies: a caller changing an object it passed in or received never changes the store or what others see.",
["schedules","histories"],"for every interleaving of concurrent clients over a few keys and kinds, with the same or different operators' store handles",
"The unit tests call the store from one goroutine.",
["pkg/cache/view_cache.go","pkg/cache/view_client.go","pkg/cache/delegating_view_cache.go","pkg/cache/store.go"],
[("per-kind indexer","pkg/cache/view_cache.go GetCacheForKind"),("deep copies on the way in and out","pkg/cache/view_cache.go")],
[("indexers","objects by kind","pkg/cache/view_cache.go caches")],
["return values of client calls"])

p("C09","A view watch reports every change in order and ends at the true state",
"Whoever watches views, through a client watch or as the source of a controller, sees for each matching object a sequence of added, modified and deleted events that follows the order of the changes, so that replaying the events gives exactly the matching objects of the store once changes cease. It holds for watches opened while objects are changing, for label, field and namespace selectors of watches including objects that start or stop matching, for slow readers, and a stopped watch delivers nothing more and holds nobody up.",
["schedules","histories"],"for every interleaving of writers with the opening, reading and stopping of watches with every kind of selector",
"Tests open a watch on a quiet store and write from the same goroutine.",
["pkg/cache/view_cache.go","pkg/cache/view_cache_informer.go","pkg/cache/delegating_view_cache.go"],
[("event fan-out to informers","pkg/cache/view_cache.go Add/Update/Delete"),("initial list then live events","pkg/cache/view_cache_informer.go AddEventHandler"),("selector filter","pkg/cache/view_cache.go Watch")],
[("handlers","registered event handlers","pkg/cache/view_cache_informer.go")],
["events read from the watch"])

p("C10","Operators that share a view store live independently",
"Several operators on one shared view store each see every change to the views they watch, including views written by other operators, whatever operators are started, stopped or replaced at the same time. Stopping one operator never interrupts, duplicates or diverts the events of another, and an operator started later catches up with the views that already exist.",
["schedules","histories","configurations"],"for every interleaving of starting and stopping operators with changes to views that cross operator boundaries",
"The tests start a fixed set of operators once and tear everything down at the end.",
["pkg/cache/delegating_view_cache.go","pkg/cache/view_cache.go","pkg/manager/manager.go","pkg/operator/operator.go"],
[("registry of delegating informers","pkg/cache/view_cache.go RegisterDelegatingInformer/UnregisterDelegatingInformer"),("cache injection","pkg/manager/manager.go CacheInjector")],
[("delegating informers","informers of the operators sharing the store","pkg/cache/view_cache.go")],
["views produced by each operator"])

p("C11","Periodic and one-shot sources fire exactly as declared",
"A one-shot source triggers its controller exactly once per start of the controller, and a periodic source triggers it once every declared period for as long as the controller runs, starting one period after start, and never after it has stopped. A periodic trigger leaves the target exactly as the pipeline yields it on the current sources, and changes nothing if it already is.",
["schedules","configurations","histories"],"for every period, start and stop time, and every interleaving of triggers with source events",
"Real-time tests wait for one or two short ticks; they cannot count ticks over long periods nor interleave them with source events.",
["pkg/reconciler/source.go","pkg/controller/reconcilers.go","pkg/pipeline/pipeline.go","pkg/dbsp/graph_converter.go"],
[("ticker","pkg/reconciler/source.go periodicRuntimeSource.Start"),("trigger object","pkg/reconciler/source.go oneShotSource.GetSource"),("state-of-the-world evaluation","pkg/pipeline/pipeline.go Sync")],
[("snapshot graph","non-incremental form of the pipeline","pkg/dbsp/graph_converter.go")],
["trigger-driven writes over simulated time"])

p("C12","Failures stay confined and are reported, never blocking progress",
"A source object the pipeline cannot process or whose result the API server refuses, or a misconfigured controller, does not keep any other object (but those it is combined with by a join or an aggregation) or controller from converging, and once the object is corrected or removed its own results are right too. Every failure to process an object or to set up a controller is reported on the error channel and in the status of the right operator and controller, the status keeps at most the ten latest errors, and an error channel nobody reads never stops reconciliation.",
["inputs","histories","schedules","configurations"],"for every mix of good, bad, corrected and removed objects and of valid and invalid controllers, with prompt, slow or absent error readers",
"Tests provoke one error at a time and always drain the error channel.",
["pkg/controller/status_reporter.go","pkg/controller/declarative.go","pkg/controller/reconcilers.go","pkg/pipeline/zset_adaptor.go","pkg/operator/operator.go"],
[("bounded error stack","pkg/controller/status_reporter.go push"),("rate limited status trigger","pkg/controller/status_reporter.go"),("errors returned per request","pkg/controller/reconcilers.go")],
[("error stack","latest errors of a controller","pkg/controller/status_reporter.go")],
["target objects","operator status","error channel"])

p("C13","The running operators are those declared, at their latest spec",
"Once operator resources stop changing, the set of running operators equals the set of existing operator resources, each running the controllers of its latest spec and nothing of an earlier one, and each resource's status reports every controller of that spec with the resource's current generation. It holds for any history of creating, changing and deleting operator resources, in quick succession or while operators are starting or API requests fail, and an operator that was deleted or replaced writes nothing more.",
["histories","schedules","fault_sequences"],"for every history of create/update/delete of operator resources against every schedule of operator start-up and shutdown, with transient API failures",
"The tests add one operator resource, wait, and delete it; restarts and rapid replacement race conditions are not reached.",
["pkg/kubernetes/controllers/operator.go","pkg/operator/operator.go"],
[("upsert as delete and add","pkg/kubernetes/controllers/operator.go UpsertOperator"),("per-operator context","pkg/kubernetes/controllers/operator.go startOp"),("status update","pkg/kubernetes/controllers/operator.go updateStatus")],
[("operators","operators by name","pkg/kubernetes/controllers/operator.go")],
["operator status in the simulated API server","effects of the operators' controllers"])

p("C14","The extension API advertises exactly the views of the running operators",
"At any moment when no registration is in progress, the discovery documents and resource paths of the extension API server cover exactly the view kinds registered by the operators present: every registered kind is listed and served, and no kind or group of a removed operator is, while other groups stay untouched. Requests running concurrently with registrations always get a well-formed answer describing some state in between.",
["histories","schedules"],"for every interleaving of registering, re-registering with more or fewer kinds, and removing groups with discovery and resource requests",
"The tests register and unregister groups one after another on an otherwise idle server.",
["pkg/apiserver/registry.go","pkg/apiserver/dynamic_discovery.go","pkg/apiserver/resource_handler.go","pkg/apiserver/builder.go","pkg/operator/operator.go"],
[("group registry","pkg/apiserver/registry.go"),("dynamic discovery handlers","pkg/apiserver/dynamic_discovery.go")],
[("groupGVKs","registered kinds per group","pkg/apiserver/registry.go")],
["HTTP responses of the in-process server"])

p("C15","The extension API and the view store never disagree",
"Views created, read, listed, changed, patched, deleted or watched through the extension API are the very objects in the view store: an acknowledged write is immediately visible to store clients and controllers, a store change is immediately visible through the API, and failures are reported with the matching status (absent views as not found). It holds for any interleaving of API clients, store clients and controllers.",
["schedules","histories"],"for every interleaving of HTTP clients, store clients and controllers over a few views",
"The tests issue one request at a time and inspect the store in between.",
["pkg/apiserver/storage.go","pkg/apiserver/resource_handler.go","pkg/apiserver/codec.go","pkg/cache/view_client.go"],
[("storage delegating to the store client","pkg/apiserver/storage.go"),("codec for unstructured views","pkg/apiserver/codec.go")],
[],["HTTP responses of the in-process server","view store content"])

p("C16","Tokens grant what they say, while they are valid, and nothing else",
"A request to a protected server succeeds only with a token signed by the server's key, within the token's validity period at the moment of the request, and only if the token's namespaces and rules allow the operation; every such request is let through, every other one is refused as unauthenticated or forbidden. It holds however clocks run between issuing and use, and for tokens used concurrently.",
["inputs","histories","schedules","fault_sequences"],"for every combination of issue time, lifetime, clock skew and jump, namespaces and rules, keys and request",
"Tests check fresh tokens and one already expired token; nothing exercises validity boundaries, clock jumps or concurrent use.",
["pkg/auth/token.go","pkg/auth/authenticator.go","pkg/auth/authorizer.go","pkg/auth/rbac.go"],
[("JWT validation","pkg/auth/authenticator.go"),("namespace and rule check","pkg/auth/authorizer.go")],
[],["authentication and authorization decisions"])

p("C17","Shutdown is prompt, complete and clean",
"When the context of an operator, an operator controller or the API server is cancelled, at any moment including start-up and with events, errors and watches in flight, it stops within a bounded time without panicking or deadlocking, its goroutines end, and afterwards it writes nothing more. The start call returns no error for such an orderly stop.",
["schedules","crash_points","histories"],"for every instant of cancellation relative to start-up, event processing, error reporting and watching",
"Tests cancel once at the end of each test and do not look at what happens afterwards.",
["pkg/kubernetes/controllers/operator.go","pkg/operator/operator.go","pkg/apiserver/apiserver.go","pkg/cache/view_cache.go","pkg/cache/delegating_view_cache.go","pkg/reconciler/source.go"],
[("context propagation","pkg/kubernetes/controllers/operator.go Start/startOp"),("informer shutdown","pkg/cache/delegating_view_cache.go Start")],
[],["return of the start call","live goroutines","writes after the stop"])

with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
