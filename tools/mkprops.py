#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
M = "go/tricorder/metric.go"; A = "go/tricorder/api.go"; H = "go/tricorder/html.go"; J = "go/tricorder/json.go"
R = "go/tricorder/rpc.go"; HT = "go/tricorder/http.go"; S = "go/tricorder/setup.go"; W = "go/tricorder/wrapper/syscall_linux.go"
HS = "go/healthserver/impl.go"; MSG = "go/tricorder/messages/metric.go"
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))
FRONT = ["GET /metrics/...", "GET /metrics/...?format=text", "GET /metricsapi/...", "GET /metricsapi/...?singleton=true",
         "RPC MetricsServer.ListMetrics", "RPC MetricsServer.GetMetric", "tricorder.ReadMyMetrics"]

p("C01", "A response never mixes two states of one group",
  "All metrics of one group that appear in one response (HTML, text, JSON, Go RPC or ReadMyMetrics; a single metric or a whole subtree) show the values left by one and the same completed run of that group's update function. No response ever shows a value from the middle of an update, or values from two different updates of the same group, whatever other requests, updates or slow clients overlap with it.",
  ["schedules", "histories", "fault_sequences"],
  "for every interleaving of any number of concurrent requests through any front end with the groups' update functions, including slow, failing and disconnecting clients",
  "The tests run one request at a time on one goroutine; a torn or mixed view needs an update to start while another request is half way through reading.",
  [M, H, J, R], [("session.Visit/Close", M), ("region event loop (lock count, update on first holder)", M), ("one session per request", J + ", " + R + ", " + H)], FRONT)

p("C02", "Group updates: once per request, before reading, never during another's reading",
  "Every request that reads metrics of a group sees data from an update that started after the request arrived, unless an unbroken chain of overlapping requests on that group has kept an earlier update's data in use; a request that overlaps no other one on that group runs the update function exactly once, and a request that reads nothing from the group never runs it. The update function never runs twice at the same time for one group and never starts while a request that has begun reading the group is still reading it. Once a request is over, however it ended (complete, client gone, callback panicked), it no longer keeps the group's old data in use.",
  ["schedules", "histories", "fault_sequences"],
  "for every interleaving of overlapping requests and every way for a request to end, at any byte of its response",
  "Tests count update calls for a couple of sequential or nested sessions; overlapping request chains and requests that die half way are not sampled.",
  [M, A], [("region.handleLockUnlock", M), ("session.Close in every exit path", M + ", " + H + ", " + J + ", " + R)], FRONT + ["Group update functions"])

p("C03", "Timestamps and group ids identify the update the values came from",
  "A reported metric of a group carries the time its group's update function returned for exactly the update that produced the reported value (the current system time for groups without an update function), identically in JSON and Go RPC and for all metrics of the group in the response. Group ids are stable for the life of the process, equal for all metrics of a group, and different for different groups, distributions and lists, no matter how many are created concurrently.",
  ["schedules", "histories", "inputs"],
  "for every interleaving of requests, updates and concurrent creation of groups, distributions and lists, and every time value an update function returns, including clock steps",
  "Tests check ids and timestamps for a few sequential cases with a fixed clock; concurrent creation and concurrent updates are not sampled.",
  [M, A], [("region.updateTime", M), ("idGenerator", M), ("value.updateJsonOrRpcMetric", M)], FRONT[2:])

p("C04", "Replacing a group's update function takes effect atomically",
  "Once RegisterUpdateFunc returns, every later update of the group runs the new function and never the replaced one; until then each update runs exactly one of the two, completely. Replacing the function never changes what a request already reading the group sees, never triggers an update by itself, and completes even while requests hold the group.",
  ["schedules", "histories"],
  "for every interleaving of RegisterUpdateFunc calls with each other and with requests on the group",
  "Tests replace an update function only while nothing else runs.",
  [M, A], [("region.registerUpdateFunc / handleUpdateFunc via the event loop", M)], ["Group.RegisterUpdateFunc"] + FRONT)

p("C05", "Distributions are linearizable and snapshots are never torn",
  "Concurrent Add, Update and Remove calls on a distribution, its Sum and Count methods and the snapshots reported by every front end behave as if they happened one at a time in an order consistent with real time; no change is lost or counted twice. In every reported snapshot count, sum, average, per-range counts and range bounds describe one and the same set of values, each value counted in the range that contains it (lower bound inclusive, upper exclusive); min and max are exact while values are only added and are otherwise bracketed by the all-time and the current extremes, and the median lies within the range that holds the middle value.",
  ["schedules", "histories", "inputs"],
  "for every interleaving of updaters and readers and every sequence of values, including values exactly on range bounds, through every front end",
  "Tests add a fixed list of values from one goroutine and look at the snapshot afterwards.",
  [M, A], [("distribution.lock", M), ("distribution.add/update/remove", M), ("distribution.Snapshot", M)], FRONT + ["Distribution.Sum/Count"])

p("C06", "A distribution's generation and timestamp identify its content",
  "The generation reported for a distribution is exactly the number of changes made to it so far: it grows by one with every completed Add, Update or Remove, never goes backwards, and two snapshots with equal generation have equal content. The reported timestamp is the time of the change that produced the reported content (creation time if none yet), so on a clock that does not step back it never decreases as the generation grows; the reported cumulative/non-cumulative flag never changes.",
  ["schedules", "histories", "inputs"],
  "for every interleaving of changes and snapshots and every clock resolution, including distributions that become empty again",
  "Tests check generation and timestamp after sequential calls with injected times; races between reading the clock and applying the change cannot show.",
  [M], [("distribution.generation, timeStamp", M), ("distribution.Snapshot", M)], ["messages.Distribution.Generation", "messages.Metric.TimeStamp"])

p("C07", "A distribution has one unit, and rejected operations leave no trace",
  "A distribution gets its unit from the first registration and keeps it: of concurrent registrations with different units exactly one unit wins, registrations with that unit succeed, the others return ErrWrongUnit and publish nothing, and every duration added is converted with the winning unit. Operations that panic (no unit assigned yet, value of an unsupported type, duration on a non-time unit, Update or Remove on an empty distribution or of an old value whose range holds none) change nothing observable and leave the distribution usable by everyone else.",
  ["schedules", "histories", "inputs"],
  "for every interleaving of registrations, valid operations and rejected operations",
  "Tests exercise each rejection alone and never race registrations of one distribution.",
  [M, A], [("distribution.SetUnit", M), ("distribution.valueToFloat under the lock", M)], ["RegisterMetric", "Distribution methods"] + FRONT)

p("C08", "A list is read as one consistent value, isolated from its caller's slice",
  "Every reported value of a list metric is exactly the sequence passed to NewList or to one Change call, with the time of that call as timestamp, and reads and Changes are linearizable. Modifying the slice afterwards never changes what is reported when it was passed as MutableSlice (or is an []int or []uint, whatever the flag), and a Change to another element type panics without any effect.",
  ["schedules", "histories", "inputs"],
  "for every interleaving of Change calls, caller-side modification of the slices and requests through every front end, for every supported element type and length",
  "Tests change lists sequentially; a reader overlapping a Change or a caller reusing its slice while a response is written is not sampled.",
  [M, A], [("listType.lock, ChangeWithTimeStamp, get", M), ("asSliceValue defensive copy", M)], FRONT + ["List.Change"])

p("C09", "One path, one owner: registration is atomic with a single winner",
  "At any time a path names at most one thing, a metric or a directory: of concurrent registrations for the same path, or of a metric where a directory is needed, exactly the ones consistent with a sequential order succeed and the others return ErrPathInUse without disturbing the winner. After RegisterMetric or RegisterDirectory succeeds the object is reachable at that path through every front end with the registered value, unit and description until it is unregistered, and RegisterDirectory and GetDirectory return handles to that same directory.",
  ["schedules", "histories", "inputs"],
  "for every interleaving of registrations, lookups and unregistrations on overlapping paths",
  "Tests register from one goroutine; lost or double registrations need two registrations inside the same directory at the same time.",
  [M, A], [("directory.createDirIfNeeded, storeMetric under directory.lock", M)], ["RegisterMetric", "RegisterDirectory", "GetDirectory"] + FRONT)

p("C10", "Unregistering removes exactly what was named",
  "After UnregisterPath or UnregisterDirectory returns, what it named and everything below it is no longer reported and its path can be registered anew, while every other path is untouched; the root cannot be removed. A handle to an already unregistered directory is harmless: unregistering through it never removes a newer directory that took over the path, and metrics registered through it succeed but are not reported to any later request.",
  ["schedules", "histories"],
  "for every interleaving and sequence of register, unregister and re-register operations by path and by handle",
  "Tests unregister in a few fixed sequences; stale handles racing with re-registration are not sampled.",
  [M, A], [("directory.removeChildDirectory identity check", M), ("directory.unregisterPath", M)], ["UnregisterPath", "DirectorySpec.UnregisterDirectory", "DirectorySpec.UnregisterPath"] + FRONT)

p("C11", "Listings are complete, free of duplicates and ordered, even under churn",
  "A listing of a path contains every metric at or below it that was registered during the whole request exactly once, none that was unregistered during the whole request, and no metric twice; entries come in depth-first order with siblings sorted by name. This holds for JSON, Go RPC, text and ReadMyMetrics listings and, one level deep with links for subdirectories, for HTML, however registrations and unregistrations elsewhere in the tree interleave with the request.",
  ["schedules", "histories", "inputs"],
  "for every interleaving of listings through every front end with registrations and unregistrations, and every map iteration order",
  "Tests list a tree nobody is changing.",
  [M, H, J, R], [("directory.listUnsorted under lock + sort", M), ("directory.GetAllMetrics", M)], FRONT)

p("C12", "All front ends report the same typed value",
  "For every supported variable, callback, time, duration, list, distribution and flag metric, each front end reports the path, description, unit, type, size and value that were registered, converted faithfully: Go RPC and ReadMyMetrics give the exact Go value, JSON and text an exact decimal rendering in the metric's unit, HTML its documented human rendering. Two front ends asked about the same state never disagree. A client that converts a reported metric with ConvertToGoRPC or ConvertToJson gets the value, type and timestamp the other form reports (a time that is not set is 0 in JSON).",
  ["schedules", "histories", "inputs", "configurations"],
  "for every metric type, unit and value, while updates, requests and registrations run concurrently",
  "Tests check each renderer separately on a few values with nothing else running.",
  [M, H, J, R, MSG, "go/tricorder/duration/duration.go"], [("value.AsInterface / AsTextString / AsHtmlString", M), ("Metric.ConvertToJson", MSG)], FRONT)

p("C13", "Lookups report presence and absence in the documented way",
  "A request for a path answers according to a state of the tree at some moment of the request: an existing metric or directory is served, and a path that does not exist gives a 404 for a JSON singleton, messages.ErrMetricNotFound for Go RPC GetMetric, an empty list for JSON, Go RPC and ReadMyMetrics listings, and a \"Path does not exist\" page for HTML and text. Empty and blank path components never change the meaning of a path, a directory is not a metric, and no lookup creates, changes or removes anything.",
  ["schedules", "histories", "inputs"],
  "for every path spelling and every interleaving of lookups with registrations and unregistrations of that path or its ancestors",
  "Tests look up fixed paths in a quiet tree and do not go through the HTTP and RPC front ends.",
  [M, H, J, R, "go/tricorder/messages/api.go"], [("directory.getDirectoryOrMetric", M), ("newPathSpec", M), ("jsonHandlerFunc / rpcType / htmlAndTextHandlerFunc", J + ", " + R + ", " + H)], FRONT)

p("C14", "A failing client or callback harms nobody else",
  "When a client disconnects or its connection fails at any byte, stalls, or a metric callback panics while serving HTTP, only that request is affected: every other response is complete and correct, the process stays up, and once the faults are over every front end, group, distribution, list and directory works exactly as if the failed request had never been made. Failed requests leave nothing behind: no held group, no open file, no growing set of background tasks.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "for every byte offset at which a response can fail, every callback that can panic, and every interleaving with healthy requests",
  "Tests never inject a failing writer or a panicking callback.",
  [M, H, J, HT, S], [("deferred session.Close", M), ("handleError", HT), ("gzipHandler deferred Close", HT)], FRONT)

p("C15", "Delivered bytes are exactly the response, or a prefix of it",
  "While the registered state does not change, every client that asks for the same URL receives byte for byte the same complete body and the same headers, no matter how many requests are served concurrently or how their clients read; a client whose connection fails has received a prefix of exactly that body. The content type says what the body is (JSON, plain text or HTML), and an announced length is the length sent. A JSON response to a client that accepts gzip is a complete gzip stream that decompresses to exactly the body other clients get, and a client that does not accept gzip never gets one.",
  ["schedules", "fault_sequences", "inputs"],
  "for every interleaving of concurrent requests, every split of the response into partial writes and every failure offset",
  "Tests do not exercise the HTTP handlers at all.",
  [HT, H, J], [("gzipHandler", HT), ("per-request buffers", J), ("textCollector / html template to the client's writer", H)], FRONT[:4] + ["/has-tricorder-metrics", "/metricsstatic/theme.css"])

p("C16", "Slow clients and slow groups delay only those who depend on them",
  "No combination of requests, registrations, unregistrations, updates, distribution and list operations ever deadlocks: every operation finishes in a bounded number of steps once the clients and user functions it waits for proceed. A client that stops reading in the middle of any response delays no other request and no application call, and a slow update function delays only requests for and function replacement on its own group. Metric callbacks may themselves register, unregister and read metrics.",
  ["schedules", "fault_sequences", "histories"],
  "for every interleaving, every point at which a client can stall and every slow update function or callback",
  "Tests have no slow client and no concurrency; a deadlock needs a particular interleaving.",
  [M, H, HT, A], [("no lock held while writing to a client or calling user code", M + ", " + H), ("region event loop", M)], FRONT + ["application API"])

p("C17", "Values JSON cannot carry never spoil a listing",
  "A float metric whose value is NaN or infinite is left out of recursive listings (JSON, Go RPC, text and ReadMyMetrics) and comes back as soon as its value is finite again. Whatever floats variables, callbacks, lists and distributions hold, and even if they change in the middle of a request, a JSON listing is a valid JSON array that contains every other metric.",
  ["schedules", "histories", "inputs"],
  "for every placement of NaN and infinities in the tree and every interleaving of their appearance with requests",
  "Tests check one NaN and one infinity that never change; values that turn NaN between the check and the rendering are not reachable.",
  [M, J], [("collect / IsInfNaN", M), ("jsonMetricsCollector", J)], FRONT)

p("C18", "Health and readiness answers are the latest state set",
  "Before any call /healthz answers 200 with OK and /readiness answers 503 with \"not ready\"; afterwards each answers the latest state set for it (200 OK, or 503 with exactly the given status text), linearizably with concurrent setters, and never a mixture of two states or of health and readiness. SetNotHealthy and SetNotReady with \"\" or \"OK\" panic and change nothing.",
  ["schedules", "histories", "inputs"],
  "for every interleaving of setters and requests and every status string",
  "There are no tests for this package.",
  [HS, "go/healthserver/api.go"], [("package mutex around the status strings", HS)], ["GET /healthz", "GET /readiness", "healthserver.Set*"])

p("C19", "Process metrics are one coherent, correctly scaled reading of the system",
  "In any response all resource-usage metrics under /proc (CPU times, memory sizes, faults, I/O, IPC, signals, context switches) come from one and the same successful reading of the operating system, made for that request or shared with an overlapping one, converted to the unit they are reported in; total memory and the open file descriptor count likewise come from one reading. Each such metric carries the time of the reading it shows. If a reading fails or is implausible the last good values stay in place (-1 for the descriptor count), nothing else is affected and no descriptor leaks; program name, arguments and start time are those of the process.",
  ["schedules", "fault_sequences", "inputs"],
  "for every interleaving of requests and every sequence of system answers, including errors and implausible counters",
  "The tests do not look at the built-in metrics: their values come from the operating system and cannot be predicted.",
  [S, W], [("resourceUsageGroup / memStatsGroup update functions", S), ("wrapper.Getrusage", W), ("countOpenFileDescriptors", S)], ["/proc/* metrics in every front end"])

p("C20", "The library has no data races of its own",
  "Concurrent use of the whole public interface (requests through every front end, registrations and unregistrations, groups, distributions, lists, health state) never accesses the library's own memory without ordering: any two conflicting accesses are ordered by the library's own synchronisation.",
  ["schedules", "histories"],
  "for every interleaving of every combination of public operations (except replacing flags or package variables)",
  "Tests are single-goroutine, so the race detector has nothing to observe.",
  [M, A, H, J, R, HS], [("locks and event loops around shared state", M)], ["every memory access of the library"])

p("C21", "JSON and Go RPC forms of a metric convert into each other faithfully",
  "Converting a metric message from its Go RPC form to JSON form and back yields the same value, type and timestamp, and malformed input yields an error, never a wrong value.",
  ["inputs"], "for every metric value, unit and malformed string",
  "Tests sample a few values.", [MSG, "go/tricorder/messages/api.go"], [("convertToJson / convertToGoRPC", MSG)], ["messages.Metric.ConvertToGoRPC", "messages.Metric.ConvertToJson"])
p("C22", "Durations and times parse and format without loss",
  "Formatting a duration or time in a unit and parsing it back yields the same value for every representable value, and unparsable text yields an error.",
  ["inputs"], "for every duration, time, unit and string", "Tests sample a few values.",
  ["go/tricorder/duration/duration.go"], [("Duration.toString / parse / convert", "go/tricorder/duration/duration.go")], ["duration.ParseWithUnit", "Duration.StringUsingUnits"])
p("C23", "Bucketers partition the number line",
  "Every bucketer constructor yields ascending ranges that cover every number exactly once with the documented endpoints, or panics on invalid arguments.",
  ["inputs"], "for every constructor argument", "Tests sample a few argument lists.",
  [M, A], [("newBucketerFromEndpoints and the stream constructors", M)], ["Bucketer constructors"])
p("C24", "Type descriptors agree with the values they describe",
  "The type, sub-type, size, zero value and float conversion reported for a value agree with each other for every supported type.",
  ["inputs"], "for every supported type and value", "Tests sample a few values.",
  ["go/tricorder/types/api.go", "go/tricorder/types/types.go"], [("FromGoValueWithSubType, ToFloat, FromFloat", "go/tricorder/types/api.go")], ["types.Type methods"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
