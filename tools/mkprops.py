#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that it is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=False):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

# ---------------------------------------------------------------- shutdown
prop("C01", "Shutdown completes only when every hold has been released",
 "While at least one hold on the process shutdown is outstanding, no completion notification fires (whether it was requested before or after that hold was taken) and the blocking wait does not return. As soon as the last hold is released, every pending completion notification fires and the blocking wait returns. Holds may be taken, released and awaited concurrently, in any order, without crashing the process or losing a hold.",
 ["schedules","histories"], "every history of taking/releasing holds, starting the shutdown and asking for completion, under every interleaving of the callers",
 "the single test takes one hold and releases it once, in one order; the guarantee is about every count of holds and every moment at which a waiter is registered",
 ["shutdown/shutdown.go","shutdown/accessors.go"],
 [("outstanding holds","how many services still forbid completion","shutdown/shutdown.go: shutter"),("waiters","completion channels handed out","shutdown/shutdown.go: done")],
 [("hold counting","shutdown/shutdown.go: hold, holdAndWait, done"),("blocking wait","shutdown/shutdown.go: waitForSignal")],
 ["Hold/Release/Done/WaitForSignal/Begin of package shutdown, in one process per history"])
prop("C02", "Shutdown start is an idempotent one-way broadcast with a five second echo",
 "Nobody observes the shutdown as started before the first start request; afterwards every past and future observer does, and further or concurrent start requests have no effect. The delayed notification fires once, for every observer, five seconds after the first start request and never earlier. A combined hold-and-wait counts as a hold from the moment it is called, but returns only once the shutdown has started.",
 ["schedules","histories"], "every number and interleaving of start requests, observers and hold-and-wait calls",
 "tests start once with one observer; repeated/concurrent starts and the timing of the delayed notification are never sampled",
 ["shutdown/shutdown.go"],
 [("started","shutdown has begun","shutdown/shutdown.go: shutter.ch"),("late","five seconds have elapsed","shutdown/shutdown.go: shutter.ch5")],
 [("begin","shutdown/shutdown.go: begin"),("holdAndWait","shutdown/shutdown.go: holdAndWait")],
 ["Begin/Started/Started5Sec/HoldAndWait of package shutdown"])
prop("C03", "Termination signals escalate: graceful, cancel, exit",
 "While waiting for signals, the first interrupt/terminate/quit signal starts the graceful shutdown and does nothing else, the second cancels the root context handed in, and the third ends the process with a non-zero status, in whatever mix these signals arrive. If the holds are released at any point of this sequence the wait returns normally, and a signal delivered while holds come and go is neither lost nor counted twice.",
 ["histories","schedules"], "every sequence of SIGINT/SIGTERM/SIGQUIT interleaved with releases and explicit starts",
 "no test sends a signal at all",
 ["shutdown/shutdown.go"],
 [("signal count","how many signals were handled","shutdown/shutdown.go: waitForSignal")],
 [("waitForSignal","shutdown/shutdown.go: waitForSignal")],
 ["real signals to a child process; its started/cancelled/returned/exit status"])
# ---------------------------------------------------------------- http
prop("C04", "A listening HTTP server is drained before shutdown completes",
 "A successful listen returns the bound address only once the server accepts connections, a failing one returns an error, and listening never blocks forever, not even when the shutdown has already started. From a successful listen until the server has stopped and every request in flight at the start of the shutdown has been answered, the shutdown does not complete; requests in flight get their full response. After the shutdown has started new connections are refused, and once the servers are idle the shutdown completes.",
 ["schedules","histories"], "every ordering of listen, requests entering/leaving handlers and shutdown start, for one or more servers",
 "tests never shut a server down; the guarantee concerns the order of asynchronous events",
 ["http/server.go","shutdown/shutdown.go"],
 [("server phase","starting, serving, draining, stopped","http/server.go: Listen"),("in-flight requests","handlers not yet returned","net/http")],
 [("Listen","http/server.go: Listen"),("holds","shutdown/shutdown.go")],
 ["real TCP loopback clients against servers started in a child process"])
prop("C05", "HTTP responses follow the request/response contract and leak no internals",
 "A JSON request handler that succeeds yields 200 with exactly the bytes produced and a JSON content type, or 204 with no body when nothing was produced; one that fails yields the status carried by its error (500 if none), with the error text and tracking id below 500 and never any error text at 500 and above. An undecodable or invalid request to a registered API object is answered with a 4xx status and its operation does not run. A body which cannot be read to its end, or not within the read timeout of a handler which has one, is answered with a 4xx status and never reaches the handler. Bodies are compressed only for clients that accept gzip, and decompress to exactly the same bytes.",
 ["inputs","configurations"], "every combination of handler outcome (error class, wrapping, code), output size, request body shape, and client encoding support",
 "tests sample a handful of outcomes; the contract is the full decision table",
 ["http/server.go","http/api.go","http/error.go"],
 [("outcome","handler result, error code and size","http/server.go: handleRequest")],
 [("handleRequest","http/server.go"),("ErrorCode","http/error.go"),("RegisterAPI","http/api.go")],
 ["status line, headers and body as seen by an HTTP client"])
prop("C06", "Each HTTP request is measured exactly once, under the status it was sent",
 "For every request served, the request metric grows by exactly one observation in total, labelled with the request's method, a path and the status code the client actually received (200 when the handler never sets one). Only the first status a handler sets is sent, and concurrent requests never disturb each other's observations. The liveness probe always answers 204 and the readiness probe answers the most recently set code.",
 ["histories","schedules","inputs"], "every handler behaviour (no write, write, explicit/duplicate status), registration method and concurrent request mix",
 "tests never read the request metric back",
 ["http/server.go","http/mux.go","http/metrics.go"],
 [("code","status recorded for the request","http/mux.go: response"),("ready","readiness code","http/server.go: Server.ready")],
 [("response wrapper","http/mux.go"),("observe","http/metrics.go")],
 ["GET /metrics, GET /ready, GET /live through the server's handler"])
# ---------------------------------------------------------------- api
prop("C07", "API fields only travel in their declared direction",
 "A field crosses from client to server only if declared as input and from server to client only if declared as output: values a client supplies for any other field are ignored by the server, and values of any other field never appear in a response or change the caller's object. A request in which a required input is absent or zero is rejected, an auth field is filled only from the authenticated identity and its absence rejects the request only when required.",
 ["configurations","inputs"], "every combination of field tags over small objects, and every presence/absence of values in request and response",
 "tests use three fixed structs; the guarantee is over every tag combination and payload",
 ["api/handler.go","api/tag.go","api/json.go"],
 [("field flow","in, out, required, auth of each field","api/tag.go: tag")],
 [("Client.Send/Server.Recv/Server.Send/Client.Recv","api/handler.go"),("parseTags","api/tag.go")],
 ["NewHandler/Client/Server Send and Recv on dynamically built struct types"])
prop("C08", "Concurrent API requests are isolated and share only the registered state",
 "Every request to a registered API object is executed on a fresh copy: its untagged fields start with the values given at registration, its input fields come from this request alone, and nothing written during one request, including by a failed one, is visible in another request or in the registered object. State reachable through registered pointers is shared by all requests.",
 ["schedules","histories"], "every interleaving of concurrent requests with different payloads, outcomes and missing fields",
 "tests issue requests one at a time",
 ["api/handler.go","http/api.go"],
 [("request object","per request copy","api/handler.go: Recv"),("registered state","initial values","api/handler.go: Handler.init")],
 [("Recv","api/handler.go"),("RegisterAPI","http/api.go")],
 ["concurrent Server.Recv/Send and HTTP posts"])
prop("C09", "The OpenAPI document describes exactly what each endpoint accepts and returns",
 "After registering objects, the published document has an entry for every registered path whose request schema lists exactly the input fields (with exactly the required ones marked), whose response schema lists exactly the output fields, and whose security section exists iff there is an auth field, with an anonymous alternative iff auth is optional. Registering one object never changes the entry of another path, and a registration which is refused leaves nothing behind: what is served is exactly what is documented.",
 ["configurations","histories"], "every combination of field tags and every sequence of registrations",
 "tests check a few hand written documents",
 ["api/handler.go","api/openapi/path.go","http/server.go"],
 [("paths","documented entries","api/openapi/openapi.go: Service.Paths")],
 [("UpdateOpenAPI","api/handler.go"),("HandleRequest","http/server.go")],
 ["/openapi.json and the returned service description"])
# ---------------------------------------------------------------- ws
prop("C10", "WebSocket calls run one at a time, in order, each answered exactly once",
 "On one connection, messages are processed strictly in arrival order with no two handlers overlapping, while different connections progress independently. Every call produces exactly one return frame on its channel and path, carrying the failure iff the handler failed (then followed by one error frame on the channel), after all replies the handler itself sent. A failing handler leaves the connection usable; a panicking one, an unknown channel, path or a malformed message ends only that connection after at most a disconnect notice.",
 ["schedules","histories","inputs"], "every sequence of frames on several connections and every outcome of each handler",
 "tests drive one connection with a scripted exchange",
 ["http/ws/conn.go","http/ws/channel.go","http/ws/rpc.go","http/ws/reflect.go"],
 [("inbox","messages received and not yet handled","http/ws/conn.go: Loop"),("outgoing frames","frames sent to the client","http/ws/ws.go: Write")],
 [("Loop","http/ws/conn.go"),("onData","http/ws/channel.go"),("build","http/ws/reflect.go")],
 ["frames written and read by a WebSocket client, and handler entry/exit"])
prop("C11", "WebSocket channels are isolated and route to their own object",
 "Opening a channel creates a fresh object with the public values given at registration, and calls on a channel reach only that object: state changed through one channel is never visible through another channel or connection unless reached through a shared registered pointer. Closing a channel, by either side, makes it unknown to the connection while the other channels keep working, and reopening an identifier starts from fresh state. If the object's initializer fails, the client is told and the channel is not usable.",
 ["histories","schedules"], "every sequence of open, call, close and reopen over several channels, objects and connections",
 "tests open one or two channels once",
 ["http/ws/rpc.go","http/ws/channel.go","http/ws/reflect.go","http/ws/handler.go"],
 [("channels","open channel identifiers and their objects","http/ws/rpc.go: RpcConn.byChan")],
 [("onFrame","http/ws/rpc.go"),("build","http/ws/reflect.go"),("Close","http/ws/channel.go")],
 ["frames seen by a WebSocket client"])
prop("C12", "No byte sequence from a WebSocket client harms the server or other clients",
 "Whatever frames a client sends (text, binary, ping, pong, continuation, close, unknown opcodes, invalid JSON, wrong shapes, oversized or truncated frames, abrupt disconnects), the process survives, other connections keep being served, and the offending connection either keeps working or is closed and its resources, including its hold on shutdown, are released.",
 ["inputs","histories","fault_sequences"], "every sequence of frame kinds and disconnects on one connection, concurrently with healthy connections",
 "tests only ever send well formed text frames",
 ["http/ws/ws.go","http/ws/conn.go","http/ws/handler.go"],
 [("connection","alive, closed","http/ws/conn.go: Conn")],
 [("read","http/ws/ws.go"),("Loop","http/ws/conn.go")],
 ["raw frames to an in-process server, a probe connection, and completion of shutdown"])
prop("C13", "Frames sent concurrently on one WebSocket are whole and in sender order",
 "Any number of goroutines may send on, or close, one connection at the same time: a client which is not itself sending at the time of the close receives a well formed stream in which every message whose send reported success before the close appears exactly once and intact, messages from one goroutine appear in the order sent, and nothing follows a close frame.",
 ["schedules"], "every interleaving of concurrent senders and a closer",
 "a race between writers shows up only under particular schedules",
 ["http/ws/ws.go","http/ws/conn.go"],
 [("write lock","who is writing a frame","http/ws/ws.go: wsImpl")],
 [("Write/Close","http/ws/ws.go")],
 ["bytes received by the peer of the connection"])
prop("C14", "A WebSocket connection holds the shutdown from accept to teardown",
 "For every accepted connection the connect callback runs first and exactly once, data callbacks run only after it succeeded and see the context it returned, and if it fails no data is ever delivered and the connection is closed. A hold on the shutdown is kept from accept until the handler has returned, on every exit path, and cancelling the connection's context ends it; when the connection ends, its context is cancelled.",
 ["histories","schedules","fault_sequences"], "every exit path (client close, drop, callback error, panic, cancellation) at every point of the connection's life",
 "tests only cover a successful exchange",
 ["http/ws/handler.go","http/ws/conn.go"],
 [("phase","connecting, open, closed","http/ws/handler.go: Server"),("hold","shutdown hold of the connection","shutdown")],
 [("Handler.Server","http/ws/handler.go"),("Loop","http/ws/conn.go")],
 ["callbacks, frames and shutdown completion"])
# ---------------------------------------------------------------- caches
prop("C15", "The size-bounded cache evicts least-recently-used entries and stays in bounds",
 "A lookup of a cached key returns the cached value without calling the loader and makes it the most recently used; a lookup of an uncached key calls the loader exactly once and caches the value unless the loader failed or reported size zero. The total size of the cached entries never exceeds the limit after a lookup, exactly the least recently used entries are evicted to make room, and an invalidated key is reloaded on next use without disturbing the others. This holds for concurrent callers as if their calls ran one after the other.",
 ["histories","schedules"], "every sequence of lookups and invalidations, entry sizes (including oversized and zero) and loader failures, and concurrent callers",
 "tests replay one sequence and do not check recency",
 ["utils/caches/lru.go"],
 [("entries","keys, values, sizes in recency order","utils/caches/lru.go: lruHeap")],
 [("Get/Invalidate","utils/caches/lru.go")],
 ["Get results, loader calls, the listed keys"])
prop("C16", "The request cache fetches each key once per lifetime and never mixes keys",
 "Concurrent requests for one key while it is absent or expired result in a single fetch whose outcome, value or error, is given to all of them and to later requests until its time-to-live elapses; a fetch with no time-to-live is not reused by later requests. Requests for different keys do not wait for each other's fetches, and a request started after an invalidation never sees an outcome fetched before it. At most the configured number of keys is retained.",
 ["schedules","histories"], "every interleaving of requests, fetches, expirations and invalidations over several keys",
 "the only test is skipped as racy",
 ["utils/caches/request.go","utils/caches/lru.go"],
 [("entry","value, error, expiry, being fetched","utils/caches/request.go: entry")],
 [("Request/Invalidate","utils/caches/request.go")],
 ["Request results and fetch start/end, in virtual time"])
prop("C17", "The unbounded cache loads each key at most once between invalidations",
 "Between two invalidations of a key, at most one load of it succeeds, and every lookup after that load returns its value as a hit; failed loads are reported to their caller and not remembered. Invalidating a key forgets only that key. Concurrent callers observe this as if their calls ran one after the other.",
 ["histories","schedules"], "every history of lookups, failing loads and invalidations over several keys by concurrent callers",
 "tests run one sequence in one goroutine",
 ["utils/caches/mem.go"],
 [("m","cached keys and values","utils/caches/mem.go: memCache")],
 [("Get/Invalidate","utils/caches/mem.go")],
 ["Get results and loader calls"])
# ---------------------------------------------------------------- sync
prop("C18", "The typed concurrent map and set are linearizable for every value",
 "Every concurrent history of store, load, load-or-store, delete and load-and-delete on the typed map, and of add, remove and has on the set, is equivalent to some sequential order consistent with real time, for every value including nil and zero values. Iteration visits every key present throughout exactly once with a value it held meanwhile, never a key absent throughout, and stops when asked to; copying or serializing the map works for every value it can store.",
 ["schedules","histories","inputs"], "every concurrent history over small key and value sets, including nil values",
 "tests use two goroutine-free sequences",
 ["utils/sync/map.go","utils/lists/set.go"],
 [("content","current key/value pairs","utils/sync/map.go: Map")],
 [("operations","utils/sync/map.go, utils/lists/set.go")],
 ["results of the exported operations"])
prop("C19", "A timed lock attempt either owns the lock or leaves no trace",
 "A timed lock attempt ends when its timeout has passed at the latest (but for scheduling delays); one that reports success holds the lock exclusively until unlocked, one that reports failure does so only after its timeout with the lock never having been available to it throughout, and leaves the lock exactly as if it had never been tried: the lock is always eventually available again to others and no goroutine remains blocked. Mixed plain and timed users never hold it at the same time.",
 ["schedules"], "every interleaving of plain lockers, unlockers and timed attempts with every timeout",
 "there is no test; the failure modes are leaks and stolen locks in narrow windows",
 ["utils/sync/mutex.go"],
 [("owner","who holds the lock","utils/sync/mutex.go: Mutex")],
 [("TryLock","utils/sync/mutex.go")],
 ["results of Lock/TryLock/Unlock in virtual time and goroutines left over"])
# ---------------------------------------------------------------- prom
prop("C20", "Metrics lose no update and every scrape is a consistent snapshot",
 "After any set of concurrent updates has finished, each counter, gauge and histogram series reports exactly the sum (and, for histograms, count and per-bucket counts) of the updates made to its own label values, and no others. A scrape taken at any moment, also while series are being created or updated, succeeds and shows for each series a state between the updates completed before it and those started before its end, with histogram buckets cumulative, non-decreasing and equal to the count at +Inf. A scrape whose reader is slow or stalled holds up no update and no other scrape.",
 ["schedules","histories"], "every interleaving of updates over several label values and scrapes",
 "tests update from one goroutine and compare one printout",
 ["utils/prom/counter.go","utils/prom/gauge.go","utils/prom/histogram.go"],
 [("series","per label value totals","utils/prom/counter.go, histogram.go, gauge.go")],
 [("Observe/Print","utils/prom/*.go")],
 ["text printed by each metric"])
prop("C21", "The metric registry is unique per name and a scrape covers every metric",
 "Registering a name twice is refused and leaves the first metric in place, concurrent registrations of one name admit exactly one, and a scrape prints every metric registered before it started exactly once. A scrape which takes its time holds up no registration. Each printed series carries its own metric's name and its label names and values, correctly quoted, and series with different label values are never merged.",
 ["schedules","inputs"], "every set of names, label values and concurrent registrations",
 "tests print single metrics with plain label values",
 ["utils/prom/metric.go","utils/prom/http.go","utils/prom/labels.go"],
 [("registry","name to metric","utils/prom/metric.go: registry")],
 [("Register/Range","utils/prom/metric.go"),("stringify","utils/prom/labels.go")],
 ["Register, Range and the scrape handler"])
# ---------------------------------------------------------------- storage
prop("C22", "The key-value store is linearizable and scans an atomic snapshot",
 "Reads, writes and deletes behave as if executed one at a time: a read returns the latest written value of that key, or nothing if absent or deleted. A scan visits, exactly once each, precisely the entries that satisfy all its filters at one single moment during the call, sees none of the changes its own callback makes, ends early without error on the end-of-data error and with the callback's own error otherwise. What is stored is a value: changing a map given to the store or received from it changes nothing in it. A filter on a field compares by value, treats a missing field as null, and an unsupported comparison is an error.",
 ["schedules","histories","inputs"], "every concurrent history of operations, scans with filters and callbacks that modify the store",
 "tests run one sequence in one goroutine",
 ["storage/keyvalue.go","storage/filter.go"],
 [("data","key to document","storage/keyvalue.go: memKeyValue")],
 [("Range/Check","storage/keyvalue.go")],
 ["results of the exported operations"])
# ---------------------------------------------------------------- ctx
prop("C23", "Derived contexts are immutable views: tags, values and cancellation",
 "Deriving a context never changes its parent or siblings: listing the tags of a context yields exactly those added along its own derivation path, oldest ancestor first, including repeated keys, and stops at the first callback error. Cancellation and deadlines reach exactly the descendants derived from the cancelled context, with the given cause, except through a detached context, which keeps all tags and values but is never cancelled.",
 ["histories"], "every tree of derivations (tag, value, cancel, detach, tracking) and every order of cancellations",
 "tests use one straight line of derivations",
 ["ctx/tags.go","ctx/detach.go","ctx/helper.go"],
 [("derivation tree","parent of each context and what it adds","ctx/*.go")],
 [("WithTag/RangeTag","ctx/tags.go"),("Detach","ctx/detach.go"),("WithCancel","ctx/helper.go")],
 ["RangeTag, Value, Err, Cause and Done of every context in the tree"])
prop("C24", "Tracking identifiers are inherited and spans get unique, hierarchical ones",
 "A context reports the tracking identifier of its nearest tracked ancestor, the suggested one when one was suggested and a fresh one otherwise. Every span opened under a tracked context gets a new identifier extending its parent's, different from that of every other span under the same root, also when spans are opened concurrently; opening a span never changes the parent's identifier.",
 ["schedules","histories"], "every tree of spans, opened sequentially or concurrently",
 "there is no test",
 ["ctx/span.go"],
 [("counter","children opened so far","ctx/span.go: trackingCtx")],
 [("Span/WithTracking/GetTracking","ctx/span.go")],
 ["GetTracking of each span context"])
prop("C25", "Errors carry the stack and context of their origin, exactly once",
 "Wrapping or reformatting an error any number of times yields exactly one origin record: the stack and context of the first place it was wrapped, kept through every later layer. The wrapped chain stays intact, so every error that was wrapped, and its type, can still be found, an error that was not wrapped is never matched, and wrapping no error yields no error.",
 ["inputs","histories"], "every chain of wrapping operations, formatting verbs and foreign wrappers or joins",
 "tests cover one chain",
 ["ctx/error.go"],
 [("origin","stack and context recorded first","ctx/error.go: Error")],
 [("maybeWrap","ctx/error.go")],
 ["errors.Is/As, Error text and recorded origin"])
prop("C26", "Log calls go to the context's own logger with its tags, level and redaction",
 "A message logged with a context reaches exactly the logger and helper most recently configured along that context's own derivation path (the default one if none), and configuring a derived context never affects its parent or siblings. The record carries the level, formatted message and, for structured loggers, exactly the context's tags with the last value of a repeated key, below-threshold records are dropped, and an argument that controls its own representation is never shown in any other form, leaving the caller's arguments untouched.",
 ["histories","inputs"], "every tree of logging configurations and tags, and every call in it",
 "tests configure one logger on one context",
 ["ctx/log/log.go","ctx/log/redacted.go"],
 [("config","logger and helper of a context","ctx/log/log.go: config")],
 [("WithLogFunc/WithHelper/doLog","ctx/log/log.go"),("FormatMsg","ctx/log/log.go")],
 ["records received by each configured logger"])
# ---------------------------------------------------------------- utils & friends
prop("C27", "The ordered map is a map that remembers insertion order",
 "After any sequence of puts and deletes, lookups return the latest value of each present key and nothing for others, and iteration, keys, values and length agree with each other and list exactly the present keys in order of insertion, where overwriting keeps the position and deleting then re-adding moves it to the end. Iteration stops at the first error, which it returns.",
 ["histories"], "every sequence of puts, overwrites, deletes, re-insertions and iterations",
 "the test runs one sequence",
 ["utils/ordered_map.go"],
 [("list/byKey","order and index","utils/ordered_map.go: OrderedMap")],
 [("Put/Delete/Range","utils/ordered_map.go")],
 ["results of the exported operations"])
prop("C28", "In-memory pipes deliver each message once in order and honour close, cancel",
 "A node pipe delivers each successfully written value exactly once and in order to the other end; after one end is closed the other still receives what was written before and then end-of-file, writing to a closed pipe fails instead of panicking, and closing twice is harmless. The buffered test stream returns exactly the appended bytes in order and end-of-file only once closed and drained. Every blocked operation returns as soon as its context is cancelled or its stream is closed.",
 ["schedules","histories"], "every interleaving of readers, writers, closers and cancellations, and every buffer and chunk size",
 "there are no tests for these",
 ["enc/util.go","test/io.go"],
 [("queue","values in transit","enc/util.go: Pipe; test/io.go: BufferedRWC"),("closed","end of stream","same")],
 [("Read/Write/Close","enc/util.go, test/io.go")],
 ["results of the exported operations"])
prop("C29", "Reading a whole stream with a deadline returns exactly its bytes or the error",
 "Reading a whole stream returns exactly the bytes the stream delivered, in order, whatever the chunking and also when the final chunk arrives together with the end or with an error; an error other than the end is returned wrapped together with the bytes before it. If the context ends first, the call returns promptly with an error matching the cancellation. The close function, if given, is called exactly once in every case.",
 ["inputs","schedules","fault_sequences"], "every sequence of read results (data, data with end, data with error, empty reads, stalls) and cancellation points",
 "tests use one plain reader",
 ["utils/io.go"],
 [("out","bytes so far","utils/io.go: ReadAll")],
 [("ReadAll","utils/io.go")],
 ["result of the call, and calls of the close function"])
prop("C30", "List utilities enumerate, split and order without loss",
 "Permuting a list of n elements yields each of the n! arrangements exactly once, starting with the original, each differing from the previous by one swap of neighbours, and then reports the end. Splitting keeps every element in order in parts no longer than the limit, and flattening restores them as a list of its own. Reversing, unique adding, copying and sorting return the same elements in the specified order without touching the others.",
 ["inputs"], "every list length up to the bound, duplicates included, and every limit",
 "tests check one or two lengths",
 ["utils/lists/perm.go","utils/lists/group.go","utils/lists/lists.go","utils/lists/reverse.go","utils/lists/sort.go"],
 [("arrangement and directions","generator state","utils/lists/perm.go: permGen")],
 [("next","utils/lists/perm.go"),("Split/Flatten","utils/lists/group.go")],
 ["the list after each step, the returned parts"])
prop("C31", "Configuration loading is all-or-error with defaults exactly when unset",
 "Every tagged field receives the value looked up under its key, or its declared default exactly when the lookup is empty, converted to its type; untagged fields keep their initial values. A missing value without default, an unconvertible value, an unsupported field type or an unknown tag option is reported as an error and never as a panic, a partially converted value or silence.",
 ["configurations","inputs"], "every combination of field type, tag options and present/absent/valid/invalid value",
 "tests load a few fixed structs",
 ["config/config.go"],
 [("field","key, default, type","config/config.go: From")],
 [("From/unmarshalText","config/config.go")],
 ["returned struct and error"])
prop("C32", "Node trees convert to Go values by one total coercion table and back unchanged",
 "Decoding a node into a Go value either yields the value prescribed for that pair of node kind and Go kind, or returns an error without panicking; null always yields the zero value, unknown object fields are ignored unless a handler rejects them, and missing ones leave the destination unchanged. A number becomes the integral part of its value, however it is written, where that fits the integer. Asking a node directly for a time, a duration, a number, an object or a field agrees with decoding it. Encoding a value and decoding it into the same type gives back an equal value, directly or through JSON text, honouring field names, skipped and omitted fields. Conversions may run concurrently.",
 ["inputs","schedules","configurations"], "every node kind against every Go kind, nested to the bound, and concurrent conversions",
 "tests sample single conversions",
 ["enc/handler.go","enc/map.go","enc/list.go","enc/scalar.go","enc/numeric.go","enc/nil.go","enc/pairs.go","enc/json.go"],
 [("node kind x Go kind","coercion table","enc/*.go: unmarshalInto")],
 [("Marshal/Unmarshal","enc/handler.go")],
 ["results of Marshal/Unmarshal/Encode/Decode"])
prop("C33", "Test assertions stop the test exactly when their condition is false",
 "Each assertion helper stops the test it belongs to when, and only when, its stated condition does not hold (equality by type, text, Go syntax or JSON, nilness, emptiness, containment, error presence, and list popping), and otherwise lets it continue without side effects; a negated helper stops it exactly when the plain one would not. Popping or shifting removes exactly the returned end element.",
 ["inputs"], "every helper against every pair of small values",
 "a passing test suite never exercises the failing side of an assertion",
 ["test/assert.go","test/equals.go","test/nil.go","test/empty.go","test/strings.go","test/list.go","test/errors.go"],
 [("verdict","condition holds or not","test/util.go: res")],
 [("res.true/res.false","test/util.go")],
 ["outcome of a child test using the helper"])
prop("C34", "Published schemas describe the values as they are sent",
 "The schema published for a Go type is determined by the type alone: every value of the type which can be sent fits it, and it promises no field which is never sent (unexported or excluded ones). Named structures are defined once and referred to, recursive ones included; every reference resolves. A type which can not be sent is refused with an error each time and leaves nothing in the document. Documentation and examples of a field appear in its own schema, examples as values of the type when they are.",
 ["inputs","histories"], "every nesting of types up to the bound, described in any order by one service, and any of their values",
 "tests describe a few fixed structures and never compare the description with what is sent",
 ["api/openapi/schema.go","enc/handler.go","api/handler.go"],
 [("Components.Schemas","named definitions","api/openapi/openapi.go")],
 [("SchemaFromType","api/openapi/schema.go"),("MarshalJSON","enc/handler.go")],
 ["published schema and definitions, JSON of the values"])
prop("C35", "An HTTP client call returns what was answered or an error and leaks nothing",
 "A call of the HTTP client sends exactly one request, with exactly the given body, and ends with exactly the bytes of a 200 or 204 response, or with an error: one which tells the status for any other status, and one for a response which is cut short, a connection which fails, or a context which ends (at once, and then nothing is sent if it had ended before). An API call sends the input fields only and sets the output fields of its object only, from the response if it is an object and not at all on an error status; anything else is an error. No call leaves a response open, whatever its outcome; concurrent calls each get their own answer.",
 ["inputs","faults","schedules"], "every status, way of answering, body and moment of cancellation, alone and concurrently",
 "tests make one successful call",
 ["http/client.go","http/error.go","api/handler.go","api/json.go"],
 [("response body","open until closed","http/client.go: Do")],
 [("Get/Post/Do/API","http/client.go")],
 ["results of the calls, requests seen by a server, bodies of the transport left open"])
prop("C36", "The context of a request is its own",
 "The context any handler is given, plain, request, call, API or WebSocket, derives from the one the server was given: its values and tags are there, and it ends when that ends. Tags name, once each, the address which listens, the address of the client, and the user agent and path of that very request, for as long as the request lasts and whatever other requests do, on the same connection or on others. The context is not cancelled while its client waits for the answer, and is once the client has gone away or has been answered; for a WebSocket, once its connection has ended; never because of another request.",
 ["schedules","histories"], "every history of requests of every kind on connections which are kept, any of them answered or abandoned, concurrently",
 "tests make one request at a time and look at none of this",
 ["http/server.go","http/mux.go","http/log.go","http/call.go","http/api.go","http/ws/handler.go","ctx/tags.go","ctx/ctx.go"],
 [("request context","alive or over, with its tags","http/server.go: NewServer, Listen")],
 [("ServeHTTP","http/server.go"),("BaseContext/ConnContext","http/server.go: Listen"),("Server","http/ws/handler.go")],
 ["tags, values and end of the contexts of the handlers"])
prop("C37", "JSON is decoded to exactly what it denotes or refused, and encoded back to it",
 "Decoding bytes yields exactly the tree the text denotes: every number with all of its digits, escapes and surrogate pairs resolved, what is not Unicode replaced, the last of equal keys. Anything but exactly one document, cut short, malformed or followed by more, is an error and nothing else, never a panic however deep it is nested; no bytes at all are nothing and no error. What was decoded does not change with the bytes it came from. Encoding a tree, indented or not, gives a text which denotes the same tree; the fields of a structure are written in order of declaration. A value which has no JSON text is an error when it is marshalled.",
 ["inputs"], "every sequence of bytes, every tree, and every value however it is nested",
 "tests decode a handful of well formed texts",
 ["enc/json.go","enc/enc.go","enc/handler.go","enc/pairs.go","enc/map.go","enc/list.go","enc/numeric.go","enc/scalar.go","enc/nil.go"],
 [("reader","open containers, what is read","enc/json.go: Decode")],
 [("Decode","enc/json.go"),("fromNative","enc/enc.go"),("Encode/MarshalJSON","enc/json.go")],
 ["results of Decode, Encode, MarshalJSON"])
prop("C38", "The monitoring endpoints report the process as it is",
 "Once metrics are set up, their path, by default /metrics, answers with every registered metric as it is at that moment. Once monitoring is set up under a prefix, goroutines below it lists every goroutine there is, each once, and pprof below it is an index of the profiles, each of which is served below that index, the command line, the symbols, the CPU profile and the execution trace included. It is the same for every prefix, and for several at once. What was not set up, and a profile which does not exist, is not found. Looking changes nothing, and may be done at any time, concurrently.",
 ["schedules","histories","configurations"], "every order of setting up, of what the process does and of looking at it, concurrently",
 "no test looks at any of these endpoints",
 ["http/monitor.go","utils/prom/metric.go"],
 [("handlers","what is there, at which paths","http/server.go: Server.mux")],
 [("SetupPrometheus/SetupMonitoring","http/monitor.go")],
 ["answers to GET requests"])
prop("C39", "A stack frame names the code that runs, and a call site what it was given",
 "The n-th caller of a function, whatever its kind, is reported with the file, the line of the call it is in and its name, for short and without its package, receiver and type parameters; a stack is the consecutive callers from the one asked for, as many as asked for at most. Beyond the outermost there is nothing. The source of a call, found where its caller is, has the name it is called by, the text of each of its arguments, the body of a function literal, and for a variable the text which was last assigned to it in the blocks around the call, on one line in messages.",
 ["inputs"], "every stack of calls of every kind, every frame of it; every program around a call",
 "tests look at one stack and two calls",
 ["utils/stack.go","utils/ast/call_args.go"],
 [("stack","frames of the callers","utils/stack.go"),("scope","what was assigned to variables","utils/ast/call_args.go: visitor.scope")],
 [("Caller/Stack","utils/stack.go"),("Caller/Assignment","utils/ast/call_args.go")],
 ["results of the functions"])
prop("C40", "What has ended leaves nothing behind",
 "Whatever the library does for its user ends without a trace, in whichever way it ends: a request whose handler answers, fails, panics or whose client goes away; a web socket, of either kind and with whatever context its connection was given, which is closed or dropped by its client, fails, or is sent more than it takes, and one which is refused; a channel of a web socket which stays open; a call to another server which is answered, refused, cut off or cancelled; an attempt at a lock once the lock was released; the reading of a stream once what is read has ended; a derived context which is cancelled or expires while its parent goes on; a message waited for; a fetch of a cache; an entry which is removed from, replaced in, invalidated or evicted by a collection. Once nothing is in progress any more, whatever was and however much of it at a time, the process has no more goroutines and open descriptors than before, and no value of the application is kept alive by the library.",
 ["schedules","histories","faults"], "every way in which every two things end, together; many at a time",
 "tests never look at what is left, and a process which runs for months keeps what each of its exchanges leaves",
 ["http/ws/conn.go","http/ws/ws.go","http/ws/channel.go","http/client.go","http/server.go","utils/io.go","utils/sync/mutex.go","utils/caches/lru.go","utils/caches/request.go","ctx/helper.go","enc/util.go"],
 [("goroutines","those the library starts","http/ws/conn.go: Conn.Loop, http/ws/ws.go: wsImpl.Read, utils/sync/mutex.go: Mutex.TryLock, utils/io.go: ReadAll"),("values","what is reachable from it","utils/caches/lru.go: lruHeap.list, http/ws/rpc.go: RpcConn.byChan")],
 [("Loop","http/ws/conn.go"),("Read/Close","http/ws/ws.go"),("TryLock","utils/sync/mutex.go"),("Invalidate/Get","utils/caches/lru.go")],
 ["goroutines, descriptors and reachable values of the process, once idle"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
