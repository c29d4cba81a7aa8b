"""One function per property: which specifications are checked and how they are bound to the code."""
CHECKS = {}
REPLAY = "TLA+ model checking (TLC); the transition graph replayed into the code"
TRACE = "TLA+ model checking (TLC); traces recorded from the code validated against the specification"
BOTH = "TLA+ model checking (TLC); graph replayed into the code and recorded concurrent traces validated"
def check(pid, technique=BOTH, level="model_checking"):
    def d(f): f.level, f.technique = level, technique; CHECKS[pid] = f; return f
    return d

def shut(c):
    return c.build("shut", instrument=["shutdown"])

@check("C01", BOTH)
def c01(c):
    """The specification of the shutdown (holds, combined holds, completion notifications, start) is model checked; every transition of its graph is replayed on the public functions, each walk in its own process, and nothing but what the specification says may happen. Concurrent histories of holds, releases (also repeated ones) and waits (Done and WaitForSignal) under interleavings at statement grain must be linearizable, and once nothing is held every wait must return."""
    g = c.graph("Shutdown") if not c.thorough else c.graph("Shutdown", c.cfg("Shutdown", Holds="{1, 2, 3}", Haws="{1, 2}"))
    b = shut(c)
    c.run(b, "TestShutReplay", {"GRAPH": g})
    tr = c.path("conc.ndjson")
    c.run(b, "TestShutConc", {"TRACES": tr})
    c.validate("ShutdownTrace", tr)

@check("C02", BOTH)
def c02(c):
    """The start and its echo are specified with a clock and model checked; histories of concurrent and repeated start requests, observers of both notifications (old, new, waiting, polling) and combined holds, in real time (each in its own process, about 11 s), must be behaviours: nothing seen before the first request, everything after it, the echo never before five seconds and at most four seconds late. The order of start and combined holds is replayed as for C01."""
    c.model("Echo")
    b = shut(c)
    tr = c.path("echo.ndjson")
    c.run(b, "TestShutEcho", {"TRACES": tr})
    c.validate("EchoTrace", tr)
    c.run(b, "TestShutReplay", {"GRAPH": c.graph("Shutdown", c.cfg("Shutdown", Holds="{1}", Haws="{1, 2}", Dones="{1, 2}", Again="FALSE"))})

@check("C03", REPLAY)
def c03(c):
    """The specification of the wait for signals (start, cancel, exit, return when nothing is held, at any point of the sequence) is model checked, and every transition is replayed with real signals sent to a process which waits for them, with and without other holds coming and going. Two signals of the same kind in a row are sent only when the first one has a visible effect."""
    b = shut(c)
    c.run(b, "TestShutReplay", {"GRAPH": c.graph("Shutdown", c.cfg("ShutdownSig", Holds="{1, 2}", Dones=c.scale("{1}", "{1, 2}")))})

@check("C04", REPLAY)
def c04(c):
    """The specification of servers, requests in flight and the shutdown is model checked (nothing in flight is dropped, listening holds the shutdown), and every transition is replayed on real servers on the loopback, each walk in its own process: requests blocked before their response, in the middle of it, and in the middle of their upload; listening before and after the start; addresses which are taken or wrong. A request in flight for 9 s (25 s in the thorough tier; the server gives up after 30) is waited for."""
    b = c.build("listen")
    c.run(b, "TestListenReplay", {"GRAPH": c.graph("Listen", c.cfg("Listen", Servers=c.scale("{1, 2}", "{1, 2, 3}"), Requests="{1, 2}"))})
    c.run(b, "TestListenLong")

@check("C05", BOTH)
def c05(c):
    """The specification gives, for every outcome of a handler (bytes of several sizes, errors of several codes made and wrapped in several ways), every body of a request to an operation and every list of encodings a client accepts, the response; TLC enumerates them (5000 cases) and each is executed over a loopback connection, as are requests of 16 concurrent clients with random sizes, codes and encodings, validated by TLC. Codes between 400 and 599."""
    b = c.build("web")
    c.run(b, "TestWebReplay", {"GRAPH": c.graph("Http")})
    tr = c.path("web.ndjson")
    c.run(b, "TestWebTrace", {"TRACES": tr})
    c.validate("HttpTrace", tr)

@check("C06")
def c06(c):
    """The specification gives, for every sequence of writes and statuses (also informational ones) of a handler, each way of registering it and each method, the status sent and the single observation; TLC enumerates them (about 600 cases, 4500 in the thorough tier) with the probes and paths which don't exist, and each is executed over a loopback connection, the metric compared before and after. Concurrent requests with scrapes in between and concurrent uses of the probes are validated by TLC (never more than begun, never less than before, exact when all is quiet; the readiness code is linearizable). Handlers which panic and hijacked connections which answer anything but 101 are not judged."""
    b = c.build("web", instrument=["http"])
    c.run(b, "TestMeasureReplay", {"GRAPH": c.graph("Measure", c.cfg("Measure", MaxLen=c.scale(1, 2), Long=c.scale(2, 3)))})
    tr, rd = c.path("measure.ndjson"), c.path("ready.ndjson")
    c.run(b, "TestMeasureTrace", {"TRACES": tr, "READY": rd})
    c.validate("MeasureTrace", tr)
    c.validate("ReadyTrace", rd)

@check("C07")
def c07(c):
    """The specification says which field crosses in which direction; TLC enumerates every declaration of a field, for ten types, every presence and kind of value in requests, responses and identities (about 8500 cases), each executed on a structure type made for it; structures of 2 to 6 fields with random declarations, also sharing a name between a field in and a field out, are validated by TLC. A field both in and auth is not judged, nor is what an output only field contains when the operation starts."""
    b = c.build("apis")
    c.run(b, "TestApiReplay", {"GRAPH": c.graph("Api")})
    tr = c.path("api.ndjson")
    c.run(b, "TestApiTrace", {"TRACES": tr})
    c.validate("ApiTrace", tr)

@check("C08")
def c08(c):
    """The specification of requests running on copies of a registered object is model checked (two requests in progress, the owner of the object using it too) and its graph replayed through Recv and Send with an operation which has fields of every sort; concurrent requests through the HTTP server, which look at, overwrite and re-read all their fields, some failing or rejected half way, must answer as if alone but for the shared counter (linearizability, TLC), with and without the race detector."""
    b = c.build("apis", instrument=["api", "http", "enc"])
    c.run(b, "TestStateReplay", {"GRAPH": c.graph("ApiState", c.cfg("ApiState", Max=c.scale(1, 2)))})
    for race in (False, True):
        tr = c.path("state%d.ndjson" % race)
        c.run(c.build("apis", race=True) if race else b, "TestStateTrace", {"TRACES": tr})
        c.validate("ApiStateTrace", tr)

@check("C09")
def c09(c):
    """The specification of the document (an entry per path, from the fields of the object alone) is model checked; its graph (every declaration of one and two fields, generic handlers, registrations which are refused for eight reasons and those of a path already taken, up to 2 successful registrations, in the thorough tier 3) is replayed on servers with operations generated for it, reading /openapi.json after each step; sequences of up to 8 registrations of 150 generated operations with up to 6 fields, 14 types and 3 addresses are validated by TLC. The type of a property is compared by kind only (string, number, boolean, array, object)."""
    b = c.build("apis")
    c.run(b, "TestOpenReplay", {"GRAPH": c.graph("OpenApi", c.cfg("OpenApi", Max=c.scale(2, 3)))})
    tr = c.path("open.ndjson")
    c.run(b, "TestOpenTrace", {"TRACES": tr})
    c.validate("OpenApiTrace", tr)

@check("C10", BOTH)
def c10(c):
    """The specification of RPC connections (frames of every kind handled one after the other, what each answers; handlers which reply, fail, panic, close the channel or the connection; blocked handlers with frames waiting behind them, while another connection goes on) is model checked, and every transition is replayed by a WebSocket client over the loopback, after each of which every connection is asked for all its objects. Runs of up to 4 clients which pipeline up to 17 random frames, cut in arbitrary chunks, are recorded (what was sent, entry and exit of the handlers, frames received) and validated by TLC against the same specification. Disconnect notices and acknowledgements of closed channels are not judged."""
    b = c.build("ws")
    c.run(b, "TestWsRpcReplay", {"GRAPH": c.graph("WsRpc", c.cfg("WsRpc", MaxQ=c.scale("1", "2"))), "CONNS": "a,b", "MOD": 2})
    tr = c.path("rpc.ndjson")
    c.run(b, "TestWsRpcTrace", {"TRACES": tr})
    c.validate("WsRpcTrace", tr)

@check("C11", BOTH)
def c11(c):
    """The specification of channels and their objects (opened with and without initializer, failing and panicking initializers, reopened, closed by the client and by the handler, two channels and two connections, a pointer registered with the objects which they share) is model checked: a step touches only the object of its channel. Every transition is replayed over the loopback; after each, every open channel of every connection is asked for the state of its object. The registered object has unexported fields and is changed after the registration."""
    b = c.build("ws")
    c.run(b, "TestWsRpcReplay", {"GRAPH": c.graph("WsRpc", c.cfg("WsRpc", Lite="FALSE", Blocks="FALSE", Full=c.scale('{"a"}', '{"a", "b"}'))), "CONNS": "a,b", "MOD": 2})
    if c.thorough:
        c.run(b, "TestWsRpcReplay", {"GRAPH": c.graph("WsRpc", c.cfg("WsRpc", Lite="FALSE", Blocks="FALSE", M="4")), "CONNS": "a,b", "MOD": 4})
    tr = c.path("rpc.ndjson")
    c.run(b, "TestWsRpcTrace", {"TRACES": tr})
    c.validate("WsRpcTrace", tr)

@check("C12", REPLAY)
def c12(c):
    """The specification of a hostile client (over 50 kinds of frames and broken frames, each in several variants: the connection is served or closed, and nothing else changes), of a proper one, and of the shutdown which is held exactly while a connection is alive, is replayed against a server in its own process (so that a crash is seen), with both kinds of handlers; whether a connection is served is found by asking it. Frames of up to 8 MB."""
    b = c.build("ws")
    c.run(b, "TestWsChaosReplay", {"GRAPH": c.graph("WsChaos")})

@check("C13", TRACE)
def c13(c):
    """Concurrent senders (up to 4, up to 8 messages each, of up to 200 kB) and closers of one connection (through the connection and through the calls of an RPC channel), with clients which ping or read slowly, are recorded with the stream the client received; TLC decides whether the stream is an order of the sends consistent with real time, each once, closed by one close frame and nothing after it. The code runs with random pauses at its locks, and under the race detector."""
    for n, b in ((c.scale(400, 6000), c.build("ws", instrument=["http/ws"])), (c.scale(120, 1500), c.build("ws", race=True))):
        tr = c.path("send-%d.ndjson" % n)
        c.run(b, "TestWsSendTrace", {"TRACES": tr, "N": n})
        c.validate("WsSendTrace", tr)

@check("C14", REPLAY)
def c14(c):
    """The specification of the life of connections (connect callback, data callbacks and messages waiting for them; ending by error, panic or close of either callback, by a close frame or a drop of the client, by cancellation of the request or of the context returned by the connect callback, also while a callback runs or sends to a client which does not read) is model checked, and every transition is replayed over the loopback in a process of its own, with the callbacks blocked where the specification says they run: what they are given, how often they run, when contexts are cancelled, when the client sees the end, and whether the shutdown is held."""
    b = c.build("ws")
    for rpc, child in (("FALSE", "conn"), ("TRUE", "connrpc")):
        g = c.graph("WsConn", c.cfg("WsConn", MaxQ=c.scale(1, 2), MaxD=c.scale(2, 3), Rpc=rpc))
        c.run(b, "TestWsConnReplay", {"GRAPH": g, "CHILD": child})

@check("C32")
def c32(c):
    """The table of conversions is a specification: what decoding a node into a value of a type gives (value, error or not judged), what encoding a value gives, and TLC checks on it that null is the zero value, that nothing but structures depends on the destination, and that every encoded value comes back. The enumerated table (70 nodes against 44 types, lists, objects and structures of 13 element types, nesting of depth 2 and 3, zero and used destinations, three handlers of unknown fields; what a node says of itself when asked as a time, a duration, an object, one of its fields, an integer, a float or a number of units, with errors or with panics; values of 23 types wrapped in 8 ways, in the thorough tier twice) is executed through Unmarshal, Marshal, Encode and UnmarshalJSON (about 50000 conversions); random types and nodes of depth up to 4 are validated by TLC; the conversions of the table also run all at once under the race detector. Not judged: time and duration nodes into anything but times and durations, which false or empty values are omitted, embedded structures, values JSON can not say."""
    b = c.build("encs")
    for g in c.scale(("{1, 7}", "{2, 5}", "{3}", "{4}"), ("{1, 7}", "{2, 5}", "{3}", "{4}", "{6}")):
        c.run(b, "TestEncReplay", {"GRAPH": c.graph("CoerceMC", c.cfg("CoerceMC", Groups=g))})
    c.run(c.build("encs", race=True), "TestEncRace", {"GRAPH": c.graph("CoerceMC", c.cfg("CoerceMC", Groups="{1, 5, 7}"))})
    tr = c.path("coerce.ndjson")
    c.run(b, "TestEncTrace", {"TRACES": tr})
    c.validate("CoerceTrace", tr)

@check("C33")
def c33(c):
    """Every helper is specified as a predicate over values (types, Go syntax, JSON, nilness, emptiness, containment, errors); TLC checks on all pairs of about 60 values that negated helpers are opposites, equalities are symmetric and nil is empty, and that popping conserves the list. Every helper on every pair, ten ways of writing the call (over lines, through a variable, deferred, generic, ...) and all lists of up to 4 elements are executed, each as a test of its own inside of the test: it goes on and passes, or stops and fails; larger random values and lists are validated by TLC. Not judged: texts of failures, pointers and functions in Go syntax, emptiness of what can not be empty, typed nil errors."""
    b = c.build("asserts")
    c.run(b, "TestAssertReplay", {"GRAPH": c.graph("AssertMC")})
    tr = c.path("assert.ndjson")
    c.run(b, "TestAssertTrace", {"TRACES": tr})
    c.validate("AssertTrace", tr)

@check("C34")
def c34(c):
    """Types are terms of the specification (all kinds of values, marshalers, containers, anonymous and named structures with every kind of tag, recursive and mutually recursive ones, some which can not be sent); the schema of a term and what fits a schema are defined by recursion. TLC checks that all values up to a depth fit the schema of their type, that definitions are closed and only grow; every transition of the graph (types described one after the other by one service) is replayed on types built by reflection, and for random types (deeper, other Go types of the same kind) recorded schemas, definitions and values as really sent are validated against the same definitions. Not judged: formats other than byte and date-time, keys of maps, what interfaces and raw JSON hold, recursive slices, types of the same name in one package."""
    b = c.build("schemas")
    c.run(b, "TestSchemaReplay", {"GRAPH": c.graph("SchemaMC", c.cfg("SchemaMC", Deep=c.scale("FALSE", "TRUE")))})
    tr = c.path("schema.ndjson")
    c.run(b, "TestSchemaTrace", {"TRACES": tr})
    c.validate("SchemaTrace", tr)

@check("C35", BOTH)
def c35(c):
    """The specification gives the result of every call (get, post, do, api, with and without a base) for everything a server can do (11 statuses, bodies which are what was asked for or not, whole, in pieces, cut short, slow, never, redirected, reset) and every end of the context; TLC checks that errors tell the status and that only what the caller has to close is left open. Every transition is replayed with real servers on the loopback, counting the bodies which the transport has handed out; histories of up to 11 concurrent callers are validated by TLC, with and without the race detector."""
    b = c.build("client")
    c.run(b, "TestClientReplay", {"GRAPH": c.graph("HttpClientMC", c.cfg("HttpClientMC", MaxOpen=c.scale(2, 4)))})
    for n, b in ((c.scale(50, 600), b), (c.scale(20, 200), c.build("client", race=True))):
        tr = c.path("client-%d.ndjson" % n)
        c.run(b, "TestClientTrace", {"TRACES": tr, "N": n})
        c.validate("HttpClientTrace", tr)

@check("C36")
def c36(c):
    """Every history of two clients making requests of the six kinds of handler, over one kept connection each, with and without user agents and on different paths, each answered or abandoned, until the server's own context ends, is replayed on a real server, and the tags, values and end of the context each handler holds are compared; up to 13 clients at a time are recorded and the traces checked, once more under the race detector."""
    g = c.graph("ReqCtx")
    b = c.build("reqs", instrument=["http"])
    c.run(b, "TestReqReplay", {"GRAPH": g})
    tr = c.path("reqs.ndjson")
    c.run(b, "TestReqTrace", {"TRACES": tr})
    c.validate("ReqCtxTrace", tr)
    tr = c.path("race.ndjson")
    c.run(c.build("reqs", race=True), "TestReqTrace", {"TRACES": tr})
    c.validate("ReqCtxTrace", tr)

@check("C37")
def c37(c):
    """The specification is a reader of JSON, one character at a time; TLC checks, for all texts up to 6 characters and up to 4 after each of a dozen beginnings (38000 texts, 29 characters), that what is read and written again is the same, keys are in order and unique, nothing follows a whole text and every container is closed by its own end. Each text, and each with one character more (1.1 million), is decoded by the code. Larger texts, half of them spoilt, trees made by hand and written in each way, structures and values which have no text are recorded and validated by TLC. Nesting between 2000 and 100000 levels, where the standard library draws a line, is not judged."""
    b = c.build("jtext")
    c.run(b, "TestTextReplay", {"GRAPH": c.graph("JsonTextMC", c.cfg("JsonTextMC", MaxLen=c.scale(6, 7)))})
    tr = c.path("jtext.ndjson")
    c.run(b, "TestTextTrace", {"TRACES": tr})
    c.validate("JsonTextTrace", tr)

@check("C38")
def c38(c):
    """The endpoints are specified (which are there after which set up, what each tells of the goroutines which run and of a metric), and TLC checks that looking changes nothing, that what was not set up is missing and that every prefix tells the same. Every transition of the graph, two goroutines, one count, every set of two paths and three prefixes, is replayed over HTTP against a listening server; concurrent histories of goroutines which start and end, of counts and of requests are validated by TLC for an order in which every answer is true. The CPU profile and the execution trace are requested once each; of all profiles but that of the goroutines only the kind is judged."""
    b = c.build("monitors")
    c.run(b, "TestMonitorReplay", {"GRAPH": c.graph("Monitor")})
    tr = c.path("monitor.ndjson")
    c.run(b, "TestMonitorConc", {"TRACES": tr})
    c.validate("MonitorTrace", tr)

@check("C39")
def c39(c):
    """The specification has the stack of calls as frames, and a source as the assignments in scope where the call is; TLC checks that blocks inherit and take away what they assign. Every stack of up to three functions of the seven kinds there are (plain, methods, closures, generic, through interfaces) is called and asked for every frame and every part of it; every program of up to three statements (four in the thorough tier) is written to a file, in which the driver's own call is said to be, and looked at with eight forms of call and six lists of arguments; stacks of up to 30 functions and programs of up to 15 statements at random are validated by TLC. Two such calls on the same line, assignments to variables of an outer block, and calls over several lines are not judged."""
    b = c.build("frames")
    c.run(b, "TestFramesReplay", {"GRAPH": c.graph("FramesMC", c.cfg("FramesMC", MaxLen=c.scale(3, 4), MaxDepth=c.scale(3, 4)))})
    tr = c.path("frames.ndjson")
    c.run(b, "TestFramesTrace", {"TRACES": tr})
    c.validate("FramesTrace", tr)

@check("C40")
def c40(c):
    """The specification has every kind of thing the library does for its user (requests in handlers, web sockets, their channels, calls to other servers, attempts at a lock, streams, contexts, pipes, fetches, entries of every collection) as what can be done with it in which phase, several in progress at a time; TLC checks that whatever is in progress can be ended by what is done with it alone. Every transition with two things in progress (three in the thorough tier) is replayed against real servers in one process; whenever nothing is in progress, there may be no more goroutines, descriptors and (after a garbage collection) values of the application than before the first of them. Rounds of up to 40 things at a time, of the same or different kinds, are validated by TLC. What is in progress may hold anything; memory which holds no value of the application is not counted."""
    g = c.graph("Leaks", c.cfg("Leaks", MaxLive=c.scale(2, 3)))
    b = c.build("leaks")
    c.run(b, "TestLeaksReplay", {"GRAPH": g})
    tr = c.path("leaks.ndjson")
    c.run(b, "TestLeaksConc", {"GRAPH": g, "TRACES": tr})
    c.validate("LeaksTrace", tr)

@check("C15")
def c15(c):
    """The LRU specification is model checked exhaustively for small bounds (4 keys, sizes 0..3, capacities up to 4) and every transition of its graph, plus random walks, is replayed into NewLRU; concurrent histories explored at statement grain in virtual time and long sequential ones are checked for linearizability against the same specification by TLC; a race-detector run justifies the atomic steps. Histories are sampled (seeded), not exhaustive."""
    g = c.graph("LRU")
    b = c.build("caches", instrument=["utils/caches"])
    c.run(b, "TestLRUReplay", {"GRAPH": g})
    tr = c.path("lru.ndjson")
    c.run(b, "TestLRUConc", {"TRACES": tr})
    c.validate("LRUTrace", tr)
    c.run(c.build("caches", race=True), "TestLRURace")

@check("C16", TRACE)
def c16(c):
    """A timed model (entries, expiry, fetches, invalidations, eviction) is model checked for its safety properties; histories in virtual time of the real cache, with and without interleaving at statement grain, must be behaviours of it, including that a request neither fetching nor waiting for its own key takes no time. Sampled schedules."""
    c.model("RequestMC", c.cfg("RequestMC") if c.thorough else c.cfg("RequestMC", MaxTime=1, MaxEnts=2))
    tr = c.path("req.ndjson")
    c.run(c.build("caches", instrument=["utils/caches"]), "TestRequestConc", {"TRACES": tr})
    c.validate("RequestTrace", tr)
    c.run(c.build("caches", race=True), "TestRequestRace")

@check("C17")
def c17(c):
    """The abstract cache is model checked and its whole graph is replayed; concurrent histories explored at statement grain are checked for linearizability by TLC; race-detector run. Sampled schedules."""
    g = c.graph("Mem")
    b = c.build("caches", instrument=["utils/caches"])
    c.run(b, "TestMemReplay", {"GRAPH": g})
    tr = c.path("mem.ndjson")
    c.run(b, "TestMemConc", {"TRACES": tr})
    c.validate("MemTrace", tr)
    c.run(c.build("caches", race=True), "TestMemRace")

@check("C18")
def c18(c):
    """The abstract map is model checked and its whole graph replayed into Map for five types of values (including nil interfaces, pointers and zero values), looking at it through every iteration, copy and serialization after each step; concurrent histories of map and set explored at statement grain, with non-atomic iterations, are validated by TLC; race-detector run. Sampled schedules."""
    g = c.graph("Map")
    b = c.build("usync", instrument=["utils/sync", "utils/lists"])
    c.run(b, "TestMapReplay", {"GRAPH": g})
    tr = c.path("map.ndjson")
    c.run(b, "TestMapConc", {"TRACES": tr})
    c.validate("MapTrace", tr)
    c.run(c.build("usync", race=True), "TestMapRace")

@check("C19", TRACE)
def c19(c):
    """A timed lock model is model checked (exclusion; no failed attempt could have been served); histories of the real Mutex in virtual time, with and without interleaving at statement grain, must be behaviours of it: time never passes while the lock is free and somebody waits, an attempt fails at its limit only, the lock is available at the end and no goroutine is left (the bubble would deadlock). Race-detector run on the real sync.Mutex. Sampled schedules."""
    c.model("TimedMutexMC")
    tr = c.path("mutex.ndjson")
    c.run(c.build("usync", instrument=["utils/sync", "utils/lists"]), "TestMutexConc", {"TRACES": tr})
    c.validate("TimedMutexTrace", tr)
    c.run(c.build("usync", race=True), "TestMutexRace")

@check("C20")
def c20(c):
    """The metrics specification (exact sums, cumulative buckets) is model checked and its graph replayed for counters, gauges and histograms with 0 to 2 labels, parsing the printed text strictly after each step; concurrent updates and scrapes explored at statement grain are validated by TLC (every series shown must be a state it had during the scrape); race-detector run with large totals. Sampled schedules."""
    g = c.graph("Metrics")
    b = c.build("prom", instrument=["utils/prom", "utils/sync"])
    c.run(b, "TestMetricsReplay", {"GRAPH": g})
    tr = c.path("metrics.ndjson")
    c.run(b, "TestMetricsConc", {"TRACES": tr})
    c.validate("MetricsTrace", tr)
    tr = c.path("stall.ndjson")
    c.run(c.build("prom"), "TestMetricsStall", {"TRACES": tr})
    c.validate("MetricsTrace", tr)
    c.run(c.build("prom", race=True), "TestMetricsRace")

@check("C21")
def c21(c):
    """Two specifications, of series identity by label values and of the registry, are model checked and their graphs replayed (tokens stand for adversarial label strings, the printed text is parsed back by the rules of the exposition format); concurrent registrations and scrapes at statement grain are validated by TLC; race-detector run. Sampled strings and schedules."""
    b = c.build("prom", instrument=["utils/prom", "utils/sync"])
    c.run(b, "TestLabelsReplay", {"GRAPH": c.graph("Labels")})
    c.run(b, "TestRegistryReplay", {"GRAPH": c.graph("Registry")})
    tr = c.path("registry.ndjson")
    c.run(b, "TestRegistryConc", {"TRACES": tr})
    c.validate("RegistryTrace", tr)
    tr = c.path("stall.ndjson")
    c.run(c.build("prom"), "TestRegistryStall", {"TRACES": tr})
    c.validate("RegistryTrace", tr)
    c.run(c.build("prom", race=True), "TestRegistryRace")

@check("C22")
def c22(c):
    """The store specification (content, filters, scans) is model checked and its graph replayed with tokens standing for adversarial values of every node type; concurrent histories at statement grain, with scans whose callback modifies the store, are validated by TLC: the moment of a scan must be before its first callback. Race-detector run. Values of different numeric types are not compared. Sampled schedules."""
    g = c.graph("KV")
    b = c.build("kv", instrument=["storage"])
    c.run(b, "TestKVReplay", {"GRAPH": g})
    tr = c.path("kv.ndjson")
    c.run(b, "TestKVConc", {"TRACES": tr})
    c.validate("KVTrace", tr)
    c.run(c.build("kv", race=True), "TestKVRace")

@check("C23")
def c23(c):
    """The specification of trees of contexts is model checked (immutability, cancellation reaches exactly the descendants) and every transition of its graph replayed, looking at every node after each step; long random histories with deadlines in virtual time are validated by TLC. Callbacks that stop the listing are checked at every position. Trees are bounded to 4 nodes in the graph and about 55 in the histories."""
    b = c.build("ctxs")
    c.run(b, "TestTreeReplay", {"GRAPH": c.graph("CtxTree", c.cfg("CtxTree", MaxNodes=5, MaxCancels=1) if c.thorough else None)})
    tr = c.path("ctx.ndjson")
    c.run(b, "TestTreeTrace", {"TRACES": tr})
    c.validate("CtxTrace", tr)
    c.run(b, "TestTreeConc")

@check("C24")
def c24(c):
    """The specification of trees of contexts gives each node the identifier of its nearest tracked ancestor and each span a new one; its graph is replayed and long histories validated by TLC, with real identifiers mapped to those of the specification (a repeated or non extending one is a violation); concurrent spans, also under the race detector."""
    b = c.build("ctxs")
    c.run(b, "TestTreeReplay", {"GRAPH": c.graph("CtxTree")})
    tr = c.path("ctx.ndjson")
    c.run(b, "TestTreeTrace", {"TRACES": tr})
    c.validate("CtxTrace", tr)
    c.run(c.build("ctxs", race=True), "TestTreeConc")

@check("C25")
def c25(c):
    """The specification of errors as trees of layers is model checked (one origin below any layer, kept for ever; what was wrapped is found above) and every transition replayed, looking at every error made so far: text, origin record (its context and its whole stack compared with one captured on the same line), number of records, errors.Is against every other error, errors.As. Long random histories are validated by TLC. Errors of a type of their own, joins and two wrapped errors included; bounded to 4 errors in the graph and 18 in the histories."""
    b = c.build("errs")
    c.run(b, "TestErrReplay", {"GRAPH": c.graph("ErrChain")})
    tr = c.path("err.ndjson")
    c.run(b, "TestErrTrace", {"TRACES": tr})
    c.validate("ErrTrace", tr)

@check("C26")
def c26(c):
    """The specification of log calls (which logger and helper, level, tags, representation of the arguments) is model checked and its graph replayed with loggers of every kind, the default one included (its output is redirected to a file), with adversarial tag names; long random histories are validated by TLC; concurrent calls sharing a context and their arguments under the race detector. Source locations are not compared. A log function is documented to receive the arguments as they are, so secrets are judged for structured loggers only."""
    b = c.build("logs")
    c.run(b, "TestLogReplay", {"GRAPH": c.graph("LogConf")})
    tr = c.path("log.ndjson")
    c.run(b, "TestLogTrace", {"TRACES": tr})
    c.validate("LogTrace", tr)
    c.run(c.build("logs", race=True), "TestLogRace")

@check("C27")
def c27(c):
    """The specification, a sequence of pairs, is model checked and its whole graph (4 keys, 2 values) replayed for four types of keys and values, looking at the map in every way after each step; long random histories with more keys are validated by TLC."""
    b = c.build("coll")
    c.run(b, "TestOrdMapReplay", {"GRAPH": c.graph("OrdMap")})
    tr = c.path("ord.ndjson")
    c.run(b, "TestOrdMapTrace", {"TRACES": tr})
    c.validate("OrdMapTrace", tr)

@check("C30")
def c30(c):
    """The list utilities are specified by what they must return; the graph over all lists of up to 4 of 4 elements is replayed, and calls on longer lists (every split of up to 16 elements, in the thorough tier 40; every arrangement of up to 6 or 7 elements) are validated by TLC; larger permutations are judged by the same predicate in the driver. Elements beyond the list in its array must not change."""
    b = c.build("coll")
    c.run(b, "TestListsReplay", {"GRAPH": c.graph("Lists")})
    tr = c.path("lists.ndjson")
    c.run(b, "TestListsTrace", {"TRACES": tr})
    c.validate("ListsTrace", tr)

@check("C28", TRACE)
def c28(c):
    """Two specifications, of the node pipe and of the buffered stream, are model checked (first in first out, nothing lost, nobody waits for nothing); histories of batches of concurrent operations, closes and cancellations on the real ones, with and without interleaving at statement grain, must be behaviours of them: after each batch, when nothing moves any more, exactly the operations which cannot commit are still waiting. One reader at a time on the buffered stream. Sampled schedules."""
    c.model("Pipe"); c.model("Buffered")
    b = c.build("pipes", instrument=["enc", "test"])
    for n in ("Pipe", "Buffered"):
        tr = c.path(n + ".ndjson")
        c.run(b, "Test" + n, {"TRACES": tr})
        c.validate(n + "Trace", tr)
    c.run(b, "TestBufferedClose")

@check("C29", TRACE)
def c29(c):
    """A timed specification of reading with a context is model checked (whole content unless cancelled, prompt, always returns); calls of ReadAll on scripted streams in virtual time (chunks of any size and delay, the end alone or with the last bytes, errors, streams which hang, contexts ending before, during, after or at the same time) must give a result it allows at the same instant. Also under the race detector."""
    c.model("ReadAll")
    for race in (False, True):
        tr = c.path("readall-%d.ndjson" % race)
        c.run(c.build("readall", race=race), "TestReadAll", {"TRACES": tr})
        c.validate("ReadAllTrace", tr)

@check("C31")
def c31(c):
    """The specification gives, for every type of field, tag and text, the value or the error; TLC enumerates them (8160 cases) and each is executed on a structure of that shape (with initial values which share memory with the caller's); structures of 2 to 6 fields are loaded with random texts and validated by TLC. Texts are from a list; no text at all is not judged for types which convert themselves."""
    b = c.build("conf")
    c.run(b, "TestConfReplay", {"GRAPH": c.graph("Config")})
    tr = c.path("conf.ndjson")
    c.run(b, "TestConfTrace", {"TRACES": tr})
    c.validate("ConfigTrace", tr)
