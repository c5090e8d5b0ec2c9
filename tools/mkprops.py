#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Arguments and results survive a remote call unchanged",
  "For every method of a served service and all argument and result values, a call through the generated Go HTTP client hands the service exactly the argument values passed, in order, and hands the caller exactly the result values returned, in order. This holds with both client encodings (msgpack and JSON) up to what each encoding can represent, and for zero, one or many arguments and results, nested collections, pointers, named types and types of other packages.",
  ["inputs","programs"], "all methods x both encodings x all argument and result values",
  "The suite makes one remote call (a method without results); values, encodings, argument order and multi-result methods are never sent.",
  ["client.go","gotsrpc.go","transport.go","go.go"],
  [("encode/decode through the negotiated handle","client.go:Call, gotsrpc.go:LoadArgs/Reply"),("generated proxies and clients","go.go")],
  observe=["values recorded by the service and returned by the client"])
p("C02", "A request invokes exactly the method it names, or none",
  "A POST to <endpoint>/<Method> of a served method invokes that method of that service exactly once and no other; a path that is anything else gets 404 and invokes nothing. An OPTIONS request is answered with an empty 200, and a request with any other verb gets 405, without any invocation.",
  ["inputs","programs"], "all HTTP verbs x all request paths (near misses of endpoint and method names) x endpoints x services",
  "No test sends a wrong verb, a wrong path, or looks at which method ran; similar method names and endpoints that are prefixes of one another are never tried.",
  ["gotsrpc.go","go.go"], [("called-function extraction","gotsrpc.go:GetCalledFunc"),("generated dispatch","go.go:renderTSRPCServiceProxies"),("HTTP error helpers","gotsrpc.go:ErrorFuncNotFound, ErrorMethodNotAllowed")],
  observe=["status, body and service invocations"])
p("C03", "Undecodable request bodies are refused and never reach the service",
  "For every body sent in a call to a method with arguments: if it breaks off before its argument list is complete, is not an argument list in the encoding the request declares, or holds a value of a kind its parameter cannot hold, the answer is a 400 and the service is not invoked. No body makes the server panic, hang or answer anything but 200 or 400, and no body affects later calls. (Missing, surplus or null arguments and data after the list are not covered.)",
  ["inputs","histories"], "all bodies (bounded: all short byte strings, all truncations and single-token mutations of valid bodies) x declared encodings",
  "Tests decode two well-formed JSON bodies through an unused helper; malformed bodies are never sent.",
  ["gotsrpc.go","transport.go","go.go"], [("argument decoding","gotsrpc.go:LoadArgs"),("400 on failure, early return","go.go:renderTSRPCServiceProxies")],
  observe=["status and service invocations"])
p("C04", "A failed exchange is always reported to the caller as a client error",
  "If the request cannot be built or sent, the connection breaks at any point of the exchange, the context is cancelled or expires, the status is not 200, or the body is not a complete decodable reply, the call returns a non-nil client error; it never reports success. A non-200 answer's status code and body text are available from the error, and the underlying cause (cancellation, deadline, network error) stays recognisable with errors.Is / errors.As.",
  ["fault_sequences","inputs"], "all fault points of an exchange (dial, every byte of the response header and body, every cancellation point) x status codes x encodings",
  "One test cancels a context during a call; broken connections, truncated replies and non-200 answers are not tested.",
  ["client.go","clienterror.go","httperror.go"], [("error wrapping","client.go:Call"),("ClientError / HTTPError","clienterror.go, httperror.go")],
  observe=["error returned by the client"])
p("C05", "Errors returned by a service keep message and identity at the Go caller",
  "With the msgpack client, a service error arrives as a non-nil error iff the service returned one, with the same message text. For every error in the original's chain of causes, errors.Is against that error holds on the received one, errors.As recovers typed errors with their data, unwrapping yields the causes in order, and errors.Cause of github.com/pkg/errors ends at a cause of the original; this also holds when the received error is returned by a second service and travels again.",
  ["inputs","histories"], "all error values built from plain, typed (pointer, value, scalar, struct) and wrapping errors up to a depth, over one or more hops",
  "The errors example is not executed by any test; error conversion has no tests.",
  ["error.go","transport.go","clienterror.go"], [("error conversion","error.go:NewError"),("identity","error.go:Is, As, Unwrap, Error"),("reply hooks","transport.go")],
  observe=["error value returned by the client"])
p("C06", "A reply is encoded as the request was, and labelled as it is encoded",
  "The reply to a msgpack request is msgpack and the reply to a JSON request - or one with a missing or unknown content type - is JSON; its Content-Type names that encoding and its Content-Length is the exact body length. The client decodes every reply by the encoding the reply declares, whatever encoding it sent.",
  ["inputs","configurations"], "request content types x client encodings x reply content types x methods",
  "No test looks at reply headers or crosses encodings.",
  ["transport.go","gotsrpc.go","client.go"], [("handle selection","transport.go:getHandlerForContentType, getHandleForEncoding"),("reply headers","gotsrpc.go:Reply")],
  observe=["reply headers and bytes; client results"])
p("C07", "Every served call is accounted exactly once with its own figures",
  "Wrapping a service for instrumentation reports exactly one statistics record for each POST naming a known method and none for any other request. The record names package, service and method, carries, for answered calls, the declared request body size (methods with arguments) and the reply body size, and its error code, type and message describe the error this call returned as its last result, if any - the same way for both encodings.",
  ["inputs","histories"], "all sequences of calls (successes, service errors, bad arguments, unknown methods) x encodings",
  "One test checks that a hand-written middleware's record is reported once; no generated proxy, error accounting or sizes are tested.",
  ["instrumentation.go","gotsrpc.go","stats.go","go.go"], [("stats in the request context","gotsrpc.go:RequestWithStatsContext, GetStatsForRequest, ClearStats"),("filling in","gotsrpc.go:LoadArgs, Reply; go.go")],
  observe=["records passed to the stats handler"])
p("C08", "Monitor hook and raw-HTTP methods see the real exchange",
  "After each call whose arguments were decoded and whose reply was sent, the monitor hook runs exactly once with that call's decoded arguments, the very results the service returned, and its statistics; it does not run for refused calls or failed replies. Methods that take the HTTP writer and request receive the live ones; when they answer with a status other than 200 nothing is appended to their answer, otherwise the reply follows as usual.",
  ["inputs","programs"], "methods x encodings x outcomes (bad arguments, unencodable results, statuses written by the method)",
  "Neither the monitor hook nor the response-writer wrapper is tested.",
  ["monitor.go","responsewriter.go","go.go","gotsrpc.go"], [("monitor call","go.go:renderTSRPCServiceProxies"),("status tracking","responsewriter.go")],
  observe=["monitor invocations; raw HTTP answer"])
p("C09", "Concurrent calls do not affect one another",
  "For every interleaving of concurrent calls - through one client or several, with any mix of encodings, against one or several services - each call's arguments, results, errors, statistics and monitor data are those it would have alone. No interleaving deadlocks or accesses shared memory without synchronisation.",
  ["schedules"], "all interleavings of 2-3 concurrent calls at statement granularity up to a preemption bound",
  "Every test is sequential.",
  ["client.go","gotsrpc.go","transport.go","error.go","instrumentation.go","monitor.go"], [("per-call buffers, cloned headers, per-request stats","client.go, gotsrpc.go")],
  state=[("codec handles","shared by all calls","transport.go"),("default headers","shared by the calls of a client","client.go")],
  observe=["per-call results; race detector"])
p("C10", "A client's requests depend only on its current settings",
  "After any sequence of setting changes and calls, a call uses the encoding, HTTP client and default headers set last, always marks itself as service-to-service, and declares its own encoding as content type and accepted type even when default headers say otherwise. Calls never modify the header set given by the user and leave nothing behind that changes later calls of this or another client.",
  ["histories","configurations"], "all sequences of set-headers, set-encoding, set-transport and call up to a depth",
  "One test builds a single request with custom headers; no sequence of settings and calls is tested.",
  ["client.go","http.go"], [("request construction","client.go:newRequest, Call"),("setters","client.go")],
  state=[("client settings","HTTP client, encoding, default headers","client.go:bufferedClient")],
  observe=["requests seen by the transport"])
p("C11", "Time values cross the wire as the same instant",
  "A time value sent in either direction arrives as the same instant: exactly with msgpack, to the millisecond with JSON, for every date including the zero time and far past or future, directly or inside pointers, collections and structs. In JSON every typed time is a plain number of milliseconds since the Unix epoch, as the generated TypeScript declares.",
  ["inputs"], "all instants (bounded set including extremes) x positions in arguments and results x encodings",
  "No test sends a time value.",
  ["timeext.go","transport.go"], [("JSON time extension","timeext.go"),("registration","transport.go:init")],
  observe=["received values; JSON text"])
p("C12", "A union value is sent to TypeScript as exactly its selected member",
  "In JSON, a value of a union type is encoded as its one non-empty member alone, and as null when no member is set, wherever it occurs in a result; every union type the service exposes is registered by the generated code. With msgpack a Go caller receives the union with the same member set.",
  ["inputs","programs"], "union types (string and struct members, by pointer and by value) x member choice x position",
  "The union example is compiled but never run.",
  ["unionext.go","transport.go","go.go"], [("union extension","unionext.go:ConvertExt"),("generated registration","go.go:renderInit")],
  observe=["JSON text; values received by a Go client"])
p("C13", "GoRPC calls return what the service returned",
  "A call through the generated GoRPC client invokes the corresponding service method exactly once with the arguments given and returns its results, up to gob's zero-value equivalences; HTTP-only parameters are left out. The call-statistics handler, if set, sees each call exactly once with package, service and method, also under concurrent calls.",
  ["inputs","histories","programs"], "all GoRPC methods x values; sequences of calls and handler settings",
  "The generated GoRPC code is compiled but never run.",
  ["go.go","gorpc.go"], [("generated request/response types, handler and client","go.go:renderGoRPCServiceProxies, renderGoRPCServiceClients")],
  observe=["values recorded by the service and returned by the client; stats handler"])
p("C14", "Prometheus metrics account for every call under its own labels",
  "After any sequence of calls to instrumented services, each (package, service, method) label set has counted exactly the calls made to that method, with the sums of request and reply sizes and the execution times of those calls. Unknown methods are not counted, and any number of services can be instrumented in one process.",
  ["histories","configurations"], "all call sequences up to a depth over one or two instrumented services",
  "The prometheus package has no tests.",
  ["prometheus/prometheus.go","instrumentation.go"], [("summary vectors","prometheus/prometheus.go")],
  observe=["gathered metrics"])
p("C15", "Code generation is deterministic and repeatable",
  "For a given source tree and configuration the generator always writes the same files with the same bytes, whatever the map iteration order, whatever an earlier run left behind, and whichever of the configured targets and mappings come first in the file. A repeated run changes nothing and does not rewrite unchanged TypeScript files.",
  ["schedules","histories","configurations"], "all map iteration orders (deviation bounded) x prior states of the output tree x configuration orderings",
  "The example checks run the generator once each, with whatever map order that run happens to get.",
  ["build.go","servicereader.go","typereader.go","typescript.go","go.go"], [("sorting before rendering","build.go, servicereader.go, go.go, typescript.go"),("write only on change","build.go:updateCode")],
  observe=["bytes and modification times of output files"])
p("C16", "Generated Go code compiles and covers the whole service",
  "For every supported service declaration - interface or struct, methods spread over files, any supported parameter and result types, named or unnamed results, types from any imported or aliased package, several services per package - the generated proxies and clients compile and expose every exported method declared on the interface itself or the pointer to the struct with the declared parameter and result types and nothing else.",
  ["programs"], "all service declarations over a bounded type grammar and bounded declaration shapes",
  "Six fixed example services are regenerated; other shapes of declarations are never fed to the generator.",
  ["go.go","servicereader.go","typereader.go","build.go"], [("reading services","servicereader.go"),("reading types","typereader.go"),("rendering Go","go.go")],
  observe=["go build; method sets by reflection"])
p("C17", "Generated TypeScript types describe the JSON on the wire",
  "For every supported Go type, every JSON document the server can send for a value of it is assignable to the generated TypeScript type - property names, optional and nullable members, collections, enums, embedded and union types - with no undeclared or missing members. Conversely every document the TypeScript type allows is accepted by the server and understood as that value. (Constant types hold declared constants only; unions have exactly one member set and are sent to clients only; embedded structs carry a JSON tag; numbers are within the range of the Go type, bytes are base64 strings.)",
  ["programs","inputs"], "all types of a bounded grammar x all values of a bounded domain, in both directions",
  "The examples check only that the output equals a stored copy and type-checks; no JSON is ever compared with the types.",
  ["typescript.go","typereader.go","servicereader.go","transport.go"], [("type mapping","typescript.go:tsType, renderTypescriptStruct"),("tag handling","typereader.go:extractJSONInfo")],
  observe=["JSON bodies validated against types read by the TypeScript compiler"])
p("C18", "The generated TypeScript client calls the service it was generated from",
  "For every TypeScript-enabled service and method the generated client class has a method that sends the arguments, without the HTTP-only ones, in declaration order under the name and endpoint the server dispatches on, and resolves to the results in declaration order: nothing, the single value, or an object keyed by result names.",
  ["programs","inputs"], "all method shapes (arity of arguments and results, named or not, HTTP parameters) x values",
  "The TypeScript clients are type-checked but never executed.",
  ["typscriptclient.go","typescript.go","go.go"], [("client rendering","typscriptclient.go:renderTypescriptClient")],
  observe=["generated client executed in node against the generated Go proxy"])
p("C19", "An interrupted generator run is repaired by running it again",
  "If the generator is stopped at any point, including in the middle of writing a file, running it again with the same configuration succeeds and leaves exactly the files an uninterrupted run leaves. It never touches files other than its declared outputs.",
  ["crash_points","histories"], "all crash points between and inside file operations of a run, one or two crashes",
  "No test interrupts the generator.",
  ["build.go"], [("removal of old outputs, write on change","build.go:Build, updateCode")],
  observe=["output tree after re-run"])
p("C20", "Packages are resolved as the Go toolchain would",
  "A package named in the configuration or imported by a service is read from the directory Go would use: the configured module, a replaced module (relative or absolute path, or another version), the required version in the module cache, vendor or GOPATH, always matching whole path elements and the most specific module. The result does not depend on the order of go.mod lines, nor on whether the configuration's module path is written relative or absolute.",
  ["configurations"], "all layouts of module, replace, require, vendor and GOPATH over colliding path prefixes, in all orders",
  "Two tests check the resolved module path of a configuration; package lookup is exercised only for packages of the repository itself.",
  ["gotsrpc.go","config/config.go","build.go"], [("directory resolution","gotsrpc.go:parseDir, parsePackage"),("module path and go.mod loading","config/config.go:LoadConfigFile"),("output path","build.go:getPathForTarget")],
  observe=["generated declarations carry a marker of the directory they were read from"])
p("C21", "Exactly the configured artefacts are generated",
  "For every configuration, the set of files written and the services appearing in each of them are exactly those its targets select: HTTP proxies and clients for the selected services unless the client is skipped, GoRPC code only for the services listed, TypeScript only where an output is named, and every explicitly listed struct and constant type in its mapping's file. Targets do not influence each other's output.",
  ["configurations"], "all combinations of target selectors over one to three targets and services",
  "Each example has one fixed configuration.",
  ["build.go","config/config.go","go.go","typescript.go"], [("selectors","config/config.go:IsGoRPC, IsTSRPC"),("target loop","build.go:Build")],
  observe=["files written and declarations in them"])
p("C22", "The generator never reports success without complete output",
  "If a target, package, type, constant, mapping or file needed for the output cannot be found, read or written, the generator exits non-zero and says why. Exit status zero implies that every file the configuration asks for is present and complete.",
  ["fault_sequences","configurations"], "all single faults: each missing or broken input, and each failing file operation",
  "No test runs the generator on a faulty input or a failing file system.",
  ["build.go","servicereader.go","gotsrpc.go","typescript.go","config/config.go","cmd/gotsrpc/gotsrpc.go"], [("exit codes","build.go:Build"),("missing types and constants","servicereader.go:Read, collectTypes")],
  observe=["exit status and output tree"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P: assert len(x["title"]) <= 80, x["id"]
print(len(P))
