"""Writes /verif/properties.jsonl (kept as code so that it stays easy to edit)."""
import json, os

SRC = "src/connectrpc/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

CA, CS, SA, SS = SRC+"_client_async.py", SRC+"_client_sync.py", SRC+"_server_async.py", SRC+"_server_sync.py"
PC, PG, PP, EN = SRC+"_protocol_connect.py", SRC+"_protocol_grpc.py", SRC+"_protocol.py", SRC+"_envelope.py"
IA, IS = SRC+"_interceptor_async.py", SRC+"_interceptor_sync.py"
OT = "connectrpc-otel/connectrpc_otel/"

prop("P01", "Messages arrive exactly once, in order and unchanged",
  "Every message a client sends on an RPC that succeeds is received by the server's handler exactly once, in the order sent and equal field for field, and every message the handler returns or yields is received by the client in the same way. This holds for every protocol (Connect, gRPC, gRPC-Web), kind of RPC, codec, compression in each direction, and for every pairing of asynchronous and synchronous client and server. Presence of fields, empty messages, large messages and empty streams are preserved.",
  ["inputs", "configurations", "histories"],
  "all message values and sequences x protocol x RPC kind x codec x send/response compression x async/sync client and server x GET/POST",
  "The tests call a hat-making service with a handful of small messages in a few configurations; no test compares whole message sequences across the product of protocols, codecs and compressions.",
  [CA, CS, SA, SS, EN, PC, PG],
  [("envelope reader and writer", EN), ("client request execution", CA+", "+CS), ("server stream and unary handling", SA+", "+SS), ("codecs", SRC+"_codec.py")],
  ["messages passed to and received from generated clients", "messages seen and produced by handlers"])

prop("P02", "How the body is split into chunks never matters",
  "The messages, status, error and metadata that a client or a server derives from a body depend only on the bytes of the body and never on how the transport splits it into chunks, including one byte at a time, empty chunks, several messages in one chunk and splits inside a message's prefix. Bytes that follow the end-of-stream message are ignored however they arrive. Each message is delivered as soon as its last byte has arrived.",
  ["inputs", "schedules"],
  "all byte strings, valid or not, and all partitions of them into chunks, on request and response side, async and sync",
  "Tests deliver bodies in one or two hand-picked chunks; the number of partitions is exponential in the body length.",
  [EN, CA, CS, SA, SS],
  [("incremental envelope reader", EN+" EnvelopeReader.feed"), ("body readers", SA+" _read_body, "+SS+" _read_body")],
  ["handler-visible request messages", "client-visible messages and errors"],
  [("partial envelope buffer", "bytes received that do not yet form a message", EN)])

prop("P03", "A truncated or aborted exchange never looks like success",
  "If the transport ends, resets or disconnects before the peer has sent everything the protocol requires (all of every message, the end-of-stream message or status), the client raises an error after delivering at most the complete messages that were received, and never reports success. Likewise a server's handler that consumes its request stream to the end sees either every message the client sent or an error, never a shortened stream that looks complete. A response the server could not complete never carries a success status.",
  ["crash_points", "fault_sequences", "inputs"],
  "every byte offset at which a request or response can be cut, with every way of cutting it (clean end, reset, read error, disconnect, task cancellation), in all protocols and RPC kinds",
  "Tests cut a body at one or two places; the guarantee is about all cut points and all fault kinds.",
  [EN, CA, CS, SA, SS, PC, PG],
  [("end-of-stream and trailer handling", PC+" ConnectEnvelopeReader, "+PG+" GRPCEnvelopeReader"), ("incomplete envelope detection", EN), ("content-length check", SS), ("disconnect handling", SA)],
  ["outcome of client calls", "what handlers see when reading the request", "status on the wire"])

prop("P04", "Errors reach the caller with code, message and details intact",
  "An error raised by a handler with any of the sixteen codes, any Unicode message and any list of details is raised by the client with the same code, message and details (type names and bytes), in every protocol, codec and RPC kind, after the messages sent before it were delivered. Any other exception a handler raises is reported as unknown with its text, or as the server's generic failure, and never as success. An error concerns only its own call: later calls are unaffected.",
  ["inputs", "configurations", "histories"],
  "all codes x Unicode messages x detail lists x position in the stream x protocol x RPC kind x async/sync",
  "Tests raise a few codes with ASCII messages and at most one detail; encoding problems depend on the message and detail contents.",
  [PP, PC, PG, SA, SS, CA, CS, SRC+"errors.py"],
  [("wire error conversion", PP+" ConnectWireError"), ("gRPC status trailers", PG+" GRPCEnvelopeWriter, GRPCEnvelopeReader"), ("end-of-stream message", PC)],
  ["exception raised by the client call", "messages before the error"])

prop("P05", "Headers and trailers arrive complete and are not mixed up",
  "Every request header value set by a caller is visible to the handler, and every response header and trailer value a handler sets is visible to the caller as header or trailer respectively, with repeated names keeping all their values in order and -bin values intact, on success and on error alike. The headers object that a caller passes in is never changed. Metadata captured for one call never contains values of another call.",
  ["inputs", "configurations", "histories"],
  "all legal multimaps of header names and values x protocol x RPC kind x outcome x async/sync",
  "Tests set one or two headers per call in few configurations; multi-values, name prefixes and error paths combine multiplicatively.",
  [SRC+"_response_metadata.py", SRC+"_headers.py", PC, PG, SA, SS],
  [("metadata capture", SRC+"_response_metadata.py"), ("context headers on responses", SA+", "+SS), ("end-of-stream metadata and trailers", PC+", "+PG)],
  ["request_headers in handlers", "captured response headers and trailers in the client"])

prop("P06", "Message size limits are exact and apply everywhere",
  "A server or client configured with a maximum message size rejects every received message whose uncompressed size exceeds it with resource_exhausted, and accepts every message that does not, for every protocol, RPC kind, compression, codec, position in a stream and HTTP method. An oversized message is never handed to the handler or the caller. The messages before it are delivered and later calls work.",
  ["inputs", "configurations"],
  "all limits and sizes around them x compression ratio x protocol x RPC kind x position x GET/POST x async/sync x side",
  "Tests check one limit far from the boundary for a few RPC kinds.",
  [EN, SA, SS, CA, CS],
  [("limit check in the envelope reader", EN), ("limit check for unary bodies and GET", SA+", "+SS+", "+CA+", "+CS)],
  ["handler invocations", "client outcome"])

prop("P07", "Hostile requests get a complete error response and reach no handler",
  "Any HTTP request that is not a well-formed RPC request - unknown path or method, wrong content type, malformed or unknown compression, bad timeout or version, undecodable body, bad query, odd headers, broken framing - is answered with a complete, well-formed response that denotes a client-caused failure, and the malformed message never reaches a handler. The application raises no exception to the server for such a request. The application keeps serving other requests correctly afterwards.",
  ["inputs", "fault_sequences"],
  "all byte strings and header combinations as HTTP requests to async and sync applications, alone and mixed with good traffic",
  "Tests send about twenty fixed bad requests; the input space is all HTTP requests.",
  [SA, SS, EN, PC, PG, SRC+"_protocol_server.py"],
  [("request validation", SA+" __call__, "+SS+" __call__"), ("error responses", SA+" _handle_error, "+SS+" _handle_error"), ("body decoding", EN)],
  ["raw ASGI messages and WSGI calls", "handler invocations"])

prop("P08", "Applications follow the ASGI and WSGI contracts on every path",
  "For every request, outcome, disconnect and cancellation, the asynchronous application sends exactly one response start with byte-string lowercase headers before any body, at most one final body part, trailers only when announced and only when supported, and nothing after the end. The synchronous application calls the start callable exactly once before the first body bytes with native string status and headers, yields only bytes, and sends trailers once at most. Every request that is not abandoned by the client or the server gets a complete response.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "all request kinds and handler behaviours x disconnect, send failure and cancellation points x servers with and without optional features",
  "Tests look at the final client-visible result through one test transport, which tolerates contract violations that real servers reject.",
  [SA, SS],
  [("ASGI message emission", SA), ("WSGI start_response and iterable", SS)],
  ["the sequence of ASGI messages", "WSGI callable invocations and yielded items"])

prop("P09", "Clients survive any server and never invent success",
  "Whatever status, headers, body, trailers or stream fault a server sends, a client call ends with messages that decode from what the server sent or with a Connect error, never with another exception, a hang or an endless loop. Success is reported only if the server's response says so in the protocol in use, and HTTP failures without a protocol-level error map to the documented codes. Unknown or malformed error payloads still produce an error.",
  ["inputs", "fault_sequences"],
  "all HTTP responses: status x headers x body bytes x trailers x transport exceptions, for every protocol and RPC kind, async and sync",
  "Tests stub about ten fixed responses; the guarantee is about all of them.",
  [CA, CS, PP, PC, PG, EN, SRC+"_client_shared.py"],
  [("response validation", PC+", "+PG), ("error mapping", PP), ("stream reset mapping", SRC+"_client_shared.py")],
  ["client call outcome against a scripted server"])

prop("P10", "Deadlines are propagated and enforced",
  "A timeout given to a client, per call or as default, is announced to the server as the same duration (rounded down to the protocol's resolution at most), and the handler sees the remaining time shrink from it. If the response is not complete by then, the call fails with deadline_exceeded no earlier than the deadline and promptly after it, wherever the exchange is stuck; a call that completes in time is unaffected and a call without timeout never times out. Time the caller spends between messages never injects cancellation into the caller's own code.",
  ["schedules", "inputs", "configurations"],
  "all timeouts x server delay patterns x RPC kinds x protocols, async in virtual time, sync as passed to the HTTP client",
  "Tests use one or two real-time timeouts with coarse tolerances.",
  [CA, CS, PC, PG, SRC+"request.py"],
  [("timeout headers", PC+", "+PG), ("remaining time", SRC+"request.py"), ("timeout enforcement", CA+", "+CS)],
  ["virtual time of completion", "timeout headers", "handler-visible remaining time"])

prop("P11", "Interceptors wrap every call, in order, with paired start and end",
  "Interceptors run for every RPC of the kinds they implement, on client and server, the first one given being outermost, and what they change (request, response, headers, errors, short-circuiting) takes effect. A metadata interceptor's start runs before the rest of the call and its end runs exactly once for each start that succeeded, with that start's token and with the error the call failed with or none. This holds for every outcome including errors in the middle of a stream, early abandonment and cancellation.",
  ["histories", "configurations", "schedules"],
  "all stacks of interceptors x RPC kinds x outcomes (success, error at any point, abandonment, cancellation) x async/sync x client/server x kinds of iterable they are passed in",
  "Tests use one or two fixed stacks and mostly successful calls.",
  [IA, IS, SA, SS, CA, CS],
  [("interceptor chaining", SA+" _apply_interceptors, "+SS+" _apply_interceptors, "+CA+", "+CS), ("metadata interceptor adapter", IA+", "+IS)],
  ["event log written by recording interceptors and handlers"])

prop("P12", "Concurrent calls on shared objects do not interfere",
  "Any number of concurrent calls through one client object and one application object, from tasks or threads and with any mix of RPC kinds, each get exactly the responses, errors, headers and trailers belonging to their own request. The handler runs exactly once per call. Concurrency never changes what a call would have returned alone.",
  ["schedules", "histories"],
  "all interleavings of concurrent calls in tasks (randomised virtual-time schedules) and threads",
  "Tests make calls one at a time; interference only shows under interleaving.",
  [CA, CS, SA, SS, SRC+"_response_metadata.py", EN, SRC+"compression/zstd.py"],
  [("per-call readers, writers and contexts", CA+", "+CS+", "+SA+", "+SS), ("context-local metadata capture", SRC+"_response_metadata.py")],
  ["per-call results and captured metadata", "handler invocation log"])

prop("P13", "Cancelled or abandoned calls release everything promptly",
  "When a caller cancels a call or stops consuming and closes a stream, or when the client disconnects from a server, the call ends (a streaming handler no later than at its next message), generators on both sides (request iterators, handlers, interceptors) run their cleanup exactly once and no task, generator or pending read of the library outlives the call. Cancelling a call surfaces as the canceled error. No stray exceptions, never-awaited coroutines or unclosed resources are reported to the event loop or the interpreter.",
  ["schedules", "crash_points", "fault_sequences"],
  "every await point at which a call can be cancelled, every message after which a stream can be abandoned, and every disconnect time, across RPC kinds and protocols",
  "Tests cancel at one point per RPC kind, and do not look for leaked tasks or generators.",
  [CA, SA, SS, IA],
  [("stream closing in clients", CA), ("disconnect monitor and stream closing in the server", SA)],
  ["asyncio task set, async generator hooks, loop exception handler, unraisable hook, warnings"])

prop("P14", "Streams are delivered incrementally",
  "Each message a handler yields is available to the client before the handler produces the next one, and each message a client sends is available to the handler before the client's stream ends; no message waits for a later one. Request and response of a bidirectional stream progress independently, so a conversation in which each side waits for the other's last message never deadlocks. Response headers set before the first message arrive with it.",
  ["schedules", "histories"],
  "all dialogue patterns of sends, receives and delays x protocol x codec x compression",
  "Tests mostly collect whole streams; buffering by one message goes unnoticed.",
  [CA, CS, SA, SS, EN],
  [("per-message writes", SA+" _handle_stream, "+SS+" _response_stream"), ("request streaming", CA+" _streaming_request_content"), ("reader yields as messages complete", EN)],
  ["ordering of send and receive events in virtual time"])

prop("P15", "GET is equivalent to POST and only for side-effect-free methods",
  "A unary RPC declared free of side effects gives the same result, error and metadata via GET as via POST for every message, codec and compression. For every other method the server rejects GET and every HTTP method other than POST with method-not-allowed and an accurate allow header, and never runs the handler. Clients send GET only when asked to.",
  ["inputs", "configurations"],
  "all messages x codecs x compressions x equivalent query encodings x idempotency levels x HTTP methods",
  "Tests call one GET method with one message.",
  [SA, SS, CA, CS, SRC+"_client_shared.py", PC],
  [("GET query construction", SRC+"_client_shared.py"), ("GET decoding", SA+" _read_get_request, "+SS+" _handle_get_request"), ("method check", PC)],
  ["wire requests", "handler invocations", "client outcome"])

prop("P16", "Compression is negotiated and corruption is always detected",
  "A response is compressed only with an encoding the requester accepts and the responder supports, preferring the requester's order and otherwise uncompressed, and the encoding in use is labelled correctly per message and in the headers. Messages compressed with any built-in or user-supplied algorithm are restored exactly, and unsupported encodings are refused: unimplemented from servers, internal in clients. A damaged or truncated compressed message is reported as an error and never yields a message.",
  ["inputs", "configurations"],
  "all accept lists x supported sets x algorithms x payloads x corruptions of compressed payloads",
  "Tests use default gzip and a few fixed combinations with undamaged payloads.",
  [SRC+"_compression.py", SRC+"compression/gzip.py", SRC+"compression/brotli.py", SRC+"compression/zstd.py", EN, PC, PG],
  [("negotiation", SRC+"_compression.py negotiate_compression"), ("envelope compression flag", EN), ("algorithms", SRC+"compression/")],
  ["wire bytes and headers decoded by an independent reader", "client and server outcome"])

prop("P17", "The headers container behaves as a case-insensitive multimap",
  "After any sequence of operations, the headers container agrees with a model that maps case-insensitive names, in insertion order, to lists of values: lookup gives the first value, assignment replaces all values, add appends, deletion removes all, and the views, length, membership and iteration are consistent with each other. Missing names raise KeyError or give the default. Independent containers never share state.",
  ["histories", "inputs"],
  "all sequences of operations with all names and values",
  "Tests check a dozen fixed sequences.",
  [SRC+"_headers.py"],
  [("two-level store", SRC+"_headers.py")],
  ["return values and contents after every operation"],
  [("first values and extra values", "must stay consistent", SRC+"_headers.py")])

prop("P18", "Requests are routed to exactly the right method and codec",
  "A request runs the handler of precisely the method its path names - also when the application is mounted under a prefix as documented - and decodes and answers with the codec and protocol its content type names; anything else is not found (404), unsupported media type (415) or method not allowed (405) and runs no handler. Content-type case and parameters do not matter for Connect. User-supplied codecs work like the built-in ones and unlisted ones are refused.",
  ["inputs", "configurations"],
  "all paths near valid ones x mount prefixes x content types x configured codecs x HTTP methods, async and sync",
  "Tests use correct paths and three or four wrong ones.",
  [SA, SS, SRC+"_protocol_server.py", PC, PG],
  [("path lookup", SA+" __call__, "+SS+" __call__"), ("protocol negotiation", SRC+"_protocol_server.py"), ("codec lookup", PC+", "+PG)],
  ["handler invocations", "raw responses"])

prop("P19", "Lifespan sets up the service once and always tears it down",
  "With a service given as an async generator, startup runs it exactly to its yield before any request is served, every request is served by the yielded instance, and shutdown runs its cleanup (finally and async-with blocks) exactly once; failures of either are reported to the server as startup or shutdown failure instead of being lost or raised. Without lifespan support such an application refuses requests instead of serving them. A plain service instance works with and without lifespan.",
  ["histories", "fault_sequences"],
  "all orders of lifespan events, requests and failures in setup and teardown, with concurrent requests",
  "Tests run one startup, one request and one shutdown.",
  [SA],
  [("lifespan handling", SA+" __call__")],
  ["ASGI lifespan messages", "event log of the service generator"])

prop("P20", "Telemetry records every call once, truthfully and linked",
  "With tracing enabled, each call produces exactly one ended client span and one ended server span named after the method, whose attributes (system, method, addresses, status) match the call, whose status and recorded error match its outcome, and where the server span is a child in the same trace of the client span that caused it - unless linking was disabled. Spans of concurrent calls are never mixed up. Clients and servers, all RPC kinds and all protocols are covered.",
  ["histories", "configurations", "schedules"],
  "all outcomes x RPC kinds x protocols x async/sync x propagation settings x concurrent calls",
  "Tests check a few spans of sequential calls.",
  [OT+"_interceptor.py", OT+"_instrumentor.py"],
  [("span interceptor", OT+"_interceptor.py")],
  ["finished spans in an in-memory exporter"])

prop("P21", "Telemetry never changes the outcome of a call",
  "Adding telemetry, explicitly or by instrumenting the library, leaves every call's messages, errors and metadata as they were apart from the propagation headers, whatever the addresses, headers and outcomes. Instrumenting affects clients and applications created afterwards, keeps their other interceptors, works with none given, and removing the instrumentation restores the original behaviour. Instrumenting or removing repeatedly does not stack up or break anything.",
  ["configurations", "histories", "inputs"],
  "all calls of the other properties with and without telemetry; all sequences of instrument, remove and create",
  "Tests instrument once and make one call.",
  [OT+"_interceptor.py", OT+"_instrumentor.py"],
  [("constructor wrapping", OT+"_instrumentor.py"), ("span interceptor", OT+"_interceptor.py")],
  ["paired runs with and without telemetry"])

prop("P22", "Generated code is importable and faithful for every service definition",
  "For every valid proto file with services, the plugin generates a module that compiles and imports, with an application, client and protocol class for async and sync per service whose methods carry the declared names, types, streaming kinds, idempotency and paths, and the generated client and application interoperate. Names that are Python keywords, imported, nested or shared across packages are handled, and comments cannot alter the code. Generation is deterministic and the options behave as documented.",
  ["programs", "configurations"],
  "all service definitions (names, streaming kinds, options, comments, packages, imports, nested types) x plugin options",
  "Tests generate code for two or three fixed proto files.",
  ["protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py"],
  [("code generator", "protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py")],
  ["generated modules, imported and called"])

prop("P23", "The bytes on the wire follow the published protocols",
  "Requests written by clients and responses written by servers conform to the Connect, gRPC and gRPC-Web specifications: framing, flags, content types, required and forbidden headers, timeouts, percent-encoded messages, status trailers, error JSON and status codes, end-of-stream messages. An independent implementation of these protocols can decode everything they emit, and they accept everything such an implementation emits. The client and server halves of the library never rely on a shared deviation.",
  ["inputs", "configurations", "histories"],
  "all messages, metadata, errors and timeouts x protocol x RPC kind x codec x compression x async/sync x side",
  "Tests pair the library with itself, which hides symmetric mistakes; the conformance suite needs downloads and fixes its inputs.",
  [PC, PG, PP, EN, SA, SS, CA, CS],
  [("protocol implementations", PC+", "+PG), ("HTTP status and error JSON", PP)],
  ["raw HTTP requests and responses, judged by an independent codec based on google.protobuf"])

prop("P24", "The google.protobuf compatibility layer is interchangeable",
  "Clients and servers using google.protobuf messages with the compatibility codecs interoperate with those using the default messages, with identical message content, for binary and JSON. Every message, error detail and stream survives the crossing in both directions. Malformed input is refused in the same way.",
  ["inputs", "configurations"],
  "all messages x codecs x RPC kinds x the four pairings of old and new messages",
  "Tests call one method with one message.",
  [SRC+"compat/_codec.py", SRC+"_codec.py"],
  [("compat codecs", SRC+"compat/_codec.py")],
  ["messages on both sides"])

prop("P25", "RPCs with a single request or response enforce exactly one",
  "A server refuses a unary or server-streaming request that contains no message or more than one, without success and without returning a handler result for it, and a client refuses a unary or client-streaming response that contains no message or more than one; both use the unimplemented code. Exactly one message is accepted even when it encodes to zero bytes. Streaming sides accept any number including none.",
  ["inputs", "configurations"],
  "all message counts x protocols x RPC kinds x sides x async/sync x outcome signalled after the messages",
  "Tests cover one or two counts on one side.",
  [SA, SS, CA, CS],
  [("single message consumption", SA+", "+SS+", "+CA+", "+CS)],
  ["handler invocations and client outcome"])

prop("P26", "The request context tells handlers and interceptors the truth",
  "On both sides the request context reports the method being called (names, types, idempotency), the HTTP method in use, the request headers as sent and the remaining time, and address information as host:port derived from URL, Host header, scheme and the server's client information - or nothing when unknown. This holds for every URL shape including paths, default ports and IPv6. Headers or trailers set through a context appear only on that call's response.",
  ["inputs", "configurations", "histories"],
  "all URL shapes, Host headers, schemes, client addresses, RPC kinds and protocols, on client and server, async and sync",
  "Tests check two addresses.",
  [SRC+"request.py", PP, SA, SS, PC, PG],
  [("context construction", PC+", "+PG), ("address computation", PP), ("client address", SA+", "+SS)],
  ["context values recorded in handlers and interceptors"])

prop("P27", "Over real connections it interoperates with other implementations",
  "Served by real ASGI and WSGI servers or called over real HTTP/1.1 and HTTP/2 connections, every call of every RPC kind completes with the messages, headers, trailers, error code, message and details that the other side's application gave, also when calls share a connection. The same holds between the library and another gRPC implementation, as client and as server. Deadlines and callers who leave reach the other side. When a connection delivers odd pieces nothing changes; when it breaks, the caller gets an error of the library, never success or altered messages, and no call hangs.",
  ["schedules", "fault_sequences", "configurations", "inputs"],
  "all calls x real servers x HTTP versions x protocols x sync/async x gRPC peer x concurrency x segmentation and connection loss at every byte offset",
  "Tests mostly run over in-process transports or one server, with the library on both ends and unbroken connections.",
  [CA, CS, SA, SS, PC, PG, EN],
  [("use of the HTTP client", CA+", "+CS), ("ASGI and WSGI applications", SA+", "+SS), ("gRPC status and metadata", PG), ("framing", EN)],
  ["handlers and callers on either end of loopback connections, grpcio's included"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
