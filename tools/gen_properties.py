#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
S = "src/sofa/pbrpc/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every RPC call completes exactly once",
 "Whatever the interleaving of caller, network, timer and callback threads, and whatever the connection does (refused, never answering, broken in the middle of a message, closed by either side), every call issued on a client finishes exactly once: an asynchronous call runs its completion callback exactly once, and a synchronous call returns. A call that carries a timeout always finishes, at the latest shortly after its timeout; a call never finishes twice, and neither the request, the response nor the controller of a finished call is touched by the library afterwards.",
 ["schedules", "fault_sequences"],
 "all interleavings of 1-3 calls with replies, connection faults at every byte boundary / every step, the timeout timer and client shutdown",
 "No existing test runs a client against a server at all; the races (reply against timeout against disconnect) need specific schedules and faults.",
 [S+"rpc_client_impl.cc", S+"rpc_client_stream.h", S+"rpc_controller_impl.h", S+"simple_rpc_channel_impl.cc", S+"rpc_timeout_manager.h"],
 [("one-shot completion by compare-and-swap", S+"rpc_controller_impl.h Done()"), ("erase-on-reply from the in-flight map", S+"rpc_client_stream.h"), ("completion of all in-flight calls on close", S+"rpc_client_stream.h on_closed()")],
 [("_done_callbacks", "callbacks still to run for the call", S+"rpc_controller_impl.h"), ("_controller_map", "calls in flight on one connection", S+"rpc_client_stream.h")],
 ["user callback / return of the stub call", "RpcController::Failed/ErrorCode"], "atomic operations are inline assembly; the guarded hook makes them visible to the scheduler")

prop("C02", "A successful call yields the reply to that very request",
 "When calls run concurrently, from several threads and over one shared connection, each call that succeeds delivers exactly the response the server produced for that call's own request, and each call the service failed reports that failure's own reason and the service-failure code. This holds for any order in which the replies arrive, including replies that arrive after their call timed out and replies for calls that do not exist.",
 ["schedules", "histories"],
 "all reply orders and interleavings of up to 3 concurrent calls on one connection, with late, duplicate and unknown replies",
 "Needs concurrent calls with out-of-order, late or unsolicited replies; no test has any.",
 [S+"rpc_client_impl.cc", S+"rpc_client_stream.h", S+"rpc_request.cc", S+"binary_rpc_request.cc"],
 [("sequence id correlation", S+"rpc_client_stream.h"), ("per-request meta echoed by the server", S+"binary_rpc_request.cc")],
 [("sequence id", "identity of a call on the wire", S+"rpc_meta.proto")],
 ["response message seen by the caller"])

prop("C03", "Call timeouts are honoured and truthfully reported",
 "A call with timeout T fails with the request-timeout code only once T has elapsed since it was issued, and if no reply has come by then it fails no later than T plus the timer granularity (about 0.1 s); a reply that arrives in time completes the call with that reply. The timeout that applies is the one set on the controller, else the method's, else the service's, else the default of 10 seconds.",
 ["schedules", "inputs", "configurations"],
 "all orders of reply, timer tick and cancel relative to each other for 1-3 calls with different timeouts, and all combinations of timeout sources",
 "The timeout path is untested; the boundary cases are about timer ticks interleaving with registration, reply and removal.",
 [S+"rpc_timeout_manager.h", S+"rpc_controller_impl.h", S+"rpc_client_impl.cc", S+"rpc_option.proto"],
 [("deferred add/erase lists merged on each tick", S+"rpc_timeout_manager.h"), ("timeout precedence", S+"rpc_controller_impl.h FillFromMethodDescriptor")],
 [("timeout set", "calls ordered by expiry", S+"rpc_timeout_manager.h")],
 ["error code and completion time of the call"])

prop("C04", "Stopping client or server is always safe and complete",
 "Shutting down or destroying a client, and stopping or destroying a server, at any moment relative to calls, connection set-up, replies and timers, returns without deadlock and without touching released memory; calls pending at that moment are completed with an error, calls made after it fail with an error instead of crashing, and once it has returned no thread of the library starts a completion callback or a service method (a call made after or together with the shutdown may complete in the thread that makes it). A server object is destroyed only after the asynchronous calls it delivered have been completed. A stopped server no longer accepts connections and no longer counts any, and can be started again.",
 ["schedules"],
 "shutdown placed at every scheduling point of a running call (and of connect, accept, timer maintenance), up to the deviation bound",
 "Only clean single-threaded shutdown of individual pools is tested; the hazard is shutdown racing in-flight work.",
 [S+"rpc_client_impl.cc", S+"rpc_server_impl.cc", S+"rpc_byte_stream.h", S+"rpc_listener.h", S+"thread_group_impl.h", S+"io_service_pool.cc"],
 [("running flag + start/stop lock", S+"rpc_client_impl.cc Stop()"), ("stop order of timers, streams, threads", S+"rpc_server_impl.cc Stop()")],
 [("_is_running", "client/server accepts work", S+"rpc_client_impl.h")],
 ["return of Shutdown()/Stop()", "callbacks", "ConnectionCount()", "IsListening()"], "atomic hook")

prop("C05", "Connections are made, shared and remade automatically",
 "Calls to the same address share one connection, however many threads issue them at once; a failed or broken connection fails the calls in flight on it with a connection error, and the next call to that address transparently opens a new connection and succeeds if the server is reachable again. A connect attempt that exceeds the configured connect timeout is given up, and a closed connection is never used or counted as alive again.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of concurrent first calls, and every placement of refused, hanging, reset and closed connections in histories of up to 3 calls",
 "No test opens a client connection; sharing and re-creation race against each other and against close.",
 [S+"rpc_client_impl.cc", S+"rpc_byte_stream.h", S+"rpc_client_stream.h"],
 [("stream map keyed by address, re-created when closed", S+"rpc_client_impl.cc FindOrCreateStream"), ("close happens once", S+"rpc_byte_stream.h close()")],
 [("_stream_map", "live connection per address", S+"rpc_client_impl.h"), ("_status", "connection life cycle", S+"rpc_byte_stream.h")],
 ["number of TCP connections accepted by the peer", "ConnectionCount()", "call results"], "atomic hook")

prop("C06", "Messages are sent whole, once and unmixed",
 "On every connection, in both directions, the bytes written to the socket are a sequence of complete messages: none is lost, duplicated, torn or interleaved with another, whatever number of threads send concurrently and however the kernel splits writes. A message accepted for sending is transmitted without waiting for another message to be queued, unless its connection closes, its call was already given up, or throughput limits delay it.",
 ["schedules", "fault_sequences"],
 "all interleavings of 2-3 concurrent senders with every partial-write pattern (0..n bytes accepted) up to the deviation bound, client and server side",
 "The send path is a lock-free token protocol; lost wake-ups and torn writes need particular schedules and partial writes.",
 [S+"rpc_message_stream.h", S+"rpc_server_message_stream.h", S+"rpc_byte_stream.h"],
 [("single sender token with re-check after release", S+"rpc_message_stream.h try_start_send"), ("sending cursor across partial writes", S+"rpc_message_stream.h on_write_some")],
 [("_send_token", "who may write", S+"rpc_message_stream.h"), ("_pending_calls", "messages accepted, not yet sent", S+"rpc_message_stream.h")],
 ["bytes received by the peer"], "atomic hook")

prop("C07", "Received messages do not depend on how bytes are segmented",
 "A byte stream carrying a sequence of messages (binary requests or HTTP requests to a server, binary replies to a client) yields exactly that sequence of messages with exactly their contents, in order, however the stream is cut into reads and however large the messages are relative to the receive blocks; a message is processed as soon as its last byte has arrived.",
 ["inputs", "fault_sequences"],
 "all segmentations (every set of up to 3 cut points, and byte-by-byte) of streams of 1-4 messages incl. empty, tiny and block-spanning ones, binary and HTTP mixed on different connections",
 "The parsers have no tests; cut points inside the header, at the header/body boundary and at block ends are the risky ones.",
 [S+"rpc_message_stream.h", S+"rpc_server_message_stream.h", S+"binary_rpc_request_parser.cc", S+"http_rpc_request_parser.cc", S+"rpc_request_parser.cc", S+"rpc_message_header.h"],
 [("header/body state machine of the client", S+"rpc_message_stream.h split_and_process_message"), ("parser selection by magic", S+"rpc_server_message_stream.h")],
 [("_receiving_data / _tran_buf", "partially received message", S+"rpc_message_stream.h")],
 ["requests delivered to the service", "replies delivered to callers"])

prop("C08", "Malformed or hostile peer input never harms the process",
 "Whatever bytes a peer sends, a server or client process neither crashes, aborts, hangs nor reads or writes memory out of bounds: it closes the offending connection or answers with an error, keeps serving other connections, and never delivers a message the peer did not completely send. Messages announcing a negative or inconsistent size, or one over the limit where a limit is defined (64 MB for requests), are rejected.",
 ["inputs", "fault_sequences"],
 "all single-field corruptions over a table of boundary values for the header, the meta, the compressed body, the HTTP request line/headers/body and the JSON body, and every truncation followed by close",
 "Robustness is over all inputs; no existing test feeds the parsers anything.",
 [S+"rpc_message_header.h", S+"binary_rpc_request_parser.cc", S+"http_rpc_request_parser.cc", S+"rpc_message_stream.h", S+"binary_rpc_request.cc", S+"http_rpc_request.cc", S+"pbjson.cc", S+"block_wrappers.cc", S+"gzip_stream.cc", S+"rpc_client_impl.cc"],
 [("size limits", S+"binary_rpc_request_parser.cc"), ("header check", S+"rpc_message_stream.h")],
 [], ["process state", "connection closed / error answered", "a later valid call on another connection"])

prop("C09", "The server runs each request once and answers it once",
 "Every complete request received on a live connection is dispatched exactly once to the service method it names, and answered exactly once on the same connection with the method's result, or with an error: unknown service or method, unparsable request and service failure each produce their own error code. A request whose deadline has already passed is dropped unanswered rather than executed or answered late, and a service completing after its connection broke is harmless.",
 ["schedules", "inputs", "fault_sequences"],
 "all interleavings of 1-3 requests completed inline, from another thread or after the connection closed, and all request shapes of a small grammar",
 "No test drives the server's request path.",
 [S+"rpc_request.cc", S+"binary_rpc_request.cc", S+"rpc_server_impl.cc", S+"rpc_server_stream.h", S+"rpc_controller_impl.h", S+"service_pool.h"],
 [("completion callback bound to request and weak connection", S+"rpc_request.cc CallMethod/OnCallMethodDone"), ("error responses", S+"binary_rpc_request.cc")],
 [], ["service method invocations", "reply bytes on the wire"])

prop("C10", "Connection count limit and idle closing are exact",
 "A server configured with a maximum connection count never serves more connections than that at once, refuses only those above it, and accepts again after one closes. With an idle (keep-alive) time configured on server or client, a connection with no traffic for that time and no call in progress is closed within about the maintenance interval, while one with recent traffic or an outstanding call is never closed for idleness (a call begun at the very moment the idle decision is taken may fail).",
 ["schedules", "histories"],
 "all histories of up to 5 connect/disconnect/call/idle steps, and all interleavings of the maintenance timer with accepting, closing and calls up to the deviation bound",
 "Nothing tests limits or idleness, and both are check-then-act across threads.",
 [S+"rpc_server_impl.cc", S+"rpc_client_impl.cc", S+"rpc_server_stream.h", S+"rpc_client_stream.h", S+"rpc_byte_stream.h"],
 [("limit test on accept", S+"rpc_server_impl.cc OnAccepted"), ("idle test in maintenance", S+"rpc_server_impl.cc TimerMaintain / rpc_client_impl.cc TimerMaintain")],
 [("_last_rw_ticks", "last traffic", S+"rpc_byte_stream.h")],
 ["connections open at the peer", "ConnectionCount()"])

prop("C11", "Throughput limits bound traffic and never stall it",
 "With a read or write throughput limit, the bytes admitted for reading or writing across all connections in any period of n slices (0.1 s each) never exceed (n+1) slice quotas plus one in-flight message or read per connection that was already running; and traffic always makes progress: a connection that had to wait for quota resumes in a following slice without further external stimulus. Without a limit nothing is ever delayed, and a limit changed or introduced at run time takes effect from the next slice.",
 ["schedules", "histories", "configurations"],
 "all operation sequences (acquire read/write, slice tick, reset of limits) up to a depth with several connections, plus all interleavings of concurrent acquire and recharge",
 "Quota arithmetic is a lock-free protocol over history; no test covers it.",
 [S+"flow_controller.h", S+"rpc_message_stream.h", S+"rpc_server_message_stream.h", S+"rpc_server_impl.cc", S+"rpc_client_impl.cc"],
 [("quota compare-and-swap and recharge", S+"flow_controller.h"), ("waiting tokens resumed in order by maintenance", S+"rpc_server_impl.cc TimerMaintain")],
 [("_read_quota/_write_quota", "remaining quota, negative = queue position", S+"flow_controller.h")],
 ["bytes transferred per virtual slice"], "atomic hook")

prop("C12", "Pending-send memory is bounded with back-pressure",
 "A peer that stops reading cannot make the library queue without bound: a client call made while the bytes queued on its connection exceed the configured pending-buffer limit fails at once with the send-buffer-full code, and a server starts no further read on a connection whose unsent replies exceed the limit (requests already read are still processed) and resumes as soon as they have drained. The accounting always returns to zero when everything is sent or the connection closes.",
 ["schedules", "histories"],
 "all interleavings of senders with a peer that stops and resumes reading, for limits that are hit by 1-3 messages",
 "Needs a slow peer and concurrent sends; no test has either.",
 [S+"rpc_client_impl.cc", S+"rpc_message_stream.h", S+"rpc_server_message_stream.h", S+"buffer.h"],
 [("pending byte counters", S+"rpc_message_stream.h"), ("suspended receiving", S+"rpc_server_message_stream.h")],
 [("_pending_data_size", "bytes queued", S+"rpc_message_stream.h")],
 ["error code of calls", "bytes read from the socket", "GetPendingBufferSize"], "atomic hook")

prop("C13", "Compression round-trips every message",
 "For every supported compression type, what is compressed and then decompressed is byte-for-byte the original, for any content and size and for any way the underlying buffers chop the data into blocks; the sizes and positions reported by the compressing and decompressing streams agree with the bytes actually produced and consumed. Truncated or corrupted compressed data never crashes, hangs or reads outside its input: decompression ends early, and a message that is then not complete is reported as failed.",
 ["inputs"],
 "all types x all sizes around block and varint boundaries x content classes x all underlying block sizes of a small set x all write/back-up patterns to a depth",
 "No test covers compression.",
 [S+"compressed_stream.cc", S+"block_wrappers.cc", S+"gzip_stream.cc", S+"lz4.cc", S+"rpc_client_impl.cc", S+"binary_rpc_request.cc"],
 [("length-prefixed blocks", S+"block_wrappers.cc"), ("zlib streaming", S+"gzip_stream.cc")], [],
 ["decompressed bytes", "return values of Next()/ParseFromZeroCopyStream"])

prop("C14", "Buffers behave as an exact byte queue",
 "A write buffer yields, as a read buffer, exactly the bytes written to it in order, taking into account every back-up, reservation and later patch; a read buffer delivers exactly its bytes, supports backing up within the last chunk and skipping across chunks, and reports exact byte counts and totals. Sharing, appending and swapping buffers never alters, leaks or prematurely frees the bytes other holders see.",
 ["inputs", "histories", "schedules"],
 "all operation sequences up to a depth over a small alphabet of sizes around block boundaries, for every block-size factor; and all interleavings of two holders releasing shared blocks",
 "The unit tests run a dozen fixed sequences; cursor arithmetic bugs need particular sequences.",
 [S+"buffer.cc", S+"buffer.h", S+"buf_handle.h", S+"tran_buf_pool.h"],
 [("block list with cursors", S+"buffer.cc"), ("reference counted blocks", S+"tran_buf_pool.h")],
 [("BufHandle", "view of a shared block", S+"buf_handle.h")],
 ["bytes returned by Next()", "ByteCount/TotalCount/BlockCount", "block release"], "atomic hook")

prop("C15", "HTTP requests are decoded exactly",
 "An HTTP request (GET or POST) is decoded into exactly its path, query parameters (percent-decoded values), headers and body, in any segmentation; the connection stays usable for further requests, and what is not a well-formed request of this subset is rejected. Request targets, header lines and bodies of any admissible shape within the size limit are accepted. (A request announcing that it accepts a protobuf reply is taken as a protobuf POST, whatever its method.)",
 ["inputs"],
 "all request targets, header blocks and bodies over a small alphabet up to a length bound, compared with an independent reference decoder",
 "No test parses HTTP; the space is all strings.",
 [S+"http_rpc_request_parser.cc", S+"http_rpc_request.cc", S+"http.h", S+"string_utils.cc"],
 [("byte-wise state machine", S+"http_rpc_request_parser.cc"), ("path/query split", S+"http_rpc_request.cc ParsePath")], [],
 ["HTTPRequest seen by a servlet", "request message seen by a service"])

prop("C16", "Calls over HTTP/JSON mean the same as binary calls",
 "A method called over HTTP, with the request as JSON body, as URL parameter or as protobuf body, sees the same request message as a binary call would, and the caller gets a complete HTTP response whose length header is exact and whose body is the method's response, in JSON or protobuf as asked; failures give an HTTP error response. Converting a message to JSON and back yields an equal message (finite floating-point values up to decimal conversion precision), and JSON that does not fit the message type is rejected with an error and never aborts the process.",
 ["inputs"],
 "all messages of a test schema over boundary values of every field type (pairwise with presence), and all JSON documents of a small grammar",
 "No test covers JSON or HTTP calls; the space is all messages and all documents.",
 [S+"pbjson.cc", S+"http_rpc_request.cc", S+"bin2ascii.h"],
 [("reflection based conversion", S+"pbjson.cc"), ("response rendering", S+"http_rpc_request.cc")], [],
 ["bytes of the HTTP response", "converted messages"])

prop("C17", "Web paths route to the most specific registered servlet",
 "Registering a servlet at a path succeeds exactly when the normalised path is free, unregistering returns the servlet registered there or nothing, and a request is handed to the servlet registered at the longest registered prefix (in whole path segments) of its normalised path, or to none (a servlet at the root serves only the root path itself). Registration concurrent with requests never loses a registration or mis-routes a request to a path registered throughout.",
 ["inputs", "histories", "schedules"],
 "all register/unregister/route sequences to a depth over a small set of paths with redundant slashes; all interleavings of one registration with one routing",
 "The unit test registers a handful of fixed paths.",
 [S+"web_service.cc", S+"web_service.h"],
 [("copy-on-write servlet map", S+"web_service.cc"), ("longest prefix search", S+"web_service.cc FindServlet")], [],
 ["servlet invoked", "return values"])

prop("C18", "Service registry and statistics are exact",
 "A service is found under its full name, and its methods under theirs, exactly when it was registered, each full name at most once, regardless of how many services exist and how names collide in the lookup cache. The per-method statistics report exactly the requests that finished in the completed time slots of the asked period: their number of successes and failures, and their total, average and maximum durations.",
 ["inputs", "histories", "schedules"],
 "all register/find sequences over colliding names; all sequences of request completions and slot advances to a depth against a reference accumulator; concurrent completions",
 "No test covers the registry or statistics.",
 [S+"service_pool.h", S+"builtin_service_impl.cc"],
 [("hash cache over an ordered map", S+"service_pool.h"), ("ring of time slots", S+"service_pool.h MethodBoard")], [],
 ["FindService/FindMethodBoard", "LatestStats", "builtin Stat/List/Health services"])

prop("C19", "Timeout manager events fire exactly as contracted",
 "Every event added to a timeout manager runs its callback exactly once with exactly one outcome: timed out (not before its interval elapsed), erased, or cleared (a repeating event runs once per interval until it is erased or cleared). Erasing returns true exactly when it cancelled the event, after which the event never fires; after clear or destruction returned, none of the events added before starts firing any more (nothing at all runs after destruction returned); adding, erasing or clearing from inside a callback works and never deadlocks.",
 ["schedules", "histories"],
 "all interleavings of the timer thread with 1-2 threads adding, erasing and clearing one-shot and repeating events, callbacks calling back in, up to the deviation bound",
 "The unit tests use real sleeps and one thread; races with the timer thread are not reached.",
 [S+"timeout_manager.cc", S+"timeout_manager_impl.h", S+"timeout_manager.h"],
 [("ordered event set under one lock", S+"timeout_manager_impl.h")],
 [("_timeouted / event sets", "events not yet finished", S+"timeout_manager_impl.h")],
 ["callback invocations", "return values"])

prop("C20", "Thread groups run every posted task exactly once",
 "After a thread group started, every task posted or dispatched to it before stop is executed exactly once, tasks never start before start or after stop returned, and stop waits for running tasks. Start succeeds exactly when every thread's init function succeeded; each thread's init function runs once before any task on that thread and its destroy function once at its end, even if init failed; a stopped group can be started again and works as before. The io-service pools built on thread groups run their tasks and stop in the same way, also with streams and timers still alive.",
 ["schedules"],
 "all interleavings of start, stop, posts from 1-2 threads and init/destroy outcomes for 1-3 worker threads up to the deviation bound",
 "Tests run free threads once; a lost task or early start needs a specific schedule.",
 [S+"thread_group_impl.h", S+"thread_group.h", S+"io_service_pool.cc", S+"timer_worker.h", S+"wait_event.h"],
 [("thread life cycle with polling start", S+"thread_group_impl.h")], [],
 ["task executions", "return values"])

prop("C21", "Closures run their target with the right arguments exactly",
 "Running a closure calls exactly the bound function or method with the pre-bound arguments followed by the call-time arguments, in order, for every supported count of both, and returns its result; by-reference arguments refer to the caller's objects, and bound values are copies. A one-shot closure frees itself exactly once when run, a permanent closure stays valid for any number of runs, and a method bound to a shared pointer keeps its object alive as long as the closure.",
 ["inputs", "configurations"],
 "all combinations of closure kind (function/method/shared-pointer method, one-shot/permanent, void/value), pre-bound count and call-time count, exhaustively",
 "Generated code has hundreds of variants, of which the tests instantiate a few dozen.",
 [S+"closure.h", S+"ext_closure.h", S+"closure_helper.h"],
 [("generated bind classes", S+"ext_closure.h"), ("conditional self deletion", S+"closure_helper.h")], [],
 ["arguments seen by the target", "destructor counts"])

prop("C22", "Dynamic channels balance load and tolerate failed servers",
 "A multi-server channel sends each call to a usable server with the fewest outstanding calls (least recently used among equals); a server whose call failed is avoided while any other server is usable, and is used again after a health check finds it well. Added servers become eligible, removed ones get no further calls (calls in flight still complete); when every usable server is at the configured load capacity a call fails with the server-busy code, and with no server at all it fails with server-unavailable - always completing exactly once. While no server is usable the suspected ones are tried, those whose last call succeeded first and the least recently tried first; a name that cannot be resolved counts as a failed server. The address list may change, and the channel be destroyed, at any time.",
 ["histories", "schedules", "configurations"],
 "all histories to a depth of call / reply ok / reply failed / add / remove / health-check result over 2-3 servers, against a reference balancer, plus interleavings of two callers",
 "There is no test of dynamic channels.",
 [S+"dynamic_rpc_channel_impl.cc", S+"dynamic_rpc_channel_impl.h", S+"simple_rpc_channel_impl.cc", S+"rpc_channel.cc"],
 [("live and unlive maps", S+"dynamic_rpc_channel_impl.cc ChooseServer/MoveToUnlive/MoveToLive"), ("periodic health detection", S+"dynamic_rpc_channel_impl.cc TimerDetect")],
 [("_live_map/_unlive_map", "usable / suspected servers", S+"dynamic_rpc_channel_impl.h")],
 ["which server received the call", "error codes"])

prop("C23", "Locks, events, counters and reference counts are correct",
 "Mutual exclusion, reader/writer exclusion, and condition and event waiting behave as specified under every interleaving: critical sections never overlap illegally, a signal that happened before or during a wait is never lost, and timed waits return when signalled or when the time is over. Atomic operations return the old value and lose no update; a shared object is destroyed exactly once, when its last owner goes away, and a weak reference yields either a live object or nothing.",
 ["schedules"],
 "all interleavings of 2-3 threads doing 1-3 operations each on every primitive",
 "Tests hammer the primitives with free-running threads or one thread; correctness is over all schedules.",
 [S+"spin_lock.h", S+"mutex_lock.h", S+"rw_lock.h", S+"fast_lock.h", S+"condition_variable.h", S+"wait_event.h", S+"atomic.h", S+"counter.h", S+"smart_ptr/shared_ptr.hpp", S+"smart_ptr/weak_ptr.hpp", S+"smart_ptr/detail/sp_counted_base_gcc_x86.hpp", S+"smart_ptr/enable_shared_from_this.hpp"],
 [("wrappers of pthread primitives", S+"mutex_lock.h"), ("inline assembly atomics", S+"atomic.h"), ("reference counts", S+"smart_ptr/detail/sp_counted_base_gcc_x86.hpp")], [],
 ["overlap of critical sections", "wake-ups", "returned values", "destructor counts"], "atomic hook")

prop("C24", "String helpers are exact inverses and total",
 "Text helpers behave as their names say for every input: splitting and joining are inverse, trimming removes exactly the surrounding blanks, replacing replaces exactly the occurrences, C-style escaping then unescaping gives back the input, percent-encoding then decoding with matching flags gives back the input (up to input already containing percent escapes), binary/base64/hex text conversion round-trips, and hexadecimal text that is not well-formed is refused, as is base64 text with foreign characters or of an impossible length. None of them reads outside its input.",
 ["inputs"],
 "all strings up to a length bound over an alphabet containing every special character class, for every flag combination",
 "No test covers these helpers.",
 [S+"string_utils.cc", S+"string_utils.h", S+"bin2ascii.h"],
 [("table driven escaping", S+"string_utils.cc")], [],
 ["returned strings"])

prop("C25", "Python client: one call, one reply, deadlines kept",
 "A Python client call sends exactly one well-formed request and returns exactly the reply to it, however the reply is split across reads; a service failure is reported through the controller, and a connection error, an ill-formed or mismatching reply and an exceeded deadline are raised as errors. After any failed call the next call on the channel works normally if the server does: bytes left over from an earlier call are never taken for a later call's reply.",
 ["inputs", "fault_sequences", "histories"],
 "all read segmentations, all placements of connection errors, timeouts and bad replies in histories of up to 3 calls on one channel",
 "There are no tests of the Python client.",
 ["python/sofa/pbrpc/client.py"],
 [("framing and sequence check", "python/sofa/pbrpc/client.py ReceiveResponse"), ("deadline per socket operation", "python/sofa/pbrpc/client.py UpdateTimeout")], [],
 ["bytes sent on the socket", "return value / exception"])

prop("C26", "Mocked methods replace exactly the calls they should",
 "With mocking enabled, calls through a mock-addressed channel go to the function registered for the called method's full name and complete exactly once with what it set, and fail with an error when none is registered; re-registration replaces and clearing removes. With mocking disabled nothing is redirected.",
 ["histories", "inputs"],
 "all sequences of enable/disable/register/clear/call(sync, async) to a depth, against a reference map",
 "The mock sample test runs two fixed calls.",
 [S+"mock_test_helper.cc", S+"mock_test_helper_impl.h", S+"simple_rpc_channel_impl.cc", S+"rpc_channel.cc"],
 [("name to function map", S+"mock_test_helper_impl.h"), ("redirection", S+"simple_rpc_channel_impl.cc")], [],
 ["functions invoked", "controller state", "completion callback"])

prop("C27", "The HTTP agent calls any method by name and survives updates of what it knows about the server",
 "HttpAgent lists and describes exactly the services of the last successful query of the server. A call by full method name with a text or JSON request reaches that method with exactly the message described, and completes exactly once, with the text of its reply or with the error code that says what was wrong (method name, service, method, request text, missing required field, error from the service). Updating the descriptions (successfully, unsuccessfully, or to a different set of services), other calls, and destroying the agent never affect calls in flight; completion callbacks may use the agent.",
 ["schedules", "inputs", "histories"],
 "update against call in flight; sequences of good and bad listings; methods x formats x contents",
 "No test uses the agent; the failures need an update or a destruction between a request and its reply, or a listing that cannot be used.",
 [S+"http-agent/http_agent.cc", S+"http-agent/http_agent.h", S+"builtin_service_impl.cc", S+"service_pool.h"],
 [("descriptor pool, factory and service map", S+"http-agent/http_agent.h"), ("call by name", S+"http-agent/http_agent.cc"), ("listing with files in dependency order", S+"service_pool.h")], [],
 ["completion callback", "controller state", "reply text", "listing"])

prop("C28", "Controllers apply the options set and report what happened",
 "The timeout and the compression types of a call are those of the controller if set there, else of the method's proto options, else (timeout) of the service's option or 10 seconds; they are what is sent to the server, applied and reported by Timeout(). After a call, error code and text are exactly those of its outcome (code name, reason given by the server or service), IsRequestSent() and SentBytes() say whether the request left and how many bytes it took, and the addresses are those of the connection used; nothing of it changes later, and Reset() leaves nothing of it. Services see the addresses, protocol, path, parameters and headers of their own request until they complete it, and what they report as failure reaches that caller.",
 ["inputs", "histories", "schedules"],
 "all combinations of option sources; all sequences of outcomes to a depth; pairs of concurrent requests",
 "The tests set one timeout; precedence, leftovers and mix-ups need combinations, sequences and concurrency.",
 [S+"rpc_controller.h", S+"rpc_controller.cc", S+"rpc_controller_impl.h", S+"rpc_option.proto", S+"rpc_client_impl.cc", S+"simple_rpc_channel_impl.cc", S+"rpc_request.cc", S+"binary_rpc_request.cc", S+"http_rpc_request.cc", S+"rpc_error_code.cc"],
 [("option precedence", S+"rpc_controller_impl.h"), ("request meta", S+"rpc_client_impl.cc"), ("results of a call", S+"rpc_controller_impl.h"), ("server side controllers", S+"rpc_request.cc")], [],
 ["wire meta", "controller state", "peer addresses", "virtual time"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
