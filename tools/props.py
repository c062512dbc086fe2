"""The properties, in one place; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
S = "src/sofa/pbrpc/"


def A(files, mech, state=(), observe=()):
    d = {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w if w else ""} for n, w in mech]}
    if state:
        d["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    if observe:
        d["observe_at"] = list(observe)
    return d


TECH_PATH = "path-sensitive typestate analysis over clang CFGs (interprocedural, all paths)"
NOTE_PATH = ("Decides the listed rules on every path of the resolved program, including both outcomes of every compare-and-swap; "
             "loops are followed until the abstract state repeats. Does not model memory-order weaknesses or the Boost/pthread implementation.")
PROPS = []


def P(pid, title, statement, over, text, why, anchors, technique=TECH_PATH, note=NOTE_PATH, na=None):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, anchors=anchors,
                      technique=technique, note=note, na=na))


P("T01", "A closed connection stays closed and is closed exactly once",
  "Once a connection has been closed it never becomes usable again, and no later completion of a connect, accept, read or write brings it back. "
  "However many parties close it at the same time, its resources are torn down once and its owner is told once, with the reason of the close that won.",
  ["schedules", "fault_sequences"], "all interleavings of connect/accept/read/write completions, timers and user closes, on client and server connections",
  "The race windows between a completing operation and a close are a few instructions wide; tests close idle or failed connections only.",
  A(["rpc_byte_stream.h", "rpc_message_stream.h", "rpc_server_message_stream.h"],
    [("atomic swap of the status word in close()", "rpc_byte_stream.h"), ("compare-and-swap transitions to CONNECTED", "rpc_byte_stream.h")],
    [("_status", "INIT/CONNECTING/CONNECTED/CLOSED", "rpc_byte_stream.h")], ["closed callback of client and server", "socket close"]))
P("T02", "Failed or late I/O never delivers data and closes the connection",
  "Every completion of a connect, read or write is examined before its data is used: after an error or after the connection has closed nothing is delivered, and an error closes the connection. "
  "A connection attempt that exceeds its time limit is closed.",
  ["schedules", "fault_sequences"], "every error code and every completion order of the asynchronous operations of one connection",
  "Network errors in the middle of an operation are not produced by the tests, and each completion handler has its own error path.",
  A(["rpc_byte_stream.h", "rpc_message_stream.h", "rpc_server_message_stream.h", "rpc_server_stream.h"],
    [("status and error test at the head of each completion handler", "rpc_message_stream.h"), ("connect timer", "rpc_byte_stream.h")]))
P("T03", "One reader and one writer per connection, and work is never forgotten",
  "At most one read and one write are outstanding on a connection at any time, whoever starts them. "
  "Whoever holds the right to read or write either starts the operation or gives the right back, and after giving it back looks again for work that arrived in between, so that no queued message is left without anyone to send it.",
  ["schedules"], "all interleavings of senders, I/O completions and quota timers on one connection",
  "A lost wake-up or a doubled writer needs a particular interleaving of two threads within a few instructions.",
  A(["rpc_message_stream.h", "rpc_server_message_stream.h"],
    [("compare-and-swap of the send and receive tokens", "rpc_message_stream.h"), ("re-check after release", "rpc_message_stream.h")],
    [("_send_token, _receive_token", "FREE or LOCKED", "rpc_message_stream.h")]))
P("T04", "Messages are neither lost, duplicated nor torn on a connection",
  "Every message handed to a connection is either written completely, in one continuous byte sequence, or reported as failed exactly once; it is never written twice and never both. "
  "A short write resumes at the first unsent byte and a short read at the first missing byte, and a received message is delivered once and only when it is complete.",
  ["schedules", "fault_sequences", "inputs"], "every split of the byte stream into reads and writes, every close point and message sequence",
  "The kernel splits reads and writes where the tests never see it, and failures between queueing and completion are not produced.",
  A(["rpc_message_stream.h", "rpc_server_message_stream.h"],
    [("pending deque under lock, current sending message, byte counters", "rpc_message_stream.h")],
    [("_sending_data, _sent_size, _received_messages", "position in the byte stream", "rpc_message_stream.h")]))
P("T05", "Configured throughput limits govern every connection and strand none",
  "A limited direction transfers nothing without quota that was granted atomically and charged with the amount transferred; an unlimited direction is never held back. "
  "A connection waiting for quota is restarted after the next recharge or when the limit is lifted, and limits changed at run time take effect on the running endpoint.",
  ["schedules", "configurations", "histories"], "all limit configurations and changes, all interleavings of transfers and recharge ticks",
  "The tests measure throughput in one configuration; a stranded connection needs the quota to run out at a particular moment.",
  A(["flow_controller.h", "rpc_message_stream.h", "rpc_server_message_stream.h", "rpc_client_impl.cc", "rpc_server_impl.cc"],
    [("atomic quota acquire and recharge", "flow_controller.h"), ("maintenance tick restarting exhausted connections", "rpc_client_impl.cc")],
    [("quota tokens", "exhaustion of one connection", "rpc_message_stream.h")]))
P("T06", "Pending data per connection is bounded and reading resumes",
  "A client call whose connection already holds more pending bytes than configured is refused with an error instead of being queued, and a server stops reading requests while too many response bytes are pending. "
  "Reading resumes when the pending bytes have been sent, and the bound is the configured one on both sides.",
  ["schedules", "configurations", "histories"], "every buffer limit and every order of queueing, sending and failing",
  "The existing test fills one buffer in one configuration; a missed resume needs the last pending byte to be sent at a particular moment.",
  A(["rpc_message_stream.h", "rpc_server_message_stream.h", "rpc_client_impl.cc", "rpc_server_impl.cc"],
    [("pending byte count compared with the limit", "rpc_client_impl.cc"), ("read suspension while pending", "rpc_server_message_stream.h")]))
P("T07", "Pending counters move with the queued messages",
  "The number of pending messages and bytes that a connection reports rises by exactly the message queued and falls by exactly the message that leaves the queue, on every success and failure path. "
  "The counters return to zero when nothing is pending.",
  ["histories", "fault_sequences"], "every sequence of queueing, sending, returning to the queue and failing",
  "Drift appears only after error paths that the tests do not run, and shows up as refused calls much later.",
  A(["rpc_message_stream.h", "rpc_server_message_stream.h"], [("paired updates of the pending counters", "rpc_message_stream.h")]))

P("C01", "A client call completes exactly once",
  "Every call a client starts completes exactly once, successfully or with an error: by its response, its deadline, a send failure, the loss of the connection or an error before it was sent, whichever comes first. "
  "Of several parties that complete a call at the same time one wins atomically; it records the outcome and then runs the completion steps of the call, and the others change nothing. "
  "No path drops a call, and a call is registered (callback, connection, deadline) before the event that may complete it can happen.",
  ["schedules", "fault_sequences"], "all interleavings of responses, deadlines, send failures and connection loss, and every early exit of the call path",
  "Each early exit and each race between two completing parties needs its own fault or interleaving; tests cover the success path and one timeout.",
  A(["rpc_controller_impl.h", "rpc_client_impl.cc", "rpc_client_stream.h", "rpc_timeout_manager.cc", "simple_rpc_channel_impl.cc"],
    [("atomic completion gate Done()", "rpc_controller_impl.h"), ("registered calls of a connection, completed when it closes", "rpc_client_stream.h")],
    [("_is_done", "call completed", "rpc_controller_impl.h"), ("_controller_map", "calls waiting on a connection", "rpc_client_stream.h")],
    ["return of a blocking call", "callback of an asynchronous call"]))
P("C02", "A response reaches its call and the outcome is reported faithfully",
  "Each request carries a fresh sequence number, its method, its compression and its time limit; a response is given only to the registered call with the same number and is otherwise ignored. "
  "A call is reported successful only if its response arrived without error and was parsed completely with the compression the response names; an error the server reports reaches the caller as a failure with that code and text, and a failed response never looks like a success.",
  ["inputs", "schedules"], "every response message, in every order, including duplicated, late, failed and unparsable ones",
  "Tests use a correct server: unmatched, failed without code, or unparsable responses never occur.",
  A(["rpc_client_impl.cc", "rpc_client_stream.h", "rpc_controller_impl.h"],
    [("request meta", "rpc_client_impl.cc"), ("look-up by sequence number", "rpc_client_stream.h"), ("parsing in the completion callback", "rpc_client_impl.cc")]))
P("C03", "Blocking calls wake once, callbacks run once on callback threads",
  "A call without a callback returns to its caller only after it is complete, and its caller is woken however early the completion comes. "
  "A call with a callback never blocks its caller; the callback runs exactly once, on a callback thread, never inside the thread that completes the call. "
  "The number of waiting calls a channel reports rises and falls by one per call.",
  ["schedules"], "every moment at which a completion may arrive, before, during or after the caller begins to wait",
  "A lost wake-up needs the completion to arrive between the caller's test and its sleep.",
  A(["simple_rpc_channel_impl.cc", "wait_event.h", "thread_group_impl.h"],
    [("delivery of a completion", "simple_rpc_channel_impl.cc"), ("event with lock and flag", "wait_event.h")]))
P("C04", "Every call has a positive time limit that is enforced",
  "The time limit and the compression of a call are those set by the user, else those of the method, else those of the service, and the limit in force is always positive. "
  "The limit is turned into a deadline before the call is sent; each deadline is registered once, kept until it passes, reported then as a timeout exactly once, and dropped when the call was answered earlier. An expired call is also removed from its connection.",
  ["histories", "schedules", "configurations"], "every combination of options and every order of registrations, answers and clock ticks",
  "Tests set one time limit; the order of registration, answer and tick is never varied.",
  A(["rpc_controller_impl.h", "rpc_timeout_manager.cc", "rpc_client_impl.cc", "simple_rpc_channel_impl.cc"],
    [("options from the method description", "rpc_controller_impl.h"), ("deadline set scanned on every tick", "rpc_timeout_manager.cc")]))

P("S01", "Every request a server accepts is answered exactly once",
  "For every request a running server has received it either sends one response or one error on the connection the request came from; never two, never none. "
  "Only a lost connection, a stopping server or an expired time limit of the request ends it without an answer. A request that cannot be processed, a method that fails and a response that cannot be assembled are answered with an error and its text, never as a success.",
  ["inputs", "schedules", "fault_sequences"], "every kind of valid and invalid binary and HTTP request and every exit of its processing",
  "Each early exit of the processing needs its own malformed request or failure; a silent exit leaves a client waiting until its own time limit.",
  A(["rpc_request.cc", "binary_rpc_request.cc", "http_rpc_request.cc", "web_service.cc", "rpc_server_stream.h", "rpc_server_impl.cc"],
    [("processing of a request", "binary_rpc_request.cc"), ("end of a method", "rpc_request.cc")], observe=["bytes sent on the connection"]))
P("S02", "A request runs the method it names on a completely parsed message",
  "A method runs only if service and method were found by the names in the request, on request and response messages of that method. "
  "The request message was parsed completely, including all required fields and through the decompression its header names, and the controller handed to the method carries the request's sequence number, endpoints, receive time, time limit and response compression.",
  ["inputs"], "every request, well formed or not, over both protocols",
  "Tests send well-formed requests; a partially parsed message or a missing field shows only in what the user's method sees.",
  A(["binary_rpc_request.cc", "http_rpc_request.cc", "rpc_request.cc"], [("lookup and parsing of a request", "rpc_request.cc")]))
P("S03", "The objects of a request are released exactly once",
  "The request message, the response message and the controller of a request, and the parsed document of an HTTP request, are released exactly once on every path, including every refusal, and never used after that.",
  ["inputs", "schedules", "fault_sequences"], "every exit of the processing of a request",
  "Leaks and double releases sit on refusal paths that tests do not take or do not examine.",
  A(["rpc_request.cc", "binary_rpc_request.cc", "http_rpc_request.cc"], [("release at the end of a method", "rpc_request.cc")]))
P("S05", "Overdue requests neither run nor are answered, and running ones are counted",
  "A request whose time limit passed before it could run does not run, and one that finishes after its limit is not answered; the time counts from its receipt, in the unit of the limit. "
  "A connection counts a request as being processed from the start of its method to its end, so that it is idle only when no method runs.",
  ["schedules", "histories"], "every time limit, queueing delay and processing time",
  "Needs a server that falls behind by a particular time; the tests' servers are idle.",
  A(["rpc_request.cc", "rpc_server_stream.h"], [("comparison of elapsed time and limit", "rpc_request.cc"), ("count of requests being processed", "rpc_server_stream.h")]))

P("S04", "A response identifies its request and tells its outcome",
  "Every response the server sends carries the type and the sequence number of its request, and either success or the code and text of the failure; its header names the compression the body was written with. "
  "An HTTP response announces the length and the type of exactly the body that follows.",
  ["inputs", "schedules"], "every response and error, over both protocols",
  "A wrong sequence number or length matters only with several outstanding calls or a particular body; tests compare single answers.",
  A(["binary_rpc_request.cc", "http_rpc_request.cc"], [("assembly of responses", "binary_rpc_request.cc"), ("HTTP responses", "http_rpc_request.cc")], observe=["bytes of the response"]))
P("S06", "The server keeps accepting connections, up to its limit, and closes idle ones",
  "While it runs the server accepts connection after connection, whatever becomes of a single one; it starts each accepted connection once it is known to the server, and when accepting fails it closes the listener and listens again. "
  "It keeps a connection only while it runs and is below its limit, and forgets exactly the connections that closed. A connection is closed as idle only after the configured time without a transfer and while none of its requests is being processed.",
  ["schedules", "fault_sequences", "histories"], "every order of accepts, failures, closes and timer ticks",
  "Needs failing accepts, connections that die between accept and start, the limit being reached, or long idle times.",
  A(["rpc_listener.h", "rpc_server_impl.cc", "rpc_byte_stream.h"], [("accept loop", "rpc_listener.h"), ("limit and idle check", "rpc_server_impl.cc")]))
P("S07", "A name is bound to one service or page until it is released",
  "A service name is bound to the first service registered under it: a further registration is refused and changes nothing, and a lookup returns the service of exactly that name or none. "
  "A page path is bound to the first servlet registered under it until it is unregistered, also while requests are being routed.",
  ["histories", "schedules"], "every sequence of registrations and lookups, also at the same time",
  "Tests register a few services once and look them up from one thread.",
  A(["rpc_server_impl.cc", "web_service.cc"], [("service table", "rpc_server_impl.cc"), ("servlet table", "web_service.cc")]))
P("S08", "Builtin services complete every request and respect the options of the server",
  "Every builtin method completes its request exactly once on every path, also when the server is gone, and does not use it afterwards. The builtin services are present unless disabled, the list of services is kept back when the options say so, "
  "and an option changed at run time gets the value given for it and takes effect, while the others stay.",
  ["inputs", "schedules", "histories"], "every builtin request, in every state of the server",
  "Builtin methods run while the server stops, with options tests do not set.",
  A(["builtin_service_impl.cc", "builtin_service_impl.h", "rpc_server_impl.cc"], [("builtin methods", "builtin_service_impl.cc"), ("change of options", "rpc_server_impl.cc")]))
P("S09", "Text of a request cannot become a command or a file name unchecked",
  "Text that comes from a request becomes part of a shell command, or of the name of a file the server opens or removes, only after it was found to consist of harmless characters.",
  ["inputs"], "every request of the profiling pages",
  "Tests do not send hostile requests; the server ran any command a request named before the repair.",
  A(["profiling.cc"], [("profiling pages", "profiling.cc")]))
P("W02", "A message is framed with the sizes of its parts",
  "Every message consists of a header, meta data and a body; the sizes in the header are those of the parts that follow, also when the body is compressed, and a message is sent only if each part was written completely.",
  ["inputs"], "every message a client or server sends",
  "A wrong size makes the peer misread everything that follows on the connection, for example only with compression or an empty body.",
  A(["binary_rpc_request.cc", "rpc_client_impl.cc", "rpc_message_header.h"], [("assembly of messages", "rpc_client_impl.cc")], observe=["bytes sent on the connection"]))

P("W01", "Received bytes are cut into exactly the messages their headers announce",
  "On a connection every received byte belongs to one message, in order; a message is delivered when all the bytes its header announces arrived, and nothing that follows is added to it, however the bytes are split into reads. "
  "A header with a wrong magic or with sizes that are negative or contradict each other, an HTTP body length that is not a number, and a message over the size limit end the connection instead.",
  ["inputs", "histories"], "every received byte sequence and every split of it into reads",
  "Tests send well formed messages that arrive whole; one byte of error makes everything that follows on the connection garbage.",
  A(["rpc_message_stream.h", "rpc_server_message_stream.h", "binary_rpc_request_parser.cc", "http_rpc_request_parser.cc"],
    [("received header and message", "rpc_message_stream.h"), ("parsers", "binary_rpc_request_parser.cc")], observe=["messages delivered to the client and the server"]))

P("W03", "JSON documents and messages are converted completely and by type",
  "A JSON document becomes a message only if it is valid, every member is a known field and every value is of the type and range of its field, and then every member arrives in its field; otherwise the conversion fails and never reads a value as something it is not. "
  "A message becomes JSON with every field that is set and every element of a repeated one, bytes being encoded in both directions.",
  ["inputs"], "every document and every message of every type",
  "Tests convert a few small messages; documents come from anybody who can reach the server.",
  A(["pbjson.cc", "http_rpc_request.cc"], [("documents to messages", "pbjson.cc"), ("messages to documents", "pbjson.cc")], observe=["parsed messages", "JSON text"]))

P("W06", "Buffers keep every byte once and free every block once",
  "A byte written into a buffer is handed out once and in order: positions, sizes and totals always move by exactly the bytes taken or given back, also for a message without any bytes, and reserved space is filled inside its blocks. "
  "A block of buffer memory lives as long as any buffer or connection refers to it and is freed exactly once, when the last one lets go.",
  ["inputs", "histories", "schedules"], "every sequence of reads, writes, partial writes and handovers between connections",
  "Corruption needs data that straddles blocks at particular sizes, or a buffer released by two threads at once.",
  A(["buffer.cc", "tran_buf_pool.h", "rpc_message_stream.h", "rpc_server_message_stream.h"],
    [("reference counted blocks", "tran_buf_pool.h"), ("scattered read and write buffers", "buffer.cc")],
    [("_buf_list", "blocks of a buffer", "buffer.h"), ("_tran_buf", "block being received into", "rpc_message_stream.h")]))

P("W04", "Compressed messages come back as they were sent",
  "For every compression type, what one side compresses the other side decompresses with the same format, and a message is compressed or not exactly as its meta data announces. "
  "Compressed data is complete before its size is taken; blocks are compressed, framed and restored whole, inside buffers that hold them; memory of the compressors is neither overrun nor leaked, "
  "and broken compressed data is a parse error.",
  ["inputs", "histories"], "every message size, compression type and received byte sequence",
  "Failures need particular sizes around block boundaries, or crafted compressed data.",
  A(["block_wrappers.cc", "gzip_stream.cc", "compressed_stream.cc", "rpc_client_impl.cc", "binary_rpc_request.cc"],
    [("choice of the stream for a type", "compressed_stream.cc"), ("blocks with their length", "block_wrappers.cc"), ("zlib streams", "gzip_stream.cc")],
    [("_backed_up_bytes", "bytes of a block given back", "block_wrappers.h"), ("zcontext_", "state of zlib", "gzip_stream.h")]))

P("W05", "No text from a peer and no failing connection ends the process",
  "Whatever text arrives and whatever network operation fails, the outcome is an error of that call or connection: "
  "no exception leaves the library's handlers, the result of every network operation is looked at before it is relied on, and documents are parsed only within bounded nesting.",
  ["inputs", "faults"], "every received text, every failing socket operation and every unresolvable address",
  "The process ends only for particular malformed text or for a connection that fails at a particular moment.",
  A(["pbjson.cc", "bin2ascii.h", "rpc_byte_stream.h", "rpc_listener.h", "rpc_endpoint.cc", "http_rpc_request.cc"],
    [("handlers around throwing conversions", "pbjson.cc"), ("error codes instead of exceptions", "rpc_byte_stream.h")],
    [("ec", "error code of a network operation", "rpc_listener.h")]))

P("L01", "Shared state is used only under its lock",
  "The maps, lists and flags that several threads share (streams of a client or server, pending calls, timeouts, registered services and pages, addresses of a dynamic channel) "
  "are read and changed only while the lock that guards them is held, references into them do not outlive the locked section, and a change decided by a lookup happens in the section of that lookup. Counters shared without a lock change by atomic steps.",
  ["schedules"], "every interleaving of calls, network events, timers and administration",
  "A data race shows only under a particular interleaving and often only as rare corruption.",
  A(["rpc_client_impl.cc", "rpc_server_impl.cc", "rpc_client_stream.h", "rpc_message_stream.h", "rpc_timeout_manager.h", "timeout_manager_impl.cc", "timer_worker.h", "service_pool.h",
     "web_service.cc", "dynamic_rpc_channel_impl.cc", "mutex_lock.h", "scoped_locker.h"],
    [("scoped locks", "scoped_locker.h"), ("mutexes", "mutex_lock.h")],
    [("_stream_map", "connections of a client", "rpc_client_impl.h"), ("_stream_set", "connections of a server", "rpc_server_impl.h"), ("_timeouts", "timeout events", "timeout_manager_impl.h")]))

P("L02", "Threads of the library never block each other for ever",
  "Locks are taken in one order and never twice by the same thread; threads are not waited for while a lock their tasks need is held; callbacks of the user run without locks; "
  "nobody sleeps with a lock, and a waiter tests its condition again when it wakes.",
  ["schedules"], "every interleaving of calls, callbacks, connection failures, timers, starting and stopping",
  "A deadlock needs two threads at particular points at the same moment.",
  A(["rpc_client_impl.cc", "rpc_server_impl.cc", "rpc_client_stream.h", "rpc_timeout_manager.h", "timeout_manager_impl.cc", "timer_worker.h", "thread_group_impl.h", "wait_event.h",
     "dynamic_rpc_channel_impl.cc", "rpc_listener.h"],
    [("joining of threads", "thread_group_impl.h"), ("waiting for a call", "wait_event.h")],
    [("_start_stop_lock", "lock of the life cycle", "rpc_server_impl.h"), ("_listener_lock", "lock of the listener", "rpc_server_impl.h")]))

P("F01", "Clients and servers start completely and stop in order",
  "Start() of a server returns true only when its threads run and it listens, and otherwise leaves nothing running; a client runs only when all its threads and timers do. "
  "Stop(), and destroying the object, refuses further calls, stops timers and listener, closes every connection, and only then ends the threads and destroys what they used; "
  "it has no effect on an object that does not run; calls, queries and new connections that race it never use a part it destroyed nor leave a connection open.",
  ["schedules", "faults"], "every point in the life of calls, connections and timers at which a client or server is started or stopped, and every part that can fail to start",
  "What a wrong order breaks (a thread that never ends, a use of a destroyed part) needs work in flight at the moment of stopping; starting fails only when threads, names or ports are not to be had.",
  A(["rpc_client_impl.cc", "rpc_server_impl.cc", "rpc_client.cc", "rpc_server.cc", "thread_group.cc", "timeout_manager.cc", "timeout_manager_impl.cc", "rpc_timeout_manager.h", "rpc_listener.h", "rpc_channel.cc"],
    [("start and stop of a client", "rpc_client_impl.cc"), ("start and stop of a server", "rpc_server_impl.cc")],
    [("_is_running", "whether it runs", "rpc_server_impl.h"), ("_maintain_thread_group", "threads of timers", "rpc_client_impl.h")]))

P("F02", "Thread groups run what they are given and end",
  "Every thread of a group runs the init function once before any work and the end function once after it; a group whose threads cannot all be created and initialised fails to start and leaves no thread; "
  "posted work runs once; stopping a group lets the posted work finish and returns only when every thread has ended; a pool starts and stops all of its groups and hands out only services it has.",
  ["schedules", "faults"], "every number of threads and groups, every outcome of the init functions and of creating threads, and every moment of stopping",
  "Failing thread creation and failing init functions do not occur in tests, and a thread that is not waited for does no visible harm until it uses what is gone.",
  A(["thread_group_impl.h", "thread_group.cc", "io_service_pool.cc", "io_service_pool.h"],
    [("start and stop of threads", "thread_group_impl.h"), ("pool of groups", "io_service_pool.cc")],
    [("_thread_params", "parameters of the threads", "thread_group_impl.h"), ("_next_service", "next service given out", "io_service_pool.h")]))

P("M01", "Every timeout runs once, when it is due, erased or cleared",
  "Each timeout given to a TimeoutManager gets an identifier of its own, expires its interval after the tick before it was added and not sooner, and runs its callback exactly once with what happened to it "
  "(timed out, erased, cleared); a repeating one runs on every expiry until it is erased or cleared, and its callback is kept until then and freed after. erase() returns true exactly when it ended the timeout. "
  "Destroying the manager ends the ticks and clears all that is left. The timer ticks once per period until it is stopped.",
  ["schedules", "histories"], "all interleavings of adding, erasing, clearing, expiring and stopping, and all sets of one-time and repeating timeouts",
  "Tests add a few timeouts from one thread; the windows in which an expiry meets an erase, a clear or another add are not hit.",
  A(["timeout_manager.h", "timeout_manager.cc", "timeout_manager_impl.h", "timeout_manager_impl.cc", "timer_worker.h"],
    [("taking due timeouts", "timeout_manager_impl.cc"), ("periodic tick", "timer_worker.h")],
    [("_timeouts", "pending timeouts by identifier and expiration", "timeout_manager_impl.h"), ("_next_id", "next identifier", "timeout_manager_impl.h")]))

P("D01", "A multi-server call runs on one server chosen by load; the set stays consistent",
  "A call on a channel to several servers is made on at most one server and completes once, its callback included; without a usable server it fails after a bounded number of attempts. "
  "The server chosen is a live one with the fewest outstanding calls, the longest unused of these; servers that are not live are used only when none is, and when the least loaded one has reached the capacity the call is refused as busy. "
  "A server whose call or connection fails stops being live, is probed periodically, and is live again only after a successful probe; at every moment each added address has exactly one server, live or not live, and a removed one is neither used nor probed. "
  "Stopping ends the probing before it stops and forgets the servers, whether or not the channel was initialised.",
  ["schedules", "histories"], "all interleavings of calls, completions, probes, addresses added and removed and stopping, and all outcomes of each",
  "Tests use one fixed list of servers that are all up; failures between choosing and calling, concurrent removal and the selection order are never exercised.",
  A(["dynamic_rpc_channel_impl.cc", "dynamic_rpc_channel_impl.h", "rpc_channel.cc"],
    [("choosing a server", "dynamic_rpc_channel_impl.cc"), ("moving between live and not live", "dynamic_rpc_channel_impl.cc"), ("probing", "dynamic_rpc_channel_impl.cc")],
    [("_live_map/_unlive_map", "servers by address", "dynamic_rpc_channel_impl.h"), ("_added_set", "addresses added", "dynamic_rpc_channel_impl.h")]))

# ---- statements we cannot decide statically
NA = []


def N(pid, title, statement, over, text, why, anchors, reason):
    NA.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, anchors=anchors, na=reason))


N("N01", "Compressed payloads decompress to the original bytes",
  "For each supported compression type, data written through the compressing stream and flushed is returned unchanged by the decompressing stream.",
  ["inputs"], "every byte sequence and block boundary", "Tests round-trip a few buffers.",
  A(["gzip_stream.cc", "snappy_stream.cc", "lz4_stream.cc", "block_wrappers.cc"], [("codec loops", "gzip_stream.cc")]),
  "Equality of byte contents after a numeric codec is a value property of every input; no structural rule implies it, and the codecs themselves are third-party code.")
N("N02", "JSON and protobuf values round-trip numerically",
  "A message converted to JSON and back has equal field values, for every value of every scalar type.",
  ["inputs"], "every field value, including extreme numbers and binary strings", "Tests convert a handful of values.",
  A(["pbjson.cc", "bin2ascii.h"], [("conversion switches", "pbjson.cc")]),
  "Depends on number formatting and parsing in rapidjson for all values; only the type mapping (a separate property) is structural.")
N("N03", "Throughput stays within the configured rate",
  "Over any window of one second the bytes transferred in a limited direction stay within the configured rate plus one slice of slack.",
  ["schedules", "histories"], "every traffic pattern and timer jitter", "Tests measure an average once.",
  A(["flow_controller.h", "rpc_client_impl.cc"], [("periodic recharge", "rpc_client_impl.cc")]),
  "A quantitative bound over wall-clock time and timer jitter; static rules decide only that quota is acquired, charged and recharged.")
N("N04", "The distribution of calls over servers is balanced over time",
  "Over time the calls a client makes over several servers are distributed among them in proportion to how fast each of them answers.",
  ["histories", "schedules"], "every arrival pattern and failure of servers", "Tests run one server list once.",
  A(["dynamic_rpc_channel_impl.cc"], [("least-wait selection", "dynamic_rpc_channel_impl.cc")]),
  "Balance is a statistical statement about run-time load; which server a single call chooses is decided as part of D01.")
N("N05", "Timeouts fire close to their deadline",
  "A call whose deadline passes is failed within one timer period of the deadline.",
  ["schedules"], "every clock and load situation", "Tests check one timeout with generous slack.",
  A(["rpc_timeout_manager.cc", "timer_worker.h"], [("periodic scan", "rpc_timeout_manager.cc")]),
  "Real-time latency depends on scheduling and clock behaviour that no static argument over this source bounds.")
N("N06", "HTTP parsing does not depend on how bytes are segmented",
  "The request recognised from an HTTP byte stream is the same however the stream is cut into reads.",
  ["inputs"], "every byte stream and every segmentation", "Tests feed whole requests.",
  A(["http_rpc_request_parser.cc"], [("incremental parser", "http_rpc_request_parser.cc")]),
  "Equality of two runs over all segmentations is a relational value property of a hand-written byte automaton; it needs execution or a solver, not a structural rule.")
