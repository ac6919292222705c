#!/usr/bin/env python3
"""The properties; manifest.py writes properties.jsonl from this list."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=["libiqxmlrpc/" + f for f in files], mechanism=[dict(name=n, where="libiqxmlrpc/" + w) for n, w in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

# ---------------------------------------------------------------- values
p("V01", "Base64 values: exact round trip, malformed text rejected",
  "Encoding any byte string as a base64 value and decoding the text gives back exactly the same bytes, and the text is canonical RFC 4648 (alphabet, padding, length). Decoding a text either yields exactly the bytes the text denotes (white space ignored) or throws the malformed-base64 exception; nothing outside the alphabet, with missing characters or with misplaced padding is accepted.",
  ["inputs"], "all byte strings up to the length bound, both directions",
  "Tests encode and decode a few fixed strings; they never see every residue of the length modulo 3 with every byte value, nor malformed padding.",
  ["value_type.cc", "value_type.h"], [("base64 encoder/decoder", "value_type.cc: Binary_data")], ["Binary_data::get_base64/get_data results"])
p("V02", "dateTime.iso8601: accepts exactly valid stamps, keeps the instant",
  "A date-time text is accepted exactly when it has the form YYYYMMDDTHH:MM:SS with fields in range; every other text is refused with the malformed-date exception. An accepted text yields those calendar fields, and converting a date-time value (however built) to text and back gives the same fields.",
  ["inputs"], "all texts up to the length bound; all in-range calendar fields",
  "The tests parse one good and a handful of bad stamps; the 17 positions times 256 byte values are never covered.",
  ["value_type.cc"], [("iso8601 parser/formatter", "value_type.cc: Date_time")], ["Date_time::get_tm, to_string"])
p("V03", "Values are deep, independent copies; no leak, no double free",
  "Copying or assigning a value (scalar, array or struct, nested or not, also onto itself or onto one of its own parts' parent) gives an equal value that later changes to either side do not affect. Any sequence of build, copy, assign, insert, overwrite, erase, clear and destroy operations touches only live memory and releases everything it allocated.",
  ["programs", "histories"], "all operation sequences up to the bound over symbolic operation codes, keys, indices and scalar contents",
  "Unit tests run a few fixed sequences without memory checking; ownership errors need particular orders such as overwrite after erase or self-assignment.",
  ["value.cc", "value_type.cc", "value_type.inl", "util.h"], [("owning containers and clone()", "value_type.cc: Array, Struct"), ("copy and swap", "value.cc: Value::operator=")])
p("V04", "Typed access returns the stored value or throws, never misreads",
  "For each stored type exactly one type predicate is true, the type name matches, the matching accessor returns the stored value bit for bit, and every other accessor or conversion throws the bad-cast exception. Array indexing outside the size and reading an absent struct member throw their documented exceptions for every index and key.",
  ["inputs", "programs"], "all pairs (stored type, accessor), all scalar values, all int indices, all keys up to the bound",
  "Tests try a few matching accesses; the full type-by-accessor matrix and negative or huge indices are not tried.",
  ["value.cc", "value_type.h", "value_type.cc"], [("checked casts", "value.cc: Value::cast"), ("range checks", "value_type.h: Array::operator[]")])
p("V05", "Printing and visiting a value shows every part exactly once",
  "Visiting a value calls the visitor once for every scalar, array and struct member in order with the stored contents, and the textual dump of a value contains them in that order. Visiting does not change the value.",
  ["inputs", "programs"], "all value trees up to the size bound with symbolic scalars",
  "The dump is only looked at by eye in the tests; no assertion on order or completeness of nested containers.",
  ["value_type_visitor.cc", "value_type_visitor.h", "value.cc"], [("visitor dispatch", "value_type_visitor.cc")])
# ---------------------------------------------------------------- XML
p("X01", "Any value survives the trip through request and response XML",
  "For every value tree whose strings contain only characters XML can represent, serialising it as a request parameter or a response result and parsing that document gives an equal value: same types, scalars, array order, struct members, strings byte for byte. This holds for strings with markup characters, empty strings, strings of white space only, and with string tags omitted from responses.",
  ["inputs", "programs", "configurations"], "all value trees up to the depth/width bound, symbolic scalars and string bytes; string-tag option on and off",
  "Round-trip tests use a few hand written values; extreme integers, nested empties and white space strings are not combined.",
  ["value_type_xml.cc", "value_parser.cc", "xml_builder.cc", "parser2.cc", "request.cc", "response.cc"],
  [("XML writer visitor", "value_type_xml.cc"), ("pull parser + builders", "value_parser.cc")], ["dump_request/parse_request, dump_response/parse_response"])
p("X02", "Scalar XML text is decoded exactly or refused as an error",
  "The text of an int, i8, boolean or double element is turned into exactly the number it denotes; text that is not such a number, or lies outside the type's range, is refused with an exception and never wraps, truncates or yields a partly read number. Empty integer elements are refused unless a default was configured, in which case exactly the default is used.",
  ["inputs", "configurations"], "all texts up to the length bound for each scalar element, defaults set or not",
  "Tests parse a few valid numbers; range edges, signs, trailing garbage and every byte value are not covered.",
  ["value_parser.cc", "value.cc"], [("lexical conversion", "value_parser.cc: ValueBuilder::do_visit_text")])
p("X03", "Only well-formed XML-RPC documents are accepted, order kept",
  "Every method call document that follows the XML-RPC grammar is accepted with the given method name and its parameters in document order. A document with a wrong root, unknown, missing, repeated or misplaced elements, a value with two types, an element inside a scalar or an incomplete struct member is refused with an exception, and whatever the sequence of elements, text and closing tags there is no crash, leak or access to freed memory.",
  ["inputs", "programs"], "all well-formed XML event sequences up to the bound over the XML-RPC element names plus an unknown one, followed by end of document or a parse error",
  "Parser tests feed a dozen documents; misplaced, repeated and missing elements at every position are not enumerated.",
  ["parser2.cc", "request_parser.cc", "response_parser.cc", "value_parser.cc"], [("state machines", "parser2.cc: StateMachine"), ("builders", "request_parser.cc, value_parser.cc")])
p("X04", "Response documents: result or fault decoded faithfully",
  "Parsing a response yields either the result value or the fault with exactly the transmitted code and string; a response with neither, or with a malformed fault structure, is refused with an exception. A fault response built from any code and string survives serialisation and parsing, and asking it for its value throws an exception carrying that code and string.",
  ["inputs", "programs"], "all fault codes, fault strings up to the bound, and all event sequences of a response document up to the bound",
  "Tests decode one fault; wrong member types, missing members and extra members are not tried.",
  ["response_parser.cc", "response.cc"], [("fault decoding", "response_parser.cc: ResponseBuilder::parse_fault")])
p("X05", "Untrusted XML never reaches the network, files or entities",
  "Whatever document is parsed, the XML library is only ever driven with network access disabled and with entity substitution off, each parsed document's reader is released exactly once, and a reader failure at any point surfaces as the parse-error exception.",
  ["inputs", "fault_sequences"], "every parse of a request or response, with a reader failure injected at every read",
  "No test inspects how the XML reader is configured or injects reader failures.",
  ["parser2.cc"], [("reader options", "parser2.cc: Parser::Impl")])
# ---------------------------------------------------------------- HTTP
p("H01", "HTTP packets are read the same however the bytes are split",
  "The packet obtained from the bytes of a message (header fields, body) or the error raised does not depend on how they were cut into reads. A packet is delivered as soon as, and not before, its whole header and Content-Length body bytes have arrived, and its body is exactly those bytes.",
  ["inputs", "schedules"], "all byte streams up to the bound (fixed header shapes with symbolic bytes) and all ways to split them into reads",
  "Tests run over loopback where a message almost always arrives in one read; no test controls fragmentation.",
  ["http.cc", "http.h", "server_conn.cc", "client_conn.cc"], [("incremental reader", "http.cc: Packet_reader")])
p("H02", "The request size limit is enforced for every request",
  "With a maximum request size configured, a request whose header plus declared or received body reaches the limit is refused with 413 before its content is processed, and the memory used for it never exceeds the limit plus one read; a smaller request is always accepted. The limit applies to each request of a persistent connection separately.",
  ["inputs", "configurations", "histories"], "all limits and declared lengths, all fragmentations up to the bound, two consecutive requests",
  "One test sends a large request; boundary values, huge declared lengths and the second request on a connection are not tried.",
  ["http.cc", "server_conn.cc"], [("size accounting", "http.cc: Packet_reader::check_sz")])
p("H03", "HTTP headers are validated; bad requests get the right status",
  "Header names match case-insensitively and surrounding blanks are ignored. A Content-Length that is not a plain decimal number in range, a header line without colon, a method other than POST, a missing Content-Length, an unknown expectation, and (strict mode) a non-XML content type are refused with 400, 400, 405, 411, 417 and 415 respectively; a header with none of these is accepted with its values unchanged.",
  ["inputs", "configurations"], "all header values up to the length bound with symbolic bytes, both verification levels",
  "Tests send a handful of malformed headers; most byte values and positions are never seen.",
  ["http.cc", "http_errors.h", "server_conn.cc"], [("option validators", "http.cc: validator"), ("head line parsing", "http.cc: Request_header")])
p("H04", "Generated HTTP messages parse back to the same message",
  "Every message the library emits (request or response) carries a Content-Length equal to its body, the configured connection mode, and parses back to the same start line, headers and body. A text/xml content type accompanies every non-empty body.",
  ["inputs", "configurations"], "all bodies and header values up to the length bound, keep-alive on and off",
  "Client and server of the tests share the same code, so symmetric mistakes cancel out.",
  ["http.cc", "http.h"], [("header dump", "http.cc: Header::dump"), ("content length", "http.cc: Packet::Packet")])
p("H05", "Basic credentials travel unchanged and gate every call",
  "The user and password a client sets (any bytes, the user non-empty and without colon) are exactly what the server's authentication plugin sees and what the method sees as the authenticated name. With a plugin installed a method runs only if the plugin accepted those credentials, or accepted anonymous access when none were sent; otherwise the reply is 401 with a challenge and no method runs.",
  ["inputs", "configurations"], "all user/password bytes up to the bound, malformed authorization headers, all plugin decisions",
  "Tests use one user name and one wrong password.",
  ["http.cc", "server.cc", "auth_plugin.h"], [("credential codec", "http.cc: get_authinfo/set_authinfo"), ("gate", "server.cc: authenticate")])
p("H06", "X-headers reach the method and nothing else does",
  "Only names starting with X- (any case) can be set as custom headers; they are stored lower-cased, later settings replace earlier ones, and lookups ignore case. A method sees exactly the X-headers of its own request with their values.",
  ["inputs"], "all header names and values up to the length bound",
  "Tests set two well-formed headers.",
  ["xheaders.cc", "xheaders.h", "http.cc", "server.cc"], [("name validation", "xheaders.cc: XHeaders::validate")])
p("H07", "Expect: 100-continue gets exactly one interim reply per request",
  "A request announcing 100-continue whose client waits before sending the body is answered with exactly one interim 100 reply, then, after the body, with exactly one final reply; if the body follows without waiting there is at most one interim reply, never after the final one, and none if the body was already there. This holds for every request on a persistent connection and for every fragmentation.",
  ["schedules", "histories"], "all fragmentations and arrival orders of up to two requests",
  "No existing test uses Expect.",
  ["http.cc", "server_conn.cc", "http_server.cc", "https_server.cc"], [("continue state", "server_conn.cc: read_request")])
# ---------------------------------------------------------------- server
p("S01", "Each request gets its own complete reply despite partial sends",
  "On a server connection every complete request (sent after the previous reply; pipelining is not supported) is answered by exactly one response whose bytes reach the socket in order, without loss or repetition, however the kernel splits sends and reads. The connection stays usable after the reply exactly when keep-alive was requested, and is otherwise, as after a refused request, closed once, after the last byte; the server only ever writes when it has something to send.",
  ["schedules", "histories", "fault_sequences"], "all partial send/receive sizes, up to two requests per connection, socket errors and peer close at every step",
  "Loopback sockets accept whole replies at once, so partial writes never happen in the tests.",
  ["http_server.cc", "server_conn.cc", "server.cc", "reactor_impl.h"], [("output handling", "http_server.cc: handle_output")])
p("S02", "Every failure of a call becomes the right fault and stays contained",
  "Whatever a method, dispatcher or parser throws, the caller receives a well-formed response: the fault code and text of a fault, the library's code for malformed XML, protocol violations, unknown methods and bad parameters, or an application error for anything else. The server keeps serving, and neither the method nor the executor object is leaked or freed twice, also when the result cannot be serialised.",
  ["inputs", "fault_sequences"], "all exception kinds and fault codes thrown from every stage of the call, serial and pool execution",
  "Tests throw one kind of exception from a method body.",
  ["server.cc", "executor.cc", "except.h"], [("exception mapping", "server.cc: schedule_execute"), ("executors", "executor.cc")])
p("S03", "Calls go to the right method; introspection lists what is callable",
  "A call runs the method registered last under exactly that name, or the first additional dispatcher that knows it, or fails with the unknown-method fault. With introspection enabled the listing names every registered method and every callable listed name resolves; replaced registrations are released.",
  ["inputs", "histories"], "all registration orders up to the bound over symbolic names, with additional dispatchers",
  "Tests register distinct names once.",
  ["dispatcher_manager.cc", "builtins.cc", "method.h"], [("registry", "dispatcher_manager.cc")])
p("S04", "Interceptors wrap every call, last pushed first, each exactly once",
  "For every executed call the interceptors run nested in last-pushed-first order around the method, each exactly once, with the same parameters and result object; an interceptor that does not yield prevents the method from running, and one that throws produces a fault reply.",
  ["programs", "configurations"], "up to three interceptors, each yielding, not yielding, throwing or changing the result, serial and pool execution",
  "Tests push one counting interceptor.",
  ["method.h", "method.cc", "server.cc", "executor.cc"], [("nesting", "method.h: Interceptor")])
p("S05", "The thread pool runs every accepted call exactly once",
  "With any number of pool threads and any interleaving, every call handed to the pool is executed exactly once by one thread and answered exactly once on its own connection, and no queued call is left waiting while a pool thread is idle. No data is shared between threads without synchronisation.",
  ["schedules"], "all interleavings of one or two workers with up to two calls within the preemption bound",
  "Stress tests hit only the schedules the OS happens to produce.",
  ["executor.cc", "executor.h", "server.cc", "reactor_impl.h"], [("request queue", "executor.cc: Pool_thread, register_executor")])
p("S06", "Destroying the thread pool always finishes, whatever the timing",
  "Destroying the pool returns in every interleaving: no thread waits forever and no lock cycle occurs, whether the workers are starting, idle, or busy and whether calls are queued. Afterwards no pool thread runs and every queued call object has been released.",
  ["schedules"], "all interleavings of construction, submission and destruction with one or two workers within the preemption bound",
  "Tests destroy the pool once, after everything has been quiet for a long time.",
  ["executor.cc", "executor.h"], [("shutdown handshake", "executor.cc: destruction_started, Pool_thread")])
p("S07", "The firewall decides before any byte is served; sockets never leak",
  "Every accepted connection is shown to the configured firewall first: a refused peer gets only the firewall's message and its socket is closed, a granted peer is served. Failures while accepting or refusing a peer do not stop the server or leak the socket.",
  ["inputs", "fault_sequences"], "all firewall decisions and messages, failures of accept, send, and peer lookup",
  "The tests use no firewall and no accept failures.",
  ["acceptor.cc", "socket.cc", "conn_factory.h", "firewall.h"], [("accept path", "acceptor.cc: Acceptor::accept")])
p("S08", "Stopping the server takes effect in every interleaving",
  "A request to stop the server, from a method or another thread, makes the serving loop return, also when it comes before the loop starts waiting, and pending work of other threads cannot undo it. After it returned the listening socket is closed and serving can be started again.",
  ["schedules", "histories"], "all interleavings of the serving loop with a stop request within the bound",
  "Tests stop the server once at the end, when it is idle.",
  ["server.cc", "reactor_interrupter.cc", "reactor_impl.h"], [("exit flag + wake-up connection", "server.cc: set_exit_flag; reactor_interrupter.cc")])
p("S09", "Separate objects can be used from separate threads at the same time",
  "Threads that share no object may at the same time build, serialise and parse values, calls, responses and HTTP messages, convert dates and binary data, resolve addresses, make client calls and run servers. Each gets the results it would get alone, and nothing is shared between them without synchronisation.",
  ["schedules", "programs"], "every pair of the listed activities, with symbolic texts, in all interleavings within the preemption bound; unsynchronised sharing is detected in any interleaving",
  "Tests run one activity at a time or never compare; a shared buffer goes wrong only in rare schedules.",
  ["value.cc", "value_type.cc", "http.cc", "request.cc", "response.cc", "inet_addr.cc", "client.cc"], [("no hidden shared state", "value_type.cc, http.cc, parser2.cc, xml_builder.cc")])
p("S10", "A method sees exactly its own call: name, peer and parameters",
  "Whichever way a method is provided, and with or without interceptors, it is run on a fresh object that reports the name it was called by and the address and port of the peer that called, and gets that call's parameters in order. Calls of other peers, earlier calls on the connection and calls running at the same time never show through.",
  ["inputs", "histories", "schedules"], "two peers with different addresses and two calls per connection, over four ways to provide a method, up to two symbolic parameters, serial and pool execution",
  "Tests call from one local address and look only at results.",
  ["server.cc", "method.h", "method.cc", "executor.cc", "dispatcher_manager.cc", "server_conn.cc"], [("call data", "server.cc: schedule_execute")])
p("S11", "Messages logged by methods reach the error log whole, one line each",
  "Every message a method logs is written to the stream set last as one complete line, none lost, repeated or mixed with another, also when methods running in different threads log at the same time. Without a stream nothing is written anywhere.",
  ["schedules", "configurations"], "all message combinations out of four texts, stream set, changed or absent, and all interleavings of two pool threads within the preemption bound",
  "Tests never log from a method, let alone from two at once.",
  ["server.cc", "method.cc"], [("log", "server.cc: log_err_msg")])
p("S12", "A server that cannot listen says so, leaves nothing behind and can try again",
  "If creating, binding or listening on the server's socket or looking up its address fails, starting to serve raises a network error and leaves no open socket behind. Once the cause is gone the same server can be started, listens on exactly the configured address and port, and serves; the listening socket is closed when serving stops.",
  ["fault_sequences", "configurations"], "all failing steps and error codes, repeated failures, first start or restart, wildcard and named addresses, over HTTP and HTTPS",
  "Tests only start servers on free ports.",
  ["acceptor.cc", "socket.cc", "server.cc"], [("listening", "acceptor.cc: Acceptor"), ("start", "server.cc: work")])
# ---------------------------------------------------------------- reactor
p("R01", "The event loop calls exactly the ready, registered handlers",
  "Each round calls a handler's input or output routine only if that handler is registered for it and the event (errors and hang-ups count as output) occurred or was injected, always with the handler registered for that descriptor, and never one that has been unregistered or finished. A handler that asks to terminate, or throws where the loop catches, is unregistered and finished exactly once; other handlers are unaffected, and the loop never sleeps while an injected event is pending.",
  ["histories", "fault_sequences"], "all sequences of register/unregister/inject operations and poll outcomes up to the bound over up to three handlers",
  "Tests use the loop only through whole client/server exchanges.",
  ["reactor_impl.h", "reactor_poll_impl.cc", "reactor.h"], [("handler table", "reactor_impl.h: Reactor"), ("poll translation", "reactor_poll_impl.cc")])
p("R02", "Waiting respects timeouts, interrupted waits and poll errors",
  "A wait that times out reports a timeout without calling any handler; a wait interrupted by a signal neither reports a timeout nor invokes handlers for events that did not occur; any other poll failure is raised as a network error. With only wake-up handlers registered the loop reports that there is nothing to serve.",
  ["fault_sequences"], "all poll results and error codes, any timeout value",
  "No test interrupts or fails poll.",
  ["reactor_poll_impl.cc", "reactor_impl.h"], [("poll wrapper", "reactor_poll_impl.cc: poll")])
# ---------------------------------------------------------------- client
p("C01", "A client call returns the server's answer or a clean error",
  "Whatever the fragmentation of sends and reads, a call transmits the complete request exactly once and returns exactly the response the server sent. Peer close, socket errors, malformed or non-200 answers and timeouts each surface as the documented exception, and in every outcome the call's socket is closed exactly once and no memory is leaked.",
  ["schedules", "fault_sequences"], "all partial transfer sizes, and an error, close or timeout at every step",
  "Tests talk to a well-behaved local server over loopback.",
  ["http_client.cc", "client_conn.cc", "client.cc", "connection.cc"], [("exchange loop", "http_client.cc: do_process_session")])
p("C02", "On a persistent connection each call gets its own answer",
  "With keep-alive, consecutive calls reuse the connection and every call returns the response to that very call, never a previous call's. After a failed call (timeout, error, close) the next call starts on a fresh connection.",
  ["histories", "fault_sequences"], "two calls with every failure point of the first, all fragmentations up to the bound",
  "Keep-alive tests never fail a call and then continue.",
  ["client.cc", "http_client.cc"], [("connection cache", "client.cc: Auto_conn")])
p("C03", "Connecting reports every failure and leaks no socket",
  "Establishing a connection succeeds only if the transport reports success; refusal, unreachable peers, late asynchronous errors and timeouts are each raised as network error or client timeout, with the socket closed exactly once. The configured timeout bounds the wait.",
  ["fault_sequences", "configurations"], "all results of connect, poll and the pending socket error, timeouts set or not",
  "Tests only connect to a listening local port.",
  ["connector.cc", "socket.cc", "connector.h"], [("non-blocking connect", "connector.cc: Connector_base::connect")])
p("C04", "The request carries exactly the configured target and options",
  "The transmitted request names the configured URI (absolute form through a proxy), virtual host and port, credentials, extra headers with per-call ones overriding, and the keep-alive choice, and its body is the XML of exactly the given method and parameters.",
  ["inputs", "configurations"], "all combinations of options with symbolic contents up to the length bound",
  "Tests check that calls work, not what is sent.",
  ["client_conn.cc", "client.cc", "client_opts.h", "http_client.cc"], [("request assembly", "client_conn.cc: process_session")])
p("C05", "Addresses: exact conversion, failed lookups never go unnoticed",
  "An address built from host and port, port only, or a socket address reports that host and port and yields a socket address with the same port and the looked-up IPv4 address. A failed lookup raises a network error each time it is used, and host names containing line breaks are refused.",
  ["inputs", "fault_sequences"], "all ports and addresses, all lookup outcomes in sequences of up to three uses",
  "Tests resolve localhost once.",
  ["inet_addr.cc", "inet_addr.h"], [("lazy resolution", "inet_addr.cc: Inet_addr::Impl")])
# ---------------------------------------------------------------- TLS
p("T01", "TLS connections survive every want-read/want-write pattern",
  "For every sequence of want-read, want-write, success, close and error results from the TLS library, handshake, reads, writes and shutdown are retried on exactly the requested readiness with the same data, complete replies are delivered, and the connection ends by being freed exactly once; it is never left with nothing to wait for.",
  ["schedules", "fault_sequences"], "all result sequences of the TLS calls up to the bound",
  "TLS tests abort on the very first would-block result and are not part of the stable suite.",
  ["ssl_connection.cc", "https_server.cc", "https_client.cc"], [("TLS state machine", "ssl_connection.cc: Reaction_connection::switch_state")])
p("T02", "TLS peer verification is applied exactly as configured",
  "With a verifier configured the peer certificate is requested and the verifier's decision, including a thrown exception meaning no, decides the handshake; a required client certificate is enforced by the server; with neither a verifier nor a requirement the peer is not checked. The fingerprint given to a verifier is the SHA-256 of the certificate, two hex digits per byte.",
  ["inputs", "configurations"], "all combinations of role, verifier presence and requirement, verifier outcome, and digest bytes",
  "The tests use one verifier that accepts.",
  ["ssl_lib.cc"], [("verification setup", "ssl_lib.cc: Ctx::prepare_verify"), ("callback", "ssl_lib.cc: iqxmlrpc_SSL_verify")])
p("T03", "Every TLS library failure is reported as the matching exception",
  "Every error class the TLS library can report is turned into the matching exception (need-read, need-write, closed, network error, TLS error) and none into silent success or process termination, also when the library has no error text. Failing to load a certificate or key is reported as a TLS error.",
  ["fault_sequences"], "all TLS error codes, return values, error queue contents",
  "Only the paths of a successful exchange run in the tests.",
  ["ssl_lib.cc", "ssl_connection.cc"], [("error mapping", "ssl_lib.cc: throw_io_exception, exception")])
p("T04", "HTTPS through a proxy tunnels first and trusts only a 200",
  "Before any TLS byte, the client asks the proxy to connect to exactly the configured host and port, and starts TLS on that connection only after a complete 200 reply; any other reply, close or timeout is raised as an error and nothing of the request is sent in clear. The socket is closed exactly once.",
  ["schedules", "fault_sequences", "inputs"], "all fragmentations, reply codes and failures of the proxy exchange",
  "The tests have no proxy.",
  ["https_client.cc"], [("tunnel setup", "https_client.cc: setup_tunnel")])
p("T05", "TLS contexts offer what they were given and never obsolete protocols",
  "A context made with a certificate and key presents exactly those files, refuses a key that does not belong to the certificate, and works in the roles it was made for; a client-only context presents none. Connections made from any context refuse SSL versions 2 and 3, several contexts stay independent, and everything obtained from the TLS library is given back with the context, also when making it fails.",
  ["inputs", "configurations"], "two contexts of every kind with symbolic file names, matching and mismatching keys, used as server and client, destroyed before or after their connections",
  "Tests make one context with one pair of files and never look at what was configured.",
  ["ssl_lib.cc", "ssl_connection.cc"], [("context setup", "ssl_lib.cc: Ctx::Ctx, set_common_options")])
