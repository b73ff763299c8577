#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts are maintained here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Message codec round-trip",
 "Every message that the protocol writers accept is parsed back by the message reader to the same type, identifier, name, payload bytes and payload encoding (for error replies: the same code and message; for server configuration: the same fields), in every name-length/padding/payload-length combination. UTF-16 payloads always start at an even offset of the written message.",
 ["inputs"], "all writer kinds x name lengths 0..255 x payload encodings x short payload lengths x identifiers, payload bytes from a small alphabet",
 "The tests sample one random message per kind; a wrong offset at one name length or parity is not hit by them.",
 ["message/writeMsgRequest.go","message/writeMsgSignal.go","message/writeMsgReply.go","message/writeMsgErrorReply.go","message/writeMsgNamelessRequest.go","message/writeMsgSpecialRequestReply.go","message/writeMsgSessionCreated.go","message/newAcceptConfMessage.go","message/parse.go"],
 [("name length flag and header padding","message/writeMsg*.go, message/parse*.go")],
 observe=["exported message writers","message.Message fields after ReadBytes/Read"])
prop("C02", "Message parsing is total, memory-safe and history-independent",
 "Parsing any byte sequence either yields exactly the message described by the binary protocol's grammar for its type or fails with an error (or reports that no type could be determined); it never panics and never accepts a message whose declared lengths do not fit. The result depends only on the bytes just read, never on what the same message object held before.",
 ["inputs","histories"], "every byte string of the structured alphabet up to the bound, for every first byte 0..255, read into a fresh object, and into an object that previously parsed any of a set of other messages (valid or invalid)",
 "Tests use hand-picked too-short/corrupt samples on fresh objects; they do not try every length/flag combination nor reuse a message object after a failed parse.",
 ["message/parse.go","message/parseRequest.go","message/parseRequestUtf16.go","message/parseSignal.go","message/parseSignalUtf16.go","message/parseReply.go","message/parseReplyUtf16.go","message/parseErrorReply.go","message/read.go"],
 [("length checks before slicing","message/parse*.go"),("object reset on close","message/message.go Close")],
 state=[("message object","type, identifier, name, payload of the message read last","message/message.go")],
 observe=["message.Message.ReadBytes","message.Message.Read"])
prop("C03", "Stream reading is chunking-independent and never truncates",
 "Reading a message from a stream yields the same result for every way the stream may split the bytes into chunks and signal its end; a message larger than the receiving buffer is always rejected (never truncated or accepted), the rest of it is consumed, and the buffer remains usable; bytes handed over at once are treated the same. A stream error other than end-of-file is reported as an error.",
 ["inputs","fault_sequences"], "all compositions of message lengths around the buffer size into read chunks (including empty reads), all end-of-file styles, an error injected at every read",
 "The tests read from complete in-memory buffers only; short reads, data-with-EOF and exactly-full buffers are not reached.",
 ["message/buffer.go","message/read.go"], [("cursor and overflow check","message/buffer.go Read")],
 observe=["message.Message.Read"])
prop("C04", "UTF-16 payloads convert to UTF-8 without loss",
 "Converting a UTF-16 (little endian) payload to UTF-8 gives exactly the UTF-8 encoding of the same text for every Unicode text, including characters outside the basic multilingual plane; unpaired surrogates become the replacement character and an odd byte length is an error. Binary and UTF-8 payloads pass through unchanged.",
 ["inputs"], "every Unicode scalar value, every single code unit, all short sequences over a boundary alphabet of code units, odd lengths",
 "Tests convert a few ASCII/BMP samples.",
 ["payload/payload.go"], [("code unit decoding","payload/payload.go Utf8")], observe=["payload.Payload.Utf8","Message.PayloadUtf8"])
prop("C05", "Writers reject invalid input and always release the connection writer",
 "Writing a message with invalid parameters (names or codes that are too long, empty where required, or contain unprintable bytes; odd UTF-16 payloads; unknown special reply types) returns an error and sends nothing. In every case, including a failure of the underlying writer at any point, the underlying writer is closed exactly once, nothing is written after the failure or after the close, and the error is reported to the caller.",
 ["inputs","fault_sequences"], "every writer kind x valid and invalid parameter sets x a write or close failure injected at every call",
 "Tests check one invalid input per writer and never make a write fail in the middle.",
 ["message/writeMsgRequest.go","message/writeMsgSignal.go","message/writeMsgReply.go","message/writeMsgErrorReply.go","message/writeMsgSpecialRequestReply.go","message/writeMsgNamelessRequest.go","message/writeMsgHeartbeat.go","message/writeMsgSessionCreated.go","message/writeMsgSessionClosed.go"],
 [("close on every path","message/writeMsg*.go")], observe=["exported message writers with an instrumented io.WriteCloser"])
prop("C06", "Signal size limit is exact and a rejected signal leaves no trace",
 "Sending a server-side signal succeeds exactly when name or payload is present, the parameters are valid and the encoded message (including any padding) fits the configured message buffer size, and then the client receives exactly that message; otherwise an error is returned, the client receives nothing, and later signals and replies on that connection still work.",
 ["inputs","histories"], "buffer sizes around the minimum, every name length/payload length/encoding around the limit, valid and invalid names, each followed by a valid signal and a request on the same connection",
 "Tests try one oversized and one empty signal and nothing afterwards.",
 ["connection.go","message/calcMsgLen.go","message/writeMsgSignal.go","transport/memchan/buffer.go","transport/memchan/socket.go"],
 [("size computation before taking the writer","connection.go Signal, message/calcMsgLen.go"),("writer release on failure","transport/memchan/socket.go onBufferFlush")],
 observe=["Connection.Signal","bytes received by the client socket"])
prop("C07", "Every request gets exactly one matching reply",
 "While a connection stays open, every well-formed request a client sends gets exactly one reply, sent on the same connection with the request's identifier: the handler's payload and encoding on success, its code and message for a request error, and an internal-error reply (never the error's text) for any other failure, including replies that cannot be encoded. Signals, heartbeats and unexpected messages never get a reply, and no request is handled twice.",
 ["schedules","inputs"], "all interleavings (within the preemption bound) of 1-2 connections sending 1-3 messages to handlers that succeed, fail in every way, or produce unencodable replies, for concurrency limits below, at and above 1",
 "The tests issue single requests on an idle connection; pipelined requests, replies that fail to encode, and handlers overlapping on several connections are not covered.",
 ["handleMessage.go","handleRequest.go","fulfillMsg.go","failMsg.go","registerHandler.go","handleConnection.go"],
 [("reply routing by message identifier","fulfillMsg.go, failMsg.go"),("writer exclusivity","Socket.GetWriter")],
 observe=["ServerImplementation.OnRequest/OnSignal","bytes received by client sockets"])
prop("C08", "Graceful server shutdown",
 "Shutdown returns only after every handler that was accepted has returned and its reply has been sent, and it does return once they have. Requests that arrive during the shutdown are answered with the shutdown error without running a handler, signals that arrive are ignored, new connections are refused, and no handler starts after Shutdown has returned.",
 ["schedules"], "all interleavings (within the preemption bound) of shutdown with in-flight requests and signals, late requests, late signals and new connections, for concurrency limits below, at and above 1",
 "The tests run one fixed timing with sleeps; races between message arrival and the shutdown flag or the operation counter are not reached.",
 ["server.go","registerHandler.go","deregisterHandler.go","isShuttingDown.go","failMsg.go","transport/memchan/transport.go"],
 [("operation counter and shutdown flag","server.go, registerHandler.go, deregisterHandler.go")],
 state=[("running operations","number of handlers the shutdown waits for","server.go currentOps"),("shutdown flag","set once shutdown starts","server.go shutdown")],
 observe=["Server.Shutdown return","handler start/end","client-received replies"])
prop("C09", "Graceful connection close",
 "After a server-side connection is closed, handlers already running on it finish and their replies are delivered before the socket is closed; no handler is started for a message that arrives after Close has returned, requests that arrive meanwhile get the shutdown error instead, and the socket is closed as soon as the last handler is done. Closing is idempotent and thread-safe, leaves other connections untouched, and removes the connection from its session.",
 ["schedules"], "all interleavings (within the preemption bound) of Close (from another thread, twice, or from inside a handler) with message arrival, running handlers and a peer disconnect, for concurrency limits below, at and above 1",
 "Tests close idle connections; the window between checking the state and counting the handler is not reached.",
 ["connection.go","registerHandler.go","deregisterHandler.go","handleConnection.go"],
 [("task counter and active flag","connection.go registerTask/deregisterTask/Close")],
 state=[("running tasks","handlers the close waits for","connection.go tasks"),("active flag","connection accepts work","connection.go isActive")],
 observe=["Connection.Close/IsActive","socket Close call","handler start/end"])
prop("C10", "Per-connection concurrency limit without stalls",
 "At most the configured number of request and signal handlers run at the same time on one connection (one when the limit is 0 or 1, in arrival order then; any number when negative), other connections are unaffected, and whenever fewer handlers than the limit are running, a message that has arrived gets handled without waiting for the running ones. Rejected or failed messages never use up the limit permanently.",
 ["schedules","configurations"], "all interleavings (within the preemption bound) of up to 4 pipelined messages with blocking handlers for limits -1,0,1,2,3, with shutdown-rejected, invalid and failing messages mixed in",
 "No test checks the limit at all.",
 ["handleMessage.go","registerHandler.go","deregisterHandler.go","connection.go","connectionOptions.go"],
 [("handler slots semaphore","registerHandler.go, deregisterHandler.go")],
 observe=["number of overlapping handler invocations per connection"])
prop("C11", "Connection lifecycle: handshake first, hooks exactly once and in order",
 "The first message on every accepted connection is the server configuration with the configured values; the connected hook is invoked exactly once before any message of that connection is handled, and after the connection ends for whatever reason the disconnected hook is invoked exactly once and the connection is inactive and in no session. A malformed message ends the connection it came on (and only that one).",
 ["schedules","inputs","fault_sequences"], "all interleavings (within the preemption bound) of 1-2 connections that send valid and malformed messages and disconnect from either side, with a write failure during the handshake",
 "Tests observe one orderly connection at a time.",
 ["handleConnection.go","newServer.go","connection.go","message/newAcceptConfMessage.go"],
 [("connection serving loop","handleConnection.go")], observe=["ServerImplementation hooks","bytes received by client sockets"])
prop("C12", "Signals arrive intact in both directions",
 "Every signal a client sends on an open connection is handed to the signal handler exactly once with its name, encoding and payload; every server-side signal that was reported as sent arrives at its client exactly once, unmodified and not interleaved with other messages, no matter how many threads send concurrently. Signals sent by one thread arrive in the order they were sent.",
 ["schedules"], "all interleavings (within the preemption bound) of 2-3 concurrent senders (signals, replies, session notifications) on one connection over the in-memory transport and over a scripted one",
 "Tests send single signals sequentially.",
 ["connection.go","handleSignal.go","handleMessage.go","transport/memchan/socket.go","transport/memchan/buffer.go"],
 [("exclusive writer per message","Socket.GetWriter / transport/memchan/socket.go")], observe=["Connection.Signal result","bytes received by the client","OnSignal invocations"])
prop("C13", "Messages stay intact while their handler runs",
 "A message passed to a handler keeps its identifier, name and payload unchanged until the handler returns and its reply has been sent, even while other messages are read on the same or another connection; buffers are reused only afterwards.",
 ["schedules"], "all interleavings (within the preemption bound) of handlers re-reading their message while 2-3 further messages arrive on two connections, for concurrency limits 1, 2 and unlimited",
 "Needs a particular overlap of one handler's end with another message's read; tests never overlap handlers.",
 ["message/syncPool.go","message/message.go","handleRequest.go","handleSignal.go","handleConnection.go"],
 [("buffer released after the handler","handleRequest.go, handleSignal.go")], state=[("message pool","free message buffers","message/syncPool.go")],
 observe=["Message accessors inside handlers","reply identifiers"])
prop("C14", "Session operations follow the session model",
 "For every sequence of session operations (create, close from either side or by key, restore, disconnect) on up to three connections, each operation's result, the replies and notifications the clients get, every connection's session getters, the server's session queries and the session manager calls agree with a simple reference model: a connection has at most one session, restoring replaces it, a session is active while at least one connection uses it, and it is destroyed exactly when it is closed on its last connection (never by a disconnect).",
 ["histories"], "every sequence of session operations up to the depth bound over 2-3 connections and their keys, with and without a connection limit",
 "Tests run a few fixed two- or three-step scenarios; combinations such as restoring over an existing session or closing by key after a disconnect are not reached.",
 ["connection.go","sessionRegistry.go","handleSessionRestore.go","handleSessionClosure.go","server.go"],
 [("session registry","sessionRegistry.go"),("session field of the connection","connection.go")],
 state=[("registry","session key to set of connections","sessionRegistry.go registry")],
 observe=["Connection session API","Server session API","SessionManager hooks","client messages"])
prop("C15", "Session connection limit holds under concurrency",
 "With a maximum number of connections per session configured, a session never has more connections than that at any time, under concurrent restores, creations, closures and disconnects; a restore that would exceed it is answered with the corresponding error and leaves the server and the requesting connection's state intact, and freed places become available again.",
 ["schedules","histories"], "all interleavings (within the preemption bound) of 2-3 concurrent restores with closures and disconnects for limits 1 and 2",
 "The test restores sequentially; the window between counting and registering is not reached.",
 ["handleSessionRestore.go","sessionRegistry.go"], [("limit check","sessionRegistry.go register, handleSessionRestore.go")],
 observe=["Server.SessionConnectionsNum","restore replies"])
prop("C16", "Concurrent session operations stay consistent",
 "Under concurrent creation, closure (per connection, by key, by the client), restoration and disconnection, the server's registry and the connections agree once they are quiescent: a connection is listed under a key exactly when it is open and reports that key, and no closed connection stays listed. A destroyed session has its destruction hook invoked exactly once and only after its creation hook finished, and a session with remaining connections is not destroyed. A reply or notification never reaches the client before what it tells has happened.",
 ["schedules"], "all interleavings (within the preemption bound) of 2-3 concurrent session operations on 1-3 connections sharing one or two sessions",
 "Tests perform session operations one at a time.",
 ["connection.go","sessionRegistry.go","handleSessionRestore.go","handleSessionClosure.go","server.go"],
 [("session lock and registry lock","connection.go, sessionRegistry.go")],
 observe=["Server.SessionConnections","Connection.SessionKey","SessionManager hook log"])
prop("C17", "Default session storage survives crashes and interleavings",
 "With the default file-based session storage, a created session can be looked up with its creation time and information until it is closed and never afterwards, and each lookup returns the previous lookup time. A process crash at any point of any operation loses or corrupts no session that was already stored and not being closed, and concurrent lookups, creations and closures never observe half-written data or bring a closed session back.",
 ["crash_points","schedules","histories"], "every operation sequence up to the depth bound; a crash after every file system call and at torn-write points followed by recovery; all interleavings (within the preemption bound) of 2-3 concurrent operations on one key",
 "Tests never interrupt or overlap storage operations.",
 ["defaultSessionManager.go"], [("session files","defaultSessionManager.go Save/Parse/OnSessionLookup/OnSessionClosed")],
 state=[("session file","one JSON file per session","defaultSessionManager.go sessionFile")],
 observe=["SessionManager API on a recorded in-memory file system"])
prop("C18", "Session keys cannot escape or alias stored sessions",
 "With the default session storage, a session key supplied by a client restores a session only if it is exactly the key of a stored session; no key, whatever characters it contains, makes the server read or write anything outside its session directory or reach a session under another name.",
 ["inputs"], "every key over an alphabet of path-significant fragments (separators, dots, existing keys, extensions, NUL) up to the bound, through the storage API and through restore requests",
 "Tests use well-formed keys only.",
 ["defaultSessionManager.go","handleSessionRestore.go"], [("key to file name mapping","defaultSessionManager.go filePath")],
 observe=["file system calls made","lookup results"])
prop("C19", "Session information is isolated by deep copies",
 "Everything the library hands out about a session (the session object, its information object and single fields) is a deep copy equal to the original at that time: modifying it never changes the connection's session or any other copy, for every nesting of the supported value kinds, and a nil or empty information object is handled like an empty one.",
 ["inputs","histories"], "every information value built from the supported kinds (scalars, nil, slices, maps, nested) up to the depth bound x every accessor x mutation of every reachable mutable part",
 "Tests copy one fixed structure.",
 ["genericSessionInfo.go","session.go","connection.go","sessionInfoToVarMap.go"], [("deep copy","genericSessionInfo.go copyRecursive, session.go Clone")],
 observe=["Connection.Session/SessionInfo","GenericSessionInfo accessors"])
prop("C20", "Disabled sessions are consistently refused",
 "On a server with sessions disabled, creating or closing a session on a connection returns the sessions-disabled error, session restoration and closure requests get the sessions-disabled reply, no session hook is ever invoked and no session ever becomes visible, while ordinary requests and signals keep working.",
 ["histories"], "every sequence of session operations, requests and signals up to the depth bound on 1-2 connections",
 "The tests check each refusal once, in isolation.",
 ["connection.go","handleSessionRestore.go","handleSessionClosure.go","newServer.go","serverOptions.go"], [("sessions enabled flag","newServer.go")],
 observe=["Connection API errors","client replies","SessionManager hooks"])
prop("C21", "Failing session hooks are contained",
 "A session hook that returns an error or, for session destruction, panics never crashes the server, never leaks its error text to clients and leaves the server consistent: a failed lookup is answered with an internal error and assigns no session, a failed creation hook leaves the session active, and a failed destruction hook still removes the session. All later operations work normally.",
 ["fault_sequences","histories"], "every session operation sequence up to the depth bound with a fault (error or panic) injected at every session hook invocation",
 "Only the default, always-succeeding hooks are exercised.",
 ["sessionRegistry.go","handleSessionRestore.go","handleSessionClosure.go","connection.go","newServer.go"], [("hook error handling","sessionRegistry.go deregister, handleSessionRestore.go, newServer.go")],
 observe=["client replies","Server session API"])
prop("C22", "In-memory transport delivers each message exactly once, in order",
 "On a connected pair of in-memory sockets, every message written by one side is received by the other exactly once, byte for byte and in writing order, in both directions concurrently; a write reports success only if the message was received, messages are never merged or split between concurrent writers, and an empty or oversized message is rejected without blocking later ones.",
 ["schedules","inputs"], "all interleavings (within the preemption bound) of 1-2 writers and 1-2 readers per direction exchanging 1-3 messages, in several write portions, with rejected messages mixed in",
 "Unit tests exchange messages between two threads under one schedule.",
 ["transport/memchan/socket.go","transport/memchan/buffer.go","transport/memchan/newSocket.go"], [("writer lock and reader handshake","transport/memchan/socket.go")],
 state=[("outbound buffer","message being composed","transport/memchan/buffer.go")], observe=["Socket.GetWriter/Read"])
prop("C23", "In-memory socket close and deadlines never hang or crash",
 "Closing either side of an in-memory connection at any moment, from any number of threads, wakes every blocked reader and writer on both sides with an error, never panics and never leaves a call blocked; afterwards both sides are disconnected and reads and writes fail. A read whose deadline passes fails with a non-closure error and closes the connection, and a read is never failed by its deadline before that time.",
 ["schedules"], "all interleavings (within the preemption bound) of 1-2 closers with a concurrent reader, writer, deadline expiry and transport shutdown",
 "Needs Close to land inside another call's critical steps; tests close idle sockets.",
 ["transport/memchan/socket.go","transport/memchan/sockReadErr.go"], [("close handshake","transport/memchan/socket.go Close")],
 observe=["Socket.Read/GetWriter/Close/IsConnected"])
prop("C24", "In-memory dialing: accepted once or refused without residue",
 "A dial either succeeds, and then the server serves exactly one connection for it with the options chosen for it, or fails, and then the client socket is disconnected and the server has seen nothing. Dials are refused by configuration, on unreachable servers, for already connected sockets, and once shutdown has begun; after a transport shutdown has returned, no connection remains open.",
 ["schedules","configurations"], "all interleavings (within the preemption bound) of 1-2 dials with each other, with a redial after close and with a shutdown",
 "Tests dial sequentially; a dial overlapping a shutdown is not reached.",
 ["transport/memchan/transport.go","transport/memchan/socket.go","transport/memchan/clientTransport.go"], [("connection registry and status","transport/memchan/transport.go onConnect/Shutdown")],
 observe=["ClientSocket.Dial","Socket.IsConnected","OnNewConnection invocations"])
prop("C25", "Pending requests are settled exactly once",
 "In the client-side request manager every created request has a unique identifier and is settled at most once: of several concurrent fulfil, fail and cancellation attempts at most one reports success or takes effect, the waiter gets that one's result (a wait ended by its context fails with a cancellation or timeout error accordingly), no call ever blocks, and a request is pending exactly from its creation until it is settled or its waiter gave up.",
 ["schedules"], "all interleavings (within the preemption bound) of 2-3 concurrent settle attempts, a waiter with a cancellable context, and concurrent creations",
 "Tests settle each request once, from one thread.",
 ["requestManager/requestManager.go","requestManager/request.go"], [("pending table","requestManager/requestManager.go")],
 state=[("pending table","identifier to request","requestManager/requestManager.go pending")], observe=["RequestManager API results"])
prop("C26", "Idle connections time out, active ones do not",
 "A connection on which nothing is received for the configured read timeout is closed and reported as disconnected; every received message of any kind, including heartbeats, restarts that period, and heartbeats have no other effect: they invoke no handler, get no reply and are handled even while the server shuts down or all handler slots are busy.",
 ["schedules","histories"], "every sequence of heartbeats, signals, requests and idle periods up to the depth bound in virtual time, over the in-memory transport",
 "Tests would need real waiting; the read timeout and heartbeats are not tested at all.",
 ["handleConnection.go","handleMessage.go","transport/memchan/socket.go","serverOptions.go"], [("read deadline per message","handleConnection.go")],
 observe=["disconnect hook","client socket state"])
prop("C27", "Public API is thread-safe",
 "Concurrent use of the server, its connections and the client-side sockets from several threads never causes a data race, a crash or a deadlock, whatever the combination of operations; nor does using the server and its connections from inside the hooks and handlers (except waiting there for the server to shut down).",
 ["schedules"], "every pair (and selected triples) of public operations on shared objects, every operation inside every hook and handler, all interleavings within the preemption bound, with a happens-before race detector on every field, global, captured variable and map access",
 "The race detector only sees schedules that happen to occur; tests run operations sequentially.",
 ["connection.go","server.go","sessionRegistry.go","handleSessionRestore.go","handleSessionClosure.go","transport/memchan/socket.go","transport/memchan/transport.go","requestManager/requestManager.go"],
 [("locks","connection.go, server.go, sessionRegistry.go, transport/memchan")], observe=["happens-before order of memory accesses","thread states"])
prop("C28", "Server options are validated, defaulted and announced faithfully",
 "Creating a server either fails with an error or yields a server whose effective options are the given ones with documented defaults for unset values (sessions enabled, 60 s read timeout when below one second, 8 KiB buffers); buffers below 32 bytes and read timeouts beyond the announcable range are rejected. The announced configuration equals the effective one, to the millisecond, and missing dependencies are errors, not crashes.",
 ["configurations"], "all combinations of boundary values of every option",
 "Tests create servers with a handful of option sets.",
 ["serverOptions.go","newServer.go","message/newAcceptConfMessage.go"], [("option preparation","serverOptions.go Prepare")],
 observe=["NewServer result","configuration message received by a client"])
prop("C29", "Connections and servers report what the transport provided",
 "A connection reports the remote address and the information its transport provided (nothing for unknown keys) and its creation time, which lies between its acceptance and its connected hook; these never change, are the same in every hook and handler and after the end of the connection, and are never those of another connection. Hooks, handlers and session queries identify a connection by the same object; the connected hook gets the options it was accepted with and the disconnected hook the error that ended it. The server's address is its transport's, Run blocks until the transport stops serving and returns its result, and Shutdown returns the transport's failure.",
 ["schedules","configurations"], "every pair of information maps, addresses and ways to end for two connections opened, used and ended concurrently, successions of up to four connections, every combination of results of a transport, all schedules within the preemption bound",
 "Tests read these values once, on one connection, of one transport that never fails.",
 ["connection.go","handleConnection.go","server.go","transport/memchan/transport.go","transport/memchan/remoteAddress.go","transport/memchan/socket.go"],
 [("connection information","connection.go newConnection, Info, RemoteAddr, Creation"),("delegation to the transport","server.go Run, Address, Shutdown")],
 observe=["Connection.RemoteAddr/Info/Creation","hook parameters","Server.Run/Shutdown/Address results"])
prop("C30", "Failures of handlers and hooks are logged",
 "Every error a request handler returns that isn't a request error, every error a session hook returns (creation, lookup, destruction) and every panic of the session destruction hook is written, with its text, to the configured error log, whatever kind of error it is, which operation invoked the hook, and what else happens at the same time. So are replies that can't be delivered, failing handshakes and connections that break.",
 ["schedules","inputs"], "every failing hook or handler x kind of error or panic value x operation, and every pair of failures at the same time next to a hangup, close or shutdown, all schedules within the preemption bound",
 "Tests discard or never inspect the logs.",
 ["handleRequest.go","connection.go","handleSessionRestore.go","newServer.go","sessionRegistry.go"],
 [("error log","server.errorLog")], observe=["entries of ServerOptions.ErrorLog"])
prop("C31", "A slow hook, handler or client delays only its own connection",
 "While a hook or handler that serves one connection (connected, disconnected, request, signal, session key generation, creation, lookup, destruction, information parsing) is still running, or the client of a connection doesn't read what the server sends it (handshake, signals, replies, session notifications), or its socket is being closed, every operation on other connections comes to its end: new connections are accepted and greeted, requests answered, signals handled and sent, other sessions created, restored and closed, connections closed and their ends announced, and the server can be queried. When the slow part proceeds, the delayed operation completes normally.",
 ["schedules"], "27 places to be slow x 13 operations (and pairs of operations) of others x initial sessions, on a model transport; 6 x 7 on the in-memory transport; all schedules within the delay bound",
 "Tests don't keep hooks or clients from proceeding while others work; a lock held across a hook or a write is invisible to them.",
 ["handleConnection.go","connection.go","server.go","sessionRegistry.go","handleSessionRestore.go","handleMessage.go","transport/memchan/socket.go","transport/memchan/transport.go"],
 [("locks around hooks and writes","connection.go, sessionRegistry.go, server.go, transport/memchan")], observe=["completion of operations while a thread is held in a hook, handler or socket call"])
prop("C32", "Nothing is left behind when connections, sessions and requests end",
 "After all connections have ended, whatever happened on them (sessions created, restored, closed, refused or failing, requests, signals, malformed messages, failed handshakes, hangups, timeouts), the server and the in-memory transport reference no more objects, entries and threads than after any earlier such cycle, so that a server runs forever within bounded memory; the same holds for a request manager whose requests were answered, failed, timed out or canceled.",
 ["histories","schedules"], "cycles of two connections with each of 23 operations, and every pair of them, from 3 initial states with 3 endings; handshakes failing at every step; in-memory connections x 6 endings x 4 uses, fresh and reused sockets; 6 fates of requests; repeated 2 to 3 times, all schedules within the delay bound",
 "Tests never look at what a server still references, and a leak of one entry per cycle has no visible effect within a test.",
 ["handleConnection.go","sessionRegistry.go","connection.go","handleMessage.go","requestManager/requestManager.go","requestManager/request.go","transport/memchan/transport.go","transport/memchan/socket.go"],
 [("registries","sessionRegistry registry and states, requestManager pending, memchan connections")], observe=["object graph reachable from server, transport and request manager","blocked threads"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
