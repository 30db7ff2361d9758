#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Every request is answered exactly once, with its own outcome",
  "Every request a connected client sends is answered exactly once, under its own identifier, and the reply carries exactly what the handler of that request returned: the payload with its encoding on success, code and message for a request error, and an opaque internal error that discloses nothing for any other error. A result that cannot be put on the wire (reply or error too large for the message buffer, misaligned UTF16, invalid error code) is answered with the internal error instead of silence. Signals, heartbeats and messages of unexpected types are never answered.",
  ["inputs", "schedules", "fault_sequences"],
  "all interleavings of concurrent requests, signals and heartbeats on several connections, all handler outcomes, all positions of a failing socket write",
  "The tests send one request at a time and assert one reply; no test issues overlapping requests whose handlers finish out of order, none returns a result that cannot be encoded, none counts replies.",
  ["handleMessage.go", "handleRequest.go", "fulfillMsg.go", "failMsg.go", "message/writeMsgReply.go", "message/writeMsgErrorReply.go", "message/writeMsgSpecialRequestReply.go"],
  [("reply mapping by error type", "handleRequest.go:handleRequest, failMsg.go:failMsg"), ("identifier is copied from the request into the reply", "fulfillMsg.go:fulfillMsg")],
  observe=["messages flushed to the connection's socket", "values returned by OnRequest"])

p("C02", "Handlers see exactly the message that was sent",
  "Each signal or request that is handled reaches its handler exactly once, with identifier, name, payload and encoding exactly as sent. What the handler reads from the message does not change until it returns, no matter what other messages arrive on this or any other connection.",
  ["inputs", "schedules", "histories"],
  "all message kinds and encodings, any number of overlapping handlers and connections, arbitrary reuse of message buffers",
  "Tests look at a message once, immediately, in a single handler; whether a buffer is recycled while another handler still reads it depends on the interleaving.",
  ["handleMessage.go", "handleRequest.go", "handleSignal.go", "message/pool.go", "message/syncPool.go", "message/message.go", "message/parse.go"],
  [("message objects return to the pool only after the handler", "handleRequest.go, handleSignal.go"), ("one pooled message per read", "handleConnection.go:handleConnection")],
  observe=["message seen at handler entry and again just before the handler returns"])

p("C03", "The concurrency limit of a connection is respected and never shrinks",
  "With a concurrency limit of n > 1 at most n handlers of a connection run at the same time; with the default limit (0 or 1) handlers of a connection run one after another in the order the messages were received; with a negative limit handlers never wait for each other. A message is only held back while all slots of its own connection are really occupied: refused, failed or finished messages never consume a slot for good.",
  ["schedules", "histories", "configurations"],
  "all limits, all interleavings of handler starts and ends, refusals, closings and failures over the life of a connection",
  "No test runs two handlers at once or checks that slots are still available after refusals; a leaked slot shows only after a specific history.",
  ["registerHandler.go", "deregisterHandler.go", "handleMessage.go", "connection.go", "connectionOptions.go"],
  [("weighted semaphore per connection", "registerHandler.go / deregisterHandler.go"), ("inline handling for limits 0 and 1", "handleMessage.go")],
  observe=["OnRequest/OnSignal entry and exit per connection"])

p("C04", "Graceful server shutdown loses and starts no work",
  "Shutdown returns, and the transport is shut down, only after every signal, request and session operation accepted before it has finished and its reply has been written; and it does return once they have. From the moment shutdown is in effect every incoming request is refused with the shutdown error, incoming signals are dropped, and no handler is started. Calling Shutdown repeatedly or concurrently is safe and every call obeys the same rules.",
  ["schedules", "histories"],
  "all interleavings of Shutdown with the arrival, execution and completion of signals, requests and session operations on any number of connections",
  "Two tests cover one request and one signal around one Shutdown with sleeps; premature return, counter drift, missing refusals or hangs need other interleavings.",
  ["server.go", "registerHandler.go", "deregisterHandler.go", "isShuttingDown.go", "failMsg.go"],
  [("currentOps counter and shutdown flag under opsLock", "registerHandler.go, deregisterHandler.go, server.go:Shutdown"), ("shutdown reply", "failMsg.go:failMsgShutdown")],
  state=[("server.currentOps", "accepted, unfinished messages", "server.go")],
  observe=["return of Server.Shutdown", "Transport.Shutdown call", "replies", "handler starts"])

p("C05", "Graceful connection closure finishes accepted work first",
  "After Close is called on a connection (by the server's user, from anywhere, any number of times) the messages already accepted run to completion and their replies are written before the socket is closed; then the socket is closed and the connection leaves the session registry without its session being destroyed. Requests arriving after Close has returned are refused with the shutdown error and signals are dropped, and no handler is started for them. Other connections are not affected.",
  ["schedules", "histories"],
  "all interleavings of Close with arriving, running and finishing handlers, disconnects and other Close calls",
  "Tests close idle connections only; the guarantees concern what happens between handlers that overlap the closure.",
  ["connection.go", "registerHandler.go", "deregisterHandler.go"],
  [("isActive/tasks under stateLock", "connection.go:Close, registerTask, deregisterTask"), ("unlink after the last task", "connection.go:unlink")],
  observe=["Socket.Close", "replies", "handler starts", "Connection.IsActive", "SessionConnectionsNum"])

p("C06", "Connection lifecycle: handshake, hooks and read loop in order",
  "On every accepted connection the configuration message is the first message sent, then OnClientConnected is called exactly once and returns before any handler of that connection starts. OnClientDisconnected is called exactly once per connection for which OnClientConnected was called, with the cause of the disconnect, when the connection is lost, and afterwards no further message of it is accepted. Every read is bounded by the configured read timeout counted from the previous message, heartbeats included.",
  ["schedules", "fault_sequences", "histories"],
  "all orders of handshake, messages, close, disconnect and write failures on any number of connections",
  "Tests see hooks being called in the happy order; duplicates, omissions or reorderings after failures are not looked for.",
  ["handleConnection.go", "handleMessage.go", "message/newAcceptConfMessage.go"],
  [("sequential read loop per connection", "handleConnection.go:handleConnection")],
  observe=["first message flushed to the socket", "hook calls", "deadline passed to Socket.Read"])

p("C07", "Bad input and failing sockets stay contained",
  "Input that cannot be decoded or that a client must not send (truncated or unknown messages, server-only message types, oversized input), and write or close failures of a socket, never start a handler, never crash the server and never affect another connection. Undecodable input ends the connection it arrived on, unexpected but well-formed types are ignored and the connection keeps working. After any such event all other connections and all later messages are served as if it had not happened.",
  ["inputs", "fault_sequences", "histories"],
  "all malformed and unexpected messages, and a failure at any GetWriter, write, flush or close, at any point of a history",
  "One test sends one malformed message; no test lets a socket fail.",
  ["handleConnection.go", "handleMessage.go", "failMsg.go", "fulfillMsg.go", "message/parse.go", "message/read.go"],
  [("parse errors terminate the read loop", "handleConnection.go"), ("default case drops unexpected messages", "handleMessage.go")],
  observe=["process survival", "hooks and replies on this and the other connections"])

p("C08", "The session registry mirrors the live connections",
  "Whenever no operation is in progress, ActiveSessionsNum, SessionConnectionsNum and SessionConnections describe exactly the sessions currently assigned to connections: a connection is listed for a session if and only if its own HasSession, SessionKey and Session report that session and it is neither closed nor disconnected. No sequence or interleaving of creating, restoring, closing, disconnecting and shutting down leaves a stale or missing entry. Unknown keys are reported as -1 connections and a nil list.",
  ["schedules", "histories"],
  "all histories and interleavings of session operations on several connections and keys",
  "Tests walk single-threaded through create/close once or twice and compare a count.",
  ["sessionRegistry.go", "connection.go", "handleSessionRestore.go", "handleSessionClosure.go", "server.go"],
  [("registry map under a lock", "sessionRegistry.go"), ("registration in create/restore, deregistration in closure/unlink", "connection.go, handleSession*.go")],
  observe=["Server.ActiveSessionsNum/SessionConnectionsNum/SessionConnections", "Connection session getters"])

p("C09", "Never more connections on a session than the configured maximum",
  "With a maximum of n connections per session, at no time do more than n connections share a session, however many restore it concurrently. Every surplus restoration is refused with the max-session-connections error and leaves the refused connection as it was, and the server keeps running. A slot freed by closing, disconnecting or switching sessions is available again.",
  ["schedules", "histories", "configurations"],
  "all limits, keys and interleavings of restorations, closures and disconnects",
  "The one test restores sequentially; the check and the registration race only when restorations overlap.",
  ["handleSessionRestore.go", "sessionRegistry.go"],
  [("limit enforced on registration", "sessionRegistry.go:register"), ("early refusal", "handleSessionRestore.go")],
  observe=["replies to restore requests", "SessionConnectionsNum"])

p("C10", "A session is destroyed exactly once, by its last explicit closure",
  "A session is destroyed (OnSessionClosed is called with its key) exactly once, when the last connection that has it closes it explicitly, from client or server side. It is never destroyed while another connection still has it, and never merely because connections are closed or lost. An error or panic of the OnSessionClosed hook is contained: the closing operation still completes and the server stays operational.",
  ["schedules", "histories", "fault_sequences"],
  "all histories and interleavings of closures, restorations, disconnects on several connections, and failing hooks",
  "Tests close one session once; concurrent closures, shared sessions and failing hooks are not explored.",
  ["sessionRegistry.go", "handleSessionClosure.go", "connection.go", "newServer.go"],
  [("destroy on last deregistration", "sessionRegistry.go:deregister"), ("hook panic recovery", "sessionRegistry.go:deregister")],
  observe=["OnSessionClosed calls", "replies", "process survival"])

p("C11", "Creating a session is atomic and announced to the client",
  "CreateSession on a connection without a session assigns a session with the generated key and the given info, sends one session-created notification with exactly that session to that client, and calls OnSessionCreated once, after the notification. It fails, without notification, hook call or change of state, if sessions are disabled, the connection is disconnected, the connection already has a session, or the client cannot be notified. Of several concurrent calls on one connection exactly one succeeds, and no failure, including a panicking key generator, blocks later session operations.",
  ["schedules", "inputs", "fault_sequences"],
  "all interleavings of concurrent creations with closures and disconnects, failures at every step",
  "Tests create sessions sequentially on healthy connections.",
  ["connection.go", "session.go", "sessionRegistry.go"],
  [("sessionLock around creation", "connection.go:CreateSession")],
  observe=["return value of CreateSession", "notifications on the socket", "OnSessionCreated", "session getters"])

p("C12", "Restoring a session has exactly the specified outcome",
  "A restore request is answered with the looked-up session (key, creation, last lookup, info) if and only if the session manager returned it and the connection limit allowed it, and the connection has precisely that session from then on. Otherwise the reply names the reason (sessions disabled, session not found, maximum reached, internal error for a failing lookup) and the connection keeps the session state it had. Restoring a session on a connection that has a different one switches it without destroying the old session.",
  ["inputs", "histories", "schedules"],
  "all lookup results and errors, any prior state of the connection and of the session, concurrent restorations",
  "Tests cover one success, one not-found and one limit case, each on a fresh connection.",
  ["handleSessionRestore.go", "failMsg.go", "sessionRegistry.go", "sessionLookupResult.go"],
  [("restore handler", "handleSessionRestore.go:handleSessionRestore")],
  observe=["reply", "session getters", "registry getters", "OnSessionLookup calls"])

p("C13", "Closing a session takes effect everywhere it should",
  "Closing a session removes it from the connection(s) concerned (the requesting connection for a client's close request and for Connection.CloseSession, every connection that has it for Server.CloseSession), informs the client of a server-side closure by exactly one session-closed notification, and answers a client's close request with success also when there is no session. Server.CloseSession returns exactly the affected connections, one error slot for each, and a general error if and only if one of them failed. Connections of other sessions are untouched and closing without a session is a no-op.",
  ["histories", "schedules", "fault_sequences"],
  "all sets of connections per session, all interleavings of closures, and failing notifications",
  "Tests close one session with two connections once; the results of partially failing or overlapping closures are not examined.",
  ["server.go", "connection.go", "handleSessionClosure.go"],
  [("closure of each connection of the session", "server.go:CloseSession"), ("notification", "connection.go:CloseSession")],
  observe=["return values", "notifications and replies", "session getters"])

p("C14", "The file session manager stores, finds and deletes exactly what it should",
  "With the default session manager a session that was created can be looked up, by this or a restarted server, with the same creation time and info until it is closed, and never after; unknown keys are reported as not found, and each lookup advances the stored last-lookup time. Operations on one key issued concurrently never yield a torn or invalid session, lose the session or bring a closed session back, and operations on different keys do not affect each other. A failing write (disk full, crash in the middle) never destroys the previously stored session.",
  ["histories", "schedules", "crash_points", "inputs"],
  "all histories of create/lookup/close over several keys, restarts, concurrent operations, failures during the write",
  "No test uses concurrent lookups, restarts or write failures; the default manager is only exercised incidentally.",
  ["defaultSessionManager.go", "session.go", "sessionLookupResult.go"],
  [("one file per session", "defaultSessionManager.go")],
  observe=["OnSessionLookup results", "files in the session directory"])

p("C15", "Session keys cannot reach outside the session directory",
  "Whatever key a client sends in a restore request, and whatever key a session is closed with, the default session manager reads, writes and deletes only session files directly inside its configured directory. Two different keys never denote the same stored session. A key that is not a plain file name is treated as not found.",
  ["inputs"],
  "all byte strings as session keys, in particular with separators, dot segments, NULs and empty keys",
  "The tests only use generated keys; hostile keys are not tried.",
  ["defaultSessionManager.go", "handleSessionRestore.go"],
  [("file path built from the key", "defaultSessionManager.go:filePath")],
  observe=["files touched", "lookup results"])

p("C16", "Message codec round trip",
  "Every message the library can write is read back by the library with the same type, identifier, name, payload encoding, payload, error code, error message and server configuration, independent of how the bytes are chunked on the way. The written bytes follow the protocol layout exactly and their length equals the announced length. Length predictions used to guard buffers equal the real length.",
  ["inputs"],
  "all message types, all name and payload lengths and contents in all encodings up to the buffer size",
  "Tests round-trip a handful of random examples per type with generous buffers; boundary lengths, padding combinations and chunking are sampled thinly.",
  ["message/message.go", "message/parse.go", "message/calcMsgLen.go", "message/writeMsgRequest.go", "message/writeMsgSignal.go", "message/writeMsgReply.go", "message/writeMsgErrorReply.go"],
  [("writers", "message/writeMsg*.go"), ("parsers", "message/parse*.go")],
  observe=["bytes written", "fields of the parsed message"])

p("C17", "The decoder is total, exact and independent of history",
  "For every byte sequence the decoder either yields exactly the message those bytes denote or reports an error or unknown type; it never panics, never reads beyond the input, and never accepts input that exceeds the message buffer. A message of minimum length for its type is accepted and anything shorter is rejected. The result depends only on the bytes: decoding into a reused message gives the same result as into a fresh one.",
  ["inputs", "histories"],
  "all byte strings up to and beyond the buffer size, all sequences of decodes into one reused message object",
  "Tests check a few invalid examples per type on fresh messages.",
  ["message/parse.go", "message/read.go", "message/buffer.go", "message/parseRequestUtf16.go", "message/parseSignalUtf16.go", "message/parseReplyUtf16.go"],
  [("length checks in each parser", "message/parse*.go"), ("bounded buffer", "message/buffer.go")],
  observe=["Message.Read/ReadBytes results and fields"])

p("C18", "Encoders refuse what the protocol cannot carry and always free the writer",
  "A message that the protocol cannot represent (name over 255 bytes or with characters outside printable ASCII, empty, over-long or non-printable error code, misaligned UTF16 payload, request or signal without name and payload) is refused with an error before any byte of it is written. Whether encoding succeeds, is refused or a write fails midway, the socket writer obtained for it is closed exactly once, so that the connection can always send the next message. A success is reported if and only if the complete message was handed over.",
  ["inputs", "fault_sequences"],
  "all combinations of invalid arguments and a failure at every single write or at the final flush",
  "Tests check error returns for some invalid arguments, without failing writers and without counting closes.",
  ["message/writeMsgRequest.go", "message/writeMsgSignal.go", "message/writeMsgReply.go", "message/writeMsgErrorReply.go", "connection.go"],
  [("validation and writer.Close on each error path", "message/writeMsg*.go")],
  observe=["error result", "writer calls"])

p("C19", "UTF16 payloads convert to UTF8 correctly",
  "The UTF8 view of a payload is the payload itself for UTF8 and binary encodings, and for UTF16 (little endian) the UTF8 encoding of the same text for every text, including characters outside the basic plane. Unpaired surrogates become the replacement character, odd lengths are reported as an error, and the original payload is never modified.",
  ["inputs"],
  "all byte sequences of both parities",
  "One test converts a short ASCII text.",
  ["payload/payload.go", "payload.go", "message/message.go"],
  [("Payload.Utf8", "payload/payload.go")],
  observe=["Payload.Utf8 / Message.PayloadUtf8 results"])

p("C20", "Session copies are isolated from the original",
  "Sessions, session infos and info field values that the library hands out share no mutable state with the original: for info built from maps, slices and scalars, changing anything reachable from a copy or from the original, however deeply nested, is never visible through the other. A copy is equal to its source at the time of copying, and copying or reading a missing session or field yields nil.",
  ["inputs", "histories"],
  "all nested combinations of maps, slices and scalars, mutations at every depth of source and copy",
  "Tests mutate a few top-level fields.",
  ["genericSessionInfo.go", "session.go", "connection.go", "sessionInfoToVarMap.go"],
  [("deep copy", "genericSessionInfo.go"), ("Session.Clone", "session.go")],
  observe=["values read back after mutation"])

p("C21", "A client request is completed at most once, and never mixed up",
  "The request manager gives every pending request an identifier no other pending request has. Each request is completed at most once (by its reply, its failure, a timeout or cancellation), exactly one of several concurrent completions reports success, the waiter gets exactly the value of that completion, and completing an unknown or finished request is reported as such without blocking. A request that ended in any way is no longer pending.",
  ["schedules", "histories"],
  "all interleavings of creating, awaiting, fulfilling, failing, timing out and cancelling several requests",
  "Tests complete requests one at a time; double completion requires two racing completions.",
  ["requestManager/requestManager.go", "requestManager/request.go", "requestManager/reply.go"],
  [("pending map under a lock", "requestManager/requestManager.go"), ("select in AwaitReply", "requestManager/request.go")],
  observe=["results of Fulfill/Fail/AwaitReply/IsPending/PendingRequests"])

p("C22", "The in-memory transport delivers in order, exactly once",
  "On a connection of the in-memory transport every message whose writer was closed successfully is received by the peer exactly once, unmodified and in the order the writers were closed, in both directions independently. Concurrent writers of one socket are serialised and never interleave their bytes; an abandoned, empty or overflowing write delivers nothing and reports an error, and the socket stays usable. A read deadline that passes yields a timeout error and no message is lost or delivered later in its place.",
  ["schedules", "histories", "inputs"],
  "all interleavings of several writers and a reader on both ends, all message sizes around the buffer size, deadlines",
  "Tests pass single messages one after another.",
  ["transport/memchan/socket.go", "transport/memchan/buffer.go", "transport/memchan/entangleSockets.go"],
  [("writer lock and unbuffered channel hand-over", "transport/memchan/socket.go"), ("outbound buffer", "transport/memchan/buffer.go")],
  observe=["messages read by the peer", "errors of Write/Close/Read"])

p("C23", "Closing the in-memory transport frees everybody, and refusal is visible",
  "Closing either end of an in-memory connection, at any time and any number of times, makes both ends report disconnected, wakes every blocked reader and writer of both ends with an error, and never panics or blocks. Dialing a transport that is shutting down, shut down or refusing the connection (OnBeforeCreation) fails with an error and leaves the client socket disconnected and able to dial again. Shutting the transport down disconnects every connection it had accepted and lets Serve return.",
  ["schedules", "histories"],
  "all interleavings of Close, Read, GetWriter, writes, Dial and Shutdown on both ends",
  "Tests close idle connections; blocked peers, racing closes and dials are not explored.",
  ["transport/memchan/socket.go", "transport/memchan/transport.go", "transport/memchan/newSocket.go", "transport/memchan/clientTransport.go"],
  [("atomic status and closing of channels", "transport/memchan/socket.go:Close"), ("connection table", "transport/memchan/transport.go")],
  observe=["return of blocked calls", "IsConnected", "Dial results", "process survival"])

p("C24", "A lost or closed connection leaves nothing behind",
  "Once a connection is closed or lost and its handlers have finished, the server holds no resources for it: the goroutine serving it has ended, its socket is closed, it is in no session and no list, and its memory can be reclaimed. This holds for every way a connection can end, so that a server can serve an unlimited number of successive connections.",
  ["histories", "schedules", "fault_sequences"],
  "all ways a connection can end (client disconnect, server-side close, malformed input, failing handshake) in any order relative to running handlers",
  "Tests run for milliseconds with a few connections and never look at what remains.",
  ["handleConnection.go", "connection.go", "server.go"],
  [("unlink after the last task", "connection.go:unlink"), ("list of connections", "handleConnection.go, server.go")],
  observe=["goroutines after quiescence", "Socket.Close", "reachability of the connection object"])

p("C25", "Server options are validated, defaulted and announced faithfully",
  "A server can be created exactly with valid options: a missing implementation or transport, a message buffer below the minimum, or a read timeout the handshake cannot express is rejected with an error, and unset options take their documented defaults. The configuration message announced to every client states exactly the effective protocol version, read timeout, message buffer size and sub-protocol name, and the client-side parser reads them back. The announced limits are the ones the server then enforces.",
  ["configurations", "inputs"],
  "all combinations of option values at and around their boundaries",
  "Tests use two or three fixed option sets.",
  ["serverOptions.go", "newServer.go", "message/newAcceptConfMessage.go", "message/parseAcceptConf.go"],
  [("Prepare", "serverOptions.go"), ("configuration message", "message/newAcceptConfMessage.go")],
  observe=["NewServer error", "first message on a connection", "behaviour at the limits"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
