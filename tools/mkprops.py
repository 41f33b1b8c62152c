#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","JSON framing is independent of how the byte stream is fragmented",
  "Whatever bytes a peer sends and however the transport cuts them into reads, the JSON protocol delivers exactly the records delimited by 0x1e, in order, unmodified and each exactly once. A record is delivered as soon as its delimiter has been received, without waiting for further bytes, and the bytes of an unfinished record are kept for the next read.",
  ["inputs","schedules"],"all byte contents and all fragmentations of a stream of JSON records",
  "Tests parse one or two hand-written frames with one or two split points; losing or merging a frame needs a particular content and split.",
  ["jsonhubprotocol.go","hubconnection.go"],[("readJSONFrames/parseJSONFrames","jsonhubprotocol.go"),("ParseMessages with remainBuf","jsonhubprotocol.go")],["hubProtocol.ParseMessages"])
p("C02","MessagePack framing is independent of how the byte stream is fragmented",
  "Whatever messages a peer sends in the length-prefixed binary framing and however the transport cuts the bytes into reads, the MessagePack protocol delivers exactly those messages, in order, unmodified and each exactly once. Every message whose last byte has been received is delivered without waiting for further bytes.",
  ["inputs","schedules"],"all message contents and all fragmentations of a stream of MessagePack frames",
  "Tests hand over whole buffers or two halves; the length-prefix look-ahead only goes wrong for particular frame lengths and split points.",
  ["messagepackhubprotocol.go","hubconnection.go"],[("readFrames","messagepackhubprotocol.go")],["hubProtocol.ParseMessages"])
p("C03","The maximum receive message size is enforced exactly",
  "With either protocol, a message larger than the configured maximum receive size is refused with an error and is never delivered, and an endless unfinished message never makes the receiver buffer much more than that maximum. A message within the limit (a JSON record counted with its delimiter, a MessagePack message without its length prefix) is never refused, no matter which other messages arrive together with it in a read or a WebSocket message.",
  ["inputs","configurations"],"all configured limits, message sizes and groupings of messages into reads",
  "The tests check one oversized frame per protocol; refusing legal messages needs a size at the boundary or several messages in one read.",
  ["jsonhubprotocol.go","messagepackhubprotocol.go","hubconnection.go","options.go"],[("maxSize check in readJSONFrames","jsonhubprotocol.go"),("frameLen check in readFrames","messagepackhubprotocol.go")],["hubProtocol.ParseMessages"])
p("C04","JSON encoding and decoding of hub messages are inverse",
  "Every hub message (invocation, stream invocation, stream item, completion with result, with error or without, cancel, ping, close) that the JSON protocol writes is read back as the same kind of message with the same id, target, arguments, stream ids, result, error and flags, whatever characters its strings contain. What is written is always one record: it contains the delimiter only as its last byte.",
  ["inputs"],"all message kinds and all string and number contents within the bound",
  "Round-trip tests use a handful of fixed strings; escaping, empty versus absent fields and delimiter bytes in content are not covered.",
  ["jsonhubprotocol.go","hubprotocol.go"],[("WriteMessage","jsonhubprotocol.go"),("parseMessage","jsonhubprotocol.go")],["hubProtocol.WriteMessage","hubProtocol.ParseMessages"])
p("C05","MessagePack encoding and decoding of hub messages are inverse",
  "Every hub message (invocation, stream invocation, stream item, completion with result, with error or without, cancel, ping, close) that the MessagePack protocol writes is read back as the same kind of message with the same id, target, arguments, stream ids, result, error and flags. What is written is always one frame: a length prefix and a MessagePack array of exactly that length. An absent invocation id stays absent.",
  ["inputs"],"all message kinds, all string and number contents and the length-encoding boundaries within the bound",
  "Round-trip tests use a handful of fixed values; length and integer encodings change form at boundaries the tests do not reach.",
  ["messagepackhubprotocol.go","hubprotocol.go"],[("WriteMessage","messagepackhubprotocol.go"),("parseMessage","messagepackhubprotocol.go")],["hubProtocol.WriteMessage","hubProtocol.ParseMessages"])
p("C06","No bytes from a peer can crash the message parsers",
  "For every byte sequence received, in either protocol, parsing ends with messages or with an error: it never panics and never loops without consuming input. A frame that is not a valid hub message (truncated, wrong types, wrong field count) is reported as an error and never delivered as a message with invented content.",
  ["inputs"],"all byte sequences within the bound",
  "Tests feed two or three malformed frames; a crash needs one specific malformed length, type or nesting.",
  ["jsonhubprotocol.go","messagepackhubprotocol.go"],[("parseMessage","jsonhubprotocol.go"),("parseMessage","messagepackhubprotocol.go")],["hubProtocol.ParseMessages"])
p("C07","No sequence of messages from a peer can crash the process",
  "Whatever well-formed hub messages a peer sends after the handshake - any target, any number of arguments and stream ids, any ids in stream items, completions and cancellations, repeated or out of order - the receiving party answers, ignores them or closes that connection. It never panics outside a hub method and never takes down the process or other connections.",
  ["inputs","histories"],"all sequences of well-formed messages within the bound against hubs with plain and streaming methods",
  "Tests send well-behaved sequences plus single bad messages; a crash needs a mismatch between ids, argument counts and method signatures.",
  ["loop.go","streamclient.go","invokeclient.go","streamer.go"],[("handleInvocationMessage/buildMethodArguments","loop.go"),("receiveStreamItem/receiveCompletionItem","streamclient.go")],["server.Serve over a Connection"])
p("C08","Every invocation is answered exactly once if it has an id, else never",
  "For every invocation message that carries an invocation id, the callee sends exactly one completion with that id: with the result when the method returns one the protocol can encode, with an error when the target is unknown, the arguments do not fit or the method panics. For an invocation without id nothing is sent back, whatever its outcome.",
  ["inputs","schedules"],"all targets, argument lists, method outcomes and invocation kinds, with and without id",
  "Tests check that the first answer is right; a second or an unwanted answer is only visible if the wire is watched to the end on every outcome.",
  ["loop.go"],[("handleInvocationMessage","loop.go"),("returnInvocationResult","loop.go"),("recoverInvocationPanic","loop.go")],["messages written to the Connection"])
p("C09","Panic details stay private unless detailed errors are enabled",
  "When a hub method panics, the completion sent to the caller contains an error and no result. Stack traces are part of that error only when detailed errors were enabled for the party.",
  ["inputs","configurations"],"all panic values and both settings of the option",
  "One test looks for an error on panic; none quantifies over panic values and the setting.",
  ["loop.go","options.go","party.go"],[("recoverInvocationPanic","loop.go")],["completion written to the Connection"])
p("C10","Invocations reach exactly the named method with exactly the sent arguments",
  "An invocation calls the hub or receiver method whose name equals the target ignoring case, or the method registered under that alternate name, once, with the sent arguments in order. If no method has that name or the number of arguments differs from its parameters, no method is called.",
  ["inputs"],"all target strings and argument lists within the bound",
  "Tests invoke a few fixed names in one spelling.",
  ["loop.go","party.go"],[("getMethod","loop.go"),("buildMethodArguments","loop.go"),("getMethodNameByAlternateName","party.go")],["hub method calls"])
p("C11","A call on the client yields exactly its own answer",
  "For every interleaving, the result channel of Invoke first yields the value or the error carried by the completion with that call's id and is then closed; it never yields an empty result instead of the answer, another call's answer, or the answer twice. The error channel of Send yields the completion's error if there is one and is then closed.",
  ["schedules","inputs"],"all interleavings of caller, receive loop and delivery, all completion contents",
  "A test run sees one interleaving; the delivery race shows in a fraction of runs.",
  ["client.go","invokeclient.go","Invokeresult.go","loop.go"],[("receiveCompletionItem","invokeclient.go"),("newInvokeResultChan","Invokeresult.go"),("Invoke/Send","client.go")],["channel returned by Client.Invoke/Send"])
p("C12","When the connection ends, every pending call ends with an error",
  "If the connection ends while calls (Invoke, Send, PullStream) are pending or being started, every one of these calls yields an error or its answer and its channel is closed. No caller waits forever, whatever the moment the connection ends.",
  ["schedules","crash_points"],"all moments of connection loss relative to the steps of a call",
  "Tests cut the connection at a few write counts; the window between registering a call and tearing down is a matter of interleaving.",
  ["client.go","invokeclient.go","loop.go","streamclient.go","hubconnection.go"],[("cancelAllInvokes, Abort at the end of Run","loop.go"),("writeMessage ctx check","hubconnection.go")],["channels returned by the Client"])
p("C13","Invocation and stream ids are unique per connection",
  "No two invocations or streams started on one connection ever get the same id, however many goroutines start them at the same time.",
  ["schedules"],"all interleavings of concurrent id requests",
  "Ids collide only if two requests interleave inside the generator.",
  ["loop.go"],[("GetNewID","loop.go")],["invocationId of written messages"])
p("C14","Streamed items arrive in order, complete, and then the stream is completed",
  "When a stream invocation's method returns a channel, every value it sends is written to the peer as a stream item with that invocation id, in order, exactly once, followed by exactly one completion when the channel is closed. A method that returns a plain value for a stream invocation yields one item and one completion.",
  ["inputs","schedules"],"all item values and numbers of items within the bound, several streams interleaved",
  "Tests read one short stream at a time.",
  ["streamer.go","loop.go"],[("streamer.Start","streamer.go"),("returnInvocationResult","loop.go")],["messages written to the Connection"])
p("C15","Cancelling a stream stops that stream, every time",
  "After a cancellation for a running stream has been processed, no further item of that stream is sent once its source next produces one, and the stream ends with exactly one completion; other streams are not affected. This holds for every cancellation of a connection's life, not only for a limited number of them, and cancelling unknown or finished streams has no effect on other streams. A stream runs from the time its method has returned the channel; a cancellation which arrives before counts from then on, as long as no more streams than the maximum of concurrent streams have such a cancellation pending.",
  ["histories","schedules"],"all histories of starts, items, cancellations and ends within the bound, all configured stream limits",
  "One test cancels one stream once; a leak in the bookkeeping shows only after as many cancellations as the configured limit.",
  ["streamer.go","loop.go"],[("cancels/cancelCount","streamer.go"),("Stop","streamer.go")],["messages written to the Connection"])
p("C16","Uploaded stream items reach the hub method in order and the channel is closed",
  "Items a peer streams for a channel parameter are received by the method from that channel in order and exactly once, and the channel is closed after the peer completed the stream or the connection has ended. Items for one stream never reach another one, and a stream item with an unknown id is an error. A client that uploads announces its streams before it sends their items, sends the items of each in order and exactly once and completes each stream once when its channel is closed.",
  ["inputs","histories","schedules"],"all interleavings of the items of several upload streams within the bound",
  "Tests upload one or two streams in one order.",
  ["streamclient.go","loop.go"],[("buildChannelArgument","streamclient.go"),("receiveStreamItem/receiveCompletionItem","streamclient.go")],["channels passed to hub methods"])
p("C17","The number of concurrent upload streams never exceeds the configured maximum",
  "At no time does a connection have more open upload streams than the configured maximum; an invocation that would exceed it is answered with an error and opens none. Streams that were completed, and streams of invocations that were refused, do not count, so up to the maximum can always be opened again; 0 means no limit.",
  ["histories","configurations"],"all limits and all histories of opening, refused and completed streams within the bound",
  "One test opens streams up to one limit; bookkeeping of refused or repeated streams needs histories.",
  ["streamclient.go","loop.go","options.go"],[("buildChannelArgument","streamclient.go"),("upstreamChannels","streamclient.go")],["completions written to the Connection"])
p("C18","Messages to all, one client or a group reach exactly the addressed connections",
  "Sending to all reaches every connected connection once, sending to a client reaches only the connection with that id, sending to a group reaches exactly the connections that were added to it and not removed or disconnected since, each once, with the given target and arguments and without expecting a completion. Unknown clients and groups are ignored.",
  ["histories","inputs"],"all histories of connect, disconnect, add, remove and send within the bound, all ids and group names",
  "Tests use a few fixed memberships.",
  ["hublifetimemanager.go","hubclients.go","clientproxy.go","groupmanager.go"],[("defaultHubLifetimeManager","hublifetimemanager.go"),("ClientProxy.Send","clientproxy.go")],["SendInvocation on the hub connections"])
p("C19","A disconnected connection is a member of no group",
  "Once a connection's disconnect and all calls that were adding it to groups have finished, it is a member of no group and receives nothing sent to any group or to all, whatever the order in which these calls interleave.",
  ["schedules"],"all interleavings of disconnect with additions to and removals from groups",
  "The window between looking up the client and adding it to the group is an interleaving no test controls.",
  ["hublifetimemanager.go"],[("AddToGroup","hublifetimemanager.go"),("OnDisconnected","hublifetimemanager.go")],["SendInvocation on the hub connection"])
p("C20","A per-connection hub factory yields one hub instance per connection",
  "With a per-connection hub factory, OnConnected, all method invocations and OnDisconnected of one connection are served by the same hub instance and connections never share one, for every interleaving of connection start, invocations and disconnect. The factory is called once per connection that completes the handshake and never for others; after the disconnect the server keeps no hub for that connection.",
  ["schedules","histories"],"all interleavings of OnConnected, invocations and disconnect",
  "Tests invoke sequentially after the connection is up; the instance is chosen by check-then-act in several goroutines.",
  ["server.go","serveroptions.go"],[("invocationTarget","server.go"),("onConnected/onDisconnected","server.go")],["hub instances seen by the callbacks"])
p("C21","Connect and disconnect callbacks run exactly once per connection",
  "For every connection that completes the handshake, the hub's OnConnected and OnDisconnected are each called exactly once with that connection's id, and the connection can be reached by broadcasts from before its first message is processed until it ends. For a connection that fails the handshake neither is called.",
  ["schedules","fault_sequences"],"all ways a connection can end within the bound",
  "Tests see one orderly connection.",
  ["server.go","loop.go"],[("onConnected/onDisconnected","server.go"),("Run","loop.go")],["hub callbacks"])
p("C22","Every message is handed to the transport in one piece",
  "Each hub message is passed to the transport by exactly one write containing exactly that message's complete frame, so messages sent concurrently by any number of goroutines never interleave on the wire. A failed write is reported to the sender and ends the connection.",
  ["schedules","inputs","fault_sequences"],"all message kinds, all interleavings of concurrent senders, write failures at any message",
  "Interleaved writes need concurrent senders; tests use one.",
  ["hubconnection.go","jsonhubprotocol.go","messagepackhubprotocol.go"],[("writeMessage","hubconnection.go"),("WriteMessage","jsonhubprotocol.go"),("WriteMessage","messagepackhubprotocol.go")],["Connection.Write calls"])
p("C23","An idle party sends keep-alive pings in time",
  "While a connection is up, the time between two consecutive messages sent by a party never exceeds its keep-alive interval by more than one interval, whatever it receives and whenever it sends, provided its transport takes the writes and its methods take their upload items in time. No ping is sent when something was sent within the last interval.",
  ["configurations","schedules","histories"],"all keep-alive intervals and all times of other writes and received messages within the bound",
  "Tests use one fixed interval in real time and look at one ping.",
  ["loop.go","hubconnection.go"],[("keepAliveTicker branch","loop.go"),("LastWriteStamp","hubconnection.go")],["times of Connection.Write calls"])
p("C24","A silent peer is disconnected by the timeout and a live one is not",
  "If nothing is received for the configured timeout interval the connection is ended with an error, and it is never ended for timeout as long as messages, pings included, keep arriving within that interval. This holds for every combination of timeout, keep-alive interval and arrival times.",
  ["configurations","schedules","histories"],"all timeouts, keep-alive intervals and arrival times within the bound",
  "Tests wait for one timeout in real time.",
  ["loop.go"],[("timeoutTicker","loop.go")],["return of Serve and its time"])
p("C25","Only a valid handshake opens a connection, and nothing sent after it is lost",
  "A server starts a connection only after a complete handshake request naming a supported protocol and answers it with an empty response; any other request is answered with an error or refused, and a peer that sends none within the handshake timeout is refused. Messages that arrive in the same read as the handshake are not lost, on the server or on the client.",
  ["inputs","schedules"],"all handshake contents and fragmentations within the bound, including bytes following it in the same read",
  "Tests send the handshake alone or in two halves; bytes that directly follow it are never sent.",
  ["server.go","client.go","jsonhubprotocol.go"],[("processHandshake","server.go"),("processHandshake","client.go")],["Serve, messages written to the Connection"])
p("C26","Negotiation hands out fresh ids and never exceeds its pending limit",
  "Every accepted negotiate request gets a connection id (and, for version 1, a separate token) that was never handed out before and that can be used to connect. The number of negotiated but not yet started connections never exceeds the configured maximum; further requests are refused with 429 until one is started or expires after the handshake timeout.",
  ["histories","schedules","configurations"],"all histories of negotiate, connect and expiry within the bound, all limits and versions",
  "Tests negotiate once or up to one limit.",
  ["httpmux.go"],[("negotiate","httpmux.go"),("reaperLoop","httpmux.go")],["HTTP responses"])
p("C27","A negotiated id admits at most one connection",
  "A negotiated id or token starts at most one connection, however many requests use it at the same time or later; further ones are refused. Requests with an unknown or missing id never start a connection and get 404 or 400, and after a connection has ended its id is unknown again.",
  ["schedules","inputs"],"all interleavings of concurrent connection attempts, all ids and negotiate versions",
  "Tests connect once per id.",
  ["httpmux.go"],[("handleServerSentEvent/handleWebsocket/handlePost","httpmux.go"),("serveConnection","httpmux.go")],["HTTP responses, Serve calls"])
p("C28","A failed or concurrent SSE upload never blocks later ones",
  "Each accepted POST delivers exactly its body to the connection, once, and is answered with 200; a POST refused because its body is too large or unreadable (400), or because another POST is in progress (409), delivers nothing. After any refused or failed POST the next one is accepted again as long as the connection is alive, and after it has ended POSTs are refused with 404 or 410.",
  ["histories","schedules","fault_sequences"],"all histories of good, failing and concurrent uploads within the bound",
  "Tests use well-behaved uploads only.",
  ["serversseconnection.go","httpmux.go"],[("consumeRequest","serversseconnection.go")],["HTTP status, bytes read from the Connection"])
p("C29","SSE payload survives any chunking of the event stream",
  "What the server writes to a server-sent-events connection is what the client reads from its connection, byte for byte up to the protocol's delimiters, however the HTTP layer cuts the event stream into chunks. Comments and other fields in the event stream are ignored, all line ends and several data lines in an event are understood, and the end of the event stream ends the client's connection. (Hub messages contain no raw line breaks over this transport.)",
  ["inputs","schedules"],"all payload contents and chunkings within the bound",
  "Loopback tests see one chunk per event.",
  ["clientsseconnection.go","serversseconnection.go"],[("newClientSSEConnection","clientsseconnection.go"),("Write","serversseconnection.go")],["clientSSEConnection.Read"])
p("C30","Writing to an SSE connection never deadlocks when it is being closed",
  "For every interleaving of writers with the end of an SSE connection, each write returns with success or an error and never panics or blocks forever, and the end of the connection is not blocked by writers.",
  ["schedules"],"all interleavings of concurrent writers and cancellation",
  "The window between checking the context and sending the job is an interleaving no test controls.",
  ["serversseconnection.go"],[("Write","serversseconnection.go"),("newServerSSEConnection","serversseconnection.go")],["serverSSEConnection.Write"])
p("C31","The client's reported state follows its real lifecycle",
  "The client goes from created through connecting to connected and ends in closed; once its loop has ended and it will not reconnect, the state is closed and stays closed for every interleaving. Waiting for a state returns nil when that state is reached and an error when the client is closed or cancelled, not started or the waiter's context ends; it never hangs after that. Observers see the states in the order in which they were entered.",
  ["schedules"],"all interleavings of start, connection end, stop, observers and waiters within the bound",
  "State changes are announced from several goroutines; tests see one order.",
  ["client.go"],[("setState/WaitForState/ObserveStateChanged","client.go"),("Start/run/shouldClientEnd","client.go")],["Client.State, WaitForState"])
p("C32","The client reconnects only when it may",
  "A client with a connector reconnects after a lost connection unless it was stopped, its context was cancelled, the backoff gave up or the server's close message forbade reconnecting; a client with a fixed connection never does. The client ends in state closed in those cases, with the error which ended the connection, if any, and it never has more than one running connection.",
  ["fault_sequences","histories"],"all sequences of connection failures, close messages and backoff decisions within the bound",
  "Tests reconnect once.",
  ["client.go","clientoptions.go"],[("Start/shouldClientEnd","client.go")],["connector calls, Client.State"])
p("C33","Cancelling a context always releases a blocked read or write",
  "A read or write guarded by a context returns the operation's own result if it finishes first and returns the context's error after the context was cancelled even if the operation never returns; with an already cancelled context the operation is not started. It returns exactly one outcome for every interleaving. A net connection's reads and writes are released in the same way, and it is closed, when its context ends.",
  ["schedules"],"all interleavings of completion and cancellation",
  "Timing tests sample a few orders.",
  ["connectionbase.go","netconnection.go"],[("ReadWriteWithContext","connectionbase.go")],["ReadWriteWithContext"])
p("C34","Invalid options are refused and valid ones take effect",
  "Every server option given to a client or client option given to a server, and every invalid value (zero buffer capacity or message size, intervals which are not positive, unknown transport or transfer format, connection together with connector, a failing lifetime manager, no hub option, no connection option), makes construction fail with an error. Every valid option value is the one in effect afterwards; of several values for one option it is the last one.",
  ["configurations","inputs"],"all option values within the bound and combinations of conflicting options in any order",
  "Tests check single options with single values.",
  ["options.go","serveroptions.go","clientoptions.go","client.go","server.go"],[("option functions","options.go"),("NewServer","server.go"),("NewClient","client.go")],["NewServer/NewClient results"])
p("C35","The Redis lifetime manager reaches local and remote connections exactly once",
  "With the Redis lifetime manager, sending to all, a client or a group reaches every addressed connection exactly once, whether it is connected to the sending server or to another one, and excluded connections are never reached. Groups may be changed, messages sent and connections ended concurrently. Invocations sent this way do not ask the client for a completion.",
  ["histories","inputs"],"all memberships, exclusions and senders within the bound",
  "The ext module has no tests.",
  ["ext/redishublifetimemnager.go"],[("handleRedisMessage","ext/redishublifetimemnager.go")],["SendInvocation on the hub connections"])
p("C36","Ending a connection is announced with the reason and ends the loop",
  "When a party ends a connection because of an error (invalid message, unknown id, timeout, cancelled context) it tries to send one close message carrying that error and its reconnect permission, and serving returns that error. A close message from the peer ends the loop: with its error if it carries one, otherwise without error.",
  ["fault_sequences","inputs"],"all causes of ending within the bound, all close message contents",
  "Tests cover a few causes and do not look at the close message's content.",
  ["loop.go","hubconnection.go"],[("Run","loop.go"),("Close","hubconnection.go")],["Serve's result, messages written to the Connection"])
p("C37","The HTTP client connects as negotiated, with a transport both sides support",
  "The HTTP client negotiates and then connects with WebSockets or else server-sent events, whichever both the server offers and the caller allows, using the negotiated token (version 1) or id, the address' query, the caller's headers and the cookies it got; if there is no common transport, or the server refuses a step, connecting fails with an error. The headers are sent with every request of the connection, also the POSTs of a server-sent events connection. Connecting again with the same options behaves the same, and the caller's options, the header map included, are never changed.",
  ["inputs","configurations","histories","fault_sequences"],"all offers, allowed transports, versions, orders of options and failing steps within the bound, repeated connections",
  "Tests connect to one well-behaved server with a few option lists.",
  ["httpconnection.go","clientoptions.go","clientsseconnection.go","websocketconnection.go"],[("NewHTTPConnection","httpconnection.go"),("HttpConnectionFactory","clientoptions.go")],["HTTP requests, result of NewHTTPConnection"])
p("C38","WebSockets are only accepted from allowed origins",
  "A WebSocket request with an Origin header is accepted only if the origin's host is the request's own host (ignoring case), it matches one of the configured origin patterns, or the origin check was disabled; any other one is refused with 403, starts no connection and does not use up the id it names. Requests without Origin are not restricted.",
  ["inputs","configurations"],"all origins, pattern lists and option orders within the bound",
  "No test sends an Origin header of another host.",
  ["httpmux.go","serveroptions.go"],[("handleWebsocket","httpmux.go"),("InsecureSkipVerify/AllowOriginPatterns","serveroptions.go")],["HTTP responses, Serve calls"])
p("C39","Concurrent use causes no data races",
  "Server, Client, Hub, HubClients, GroupManager, the connections and the HTTP handlers may be used by several goroutines at once, while messages arrive and connections are established, lost, replaced and closed: the library never accesses the same memory from two goroutines without ordering them (no data race in the sense of the Go memory model), so that Go never ends the process because of a concurrent map access and no goroutine works with half written values. Starting one client from several goroutines, or starting it while it is stopped, is excepted.",
  ["schedules","histories"],"all pairs and histories of calls, messages and connection events within the bound, all orders of their goroutines which the recorded synchronisation allows",
  "A race needs two goroutines at the same memory at the same time. Tests with the race detector see the accesses and the synchronisation of the schedules which happen to be executed.",
  ["client.go","loop.go","server.go","httpmux.go","streamer.go","streamclient.go","invokeclient.go","hubconnection.go","hublifetimemanager.go","connectionbase.go","hub.go","serversseconnection.go"],[("mutexes and atomics","client.go, server.go, httpmux.go, hublifetimemanager.go, streamer.go, streamclient.go, invokeclient.go, hubconnection.go, connectionbase.go, hub.go, loop.go")],["memory accesses of the executed code, reports of the Go race detector"])
p("C40","An ended connection leaves nothing running",
  "When a connection has ended - by the peer, its transport, an error, a timeout or the program - and its transport was closed, the methods it called have returned and the channels they gave were closed, no goroutine which the library started for it is left, neither of its messages, streams, uploads, calls and pings nor of the HTTP requests it consisted of. The same holds for a client which was stopped, whatever was going on when it was.",
  ["schedules","histories"],"all histories of uses and all endings within the bound, at any moment relative to the use",
  "A leaked goroutine changes no result; it shows up after weeks of connections. Tests do not count goroutines, and most leaks need an ending at a certain moment.",
  ["loop.go","hubconnection.go","streamclient.go","streamer.go","Invokeresult.go","client.go","serversseconnection.go","httpmux.go"],[("Run/PullStream","loop.go"),("Receive/writeInTime","hubconnection.go"),("sendChanValSave","streamclient.go"),("newInvokeResultChan","Invokeresult.go"),("newServerSSEConnection","serversseconnection.go")],["number of goroutines"])
p("C41","A connection in trouble does not hold up others",
  "While a connection is in trouble - its peer takes no messages, writes to it fail, it sends unfinished, invalid or many messages or never ends its handshake, its HTTP requests and responses stay unfinished, its hub factory, methods, callbacks or streams never end or panic - messages sent to other connections, to groups or to all are delivered to the others at once, their invocations are answered and new connections are served. A method which does not return does not hold up other invocations of its own connection.",
  ["schedules","histories","faults"],"all kinds of trouble, combined with all sequences of uses of another connection within the bound",
  "Tests connect healthy peers; that somebody waits for a stuck one shows only when the others are used in that very moment.",
  ["hublifetimemanager.go","loop.go","server.go","hubconnection.go","httpmux.go"],[("ServeHTTP/handlePost/negotiate","httpmux.go"),("InvokeAll/InvokeGroup/InvokeClient","hublifetimemanager.go"),("handleInvocationMessage","loop.go"),("onConnected/onDisconnected","server.go")],["messages written to the other connections, virtual time"])
p("C42","What a peer sent before its connection ended is handled",
  "Messages which were received completely before reading from the connection failed or ended are handled as if the connection went on, before the end of the connection is: a server runs the methods, a client passes on answers, stream items and invocations, and a close message decides about the end of the connection (its error and whether the client may reconnect). It does not matter whether they arrive one by one, together or in the same read as the error.",
  ["inputs","schedules","fault_sequences"],"all sequences of messages and ways to end within the bound, in both protocols and all orders of the goroutines",
  "The parsing of the messages and the reading of the connection are done by two goroutines; in tests the connection ends long after the last message.",
  ["hubconnection.go","loop.go","client.go"],[("Receive","hubconnection.go"),("Run","loop.go"),("shouldClientEnd","client.go")],["called methods, results of calls and streams, Serve's result, connector calls"])
p("C43","A stopped client is silent",
  "When Client.Stop has returned - in any phase of the connection, whether the client's context was canceled before and whatever the server sends or the transport does meanwhile - the client is closed and stays closed, parses and handles no further message, does not connect again and logs nothing more. A method of the receiver which is still running is not interrupted.",
  ["schedules","histories"],"all phases of the client, all messages and endings within the bound at the moment of Stop, all orders of the goroutines within the bound",
  "A test which stops a client sees the message being parsed in that moment only sometimes: the suite has a test for it which passes or fails with the load of the machine.",
  ["client.go","loop.go","hubconnection.go","jsonhubprotocol.go"],[("Start/Stop","client.go"),("Run","loop.go"),("Receive/writeInTime","hubconnection.go")],["calls of the logger, connector calls, Client.State"])
p("C44","A hub's context belongs to its connection",
  "In a method and in OnConnected and OnDisconnected of a hub which is created per call or per connection, the context is the one of the connection which called: ConnectionID is its id, Items are shared by all calls of this connection from its first callback to its last and by nobody else (a later connection with the same id starts empty), the Caller is this connection, Client reaches exactly the named one, Context ends when this connection ends - and not before -, Abort ends and Close announces the end to this connection only.",
  ["schedules","histories"],"all sequences of calls from two connections within the bound, at the same time or one after the other, in all orders of the goroutines within the bound",
  "Contexts which are mixed up show only when two connections use the hub at the same time, and then as private data given to somebody else.",
  ["hubcontext.go","hub.go","server.go","hubclients.go","clientproxy.go"],[("invocationTarget/newConnectionHubContext","server.go"),("lifeCycleTarget","server.go"),("Items/Abort","hubcontext.go"),("Caller/Client","hubclients.go")],["messages written to both connections, results of Serve, calls of the callbacks"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
