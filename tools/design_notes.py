# per property: how it is decided (function, oracle), why this reaches what tests cannot
N = {
'C01': "The stream of records with symbolic content is cut at symbolic positions and read through `parseMessages`/`readMessage` of the JSON protocol, and through a transport and `hubConnection.Receive`. Oracle: the messages the generator put in, in order, whatever the cut; refused streams are refused at every cut.",
'C02': "Same for MessagePack with its length prefix (boundaries 127/128, 16383/16384) and for malformed fields.",
'C03': "Messages whose size lies on either side of the maximum by a symbolic choice, in pieces, endless ones, in WebSocket frames and uploads; oracle: accepted iff size <= maximum, and an endless message is refused after reading at most the maximum plus one read.",
'C04': "Every kind of message with one symbolic field is encoded and decoded again; oracle: equality, and no raw record separator in the encoding.",
'C05': "Same for MessagePack, plus all message sizes around the places where the length prefix grows.",
'C06': "Parsers run on frames of symbolic bytes and on valid messages with symbolic bytes inserted or replaced; oracle: no panic, no absurd allocation, no hang.",
'C07': "A server and a client in the middle of an invocation, a stream and an upload get arbitrary message sequences, stuck uploads and pulls; oracle: no crash, no deadlock, and the party either stays usable for other calls or ends its connection.",
'C08': "All kinds of calls; oracle: exactly one completion with the id (or none without id), nothing after it.",
'C09': "Methods that panic in different ways; oracle: the panic text (and stack) is in the completion only with detailed errors.",
'C10': "Calls with valid and invalid names and arguments; oracle: the calls the hub recorded, against what was sent.",
'C11': "Concurrent calls answered in any order and way; oracle: every call gets the answers with its id, and only these.",
'C12': "Connections which end in any way at any moment of a call; oracle: the channels of every pending call yield an error and are closed.",
'C13': "Concurrent calls of all kinds; oracle: all ids on the wire differ.",
'C14': "Histories of streams, items, ends and cancellations on both sides, items of all types; oracle: a model of each stream (sent = received, in order, one completion).",
'C15': "Histories of cancellations, also before the stream has begun, repeated and for unknown ids; oracle: a model of what may still be sent after a cancellation.",
'C16': "Uploads in histories of items, completions, unknown ids, invocations; oracle: what the hub method received against what was sent.",
'C17': "Histories of invocations with uploads around the maximum; oracle: a model counting open streams; refused ones must not open channels or count.",
'C18': "Histories of group changes, sends and connects; oracle: the set of addressed connections computed by the model, every connection reached exactly once.",
'C19': "Group changes concurrent with the disconnect; oracle: after the disconnect no send to a group reaches the connection.",
'C20': "Connections with a per connection factory that open and end in any way; oracle: factory calls per id, all callbacks and invocations on that instance.",
'C21': "Same histories; oracle: the number and order of OnConnected and OnDisconnected per connection, and that groups/clients are usable inside them.",
'C22': "Concurrent senders of all kinds on one connection; oracle: each Write holds exactly one whole message and none are lost or duplicated; failing writes end the connection.",
'C23': "Virtual time histories; oracle: never more than the keep alive interval (plus one step) without a written message.",
'C24': "Virtual time histories of received messages; oracle: timeout fires iff nothing arrived for the interval.",
'C25': "Handshakes, valid and not, in pieces, with messages behind them; oracle: decision table of the handshake and the messages delivered after it.",
'C26': "HTTP histories of negotiations against the real net/http server code; oracle: ids fresh and distinct, pending count <= limit, refused otherwise.",
'C27': "Requests for one id, sequential and concurrent; oracle: at most one connection is started per id and 404/409 otherwise.",
'C28': "Sequential and overlapping POSTs whose bodies fail in different ways; oracle: every accepted body is delivered whole, later POSTs are answered.",
'C29': "SSE streams in all forms and cuts, read by the client's parser; oracle: the payloads of the events.",
'C30': "Writes and reads on a server SSE connection while the response blocks, fails or panics and the connection ends; oracle: every call returns in bounded virtual time and leaves no goroutine.",
'C31': "Histories of connection events for a client with connector or fixed connection; oracle: a model of the life cycle; observers see the same sequence, WaitForState ends with the right result.",
'C32': "Same histories; oracle: number and time of dials, giving up after the backoff ends or a close message that forbids reconnecting.",
'C33': "ReadWriteWithContext and net connections whose operation ends or not; oracle: return in bounded time with the context's error.",
'C34': "All options with symbolic values and orders; oracle: a decision table of valid ranges, and the effect visible in the created party.",
'C35': "Two servers over a model of Redis' commands below the real go-redis client; oracle: each addressed connection gets the message once.",
'C36': "All causes of ending; oracle: at most one close message, with the error and the permission, before the connection ends, and Serve's result.",
'C37': "A model server answering the client's HTTP requests in all ways; oracle: decision table of transports, requests and errors, repeated with the same options.",
'C38': "Requests with symbolic origins against the real handler; oracle: the origin rule computed by the harness.",
'C39': "See 1.3. The harnesses of the other properties and four of its own (`zverif_race.go`) provide the histories.",
'C40': "Histories of uses and endings of server connections, clients and HTTP connections (`zverif_leak.go`); after the ending and a minute of virtual time the number of goroutines (runtime.NumGoroutine, executor and replay) must be what it was before.",
'C41': "One connection is brought into one of fourteen kinds of trouble (eleven more with HTTP requests), another one and a new one are used; everything must have arrived before any virtual time passes (`zverif_isolate.go`).",
'C42': "The peer sends messages and ends the connection, the error comes with the last bytes or after them (`zverif_last.go`); oracle: the called methods, the results of a call and a stream, Serve's result and the number of connections which the messages and the close message imply.",
'C43': "A client with a logger which counts is stopped at different moments while messages arrive (`zverif_stopped.go`); the calls of loggers are scheduling points in these runs, so a goroutine about to log can be held back until Stop has returned; oracle: nothing is logged, dialed or announced afterwards.",
'C44': "Two connections call methods which use the hub's context (`zverif_context.go`); oracle: a model with one map of items and one state per connection, from which the messages to each connection, the ends of the contexts and the calls of the callbacks follow.",
}
