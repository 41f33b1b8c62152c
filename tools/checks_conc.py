ANSWER = [
    run('ZAnswer', ['answer-end', 'answered', 'failed', 'streamed', 'unanswered'], conc=True, budget=1, calls=1),
    run('ZAnswer', ['answer-end', 'answered', 'failed', 'streamed', 'unanswered'], conc=True, budget=0, calls=2, thorough=dict(budget=1, calls=2, split={'case0': list(range(1, 25))})),
]
check('C08', ANSWER + [run('ZAnswer', ['answer-end', 'failed'], conc=True, budget=0, calls=1, strict=1)],
    "24 kinds of calls (results of several types, none, several values, channels, panics, unknown targets, wrong arguments) as invocation with and without id and as stream invocation, one with up to one schedule deviation and two in a row (thorough with one deviation).",
    ["results the protocol can encode", "the peer keeps the connection open and its transport accepts writes"])
check('C09', [
    run('ZAnswer', ['answer-end', 'failed'], conc=True, budget=1, calls=1),
    run('ZAnswer', ['answer-end', 'failed'], conc=True, budget=1, calls=1, detailed=1, thorough=dict(budget=2, calls=1, detailed=1)),
], "methods which panic with a string, an error or a runtime error, with and without result, invoked and stream-invoked, detailed errors on and off, one schedule deviation.")
check('C10', ANSWER,
    "24 kinds of calls of 11 methods: names in different cases, alternate names, unknown, empty and prefix names, too few, too many and wrongly typed arguments; one call with one schedule deviation, two calls in a row.")
CALLS = [
    run('ZCall', ['answered', 'failed', 'call-end'], conc=True, budget=1, calls=1, split={'ending': [1, 2, 3, 4, 5]}),
    run('ZCall', ['answered', 'failed', 'pending', 'call-end'], conc=True, budget=0, calls=2, thorough=dict(budget=1, calls=2, split={'ending': [1, 2, 3, 4, 5]})),
]
CALLB = "Invoke, Send, PullStream and PushStreams, answered by a result, a stream, an error, an empty completion or not at all, while the connection stays or ends by the transport, a close message, Stop or an invalid message, early or late: one call with one schedule deviation, two calls (answered in both orders) without (thorough with one deviation)."
STUCK = [
    run('ZStuck', ['alive', 'cut', 'ended', 'received', 'stuck-end'], conc=True, budget=0, split={'side': [1, 2]}),
    run('ZStuck', ['alive', 'cut', 'ended', 'received', 'stuck-end'], conc=True, budget=1, sels=0, items=3, split={'end': [1, 2, 3, 4, 5, 6, 7]}, thorough=dict(budget=1, split={'end': [1, 2, 3, 4, 5, 6, 7], 'side': [1, 2]})),
    run('ZPullStuck', ['alive', 'ended', 'received', 'stuck-end'], conc=True, budget=0),
    run('ZPullStuck', ['alive', 'ended', 'received', 'stuck-end'], conc=True, budget=1, sels=1, split={'end': [1, 2, 3, 4, 5, 6]}, thorough=dict(budget=2, items=3, split={'end': [1, 2, 3, 4, 5, 6]})),
]
STUCKB = " Uploads of one to four items with a buffer for one, whose receiver receives them at once, within the receive timeout, later or never or returns, ended in seven ways, to a server and a client without and with one schedule deviation; pulled streams, the same way."
check('C07', [
    run('ZPeer', ['alive', 'ended', 'peer-end'], conc=True, budget=1, msgs=1, thorough=dict(budget=2, msgs=1)),
    run('ZPeer', ['alive', 'ended', 'peer-end'], conc=True, budget=0, msgs=2, thorough=dict(budget=1, msgs=2, split={'msg0': list(range(1, 36))})),
    run('ZPeerClient', ['alive', 'ended', 'peer-end'], conc=True, budget=1, msgs=1, thorough=dict(budget=2, msgs=1)),
    run('ZPeerClient', ['alive', 'ended', 'peer-end'], conc=True, budget=0, msgs=2, thorough=dict(budget=1, msgs=2, split={'msg0': list(range(1, 18))})),
] + STUCK, "a server and a client with an invocation, a stream and an upload pending get one of 35 (client 17 with 5 ids) messages with one (thorough two) schedule deviations and any two in a row (thorough with one deviation); then the party has to answer a valid invocation or to have ended the connection, and another connection of the server has to answer." + STUCKB,
  ["hub methods of the harness terminate"])
check('C11', CALLS + STUCK[2:], CALLB + ' Pulled streams whose caller receives late or never.')
check('C12', CALLS, CALLB)
check('C13', [
    run('ZIds', ['ids-end'], conc=True, budget=1, calls=2, thorough=dict(budget=2, calls=2, split={'kind0': [1, 2, 3, 4, 5]})),
    run('ZIds', ['ids-end'], conc=True, budget=0, calls=3, thorough=dict(budget=1, calls=3, split={'kind0': [1, 2, 3, 4, 5]})),
], "a client whose Invoke, Send, PullStream or PushStreams (with one and two channels) is called by two goroutines with one (thorough two) and by three with no (one) schedule deviation.")
check('C14', [
    run('ZStream', ['completed', 'items', 'stream-end'], conc=True, budget=1, streams=2, ops=2, thorough=dict(budget=2, streams=2, ops=2)),
    run('ZStream', ['completed', 'items', 'stream-end'], conc=True, budget=0, streams=2, ops=3, thorough=dict(budget=0, streams=2, ops=5)),
    run('ZStreamClient', ['pull-end'], conc=True, budget=1, ops=2, thorough=dict(budget=1, ops=3)),
    run('ZStreamClient', ['pull-end'], conc=True, budget=0, ops=3, thorough=dict(budget=0, ops=4)),
    run('ZItems', ['items-end', 'null'], conc=True, budget=1, items=1, thorough=dict(items=2, split={'kind': [1, 2, 3, 4, 5, 6, 7, 8], 'side': [1, 2]})),
    run('ZItems', ['items-end', 'null'], conc=True, budget=0, items=2, thorough=dict(items=3)),
    run('ZAnswer', ['answer-end', 'streamed'], conc=True, budget=0, calls=1),
], "up to two streams of a server, a stream pulled and two channels pushed by a client: all histories of 2 steps with one and 3 (thorough 5 and 4) steps without schedule deviation, a step being a further stream, an item (a string with a symbolic letter), the end of a source, an unrelated call; channels of eight types (interfaces, pointers, lists, maps, structs, ...) with up to two (thorough three) items, the empty, nil and zero ones included; stream invocations of methods which return no channel.",
   ["consumers take items within the channel receive timeout"])
check('C15', [
    run('ZCancel', ['cancel-end', 'canceled', 'completed'], conc=True, budget=1, max=2, ops=2, thorough=dict(budget=2, max=2, ops=2)),
    run('ZCancel', ['cancel-end', 'canceled', 'completed'], conc=True, budget=0, max=3, ops=4, thorough=dict(budget=0, max=3, ops=5, split={'op0': [1, 2, 3, 4, 5, 6]})),
    run('ZCancelEarly', ['canceled', 'complete', 'early-end', 'unsure'], conc=True, budget=0, ops=4, split={'op0': [1, 2], 'stream0': [1, 2, 3]}, thorough=dict(ops=5, split={'op0': [1, 2], 'stream0': [1, 2, 3], 'max': [1, 2, 3]})),
    run('ZCancelEarly', ['canceled', 'complete', 'early-end'], conc=True, budget=1, ops=2, split={'op0': [1, 2], 'stream0': [1, 2, 3]}, thorough=dict(ops=3, split={'op0': [1, 2], 'stream0': [1, 2, 3], 'max': [1, 2, 3]})),
], "a server whose limit of streams is 0, 1 or 2: all histories of 2 steps with one (thorough two) and 4 (5) steps without schedule deviation, a step being a further stream, an item, the end of a source, a cancellation of a stream (running, canceled or ended) or of an unknown one, an item racing with a cancellation; three streams whose methods return late: all histories of 4 (thorough 5) steps without and 2 (3) with one deviation, a step being that any stream is canceled, starts, gets an item or ends.",
   ["a stream runs when the method has returned its channel"])
check('C16', [
    run('ZUpload', ['broken', 'refused', 'upload-end', 'uploaded'], conc=True, budget=1, ops=1, thorough=dict(budget=1, ops=2)),
    run('ZUpload', ['broken', 'refused', 'upload-end', 'uploaded'], conc=True, budget=0, ops=3, thorough=dict(budget=0, ops=4, split={'op0': [1, 2, 3, 4, 5]})),
    run('ZPeer', ['alive', 'ended', 'peer-end'], conc=True, budget=0, msgs=1),
    run('ZPush', ['push-end'], conc=True, budget=0),
    run('ZPush', ['push-end'], conc=True, budget=1, split={'two': [1, 2], 'end0': [1, 2, 3]}, thorough=dict(budget=2, two=1, split={'end0': [1, 2, 3]})),
] + STUCK[:2], "two upload streams with buffers of 1 and 10 items: one step with one schedule deviation and 3 (thorough 4) steps, with and without waiting in between, a step being an item, a completion, an item for an unknown or ended stream, an item of a wrong type, an invocation which reuses the stream; one or two channels which have up to three items, are closed or open or get a last item while a client begins to push them, without and with one (thorough two, one channel) deviations." + STUCKB,
   ["methods take items within the channel receive timeout"])
check('C17', [
    run('ZUploadMax', ['max-end', 'bad', 'closed', 'opened', 'refused'], conc=True, budget=1, ops=2, thorough=dict(budget=2, ops=2)),
    run('ZUploadMax', ['max-end', 'bad', 'closed', 'opened', 'refused'], conc=True, budget=0, ops=4, thorough=dict(budget=0, ops=5, split={'op0': list(range(1, 9))})),
], "limits 0 to 3: two steps with one and 4 (thorough 5) steps without schedule deviation, a step being an invocation with one or two streams which is valid or has a wrong argument, a wrong number of streams, the wrong kind or a stream id in use, or the completion of any open stream.")
RECONNECT = [
    run('ZReconnect', ['gave-up', 'reconnect-end', 'stopped', 'timeout', 'works'], conc=True, budget=1, events=1, split={'event0': list(range(1, 10))}, thorough=dict(budget=1, events=2, split={'event0': list(range(1, 10))})),
    run('ZReconnect', ['gave-up', 'reconnect-end', 'stopped', 'timeout', 'works'], conc=True, budget=1, events=2, backoffs=1, dial0=2, event0=1, dial1=1),
    run('ZReconnect', ['forbidden', 'gave-up', 'reconnect-end', 'restarted', 'stopped', 'timeout', 'works'], conc=True, budget=0, events=4, thorough=dict(budget=0, events=6)),
    run('ZFixed', ['fixed-end', 'no-connection'], conc=True, budget=1, thorough=dict(budget=2, split={'handshake': list(range(1, 9))})),
]
RECONNECTB = "a client with a connector (the backoff gives up after one or two attempts) lives through all histories of one event with one schedule deviation and 4 (thorough 2 and 6) events without, and through a lost second connection with one deviation; events are failing dials, refused, invalid, lost or timed out handshakes, connections which end by the transport, by a close message with and without error and reconnect permission, directly after the handshake, by an invalid message, Stop and cancelled contexts in every phase, restarts; then an invocation has to be answered. A client with a fixed connection with the same ends with one (thorough two) deviations. Observers (one of which never reads) and waiters are checked in every phase."
check('C31', RECONNECT + [run('ZWaitState', ['closed', 'connected', 'wait-end'], conc=True, budget=1, thorough=dict(budget=2))], RECONNECTB + " WaitForState called at any moment while a client connects and ends, with one (thorough two) deviations.", ["Start is called when the client was created or is closed"])
check('C32', RECONNECT, RECONNECTB, ["Start is called when the client was created or is closed"])
WRITES = [
    run('ZWrites', ['failed', 'writes-end', 'written'], conc=True, budget=1, senders=2, split={'proto': [1, 2]}, thorough=dict(budget=1, senders=3, split={'proto': [1, 2], 'sender0': [1, 2, 3, 4]})),
    run('ZWrites', ['failed', 'writes-end', 'written'], conc=True, budget=0, senders=2, long=5000, sender0=2, thorough=dict(budget=0, senders=2, long=70000, sender0=2)),
    run('ZWriteFail', ['fail-end'], conc=True, budget=1, calls=1, thorough=dict(budget=2)),
    run('ZWriteFail', ['fail-end'], conc=True, budget=0, calls=2, thorough=dict(budget=1, calls=2, split={'kind0': [1, 2, 3, 4]})),
]
check('C22', WRITES, "two (thorough three) concurrent senders of four kinds (broadcast, message of 200 (one run: 5000, thorough 70000) bytes to a connection, answer, stream) over both protocols with one schedule deviation, where every write, or the first, second, third, succeeds; a client whose first or second call (of four kinds) can not be written, one call with one (thorough two) deviations, two calls without (thorough with one).")
IDLE = [
    run('ZIdle', ['idle-end', 'ping'], conc=True, budget=0, steps=4, holds=0, thorough=dict(steps=6, split={'keep': [1, 2, 3], 'timeout': [1, 2, 3]})),
    run('ZIdle', ['idle-end', 'ping'], conc=True, budget=1, steps=2, holds=0, thorough=dict(budget=1, steps=3, split={'keep': [1, 2, 3]})),
]
check('C23', IDLE, "keep alive intervals of 1, 1.7 and 2 s, timeouts of 1.3, 2.5 and 10 s, all histories of 4 (thorough 6) steps of 0.7 s without and of 2 (3) with one schedule deviation, a step being nothing, a received ping, an answered invocation, a broadcast; then silence until the timeout.",
      ["the clock of the explored runs is virtual: computing takes no time", "the transport takes the writes"])
check('C24', IDLE + [run('ZIdle', ['held'], conc=True, budget=0, steps=4, holds=1, split={'keep': [1, 2, 3]}, thorough=dict(steps=5))],
      "keep alive intervals of 1, 1.7 and 2 s, timeouts of 1.3, 2.5 and 10 s, all histories of 4 (thorough 6) steps of 0.7 s without and of 2 (3) with one schedule deviation, a step being nothing, a received ping, an answered invocation, a broadcast, the transport taking no writes for three steps; then silence until the timeout.",
      ["the clock of the explored runs is virtual: computing takes no time"])
check('C25', [
    run('ZHandshake', ['followed', 'handshake-end', 'opened', 'refused', 'timeout'], conc=True, budget=0, pieces=3, thorough=dict(pieces=4)),
    run('ZHandshake', ['followed', 'handshake-end', 'opened', 'refused', 'timeout'], conc=True, budget=1, pieces=2, thorough=dict(budget=2, pieces=2)),
    run('ZHandshakeClient', ['followed', 'handshake-end', 'opened', 'refused'], conc=True, budget=0, pieces=3, thorough=dict(pieces=4)),
    run('ZHandshakeClient', ['followed', 'handshake-end', 'opened', 'refused'], conc=True, budget=1, pieces=2, thorough=dict(budget=2, pieces=2)),
], "a server: 16 handshake requests (valid for both protocols, unknown protocols with a symbolic letter, malformed ones), complete, cut off and then lost or timed out, too long, alone or followed directly by two messages, in up to 3 (thorough 4) pieces without and 2 with one (two) schedule deviations; a client: 7 responses, the same way, in both formats.")
check('C36', [
    run('ZEnd', ['announced', 'closed', 'end-end'], conc=True, budget=1, thorough=dict(budget=2, split={'cause': list(range(1, 15))})),
    run('ZEndClient', ['announced', 'closed', 'end-end'], conc=True, budget=1, thorough=dict(budget=2)),
], "14 ways in which a connection of a server ends and 8 of a client, during an unfinished call, with one (thorough two) schedule deviations.")
GROUPRACE = [
    run('ZGroupRace', ['race-end'], conc=True, budget=2, calls=1),
    run('ZGroupRace', ['race-end'], conc=True, budget=1, calls=2, thorough=dict(budget=3, calls=2)),
    run('ZGroupRace', ['race-end'], conc=True, budget=0, calls=3, thorough=dict(budget=2, calls=3, split={'before': [1, 2, 3], 'call0': [1, 2, 3, 4, 5]})),
]
check('C18', [
    run('ZGroups', ['all', 'client', 'group', 'groups-end', 'hub'], conc=True, budget=0, conns=2, ops=2, groups=4, split={'op0': [2, 3, 4, 5, 6, 7, 8]}, thorough=dict(ops=3, groups=1, sels=0)),
    run('ZGroups', ['all', 'client', 'group', 'groups-end', 'hub'], conc=True, budget=0, conns=2, ops=3, groups=2, sels=0, narrow=1, split={'change0': [1, 2, 3]}, thorough=dict(ops=4, groups=2)),
    run('ZGroups', ['all', 'client', 'group', 'groups-end', 'hub'], conc=True, budget=1, conns=2, ops=2, groups=1, sels=0, narrow=1, split={'send0': [1, 2, 3, 4]}, thorough=dict(ops=2, groups=2, budget=2)),
] + GROUPRACE, "two to three connections, four groups (one with an empty name, one with the id of a connection): all histories of 2 steps, of 2 (thorough 3) changes and one message without and of one change and one message with one (thorough two) schedule deviations. Steps are adding to and removing from a group (also unknown connections), connecting, disconnecting, messages with a symbolic target to all, to known and unknown connections and groups, sent by the server or by the hub of any connection, over proxies got before others. Two connections directly at the lifetime manager: one to three concurrent calls of AddToGroup, RemoveFromGroup, InvokeGroup, OnDisconnected with up to two (three) deviations.",
   ["connection ids are unique", "transports take the writes"])
check('C19', GROUPRACE + [run('ZGroups', ['groups-end', 'group'], conc=True, budget=0, conns=2, ops=3, groups=1, sels=0, narrow=1)],
   "one to three concurrent calls (adding the connection which ends or another one to one of two groups, removing them, sending to a group) and the disconnect, with up to two (thorough three) schedule deviations; the connection is in no group, or it or another one in one before; then nothing sent to the groups, to all or to the connection may reach it.",
   ["connection ids are unique"])
check('C20', [
    run('ZHubs', ['hubs-end', 'per-connection', 'connected'], conc=True, budget=1, conns=1, simple=1, sels=1, factory=1, thorough=dict(budget=2, sels=0, split={'open0': [1, 2, 3, 4, 5], 'end0': [1, 2, 3, 4, 5]})),
    run('ZHubs', ['hubs-end', 'per-connection', 'connected'], conc=True, budget=0, conns=2, simple=1, sels=0, factory=1, split={'open0': [1, 2, 3, 4, 5]}, thorough=dict(budget=0, sels=2)),
], "one connection (valid, invalid, lost handshake, with no, one or two invocations directly behind the handshake) which ends in 5 ways with one (thorough two) schedule deviations, two connections without.",
  ["connection ids are unique", "at most one (thorough two, with two deviations none) select with several ready cases takes another than the first one"])
check('C21', [
    run('ZHubs', ['hubs-end', 'connected', 'reached', 'refused', 'perhaps'], conc=True, budget=0, conns=1),
    run('ZHubs', ['hubs-end', 'connected', 'reached', 'refused', 'perhaps'], conc=True, budget=1, conns=1, sels=0, factory=2, split={'open0': [1, 2, 3, 4, 5]}, thorough=dict(budget=1, sels=1)),
    run('ZHubs', ['hubs-end', 'connected'], conc=True, budget=1, conns=1, sels=1, simple=1, thorough=dict(budget=2, sels=0, split={'open0': [1, 2, 3, 4, 5], 'end0': [1, 2, 3, 4, 5]})),
    run('ZHubs', ['hubs-end', 'connected'], conc=True, budget=0, conns=2, simple=1, sels=0, factory=2, split={'open0': [1, 2, 3, 4, 5]}, thorough=dict(budget=0, sels=2)),
], "one connection (valid, invalid, lost handshake, with no, one or two invocations directly behind the handshake, which send to the caller, a client, a group and all) which ends in 5 ways with one (thorough two) schedule deviations, two connections without, hub factories per call and per connection.",
  ["connection ids are unique", "with deviations at most one select with several ready cases takes another than the first one"])
NEGS = [
    run('ZNegotiations', ['ended', 'limit', 'negotiated', 'negotiations-end', 'no-key', 'post-unknown', 'posted', 'sse', 'used', 'ws', 'ws-free', 'ws-refused'], conc=True, budget=0, steps=3, sels=0,
        thorough=dict(steps=4, narrow=1, split={'step1': [1, 2, 3, 4, 5, 6], 'limit': [1, 2, 3]})),
    run('ZConnectRace', ['expired', 'posted', 'race-end', 'started'], conc=True, budget=1, calls=2, sels=0, thorough=dict(budget=2, calls=2, split={'call1': [1, 2, 3, 4, 5], 'call2': [1, 2, 3, 4, 5]})),
    run('ZConnectRace', ['expired', 'posted', 'race-end', 'started'], conc=True, budget=0, calls=3, sels=0, thorough=dict(budget=1, calls=3, split={'call1': [1, 2, 3, 4, 5], 'call2': [1, 2, 3, 4, 5]})),
]
NEGB = ("no limit or a limit of 1 or 2 negotiated connections: all histories of 3 (thorough 4) requests, which negotiate (versions 0 and 1, invalid and repeated version parameters), connect with server sent events or a WebSocket (ids, tokens, unknown, "
        "used, ended, missing ones, plain requests in between), post, end a connection or wait until an id expires; two concurrent requests of five kinds for one id with one (thorough two), three without (one) schedule deviations.")
NEGA = ["net/http and the WebSocket package are executed as they are; the TCP connections below them are the harness's", "of several ready select cases the first one is taken"]
check('C26', NEGS, NEGB, NEGA)
check('C27', NEGS, NEGB, NEGA)
check('C28', [
    run('ZPosts', ['accepted', 'ended', 'posts-end', 'refused'], conc=True, budget=1, posts=2, sels=0, split={'kind1': list(range(1, 8))}, thorough=dict(budget=2, posts=2, split={'kind1': list(range(1, 8)), 'kind2': list(range(1, 8))})),
    run('ZPosts', ['accepted', 'ended', 'posts-end', 'refused'], conc=True, budget=0, posts=3, sels=0, thorough=dict(budget=1, posts=3, split={'kind1': list(range(1, 8)), 'kind2': list(range(1, 8))})),
], "up to two POSTs with one (thorough two), three without (one) schedule deviations, sequentially or overlapping: valid bodies of different lengths, bodies in pieces, too large, ending early, failing, empty, during and after the end of the connection.", NEGA)
check('C29', [
    run('ZEvents', ['read', 'events-end'], conc=True, events=1, len=2, chunks=2, sels=0, thorough=dict(events=2, len=2, chunks=2, split={'form1': list(range(1, 9)), 'crlf1': [1, 2]})),
    run('ZEvents', ['read', 'events-end'], conc=True, events=2, len=1, chunks=2, sels=0, thorough=dict(events=1, len=3, chunks=3, split={'form1': list(range(1, 9))})),
    run('ZBig', ['big-end', 'delivered', 'too-large'], conc=True, budget=0, sels=0, maxsteps=60000000, side=2, web=1),
    run('ZLoopback', ['answered', 'loopback-end'], conc=True, calls=1, sels=0, thorough=dict(calls=2)),
], "one event with a payload of 2 (thorough 3) symbolic bytes and two of 1 (2), in eight forms (with comments, other fields, several data lines, without a blank, with CRLF), the stream cut into 2 (3) pieces at every position, read with buffers of 1, 3 and 100 bytes; "
   "a client and a server connected over server sent events or a WebSocket, with the HTTP responses cut in four ways; events with a message of up to 70000 bytes.",
   ["payloads contain no raw line breaks, which neither protocol writes"] + NEGA)
check('C30', [
    run('ZSSEWrites', ['aborted', 'cancelled', 'closed', 'sent', 'sent-all', 'stopped', 'writes-end'], conc=True, budget=1, calls=1, split={'fault': [1, 2, 3, 4]}, thorough=dict(budget=2, calls=1, split={'fault': [1, 2, 3, 4], 'end': [1, 2, 3, 4, 5], 'call1': [1, 2, 3]})),
    run('ZSSEWrites', ['aborted', 'cancelled', 'closed', 'sent', 'sent-all', 'stopped', 'writes-end'], conc=True, budget=0, calls=2, thorough=dict(budget=1, calls=2, split={'fault': [1, 2, 3, 4], 'end': [1, 2, 3, 4, 5]})),
], "one call (write, cancelled write, read) with one (thorough two), two without (one) schedule deviations, while the response takes the writes, takes none, fails or panics and the connection ends in five ways.", NEGA[:1])
check('C33', [
    run('ZGuard', ['before', 'both', 'finished', 'guard-end', 'released'], conc=True, budget=2, thorough=dict(budget=3)),
    run('ZNetConn', ['net-end', 'read', 'released', 'written'], conc=True, budget=1, thorough=dict(budget=2)),
], "ReadWriteWithContext with an operation which finishes or fails, with a symbolic number of bytes, at once, later, at the same time as the context or never, whose unblock function ends it or not, the context ended before, at four times (cancelled or by its deadline) or never, with two (thorough three) schedule deviations; a read and a write of a net connection, the same way, with one (two).")
check('C34', [
    run('ZOptions', ['client', 'format', 'manager', 'options-end', 'refused', 'server'], conc=True, budget=0, options=2, sels=0, thorough=dict(options=3, split={'option1': list(range(1, 28)), 'server': [1, 2]})),
], "two (thorough three) options of 27 kinds (all options but Logger, nil) with symbolic durations from -1 to 99 s and numbers from 0 to 100000, and a hub or connection option before or behind them, for a server and a client; the settings in effect, the hub instances, the lifetime manager, the handshake and the connection used are compared with a model.",
   ["a client ignores InsecureSkipVerify and AllowOriginPatterns"])
check('C37', [
    run('ZHTTPConnect', ['connect-end', 'connected', 'invalid', 'refused', 'sse', 'ws'], conc=True, budget=0, sels=0, thorough=dict(budget=1, split={'transports': [1, 2, 3, 4, 5], 'version': [1, 2]})),
    run('ZHTTPFactory', ['connected', 'factory-end', 'refused'], conc=True, budget=0, rounds=2, sels=0, thorough=dict(rounds=4)),
    run('ZLoopback', ['answered', 'loopback-end'], conc=True, calls=1, sels=0, thorough=dict(calls=2)),
], "all subsets of three transports offered, five lists of transports allowed, both versions, own headers, cookies, options in two orders, every step refused or failing; two (thorough four) connections with the same options whose transports work or not; a client and a server connected over both transports.", NEGA)
check('C38', [
    run('ZOrigin', ['allowed', 'origin-end', 'refused'], conc=True, budget=0, sels=0),
], "17 origins (some with a symbolic letter) with two schemes, seven lists of patterns, the check disabled, enabled and both, both negotiate versions, with and without id.", NEGA)
check('C35', [
    run('ZRedis', ['sent', 'several', 'subscribed'], conc=True, budget=0, steps=0),
    run('ZRedis', ['sent', 'several', 'subscribed'], conc=True, budget=1, steps=0, args=2, thorough=dict(budget=2, steps=0, args=2)),
    run('ZRedis', ['sent', 'several', 'subscribed'], conc=True, budget=0, steps=1, args=2, split={'op0': [1, 2, 3]}, thorough=dict(budget=0, steps=2, args=2, split={'op0': [1, 2, 3], 'conn0': [1, 2, 3], 'send': [1, 2, 3, 4, 5]})),
    run('ZRedisRace', ['down', 'race-end', 'up'], conc=True, budget=1, calls=2, maps=1, thorough=dict(budget=2, calls=2, maps=1, split={'call0': [1, 2, 3, 4, 5]})),
], "two servers with two and one connections, four kinds of arguments; all histories of one (thorough two) steps, a step being that any connection is added to or removed from one of three groups (the empty name included) by any server or ends; then any server sends to all, any, an unknown or no connection, any group, all or a group except some; two concurrent changes of the groups of one server's connections or disconnects or messages with one (thorough two) schedule deviations.",
   ["go-redis is executed as it is; the Redis server (sets, publish/subscribe) is the harness's and executes commands in order", "the servers have subscribed before the first message is sent"], pkg='ext')

R = lambda fn, **kw: run(fn, conc=True, race=1, **kw)
check('C39', [
    R('ZRaceClient', reach=['created', 'race-end', 'stopped'], calls=2, thorough=dict(calls=3, split={'phase': [1, 2, 3]})),
    R('ZRaceClient', reach=['race-end', 'stopped'], calls=2, budget=1, sels=0, split={'phase': [1, 2, 3]}, thorough=dict(calls=2, budget=1, split={'phase': [1, 2, 3]})),
    R('ZRaceHub', reach=['race-end'], thorough=dict(budget=1, split={'main': [1, 2, 3, 4, 5, 6]})),
    R('ZRaceLife', reach=['race-end'], thorough=dict(budget=1, split={'panic0': [1, 2, 3, 4], 'end0': [1, 2, 3, 4]})),
    R('ZRaceConn', reach=['race-end'], calls=3, thorough=dict(calls=3, budget=1)),
    R('ZConnectRace', reach=['race-end', 'posted', 'started'], calls=2, sels=0, thorough=dict(calls=2, budget=1)),
    R('ZNegotiations', reach=['negotiations-end'], steps=2, sels=0),
    R('ZGroupRace', reach=['race-end'], calls=2, budget=1, thorough=dict(calls=3, budget=1)),
    R('ZIds', reach=['ids-end'], calls=2, budget=1, thorough=dict(calls=3, budget=1, split={'kind0': [1, 2, 3, 4, 5]})),
    R('ZCall', reach=['call-end'], calls=1, budget=1, split={'ending': [1, 2, 3, 4, 5]}),
    R('ZCall', reach=['call-end'], calls=2, sels=0, thorough=dict(calls=2, split={'ending': [1, 2, 3, 4, 5]})),
    R('ZWriteFail', reach=['fail-end'], calls=1, budget=1),
    R('ZStream', reach=['stream-end'], streams=2, ops=2, thorough=dict(budget=1)),
    R('ZCancel', reach=['cancel-end'], max=2, ops=2, thorough=dict(budget=1)),
    R('ZUpload', reach=['upload-end'], ops=2, thorough=dict(budget=1, ops=1)),
    R('ZUploadMax', reach=['max-end'], ops=2, thorough=dict(budget=1)),
    R('ZStreamClient', reach=['pull-end'], ops=2, thorough=dict(budget=1)),
    R('ZPush', reach=['push-end'], thorough=dict(budget=1, split={'two': [1, 2], 'end0': [1, 2, 3]})),
    R('ZStuck', reach=['stuck-end'], split={'side': [1, 2]}),
    R('ZPullStuck', reach=['stuck-end'], thorough=dict(budget=1, sels=1)),
    R('ZHubs', reach=['hubs-end'], conns=1, factory=1),
    R('ZHubs', reach=['hubs-end'], conns=2, simple=1, sels=0, factory=1, split={'open0': [1, 2, 3, 4, 5]}),
    R('ZPeer', reach=['peer-end'], msgs=1, thorough=dict(msgs=2, split={'msg0': list(range(1, 36))})),
    R('ZPeerClient', reach=['peer-end'], msgs=1, thorough=dict(msgs=2, split={'msg0': list(range(1, 18))})),
    R('ZAnswer', reach=['answer-end'], calls=1, thorough=dict(calls=2)),
    R('ZReconnect', reach=['reconnect-end'], events=2, thorough=dict(events=1, budget=1, split={'event0': list(range(1, 10))})),
    R('ZFixed', reach=['fixed-end'], budget=1),
    R('ZWaitState', reach=['wait-end'], budget=1),
    R('ZWrites', reach=['writes-end'], senders=2, thorough=dict(budget=1, split={'proto': [1, 2]})),
    R('ZIdle', reach=['idle-end'], steps=2, holds=1, thorough=dict(steps=3)),
    R('ZHandshake', reach=['handshake-end'], pieces=2),
    R('ZHandshakeClient', reach=['handshake-end'], pieces=2),
    R('ZEnd', reach=['end-end'], budget=1),
    R('ZEndClient', reach=['end-end'], budget=1),
    R('ZPosts', reach=['posts-end'], posts=2, sels=0, thorough=dict(posts=2, budget=1)),
    R('ZSSEWrites', reach=['writes-end'], calls=1, thorough=dict(calls=2)),
    R('ZGuard', reach=['guard-end'], budget=1),
    R('ZNetConn', reach=['net-end'], budget=1),
    R('ZLoopback', reach=['loopback-end'], calls=1, sels=0),
    R('ZWSMessages', reach=['wsmsg-end'], msgs=1, sels=0),
], "two (thorough three) concurrent calls of thirteen kinds on a client which is new, connecting or connected; two connections which invoke any of twelve methods of a shared hub while the program sends, connects or disconnects; three concurrent uses of a connection; the histories of the harnesses of the other properties (negotiations, concurrent requests, groups, ids, calls, streams, cancellations, uploads, hubs, messages of the peer, reconnects, writes, idle connections, handshakes, endings, posts, events). On every explored path the happens-before relation of all accesses of the repository's code (and of bytes and bufio) is decided.",
  ["accesses inside of the standard library other than bytes, bufio and maps, and through reflection, are not examined", "map and memory locations are distinguished by field and element"])

check('C40', [
    run('ZLeak', ['leak-end'], conc=True, msgs=1, budget=1, sels=1, split={'use0': list(range(1, 12))}, thorough=dict(msgs=1, budget=2, sels=1, split={'use0': list(range(1, 12)), 'end': list(range(1, 7))})),
    run('ZLeak', ['leak-end'], conc=True, msgs=2, thorough=dict(msgs=2, budget=1, split={'use0': list(range(1, 12)), 'end': list(range(1, 7))})),
    run('ZLeakClient', ['leak-end'], conc=True, msgs=1, budget=1, sels=0, split={'use0': list(range(1, 12))}, thorough=dict(msgs=1, budget=1, split={'use0': list(range(1, 12)), 'end': list(range(1, 6))})),
    run('ZLeakClient', ['leak-end'], conc=True, msgs=2, sels=0, split={'use0': list(range(1, 12))}, thorough=dict(msgs=2, split={'use0': list(range(1, 12))})),
    run('ZLeakWeb', ['events', 'leak-end', 'websocket'], conc=True, ops=1, thorough=dict(ops=2, split={'kind': [1, 2, 3, 4]})),
], "one use of eleven kinds with one (thorough two for the server) schedule deviation, two uses without (thorough one for the server); six endings of a server's connection, five of a client, with and without retries and observers; one (thorough two) POSTs, frames or messages for a connection with server-sent events or WebSockets and three endings.",
  ["the transport is closed by the program, methods return and sources of streams are closed", "goroutines of net/http itself are not part of the harness"])
check('C41', [
    run('ZIsolate', ['fresh', 'held', 'isolate-end', 'self'], conc=True, ops=2, split={'op0': [1, 2, 3, 4, 5, 6]}, thorough=dict(ops=3, split={'op0': [1, 2, 3, 4, 5, 6], 'op1': [1, 2, 3, 4, 5, 6]})),
    run('ZIsolate', ['fresh', 'held', 'isolate-end', 'self'], conc=True, ops=1, budget=1, sels=0, split={'trouble': list(range(1, 15))}, thorough=dict(ops=1, budget=1, split={'trouble': list(range(1, 15)), 'op0': [1, 2, 3, 4, 5, 6]})),
    run('ZIsolateWeb', ['web-end'], conc=True, ops=1, sels=0, thorough=dict(ops=2, split={'trouble': list(range(1, 12))})),
], "fourteen kinds of trouble of a connection, eleven kinds of troubled HTTP requests and responses; two (thorough three) uses of another connection of six kinds in the default schedule, one use with one schedule deviation, one (thorough two) uses of five kinds of a connection over HTTP.", NEGA)
check('C42', [
    run('ZLast', ['closed', 'last-end', 'lost'], conc=True, msgs=2, thorough=dict(msgs=3)),
    run('ZLast', ['closed', 'last-end', 'lost'], conc=True, msgs=2, budget=1, thorough=dict(msgs=2, budget=2, split={'msg0': [1, 2, 3, 4], 'msg1': [1, 2, 3, 4]})),
    run('ZLastClient', ['closed', 'last-end', 'reconnect'], conc=True, msgs=2, sels=0, thorough=dict(msgs=3)),
    run('ZLastClient', ['closed', 'last-end', 'reconnect'], conc=True, msgs=1, budget=1, sels=0, split={'msg0': [1, 2, 3, 4]}, thorough=dict(msgs=1, budget=1, split={'msg0': [1, 2, 3, 4], 'close': [1, 2, 3, 4, 5]})),
], "both protocols; up to two (thorough three) messages of four kinds and, for the client, four kinds of close messages, read one by one or at once, the error of the connection together with the last bytes or after them; one schedule deviation (thorough two for the server).", [])
check('C43', [
    run('ZStopped', ['backoff', 'connected', 'handshake', 'stopped-end'], conc=True, msgs=0, logs=1, budget=2, sels=0, thorough=dict(msgs=0, logs=1, budget=3, sels=0, split={'phase': [1, 2, 3], 'due': [1, 2], 'how': [1, 2]})),
    run('ZStopped', ['backoff', 'connected', 'handshake', 'stopped-end'], conc=True, msgs=1, logs=1, budget=1, thorough=dict(msgs=1, logs=1, budget=2, sels=0, split={'msg0': [1, 2, 3, 4, 5, 6, 7], 'phase': [2], 'due': [1, 2]})),
    run('ZStopped', ['backoff', 'connected', 'handshake', 'stopped-end'], conc=True, msgs=2, logs=1, sels=0, thorough=dict(msgs=2, logs=1, budget=1, sels=0, split={'msg0': [1, 2, 3, 4, 5, 6, 7], 'msg1': [1, 2, 3, 4, 5, 6, 7], 'phase': [2]})),
], "a client with JSON, stopped while it waits for the handshake, while it is connected and between two attempts; at once or in the moment a ping, the timeout, the handshake's timeout or the next attempt is due, by Stop alone or after canceling the context; none to two messages of seven kinds (pings, unfinished and invalid ones, close messages, unknown completions, a lost transport), a server which answers the close message or not; two (thorough three) schedule deviations without a message, one (two) with one, none (one) with two; the calls of the logger are scheduling points.",
  ["the receiver's methods and the observers of the state are not running when Stop is called"])
check('C44', [
    run('ZContext', ['again', 'context-end'], conc=True, ops=1, both=1, budget=1, sels=0, split={'opP0': list(range(1, 14))}, thorough=dict(ops=1, both=1, budget=1, split={'opP0': list(range(1, 14)), 'opQ0': list(range(1, 14))})),
    run('ZContext', ['again', 'context-end'], conc=True, ops=2, thorough=dict(ops=2, both=1, split={'opP0': list(range(1, 14)), 'opP1': list(range(1, 14))})),
    run('ZContext', ['again', 'context-end'], conc=True, ops=3, sels=0, budget=0, split={'factory': [1, 2], 'opP0': [2], 'opQ0': [1], 'opP1': list(range(1, 14))}, thorough=dict(ops=3, sels=0, split={'factory': [1, 2], 'opP0': list(range(1, 14)), 'opP1': list(range(1, 14))})),
], "two connections of a server with JSON whose hubs are created per call or per connection; twelve kinds of steps of a connection (storing and loading two items, its id, messages to the caller and to the other connection, watching the context, closing, aborting, losing and leaving the connection): one (thorough two) simultaneous steps of both with one (none) schedule deviation, two (thorough three) steps of one of them at a time, three after storing an item; afterwards a further connection with the id of an ended one.",
  ["hubs which are one instance for all connections (UseHub) have the context of the latest call and are not part of this", "messages to a connection which ends at the same time may arrive or not"])
