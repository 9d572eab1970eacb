import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m,where=w) for m,w in mech],**({"observe_at":observe} if observe else {}),hook_needed=None)))
p("C01","Messages are laid out on the wire exactly as specified and read back unchanged",
 "Every message built from (command, method, value, error flag, async flag, sequence number) occupies exactly a 16-byte header plus method plus payload, with each header field at its documented offset and the body length equal to the bytes that follow the header. Reading any attribute back returns exactly what was set, and setting one attribute never alters another attribute, the method or the payload.",
 ["inputs"],"all commands, methods up to 127 bytes, payloads of any length and kind (bytes, string, error, pointer forms, codec-encoded), flags, sequence numbers",
 "tests build a handful of messages with fixed values; the claim ranges over every field value, payload length and setter order",
 ["proto.go","util/util.go","client.go","server.go","handler.go","stream.go"],
 [("newMessage and header accessors","proto.go"),("ValueToBytes","util/util.go"),("checkMethod","proto.go")])
p("C02","Receiving a frame is bounded, exact and keeps the connection in sync",
 "For every byte sequence a peer sends, reading one message consumes exactly 16 bytes plus the announced body length, never allocates for or accepts a body longer than the configured maximum, and returns a message whose bytes are exactly the bytes read. A read error or an oversized length is reported as an error and never as a delivered message.",
 ["inputs","configurations"],"all header contents, all body lengths including 0 and 2^32-1, all maximum body lengths, all read failures",
 "tests only receive well-formed frames produced by the library itself",
 ["handler.go","proto.go"],[("handler.Recv","handler.go"),("Header.message","proto.go")])
p("C03","Every received message is dispatched to the right place, malformed ones to none",
 "A request or notification runs the handler chain registered for its method, or the not-found handler when the method is unknown; a response goes only to a waiting call; a stream frame goes only to its stream or the stream handler of its method. A message whose method length is zero, above 127 or beyond its own bytes, or whose command is unknown, reaches no handler, and no received byte sequence makes dispatch index outside the message.",
 ["inputs","configurations"],"all message contents and lengths of at least a header, all routing tables, any number of decoders",
 "tests dispatch a few valid messages; malformed lengths and unknown commands come from arbitrary peers",
 ["handler.go","proto.go","client.go"],[("handler.OnMessage","handler.go"),("newContext","context.go")])
p("C04","A response carries its request's identity and reaches only the call that made it",
 "A response built for a request carries that request's sequence number, method and synchronous/asynchronous kind, is marked as an error exactly when an error value or Error was used, and is never produced for a notification. An incoming response completes only the pending call registered on that connection under the same sequence number and of the same kind; otherwise it is reported as a miss and completes nothing, and no duplicate response can block the connection.",
 ["inputs","schedules","histories"],"all requests, all sets of outstanding calls, all arrival orders including duplicates, late and unknown sequence numbers",
 "tests issue calls in order against a well-behaved peer; duplicates, late responses and mixed kinds need particular histories",
 ["context.go","handler.go","client.go"],[("Context.write/writeDirectly","context.go"),("OnMessage response branch","handler.go"),("session and async-handler maps","client.go")])
p("C05","A synchronous call reports exactly one truthful outcome and leaves nothing behind",
 "Call and its context variants return nil only if a non-error response to that very request was received and decoded, return the remote error if the response carried one, and otherwise return the error naming what happened (timeout, stopped, reconnecting, invalid argument, write failure). Whatever the outcome, no pending-call entry of that call remains registered afterwards, and a call rejected for invalid arguments or state sends nothing.",
 ["schedules","inputs","fault_sequences"],"all interleavings of response, timeout, cancellation, disconnect and stop; all response contents; sync and async writing",
 "each test exercises one outcome under one timing",
 ["client.go"],[("Call/CallContext","client.go"),("parseResponse","client.go"),("addSession/deleteSession","client.go")])
p("C06","An asynchronous call's callback runs at most once, and not after a rejected call",
 "The callback of an asynchronous call is invoked at most once over response, timeout, message drop and disconnect, with the response's own error or the error naming the cause. If the asynchronous call itself returns an error, its callback is deregistered by that call; if it returns nil, the callback stays registered until exactly one of those events claims and invokes it.",
 ["schedules","fault_sequences","histories"],"all interleavings of response, timer, drop and disconnect, any number of pending calls",
 "the competing events race; tests see one order and one pending call",
 ["client.go","handler.go"],[("getAndDeleteAsyncHandler / clearAsyncHandler / dropMessage","client.go"),("OnMessage async response branch","handler.go")])
p("C07","Queued messages go out whole, once each, in queue order, through all coders in order",
 "The sender takes messages from the queue in order and hands the connection exactly the concatenation of their encoded frames: none lost, repeated, reordered, interleaved or altered while the connection is usable. Every outgoing message passes through every registered coder once in registration order, and every incoming non-heartbeat message through every coder once in reverse order, before it is written or dispatched.",
 ["schedules","inputs","configurations"],"any number of queued messages, any batch size and buffer size, any number of coders, batch, plain and direct writing",
 "tests send few messages and cannot control how the sender batches them",
 ["client.go","handler.go","context.go","stream.go"],[("batchSendLoop/normalSendLoop","client.go"),("direct write paths","client.go, context.go, stream.go"),("decode loop in OnMessage","handler.go")])
p("C08","A message is never used or released again after it has been handed back",
 "Every operation that takes over a message (pushing, sending, dropping, dispatching) gives up each reference it was handed at most once, never twice: a buffer is recycled only when its last reference is given up. After giving a message up, no code reads or writes it or its bytes, and no result delivered to the user (decoded values, errors, stream methods, broadcast copies) aliases recycled bytes.",
 ["histories","schedules","configurations"],"all paths including errors, timeouts, drops and disconnects; with pooled buffers enabled",
 "use-after-recycle corrupts data only when another goroutine reuses the buffer at that instant",
 ["proto.go","client.go","context.go","handler.go","server.go","stream.go","extension/pubsub/topic.go"],[("Retain/Release","proto.go"),("OnMessageDone/OnContextDone/OnOverstock/OnMessageDropped","handler.go"),("Broadcast","server.go")])
p("C09","Middleware and handler run in registration order, once each, until aborted",
 "For a request or notification, the registered middlewares and the route's handler run in registration order, each exactly once, whether or not they call Next themselves; a middleware added later also covers routes registered earlier, after their handler. After Abort, no further handler of that chain runs, however long the chain is.",
 ["programs","configurations"],"any chain length, any subset of handlers calling Next or Abort any number of times",
 "tests use chains of two or three handlers",
 ["context.go","handler.go"],[("Context.Next/Abort","context.go"),("handler.Use/handle","handler.go")])
p("C10","A cloned handler starts equal to its original and is isolated from it",
 "A cloned handler has the same configuration, middlewares, coders, routes and stream routes as the original at that moment. Afterwards no registration or setting on either one changes the other.",
 ["programs","histories"],"all handler contents and all later registrations on either copy",
 "tests clone a default handler and look at a few fields",
 ["handler.go"],[("handler.Clone","handler.go")])
p("C11","Streams deliver data in order, end with EOF, and close each direction once",
 "Data frames arriving for a stream are queued for that stream's receiver in arrival order and decoded into exactly the bytes sent, and every receive operation on an ended stream reports end-of-stream instead of data or a crash. Sending after the sending side is closed fails, an end-of-stream mark is sent with closing, each direction is closed at most once, and a stream is forgotten once both directions are closed.",
 ["histories","schedules","inputs"],"all interleavings of send, receive, close and disconnect on both ends; both receive variants",
 "tests run one echo exchange; close races and the context variants are not exercised",
 ["stream.go","handler.go","client.go"],[("Stream.*","stream.go"),("OnMessage stream branch","handler.go")])
p("C12","Server load accounting matches the live connections and respects the limit",
 "The server's current load rises by one for every accepted connection and falls by one exactly once when that connection is refused or ends, so it equals the number of connections being served. With a positive maximum load a connection beyond it is closed and never served, and when a served connection ends the server forgets it and reports the disconnect exactly once. A broadcast is handed once to each connection then being served that its filter selects, and a server that stops ends every connection it serves.",
 ["histories","schedules","fault_sequences"],"all sequences of accepts, refusals, disconnects and stops; any maximum load",
 "tests open a few connections and never compare the counters over histories",
 ["server.go","client.go"],[("runLoop / addLoad / subLoad","server.go"),("closeAndClean","client.go"),("recvLoop","client.go")])
p("C13","Losing the connection fails everything pending, and stopping unblocks everyone",
 "When a connection is lost, every synchronous call, asynchronous call and stream pending on it is completed with an error before the client uses a new connection, and none of them survives into it. When a client finally stops, its stop signal is raised exactly once, in every write mode, so blocked operations return.",
 ["fault_sequences","schedules","histories"],"disconnects at every point, any number of pending operations, reconnecting or not, synchronous or queued writing",
 "tests disconnect at one convenient point with one pending operation",
 ["client.go","stream.go"],[("recvLoop","client.go"),("clearSession/clearAsyncHandler/clearStream/closeAndClean","client.go")])
p("C14","Buffer allocation returns the requested length and appending preserves contents",
 "Malloc returns a buffer of exactly the requested length; Realloc returns the requested length and preserves the leading bytes up to the smaller length; Append and AppendString return the old bytes followed by the new ones. This holds for every size, in debug and normal mode, and a buffer handed back to the pool is never the one returned.",
 ["inputs","configurations","histories"],"all sizes, capacities and pool contents",
 "tests allocate fixed sizes from an empty pool",
 ["allocator.go","handler.go"],[("BufferPool.Malloc/Realloc/AppendString","allocator.go"),("handler.Malloc/Append","handler.go")])
p("C15","Pub/sub topics survive encoding and hostile bytes never crash decoding",
 "A topic with a non-empty name of at most 1024 bytes, any payload and any timestamp decodes from its encoded form to the same name, payload and timestamp, and encoding never changes bytes outside the topic. Decoding any byte sequence either yields a topic within those bytes or returns an error, without crashing.",
 ["inputs"],"all names, payloads, timestamps, spare capacities; all byte sequences for decoding",
 "tests publish a few short topics",
 ["extension/pubsub/topic.go"],[("Topic.toBytes/fromBytes/newTopic","extension/pubsub/topic.go")])
p("C16","Only authenticated clients use pub/sub, and subscriptions match what was asked",
 "Subscribe, unsubscribe and publish requests take effect only for a connection that presented the server's password. After a successful subscribe the connection is among the topic's receivers, after unsubscribe or disconnect it is not, re-authenticating loses no subscription, and a publish is pushed once to each current subscriber (to exactly one for publish-to-one when any exists). A client that reconnects authenticates and subscribes to every topic again, and a received publish is handed to the handler of its topic.",
 ["histories","inputs"],"all histories of authenticate, subscribe, unsubscribe, publish and disconnect over any number of topics and clients",
 "the test runs one subscriber and one publisher",
 ["extension/pubsub/server.go","extension/pubsub/topic.go","extension/pubsub/client.go"],[("onAuthenticate/onSubscribe/onUnsubscribe/onPublish","extension/pubsub/server.go"),("TopicAgent","extension/pubsub/topic.go")])
p("C17","Message coders are inverse to each other and keep the header consistent",
 "For every message, decoding what a coder encoded restores the original header attributes, method, payload and attached values, and after each step the announced body length equals the actual one. Decoding arbitrary bytes never crashes and leaves a message that carries no well-formed encoding unchanged.",
 ["inputs"],"all messages, values, names and flag positions; all byte contents for decoding",
 "tests round-trip one small message per coder or none",
 ["extension/middleware/coder/appender.go","extension/middleware/coder/gzip/gzip.go","extension/middleware/coder/msgpack/msgpack.go"],[("Encode/Decode","extension/middleware/coder")])
p("C18","Client pools and service lists hand out a member, usable whenever one exists",
 "A pool lookup by index returns the member at that index modulo the pool size, and round-robin selection returns a usable member whenever the pool contains one, visiting members in turn. A service list returns only a usable node registered under that service name, reports unreachable or not-found otherwise, and removing an address removes exactly its nodes.",
 ["inputs","histories"],"all pool sizes, counter values and member states; all node lists",
 "tests use pools of healthy clients",
 ["client.go","extension/micro/service.go"],[("ClientPool.Get/Next","client.go"),("serviceNodeList","extension/micro")])
p("C19","Transport adapters pass bytes and connections through without loss or duplication",
 "Reading from a websocket connection yields exactly the concatenation of the received messages for every sequence of read sizes, and writing passes the caller's bytes as one message. The split listener hands every accepted connection to exactly one side, to the first side exactly while it has fewer connections than its limit, and closes a connection it cannot deliver.",
 ["inputs","histories"],"all message sizes and read buffer sizes; all accept and close histories",
 "tests read one message with one matching buffer",
 ["extension/protocol/websocket/websocket.go","extension/listener/listener.go"],[("Conn.Read/Write","extension/protocol/websocket"),("Listener.Run","extension/listener")])
p("C20","Graceful shutdown refuses new requests and waits for running ones",
 "Once shutdown has begun the graceful middleware answers each new request with the shutdown error and runs no later handler for it. Every request it admitted is counted while it runs and uncounted exactly once when it ends, even if its handler panics, so shutdown waits for it.",
 ["schedules","programs"],"all interleavings of requests and shutdown, all handler behaviours including panics",
 "no test covers the middleware",
 ["extension/middleware/router/graceful.go"],[("Graceful.Handler/Shutdown","extension/middleware/router/graceful.go")])
p("C21","No operation leaves a lock held, even when user code panics",
 "Every public operation releases each lock it takes exactly once on every path, including error returns and panics raised by user callbacks it invokes. No lock is taken again by the operation that already holds it.",
 ["programs","fault_sequences"],"all control paths and all callback behaviours including panics",
 "tests never make callbacks panic at every point",
 ["client.go","server.go","stream.go","allocator.go","extension/pubsub","extension/micro"],[("sync.Mutex / sync.RWMutex use","all files")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
