"""The properties, their anchors and how each is decided. meta.py turns this into properties.jsonl and MANIFEST.json."""
P = []      # claimed
NA = []     # (property, reason)


def prop(id, title, statement, over, quant, why, files, mech, technique, note, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, technique, note))


def na(id, title, statement, over, quant, why, files, mech, reason):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    NA.append((d, reason))


TYPESTATE = "Abstract interpretation of the SSA of the current source (calls inlined per context, loops to a fixpoint) with a typestate monitor"

DATAFLOW = "Abstract interpretation of the SSA of the current source with byte-region provenance (which call, field or packet every byte came from)"

prop("C01", "A peer has proved that it owns the identity it is known by",
     "A connection shows an identity only after a signature made with the key of that identity was verified, received over the encrypted connection and covering the secret of this session and the claimed address; key and address are those the peer sent. "
     "The session secret is computed only with a key the peer proved to own, and every connection that gets ready has sent the own identity with such a signature. Callbacks and handlers see a connection only after that.",
     ["inputs", "fault_sequences"], "every path of setting up a connection, whatever the peer sends, any operation failing, in both directions",
     "Tests talk to honest peers; an accepted forgery needs an attacker's messages.",
     ["client.go", "id.go", "keys.go", "ecdh.go"], [("overlay handshake", "client.go: handshake"), ("signatures", "keys.go: PublicKey.Verify, PrivateKey.Sign"), ("identities", "id.go: Marshal, UnmarshalID")],
     DATAFLOW + " and a typestate monitor of verified signatures", "The signature scheme itself is trusted; replay between sessions is excluded by the session secret being signed.",
     observe=["Client.ID", "HandlerContext.ID", "Protocol.OnPeerConnected"])

prop("C02", "Everything but the key exchange is sent encrypted and read authenticated",
     "Messages and identities are written to a socket only after being sealed with the cipher of that connection, which is made from the session secret once and never replaced or dropped. "
     "Identities and messages are taken from received data only after it was authenticated and decrypted without error by the same cipher. A connection gets ready only with a cipher in place.",
     ["inputs", "fault_sequences"], "every path of both goroutines of a connection, whatever is received, any operation failing",
     "Plaintext on the wire goes unnoticed by tests whose two ends agree with each other.",
     ["client.go", "aead.go"], [("sending", "client.go: write, writeLoop; aead.go: encryptAEAD"), ("receiving", "client.go: read; aead.go: decryptAEAD")],
     DATAFLOW + " and a typestate monitor", "The cipher itself is trusted.", observe=["bytes written to the socket", "HandlerContext.Data", "Client.ID"])

prop("C03", "Every message is sealed with a random nonce of its own",
     "Every sealing of a message uses a nonce all of whose bytes come from one successful read of the system's randomness made for this message, used for no other, and sent along with the message.",
     ["inputs", "fault_sequences"], "every path to every sealing operation, messages of any length and number, reading randomness failing at any time",
     "A repeated nonce has no visible effect; it breaks confidentiality and authenticity silently.",
     ["aead.go", "client.go"], [("sealing", "aead.go: encryptAEAD")],
     DATAFLOW + " and a typestate monitor (random bytes are consumed by the sealing)", "That two random nonces never collide is a matter of probability.", observe=["bytes written to the socket"])

prop("C04", "Every connection has a session secret of its own, not one reflected",
     "The key of a connection's cipher is the whole result of a successful key agreement between a key pair generated at random for this connection alone and the key the peer sent, which is known to differ from the own one. "
     "The private part of that pair is not kept.",
     ["inputs", "fault_sequences"], "every path of setting up a connection, whatever the peer sends, any operation failing",
     "Reused or predictable session keys and reflected handshakes work perfectly between honest peers.",
     ["client.go", "ecdh.go", "keys.go"], [("key agreement", "client.go: handshake; ecdh.go: ECDH")],
     DATAFLOW + " and a typestate monitor", "The key agreement itself is trusted.", observe=["bytes written to the socket"])

prop("C05", "Private keys and session secrets are not disclosed",
     "No part of a node's private key, of a session's private key or of a session secret reaches a log, an error, a panic, an output or a socket, except through signing, key agreement, hashing for it, and sealing.",
     ["inputs", "fault_sequences"], "every logging, error-making, output and socket-writing call reachable from creating a node, listening, dialing and the key functions, on every path",
     "Tests do not read log output, least of all of failing paths.",
     ["node.go", "client.go", "keys.go", "ecdh.go"], [("keys", "node.go: NewNode; client.go: handshake")],
     DATAFLOW + ", taint from keys to sinks", "Logging a whole object by reference (so that the logger itself walks to the key) is not followed.", observe=["log output", "errors", "bytes written to the socket"])

prop("C06", "No more is received than the configured limit, and nothing less is refused",
     "A peer cannot make a node read or allocate more for one message than the configured limit on received messages: a longer message, announced at any stage of the connection, is refused before any of it is read or room is made for it, and the connection ends with an error that is ErrMessageTooLarge. "
     "A message that does not exceed the limit is never refused with that error. Without a limit no message is refused for its size.",
     ["inputs"], "every read of a connection, in the handshake and after it, every announced size and every limit",
     "Tests send a message or two around one limit.",
     ["client.go", "node_options.go"], [("reading a frame", "client.go: read")],
     DATAFLOW + ", linear bounds of sizes against the limit", "The limit is symbolic, up to a few bytes of framing; memory that user decoders allocate is not counted.", observe=["Client.Error", "ErrMessageTooLarge"])

prop("C07", "No peer can crash a node with what it sends",
     "Whatever bytes a peer sends, in the handshake, as a message, or in a message of the Kademlia or gossip protocols, no index or slice bound, negative length, wrong type, missing value or unset callback makes the program panic. Malformed input is reported as an error instead.",
     ["inputs", "fault_sequences"], "every index, slice, allocation, type assertion, explicit panic, optional callback call and use of a possibly missing result in the core, kademlia and gossip packages, on every path",
     "A crash needs one particular length or value at one particular place.",
     ["client.go", "msg.go", "id.go", "aead.go", "codec.go", "ecdh.go", "keys.go", "kademlia/msg.go", "kademlia/table.go", "kademlia/binary.go", "kademlia/protocol.go", "gossip/protocol.go"],
     [("decoders", "id.go: UnmarshalID; msg.go: unmarshalMessage; codec.go: decode; kademlia/msg.go"), ("handshake", "client.go: handshake"), ("bucket index", "kademlia/table.go: getBucketIndex; kademlia/binary.go")],
     DATAFLOW + ", linear inequalities between lengths, counters and sizes", "Numbers that options set are taken to be at least one where the code divides by or indexes with them; arguments the caller of the API passes are taken to be valid; panics inside other modules and user callbacks are out of scope.",
     observe=["process"])

prop("C08", "Queued messages go out in order, once each, as whole frames",
     "The messages sent on a connection are written to it in the order in which they were queued, each exactly once and none held back, until the connection fails. Every one is written as a frame that begins with the exact number of bytes that follow, and frames never interleave: a connection is written to by its handshake alone until its one writer starts, and by that writer alone afterwards.",
     ["schedules", "inputs"], "every write to a connection, every change of its queue of outgoing messages and every path of its handshake and writer, with other goroutines queueing messages whenever the lock is free",
     "Tests send few messages, mostly one at a time; a lost, repeated or reordered message needs senders that queue several while the writer is busy.",
     ["client.go", "msg.go", "aead.go"], [("queueing", "client.go: send"), ("writing", "client.go: writeLoop, write")],
     TYPESTATE + " over the frame being written and the messages taken from the queue, with byte provenance of what is sealed", "Order is decided for two representative queued messages; how the operating system transports written bytes is out of scope.",
     observe=["Node.Send", "Node.Request", "HandlerContext.Send"])

prop("C09", "Received data stays as it was received",
     "The data a handler or a waiting request is given, and the identity of the peer, lie in memory of their own: nothing the connection receives later is written into it, and no two messages share it.",
     ["histories", "schedules"], "every message a connection hands on and every read or decryption that follows, on every path",
     "Tests look at a message before the next one arrives; an overwritten message needs a handler that runs while more is received.",
     ["client.go", "msg.go", "id.go", "aead.go"], [("receiving", "client.go: recvLoop, read"), ("decoding", "msg.go: unmarshalMessage; id.go: UnmarshalID")],
     DATAFLOW + " and an ownership analysis of the memory handed on", "What handlers themselves do with the data is out of scope.",
     observe=["HandlerContext.Data", "Node.Request", "Client.ID"])

prop("C10", "A response reaches exactly the request it answers",
     "Every request waits under a non-zero number that no other request waiting on the same connection has, and returns only what arrived under that number. An arriving message that carries the number of a waiting request "
     "is delivered to that request alone and at most once; any other arriving message goes to the handlers alone. A response carries the number of the request it answers and a plain message carries none.",
     ["schedules", "histories"], "every path of requesting, responding and receiving, with any other goroutine changing the table of waiting requests outside its lock",
     "Tests use a few concurrent requests; numbers that wrap, collide or are re-used need long histories or narrow interleavings.",
     ["map.go", "client.go", "node.go", "msg.go"], [("numbering and registration", "map.go: requestMap.nextNonce"), ("matching responses", "client.go: recvLoop; map.go: requestMap.findRequest"), ("responding", "msg.go: HandlerContext.Send")],
     TYPESTATE + " tracking the table of waiting requests under its lock", "Numbers are symbolic; the peer may send any number.",
     observe=["Node.Request", "HandlerContext.Send"])

prop("C11", "A request never waits on a connection that is gone",
     "Every request ends: with the response that arrived for it, or with an error when its context ends or its connection is dropped; it never reports success without a response. "
     "When a connection gives its closed signal every request waiting on it was released and later ones are refused. Releasing and answering a request exclude each other, so neither can crash the program.",
     ["schedules", "fault_sequences"], "every path of requesting, receiving and dropping a connection, each critical section interleaved with the others in every order",
     "A request registered while the connection is being dropped hangs or crashes in a window of a few instructions.",
     ["client.go", "map.go", "node.go"], [("waiting", "client.go: request"), ("release", "map.go: requestMap.close; client.go: recvLoop, outbound, inbound")],
     TYPESTATE + " with lock-based ownership of table entries", "Critical sections are atomic; that a context eventually ends is up to the caller.",
     observe=["Node.Request", "Node.RequestMessage"])

prop("C12", "A request is answered at most once",
     "Of all attempts to respond to one request, by several handlers, copies of the context or goroutines, at most one puts a response into the outgoing queue. Every received request comes with its own, unused right to respond.",
     ["schedules", "histories"], "every path of responding, from any number of goroutines and copies of the handler context",
     "Two handlers answering at the same time overlap only rarely.",
     ["msg.go", "client.go", "node.go"], [("right to respond", "msg.go: HandlerContext.Send, sent"), ("handler contexts", "client.go: recvLoop")],
     TYPESTATE + " recognising atomic claim operations and lock-protected flags", "Decided from the claim operation, not from timing.",
     observe=["HandlerContext.Send", "HandlerContext.SendMessage"])

prop("C13", "Every received message is given to every handler, in order",
     "A received message that answers no request is given to every registered handler, one after the other in the order of registration, until one returns an error. Workers do not end before the node closes, as many run as configured, and the queue of received messages is never closed under a sender. "
     "A received message is not lost, except when the connection or the node is closing or the connection records an error.",
     ["schedules", "fault_sequences"], "every path of receiving and of the workers, for none and several registered handlers, any handler failing",
     "Tests register one or two handlers that succeed; lost messages need a particular interleaving with closing.",
     ["node.go", "client.go"], [("workers", "node.go: handle, Listen"), ("delivery", "client.go: recvLoop")],
     TYPESTATE + " following one message through queue and handlers", "The order of handlers is decided for up to two registered handlers, loops per element.",
     observe=["Node.Handle", "Handler"])

prop("C14", "Every connection signals ready exactly once, with an outcome",
     "Every connection attempt, inbound or outbound, ends its set-up exactly once: whoever waits for it is released on every path, success or failure, and at that moment "
     "either an error was recorded or the peer's identity is known. The peer's identity does not change afterwards. Every connection also gives its closed signal exactly once and last, "
     "so that waiting for a connection to be closed always returns after it ended.",
     ["schedules", "fault_sequences"], "every path of the goroutine that runs a connection, with any operation failing at any point, in both directions",
     "Tests see a successful handshake and a handful of failures; a path that forgets or repeats a signal needs a fault at one particular operation.",
     ["client.go"], [("set-up and its ready signal", "client.go: outbound, inbound, handshake"), ("closed signal", "client.go: the deferred functions of outbound and inbound")],
     TYPESTATE, "Holds for every path of the code under the modelled library behaviour; that the operations themselves return (network deadlines, user callbacks) is not decided here.",
     state=[("ready / closed signals", "channels closed once each", "client.go: Client")], observe=["Client.WaitUntilReady", "Client.WaitUntilClosed", "Client.Error", "Client.ID"])

prop("C15", "A connection that ended has released its socket and its pool slot",
     "When a connection reports itself closed, its socket was closed and it no longer occupies a slot of the pool it was registered in, whatever ended it: a failed dial, a failed handshake, "
     "a read, write or decode error, eviction, or an explicit close. After that point it neither uses the socket nor calls a callback.",
     ["fault_sequences", "schedules"], "every path of the goroutine of a connection, any operation failing at any point",
     "A leaked descriptor or slot shows only after a particular failure and many repetitions; tests exercise the clean shutdown.",
     ["client.go", "map.go"], [("cleanup of a connection", "client.go: outbound, inbound"), ("removal from the pool", "map.go: clientMap.remove")],
     TYPESTATE + " tracking the socket and the pool entry", "Path-sensitive over all paths; an entry replaced concurrently is recognised by the comparison made under the lock of the pool.",
     observe=["Node.Inbound", "Node.Outbound", "Client.WaitUntilClosed"])

prop("C16", "Closing a connection works at any moment",
     "A connection may be closed by any goroutine at any moment, during the dial, the handshake or the exchange of messages, once or several times, also concurrently: its socket gets closed, a dial in progress is given up, "
     "its goroutine does not go on waiting for data on an open socket, and its writer wakes up and stops. No wake-up of the writer is lost, whether caused by closing or by queueing a message. A connection whose writer ended, for whatever reason, is closed.",
     ["schedules"], "an explicit close interleaved at every call, channel operation and goroutine start of the goroutine of a connection; every order of closing, queueing and going to sleep",
     "Tests close established, idle connections; the failing interleavings are a few instructions wide.",
     ["client.go"], [("closing", "client.go: Client.close, attach"), ("writer wake-up", "client.go: send, close, writeLoop")],
     TYPESTATE + " and a close by another goroutine injected between any two steps; lock-based wake-up rules",
     "All interleavings of one foreign close at the call, channel and goroutine-start points of the connection's goroutine; critical sections count as atomic.",
     observe=["Client.Close"])

prop("C17", "Closing a node ends everything it started",
     "Closing a listening node closes its listener once, and returns only after every inbound and outbound connection was closed and has ended and all workers have ended; closing it again, concurrently, or without it ever having listened returns as well. "
     "Accepting ends when the listener is closed, and nothing on the way to the end can block for good.",
     ["schedules", "histories"], "every order of listening, connecting, failing and closing",
     "Tests close nodes at a few quiet moments; leaks and hangs depend on when the close happens.",
     ["node.go", "map.go"], [("closing", "node.go: Close, Listen"), ("release of the pools", "map.go: release")],
     TYPESTATE + " over the node's signals, pools and worker count", "Decided for every path. That each closed connection comes to its end is decided by C14 to C16; connections added while or after the pools are released are outside.",
     observe=["Node.Close"])

prop("C18", "Listening succeeds completely or leaves nothing behind",
     "When listening fails, for whatever reason, the opened port is closed, no goroutine was started and the node does not count as listening; a node that is listening cannot be made to listen again. "
     "When it succeeds, every protocol was bound exactly once without an error, after the node's identity, which holds its own public key, was set and before anything runs.",
     ["inputs", "fault_sequences"], "every failure point of listening, all sets of protocols",
     "Tests reach two or three of the failure points.",
     ["node.go"], [("listening", "node.go: Listen"), ("binding", "mod.go: Protocol")],
     TYPESTATE, "Decided for every path.", observe=["Node.Listen", "Node.Close"])

prop("C19", "Protocols hear of every connection once on connect and once on disconnect",
     "A connection whose set-up succeeded is announced as connected to every registered protocol exactly once, before anything received on it is delivered, and announced as disconnected exactly once to the same protocols after it ended. "
     "A connection whose set-up failed is never announced. Only callbacks that are set are called.",
     ["fault_sequences", "schedules"], "every path of the goroutine of a connection, for protocols with all callbacks set and with none",
     "Tests count callbacks for one clean connection; missing or repeated announcements appear on error paths.",
     ["client.go", "mod.go"], [("announcements", "client.go: handshake (OnPeerConnected), inbound and outbound (OnPeerDisconnected)")],
     TYPESTATE + " counting callbacks per registered protocol", "Decided for two registered protocols (both with callbacks; first without); loops over the protocols are treated per element.",
     observe=["Protocol.OnPeerConnected", "Protocol.OnPeerDisconnected", "Protocol.OnMessageRecv"])

prop("C20", "The first error of a connection is recorded, kept and readable",
     "Once a connection ended, its error is set, whatever path ended it, and it is the first error that was recorded: later errors never overwrite it. This includes errors returned by a message handler, "
     "which also close the connection, and errors of the writer. The error is stored and read under the same lock.",
     ["fault_sequences", "schedules"], "every path of the goroutines of a connection and of the workers",
     "Tests look at the error of one or two failure kinds.",
     ["client.go", "node.go"], [("recording an error", "client.go: reportError"), ("handler errors", "node.go: handle")],
     TYPESTATE + " and a lock-set condition", "Decided for every path; error values are abstract (set or not set).",
     observe=["Client.Error"])

prop("C21", "Sending reports success only for a message that was queued",
     "Sending a message or a request on a connection returns no error only if the message was put into the outgoing queue exactly once while the connection was not closed; if it was not queued, an error is returned. "
     "Closing and queueing exclude each other, so no message is accepted after the connection was closed.",
     ["schedules", "inputs"], "every path of the sending functions, every order of sending and closing",
     "The window between the check and the queueing cannot be hit reliably by a test.",
     ["client.go", "node.go"], [("queueing", "client.go: send"), ("sending functions", "node.go: Send, SendMessage, Request; mod.go: HandlerContext.Send")],
     TYPESTATE + " and a lock-set condition", "Decided for every path; what happens to a queued message when the connection breaks later is outside the property.",
     observe=["Node.Send", "Node.Request", "HandlerContext.Send"])

prop("C22", "Connection pools keep to their limits and give up the least recently used",
     "The number of pooled connections of a direction never exceeds the limit configured for that direction. When a new connection needs room, the connection of that pool that was used least recently is taken out and closed, and no other; being looked up counts as a use.",
     ["histories", "schedules"], "every history of connections being looked up, added, evicted and ending",
     "Tests fill a pool once; the limit and the order of use must hold after every history.",
     ["map.go", "node.go", "client.go"], [("pool", "map.go: clientMap"), ("limits", "node_options.go; node.go: NewNode")],
     TYPESTATE + " over the table, the order of use and the lock of a pool", "Decided as an invariant: each hold of the pool's lock keeps table and order in step and the size within the limit. That the outbound pool is bounded by the inbound limit is a known finding.",
     observe=["Node.Inbound", "Node.Outbound", "WithNodeMaxInboundConnections", "WithNodeMaxOutboundConnections"])

prop("C23", "One connection per address, run once, replaced by nobody else",
     "Sending to, requesting from or pinging an address uses the connection pooled under that address, or puts exactly one new one there, dialed to that address, also when callers race. "
     "Every pooled connection is run by exactly one goroutine, every accepted socket is handed to one or closed, and a connection that ends removes no entry but its own.",
     ["schedules", "histories"], "every interleaving of lookups, additions and removals, each atomic under the lock of its pool",
     "The races between two callers, or between an ending connection and its successor, need precise timing.",
     ["map.go", "node.go", "client.go"], [("lookup and removal", "map.go: get, remove"), ("users", "node.go: Listen, dialIfNotExists")],
     TYPESTATE + " and must-hold lock conditions", "Decided for every path and every order of the critical sections.",
     observe=["Node.Ping", "Node.Send", "Node.Request", "Node.Outbound"])

prop("C24", "Shared state is only touched under the lock that protects it",
     "What a lock of an object protects - the pools, the pending requests, the message types, the send queue, the error, the logger, the routing table, the peers a lookup visited - is read and written only while that lock is held, and changed only while it is held exclusively. "
     "No table or list that others may change is used without a lock.",
     ["schedules"], "every path of every exported function and every goroutine the module starts, whatever else runs",
     "A data race shows only when two goroutines meet at one place at one moment; the race detector sees only the schedules that ran.",
     ["client.go", "map.go", "codec.go", "kademlia/table.go", "kademlia/iterator.go", "gossip/protocol.go"],
     [("pools and requests", "map.go"), ("send queue, error, logger", "client.go"), ("message types", "codec.go"), ("routing table", "kademlia/table.go")],
     "Abstract interpretation of the SSA of the current source with must-hold lock sets; the lock that protects a field is inferred from its uses",
     "Decided for fields of objects that have a lock, where most uses hold the same lock; tables and lists that are changed need some lock at every use. Fields used only by their own goroutine, atomics and publication through channels are not part of it.",
     observe=["Client.Error", "Client.Logger", "Node.Inbound", "Table.NumEntries", "Node.RegisterMessage"])

prop("C25", "No deadlock by locks",
     "No lock is held while waiting for another goroutine, for the network or for time to pass, no function ends holding one, none is taken by a goroutine that already holds it, and locks are nested in one order only. "
     "No function of the user runs while a lock is held exclusively.",
     ["schedules", "histories"], "every path of every exported function and every goroutine the module starts",
     "A deadlock needs a certain interleaving, an early return on a rare error, or a callback that calls back.",
     ["client.go", "map.go", "node.go", "codec.go", "kademlia/table.go", "kademlia/iterator.go", "gossip/protocol.go"],
     [("pool locks", "map.go"), ("send queue lock", "client.go: send, writeLoop, close"), ("table lock", "kademlia/table.go")],
     "Abstract interpretation of the SSA of the current source with lock typestate; lock-order graph over all contexts",
     "Every path, every calling context. Waiting for a condition releases its own lock and is allowed; a send into a channel made on the same path with room for it is no wait. User code called under a shared (read) lock is not covered.",
     observe=["Node.Close", "Client.Close", "Table.Update"])

prop("C26", "Connecting yields a ready connection, or one error that everybody hears of",
     "Pinging, sending to or requesting from an address succeeds only over the connection pooled for that address, after it reported that it is ready without an error. "
     "Otherwise it is tried as often as configured, each failed connection being closed and gone before the next attempt, but not again once the context has ended, and never waits longer than the context for the outcome. "
     "When it fails, the error returned says why, and every protocol that wants to know is told exactly once of that address and error; when it succeeds none is.",
     ["inputs", "schedules", "fault_sequences"], "every path of connecting, with every outcome of every attempt and every moment at which the context ends",
     "Tests dial an address that answers or one that does not; a context that ends between attempts, or a connection that fails after another caller began to use it, needs a particular schedule.",
     ["node.go", "client.go", "map.go"], [("dialing", "node.go: dialIfNotExists"), ("users", "node.go: Ping, Send, Request")],
     TYPESTATE, "Decided for two attempts and two protocols; a context that ended is taken to say so by one of its two errors.",
     observe=["Node.Ping", "Node.Send", "Node.Request", "Protocol.OnPingFailed"])

prop("C27", "Registered types travel under their own number",
     "Every registered type has a number of its own for as long as the node exists, and is refused if it is registered already or its decoder does not fit. "
     "A message of a registered type is sent as that number followed by the whole of its own encoding, whichever call sends it, and what is received is given, whole, to the decoder registered for the number it begins with, whose value or error is what the caller gets. "
     "A message whose type or number is not registered is refused with an error, and no other is.",
     ["inputs", "histories"], "every path of registering, encoding, decoding, sending and requesting messages",
     "Tests register a type or two and exchange well-formed messages; an order of registrations, an unknown number or a failing decoder are samples of their own.",
     ["codec.go", "node.go", "msg.go"], [("registry", "codec.go: register, encode, decode"), ("users", "node.go: EncodeMessage, DecodeMessage, SendMessage, RequestMessage; msg.go: HandlerContext.DecodeMessage, SendMessage")],
     TYPESTATE + " and the byte layout of what is encoded", "Numbers are taken not to run out (65536 types); a type registered as a pointer is outside the interface as documented.",
     observe=["Node.RegisterMessage", "Node.EncodeMessage", "Node.DecodeMessage"])

prop("C28", "What is sent is read back as it was",
     "Every message that one node encodes is decoded by another node to the same value: identities with their address and port, frames with their request number and data, requests for peers, lists of peers with all their elements in order, and gossiped data. "
     "Encoder and decoder agree on the place, the length and the byte order of every part, every part is written and read whole, and what is opened is what was sealed with the nonce it was sealed with. "
     "The size an identity states is the number of bytes it is written as.",
     ["inputs"], "every value a message can hold, every path of every encoder and decoder",
     "Tests round-trip a few random values; a value with an unusual address, an empty or a full list, or data that ends where a field begins is left out.",
     ["id.go", "msg.go", "aead.go", "kademlia/msg.go", "gossip/msg.go", "client.go"],
     [("identities", "id.go: Marshal, UnmarshalID"), ("frames", "msg.go: marshal, unmarshalMessage"), ("sealed frames", "aead.go: encryptAEAD, decryptAEAD"), ("peers", "kademlia/msg.go: FindNodeRequest, FindNodeResponse"), ("gossip", "gossip/msg.go: Message")],
     DATAFLOW + ": the byte layout each encoder produces, matched against the layout each decoder reads",
     "Lists of more than 255 peers do not fit the count; protocol options keep them shorter. An address counts as one in its 16-byte form.",
     observe=["ID.Marshal", "UnmarshalID", "FindNodeResponse.Marshal", "gossip.Message.Marshal"])

prop("C29", "No socket operation goes without the configured time limit",
     "With an idle timeout configured, every wait for the next message of a peer and every write to a peer begins with a time limit set on that connection to the configured duration from that moment, and a connection on which the limit cannot be set is given up. "
     "This holds during the handshake as well as afterwards, and for every message anew. With no idle timeout configured, no limit is set.",
     ["histories", "schedules"], "every path of every goroutine that reads from or writes to a connection",
     "Tests wait for one idle connection to end; which of the many reads and writes have a limit shows only when a peer stalls at that one.",
     ["client.go"], [("reading", "client.go: read"), ("writing", "client.go: write, writeLoop")],
     TYPESTATE, "That the deadline fires is the runtime's business (N04).",
     observe=["WithNodeIdleTimeout"])

prop("C30", "Routing table stays well-formed",
     "After any sequence of updates and deletions the routing table holds every peer at most once and only in the bucket of its distance from the own identity, no bucket outgrows its size, and a peer without a public key is never stored. "
     "The number of peers the table reports equals the number it holds, what it answers to an update or deletion agrees with what it did, and the most recently seen peer of a bucket comes first.",
     ["inputs", "histories", "schedules"], "every path of every exported method of the table, any table content",
     "Tests fill a table with a few random identities and seldom fill a bucket.",
     ["kademlia/table.go"],
     [("insertion and refresh", "kademlia/table.go: Update"), ("removal", "kademlia/table.go: Delete, DeleteByAddress, Recorded"), ("bucket index", "kademlia/table.go: getBucketIndex")],
     TYPESTATE + ", list-operation effects per path",
     "Every path; distances are uninterpreted, so the distance function itself is C32's concern.",
     observe=["Table.Update", "Table.Delete", "Table.DeleteByAddress", "Table.NumEntries"])

prop("C31", "Eviction only of unresponsive peers, every event reported once",
     "When a bucket is full, its least recently seen peer loses its place only after it failed to answer a ping; a newcomer takes a place that is free, and is otherwise left out. "
     "Every admission, eviction and activity is reported exactly once to the user's callback with the peer it concerns, and a peer that connected or exchanged a message is always acknowledged to the table.",
     ["histories", "schedules", "inputs"], "every path of the overlay protocol's hooks and exported methods",
     "Tests have a handful of nodes, whose buckets are never full of peers that died.",
     ["kademlia/protocol.go", "kademlia/table.go", "kademlia/events.go"],
     [("acknowledgement", "kademlia/protocol.go: Ack"), ("hooks", "kademlia/protocol.go: Protocol, OnPeerConnected, OnMessageRecv/Sent, OnPingFailed")],
     TYPESTATE + ", event counting per path",
     "Every path of one acknowledgement; two acknowledgements at once are serialised only as far as the table's lock does it.",
     observe=["Protocol.Ack", "Protocol.Ping"])

prop("C34", "Overlay requests are answered, everything else is left alone",
     "A ping sent as a request is answered by exactly one pong, and a request for the peers closest to a key by exactly one response with the peers of the own routing table closest to that key, as many as a bucket holds. "
     "The same messages sent without asking for a response are refused with an error and not answered; messages of other protocols and ones that cannot be decoded are neither answered nor reported as errors. Pinging a node succeeds exactly if a pong came back.",
     ["inputs", "histories"], "every path of the overlay's message handler",
     "Tests send well-formed requests only, with no other protocol bound to the node.",
     ["kademlia/protocol.go"], [("handler", "kademlia/protocol.go: Handle"), ("registration", "kademlia/protocol.go: Bind")],
     TYPESTATE,
     "Every path of the handler registered by Bind; which peers are the closest is C32's concern.",
     observe=["Protocol.Handle"])

prop("C35", "Gossip reaches every known peer and no message circulates",
     "A gossiped message is sent once to every peer of the routing table not known to have it, and a peer is remembered to have a message, told apart by the whole message and the peer's whole public key, exactly if it sent it or sending it to the peer succeeded; pushing ends only after all its transmissions have. "
     "However many copies arrive and however concurrently, a node reports a message to the user with its sender and sends it on only the first time, and sends it on only if the user did not refuse it. "
     "Requests, undecodable messages and those of other protocols have no effect and are no errors.",
     ["inputs", "schedules", "histories"], "every path of pushing a message, of the handler and of the goroutines they start",
     "Tests gossip a few short messages among a few nodes, where duplicates rarely arrive at the same time and no transmission fails.",
     ["gossip/protocol.go", "gossip/events.go"],
     [("push", "gossip/protocol.go: Push"), ("receive", "gossip/protocol.go: Handle, markSeen"), ("key", "gossip/protocol.go: hash")],
     TYPESTATE + ", byte layout of keys, loop coverage",
     "Every path; the cache may forget (it is bounded), and hash collisions are taken to be impossible.",
     observe=["Protocol.Push", "Protocol.Handle"])

prop("C32", "The peers closest to a key are exactly that",
     "The peers returned as closest to a key are exactly the recorded peers other than that key's own, in order of increasing XOR distance to the key over all bytes of the public keys, cut to the number asked for; asking for the peers closest to the node itself returns as many as a bucket holds. "
     "Listing all recorded peers, the peers of a bucket, or a bucket's least recently seen peer omits no recorded peer and invents none. "
     "Distances and numbers of leading common bits are computed over all bytes of the keys.",
     ["inputs", "histories"], "every path of the table's and the distance functions' exported queries",
     "Tests compare a handful of random keys and a few recorded peers.",
     ["kademlia/table.go", "kademlia/binary.go", "kademlia/protocol.go"],
     [("queries", "kademlia/table.go: FindClosest, Peers, Bucket, Last, Entries"), ("distance", "kademlia/binary.go: XOR, PrefixLen, SortByDistance")],
     DATAFLOW + ", loop coverage, comparator analysis",
     "Every path of the queries; the sorting routine of the standard library is taken to sort by the comparator it is given.",
     observe=["Table.FindClosest", "Protocol.Discover"])

prop("C33", "A lookup asks each peer once and finds exactly those that answer",
     "A lookup asks every recorded peer among those closest to the key and every further peer named in an answer, other than the node itself and the peer looked for, exactly once, each within the configured time limit, and returns exactly the peers that answered, nearest first and at most as many as configured. "
     "It ends only after every question it asked was answered or has failed; it leaves no goroutine behind, and no answer, failure or timeout blocks it for ever. "
     "Discovery looks for the node's own key.",
     ["inputs", "schedules", "histories"], "every path of the lookup and of the goroutines it starts, under every order of answers and failures",
     "Tests look up a few nodes that all answer, in one schedule each.",
     ["kademlia/iterator.go", "kademlia/iterator_options.go", "kademlia/protocol.go"],
     [("lookup", "kademlia/iterator.go: Find"), ("questions", "kademlia/iterator.go: the goroutine asking one peer"), ("discovery", "kademlia/protocol.go: Discover, Find")],
     TYPESTATE + ", counter invariants over loops, channel-capacity reasoning",
     "Every path of the lookup; that the peers asked are reached by the network, and that the two lookups of one iterator do not overlap, is assumed.",
     observe=["Iterator.Find", "Protocol.Discover"])

prop("C36", "A node is configured exactly as it was told",
     "Every option of a node, an overlay or a lookup sets the one setting it is named for to the value it was given, or, where zero makes no sense, to a usable value instead, and changes nothing else; all options given are applied, once and in order. "
     "A setting that was set is never changed by anything else afterwards, and one that was not has the documented default. "
     "A node is made with a logger, with the private key it was given or a random one, and with the public key of that private key, or not at all.",
     ["inputs"], "every option with every value, any list of options, every path that makes a node, an overlay or a lookup, and every later change of a setting",
     "Tests use a few options with small values; an option that is clamped, dropped or overwritten only shows in what the node does much later.",
     ["node_options.go", "node.go", "kademlia/protocol_options.go", "kademlia/iterator_options.go", "kademlia/protocol.go", "kademlia/iterator.go"],
     [("options", "node_options.go, kademlia/*_options.go"), ("constructors", "node.go: NewNode; kademlia: New, NewIterator")],
     TYPESTATE, "That a setting has its effect is the business of the properties about that effect (C06, C13, C22, C26, C29, C31, C33). The default idle timeout is a known finding.",
     observe=["NewNode", "kademlia.New", "kademlia.NewIterator", "With* options"])

prop("C37", "A node announces its own address and signs with its own key",
     "A node listens at the host and port it was told to, and then has the host and port its listener was bound to. "
     "Its address is the configured one, never replaced, or, if none is configured, the one it was bound to, and the identity it announces names exactly the host and port of that address. "
     "What a node signs is the whole of what it was given, with its own key, and the identity and address it tells are the ones it has.",
     ["inputs", "fault_sequences"], "every path of listening, with every combination of configured and unset host, port and address",
     "Tests listen at one local port and look at little of the identity; a configured address behind another host or port is not tried.",
     ["node.go", "id.go", "addr.go", "keys.go"], [("listening", "node.go: Listen"), ("identity", "id.go: NewID; node.go: ID, Addr, Sign")],
     TYPESTATE, "How host names are resolved is the resolver's business. Listening at a loopback host is a known finding.",
     observe=["Node.Listen", "Node.ID", "Node.Addr", "Node.Sign"])

prop("C38", "Whatever is registered before listening takes part, also when done concurrently",
     "Every handler and every protocol registered with a node that does not listen yet is added to the end of those already registered, in order and exactly once, and no other registration made at the same time is lost. "
     "What is registered with a node that listens is ignored, and nothing ever removes or reorders what was registered.",
     ["schedules", "histories"], "every path of registering, with any concurrent registration, and every other change of what is registered",
     "Tests register one after the other; the interleaving of two registrations that loses one is a matter of a few instructions.",
     ["node.go"], [("registering", "node.go: Bind, Handle")],
     TYPESTATE, "Decided for two things registered at a time. Registering while another goroutine makes the node listen takes effect or is ignored.",
     observe=["Node.Bind", "Node.Handle"])

prop("C39", "Protocols hear of every message received and of every sending",
     "After a message or a response received on a connection was handed over, every protocol that listens for it is told exactly once, naming that connection, before the next one is read. "
     "Each time queued messages were written out to the peer, every protocol that listens for it is told exactly once, naming that connection, before the writer waits, takes more messages or ends. "
     "No protocol is told of a message that could not be decoded, or of a sending that failed.",
     ["inputs", "schedules", "fault_sequences"], "every path of the reader and the writer of every connection, with every mix of protocols that listen and do not, and every failure of a read or a write",
     "Tests register one protocol that listens for everything; which of several are told, of what, and after which failures, needs a mix of them.",
     ["client.go", "mod.go"], [("receiving", "client.go: recvLoop"), ("sending", "client.go: writeLoop")],
     TYPESTATE, "Decided for two protocols, each listening or not. A message received while the connection or the node is closing need not be handed over, and then need not be told of.",
     observe=["Protocol.OnMessageRecv", "Protocol.OnMessageSent"])

na("N01", "Both sides of a key agreement compute the same secret",
   "For any two key pairs, the secret computed from the own private key and the peer's public key is the same on both sides.",
   ["inputs"], "all key pairs", "Tests sample a few random key pairs.", ["ecdh.go"], [("key agreement", "ecdh.go: ECDH")],
   "Numeric agreement of curve arithmetic over all inputs: no static dataflow or typestate argument decides the equality of two field computations.")
na("N02", "Discovery finds a node that exists",
   "In a connected overlay, discovering peers eventually finds every reachable node close to the own identifier.",
   ["histories", "schedules"], "all overlays and message histories", "Tests use small fixed overlays.", ["kademlia/iterator.go", "kademlia/protocol.go"], [("lookup", "kademlia/iterator.go")],
   "Completeness depends on the topology and liveness of remote nodes at run time, which the source of one node does not bound.")
na("N03", "Gossip reaches every node of a connected overlay",
   "A message pushed by one node is eventually received by all nodes that stay connected.",
   ["histories", "fault_sequences"], "all overlays and fault sequences", "Tests use small fixed overlays.", ["gossip/protocol.go"], [("relaying", "gossip/protocol.go")],
   "Eventual delivery over many nodes depends on topology, timing and cache evictions of remote nodes at run time.")
na("N04", "An idle connection is closed after the idle timeout",
   "A connection on which nothing arrives is closed no earlier and not much later than the configured idle timeout.",
   ["schedules"], "all timings", "Tests sleep for fixed times.", ["client.go"], [("deadlines", "client.go: read, write")],
   "A statement about elapsed time; static analysis sees only that a deadline is set before each operation (claimed as a property of its own), not when it fires.")
na("N05", "The distance between identifiers is the XOR metric",
   "The distance between two identifiers is their bytewise XOR, and the bucket of a peer is the length of the common bit prefix.",
   ["inputs"], "all pairs of identifiers", "Tests sample a few values.", ["kademlia/binary.go"], [("distance and prefix", "kademlia/binary.go")],
   "Bit-level arithmetic identities over all inputs: deciding them needs bit-precise solving or testing, which are other families of technique.")
