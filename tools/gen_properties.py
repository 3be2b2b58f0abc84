import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

SER=["serialization/marshal.go","serialization/unmarshal.go"]
p("S01","Every supported value survives encode and decode",
 "Any value of a supported shape (booleans, 8 to 64 bit integers, floats, strings, GUIDs and node ids, pointers, nested and embedded structs, slices and maps of these) that is encoded and then decoded into the same type yields an equal value, empty and absent collections counting as the same. The decoded result does not depend on what the destination held before.",
 ["inputs","programs"],"all Go types built from the supported kinds, all values of them, all prior contents of the destination",
 "The tests round-trip about ten hand-written structs with a handful of values; they never vary the type, boundary values, map or slice sizes, or a dirty destination.",
 SER+["serialization/bytecompress.go","serialization/common.go","serialization/guid.go"],
 [("value encoder","serialization/marshal.go encodeState.value"),("value decoder","serialization/unmarshal.go decodeState.value"),("integer packing","serialization/bytecompress.go")],
 observe=["serialization.Marshal","serialization.Unmarshal"])
p("S02","Encoded bytes follow the Service Fabric binary layout",
 "The bytes produced for any value are exactly the protocol's: one type byte per field in declaration order, zero values as a single empty-flagged type byte, 16 to 64 bit integers as the shortest big-endian 7-bit groups with sign extension, strings as counted UTF-16 little-endian units, and objects as an exact-size header between begin and end markers. Conversely every byte string conforming to that layout, including objects that carry type information, decodes to the value it describes.",
 ["inputs","programs"],"all supported types and values in the encode direction; all conforming encodings, with and without type information, in the decode direction",
 "The tests only check that the library agrees with itself, so an encoder and decoder that drift together (and stop interoperating with real clusters) still pass.",
 SER+["serialization/bytecompress.go","serialization/fabricserializationtype.go"],
 [("object header and scope markers","serialization/marshal.go objectScopeEnd"),("type bytes","serialization/fabricserializationtype.go"),("type information skipping","serialization/unmarshal.go readObjectBegin")],
 observe=["serialization.Marshal","serialization.Unmarshal"])
p("S03","Older and newer versions of a type read each other's data",
 "When the writer's type has more trailing fields than the reader's, the reader gets every shared field and stays in step with whatever follows the object; when the reader's type has more, it gets every shared field and the missing ones stay zero. This holds for top-level objects and for objects nested as fields, behind pointers, in slices and in map values.",
 ["inputs","programs"],"all pairs of types where one's fields are a prefix of the other's at any nesting level, all values",
 "Four fixed version pairs are tested, all at the top level or followed by nothing, so losing sync after a nested newer object is not exercised.",
 SER,[("skip to object end by declared size","serialization/unmarshal.go consumeObjectEnd"),("stop at scope end","serialization/unmarshal.go decodeState.value struct case")],
 observe=["serialization.Unmarshal"])
p("S04","Decoding hostile bytes never crashes, hangs or exhausts memory",
 "For any byte string and any supported destination type, decoding terminates with a value or an error, never a panic, using time and memory bounded by a modest multiple of the input's length. Data nested too deep for the stack is refused with an error. Every strict prefix of a valid object encoding is rejected with an error.",
 ["inputs"],"all byte strings (random, truncated, mutated valid encodings, forged counts and sizes), all supported destination types",
 "No test decodes malformed bytes; the bytes come from remote peers.",
 SER+["serialization/bytecompress.go"],[("length and type checks on every read","serialization/unmarshal.go decodeState.value"),("maximum group count","serialization/bytecompress.go readCompressed")],
 observe=["serialization.Unmarshal"])
p("S05","Unsupported types and mismatched wire kinds are refused, not garbled",
 "Encoding a type outside the supported set, or anything but a pointer to a struct (or raw bytes), returns an error and no panic. Decoding a non-empty field whose wire type is of a different kind than a destination field of integer, boolean, floating point, string, GUID or node id kind, or a slice of strings, pointers or structs, returns an error instead of a value.",
 ["inputs","programs"],"all unsupported Go kinds at any depth; all ordered pairs of incompatible wire kind and destination kind at any field position",
 "No test covers a mismatch or an unsupported kind.",
 SER+["serialization/guid.go","federation/nodeid.go"],[("kind checks","serialization/unmarshal.go decodeState.value"),("unsupported kind errors","serialization/marshal.go value, writeEmpty")],
 observe=["serialization.Marshal","serialization.Unmarshal"])
p("S06","Custom-marshalled types compose anywhere in a structure",
 "Whatever sequence of type bytes, fixed-size binary items and compressed unsigned integers a custom-marshalled struct type writes, it reads the same sequence back, wherever the type appears (field, pointer, slice element, map key or value). Its neighbours are unaffected.",
 ["inputs","programs"],"all sequences of encoder primitives with all operand values including zero, in all positions",
 "One custom type with one digit is tested in one position.",
 ["serialization/common.go"]+SER+["federation/nodeid.go","federation/nodeid_range.go"],[("custom marshaler dispatch","serialization/common.go castToMarshaler"),("primitives","serialization/marshal.go, serialization/unmarshal.go")],
 observe=["serialization.Encoder","serialization.Decoder"])
p("S07","GUID text form is exact and strictly parsed",
 "The text of any GUID is the canonical 8-4-4-4-12 lower-case hexadecimal form and parsing it (in any letter case) gives back the same GUID; any string that is not in that form is rejected with an error. Freshly generated GUIDs are random version 4 identifiers and do not repeat.",
 ["inputs"],"all 128-bit values, all strings",
 "No test touches GUID text or generation.",
 ["serialization/guid.go"],[("formatting","serialization/guid.go String"),("parsing","serialization/guid.go GUIDFromString"),("generation","serialization/guid.go NewGuidV4")])
p("C01","Time spans convert without sign flips or loss beyond one tick",
 "Converting any duration to a protocol time span and back loses less than 100 nanoseconds, toward zero. Converting any time span to a duration preserves sign and order, saturating at the largest and smallest representable duration.",
 ["inputs"],"all 64-bit durations and time spans, including the protocol's maximum span",
 "There is no test of the package.",
 ["common/time.go"],[("conversions","common/time.go")])

TR=["transport/message.go","transport/messageheaders.go","transport/frame.go","transport/conn.go"]
p("T01","Messages arrive once, in order and unchanged",
 "Every message a peer sends on a healthy connection is handed to the receiver exactly once, in sending order, with the same identity, correlation, actor, action, flags, error, retry count, custom headers and body. This holds however the byte stream is cut into reads and whatever sizes the headers and body have. A server runs its callback once per message concurrently, so there the order of the callbacks is not promised.",
 ["inputs","histories"],"all sequences of messages with arbitrary headers, registered and unregistered custom headers and bodies; all segmentations of the byte stream",
 "Tests send one tiny message per connection over loopback and check one header sample in memory.",
 TR+["transport/client.go"],[("framing","transport/frame.go nextFrame, writeFrame"),("header codec","transport/messageheaders.go writeTo, parseFabricMessageHeaders"),("read loop","transport/conn.go Wait")],
 observe=["MessageCallback","Conn.SendOneWay"])
p("T02","Frames and message headers follow the wire format",
 "Every frame written carries its exact total length, header-section length and security provider, the checksums the configuration asks for (zero otherwise), and headers encoded as id, length and payload of the values set on the message, with default-valued optional headers left out. Frames built independently to that format, with headers in any order and unknown headers present, are understood, and a new plain connection announces itself first with a transport init message.",
 ["inputs","configurations"],"all messages and checksum configurations in the send direction, all conforming frames in the receive direction",
 "The tests only check the library against itself, so a change made to both directions is invisible.",
 TR,[("frame header","transport/frame.go writeFrame"),("message headers","transport/messageheaders.go"),("init message","transport/conn.go sendTransportInit")],
 observe=["bytes on the net.Conn"])
p("T03","Corrupted frames are never accepted when checksums are on",
 "With header (and body) checksums enabled on both sides, a frame in which a burst of up to 8 bits of its covered header (or up to 32 bits of its body) was changed is never delivered and ends the connection with an error; uncorrupted frames always pass. With checking disabled, a wrong checksum alone never causes rejection.",
 ["inputs","configurations","fault_sequences"],"all messages, all bit bursts at all positions, all checksum configurations",
 "One byte at two fixed positions is flipped in one message.",
 ["transport/frame.go","transport/conn.go"],[("CRC8/CRC32 verification","transport/frame.go nextFrame"),("configuration mapping","transport/conn.go newConnection")])
p("T04","Malformed peer data ends only that connection, never the process",
 "Whatever bytes a peer sends, a client, server or proxy never crashes, and buffers no more than a modest multiple of what it received. A malformed frame (impossible length, header section longer than the frame, truncated or undecodable headers, truncated frame) delivers nothing and ends that connection with an error, while frames before it are delivered and other connections keep working.",
 ["inputs","fault_sequences"],"all byte streams, all cut points, all forged length fields, on client, server and proxy",
 "No test sends malformed frames apart from two checksum flips.",
 ["transport/frame.go","transport/message.go","transport/messageheaders.go","transport/server.go","transport/piper.go"],[("frame and header parsing","transport/frame.go nextFrame, transport/messageheaders.go parseFabricMessageHeaders"),("per-connection goroutine","transport/server.go handle")])
p("T05","Concurrent senders never corrupt each other's messages",
 "When any number of goroutines send one-way messages, requests, pings and heartbeat replies on the same connection at once, every message arrives intact exactly once, and the messages of each goroutine arrive in its order.",
 ["schedules","inputs"],"all interleavings of any number of senders on one connection, plain or secured",
 "No test sends from two goroutines at once.",
 ["transport/frame.go","transport/conn.go","transport/tls.go"],[("frame write","transport/frame.go writeFrame"),("message id allocation","transport/message.go messageFactory")])
p("T06","Each request gets its own reply and nothing else",
 "A reply is delivered to exactly the outstanding request it relates to, whatever order replies come in; duplicate, late, unrelated or uncorrelated messages never complete a request and go to the message callback exactly once each. The request is sent with a reply expected and with an identity that no other outstanding request has.",
 ["histories","schedules"],"all sets of concurrent requests and all reply orders, duplications and strays",
 "Tests have a single outstanding request and an immediate reply.",
 ["transport/requesttable.go","transport/conn.go"],[("request table","transport/requesttable.go Put, Feed"),("dispatch","transport/conn.go Wait")],
 state=[("pending requests","requests waiting for a reply, by message id","transport/requesttable.go")])
p("T07","Requests always end: reply, cancellation or connection end",
 "A request returns an error as soon as its context ends or its connection is closed locally, closed by the peer or broken, including when that happens before, while or after it is sent, and after that new requests and sends fail instead of hanging. A reply that arrives for an abandoned request never stalls the connection: later messages and requests on it still work.",
 ["histories","schedules","fault_sequences"],"all orders of send, reply, cancel, close and failure across concurrent requests",
 "Two fixed cases with one-second sleeps are tested; a reply racing with a cancellation is not.",
 ["transport/requesttable.go","transport/conn.go"],[("wait and cleanup","transport/requesttable.go Wait, Close"),("close order","transport/conn.go Close")])
p("T08","Heartbeats are answered faithfully and cannot be used to harm",
 "Every heartbeat request is answered with a heartbeat response carrying the same body, and a ping succeeds only on the response to itself, failing when its context or the connection ends. Unsolicited, duplicate, late or malformed heartbeat responses never complete another ping, break the connection, crash the process or reach the message callback. Waiting for a peer that is slow to read the answers holds up nothing else the connection receives.",
 ["histories","inputs","fault_sequences"],"all sequences of pings, responses, stray responses, cancellations and closes",
 "One ping and one heartbeat request are tested.",
 ["transport/conn.go"],[("ping","transport/conn.go Ping"),("transport messages","transport/conn.go handleTransportMessage")],
 state=[("outstanding ping","the tick a ping waits for","transport/conn.go")])
p("T09","Message identities are never reused",
 "Messages sent without an identity get one that no other message of that connection or of any other connection or generator has, under any concurrency; an identity set by the caller is kept as it is, and only the one whose GUID and index are both zero counts as not set. An identity's text is its GUID and its index, so different identities read differently.",
 ["schedules","histories"],"all concurrent uses of any number of connections and generators",
 "No test looks at assigned identities.",
 ["transport/message.go","federation/sitenode_sender.go"],[("id generation","transport/message.go messageFactory.Next, fillMessageId")])
p("T10","Custom headers accumulate and read back in order",
 "Setting a custom header keeps the first value and reports whether it was stored; appending adds values after those already present; reads return all values in order, or the first, and nothing for absent types. What was set and appended is what the receiver sees for that header type, typed when an activator is registered for it and raw bytes otherwise.",
 ["histories","inputs"],"all sequences of set, append, get and get-first over any header types and values, then send and receive",
 "One set and two gets are tested; append is not.",
 ["transport/messageheaders.go"],[("custom header store","transport/messageheaders.go SetCustomHeader, AppendCustomHeader, GetCustomHeaders"),("activators","transport/messageheaders.go RegisterHeaderActivator")])
p("T11","A server keeps its connections apart",
 "A server serves any number of concurrent clients: each request's reply reaches only the client that sent it, and clients connecting, failing or disconnecting at any moment never disturb others or stop the server from accepting. Temporary accept failures are survived, and closing the server ends serving.",
 ["histories","schedules","fault_sequences"],"all histories of connects, requests, disconnects and faults over any number of clients",
 "Two sequential clients are tested.",
 ["transport/server.go","transport/conn.go"],[("accept loop","transport/server.go Serve"),("per-connection handling","transport/server.go handle")])
p("T12","A proxy forwards traffic unchanged and only what its filter allows",
 "Through the proxy, every message from either side reaches the other side once, in order, with headers and body unchanged; with a filter, exactly the messages it returns are forwarded, as it returned them, and the dropped ones are not. When either side ends, or no upstream can be found, the other side is closed too.",
 ["histories","inputs","fault_sequences"],"all two-way message sequences, filters, configurations, and end points",
 "The proxy has no test.",
 ["transport/piper.go"],[("pump","transport/piper.go copy"),("teardown","transport/piper.go pipe"),("upstream choice","transport/piper.go handle")])
p("T13","Secured connections carry the same guarantees as plain ones",
 "With TLS configured on both sides, the handshake is tunnelled in framed security messages (the first one announcing the negotiation), after which messages and requests flow in both directions unchanged, for any TLS version, certificate configuration and stream segmentation. A handshake that is refused, cut off or fails to write returns an error instead of hanging or yielding a connection.",
 ["configurations","inputs","fault_sequences"],"all TLS versions and certificate configurations, message sizes, segmentations, and failure points of the handshake",
 "One handshake with one message is tested.",
 ["transport/tls.go","transport/conn.go"],[("handshake framing","transport/tls.go fabricSecureConn"),("checksum policy","transport/conn.go setTls")])
p("T14","A rejected connection reports why and stops working",
 "When the peer reports a connection authentication failure, the connection is closed, outstanding requests fail, and every later send or request fails with an error that shows the error code and the peer's message. Authentication messages without an error do not affect the connection.",
 ["inputs","histories"],"all error codes and messages at any point of a history",
 "No test covers rejection.",
 ["transport/conn.go"],[("ConnectionAuth handling","transport/conn.go Wait")])
p("T15","Messages that cannot be represented are refused cleanly",
 "Sending a message whose body or custom header cannot be encoded, or whose headers do not fit the format's 16-bit lengths, returns an error, puts nothing on the wire, and leaves the connection usable for other messages. A message that does fit is never refused for its size.",
 ["inputs","histories"],"all unencodable bodies and headers and all header sizes around the limits, between valid messages",
 "No test covers unencodable or oversized messages.",
 ["transport/messageheaders.go","transport/message.go","transport/frame.go"],[("header length fields","transport/messageheaders.go writeMessageHeader, transport/frame.go writeFrame"),("marshal before write","transport/message.go writeMessageWithFrame")])

LE=["lease/agent.go","lease/frame.go","lease/serialize.go"]
p("L01","Lease pings follow the lease wire layout",
 "Every ping is one lease frame holding one well-formed ping request: exact sizes and offsets, the configured lease duration as expiry, this session's lease instance, the peer instance last learned, and the agent's own listening host and port, even when pings run concurrently on a session. An agent greets every accepted connection with a connect frame.",
 ["inputs","configurations","schedules"],"all agent configurations and addresses, all learned instances, all concurrent pings",
 "The package has no tests.",
 LE+["lease/message.go"],[("frame writer","lease/frame.go writeDataWithFrame"),("message writer","lease/serialize.go marshal")])
p("L02","A lease ping succeeds only on a pong from that peer",
 "A ping whose request could be written returns success exactly when a ping response naming the session's endpoint arrives after it was started, however soon; otherwise it returns an error once its context ends, the session or agent is closed, or sending it fails. The last-pong time and the learned peer instance change only through such responses. The ping loop keeps pinging about once per interval, whatever single pings give, until its context ends, whose error it returns.",
 ["histories","schedules","fault_sequences"],"all interleavings of pings, responses from any endpoint, other message types, cancellations, closes and write failures",
 "The package has no tests.",
 LE,[("pong broadcast","lease/agent.go onMessage, boardcastPong"),("endpoint lookup","lease/agent.go handleIncoming")],
 state=[("session table","sessions by peer address","lease/agent.go")])
p("L03","Malformed lease traffic is harmless",
 "Whatever bytes arrive at a lease agent, it does not crash, recurse without bound or buffer more than a modest multiple of what was received; the offending connection is dropped on a malformed frame or message and other connections keep working. Well-formed messages, including those whose endpoint lies at the very end and connect frames in any number, are accepted.",
 ["inputs","fault_sequences"],"all byte streams, forged sizes and offsets, cut points",
 "The package has no tests.",
 ["lease/frame.go","lease/serialize.go","lease/agent.go"],[("frame reader","lease/frame.go nextLtFrame"),("message reader","lease/serialize.go unmarshal, dataAtList")])
p("L04","Lease sessions and agents open and close cleanly",
 "An established session can be found by its address until it is closed (any open one when there are several), and closing an old session to an address leaves a newer one to the same address working. Serving outlives temporary accept errors. After an agent is closed, its sessions are closed, establishing fails (also when it was under way, leaving no open connection), and its serving loop returns.",
 ["histories"],"all sequences of establish, find, re-establish, ping, close session, close agent",
 "The package has no tests.",
 ["lease/agent.go"],[("session table","lease/agent.go Establish, Find, Close"),("accept loop","lease/agent.go Wait")])

p("F01","Ring ranges contain exactly the ids between their ends",
 "A range contains an id exactly when walking up the 128-bit ring from its start meets the id no later than its end, both ends included, also when the range wraps past the top of the ring. Ranges and ids survive encoding.",
 ["inputs"],"all triples of 128-bit start, end and id",
 "The package has no tests.",
 ["federation/nodeid_range.go","federation/nodeid.go"],[("containment","federation/nodeid_range.go Contains"),("128-bit comparison","federation/nodeid.go cmp")])
p("F02","Node id text round-trips and bad text is rejected",
 "The text of any node id is its 32-digit hexadecimal form and parses back to the same id; shorter forms without leading zeros and any letter case parse to the same number. Text that is not a hexadecimal number of at most 128 bits is rejected with an error.",
 ["inputs"],"all 128-bit ids, all strings",
 "The package has no tests.",
 ["federation/nodeid_generator.go","federation/nodeid.go"],[("parsing","federation/nodeid_generator.go NodeIDFromHex"),("formatting","federation/nodeid.go String")])
p("F03","Node ids derived from names match the cluster's and stay spread out",
 "Ids derived from a name are a pure function of it and equal those Service Fabric derives (both by MD5 and by the version 4 scheme) for any name, never failing; a name without a numeric instance suffix gets the plain hash. For names that differ only in their instance number modulo 2^24 the ids' top 24 bits are all different.",
 ["inputs"],"all names: any role name, separator and instance number, and names without them",
 "The package has no tests.",
 ["federation/nodeid_generator.go"],[("version 4 scheme","federation/nodeid_generator.go NodeIDFromV4Generator"),("hash","federation/nodeid_generator.go pearsonHash")])
p("F04","Messages go to the right partner node",
 "A routed message is sent to the known partner (never the node itself) met first when walking up the ring from the target id, the target itself included; a direct message is sent only to the partner whose id equals the target and otherwise fails as not found.",
 ["inputs","histories"],"all sets of known partners and all target ids, including ties, wrap-around and single partners",
 "The package has no tests.",
 ["federation/sitenode_parteners.go","federation/sitenode_sender.go"],[("closest partner","federation/sitenode_parteners.go closestPartnerNode"),("exact match","federation/sitenode_sender.go connectToNode")])
p("F05","Partner knowledge only moves forward",
 "The known partner table holds the seeds plus, for every node ever heard of on any connection, the newest information heard: that of the highest instance number, and of the latest phase for the same instance. Announcements that are not newer, in any order or concurrently, never change what is known.",
 ["histories","schedules"],"all sequences and interleavings of announcements about any nodes with any instance numbers, over any connections",
 "The package has no tests.",
 ["federation/sitenode_parteners.go","federation/sitenode.go"],[("partner update","federation/sitenode_parteners.go updatePartnerNode"),("announcement intake","federation/sitenode.go onMessage")],
 state=[("partners","known nodes by id","federation/sitenode.go")])
p("F06","Bootstrap completes exactly when a routing node is heard",
 "Bootstrapping pings every seed, keeps retrying, and returns success once any partner is known to be in the routing phase, whenever that news arrives relative to the pings; it never succeeds before, and returns the context's error if that ends first. A later phase of an instance already known counts as news.",
 ["histories","schedules","fault_sequences"],"all timings and orders of seed replies, unreachable seeds, phases announced, cancellation",
 "The package has no tests.",
 ["federation/sitenode_boot.go","federation/sitenode.go"],[("boot loop","federation/sitenode_boot.go Bootstrap"),("phase change signal","federation/sitenode.go changePhase")])
p("F07","Federation messages carry the sender's identity and knowledge",
 "Every direct or routed message carries an identity, the point-to-point header from this node's instance to the chosen partner's instance, marked as direct and for exactly that instance, or as routing and for whichever instance has taken its place (and when routed the routing header from this node to the same partner's instance with the same message identity, expecting a reply, with no expiry of its own: the caller's context decides), and partner headers describing this node first (its instance, addresses and phase) and then every known partner with a non-zero instance. The caller's own headers and body are unchanged.",
 ["inputs","histories"],"all partner tables, targets and messages",
 "The package has no tests.",
 ["federation/sitenode_sender.go","federation/message.go"],[("stamping","federation/sitenode_sender.go appendPartnerInfo, SendOneWay, Route")])
p("F08","One live connection per partner, replaced when it dies",
 "Messages to one partner address share a single connection however many are sent concurrently; a failed dial returns an error and is tried again by the next message; after a connection ends the next message dials anew. Closing the node closes its connections, and messages sent afterwards or meanwhile open no other that stays.",
 ["histories","schedules","fault_sequences"],"all histories of sends, dial failures, disconnects and close, sequential and concurrent",
 "The package has no tests.",
 ["federation/sitenode_sender.go"],[("connection cache","federation/sitenode_sender.go getConn, cachedConn")])
p("F09","Routed requests return their own reply, or an error",
 "A routed request returns the reply that relates to it on whichever connection it arrives, returns an error together with the reply when that reply carries an error code, and returns the context's error if none arrives; unrelated messages never complete it.",
 ["histories","schedules"],"all concurrent routed requests, reply orders, arrival connections, error codes, cancellations",
 "The package has no tests.",
 ["federation/sitenode_sender.go","federation/sitenode.go"],[("site request table","federation/sitenode_sender.go Route, federation/sitenode.go onMessage")])
p("F10","Discovery pings everyone it learns of and reports them all",
 "Discovery sends a vote ping to every seed and every node it learns of while running, and returns, once nothing new is heard, each of those nodes exactly once with the newest information heard, without the node itself. What is heard within five seconds of the first pings is always included. Newest means the highest instance, and the latest phase of the same instance.",
 ["histories","schedules"],"all topologies of who announces whom, with delays and unreachable nodes",
 "The package has no tests.",
 ["federation/sitenode_boot.go"],[("discovery rounds","federation/sitenode_boot.go Discover")])

p("N01","Gateway replies are reported faithfully, failures as errors",
 "A gateway ping returns the gateway description sent and an application query returns exactly the applications sent, in order, and asks for exactly the name given. Any failure reply, error code, unexpected action of a ping reply, missing result or undecodable body is returned as an error and never crashes the client.",
 ["inputs","fault_sequences"],"all gateway descriptions, application lists, error codes and malformed replies",
 "The package has no tests.",
 ["naming/naming.go"],[("ping","naming/naming.go Ping"),("query","naming/naming.go GetApplicationList"),("failure replies","naming/naming.go requestReply")])
p("N02","Naming calls end with their context or connection",
 "Every naming client call returns an error promptly once its context ends or the connection is lost, whatever step of the exchange it is in, and never hangs.",
 ["histories","fault_sequences"],"all calls, all steps of their exchanges, cancellation and connection loss at each",
 "The package has no tests.",
 ["naming/naming.go"],[("context passing","naming/naming.go requestReply")])
p("N03","Service notifications are acknowledged once and delivered intact",
 "Every service notification request received is acknowledged exactly once, with a success reply relating to it, and handed to the notification callback exactly once with the content the gateway sent (in no promised order); other messages, and notifications that cannot be decoded, are not acknowledged and do not reach the callback.",
 ["inputs","histories"],"all notification contents and message sequences",
 "The package has no tests.",
 ["naming/naming.go"],[("notification intake","naming/naming.go onMessage")])
p("N04","Notification filters are registered with unique ids and exact content",
 "Registering a filter first announces the client and then registers the given name and flags under the client's identity, returning the id used on the wire; ids are never reused by a client, under any concurrency, and a failure at either step is returned as an error.",
 ["inputs","schedules","fault_sequences"],"all names and flags, concurrent registrations, failures at each step",
 "The package has no tests.",
 ["naming/naming.go"],[("registration","naming/naming.go RegisterFilter")])
p("F11","Joining asks the neighbourhood and ends with its answer",
 "Joining sends one neighborhood query with an identity of its own, routed to the node's own position on the ring, which is the known partner next above it, and ends without an error when the reply relating to the query holds a global lease. It returns an error when nobody can be asked or connected to, when the reply carries an error code or cannot be decoded, and the context's error when that ends first; messages that do not relate to the query never end it.",
 ["inputs","histories","fault_sequences"],"all partner tables, replies, dial failures and cancellations, repeated joins",
 "The package has no tests.",
 ["federation/sitenode_join.go","federation/sitenode_sender.go"],[("query","federation/sitenode_join.go neighborhoodQuery"),("join","federation/sitenode_join.go Join")])
p("F12","Knowledge spreads between nodes with every message",
 "When a message from one node reaches another, that one afterwards knows the sender (its instance, address, lease address and phase) and every node with a non-zero instance the sender knew, as newly as the sender did, and keeps what it knew that is newer; nodes know nothing nobody told them. This holds over any history of messages between several nodes, restarts with new instances or addresses, and bursts of concurrent messages.",
 ["histories","schedules"],"all sequences of messages, announcements, restarts and bursts among up to five nodes",
 "The package has no tests.",
 ["federation/sitenode.go","federation/sitenode_sender.go","federation/sitenode_parteners.go"],[("telling","federation/sitenode_sender.go appendPartnerInfo"),("hearing","federation/sitenode.go onMessage"),("keeping","federation/sitenode_parteners.go updatePartnerNode")])
p("F13","Nodes reach each other over TCP with their own TLS settings",
 "A node without a dialer of its own connects to its partners' addresses over TCP, secured with its client TLS configuration when it has one, so that nodes that only share a seed learn each other's transport and lease addresses and can then send to one another directly. A node that does not trust another one gets an error and tells it nothing. A serving node serves both its addresses, so whoever dials its lease agent is greeted with a connect frame. Closing a node ends its serving and frees both its addresses.",
 ["inputs","histories","configurations"],"all sequences of messages among up to four nodes, plain and TLS",
 "The package has no tests.",
 ["federation/sitenode.go","transport/client.go","transport/server.go","lease/agent.go"],[("default dialer","federation/sitenode.go NewSiteNode"),("serving and closing","federation/sitenode.go Serve, Close")])
p("T16","Servers and clients work over TCP",
 "A server listening on a TCP address reports the address it can be dialed at; clients that dial it, plain or TLS, exchange messages, requests, replies and pings with it in both directions, and the end of one side ends the other with errors without concerning other clients. Listening at an address in use, dialing an address where nobody listens, and dialing something that cannot be spoken to securely return errors, and a failed dial leaves no connection open. Closing the server ends serving and frees the address.",
 ["inputs","histories","fault_sequences","configurations"],"all TLS and checksum configurations, client counts, message sizes and orders of ending",
 "The existing tests use in-memory connections, or one loopback exchange.",
 ["transport/client.go","transport/server.go"],[("dialing","transport/client.go DialTCP"),("listening","transport/server.go ListenTCP, Serve, Close")])
p("T17","Server handlers may take their time and use the connection",
 "A message handler of a server may take any time, block, send messages, and make requests and pings over the connection its message came on and wait for the answers: it is called once per message, as soon as the message is there, whatever other handlers are doing, it gets its own answers, and its message stays as it was.",
 ["histories","schedules"],"all mixes of handlers that sleep, block, ask, ping and tell, from several clients",
 "The existing server test has one handler that answers at once.",
 ["transport/server.go","transport/conn.go"],[("handlers run on their own","transport/server.go onMessage"),("requests within handlers","transport/conn.go RequestReply, Wait")])
p("T18","What has ended leaves nothing behind",
 "Once a connection, a server, a proxied session, a lease session or agent, a naming client or a federation node has ended (closed by its user, left by its peer, or failed), no goroutine it started keeps running or waits forever and the network connections it used are closed; a connection handed to Connect stays the caller's when Connect fails, and a connection a closed server or agent has already accepted ends with its peer. What is over takes no memory while the rest goes on: finished, failed and cancelled requests and pings, received messages, disconnected clients, ended sessions, and dials that failed.",
 ["histories","schedules","fault_sequences"],"all histories of connections, servers, proxies, leases, naming clients and nodes, however they end; long repetitions of any one operation",
 "No test looks at what is left over: goroutines, connections and table entries leak silently and only show after days of uptime.",
 ["transport/conn.go","transport/client.go","transport/server.go","transport/requesttable.go","transport/piper.go","lease/agent.go","naming/naming.go","federation/sitenode.go","federation/sitenode_sender.go"],
 [("read loop and close","transport/conn.go Wait, Close"),("pending requests","transport/conn.go RequestReply, Ping"),("server connections","transport/server.go Serve, Close"),("sessions","lease/agent.go"),("pool of peers","federation/sitenode_sender.go")])
p("L05","Lease agents work over TCP",
 "A lease agent listening on a TCP address reports the address it can be dialed at and puts it into its pings; whoever dials it is greeted with a connect frame, and answers given there complete the pings of the sessions with that peer, plain or TLS. Listening at an address in use and establishing a session with nobody are errors, pings fail once the peer has reset the connection or the session is closed, and closing the agent ends its sessions and its waiting and frees the address.",
 ["inputs","histories","fault_sequences"],"all orders of sessions, pings, peer failures and closes, plain and TLS",
 "The package has no tests.",
 ["lease/agent.go"],[("listening","lease/agent.go NewTcpListeningAgent"),("dialing","lease/agent.go TcpDialer")])
p("N05","Naming messages are marked as the gateway expects",
 "Every message made by NewNamingMessage or written by a naming client, acknowledgements included, is addressed to the naming gateway with the given action, expects a reply, and carries exactly one activity with a fresh random id and index zero, one client protocol version 1.2 and one positive timeout, besides the headers the caller added. No two messages share an activity, under any concurrency. An activity is empty only when its id and its index are both zero, and its text is the two of them.",
 ["inputs","schedules"],"all mixes of calls of several clients and messages made by hand",
 "The package has no tests.",
 ["naming/naming.go"],[("marking","naming/naming.go NewNamingMessage")])
p("N06","A gateway built on the server serves many naming clients",
 "A gateway built on this library's server and messages serves any number of naming clients at once, plain or TLS: each call returns the answer given to that very call of that very client, registrations arrive once, notifications pushed to a client reach its callback once and only its own, and are acknowledged once, and a client that ends mid-call gets errors and leaves the others working.",
 ["histories","schedules","configurations"],"all sequences of connects, calls, storms of concurrent calls, pushes and ends",
 "The package has no tests.",
 ["naming/naming.go","transport/server.go","transport/conn.go"],[("calls","naming/naming.go requestReply"),("notifications","naming/naming.go onMessage"),("serving","transport/server.go Serve")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
