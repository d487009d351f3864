#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)

S="serialization/"; T="transport/"; F="federation/"; L="lease/"; N="naming/"

prop("C01","Serialized objects decode back to an equal value",
 "For every struct value built from the supported field kinds (bool, 8- to 64-bit integers, floats, valid-Unicode strings, GUIDs, nested and embedded structs, pointers, slices, maps), encoding it and decoding the bytes into a fresh value of the same type succeeds and yields an equal value. Nil and empty collections count as equal.",
 ["inputs"],"every value of every supported field kind, alone, next to siblings, nested, embedded, behind pointers and inside slices and maps",
 "Round-trip tests use a few hand-picked constants; sign, width and zero/non-zero boundaries of each kind and each nesting are a product space they sample at a handful of points.",
 [S+"marshal.go",S+"unmarshal.go",S+"bytecompress.go",S+"common.go",S+"guid.go",S+"fabricserializationtype.go"],
 [("reflective encoder",S+"marshal.go encodeState.value"),("reflective decoder",S+"unmarshal.go decodeState.value"),("compressed integers",S+"bytecompress.go")],
 ["serialization.Marshal","serialization.Unmarshal"])

prop("C02","Encoded bytes are exactly the Service Fabric wire layout",
 "The bytes produced for a value are exactly the Service Fabric layout: one type byte per value with the empty and array bits, big-endian base-128 integers of minimal length, little-endian doubles and GUIDs, length-prefixed UTF-16LE strings, counted slices and maps, and objects framed by a size header and scope markers whose size field equals the real extent. A peer that follows the format can therefore read every object this library writes.",
 ["inputs"],"every value of each supported field kind and composition",
 "All existing tests are symmetric (encode then decode with the same code), so a change made consistently on both sides passes; no test compares bytes with the format.",
 [S+"marshal.go",S+"bytecompress.go",S+"common.go",S+"fabricserializationtype.go",S+"guid.go"],
 [("object framing",S+"marshal.go objectScopeEnd"),("type bytes",S+"fabricserializationtype.go"),("integer packing",S+"bytecompress.go writeCompressed")],
 ["serialization.Marshal"])

prop("C03","Decoding untrusted bytes is always safe",
 "Decoding any byte string into any supported struct type either succeeds or returns an error. It never panics, always terminates, and never allocates memory out of proportion to the size of the input.",
 ["inputs"],"all byte strings, truncations and corruptions included, against target types covering every supported kind",
 "Tests only decode bytes the encoder produced; malformed input is never presented.",
 [S+"unmarshal.go",S+"bytecompress.go",S+"guid.go",F+"nodeid.go",F+"nodeid_range.go"],
 [("decoder",S+"unmarshal.go decodeState.value"),("element counts",S+"unmarshal.go slice and string cases"),("object skipping",S+"unmarshal.go consumeObjectEnd")],
 ["serialization.Unmarshal"])

prop("C04","Objects from newer or older peers decode to their common fields",
 "When an object was written by a peer whose struct has more or fewer trailing fields, decoding succeeds, the leading fields both sides know get the written values, fields the writer did not have keep their prior value, and everything after that object in the enclosing data decodes unaffected. Type information attached to an object header is skipped without disturbing the fields.",
 ["inputs","configurations"],"every pair of writer and reader struct versions (extra or missing trailing fields, top level and nested) and all field values",
 "Versioning tests cover two pairs with constants at top level; none nests a versioned object before other data or carries type information.",
 [S+"unmarshal.go",S+"marshal.go"],
 [("object end skip",S+"unmarshal.go readObjectBegin/consumeObjectEnd"),("early scope end",S+"unmarshal.go struct case")],
 ["serialization.Unmarshal"])

prop("C05","Compressed integers decode exactly and consume exactly their bytes",
 "For 16-, 32- and 64-bit signed and unsigned fields, a compressed integer of any bit pattern decodes to precisely the number it denotes and decoding continues at the byte right after it, whatever follows. Encodings longer than the width allows and truncated encodings are rejected with an error.",
 ["inputs"],"all encodings up to one byte more than the maximum length for each width, followed by arbitrary bytes",
 "Tests write and read a few constants through the same code; overlong, truncated or non-minimal encodings and the position after the number are not checked.",
 [S+"bytecompress.go",S+"unmarshal.go"],
 [("decoder",S+"bytecompress.go readCompressed"),("encoder",S+"bytecompress.go writeCompressed")],
 ["serialization.Unmarshal","serialization.Marshal"])

prop("C06","GUIDs keep their identity as text and are well-formed v4 when generated",
 "Formatting a GUID gives the canonical 36-character lowercase hyphenated text, and parsing that text (in either letter case) gives back the same GUID. Text that is not of that form is rejected with an error, and generated GUIDs always carry version 4 and the RFC 4122 variant whatever the random source yields.",
 ["inputs"],"all 128-bit GUIDs, all 36-character strings plus other lengths, all random bytes",
 "No test parses or formats a GUID; round-trips of random samples would not reach digit- or field-position faults reliably.",
 [S+"guid.go"],[("text form",S+"guid.go String/GUIDFromString"),("generator",S+"guid.go NewGuidV4")],
 ["serialization.GUID.String","serialization.GUIDFromString","serialization.NewGuidV4"])

prop("C07","Messages cross a connection intact, in order, however the bytes are split",
 "Every message sent on a connection arrives exactly once at the peer's message callback with the same headers and body, no matter how the byte stream is segmented by the network; on a client connection the callbacks run in the order sent. A send whose underlying write fails reports an error.",
 ["inputs","fault_sequences"],"all header field values, body bytes, CRC settings, stream segmentations and write failures",
 "Tests send one or two fixed messages over loopback, where whole frames arrive in one read and writes never fail.",
 [T+"message.go",T+"messageheaders.go",T+"frame.go",T+"conn.go"],
 [("framing",T+"frame.go writeFrame/nextFrame"),("headers",T+"messageheaders.go writeTo/parseFabricMessageHeaders"),("receive loop",T+"conn.go Wait")],
 ["transport.Conn.SendOneWay","transport.MessageCallback"])

prop("C08","Frame checksums catch corruption",
 "With header checking enabled, a frame whose header bytes (other than the body checksum) suffered up to three flipped bits, any damage to a single byte, or any burst of up to 8 bits that does not cross an edge of the checksum byte, is never delivered. With body checking enabled, neither is a frame with any damage to four consecutive bytes of the body or to the body checksum. Frames written with checksums enabled always pass a checking reader, and checks that are configured off never reject a frame.",
 ["inputs","fault_sequences"],"all frame contents, all burst error patterns and positions, all CRC configurations",
 "One test flips one fixed byte in each part; detection must hold for every content, position and error pattern.",
 [T+"frame.go",T+"conn.go"],[("crc8 of header",T+"frame.go nextFrame/writeFrame"),("crc32 of body",T+"frame.go"),("config mapping",T+"conn.go newConnection/setTls")],
 ["transport.Conn","transport.MessageCallback"])

prop("C09","Hostile transport bytes can only end their own connection",
 "Whatever bytes a peer sends, the receive loop either delivers well-formed messages or returns an error. It never panics, never hands truncated or inconsistent data (frame lengths below the header size, header lengths beyond the frame, cut-off headers) to the application, and never allocates for a length that is illegal in a frame header.",
 ["inputs"],"all byte streams up to the bound, all cut points and all values of every length field",
 "Tests never feed a malformed frame beyond two checksum flips.",
 [T+"frame.go",T+"message.go",T+"messageheaders.go",T+"conn.go"],
 [("frame reader",T+"frame.go nextFrame"),("header parser",T+"messageheaders.go nextMessageHeader/parseFabricMessageHeaders"),("split",T+"message.go nextMessageHeaderAndBodyFromFrame")],
 ["transport.Conn.Wait","transport.MessageCallback"])

prop("C10","Messages too large for a length field are refused, never truncated",
 "If a message's headers, or any single header, are too long for the 16-bit length fields of the frame format, sending reports an error and puts nothing on the wire. Every message that is sent has length fields equal to the true sizes.",
 ["inputs"],"all header and body sizes around and beyond the 16-bit limits",
 "Tests only send tiny headers.",
 [T+"frame.go",T+"messageheaders.go"],[("frame lengths",T+"frame.go writeFrame"),("header lengths",T+"messageheaders.go writeMessageHeader")],
 ["transport.Conn.SendOneWay"])

prop("C11","Concurrent senders never interleave frames",
 "When several goroutines send on one connection at the same time, the byte stream is always a sequence of whole frames: each message appears exactly once, contiguous and undamaged. This includes replies the connection sends by itself, such as heartbeat responses.",
 ["schedules"],"all interleavings of concurrent senders at write granularity",
 "Tests have at most one sender at a time per connection.",
 [T+"frame.go",T+"conn.go",T+"message.go"],[("frame write",T+"frame.go writeFrame"),("senders",T+"conn.go SendOneWay/handleTransportMessage")],
 ["net.Conn.Write calls"])

prop("C12","Every request receives exactly its own reply",
 "A request returns the message that relates to its own identifier, whichever order replies arrive in and however requests overlap. Messages that relate to no outstanding request are delivered once to the message callback, and no reply is delivered twice.",
 ["schedules","inputs","histories"],"all interleavings of concurrent requests and reply arrivals, all identifiers",
 "Tests issue one request at a time with one matching reply.",
 [T+"requesttable.go",T+"conn.go"],[("table",T+"requesttable.go Put/Feed/Wait"),("dispatch",T+"conn.go Wait/RequestReply")],
 ["transport.Conn.RequestReply","transport.MessageCallback"],
 [("pending table","outstanding requests by message id",T+"requesttable.go RequestTable.table")])

prop("C13","Cancelled, failed or closed requests unblock and never wedge the connection",
 "A request whose context ends while it waits for its reply, whose send fails, or whose connection closes (even while its send is blocked) always returns with an error, and a reply that races with any of these never stalls the receive loop or panics: later messages are still processed and closing still completes. Closing any number of times, from any goroutine, is safe.",
 ["schedules","fault_sequences"],"all interleavings of request, reply arrival, cancellation and close",
 "Tests cancel only when no reply is in flight, so the race between cancellation and reply never occurs.",
 [T+"requesttable.go",T+"conn.go"],[("hand-off",T+"requesttable.go Feed/Wait/Close"),("close",T+"conn.go Close")],
 ["transport.Conn.RequestReply","transport.Conn.Wait","transport.Conn.Close"])

prop("C14","Heartbeats answer correctly and stale or unsolicited ones are harmless",
 "A ping succeeds when its own response arrives, even if earlier pings were cancelled or unsolicited, late or duplicate heartbeat responses came in. A received heartbeat request is answered with the same payload, and no heartbeat traffic, before or during close, can crash or block the connection.",
 ["schedules","histories","inputs"],"all orders of pings, cancellations, responses (own, stale, unsolicited) and close",
 "Tests do one successful ping and never cancel a ping with its response pending.",
 [T+"conn.go"],[("ping",T+"conn.go Ping"),("dispatch",T+"conn.go handleTransportMessage")],
 ["transport.Conn.Ping","transport.Conn.Close"])

prop("C15","Message identifiers are unique per connection and caller-chosen ones are kept",
 "Messages sent without an identifier get one that is non-empty and different from every other identifier generated on that connection, even with concurrent senders. An identifier the caller set is sent unchanged.",
 ["schedules","inputs"],"all caller-chosen identifiers and all interleavings of generating senders",
 "No test looks at generated identifiers.",
 [T+"message.go",T+"conn.go"],[("generator",T+"message.go messageFactory.Next/fillMessageId")],
 ["transport.Conn.SendOneWay","transport.NewMessageIdGenerator"])

prop("C16","Custom headers keep every value, in order, locally and across the wire",
 "Setting a custom header stores it only if absent and says so; appending adds all given values after the existing ones; reading returns exactly the stored values, first first. After sending, the receiver reads the same values in the same order per header type, decoded when a decoder is registered and as raw bytes otherwise.",
 ["inputs","histories"],"all sequences of set, append and get operations and all header contents",
 "One test sets one header once; appending is never tested.",
 [T+"messageheaders.go"],[("store",T+"messageheaders.go SetCustomHeader/AppendCustomHeader/GetCustomHeaders/GetFirstCustomHeader"),("wire",T+"messageheaders.go writeTo/parseFabricMessageHeaders")],
 ["transport.MessageHeaders"])

prop("C17","Control traffic stays internal and authentication failure is final",
 "Transport-level control messages are never delivered to the application callback and never answer application requests. After the peer reports a connection-authentication failure, the connection closes, pending requests fail, and every later send returns that failure; without an error code the connection keeps working.",
 ["inputs","histories"],"all actors, actions, error codes and message orders",
 "Authentication failure and control-message isolation have no tests.",
 [T+"conn.go"],[("dispatch",T+"conn.go Wait"),("sticky error",T+"conn.go fatalerr/SendOneWay")],
 ["transport.Conn.Wait","transport.Conn.SendOneWay","transport.MessageCallback"])

prop("C18","The TLS tunnel carries handshake bytes losslessly and reports failures",
 "During the handshake, every byte the TLS layer writes is carried inside security messages and the peer's TLS layer reads back exactly the same byte stream, whatever the read sizes; security negotiation is announced exactly once, on the first message. After the handshake bytes pass through unframed and none are lost at the switch, and a failed write is reported as an error.",
 ["inputs","fault_sequences"],"all handshake write sizes and contents, read buffer sizes, write failures",
 "The TLS test completes one handshake with ample read buffers and no failure.",
 [T+"tls.go"],[("tunnel",T+"tls.go fabricSecureConn.Read/Write")],
 ["net.Conn below and above the tunnel"])

prop("C19","The piper relays every message unchanged in both directions",
 "Each message arriving on one side of a pipe leaves on the other side with the same headers and body, in order, including the first message of an unencrypted client. For the messages after the first, a filter's replacement is sent instead when it returns one and the message is dropped when it returns none. When either side fails or sends malformed data, both sides are closed and the process survives.",
 ["inputs","fault_sequences"],"all message headers and bodies, directions, filter decisions and malformed frames",
 "The piper has no tests.",
 [T+"piper.go"],[("relay",T+"piper.go handle/pipe/copy")],
 ["net.Conn on both sides"])

prop("C20","Node IDs keep their identity as text and on the wire",
 "A node ID prints as 32 hexadecimal digits that parse back to the same ID, and serializing a node ID, a node instance or a node ID range, alone or inside other objects, preserves it exactly. Text that is not an unsigned hexadecimal number of at most 128 bits is rejected with an error. So is a field that does not hold exactly the sixteen bytes of a node ID.",
 ["inputs"],"all 128-bit IDs, all short strings",
 "The federation package has no tests.",
 [F+"nodeid.go",F+"nodeid_generator.go",F+"nodeid_range.go"],[("text",F+"nodeid.go String, nodeid_generator.go NodeIDFromHex"),("wire",F+"nodeid.go Marshal/Unmarshal, nodeid_range.go Marshal/Unmarshal")],
 ["federation.NodeIDFromHex","federation.NodeID.String","serialization.Marshal"])

prop("C21","Range containment follows the ring, wrap-around included",
 "A node ID range contains an ID exactly when walking the 128-bit ring clockwise from its begin to its end, both inclusive, passes that ID. This holds for ranges that wrap past zero as well.",
 ["inputs"],"all triples of 128-bit begin, end and id",
 "No test; the wrap-around branch needs specific 128-bit values.",
 [F+"nodeid_range.go",F+"nodeid.go"],[("containment",F+"nodeid_range.go Contains"),("128-bit compare",F+"nodeid.go cmp")],
 ["federation.NodeIdRange.Contains"])

prop("C22","Sends go to the exact node, routes to the nearest known partner",
 "A one-way send to a node goes to that node's address, or fails if the node is unknown; a routed message goes to the known partner at the smallest clockwise distance from the target identifier (the target itself if known), whatever order partners are stored in. The local node is never chosen, and choosing a route fails only when no other partner is known. An address whose connection works is not dialed again; after a failed dial, or once the connection ended, the next send or route dials again.",
 ["inputs","configurations"],"all partner sets up to the bound with arbitrary 128-bit IDs, all targets, all iteration orders",
 "No test; map iteration order and 128-bit distances are not sampled.",
 [F+"sitenode_parteners.go",F+"sitenode_sender.go",F+"nodeid.go"],[("selection",F+"sitenode_parteners.go closestPartnerNode"),("connect",F+"sitenode_sender.go connectToNode")],
 ["federation.SiteNode.SendOneWay","federation.SiteNode.Route","dialed address"])

prop("C23","Partner knowledge never moves back to an older instance",
 "For each node ID the partner list holds the information with the highest instance number received so far, under any arrival order and any concurrency of arriving messages. Information about other nodes is unaffected.",
 ["schedules","inputs","histories"],"all instance numbers, arrival orders and interleavings of concurrent updates",
 "No test; the race needs two updates overlapping between check and store.",
 [F+"sitenode_parteners.go",F+"sitenode.go"],[("update",F+"sitenode_parteners.go updatePartnerNode"),("feed",F+"sitenode.go onMessage")],
 ["federation.SiteNode.KnownPartnerNodes"],
 [("partner map","latest information per node id",F+"sitenode.go SiteNode.parteners")])

prop("C24","Generated node IDs are total, deterministic and spread by instance number",
 "The V4 generator returns an ID for every name without failing: the hash of the whole name, and for names ending in a dot or underscore followed by a decimal number the top 24 bits are replaced by an odd-multiplier spread of (role-hash offset + number) modulo 2^24. Hence instances of one role whose numbers differ modulo 2^24 get different IDs, and the same name always gets the same ID. The MD5 generator's ID is the digest of the whole name: the first eight bytes, little-endian, are the high half, the others the low half.",
 ["inputs"],"all names up to the bound and all instance numbers",
 "No test; names without separators and number boundaries are untested.",
 [F+"nodeid_generator.go"],[("generator",F+"nodeid_generator.go NodeIDFromV4Generator/pearsonHash")],
 ["federation.NodeIDFromV4Generator","federation.NodeIDFromMD5"])

prop("C25","Bootstrap returns once a routing partner is known",
 "A booting node that learns of a partner in the routing phase leaves the booting phase, and Bootstrap then returns successfully, whenever the news arrives relative to its waiting. Partners in other phases do not end booting, a seed that cannot be reached or takes long holds up neither the others nor the end, and cancelling the context always ends Bootstrap.",
 ["schedules"],"all interleavings of the bootstrap loop with partner updates and cancellation",
 "No test; the lost wake-up needs the update to arrive between sending pings and waiting.",
 [F+"sitenode_boot.go",F+"sitenode.go"],[("wait loop",F+"sitenode_boot.go Bootstrap"),("signal",F+"sitenode.go changePhase/onPartnerChanged")],
 ["federation.SiteNode.Bootstrap"],
 [("phase","boot phase of this node",F+"sitenode.go SiteNode.phase")])

prop("C26","Federation messages carry addressing and gossip, and routed replies come back",
 "Every message a site node sends carries a point-to-point header naming sender and receiver and partner headers describing itself and every live partner it knows; a routed message also carries a routing header tied to its message ID. The matching reply completes the route, an error code in it becomes an error, and a failed dial is reported and not remembered. Messages to one address share a connection until it ends.",
 ["inputs","histories","fault_sequences"],"all instances, partner sets, reply error codes and dial outcomes",
 "No test.",
 [F+"sitenode_sender.go",F+"sitenode.go",F+"message.go"],[("send",F+"sitenode_sender.go SendOneWay/Route/appendPartnerInfo"),("pool",F+"sitenode_sender.go cachedConn")],
 ["bytes on the dialed connection","federation.SiteNode.Route"])

prop("C27","Lease messages are laid out consistently and decode back",
 "An encoded lease message has correct header and total sizes, and every list descriptor designates a region inside the message that holds exactly that list, without overlap. Decoding an encoded message yields the same type, instances, durations (whole milliseconds in range), termination flag and listen endpoint.",
 ["inputs"],"all field values, list sizes and string contents up to the bound",
 "The lease package has no tests.",
 [L+"serialize.go",L+"frame.go"],[("encode",L+"serialize.go marshal/marshalLeaseBody"),("decode",L+"serialize.go unmarshal/dataAtList")],
 ["lease encoder and decoder","lease.Session.Ping bytes"])

prop("C28","Hostile lease bytes are rejected safely",
 "Whatever bytes arrive on a lease connection, framing and decoding either yield a message or an error: no panic, no unbounded recursion, and no allocation beyond what the received lengths justify. Connect frames are skipped however many arrive.",
 ["inputs"],"all byte streams up to the bound and all values of every length and offset field",
 "No test.",
 [L+"frame.go",L+"serialize.go",L+"agent.go"],[("frames",L+"frame.go nextLtFrame"),("decode",L+"serialize.go unmarshal/dataAtList")],
 ["lease agent incoming connection"])

prop("C29","A lease ping succeeds exactly when a pong for its session arrives",
 "A lease ping returns success if a ping response for its session arrives after the ping was sent, however the arrival interleaves with the wait, and otherwise returns an error when its context ends, the write fails or the session closes. Messages from other endpoints or of other types never complete it. A ping names the peer's instance as last learned from a pong, and of several sessions to one address the newest receives the pongs.",
 ["schedules","inputs"],"all interleavings of ping, pong arrival, cancellation and close",
 "No test; the lost wake-up needs the pong to arrive between write and wait.",
 [L+"agent.go"],[("ping",L+"agent.go leaseSession.Ping"),("broadcast",L+"agent.go boardcastPong/onMessage"),("dispatch",L+"agent.go handleIncoming")],
 ["lease.Session.Ping","lease.Session.LastPongTime"])

prop("C30","Closing a lease agent or server stops its accept loop and sessions",
 "After a lease agent is closed its accept loop returns, its sessions are closed and pings on them fail; after a transport server is closed its accept loop returns an error. Temporary accept errors do not stop either loop, and one connection's failure does not affect others.",
 ["fault_sequences","schedules"],"all sequences of accept results (connections, temporary and permanent errors) and close points",
 "No test closes a lease agent or injects accept errors.",
 [L+"agent.go",T+"server.go",T+"piper.go"],[("accept loops",L+"agent.go Wait, "+T+"server.go Serve, "+T+"piper.go Serve"),("close",L+"agent.go Close")],
 ["lease.Agent.Wait","transport.Server.Serve"])

prop("C31","Naming calls report the gateway's outcome, honour cancellation and never crash",
 "A naming call returns the decoded result when the gateway answers with one, an error when it answers with a failure (an error code, or for a ping an action other than a ping's), with no result or with undecodable bytes, and the context's error once its context ends while it waits for the answer. No reply, however malformed or incomplete, makes it panic.",
 ["inputs","fault_sequences"],"all reply actions, error codes and bodies up to the bound, cancellation at any point",
 "The naming package has no tests.",
 [N+"naming.go"],[("calls",N+"naming.go Ping/GetApplicationList/RegisterFilter/requestReply")],
 ["naming.NamingClient methods"])

prop("C32","Service notifications are acknowledged for what was delivered",
 "Each well-formed service notification is delivered once to the notification callback and acknowledged with a success reply that relates to its message ID. A notification that cannot be decoded is neither delivered nor acknowledged as success, and never crashes the client.",
 ["inputs"],"all notification bodies up to the bound and all message IDs",
 "No test.",
 [N+"naming.go"],[("handler",N+"naming.go onMessage")],
 ["naming.NamingClient.OnServiceNotification","reply on the connection"])

prop("C33","Filter registration sends what was asked under a unique id",
 "Registering a notification filter sends the requested name and exactly the requested prefix and primary-only options to the gateway, tied to this client's identity, and returns the id that was sent. Ids differ between registrations of one client, concurrent ones included, and any failure reply is returned as an error.",
 ["inputs","schedules"],"all names and option combinations, all interleavings of two registrations, all failure replies",
 "No test.",
 [N+"naming.go"],[("registration",N+"naming.go RegisterFilter")],
 ["naming.NamingClient.RegisterFilter","bytes on the connection"])

prop("C35","Discovery asks every node it hears of and returns the newest information",
 "Discovery asks each seed and each node it hears of for the nodes they know, also after they were heard of last, and returns exactly the seeds and the nodes heard of, each with its newest information. It comes to an end once nothing new is heard, unreachable nodes notwithstanding, and it returns the context's error promptly when its context ends.",
 ["histories","fault_sequences","schedules"],"all topologies up to the bound, unreachable nodes, arrival times of answers, cancellation at any point",
 "No test runs discovery.",
 [F+"sitenode_boot.go"],[("discovery",F+"sitenode_boot.go Discover/votePing")],
 ["federation.SiteNode.Discover"])

prop("C36","Closing a site node ends what it started",
 "After a site node is closed its Serve returns, the connections it opened are closed, those whose set-up was under way included, routes in flight fail and later sends and routes fail without opening a connection. This holds however the close interleaves with sends, routes and incoming messages.",
 ["schedules"],"all interleavings up to the bound of close with sends, routes and arriving replies",
 "No test closes a site node.",
 [F+"sitenode.go",F+"sitenode_sender.go"],[("close",F+"sitenode.go Close/Serve"),("connections",F+"sitenode_sender.go getConn/cachedConn")],
 ["federation.SiteNode.Close","federation.SiteNode.Serve","federation.SiteNode.SendOneWay","federation.SiteNode.Route"])

prop("C34","Time span conversion is exact, truncates toward zero and never flips sign",
 "Converting a duration to a time span counts whole 100 ns ticks, truncated toward zero, and converting a time span to a duration multiplies back exactly whenever the result fits. Time spans too large for a duration become the largest duration of the same sign instead of wrapping.",
 ["inputs"],"all 64-bit durations and time spans",
 "The common package has no tests.",
 ["common/time.go"],[("conversion","common/time.go TimeSpanFromDuration/ToDuration")],
 ["common.TimeSpanFromDuration","common.TimeSpan.ToDuration"])

prop("C37","The lease ping loop keeps pinging until its context ends",
 "A lease ping loop pings at once and then again and again, whatever the outcome of each ping: a ping never begins before the one before it has ended, nor less than one interval after it began, nor more than two. It returns its context's error as soon as its context ends, within a ping or between pings, and pings no more. A session's last pong time is the moment its last pong arrived, and unset before the first.",
 ["histories","schedules"],"all sequences of ping outcomes and pong arrival times up to the bound, the end of the context at any point",
 "The lease package has no tests.",
 [L+"agent.go"],[("loop",L+"agent.go PingLoop"),("pong time",L+"agent.go leaseSession.LastPongTime/boardcastPong")],
 ["lease.PingLoop","lease.Session.LastPongTime"])

prop("C38","Encoding and decoding calls do not affect each other or their inputs",
 "Encoding leaves the value as it was and decoding the bytes. The bytes one call returns and the value another fills in are the caller's own: later calls, failing ones included, and changes to any other bytes or values do not alter them. Calls in several goroutines, for the same value or bytes as well, give the same results as one after the other, without data races.",
 ["histories","schedules","inputs"],"all sequences and interleavings of calls up to the bound, over values with every kind of reference",
 "Tests make one call at a time and throw the results away.",
 [S+"marshal.go",S+"unmarshal.go"],[("encoder state",S+"marshal.go encodeState"),("decoder state",S+"unmarshal.go decodeState")],
 ["serialization.Marshal","serialization.Unmarshal"])

prop("C39","Servers hand each message to the callback and answers reach their requests",
 "Between a client and a server of this library every message is handed once to the callback that was set, together with its connection, and an answer sent over that connection completes exactly the request it relates to, in whatever order answers are sent and whichever side asked. A server callback that takes long holds up neither other messages, other connections, heartbeats nor the end of its own connection. Without a callback messages are dropped and the connection goes on.",
 ["histories","schedules","inputs"],"all orders of requests, answers and blocked callbacks up to the bound, all bodies, plain and encrypted",
 "Tests make one request at a time whose callback returns at once.",
 [T+"server.go",T+"conn.go",T+"requesttable.go",T+"client.go"],[("callback",T+"server.go onMessage"),("dispatch",T+"conn.go Wait")],
 ["transport.MessageCallback","transport.Conn.RequestReply","transport.Server.SetMessageCallback"])

prop("C40","With TLS configured nothing but the handshake passes in the clear",
 "When a client, server, piper, lease agent or site node is given a TLS configuration, everything it sends after the handshake is inside TLS, it sends no message before the handshake has succeeded, and nothing its peer sends outside TLS is delivered, answered or counted as a pong. When the handshake fails, is refused or does not take place, the caller gets an error and the connection is closed.",
 ["inputs","fault_sequences"],"all peers up to the bound: handshakes of all shapes and contents, cut off, refused or replaced by messages in the clear",
 "The TLS test completes one handshake between two well-behaved ends.",
 [T+"tls.go",T+"conn.go",T+"piper.go",L+"agent.go",F+"sitenode.go"],[("tunnel",T+"tls.go createTlsConn"),("set-up",T+"conn.go tapClientConn/tapAcceptedConn"),("lease",L+"agent.go reconnect/handleIncoming"),("site",F+"sitenode.go NewSiteNode")],
 ["bytes on the raw connection","transport.MessageCallback","lease.Session.Ping"])

prop("C41","Dialing and listening honour address and settings and leak nothing",
 "The constructors that dial or listen over TCP (client, server, lease agent, lease session, a site node's own dialer) use exactly the address given, once, and the connection works with exactly the settings and callback given. A failure to dial, listen or set the connection up is returned as an error that keeps its reason, with no half-made result, and leaves no connection open.",
 ["fault_sequences","inputs"],"all failure points of dialing, listening and set-up, plain and encrypted",
 "Tests only dial and listen successfully on the loopback interface.",
 [T+"client.go",T+"server.go",L+"agent.go",F+"sitenode.go"],[("dial",T+"client.go DialTCP"),("listen",T+"server.go ListenTCP"),("lease",L+"agent.go NewTcpListeningAgent/TcpDialer"),("site",F+"sitenode.go NewSiteNode")],
 ["transport.DialTCP","transport.ListenTCP","lease.NewTcpListeningAgent"])

prop("C42","Finished work leaves nothing behind",
 "Once a client, server, piper, lease agent, site node or naming client has been closed, its peers have gone and the contexts given to it have ended, no goroutine started on its behalf is left and every connection it used is closed. While it lives, work that has ended - requests, routes, pings and naming calls answered, failed, cancelled or expired, messages, notifications and news handled again, connections and sessions ended or replaced, dials that failed - takes up no room in it: repeating such work for ever does not let it grow.",
 ["histories","fault_sequences"],"all histories of calls, answers, cancellations, failures and ends up to the bound",
 "Tests end with the process; nothing looks at what is left.",
 [T+"conn.go",T+"requesttable.go",T+"server.go",T+"piper.go",L+"agent.go",F+"sitenode.go",F+"sitenode_sender.go",N+"naming.go"],[("requests",T+"requesttable.go"),("pings",T+"conn.go Ping"),("piper",T+"piper.go pipe"),("sessions",L+"agent.go register/unregister"),("connections",F+"sitenode_sender.go cachedConn"),("serving",F+"sitenode.go Serve")],
 ["transport.Client","transport.Server","transport.Piper","lease.Agent","federation.SiteNode","naming.NamingClient"])

prop("C43","Joining asks the nearest node once and always ends",
 "Join sends exactly one neighbourhood query, with an identifier of its own and addressed as a routed message, to the partner nearest to the node's own ID other than itself, whatever the node has heard about itself. It does not end before its answer has come, and it ends, without a panic or memory out of proportion, with its answer whatever the body or error code, and when the dial or the write fails, the context ends or the node is closed. It can be called again.",
 ["inputs","fault_sequences","histories"],"all answers, failures and moments of cancelling or closing up to the bound",
 "No test joins.",
 [F+"sitenode_join.go",F+"sitenode_sender.go",F+"sitenode.go"],[("query",F+"sitenode_join.go neighborhoodQuery"),("route",F+"sitenode_sender.go Route")],
 ["federation.SiteNode.Join"])

prop("C44","Text forms of identifiers and enumerations are total and tell values apart",
 "Every message identifier and activity identifier has the text GUID:index, the GUID in canonical form and the index in decimal, and is empty exactly when all of it is zero. Every actor, header type, node phase and serialization type, known or not, has a text, without a panic, that begins with its type's name, and different values have different texts.",
 ["inputs"],"all values, of indices those of 8 bits near both ends",
 "Tests print no such values.",
 [T+"messageheaders.go",N+"naming.go",T+"messageactortype_string.go",T+"messageheaderidtype_string.go",F+"nodephase_string.go","serialization/fabricserializationtype_string.go"],[("ids",T+"messageheaders.go MessageId.String"),("activities",N+"naming.go ActivityId.String"),("enumerations",T+"messageactortype_string.go")],
 ["transport.MessageId.String","naming.ActivityId.String","String methods"])

prop("C45","Every naming message carries an envelope of its own that the gateway can act on",
 "Every message the naming client sends, and every one NewNamingMessage returns, is for the naming gateway, has the action asked for and carries exactly one activity, exactly one protocol version (1.2) and exactly one positive timeout. The activity is a well-formed version 4 GUID at index zero, drawn anew for each message, so that no two messages of the process share one. A client keeps one identity for life, and no two clients share one. A message NewNamingMessage returns is otherwise empty and expects a reply.",
 ["inputs","histories"],"all actions and random sources, and sequences of calls and notifications at two clients up to the bound",
 "Tests look at none of these headers.",
 [N+"naming.go",T+"messageheaders.go"],[("envelope",N+"naming.go NewNamingMessage"),("identity",N+"naming.go NewNamingClient")],
 ["naming.NewNamingMessage","naming.NewNamingClient"])

prop("C46","Every connection opens with one greeting of its own",
 "The first message either end of a connection sends, plain or inside the TLS tunnel, accepted, dialed or made by the piper, is its greeting, before anything it answers or relays and whatever is already there to answer. It is a high-priority transport message without an action that announces the local address of an accepted connection (none for a dialed one), a nonce that is a version 4 GUID drawn anew for every connection, and that heartbeats are supported. Each end sends one greeting, and the peer's greeting reaches no callback.",
 ["inputs","interleavings"],"all addresses, random sources and schedules up to the bound",
 "Tests connect over loopback and never look at the greeting.",
 [T+"conn.go",T+"server.go",T+"client.go",T+"piper.go"],[("greeting",T+"conn.go sendTransportInit"),("accepting",T+"conn.go tapAcceptedConn"),("dialing",T+"conn.go tapClientConn")],
 ["transport.Connect","transport.Server","transport.Piper"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
