#!/usr/bin/env python3
# Single source of properties.jsonl (run by hand: python3 tools/gen_properties.py)
import json, os
P=[]
WS="websocket-base/src/codec/ws.rs"; DF="websocket-base/src/dataframe.rs"; HD="websocket-base/src/ws/util/header.rs"
MK="websocket-base/src/ws/util/mask.rs"; MS="websocket-base/src/message.rs"; WDF="websocket-base/src/ws/dataframe.rs"
RX="src/receiver.rs"; TX="src/sender.rs"; CB="src/client/builder.rs"; CS="src/client/sync.rs"
HT="src/codec/http.rs"; UM="src/server/upgrade/mod.rs"; US="src/server/upgrade/sync.rs"; UA="src/server/upgrade/async.rs"
SS="src/server/sync.rs"; SA="src/server/async.rs"; ST="websocket-base/src/stream.rs"; UT="websocket-base/src/ws/util/mod.rs"
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title)); P.append(d)

p("C01","Received data does not depend on how the byte stream is split into reads",
 "The sequence of frames and messages a receiver delivers, and whether it then reports an error, is a function of the received bytes only, never of how the transport splits them into reads. Every message whose last byte has arrived is delivered without waiting for further bytes. This holds for the synchronous receiver with short reads and for the asynchronous codecs, whether driven directly or through a framed stream.",
 ["inputs","schedules"],"every byte stream of frames (legal or not) and every partition of it into reads, including single bytes and cuts inside headers, masks and payloads, with 'not ready' between any two",
 "Tests hand whole buffers (Cursor) to the decoders; no test ever cuts a frame.",
 [WS,DF,HD,RX],[("decode retries the header and waits for the whole payload",WS),("blocking exact reads",DF)],
 [("buffer","fragments of the message in progress, survives between decode calls",WS),("buffer","same for the blocking receiver",RX)],
 ["Decoder::decode","Framed::poll","Receiver::recv_message","Client::recv_message"])
p("C02","Every sent frame has the exact RFC 6455 wire form of what was sent",
 "Sending a message or data frame emits exactly one frame whose FIN bit, reserved bits, opcode and (unmasked) payload are those of the value sent, with the shortest length encoding and a size equal to the announced one; decoding it yields the value back. This holds for every payload size, however a user-defined frame type writes its payload in pieces, and for any state of the output buffer, whose earlier contents stay untouched. A control message with a payload over 125 bytes is refused and nothing at all is emitted for it.",
 ["inputs","configurations"],"every message kind and frame shape, every payload length across the 7/16/64-bit encoding boundaries, masked and unmasked, every way of splitting the payload into writes, every free capacity of the output buffer",
 "Tests check a handful of payload lengths and only empty, growing buffers.",
 [WDF,HD,MS,DF,WS,TX],[("write_to / write_header",WDF),("encode reserves frame_size",WS)],None,
 ["Sender::send_message","Sender::send_dataframe","Encoder::encode","Message::serialize"])
p("C03","Clients mask every frame with a fresh key, servers never; peers enforce it",
 "Every frame sent by a client endpoint is masked, with its own freshly generated unpredictable key, and unmasking it with that key gives the payload; no frame sent by a server endpoint is masked. A server endpoint refuses every unmasked frame and a client endpoint every masked frame, whatever the frame, without delivering its contents. Masking is the same byte-for-byte however the payload is cut into writes and however few bytes the underlying writer accepts at a time.",
 ["inputs","histories","configurations"],"every role and way of obtaining an endpoint (blocking, split, asynchronous), every opcode, payload length and position in a history of sends, all masking keys over a byte alphabet, every cut of the payload into writes",
 "Tests check one masked message with one-shot writes and never a wrongly masked frame at an endpoint.",
 [WDF,MK,DF,WS,CB,US,UA,RX,TX],[("gen_mask per frame",MK),("Masker position",MK),("should_be_masked check",DF),("roles fixed at accept/connect",CS)])
p("C04","Fragmented messages reassemble exactly, with control frames interleaved",
 "A message sent as any number of fragments, with any control frames between them, is delivered exactly once, whole and in order, and every interleaved control message is delivered in its place in the arrival order. A continuation with no message in progress, or a new data frame while one is in progress, is reported as an error and nothing made of mixed fragments is ever delivered. Frame-level reads deliver every legal wire frame, unmasked and unchanged, and iterators deliver exactly what repeated single reads do.",
 ["histories","inputs"],"every sequence of frames over an alphabet of data, continuation and control frames up to a depth, in both roles, blocking and asynchronous",
 "Tests never send a fragmented message to the receivers; only the conversion function sees two fragments.",
 [RX,WS,MS,"websocket-base/src/ws/receiver.rs"],[("recv_message_dataframes state machine",RX),("MessageCodec::decode state machine",WS)],
 [("buffer","fragments so far",RX),("buffer","fragments so far",WS)],["recv_message","incoming_messages","Decoder::decode"])
p("C05","Frames illegal under RFC 6455 are refused, and no input crashes a receiver",
 "A frame with a non-minimal length, a control frame that is fragmented or longer than 125 bytes, a message using a reserved opcode and a message using a reserved bit are reported as errors and never delivered as messages, at any position in the stream and in either role. Every legal frame header is accepted. No byte sequence makes a receiver panic, overflow or abort.",
 ["inputs","histories"],"every first/second header byte and every extended-length boundary value, in both roles, in every receiver state; all short byte strings over a header-relevant alphabet",
 "Tests cover two or three bad headers, always as the first frame.",
 [HD,DF,MS,RX,WS],[("read_header checks",HD),("from_dataframes checks",MS)])
p("C06","A truncated stream yields exactly its complete messages, then ends",
 "If the connection ends after any prefix of the bytes, exactly the messages completed within that prefix are delivered, never a partial, padded or repeated one. Afterwards a blocking receiver reports that no more data is available, and an asynchronous one ends cleanly when the cut is at a frame boundary and reports an error when it is inside a frame. Reading again after the end neither blocks, panics nor delivers data.",
 ["crash_points","inputs"],"every stream in a family and every byte position at which the connection may end, with and without preceding chunking",
 "Tests never end a stream inside a frame.",
 [DF,HD,RX,WS,"websocket-base/src/result.rs"],[("end of file mapped to NoDataAvailable","websocket-base/src/result.rs"),("length check after body read",DF)])
p("C07","Text and close payloads are validated exactly",
 "A text message is delivered if and only if the concatenation of its fragments is valid UTF-8, even when a character spans fragments, and it is delivered unchanged. A close message is delivered as empty when it has no payload, as its 16-bit code and text reason when it has at least two bytes and the reason is valid UTF-8, and is otherwise reported as an error that cannot be mistaken for lack of data. Binary, ping and pong payloads are delivered byte for byte whatever they contain.",
 ["inputs"],"all byte strings over a UTF-8-boundary alphabet up to a length, all ways to fragment them, all close codes, all short close payloads",
 "Tests use ASCII text in a single frame.",
 [MS,UT],[("from_dataframes",MS),("bytes_to_string",UT)],None,["OwnedMessage","Message::from_dataframes"])
p("C08","Configured frame and message size limits always bind",
 "A frame whose declared payload exceeds the configured frame limit is refused as soon as its header is known, without waiting for or buffering its payload. A message whose unfinished fragments, counted with a fixed overhead per fragment, exceed the configured message limit, or whose fragment count exceeds the built-in maximum, is refused and never delivered, regardless of chunking and of interleaved control frames. Whatever stays below the limits is accepted, and limits given to a client builder or to an accepting server are the ones enforced on the resulting connection.",
 ["inputs","configurations","histories"],"limits around every boundary, every entry point that takes limits, every sequence of fragment sizes and control frames up to a depth, every chunking",
 "No existing test sets a limit.",
 [RX,WS,DF,CB,US,UA],[("size accounting in recv_message_dataframes",RX),("size accounting in MessageCodec::decode",WS),("limits passed to the connection",CB)],
 [("current_message_length","recomputed on every call from the buffered fragments",WS)])
p("C09","A server upgrades a request if and only if it is a valid WebSocket handshake",
 "Every server entry point accepts an HTTP request exactly when it is a GET of HTTP/1.1 or later whose Upgrade header names websocket, whose Connection header contains the upgrade token, which carries a 16-byte base64 key and which, if it declares a WebSocket version, declares 13; tokens compare case-insensitively wherever they stand in their lists. All entry points decide alike. A refusal names the first failed requirement and does not write anything to the peer.",
 ["inputs","configurations"],"the product of variants of method, HTTP version, Upgrade, Connection, key and version headers (absent, valid, invalid, listed, repeated, case-changed), for every entry point",
 "Tests check a few requests, each with one fault, at one entry point.",
 [UM,US,UA],[("validate",UM)],None,["sync IntoWs::into_ws","async IntoWs::into_ws","HyperRequest","RequestStreamPair","validate"])
p("C10","The server's handshake response is correct for every accept or reject",
 "Accepting writes exactly one response head: status 101, one Sec-WebSocket-Accept computed from the client's key, Connection and Upgrade headers that confirm the upgrade, the chosen protocols and extensions in order and the caller's other headers, whatever the caller's headers contain; nothing precedes it and nothing follows but frames. Rejecting writes a 400 response that carries no upgrade confirmation of its own and returns the stream. No protocol, extension or header value supplied by the caller can add a header or end the head early.",
 ["inputs","configurations"],"all sequences of protocol/extension choices up to a depth, custom header sets that collide with mandatory ones or contain line breaks, all accept and reject variants, all server entry points",
 "Tests inspect one accept response.",
 [UM,US,UA,HT],[("prepare_headers",UM),("send",UM),("HttpServerCodec encode",HT)])
p("C11","The client's handshake request is well formed for every builder history",
 "Whatever builder operations precede it, connecting writes exactly one request head: GET of the URL's path and query, one Host naming the URL's authority, Connection upgrade, Upgrade websocket, one version and one 16-byte key, plus exactly the protocols, extensions, origin, credentials and custom headers left in effect by the operations. The key is the configured one, or else fresh for every connection. The blocking and asynchronous clients write the same head, and no string supplied by the caller can add a header or end the head early.",
 ["histories","inputs"],"all sequences of builder operations up to a depth, a family of URLs, repeated connections from one builder, blocking and asynchronous",
 "Tests look at a builder after two or three operations and never at the bytes sent.",
 [CB,HT,"src/header/protocol.rs","src/header/key.rs"],[("build_request",CB),("HttpClientCodec encode",HT)],
 [("key_set, version_set","whether the caller fixed the key or version",CB)])
p("C12","A client connects only on a genuine upgrade response",
 "The client reports success exactly when the response is a 101 whose Sec-WebSocket-Accept matches the key it sent, whose Upgrade header names websocket and whose Connection header contains the upgrade token, compared case-insensitively. Any other final response is an error: a redirect with its status and location, any other status with its status. The blocking and asynchronous clients decide alike.",
 ["inputs"],"the product of variants of status, Accept, Upgrade, Connection and Location, with fixed and generated keys, blocking and asynchronous",
 "Tests connect to well-behaved peers only.",
 [CB,"websocket-base/src/header.rs"],[("validate",CB),("WebSocketAccept::new","websocket-base/src/header.rs")])
p("C13","No byte is lost or duplicated between handshake and connection",
 "Bytes that the peer sends right after its handshake are delivered as frames exactly once, in order, however they are split around the end of the head, on clients and servers, blocking and asynchronous. Splitting a connection, taking its stream apart with the buffered bytes, or changing the codec of a framed stream keeps every received but unread byte and every byte not yet written. A refused but well-formed request is returned together with the remaining bytes.",
 ["inputs","schedules"],"every partition of (head, pipelined frames) into reads, heads and pipelines across buffer-size boundaries, every conversion taken at every point",
 "Tests never pipeline data behind a handshake.",
 [US,UA,CB,CS,UT,HT,"src/server/mod.rs"],[("BufReader parts carried over",US),("read_buf carried over",UA),("update_framed_codec",UT),("split / into_stream",CS)])
p("C14","Handshake header codecs are exact inverses and compute the RFC accept value",
 "For every 16-byte key the accept value is base64(SHA-1(key text + GUID)). Formatting then parsing gives back every key, accept, version, origin, protocol list and extension list with parameters and values, and parsing then formatting is stable. Text that is not exactly 16 (20) base64-encoded bytes is refused as a key (accept value), and no input crashes a parser.",
 ["inputs"],"a covering set of keys, all strings over the base64 alphabet boundary up to a length, all extension and protocol lists over a grammar up to a depth",
 "Tests check the RFC's sample key and one extension list, under a feature that compares text only.",
 ["websocket-base/src/header.rs","src/header/key.rs","src/header/accept.rs","src/header/extensions.rs","src/header/protocol.rs","src/header/version.rs","src/header/origin.rs"],
 [("WebSocketAccept::new","websocket-base/src/header.rs"),("Extension::from_str","src/header/extensions.rs")])
p("C15","The two directions of a connection are independent, split or not",
 "For every interleaving of sends and receives, what is sent and what is received equals what each direction gives alone. Splitting at any point of that history, including in the middle of a fragmented message, changes nothing that is sent or delivered afterwards and keeps the roles and limits. Shutting down one direction leaves the other working, and shutting down both ends both.",
 ["schedules","histories"],"all interleavings of short send and receive histories, all split points, all orders of shutdown calls on split and unsplit connections",
 "Tests never split a connection and never shut one down.",
 [CS,RX,TX,ST],[("split",CS),("Reader/Writer",RX),("shutdown functions",TX)])
p("C16","Transient and hard I/O faults on a blocking connection are handled exactly",
 "Short reads, short writes and interrupted calls are invisible: every message is sent and delivered exactly once. A would-block or timeout that strikes between frames, even between fragments of a message, is reported and loses nothing: calling again continues as if it had not happened. A hard error is reported by the call it hits, what has been written is a prefix of the correct bytes, and no message is ever delivered that was not completely received.",
 ["fault_sequences","histories"],"every placement of up to a bounded number of faults (short, interrupted, would-block, error) over every read and write call of a history of sends and receives",
 "Tests run on in-memory cursors that never fail.",
 [RX,DF,HD,WDF,MK,CS],[("fragments kept across calls",RX),("write_all of one composed frame",WDF)])
p("C17","One connection attempt never blocks, corrupts or ends the server for others",
 "An asynchronous server completes every connection attempt whose handshake is complete, however many others are unfinished, invalid or gone and in whatever order their bytes arrive, and pairs each upgrade with its own peer's address and request. A failed attempt is reported as an error of that attempt only and accepting continues. A blocking server yields one result per connection, in order, and keeps accepting after failed ones.",
 ["schedules","histories"],"all interleavings of the handshake steps of two to three clients of different kinds (complete, stalled, invalid, disconnecting), plain and TLS",
 "Existing examples are not tests; no test accepts two connections.",
 [SA,SS,UA,US],[("buffer_unordered of independent handshakes",SA),("accept",SS)])
p("C18","The URL scheme and connect method decide transport security, with no fallback",
 "A secure scheme (wss, https) through the generic connect, or any explicit secure connect, never sends a byte of the handshake except inside a TLS session verified for the URL's host, and fails if that cannot be established. Any other scheme through the generic connect, and any explicit insecure connect, sends the handshake in clear to the URL's host and port. A missing port means 443 for secure and 80 for insecure connections.",
 ["configurations","fault_sequences"],"all schemes, all connect methods (blocking and asynchronous), explicit and default ports, peers that speak TLS with a good, wrong or untrusted certificate, speak clear text, or close",
 "No test opens a network connection from the client.",
 [CB],[("is_secure_url",CB),("extract_host_port",CB),("wrap_ssl",CB)])
p("C19","A client and a server of this library always understand each other",
 "For every pairing of blocking and asynchronous endpoints and every delivery schedule of the transport, the handshake completes and each side receives exactly the messages the other sent, in order, until closure, without deadlock. Agreed protocols and extensions are seen identically on both sides.",
 ["schedules","histories"],"all 2x2 pairings, all delivery schedules of a bounded duplex pipe up to a deviation bound, histories of messages in both directions",
 "No test connects the library's client to its server.",
 [CB,CS,US,UA,WS,RX,TX,HT],[("handshake and codecs on both sides",WS)])
p("C20","A handshake always resolves: success, error, or waiting for more bytes",
 "On a server or client, blocking or asynchronous, a peer that ends the stream or fails at any byte of its handshake produces an error, never success, a hang or a panic. A complete head is always decided when its last byte arrives, however it was split, and equally by the blocking and asynchronous parsers, including heads with leading blank lines or too many headers. Malformed heads are reported as errors.",
 ["crash_points","inputs","schedules"],"every prefix of a family of request and response heads followed by end-of-stream or an error, every split of a head, malformed and oversized heads",
 "Tests feed complete, well-formed heads in a single read.",
 [HT,UA,US,CB],[("split_off_http and parse",HT),("into_ws",UA),("connect_on",CB)])
p("C21","Message and frame values convert losslessly",
 "Converting between borrowed messages, owned messages, data frames and raw payloads loses and changes nothing: type, close code, reason and payload survive any chain of conversions, and every representation announces the size and emits the bytes of the same wire frame. Turning a ping into a pong keeps its payload and fails, changing nothing, for every other type. Type predicates agree with the message type.",
 ["inputs"],"all message types, payloads over a boundary alphabet, close with and without code and reason, all chains of conversions up to a depth",
 "Tests convert two samples.",
 [MS,DF,WDF],[("From impls",MS),("take_payload / write_payload / size",MS)])
p("C22","An asynchronous connection delivers sends exactly once and never stalls",
 "Over an asynchronous transport that accepts any number of bytes at a time, is not ready at arbitrary moments, or fails, the bytes written are exactly the concatenation of the frames of the accepted messages, in order, or a prefix of it if the transport failed, and a completed flush means all were written. A poll reports 'not ready' only when the transport did, so no complete message or unsent byte is left waiting without a wakeup. A refused message leaves the connection usable and emits nothing.",
 ["schedules","fault_sequences"],"all placements of partial writes, 'not ready' answers and errors up to a deviation bound over histories of sends, flushes and receives",
 "Tests use in-memory cursors that are always ready.",
 [WS,UT,UA,CB],[("MessageCodec encode",WS),("update_framed_codec keeps both buffers",UT)])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
