#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None)))

B = "websocket-base/src/"
p("W01", "Messages arrive once, in order and unchanged between two endpoints",
  "Between any client and any server of this library (sync, split sync or async on either side, through any accept path), the messages one side sends successfully are received by the other side exactly once, in the order sent, with the same kind and the same payload. If the connection is cut, what the receiver gets is a prefix of what was sent, containing every message whose bytes arrived completely before an orderly end of stream.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "every message sequence, every pairing of sync/async endpoints, every segmentation, delay, back-pressure, short read/write, interruption and cut point",
  "The tests send one or two messages over an in-memory cursor or local socket; they never vary pairing, segmentation, back-pressure, interleaving or cut point.",
  [B+"codec/ws.rs", B+"dataframe.rs", B+"message.rs", B+"ws/dataframe.rs", B+"ws/util/mask.rs", B+"ws/util/header.rs", "src/receiver.rs", "src/sender.rs", "src/client/sync.rs", "src/client/builder.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs"],
  [("one contiguous write per frame", B+"ws/dataframe.rs write_to"), ("frame decode / reassembly", B+"codec/ws.rs MessageCodec::decode, src/receiver.rs recv_message_dataframes")],
  ["messages returned by recv_message / the async Stream", "bytes on the simulated wire"])
p("W02", "What is decoded does not depend on how bytes were split up",
  "For the same bytes from the peer, an endpoint reports the same sequence of messages, dataframes and final error kind (protocol violation versus end of data) however the network cut, merged or delayed them, and whether it is read through the synchronous or the asynchronous API, by message or by dataframe.",
  ["inputs", "schedules", "configurations"],
  "every byte stream (valid or invalid) and every segmentation of it, every receive API",
  "Tests feed one whole buffer at once to one API; the number of segmentations is exponential.",
  [B+"codec/ws.rs", B+"dataframe.rs", B+"ws/util/header.rs", "src/receiver.rs", "src/client/sync.rs"],
  [("header re-read until complete, nothing consumed before a frame is whole", B+"codec/ws.rs DataFrameCodec::decode"), ("blocking reads until complete", B+"dataframe.rs read_dataframe_with_limit")],
  ["received messages and errors"])
p("W03", "An interrupted, timed-out or would-block read loses nothing",
  "When a read on a synchronous connection fails with interrupted, would-block or timed-out at any byte (a nonblocking socket or a read timeout), calling receive again later continues where it stopped: no byte of the stream is lost, duplicated or misinterpreted, so all messages still arrive intact and in order. The same holds for an asynchronous connection that is polled at arbitrary moments.",
  ["schedules", "fault_sequences", "inputs"],
  "every position at which a read fails with a retryable error, every number of retries, every frame layout",
  "No test makes a read fail part-way through a frame.",
  ["src/receiver.rs", "src/client/sync.rs", B+"dataframe.rs", B+"codec/ws.rs"],
  [("partially received message kept across calls", "src/receiver.rs Receiver"), ("codec leaves undecoded bytes in the buffer", B+"codec/ws.rs")],
  ["messages returned after retries"])
p("W04", "Fragmented messages reassemble and control frames interleave freely",
  "A message that the peer split into any number of fragments is delivered once, as the concatenation of its fragments and with the kind of its first fragment, after its final fragment. Ping, pong and close frames arriving between fragments are delivered at the moment they arrive, in order, without disturbing the message being assembled.",
  ["inputs", "schedules", "histories"],
  "every fragmentation (including empty fragments), every placement of control frames, every pause point, both receive APIs",
  "Tests cover one hand-made two-fragment case at most; interleavings of fragments, control frames and pauses are unbounded.",
  [B+"codec/ws.rs", B+"message.rs", "src/receiver.rs"],
  [("fragment buffer", B+"codec/ws.rs MessageCodec.buffer; src/receiver.rs Receiver.buffer"), ("from_dataframes", B+"message.rs")],
  ["received messages"])
p("W05", "Protocol violations surface as errors, never as messages",
  "A byte stream that breaks the framing rules (reserved bits, unknown opcode, bad masking for the role, non-minimal length, fragmented or oversized control frame, stray or missing continuation, text or close reason that is not UTF-8, one-byte close payload) makes the receiver report an error at that point that is distinguishable from the end of the stream; everything valid before it is delivered, and nothing is delivered from the offending message. Streams that obey the rules never produce such an error.",
  ["inputs", "schedules", "fault_sequences"],
  "every valid prefix followed by every violation at every position, under every segmentation, in both roles and APIs",
  "Unit tests try a few bad headers in isolation, never after arbitrary valid traffic or part-way through a message.",
  [B+"ws/util/header.rs", B+"dataframe.rs", B+"message.rs", B+"codec/ws.rs", B+"result.rs", "src/receiver.rs"],
  [("header validation", B+"ws/util/header.rs read_header"), ("message validation", B+"message.rs from_dataframes"), ("sequence validation", B+"codec/ws.rs, src/receiver.rs")],
  ["error returned to the application"])
p("W06", "Client frames are masked with fresh random keys, server frames never",
  "Every frame a client puts on the wire is masked, with a key drawn afresh and unpredictably for each frame and connection, so that unmasking yields exactly the payload given by the application; no frame a server puts on the wire is masked. Each role refuses frames that are masked the wrong way for its peer.",
  ["inputs", "configurations", "histories"],
  "every role, send API, connection and history of frames, every entropy value",
  "Unpredictability and freshness are statements over all frames of all connections; tests check one fixed key.",
  [B+"ws/util/mask.rs", B+"ws/dataframe.rs", B+"codec/ws.rs", B+"dataframe.rs", "src/sender.rs", "src/client/builder.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs"],
  [("gen_mask", B+"ws/util/mask.rs"), ("mask direction set at construction", "src/client/builder.rs, src/server/upgrade")],
  ["bytes on the wire", "error on receive"])
p("W07", "Configured frame and message size limits hold on every path",
  "The maximum frame size and maximum message size the application configures are the ones in force, on client and server, sync and async, split or not: a larger frame is refused with an error as soon as its header is in, a fragmented message whose accumulated fragments (payload plus a fixed 64 byte overhead for each, the final one not counted) pass the message limit is refused with an error, and traffic within the limits (and within the fixed cap of 1048576 fragments) is never refused. The verdict depends only on the frames received, not on segmentation or interleaved control frames, and the memory held for a message stays proportional to the limits.",
  ["inputs", "configurations", "schedules"],
  "every pair of limits, every construction path, every fragmentation around the limits, every segmentation",
  "No test configures a limit at all.",
  [B+"codec/ws.rs", B+"dataframe.rs", "src/receiver.rs", "src/client/builder.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs"],
  [("max_dataframe_size / max_message_size checks", B+"codec/ws.rs, src/receiver.rs"), ("limits handed over at construction", "src/client/builder.rs connect_on / async_connect_on; accept_with_limits")],
  ["error on receive", "bytes allocated"])
p("W08", "The client completes only on a correct handshake reply",
  "Connecting succeeds if and only if the server's reply has status 101, the accept value derived from the key this very request carried, and the Upgrade: websocket and Connection: Upgrade headers; any other status, redirect, malformed, truncated or missing reply yields an error naming that cause (status and redirect target preserved), for the sync and async client alike. A client that connects by itself connects to exactly the host and port its URL names (the scheme's port by default), and reports a name that does not resolve or a connection that is refused as an I/O error. The client never waits for bytes beyond the end of the reply's header block.",
  ["inputs", "schedules", "fault_sequences"],
  "every reply (valid, mutated, truncated at any byte), every segmentation, both clients",
  "The tests do not run the client against hostile or partial replies.",
  ["src/client/builder.rs", "src/codec/http.rs", B+"header.rs", "src/header/accept.rs", "src/result.rs"],
  [("validate", "src/client/builder.rs"), ("HttpClientCodec", "src/codec/http.rs"), ("WebSocketAccept", B+"header.rs")],
  ["result of connect_on / async_connect_on"])
p("W09", "The server offers an upgrade exactly for valid requests",
  "A server endpoint hands the application an upgrade if and only if the request is a GET with HTTP/1.1 or later, a well-formed Sec-WebSocket-Key, an Upgrade header naming websocket, a Connection header naming upgrade, and no WebSocket version other than 13; otherwise it reports the error that names the failing condition and returns the stream, the parsed request (if it parsed) and the bytes already read behind it (all of them if the request is incomplete). This holds for all ways of feeding a request (stream, pre-parsed request, hyper request, async) and any arrival pattern, and accepting replies 101 with the accept value for that request's key.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "every request (valid, mutated, truncated), every segmentation, every upgrade path",
  "A handful of fixed requests are tested, each delivered whole, through one path.",
  ["src/server/upgrade/mod.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", "src/codec/http.rs", "src/header/key.rs", "src/header/version.rs", B+"header.rs"],
  [("validate", "src/server/upgrade/mod.rs"), ("into_ws", "src/server/upgrade/sync.rs, async.rs"), ("HttpServerCodec", "src/codec/http.rs")],
  ["Ok(upgrade) or error tuple", "reply bytes"])
p("W10", "No byte is lost or duplicated where the handshake ends",
  "Bytes the peer sent right behind its handshake head, in the same or later segments, are all seen by whoever reads the connection next, exactly once and in order: the accepted or connected client, both halves after a split, the raw stream plus buffer given back by taking the client apart, the buffer returned with a refused or pending upgrade together with its stream, or the asynchronous stream given back by a rejection.",
  ["inputs", "schedules", "configurations"],
  "every amount of data pipelined behind the handshake, every segmentation, every hand-over path",
  "No test sends data in the same segment as a handshake.",
  ["src/client/sync.rs", "src/client/builder.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", "src/codec/http.rs", B+"ws/util/mod.rs"],
  [("Buffer{buf,pos,cap} hand-over", "src/server/upgrade/sync.rs"), ("update_framed_codec keeps read_buf", B+"ws/util/mod.rs"), ("split_off_http", "src/codec/http.rs"), ("into_stream / split", "src/client/sync.rs")],
  ["messages received", "buffers returned"])
p("W11", "Handshake metadata reaches the other side as given",
  "Protocols, extensions (with parameters), origin, key, version, host, path with query, credentials and custom headers set on a client are what the server's upgrade reports, and protocols, extensions and custom headers chosen by the server are what the client reports, in order and without additions or losses. Custom headers can never displace the headers the handshake itself requires.",
  ["inputs", "configurations"],
  "every builder configuration and server choice, across sync/async pairings and segmentations",
  "Tests inspect single headers in isolation, not what arrives at the other end of a connection.",
  ["src/client/builder.rs", "src/server/upgrade/mod.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", "src/header/extensions.rs", "src/header/protocol.rs", "src/header/origin.rs", "src/header/key.rs", "src/header/version.rs", "src/header/accept.rs", "src/codec/http.rs"],
  [("build_request", "src/client/builder.rs"), ("prepare_headers", "src/server/upgrade/mod.rs"), ("header parse/format", "src/header")],
  ["WsUpgrade accessors", "Client::protocols/extensions/headers", "request and reply bytes"])
p("W12", "A refused or failed send never corrupts the outgoing stream",
  "A message that cannot be sent legally (a control message over 125 bytes) is refused with an error and leaves no byte on the wire, so later messages still arrive intact. However the transport accepts bytes - short writes, interruptions, back-pressure, polling in any order - the bytes of accepted messages appear on the wire contiguous and in order, and after a transport error what is on the wire is a prefix of the correct stream.",
  ["fault_sequences", "schedules", "inputs"],
  "every write fault at every byte, every sequence of legal and illegal sends, every send API",
  "Tests write to in-memory buffers that accept everything.",
  [B+"ws/dataframe.rs", B+"ws/util/header.rs", B+"ws/util/mask.rs", B+"codec/ws.rs", "src/sender.rs"],
  [("frame assembled before a single write_all", B+"ws/dataframe.rs write_to"), ("write_header refuses long control frames", B+"ws/util/header.rs")],
  ["bytes on the wire", "send results"])
p("W13", "A cut connection ends the reader without a partial message",
  "When the peer's stream ends or resets at any byte, the receiver delivers only messages that were complete and then reports the end: an end-of-stream or no-data result or an I/O error, promptly and without hanging. A message or frame that was cut is never delivered, whole, truncated or padded.",
  ["fault_sequences", "inputs", "schedules"],
  "every cut position, orderly or reset, in every traffic pattern, both APIs and roles",
  "Tests never end a stream inside a frame or between fragments.",
  [B+"dataframe.rs", B+"codec/ws.rs", "src/receiver.rs", B+"result.rs"],
  [("short payload check", B+"dataframe.rs"), ("UnexpectedEof mapped to NoDataAvailable", B+"result.rs")],
  ["received messages, final result"])
p("W14", "Hostile bytes cannot panic, hang or exhaust an endpoint",
  "Whatever bytes a peer sends, during the handshake or afterwards, an endpoint with its input closed reaches a result - messages and then an error or end - without panicking, looping, waiting forever, or allocating memory out of proportion to the bytes received and the configured limits.",
  ["inputs", "schedules", "fault_sequences"],
  "every byte string, segmentation and end of stream, in every role, phase and API",
  "Tests feed well-formed input or single malformed headers.",
  ["src/codec/http.rs", "src/client/builder.rs", "src/server/upgrade/mod.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", "src/header/extensions.rs", "src/header/protocol.rs", B+"codec/ws.rs", B+"dataframe.rs", B+"message.rs", B+"ws/util/header.rs"],
  [("size checks before allocation", B+"dataframe.rs, codec/ws.rs"), ("hyper parser limits", "src/codec/http.rs")],
  ["panic, termination, allocation peak"])
p("W15", "Complete messages are delivered promptly; no wake-up is lost",
  "As soon as the last byte of a message has arrived, a receiver waiting for it gets it, without needing further traffic; likewise a handshake completes when its last byte has arrived, and a send that was waiting for room completes once the peer reads. This holds under any order of polls, wake-ups and arrivals.",
  ["schedules", "inputs"],
  "every arrival pattern and poll order, with the peer silent after any byte",
  "Tests always close or supply the whole input, which hides waits for bytes that will never come.",
  [B+"codec/ws.rs", "src/codec/http.rs", "src/receiver.rs", "src/client/builder.rs", "src/server/upgrade/async.rs", B+"dataframe.rs"],
  [("decode drains everything decodable before asking for more", B+"codec/ws.rs"), ("payload read bounded by declared length", B+"dataframe.rs")],
  ["messages delivered at quiescence"])
p("W16", "Split halves work concurrently and independently",
  "After splitting a connection, one thread or task may read while another writes: neither half blocks, delays or corrupts the other, data buffered before the split is not lost, and the writer keeps masking and the reader keeps its limits and partially received message. Shutting down one half stops only that direction, shutting down all stops both, and the remaining half keeps working.",
  ["schedules", "histories", "configurations"],
  "every interleaving of the two halves, every split point in the traffic, every order of shutdowns",
  "Tests do not use split halves concurrently.",
  ["src/client/sync.rs", "src/receiver.rs", "src/sender.rs", B+"stream.rs"],
  [("Client::split", "src/client/sync.rs"), ("Splittable", B+"stream.rs"), ("shutdown", "src/receiver.rs, src/sender.rs")],
  ["messages at both ends", "end of stream seen by the peer"])
p("W17", "One connection cannot stop a server from serving the others",
  "While some connections are slow, silent, invalid or aborted, an asynchronous server keeps delivering an upgrade for every connection whose valid request arrived, each with its own peer address, and reports every invalid one as an error with its stream, without ending. A synchronous server returns exactly one result per accepted connection, in order, continues after errors, and in nonblocking mode reports would-block instead of waiting when no connection is pending.",
  ["schedules", "histories", "fault_sequences"],
  "every mix and order of good, slow, silent, invalid and aborted connections and accept failures",
  "The tests make at most one connection.",
  ["src/server/async.rs", "src/server/sync.rs", "src/server/upgrade/async.rs", "src/server/mod.rs"],
  [("buffer_unordered handshakes", "src/server/async.rs incoming"), ("accept / Iterator", "src/server/sync.rs")],
  ["items of incoming() / accept()"])
p("W18", "Rejecting replies 400 and gives the connection back",
  "Rejecting an upgrade writes one complete HTTP response with status 400, the headers the application asked for and no upgrade headers of its own, and returns the connection for further use with no websocket data written; if the reply cannot be written the application gets an error (with the stream, for the sync API). Dropping an upgrade writes nothing.",
  ["fault_sequences", "inputs", "configurations"],
  "every header set, every write fault, both APIs, any following traffic on the connection",
  "Rejection is not tested over a failing or continuing connection.",
  ["src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", "src/server/upgrade/mod.rs", "src/codec/http.rs"],
  [("internal_reject", "src/server/upgrade"), ("send", "src/server/upgrade/mod.rs")],
  ["reply bytes", "returned stream"])
p("W19", "Each connect from a reused builder is a fresh, independent handshake",
  "A client builder can connect any number of times, be reconfigured, cloned, and connect again after failures: every request carries exactly the current configuration and, unless the application fixed the key, a fresh unpredictable key; no header, key or limit leaks from an earlier attempt, and a reply that answers an earlier request's key is refused.",
  ["histories", "configurations", "fault_sequences"],
  "every history of configure, connect, fail, clone and reconnect operations",
  "Tests build one request from one builder.",
  ["src/client/builder.rs", "src/header/key.rs", B+"header.rs"],
  [("build_request sets per-connection headers", "src/client/builder.rs"), ("key_set / version_set", "src/client/builder.rs")],
  ["request bytes of each connect"])
p("W20", "Everything an endpoint emits is well-formed",
  "Each message sent becomes exactly one final frame with the right opcode, no reserved bits, the minimal length encoding and the size the library predicts for it; dataframes are emitted with exactly the flags and payload given; requests and replies are well-formed HTTP/1.1 heads. An independent strict decoder accepts every byte an endpoint emits.",
  ["inputs", "configurations", "histories"],
  "every message, dataframe and configuration through every send API and role, with any write pattern",
  "Tests check a few frame headers; boundary sizes and API combinations are not covered.",
  [B+"ws/dataframe.rs", B+"ws/util/header.rs", B+"message.rs", B+"codec/ws.rs", "src/client/builder.rs", "src/server/upgrade/mod.rs", "src/codec/http.rs"],
  [("write_header", B+"ws/util/header.rs"), ("frame_size", B+"ws/dataframe.rs"), ("encoders", "src/codec/http.rs, "+B+"codec/ws.rs")],
  ["bytes on the wire"])
p("W21", "Secure connections carry the same guarantees through TLS",
  "A connection over TLS gives the same handshake, message, limit and error guarantees as a plain one. A client's connect speaks TLS exactly when the URL is wss or https (the secure methods always, the insecure ones never), on the URL's port or else its scheme's default, with the connector it was given or else the system's trust, naming the URL's host to the server; it sends no byte of its request before the server's certificate is accepted for that host (name or IP address) at the current time, and a handshake or record that fails is an error, never a connection, a hang or damaged data. A server bound with a TLS acceptor reports each failed TLS handshake as one error, keeps serving the others, and otherwise delivers upgrades, refusals, streams and addresses exactly as a plain one does.",
  ["inputs", "configurations", "fault_sequences", "schedules"],
  "every URL, certificate, clock, connector, TLS version, segmentation and TLS-level fault, for the sync and async client and server",
  "TLS is not tested.",
  ["src/client/builder.rs", "src/server/sync.rs", "src/server/async.rs", "src/result.rs"],
  [("wrap_ssl / extract_host_ssl_conn / async_connect_secure", "src/client/builder.rs"), ("bind_secure / accept / incoming", "src/server")],
  ["result of connect", "bytes on the wire", "items of incoming() / accept()"])
p("W22", "Relaying is lossless: metadata and messages pass through hops unchanged",
  "An application that receives on one connection and sends on another (a proxy, an echo server) passes on exactly what it received. Whatever representation it uses in between - an owned or a borrowed message, either converted into the other, rebuilt by kind, taken apart into opcode and payload, used as a data frame itself, serialized into memory and read back, single data frames, or fragments collected and put together - on synchronous, split or asynchronous connections and over any number of hops, each message arrives equal (kind, payload, close code and reason), in order and at most once, and all of them arrive when no connection breaks. A ping made into a pong keeps its payload, the is_* queries match the kind of message, and the predicted size is the serialized size. Header values read from one handshake and set on another (request path, protocols, extensions with their parameters, origin, version, key, custom headers) are the same on the next connection, and so are the reply's on the way back.",
  ["schedules", "fault_sequences", "histories", "inputs"],
  "every message, representation, chain of hops, schedule and header value",
  "Tests convert a few fixed values; which conversions meet depends on the path a message takes, and what survives depends on segmentation, back-pressure and cuts.",
  [B+"message.rs", B+"dataframe.rs", B+"codec/ws.rs", "src/header/extensions.rs", "src/header/protocol.rs", "src/header/origin.rs", "src/header/key.rs", "src/header/version.rs", "src/server/upgrade/mod.rs", "src/client/builder.rs"],
  [("From impls / from_dataframes / take_payload / into_pong", B+"message.rs"), ("update_framed_codec", B+"ws/util/mod.rs"), ("HeaderFormat / Header", "src/header")],
  ["bytes on the far wire", "messages received at the far end", "heads of the relayed handshake"])
p("W23", "A connection can change hands without losing anything",
  "A connection may be taken apart and carried on in another form whenever no message is half done: a client turned into its stream and buffer and rebuilt, split into its halves (at any time, even between two fragments), read through reader_mut or written through writer_mut, a framed connection given another codec with update_framed_codec while bytes are unread in its buffer and sent messages are not flushed yet, synchronous turned asynchronous and back. Whatever the sequence of such changes, and however the bytes arrive around them, the application receives exactly the messages the peer sent, each once and in order, and the peer receives exactly the messages the application sent.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "every sequence of receives, sends and changes of form, every segmentation and interruption",
  "Tests use one form per connection and flush in between; the bytes at risk are those in buffers at the moment of the change, which depends on timing.",
  ["src/client/sync.rs", B+"ws/util/mod.rs", B+"codec/ws.rs", "src/receiver.rs", "src/sender.rs", B+"stream.rs"],
  [("into_stream / split / reader_mut / writer_mut", "src/client/sync.rs"), ("update_framed_codec", B+"ws/util/mod.rs"), ("Splittable", B+"stream.rs")],
  ["messages received", "bytes written"])
p("W24", "HTTP heads pass the HTTP codecs one by one and unchanged",
  "HttpServerCodec and HttpClientCodec, used on their own, make a bare HTTP client and server: the requests and replies one side encodes are decoded by the other one by one, in order, exactly once, with the method, target, version, status, reason and every header (all its values, in order) that were given, each as soon as its last byte has arrived - however many of them are pipelined, however the bytes are cut or merged, and in whatever order sends, flushes and polls happen. What they encode is a well-formed HTTP/1.1 (or 1.0) head. Bytes behind a head stay for the next decode, so exchanging the codec for a WebSocket one after an upgrade made by hand (update_framed_codec) loses and repeats nothing, in either direction. A malformed head, or a stream that ends inside a head, is an error - never a panic, a wait, a made-up head, or an orderly end.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "every sequence of requests and replies, every pipelining, segmentation, back-pressure, poll order and cut",
  "Tests decode one head from a cursor that holds all of it; later heads, heads in pieces, data behind a head in the buffer and a change of codec are not covered.",
  ["src/codec/http.rs", B+"ws/util/mod.rs", B+"codec/ws.rs"],
  [("split_off_http: one head at a time out of the buffer", "src/codec/http.rs"), ("Encoder for HttpClientCodec / HttpServerCodec", "src/codec/http.rs"), ("update_framed_codec", B+"ws/util/mod.rs")],
  ["heads and messages decoded", "bytes on the wire"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
