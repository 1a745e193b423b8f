#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (edit the list below, not the output)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

GEN = "message/messages.gen.go"
NOGEN = "The existing tests never encode or decode a generated message: they only sample two or three values per primitive."
NOROOT = "The root package has no test that runs without a live Kafka broker (one integration test, one topic, one caller)."
HOOK = "verif build tag: an in-memory dial so a check owns the transport and the schedule"

prop("C01", "Encoded messages match the Kafka wire layout for every API and version",
 "For every request and response type, every protocol version the library declares for it and every field value, encoding writes exactly the bytes of the Kafka wire layout for that version: the fields that exist in that version, in protocol order, big-endian, with length-prefixed strings, bytes and arrays. Fields that do not exist in that version contribute no bytes, whatever value they hold.",
 ["inputs", "configurations"], "all 98 message types x all declared versions x all field values (integer extremes, empty/null/long strings and bytes, nested arrays of any shape)",
 NOGEN, [GEN, "message/encoder.go"],
 [("generated per-version field guards", GEN), ("primitive encoders", "message/encoder.go")],
 observe=["bytes written by Encode on any message type"])

prop("C02", "Decoding valid wire bytes restores every field and consumes exactly the message",
 "For every request and response type and declared version, decoding the wire bytes of a value yields exactly that value in all fields of that version (a null string decodes as empty, a null array or byte field as nil or empty), leaves fields outside that version at zero, and consumes exactly the message's bytes and nothing after them. In particular decoding what the library encoded gives back what was encoded.",
 ["inputs", "configurations"], "all message types x all declared versions x all field values, including null-able wire encodings a broker may send",
 NOGEN, [GEN, "message/decoder.go"],
 [("generated decoders", GEN), ("primitive decoders", "message/decoder.go")],
 observe=["fields of the decoded value", "the next value read from the same decoder"])

prop("C03", "Computed size equals the number of bytes encoded",
 "For every message type, version and value, the size the library computes equals the number of bytes encoding that value writes at that version; the same holds for each primitive size helper and its encoder. Request frames are length-prefixed with this size, so any disagreement desynchronises the connection.",
 ["inputs", "configurations"], "all message types x declared versions x values; all primitive values including multi-byte text, null arrays and 64-bit variable-length integers",
 "sizeof tests compare a few hand-picked constants; no test compares a message's size with its encoding.",
 [GEN, "message/sizeof/sizeof.go", "message/encoder.go", "gen.broker.go"],
 [("Size methods", GEN), ("size helpers", "message/sizeof/sizeof.go")],
 observe=["Size result vs bytes written"])

prop("C04", "Decoding any bytes never panics and allocates in proportion to the input",
 "Decoding any bytes as any message type at any version returns a value or an error: it never panics, never loops forever, and never allocates memory out of proportion to the input, however wrong the embedded lengths and counts are. When the bytes are a valid encoding followed by anything, the valid value is returned.",
 ["inputs"], "all byte strings: random, and valid encodings corrupted by hostile lengths (negative, just too large, huge), bit flips, insertions and deletions",
 "No test feeds a decoder malformed input other than an empty buffer.",
 ["message/decoder.go", GEN],
 [("remaining-bytes check before each read", "message/decoder.go remains"), ("array length check", "message/decoder.go ArrayLength")],
 observe=["return value, panics and allocation of Decode"])

prop("C05", "A truncated message is always reported as insufficient data",
 "If only a strict prefix of a message's bytes is available, decoding fails with an error that is recognised as 'insufficient data'; it never succeeds with a partial value. Bytes beyond the declared length are never read, even when the underlying buffer is longer and holds stale data.",
 ["inputs"], "all message types x versions x values x every truncation point, with arbitrary stale bytes behind the declared length; the same for each primitive decoder",
 "TestDecoder_remain only tries a zero-length buffer for each primitive.",
 ["message/decoder.go", GEN],
 [("remaining-bytes check", "message/decoder.go remains"), ("IsInsufficientDataError", "message/decoder.go")],
 observe=["error returned by decoders"])

prop("C06", "Primitive encoders and decoders are exact inverses in any sequence",
 "Any sequence of primitive values (booleans, fixed-width integers, variable-length integers, strings, nullable strings, byte fields, arrays, variable-length bytes and strings, record headers) written by one encoder is read back by one decoder as the same values in the same order, for all contents including null, empty, arbitrary (also non-UTF-8) bytes and 64-bit extremes. Resetting a decoder makes it behave as new, and discarding n bytes skips exactly n bytes.",
 ["inputs", "histories"], "all sequences of primitive operations x all values; encodings compared with an independent model of the Kafka primitive types",
 "Tests check one primitive at a time on a fresh encoder and decoder with two or three values.",
 ["message/encoder.go", "message/decoder.go"],
 [("Put* methods", "message/encoder.go"), ("read methods", "message/decoder.go")],
 observe=["decoded sequence", "bytes on the target writer"])

prop("C07", "A write failure during encoding is sticky, reported, and nothing follows it",
 "If the underlying writer fails at any point while a value is being encoded, no further bytes are written to it, flushing the encoder returns that failure, and the bytes accepted before are a prefix of the correct encoding; later successful-looking writes never clear the failure. Without a failure, flushing reports success only when a buffered target was flushed successfully.",
 ["fault_sequences", "inputs"], "all messages and primitive sequences x every write call or byte position that may fail (persistently or once)",
 "TestEncoder_err pre-sets the error and checks one call of each primitive; no write failure is ever injected mid-encoding.",
 ["message/encoder.go"],
 [("sticky error field", "message/encoder.go")],
 state=[("err", "first write failure", "message/encoder.go Encoder")],
 observe=["calls received by the target writer", "Flush result"])

prop("C08", "The ring buffer delivers the written byte stream intact and in order",
 "With one writer and one reader, the concatenation of all bytes read from a ring buffer is exactly the prefix of the concatenation of all bytes written, for every buffer size, every division into writes and reads (including writes larger than the buffer) and every interleaving of the two goroutines. A read never returns bytes that have not been written yet and a write never overwrites unread bytes.",
 ["schedules", "inputs", "histories"], "all ring sizes, write/read chunkings and statement-level interleavings of one reader and one writer",
 "TestStress runs one fixed chunking on whatever schedule the runtime picks; lost or stale bytes need a reader to block mid-read or a full ring.",
 ["ring/buffer.go"],
 [("position publication and re-check", "ring/buffer.go WriteN/ReadN")],
 state=[("start/next", "read and write positions", "ring/buffer.go Buffer")],
 observe=["bytes returned by ReadN"])

prop("C09", "Blocked ring reads and writes always resume; close releases everything",
 "A blocked read returns once enough bytes have been written and a blocked write returns once enough space has been freed, for every interleaving: no wake-up is ever lost, also for single-byte transfers. Closing the buffer makes every blocked or future read and write return.",
 ["schedules", "histories"], "all ring sizes, chunkings, interleavings and close points for one reader and one writer",
 "A lost wake-up needs a switch between the emptiness check and the wait; the tests cannot force it and assert nothing about termination.",
 ["ring/buffer.go"],
 [("wait/release pair", "ring/buffer.go mutex"), ("context cancellation", "ring/buffer.go Close")],
 observe=["termination of ReadN/WriteN/Close under a controlled scheduler"])

prop("C10", "Every response reaches exactly the call that issued its request",
 "With any number of concurrent calls on one connection, each call returns the response carrying its own request's correlation id, decoded from exactly that response's bytes, no matter in which order the broker answers, how the byte stream is split into segments, or how goroutines interleave. Responses with an unknown correlation id are ignored and do not disturb other calls.",
 ["schedules", "inputs", "histories"], "all numbers of concurrent callers, response permutations, segmentations of the response stream, stray responses and goroutine interleavings",
 NOROOT, ["gen.conn.go", "ring/buffer.go"],
 [("correlation-id table", "gen.conn.go requests"), ("frame reassembly", "gen.conn.go messageLoop")],
 state=[("requests", "pending calls by correlation id", "gen.conn.go Conn")],
 observe=["value returned by each call"], hook=HOOK)

prop("C11", "A delivered response never changes afterwards",
 "Once a call has returned a response, every part of it, including byte fields such as fetched records and member metadata, keeps its value regardless of any later traffic on the same connection. Responses delivered to different calls, and the byte fields of one response, never share memory, so overwriting or extending one changes no other.",
 ["histories", "inputs"], "all sequences of responses with byte fields on one connection, held by the caller while later responses arrive",
 NOROOT + " A single call can never observe that a later response overwrote it.",
 ["gen.conn.go", "message/decoder.go"],
 [("ownership of the response buffer", "gen.conn.go messageLoop"), ("zero-copy byte fields", "message/decoder.go Bytes")],
 observe=["byte fields of responses re-read after later calls"], hook=HOOK)

prop("C12", "Concurrent requests are written as whole, correctly framed messages",
 "What the broker receives on a connection is a sequence of complete frames, each a 4-byte length followed by exactly that many bytes holding one request header and one body; frames of concurrent calls are never interleaved, lost or duplicated. Correlation ids of requests that are outstanding at the same time are distinct.",
 ["schedules", "inputs"], "all numbers of concurrent callers, request sizes and goroutine interleavings",
 NOROOT, ["gen.conn.go", "gen.broker.go"],
 [("write lock around encode and flush", "gen.conn.go Do"), ("atomic correlation counter", "gen.conn.go Do")],
 observe=["bytes received by the broker"], hook=HOOK)

prop("C13", "When a connection ends, every call returns an error and Close completes",
 "If the broker disconnects at any byte of the stream, a write fails, the broker sends an impossible frame length, or the connection is closed locally at any moment, every outstanding and every later call returns (outstanding calls without a received response and later calls with an error) and closing returns; nothing panics, hangs, or is answered with data the broker never sent. Responses completely received before the disconnect are still delivered, and after close no goroutine or socket of the connection remains.",
 ["fault_sequences", "schedules", "histories"], "all disconnect, write-failure and close points relative to any set of outstanding calls, partial responses and interleavings",
 NOROOT, ["gen.conn.go", "ring/buffer.go"],
 [("loop termination and completion channels", "gen.conn.go readLoop/messageLoop/Close")],
 observe=["return of every call and of Close", "goroutines left behind"], hook=HOOK)

prop("C14", "The highest version supported by both sides is negotiated and used",
 "For every API, once connected, requests carry the highest version that lies both in the range the broker advertises and in the range the library supports, whatever ranges the broker advertises, and whatever unknown APIs it lists. If the two ranges of an advertised API do not overlap, connecting fails with an error; it never hangs or picks a version outside either range.",
 ["inputs", "configurations"], "all advertised [min,max] ranges (newer, older, equal, disjoint, extreme int16 values) for all 48 APIs, in any order, with any unknown APIs",
 NOROOT, ["gen.broker.go"],
 [("negotiation table and range match", "gen.broker.go negotiateApiVersions/matchVersion")],
 observe=["version field of the request header on the wire", "error from connecting"], hook=HOOK)

prop("C15", "Each API call sends its own key, version and body and decodes its own reply",
 "For each of the 48 broker API calls, with any request value and any negotiated version, the frame sent carries that API's key, that version, the client id and the request's body encoded at that version, and the response returned is the broker's reply decoded at that same version; the caller's request is left unchanged.",
 ["inputs", "configurations"], "all 48 APIs x negotiated versions x request and response values",
 NOROOT, ["gen.broker.go", "message/keys.go", GEN],
 [("per-API request/response wrappers", "gen.broker.go"), ("API key constants", "message/keys.go")],
 observe=["request frame at the broker", "response value returned"], hook=HOOK)

prop("C16", "Client dials exactly the controller, leader or coordinator the cluster names",
 "For any cluster metadata, dialling the controller, a partition leader or a group coordinator connects to the host and port the cluster reports for that role (host names, IPv4 and IPv6 alike) and to no other node. If the topic, partition, node or coordinator is missing or reported as unavailable, or the lookup is not answered, an error is returned and no role connection is made.",
 ["inputs", "configurations"], "all cluster layouts (node ids, hosts, ports, topics, partitions, leaders, duplicates in other topics), all queries incl. absent ones, negotiated metadata versions",
 NOROOT, ["client.go"],
 [("metadata lookup", "client.go findTopic/findPartition/dialNode"), ("coordinator lookup", "client.go dialCoordinator")],
 observe=["addresses dialled", "errors returned", "request sent to the bootstrap broker"], hook=HOOK)

prop("C17", "Bootstrap falls over to reachable brokers and leaks no connections",
 "A client operation succeeds if any configured bootstrap broker can be connected to, trying them in the configured order, and returns an error if none can be (also when none is configured). Every connection the client or broker constructor opened and did not hand to the caller is closed again, on success and on every failure.",
 ["fault_sequences", "configurations"], "all bootstrap lists with any subset refusing connections, failing negotiation, disconnecting mid-handshake or failing the request",
 NOROOT, ["client.go", "gen.broker.go"],
 [("bootstrap loop", "client.go dialBootstrap"), ("cleanup on failure", "gen.broker.go NewBroker")],
 observe=["dial sequence", "open connections after the call"], hook=HOOK)

prop("C18", "Encoded record batches are valid Kafka v2 batches of the computed size",
 "For any batch of messages (any keys, values, headers including none, offsets and timestamps), the encoded batch parses as a Kafka magic-2 record batch whose fields, record count and records (length, millisecond timestamp delta, offset delta, key, value, headers) are those supplied, and the computed batch size equals the number of bytes written.",
 ["inputs"], "all record batches: 0..n records, null/empty/large keys and values, any header sets, any deltas",
 "Nothing tests record batches.",
 ["gen.record_batch.go", "message/encoder.go", "message/sizeof/sizeof.go"],
 [("RecordBatch Encode/Size", "gen.record_batch.go")],
 observe=["bytes written by RecordBatch encoding"])

prop("C19", "Connection options are honoured: TLS is never downgraded, the dialer is used",
 "With a TLS configuration, everything sent to the broker is inside a TLS session verified according to that configuration, and connecting fails if verification or the handshake fails; without one, plain TCP is used. A supplied dialer's settings apply to both, options apply to every connection a client opens, later options override earlier ones, and a nil dialer means default settings.",
 ["configurations"], "all option lists and orders x trusted, untrusted, mismatched-name and non-TLS brokers",
 NOROOT, ["gen.option.go", "gen.conn.go", "client.go"],
 [("dial", "gen.conn.go dial"), ("option application", "gen.option.go buildConfig")],
 observe=["bytes on a loopback socket", "errors from connecting"])

prop("C20", "Responses of any size are delivered intact, whatever the buffer sizes",
 "A response is delivered completely and unmodified whatever its size, from an empty body to many megabytes, exceeding every internal buffer, and whatever was received before it on the same connection. Large responses neither crash the client nor stall calls that follow.",
 ["inputs", "histories"], "all sequences of response sizes around and beyond the internal buffer sizes, any segmentation",
 NOROOT, ["gen.conn.go", "ring/buffer.go"],
 [("response buffer sizing", "gen.conn.go messageLoop"), ("ring flow control", "ring/buffer.go")],
 observe=["response payloads"], hook=HOOK)

prop("C21", "A request that cannot be represented is rejected without harming the connection",
 "A request containing a string too long for its 16-bit length prefix makes that call fail with an error, without sending a malformed or partial frame. Other calls on the same connection, before, concurrent and after, are unaffected.",
 ["inputs", "histories"], "all request types with over-long strings in any string position, mixed with valid calls on the same connection",
 NOROOT + " No test encodes a string longer than 11 bytes.",
 ["message/encoder.go", "gen.conn.go"],
 [("length check in the string encoder", "message/encoder.go PutString"), ("frame staging", "gen.conn.go Do")],
 observe=["error of the call", "frames received by the broker", "later calls"], hook=HOOK)

prop("C22", "An undecodable response fails only its own call",
 "If a response's body is malformed, truncated or too short for a header, only the call it belongs to fails with an error (or it is ignored when it names no call); the connection stays in step and all other calls get their own responses. Surplus bytes after a decoded body are skipped.",
 ["inputs", "histories"], "all mixes of valid, truncated, corrupted, over-long and header-less response frames on one connection",
 NOROOT, ["gen.conn.go", "message/decoder.go"],
 [("per-frame decoding", "gen.conn.go messageLoop")],
 observe=["results of each call"], hook=HOOK)

prop("C23", "Connections, brokers, clients, rings and codecs in concurrent use do not race",
 "Calls on one connection or broker from many goroutines, closing while calls are in progress, one client used from many goroutines, a ring used by one reader and one writer, and encoders, decoders and record batches each used by a goroutine of its own never perform unsynchronised conflicting memory accesses.",
 ["schedules"], "all concurrent mixes of calls, closes and reads of returned responses, on real sockets and goroutines",
 "The baseline runs without the race detector, with which the ring tests fail on the base commit; the root package is never run.",
 ["ring/buffer.go", "gen.conn.go", "gen.broker.go", "client.go", "message/encoder.go", "message/decoder.go"],
 [("atomics, locks and channels", "ring/buffer.go, gen.conn.go")],
 observe=["race detector reports"])

prop("C24", "Produce without acknowledgements returns without waiting for a reply",
 "A produce call asking for no acknowledgements (acks 0), which a broker never answers, returns success once the request has been written, or the error if it could not be; a produce call asking for acknowledgements returns the broker's reply. Either kind leaves the connection usable and in step for all other calls.",
 ["histories", "inputs"], "all interleavings of acks 0 / acks != 0 produce calls with other calls on one connection",
 NOROOT, ["gen.broker.go", "gen.conn.go"],
 [("produce wrapper", "gen.broker.go Produce")],
 observe=["return of the call", "later calls"], hook=HOOK)

prop("C25", "Client metadata is exactly what a broker answered",
 "A metadata query through the client asks a bootstrap broker for exactly the topics named and returns that broker's answer to it, complete and unmodified, also when one client is used from several goroutines. If the query is not answered (disconnect, reset, unreadable reply) an error is returned, never an empty or stale result as success.",
 ["inputs", "histories", "fault_sequences"], "all metadata answers, topic lists, sequences and overlaps of queries on one client, and faults in answering them",
 NOROOT, ["client.go"],
 [("metadata query", "client.go Metadata, dialBootstrap")],
 observe=["request sent to the bootstrap broker", "metadata returned", "errors returned"], hook=HOOK)

prop("C26", "Nothing accumulates on a connection or client that stays in use",
 "What a connection holds (memory, goroutines) does not grow with the number of calls made on it, however they ended: answered, failed to encode, refused by the decoder, cut short, without response, or interrupted by stray, repeated and header-less frames; the same holds for calls on a connection that has ended. Connections and client operations that are finished leave no goroutine, socket or memory behind, whether they succeeded or failed.",
 ["histories", "inputs"], "all long histories of calls of every outcome on one connection, of connections opened and closed, and of client operations",
 NOROOT, ["gen.conn.go", "client.go"],
 [("table of outstanding requests", "gen.conn.go Do, messageLoop"), ("release of finished connections", "gen.conn.go Close, client.go dialBootstrap")],
 observe=["live heap after collection", "number of goroutines"])

prop("C27", "Client operations end when their context does",
 "If the context given to a client operation is cancelled or its deadline passes before the operation is complete, at whatever point of dialling, TLS handshake, version negotiation or query, the operation returns an error promptly, although the broker may never answer, and leaves no connection or goroutine behind; with a context that is done from the start the operation fails. A context that is not done changes nothing; other operations of the same client are unaffected; and once a broker has been returned to the caller the context no longer affects its connection.",
 ["fault_sequences", "histories", "inputs"], "all operations of a client, all points at which a broker can stall, all ways and moments for a context to end",
 NOROOT, ["client.go", "gen.broker.go", "gen.conn.go"],
 [("dialling and handshake", "gen.conn.go dial, connect"), ("watching the context during negotiation and queries", "gen.conn.go closeOnDone, gen.broker.go newBroker, client.go")],
 observe=["outcome and duration of the operation", "connections open at the brokers", "number of goroutines"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
