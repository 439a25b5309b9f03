#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every frame survives the wire unchanged",
 "Every frame the protocol can represent (at most 255 arguments per message) is written as its SPOP encoding: a 4-byte length equal to the bytes that follow, type, FIN/ABORT flags, stream and frame identifiers, then all payload items in order with nothing added or lost. Reading those bytes back yields an equal frame, for every frame kind, flag combination and identifier. The type and the metadata size that a frame reports agree with the bytes written.",
 ["inputs"], "all frames: six kinds, all flag combinations, 64-bit identifiers (frame id non-zero for NOTIFY/ACK), any number of messages/arguments/actions, any strings",
 "The unit tests encode six fixed frames with ids 123/456; nothing samples other ids, counts, lengths or flag combinations, and nothing goes through the length-prefixed framer.",
 ["spop/src/frame/encode.rs", "spop/src/frame/decode.rs", "spop/src/frame/framer.rs", "spop/src/frame/metadata.rs", "spop/src/frame/haproxy.rs", "spop/src/frame/agent.rs", "spop/src/frame/frames.rs", "spop/src/frame/kv.rs", "spop/src/frame/msg.rs", "spop/src/action.rs"],
 [("encode::frame/metadata/action", "spop/src/frame/encode.rs"), ("decode::frame", "spop/src/frame/decode.rs"), ("length prefix", "spop/src/frame/framer.rs write_frame/read_frame"), ("Ack::metadata, Notify::metadata", "spop/src/frame/agent.rs, haproxy.rs")],
 observe=["Framer::write_frame", "Framer::read_frame", "Frame::metadata", "Frame::frame_type"])

prop("C02", "Typed values and integers keep their type and value",
 "Every typed value (null, boolean, signed and unsigned 32- and 64-bit integer, IPv4, IPv6, string, binary) that is written and read back keeps both its type and its value, whatever its sign, magnitude or length. On the wire it is the documented representation: type code in the low four bits, boolean value in the flag bits, integers and lengths as SPOP variable-length integers, everything else as raw bytes. The same holds for 64-bit identifiers.",
 ["inputs"], "all values of all ten types, including every variable-length-integer size boundary up to 2^64-1, negative integers, and string/binary lengths across size boundaries",
 "The tests use one value per type (all small and positive) and twelve varints; negative integers, the other boundaries and long strings are never tried.",
 ["spop/src/data/varint.rs", "spop/src/data/buf.rs", "spop/src/data/ty.rs", "spop/src/data/typed.rs"],
 [("varint::put/get/size_of", "spop/src/data/varint.rs"), ("put_typed / typed_data", "spop/src/data/buf.rs")],
 observe=["Framer::write_frame", "Framer::read_frame"])

prop("C03", "Malformed input is refused, never a panic, never half decoded",
 "For every byte sequence presented as a frame, reading it terminates without panicking and yields either the frame those bytes denote in full or an error. A frame whose payload is truncated, carries an unknown type or action code, text that is not UTF-8, an argument count that does not match, or an integer that does not fit 64 bits is refused as a whole; it is never delivered with items missing, altered or invented.",
 ["inputs"], "all byte strings up to the frame limit",
 "No test feeds the decoder a byte string that the encoder did not produce.",
 ["spop/src/frame/decode.rs", "spop/src/data/buf.rs", "spop/src/data/varint.rs", "spop/src/frame/framer.rs"],
 [("Option/Result based parsing", "spop/src/frame/decode.rs, spop/src/data/buf.rs"), ("varint::get bounds", "spop/src/data/varint.rs")],
 observe=["Framer::read_frame"])

prop("C04", "Frame boundaries do not depend on how bytes arrive or leave",
 "The sequence of frames read from a transport depends only on the bytes, not on how they are split into reads or delayed: every read takes exactly one frame's bytes, leaving the next frame intact, with and without buffering. A stream that ends inside a frame gives an I/O error, never a frame. A frame written to a transport that accepts it piecemeal arrives whole, in order and flushed before the write is reported complete, however long that takes; when it can not all be written and flushed, the write reports an I/O error.",
 ["inputs", "schedules", "fault_sequences"], "all frame sequences, all partitions of the byte stream into reads and writes, all positions of end-of-stream or I/O error",
 "No test uses the framer or a codec over a transport at all.",
 ["spop/src/frame/framer.rs", "spop/src/frame/codec.rs"],
 [("read_u32 + read_exact", "spop/src/frame/framer.rs read_frame"), ("write_all", "spop/src/frame/framer.rs write_frame"), ("BufReader", "spop/src/frame/codec.rs")],
 observe=["Framer", "Codec::new", "BufCodec::buffered"])

prop("C05", "No frame above the agreed size limit is accepted or sent",
 "A frame longer than the limit is refused as soon as its length is known, and a frame of exactly the limit is accepted. The limit of an agent connection is its configured maximum until the handshake and afterwards the smaller of that and the peer's announced maximum. The agent never sends a frame above that limit: if a reply would exceed it, the reply is not sent at all and the peer gets a DISCONNECT with a 'frame is too big' status.",
 ["inputs", "configurations"], "all limits, all announced limits, all frame lengths around them, in both directions",
 "No test exercises the limit; the negotiated value is only ever echoed.",
 ["spop/src/frame/framer.rs", "spop/src/frame/codec.rs", "spoa/src/conn.rs", "spoa/src/state/handshake.rs"],
 [("length check", "spop/src/frame/framer.rs read_frame/write_frame"), ("limit update after handshake", "spoa/src/conn.rs serve")],
 state=[("max_frame_size", "the limit in force", "Framer")],
 observe=["Framer::read_frame", "Framer::write_frame", "bytes written by Connection::serve"])

prop("C06", "HELLO items are understood in any order, mandatory ones required",
 "The items of a HELLO are recognised whatever their order, items with unknown names are ignored, spaces around the elements of a comma-separated list are ignored, and capabilities the library does not know (including an empty list) are ignored. A HELLO that lacks a usable version, maximum frame size or capabilities item, or lists an unparsable version, is refused. The optional health-check flag and engine identifier are reported exactly when present.",
 ["inputs"], "all item orders, extra items, spacings, capability and version lists, and integer types for the frame size",
 "The tests decode two HELLO frames in the order the encoder writes, without spaces, unknown items or a health-check flag.",
 ["spop/src/frame/decode.rs", "spop/src/frame/kv.rs", "spop/src/caps.rs", "spop/src/version.rs"],
 [("KVList accessors", "spop/src/frame/decode.rs"), ("Capability/Version FromStr", "spop/src/caps.rs, version.rs")],
 observe=["Framer::read_frame"])

prop("C07", "The handshake agrees on what both sides support",
 "The agent answers a HELLO with the highest version that the peer listed and the agent supports, the smaller of the two maximum frame sizes, and exactly the capabilities present on both sides, whatever the order or duplicates in the peer's lists. If no version is common the agent sends no HELLO, only a DISCONNECT with an error status. Builder defaults are version 2.0, no capabilities and a 16384-byte frame limit.",
 ["inputs", "configurations"], "all agent configurations and all peer HELLOs",
 "No test in the repository touches the agent crate.",
 ["spoa/src/state/handshake.rs", "spoa/src/state/connect.rs", "spoa/src/runtime/builder.rs"],
 [("negotiate", "spoa/src/state/handshake.rs"), ("Builder::make_service", "spoa/src/runtime/builder.rs")],
 observe=["AGENT-HELLO / AGENT-DISCONNECT frames on the transport"])

prop("C08", "Nothing is processed outside the agreed protocol phases",
 "On a connection no request reaches a service before a successful handshake, and the first frame must be a HAPROXY-HELLO. A HELLO with the health-check flag true is answered with a HELLO and the connection then ends without a service ever being created; otherwise exactly one service is created per connection. After the handshake only NOTIFY and DISCONNECT are legal, and after the connection has ended (error, disconnect, health check) nothing more is read as a request, processed or sent.",
 ["histories", "inputs"], "all sequences of frames, legal or not, in every phase",
 "No test in the repository touches the connection state machine.",
 ["spoa/src/state/connect.rs", "spoa/src/state/process.rs", "spoa/src/state/state.rs", "spoa/src/conn.rs"],
 [("State::{Connecting,Processing,Disconnecting}", "spoa/src/state/state.rs"), ("mem::replace(state, Disconnecting)", "spoa/src/conn.rs")],
 state=[("state", "protocol phase of the connection", "spoa/src/conn.rs Connection")],
 observe=["service maker and service invocations", "frames on the transport", "Connection::serve result"])

prop("C09", "Every complete request gets exactly one matching ACK, in order",
 "Each complete NOTIFY accepted on a connection causes exactly one service call with exactly its messages, arguments and order, and, when the service succeeds, exactly one final, non-aborted ACK carrying that request's stream and frame identifiers and exactly the service's actions in order. ACKs are sent in the order the requests arrived, also when many requests are pipelined and services take different times, and however slowly the peer reads the answers. A request is never dropped, merged, duplicated or answered with another's actions.",
 ["histories", "schedules", "inputs"], "all request sequences on a connection, all service latencies and results",
 "No test in the repository runs a service behind a connection.",
 ["spoa/src/state/process.rs", "spoa/src/conn.rs", "spop/src/frame/frames.rs"],
 [("Processing::handle_frame", "spoa/src/state/process.rs"), ("Frame::ack", "spop/src/frame/frames.rs"), ("serve loop", "spoa/src/conn.rs")],
 observe=["service calls", "ACK frames on the transport"])

prop("C10", "Fragmented requests are delivered once, whole, and never mixed",
 "When fragmentation was agreed, the NOTIFY frames sharing a stream and frame identifier up to the one flagged final are delivered to the service exactly once, as the concatenation of their messages in arrival order, and acknowledged once; no call or ACK happens before the final one. Fragments with a different stream or frame identifier may interleave freely and never mix, and an identifier may be reused afterwards starting empty. When fragmentation was not agreed, a non-final NOTIFY is refused, and an aborted fragmented request is never delivered.",
 ["histories", "inputs"], "all interleavings of fragments of several requests, including reused and similar identifiers, with and without the capability",
 "No test reassembles anything.",
 ["spoa/src/state/process.rs", "spop/src/frame/fragment.rs", "spoa/src/state/connect.rs"],
 [("Reassembly table keyed by (stream, frame)", "spop/src/frame/fragment.rs"), ("capability gate", "spoa/src/state/connect.rs handshake, spoa/src/state/process.rs")],
 state=[("reassembly", "messages received so far per (stream, frame)", "Processing.reassembly")],
 observe=["service calls", "ACK frames on the transport"])

prop("C11", "Every failure is reported by one DISCONNECT, then the connection ends",
 "Whenever a connection cannot go on (undecodable or oversized frame, frame illegal in the phase, failed negotiation, service or service-creation failure, deadline, peer DISCONNECT), the agent sends exactly one AGENT-DISCONNECT as its last frame and stops. Its status code is the SPOP code of the cause: 0 for a peer disconnect, 2 for a timeout, 4 for an undecodable or illegal frame, 10 for unsupported fragmentation, 99 for a failing service, whose error text is the message. Only when the transport itself fails or ends is nothing sent.",
 ["histories", "inputs", "fault_sequences"], "all failure causes at every point of every connection history",
 "No test makes a connection fail.",
 ["spoa/src/conn.rs", "spoa/src/error.rs", "spop/src/error.rs", "spop/src/frame/disconnect.rs", "spoa/src/state/process.rs", "spoa/src/state/connect.rs"],
 [("error arm of serve", "spoa/src/conn.rs"), ("From<Error> for Disconnect", "spoa/src/error.rs"), ("status codes", "spop/src/error.rs")],
 observe=["last frame on the transport", "Connection::serve result"])

prop("C12", "No request outlives its processing deadline",
 "A service call that has not finished within the configured maximum processing time (15 s by default) is abandoned at that time: its computation is dropped, no ACK for it is ever sent, and the connection ends with a timeout DISCONNECT. A call that finishes before the deadline is acknowledged normally, and each request gets the full allowance regardless of how long earlier requests or idle periods took or how slowly the peer reads.",
 ["schedules", "histories", "configurations"], "all service latencies relative to the deadline, all request sequences and deadlines",
 "No test runs a service with a deadline.",
 ["spoa/src/state/process.rs", "spoa/src/runtime/runtime.rs", "spoa/src/runtime/builder.rs"],
 [("tokio::time::timeout(max_process_time)", "spoa/src/state/process.rs")],
 observe=["service call start/finish/drop times (virtual clock)", "frames on the transport"])

prop("C13", "Connections of one agent do not affect each other",
 "Each connection of an agent has its own handshake result, reassembly state, service instance and failure: what happens on one connection, including malformed frames, failing, slow or never-ending services, timeouts, disconnects, transport errors and a peer that does not read, changes neither the frames another connection sends nor the calls its service gets, and does not end it. Identical stream and frame identifiers on different connections never mix.",
 ["schedules", "histories"], "all interleavings of the histories of several connections over one runtime",
 "No test opens even one connection.",
 ["spoa/src/agent.rs", "spoa/src/conn.rs", "spoa/src/runtime/runtime.rs", "spoa/src/state/connect.rs"],
 [("child_token per connection", "spoa/src/agent.rs serve"), ("per-connection State", "spoa/src/conn.rs"), ("service per connection", "spoa/src/runtime/runtime.rs ServiceMaker::make")],
 observe=["per-connection frames and service calls"])

prop("C14", "Shutdown drains: started requests are answered, then serve returns",
 "Once shutdown is requested, a request whose service call has started still runs to completion and its ACK is delivered as soon as the peer takes it, and the agent's serve call returns only after every connection has ended. Idle connections, including ones with a partial frame or an unfinished handshake, are closed rather than waited for, so serve does return as soon as the running calls finish. No connection made after the agent has returned is served.",
 ["schedules", "histories"], "all moments of shutdown relative to the state of every connection",
 "No test starts or stops an agent.",
 ["spoa/src/agent.rs", "spoa/src/conn.rs"],
 [("CancellationToken + TaskTracker", "spoa/src/agent.rs serve"), ("select cancelled/read", "spoa/src/conn.rs serve")],
 state=[("tracker", "connections still running", "Agent.shutdown"), ("token", "shutdown requested", "Agent.shutdown")],
 observe=["Agent::serve return", "ACK/EOF at the clients", "service call completion"])

prop("C15", "Fragment reassembly neither loses, repeats nor mixes items",
 "For every history of fragments submitted to a reassembly table, from any number of threads, each submitted item comes out exactly once: in the result of the final fragment of its own stream and frame identifier, in submission order, and a non-final fragment returns nothing. Results are those of some sequential order of the submissions that respects real time. The frame-level interface applies the same rule to NOTIFY (respectively ACK) frames, reports a peer DISCONNECT as a normal end and every other frame as invalid.",
 ["schedules", "histories", "inputs"], "all sequential and concurrent histories over any identifiers and fragment contents",
 "No test uses the table; concurrency needs schedules.",
 ["spop/src/frame/fragment.rs", "spop/src/handler.rs"],
 [("DashMap entry API", "spop/src/frame/fragment.rs Table::reassemble")],
 state=[("table", "items so far per (stream, frame)", "Table.0")],
 observe=["Reassembly::reassemble", "AsyncHandler::handle_frame"])

prop("C16", "An acknowledger delivers exactly one ACK",
 "However it is used (completed, aborted, dropped, also by a panic, any of these after another, with variables set or unset in between), an acknowledger delivers exactly one ACK, at the first of completion, abort or drop. That ACK carries the acknowledger's stream and frame identifiers, exactly the actions recorded before that point in order, and the aborted flag exactly when abort came first. Completing or aborting again, or after the receiver is gone, reports 'closed' and delivers nothing.",
 ["histories"], "all call sequences, including drops of either end at any point",
 "No test uses the acknowledger.",
 ["spoa/src/runtime/acker.rs", "spop/src/frame/agent.rs"],
 [("Option<Inner> taken once", "spoa/src/runtime/acker.rs"), ("Drop for Acker", "spoa/src/runtime/acker.rs")],
 observe=["Acker::complete/abort/set_var/unset_var", "oneshot receiver"])

prop("C17", "The dispatcher hands out each request once with all its messages",
 "For every history of NOTIFY frames given to a dispatcher, the first frame of a request (stream and frame identifier) creates exactly one work item and returns the receiver of its ACK, later fragments return none, and the work item's message stream yields exactly the messages of the request's frames in order and ends after the final one. Work items come out in order of creation, and different requests never mix, also under concurrent submission. If the consumer is gone the submission fails and leaves no trace of the request behind.",
 ["histories", "schedules", "inputs"], "all sequences and interleavings of NOTIFY frames, fragmented or not, including identifier reuse and a dropped consumer",
 "No test uses the dispatcher.",
 ["spoa/src/runtime/dispatch.rs", "spoa/src/runtime/processor.rs", "spoa/src/runtime/acker.rs"],
 [("entry-locked lookup", "spoa/src/runtime/dispatch.rs recieve_messages"), ("unbounded channels", "spoa/src/runtime/dispatch.rs, processor.rs")],
 state=[("receiving", "open fragmented requests", "Dispatcher.receiving")],
 observe=["Dispatcher::recieve_messages", "Processor/Messages streams", "ACK receivers"])

prop("C18", "A waiting consumer is woken when work arrives",
 "Whenever a task waits on the stream of work items or on a work item's message stream and the awaited item arrives, or the stream ends, that task is woken and its next poll yields the item or the end. No order of waiting, arrival and end leaves a consumer asleep while something is ready for it.",
 ["schedules", "histories"], "all interleavings of polls, submissions and closings",
 "No test polls these streams; a missing wake-up only shows when the poll comes before the item.",
 ["spoa/src/runtime/processor.rs", "spoa/src/runtime/dispatch.rs"],
 [("Stream::poll_next", "spoa/src/runtime/processor.rs")],
 observe=["poll results and waker invocations"])

prop("C19", "Binary header lists decode to exactly the headers they hold",
 "A well-formed binary header list (name and value strings, each preceded by its SPOP variable-length-integer length, ended by an empty name and value) decodes to exactly its headers: every name with all of its values in order, including repeated names, empty values and strings of 240 bytes or more. Decoding stops at the terminator and ignores what follows it. Any other byte sequence gives either an error or the headers that precede the damage, and never panics.",
 ["inputs"], "all header lists and all byte strings",
 "No test decodes a header list.",
 ["spoa/src/req.rs"],
 [("hdrs_bin", "spoa/src/req.rs")],
 observe=["req::hdrs_bin"])

prop("C20", "The agent goes on accepting connections until shutdown",
 "Until shutdown is requested the agent accepts every incoming connection and serves it, however many came before, whatever they did, and however they ended. A failure to accept a connection (for example when the process is out of file descriptors) does not stop it: once the cause is gone, new and waiting connections are served.",
 ["histories", "fault_sequences"], "all histories of connections and of transient accept failures",
 "No test starts an agent, and accept failures need fault injection.",
 ["spoa/src/agent.rs"],
 [("accept loop", "spoa/src/agent.rs serve")],
 observe=["handshakes completed over real sockets"])

prop("C21", "A service is called only when it has said it is ready",
 "The agent asks a service (and the service maker) whether it is ready before every call and calls it only after it answered yes, waiting as long as it is not ready within the processing deadline. If the service reports an error instead of becoming ready, it is not called and the connection ends with the same DISCONNECT as for a failing call.",
 ["schedules", "histories"], "all readiness patterns of services and makers",
 "No test runs a service; the stateless services used in the example are always ready.",
 ["spoa/src/state/process.rs", "spoa/src/runtime/runtime.rs"],
 [("poll_ready before call", "spoa/src/state/process.rs, spoa/src/runtime/runtime.rs")],
 observe=["order of poll_ready results and calls"])

prop("C22", "What is finished is not kept",
 "The memory held by a reassembly table, a dispatcher, a connection or an agent depends on what is open at the moment, not on how much it has handled before: once a request's final fragment has been taken, a request has been acknowledged, or a connection has ended in whatever way (closed by either side, reset, failed, panicked, with requests or fragments left open), nothing of it remains, so an agent can run indefinitely.",
 ["histories"], "all repetitions of any history that closes what it opens",
 "A leak only shows after very many repetitions.",
 ["spop/src/frame/fragment.rs", "spoa/src/runtime/dispatch.rs", "spoa/src/agent.rs", "spoa/src/conn.rs"],
 [("removal of the entry by the final fragment", "spop/src/frame/fragment.rs, spoa/src/runtime/dispatch.rs"), ("TaskTracker", "spoa/src/agent.rs")],
 observe=["allocated bytes after many rounds"])

prop("C23", "Values are what they were made from",
 "The public constructors, builders and conversions neither lose nor change what they are given. A message has exactly the arguments it was built with, in order and with repetitions, however they were added; a NOTIFY or ACK frame made by the constructors is a single final frame, not aborted, with exactly the given identifiers and messages or actions; a frame says of itself the one kind it is. A typed value made from a Rust value turns back into the same value and into no other type. A status code, scope, version or capability has exactly one number or text, which turns back into it, and every other number or text is refused; versions are ordered by major, then minor. An error becomes the DISCONNECT with the SPOP status it stems from, however many layers of context are around it, or with status 99 if it has none, and with its outermost description. An agent gets all the versions and capabilities given to its builder, whatever the order, and the last of the limits.",
 ["inputs", "histories"], "all values, and all sequences of builder calls",
 "The tests build a handful of messages and compare one typed value per type with its encoding; conversions back, codes, the order of versions, layered errors and the agent's builder are not tested.",
 ["spop/src/data/typed.rs", "spop/src/data/value.rs", "spop/src/frame/msg.rs", "spop/src/frame/frames.rs", "spop/src/frame/agent.rs", "spop/src/frame/haproxy.rs", "spop/src/frame/metadata.rs",
  "spop/src/action.rs", "spop/src/caps.rs", "spop/src/version.rs", "spop/src/error.rs", "spoa/src/error.rs", "spoa/src/runtime/builder.rs"],
 [("Message builder", "spop/src/frame/msg.rs"), ("From<Error> for Disconnect", "spoa/src/error.rs"), ("Builder", "spoa/src/runtime/builder.rs")],
 observe=["Message::builder/new, Frame::notify/ack/..., Typed conversions, Error/Scope/Version/Capability parsing, Disconnect::from, Builder::make_service"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
