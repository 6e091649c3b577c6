#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place to
keep them in step)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RACE = "the Go race detector, a statement-level schedule perturber and "
P = []


def p(id, title, statement, over, over_text, why, files, mech, observe, technique, note, state=()):
    assert len(title) <= 80, (id, len(title), title)
    for f in files + [b for _, b in mech]:
        assert os.path.exists('/repo/' + f), (id, f)
    P.append(dict(id=id, title=title, statement=statement, over=over, over_text=over_text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=list(state)))


I, S, F, H, C = "inputs", "schedules", "fault_sequences", "histories", "configurations"
RD, WR, NO, BU = "chunk/default_reader.go", "chunk/default_writer.go", "chunk/default_normalizer.go", "chunk/builder.go"
BH, MH, XT, HD = "chunk/basic_header.go", "chunk/message_header.go", "chunk/extended_timestamp.go", "chunk/header.go"
PA, MS = "chunk/parser.go", "chunk/multi_stream.go"

p("C01", "Messages written by the chunk writer reach the reader's application unchanged",
  "Every sequence of messages that a program sends through the chunk writer, with any chunk stream ids the encoding can carry, header formats, "
  "timestamps (extended ones included), types, message stream ids and payload lengths, and with chunk size changes announced to the peer, is "
  "delivered by a chunk reader on the other end completely, exactly once, in order, with every header field and payload byte as sent. "
  "This does not depend on the pieces in which the transport delivers the bytes, on how long it or the application pauses, on the position of the message in a long session, or on how many "
  "messages came before it on the same chunk stream.",
  [I, H, C], "all message sequences, chunk sizes 1 to 2^31-1, chunk stream ids 2-65599 except 63, and fragmentations of the byte stream",
  "The tests round-trip a handful of fixed chunks with small ids and one chunk size through hand-written byte arrays; none runs writer and reader back to back.",
  [WR, RD, BU, HD, NO, BH, MH, XT],
  [("writer splits a message into chunks of the write size", WR), ("reader reassembles per chunk stream and follows announced sizes", RD)],
  ["bytes handed to io.Writer", "Reader.Chunks and Reader.Errs"],
  "online round-trip oracle over generated sessions through fragmenting transports",
  "Every message a session delivers is compared field by field with the one written; 130,000 messages per quick run, boundary-heavy, plus single "
  "sessions of tens of thousands of messages. Assumes only io.Reader/io.Writer contracts.")

p("C02", "Interleaved, header-compressed chunk streams are decoded as the sender meant",
  "For every byte stream that a specification-conforming sender can produce, with messages of different chunk streams interleaved chunk by chunk and headers "
  "of all four formats, the reader delivers each message exactly once, when its last chunk arrives, with the payload of its own chunks only. "
  "Fields a compressed header leaves out have the values of the previous message on the same chunk stream, whatever other chunk streams carried in "
  "between, and an extended timestamp is taken from every chunk that carries one and never mistaken for payload.",
  [I, H], "all interleavings of messages on up to 1,500 chunk streams, all header format sequences, timestamps and lengths",
  "The tests decode two interleaved messages with full headers and check the header cache with made-up headers; no interleaving of compressed headers and no extended timestamp in a continuation is tried.",
  [RD, NO, BU, HD, MH, XT],
  [("per chunk stream partial messages", RD), ("header cache per chunk stream", NO)],
  ["Reader.Chunks and Reader.Errs"],
  "online checker against an independent reference sender (random interleavings plus exhaustive merges of two messages)",
  "Oracle is an RTMP chunk encoder written from the specification, sharing no code with the library. All 2-message merges of small shapes are enumerated; larger ones are sampled.")

p("C03", "Chunk size announcements of the peer take effect at once, invalid ones never",
  "A Set Chunk Size message with a size from 1 to 2^31-1 governs every chunk after it, including the remaining chunks of messages already begun, is reflected "
  "by the reader's reported size, and is not delivered as a message. One whose size is zero or has its top bit set, or whose body is shorter "
  "than four bytes, is reported as exactly one error, changes nothing, and disturbs no other message, finished or unfinished.",
  [I, H], "all positions of valid and invalid announcements among interleaved messages, all sizes",
  "The tests feed one valid announcement between messages; none changes the size inside a message and none is invalid.",
  [RD], [("updateChunkSize", RD), ("read size consulted per chunk", RD)], ["Reader.Chunks, Reader.Errs, Reader.ReadSize"],
  "online checker against the reference sender's expected event sequence", "Sampled positions and sizes, at least 100 announcements inside unfinished messages per run.")

p("C04", "Abort Message discards exactly the unfinished message it names",
  "After an Abort Message, no byte received before it of the unfinished message on the chunk stream it names is ever delivered, neither by itself nor as part "
  "of a later message, and the next message on that chunk stream is delivered intact. "
  "Unfinished messages on all other chunk streams are unaffected, aborts naming idle chunk streams have no effect, and the Abort Message itself is delivered to the application like any other message.",
  [I, H], "all positions of aborts among interleaved messages, naming busy, idle and unknown chunk streams",
  "No test sends an Abort Message through the reader.",
  [RD, BU], [("abort removes the partial message", RD)], ["Reader.Chunks, Reader.Errs"],
  "online checker against the reference sender's expected event sequence", "Sampled; at least 500 unfinished messages aborted per run.")

p("C05", "A written message is exactly its RTMP chunk encoding, or is refused",
  "The bytes one write produces are the message's full header followed by its payload in chunks of exactly the current write size (the last one shorter "
  "or equal, never empty), each further chunk introduced by a format 3 header of the same chunk stream, with the extended timestamp repeated if the message has one. "
  "A message whose chunk stream id no header can carry (above 65599), or a nonempty payload with a write size below 1, is refused with an error and leaves no byte "
  "on the transport and the writer usable. Writing never modifies the caller's message or the memory behind it.",
  [I, C], "all messages and write sizes, including those that cannot be represented",
  "The tests write two small messages with single-byte chunk stream ids and compare fixed bytes.",
  [WR, BH, MH, XT, HD], [("chunking loop", WR), ("refusal of unencodable ids", BH)], ["bytes handed to io.Writer", "Write's error"],
  "byte-for-byte comparison with a reference encoder, strict reference decoder for very large messages",
  "Ids 320 and up use the library's own three-byte form, which deviates from the specification (known finding of C06). Sampled, boundary-heavy.")

p("C06", "Chunk headers encode to the specified bytes and decode back unchanged",
  "Encoding a chunk header of any format, chunk stream id and field values yields the bytes the RTMP specification prescribes, and decoding those bytes gives back "
  "the same header, consuming exactly these bytes, however the transport fragments them. "
  "A header cut short at any byte is never accepted, and a failure of the transport while a header is read or written is reported as such, with nothing but a prefix of the header written.",
  [I, F], "every chunk stream id 0-65599 in every format, boundary and random values of all fields, every cut and fault position",
  "The tests decode one example of each form from complete buffers; ids, field boundaries, fragmentation and faults are not varied.",
  [BH, MH, XT, HD, "spec/binary.go", "spec/bytes.go"], [("three basic header forms", BH), ("four message header forms", MH), ("24-bit timestamp escape", XT)],
  ["Header.Read, Header.Write"],
  "exhaustive-by-id comparison with a reference encoder plus fault injection at every byte",
  "All 65,600 ids x 4 formats are run each time. Known findings: id 63 cannot be read back, ids 320+ use marker 63 and big-endian (both pinned by existing tests).")

p("C07", "A transport ending at any byte yields the complete messages, then its error",
  "Wherever the transport of a chunk reader ends or fails, exactly the messages whose last byte arrived before that point are delivered, unchanged and in order, "
  "and then the transport's failure is reported, also one from which it recovers. "
  "No truncated, padded or duplicated message is ever delivered, for any fragmentation of the bytes, reads that return no data, or data returned together with the end.",
  ["crash_points", I, F], "every byte offset of generated streams as the point of failure, every way of fragmenting",
  "The tests read from complete in-memory buffers; the transport never ends inside a header or payload.",
  [RD, BU, "spec/bytes.go", HD], [("io.ReadFull for payloads and headers", BU), ("errors forwarded", RD)], ["Reader.Chunks, Reader.Errs"],
  "fault injection at every byte offset with an online prefix oracle", "Every offset of each generated stream (28,000 cut streams per quick run).")

p("C08", "No bytes a peer sends can crash, hang or corrupt the chunk reader",
  "Whatever bytes arrive, the reader neither crashes nor stops making progress: it consumes the transport to its end and reports that end as an error. "
  "Messages that arrived before the malformed part are delivered intact, every delivered message has exactly as many payload bytes as its header "
  "declares, and no more payload is delivered in total than bytes were received.",
  [I], "all byte streams: noise, mutated valid streams, contradictory headers and control bodies after any valid prefix",
  "The tests only feed well-formed input.",
  [RD, BU, NO], [("validation of control bodies and sizes", RD), ("bounded payload reads", BU)], ["Reader.Chunks, Reader.Errs", "process liveness"],
  "hostile-input fuzzing with crash, livelock (statement budget) and conservation monitors", "6,000 hostile streams per quick run, 200,000 thorough; shapes listed in DESIGN.md.")

p("C09", "A failing transport is reported by the write it hits, after a correct prefix",
  "If the transport fails after accepting any number of bytes, the write during which it fails returns that failure, a write all of whose bytes were accepted "
  "returns success, and the bytes accepted so far are a prefix of the correct encoding of the messages written. Once the transport works again, writes succeed and send their messages whole. The caller's message is left unmodified.",
  [F, I], "every byte offset of generated messages as the point of failure",
  "The tests write to buffers that cannot fail.",
  [WR], [("error propagation", WR)], ["Write's error", "bytes handed to io.Writer"],
  "fault injection at every byte offset with an online oracle", "Every offset of each generated message.")

p("C10", "Messages handed over belong to the receiver, messages written to the caller",
  "A message the reader has delivered never changes afterwards, and an application may overwrite all of it, header, payload and spare capacity, without "
  "influencing any later message or the reader's decoding. A message passed to a write may be overwritten and reused as soon as the write returns. "
  "None of this is a data race with the reader's goroutine.",
  [H, S, I], "all streams and all choices of messages overwritten or kept by the receiver, all schedules of receiver and reader",
  "No test modifies or keeps a delivered message while decoding continues; tests are not run under the race detector.",
  [RD, NO, BU, "chunk/chunk.go", WR], [("headers copied before they are handed out", RD), ("payload built into fresh memory", BU)], ["Reader.Chunks"],
  "race detector plus mutation of delivered messages with before/after snapshots", "Sampled streams; race detector sees any sharing it executes.")

p("C11", "Goroutines sharing a writer never corrupt each other's messages",
  "Any number of goroutines may write to one chunk writer over a transport whose writes are atomic: every message appears on the wire exactly once and whole, "
  "its chunks not interrupted by chunks of another message, messages of one goroutine keep their order, and no write races with another.",
  [S, I], "all schedules of 2-8 writing goroutines, messages on shared and separate chunk streams",
  "All tests write from one goroutine.",
  [WR], [("one transport write per message", WR)], ["bytes handed to io.Writer"],
  RACE + "an offline checker of the recorded wire (exactly-once, per-goroutine order, atomicity)", "Sampled schedules, counted by distinct wire orders.")

p("C12", "Settings and state shared between goroutines stay consistent while in use",
  "A write size changed while a message is written applies to all of its chunks or to none, and reported read and write sizes are always values that were set, and no "
  "use of them disturbs decoding. Parts appended to one message by several goroutines all end up in it exactly once, each whole and each goroutine's in "
  "order, with an exact count of bytes outstanding, assembling it meanwhile sees whole parts only, and header state shared by goroutines behaves as if used one at a time. None of this races.",
  [S, H], "all schedules of goroutines setting, polling and using sizes, assembling messages, and using a shared header cache",
  "The tests use every object from one goroutine and change sizes only before use.",
  [WR, RD, BU, NO], [("mutexes around sizes, header maps and payload lists", BU), ("one size per message", WR)],
  ["wire bytes", "ReadSize, WriteSize, BytesLeft", "Normalizer state"],
  RACE + "offline checkers (per-message size consistency, conservation, linearizability of recorded histories)", "Sampled schedules; at least 100 size switches observed between messages.")

p("C13", "Independent sessions in one process do not influence each other",
  "Any number of complete sessions (handshake, writing, reading, routing, control messages) running at once in one process each behave exactly as if they ran alone, even when they use the same "
  "chunk stream ids with different contents, and none races with another.",
  [S, C], "all schedules of 4-8 simultaneous sessions",
  "Tests run one object at a time.",
  [RD, WR, NO, PA, "control/parser.go", "control/default_parser.go", "handshake/handshaker.go"],
  [("no shared mutable package state", "control/default_parser.go")], ["each session's wire bytes and deliveries"],
  RACE + "per-session sequential oracles", "Sampled schedules and contents.")

p("C14", "A relayed stream carries the same messages",
  "Writing every message a reader delivered, unmodified and in order, through a chunk writer produces a well-formed RTMP chunk stream that any conforming receiver "
  "decodes to the same messages: same chunk stream, type, message stream, timestamps and payload, even when the messages arrived with compressed headers, "
  "interleaved, or with other chunk sizes.",
  [I, H], "all conforming input streams and output chunk sizes",
  "No test connects a reader's output to a writer.",
  [NO, RD, WR, MH], [("normalised header keeps the format it can be written with", NO)], ["wire bytes of the relaying writer"],
  "strict independent reference receiver over relayed streams", "Sampled; at least 1,000 compressed headers relayed per run. Wire order of the relayed messages is their delivery order.")

p("C15", "A message under assembly is counted and put together exactly",
  "A message builder holds what was appended and read into it, in order and nothing else, counts exactly the bytes that its header's length still lacks, and "
  "reads exactly as many bytes of the transport as it is asked for. The first byte beyond the length is reported as too many bytes, a transport that ends or "
  "fails early as that end or failure, with the number of bytes that did arrive and without these entering the message. Building it at any time gives "
  "what arrived so far, with its header unchanged.",
  [I, F, H], "all sequences of append, read, grow and build, all lengths, fragmentations and cuts",
  "The tests append and read one part each and never overrun.",
  [BU], [("BytesLeft accounting and overrun check", BU), ("full reads", BU)], ["Builder.Append, Read, AddLeft, BytesLeft, Build"],
  "step-by-step comparison with a model of the message under assembly, over fragmenting and failing transports",
  "Sampled sequences of up to 13 steps; 30,000 per quick run.")

p("C16", "Compressed headers are completed from the right predecessor, for any history",
  "Normalising a header fills in exactly the fields its format leaves out: the message stream id for format 1, also length and type for format 2, from the previous header "
  "of the same chunk stream, or from the last header at all if there was none; all fields for format 3, from the same chunk stream only. Full headers stay as they are, "
  "and the pass-through normaliser changes nothing. The result is what later headers refer to, never changes afterwards, and shows as the last header and the header of its chunk stream; a reader shows each chunk's header to its normaliser once and goes on with what that returns.",
  [I, H], "all histories of headers on any number of chunk streams, with explicitly stored ones in between",
  "The tests normalise single headers after one made-up predecessor.",
  [NO, "chunk/normalizer.go"], [("last header and header per chunk stream", NO), ("normaliser called per chunk", RD)], ["Normalizer.Normalize, DefaultNormalizer.Last, Header"],
  "step-by-step comparison with a model of the header cache", "Sampled histories of up to 700 headers on up to 300 chunk streams.")

p("P01", "Every message reaches exactly the stream that was asked for, in order",
  "Each message a session receives is handed to the consumer of its chunk stream, single or combined, exactly once, unmodified, in order of arrival per "
  "chunk stream, and to nobody else, also when that consumer asks for its stream only after the message arrived or is slower than others. "
  "Every error of the underlying reader is forwarded exactly once, and nothing races.",
  [S, I], "all schedules of receive loop, late and early requests, and slow and fast consumers, over all messages and stream combinations",
  "The tests route one or two messages from one goroutine.",
  [PA, MS, "chunk/stream.go"], [("map of streams under a mutex", PA), ("blocking hand-over", PA)], ["Stream.In, Parser.Errs"],
  RACE + "an exactly-once, per-stream-order checker of uniquely tagged messages", "Sampled schedules, counted by distinct arrival orders.")

p("P02", "Concurrent requests for chunk streams are atomic",
  "Requests for single and combined chunk streams made by several goroutines behave as if made one at a time: one single stream per id, shared by all who ask for it; a "
  "combined stream is granted only if none of its ids was requested before, and a refused request leaves nothing behind. An empty request is refused, and no request races with another.",
  [S, H], "all concurrent histories of requests over few ids",
  "The tests make requests one after another.",
  [PA], [("all-or-nothing under one mutex", PA)], ["Parser.Stream"],
  RACE + "an offline linearizability checker over recorded histories", "Sampled schedules, counted by distinct histories.")

p("P03", "Closing a reader or parser always returns and leaves nothing running",
  "Closing a chunk reader or parser from any goroutine returns, and its receive loop ends once a read in progress returns, whether it was idle, busy, blocked on a message or an error nobody "
  "takes, past the end of its transport, or not yet started. "
  "For a parser, the requested single streams and the error channel are then closed, before the call returns if the loop was running, combined streams can be awaited to their end, streams asked for around or after the close have ended too, and no message or error but those already on the way is delivered. "
  "Closing again is harmless, and nothing races.",
  [S, "crash_points"], "all schedules of close against all states of the receive loop and its consumers",
  "The tests close idle objects, once.",
  [RD, PA, MS], [("closer channel selected at every hand-over", PA)], ["Close, Recv returning, channel ends, goroutine dump"],
  RACE + "a stuck-goroutine detector and leak check", "Six situations, sampled schedules within each. Stuck is decided by stop-the-world snapshots, not by time.",
  )

p("P04", "Combined streams deliver everything from every source, then end",
  "A combination of message streams delivers every message of every source exactly once, with each source's messages in their order, also when sources are added while others are already running. "
  "Awaiting its end returns only when all sources have ended and all their messages have been delivered, and then its output ends; nothing races.",
  [S], "all schedules of 1-6 sources, their consumers and the awaiting goroutine",
  "The tests merge two streams of one message.",
  [MS], [("one feeder per source, wait group", MS)], ["MultiStream.In, AwaitClose"],
  RACE + "a conservation and per-source-order checker", "Sampled schedules, counted by distinct arrival orders.")

p("P05", "A parser serves any reader and its streams the same way",
  "A parser made over a reader of the program's own runs that reader exactly once, when it is itself run, and closes it when it is itself closed. Until then it hands every message the reader reports, whatever its number and however the reader's channels are buffered, "
  "to its chunk stream exactly once and in order, and every error of the reader, repeated ones included, exactly once and in order; nothing races.",
  [S, I, C], "all schedules and readers, all numbers of chunk streams",
  "The tests use a mock that reports one message.",
  [PA, "chunk/reader.go"], [("loop over the reader's channels", PA)], ["Reader.Recv and Close calls", "Stream.In", "Parser.Errs"],
  RACE + "recording stand-ins for the reader, with an exactly-once order checker", "Sampled schedules, counted by distinct arrival orders.")

p("H01", "The handshake succeeds exactly for version 3 clients that echo the challenge",
  "A server-side handshake succeeds if and only if the client announces version 3 and returns all 1528 bytes of the server's challenge unchanged; what it puts in the two time fields of that packet does not matter. "
  "A client of another version is refused before a single byte is sent. The server's own packets are well-formed: version 3, a 1536-byte challenge packet, and an exact echo of the client's time and challenge.",
  [I], "all 256 versions, every byte position of the challenge, and structured alterations of it",
  "The tests use one matching and one mismatching challenge and mock steps.",
  ["handshake/handshaker.go", "handshake/version_sequence.go", "handshake/client_ack_sequence.go", "handshake/server_ack_sequence.go", "handshake/packet_ack.go"],
  [("version check", "handshake/version_sequence.go"), ("challenge comparison", "handshake/server_ack_sequence.go")], ["Handshake's error", "bytes exchanged"],
  "scripted adversarial peers, every altered byte position", "All versions and all 1,536 positions every run; values at a position are sampled.")

p("H02", "Every handshake challenge is fresh",
  "The random challenge the server sends is different in every handshake, within one process, between concurrent handshakes, and between processes, with no part of one repeated within itself or in another, and no concurrent handshakes race.",
  [S, H], "all sequences of sequential, concurrent and cross-process handshakes",
  "The tests check the length of one challenge.",
  ["handshake/client_ack_sequence.go", "handshake/packet_ack.go"], [("cryptographic random source", "handshake/packet_ack.go")], ["S1 on the wire"],
  RACE + "a uniqueness monitor over all 8-byte blocks of all challenges", "Detects repetition at 8-byte granularity, not weaker statistical bias.")

p("H03", "The handshake reads and sends exactly its own bytes, faults at any byte included",
  "A handshake consumes exactly 3073 bytes of its transport, however they are fragmented, and leaves what follows to the chunk stream; it sends exactly 3073 bytes, "
  "and its challenge before it waits for the client's answer. "
  "If the input ends or fails, or the output fails, at any byte, it returns that failure, does not succeed, and neither reads nor sends past the step that failed; a handshake made of custom steps runs them in order and stops at the first error.",
  [F, I], "every byte offset of input and output as the point of failure, every fragmentation",
  "The tests use complete in-memory buffers.",
  ["handshake/handshaker.go", "handshake/sequence.go", "handshake/version_sequence.go", "handshake/client_ack_sequence.go", "handshake/server_ack_sequence.go", "handshake/packet_ack.go"],
  [("full reads", "handshake/packet_ack.go"), ("stop at first error", "handshake/sequence.go")], ["bytes consumed and sent", "Handshake's error"],
  "fault injection at every byte of both directions", "All 3,073 offsets in both directions every run.")

p("H04", "Each handshake packet and step alone does its part and no more",
  "A handshake packet is its two times and its payload in network byte order and survives being written and read, with any contents; reading one takes exactly its own bytes; if the transport ends or "
  "fails inside it, that is reported, and a failing write likewise. The server's steps, each by itself, accept exactly the supported version, answer a client's packet with its own challenge "
  "and that packet's echo, and accept exactly the challenge sent; each consumes exactly its bytes and is followed by the right one. A handshake made of any steps "
  "reads, then writes each in order on its own transport, asks it what follows only then, and ends at the first error with that error.",
  [I, F, C], "all packet contents, versions, cuts and fault positions, and all lists of steps failing anywhere",
  "The tests run each step once on fixed bytes.",
  ["handshake/packet_ack.go", "handshake/sequence.go", "handshake/handshaker.go", "handshake/version_sequence.go", "handshake/client_ack_sequence.go", "handshake/server_ack_sequence.go"],
  [("packet codec", "handshake/packet_ack.go"), ("step order", "handshake/handshaker.go")], ["AckPacket.Read, Write", "Sequence.Read, WriteTo, Next", "Handshaker.Handshake"],
  "byte-exact comparison of packets and steps, recorded scripts of custom steps, fault injection", "Time2 of an echo (the time of receipt) is free, as the specification leaves it to the server.")

p("K01", "Control messages survive encoding, transport and decoding",
  "Every control message (chunk size, abort, acknowledgement, user control event, window size, peer bandwidth) with any field values is encoded as the body, type and "
  "chunk stream the RTMP specification prescribes, and parsing it again, directly or after transport, gives the same type and field values. "
  "Encoding changes neither the message nor any other encoded message, and a failure to write it is reported.",
  [I, F], "all field values of all six types",
  "The tests encode and decode one value per type.",
  ["control/default_chunker.go", "control/control_set_chunk_size.go", "control/control_abort_message.go", "control/control_acknowledgement.go", "control/control_event.go",
   "control/control_window_ack_size.go", "control/control_set_peer_bandwidth.go", "control/default_parser.go"],
  [("per-type Read and Write", "control/control_event.go")], ["Chunker.Chunk, Parser.Parse, wire bytes"],
  "reference encoder comparison and round trips over boundary-heavy values", "Sampled 32-bit fields with boundaries, all event types and limit types.")

p("K02", "The control parser decodes any message correctly or refuses it",
  "Parsing a message of any type and any body yields the control message the specification assigns to it, or an error if the type is unknown or the body too short; it never crashes and never modifies the message. "
  "A parsed control message is independent of the message it came from and of all other parses, also when goroutines share one parser, and none of them race.",
  [I, S], "all type ids and bodies of all lengths, all schedules of goroutines sharing a parser",
  "The tests parse one body per type from one goroutine.",
  ["control/default_parser.go", "control/parser.go", "control/control.go"], [("fresh value per parse", "control/default_parser.go")], ["Parser.Parse"],
  RACE + "a reference decoder", "All 256 types, lengths 0-40, sampled contents and schedules.")

p("K03", "A control stream delivers, sends and reports each item exactly once, in order",
  "Over a control stream used in both directions at once, every well-formed incoming control message is delivered exactly once, in order; every outgoing one is written exactly once, in order; and every malformed "
  "message and every failed write is reported as exactly one error, the transport's own for failed writes. Neither kind of failure disturbs later items, and nothing races.",
  [S, F, I], "all schedules of incoming, outgoing and failing traffic",
  "The tests send one message in each direction.",
  ["control/stream.go"], [("a loop for each direction", "control/stream.go")], ["Stream.In, Out, Errs, wire bytes"],
  RACE + "exactly-once order checkers over recorded events", "Sampled schedules, counted by distinct event interleavings.")

p("K04", "Closing a control stream always works; the end of its source does not break it",
  "Closing a control stream from any goroutine makes its loop end and its channels close, whether it was idle, busy, or blocked on a message or an error nobody takes, and leaves no goroutine behind; closing again is harmless. "
  "When the chunk stream it reads from ends, nothing is delivered for it, outgoing messages are still sent, and closing still works; nothing races.",
  [S, "crash_points"], "all schedules of close and end-of-source against all states of the stream",
  "The tests close idle streams.",
  ["control/stream.go"], [("closer channel selected at every hand-over", "control/stream.go")], ["Recv returning, channel ends, goroutine dump"],
  RACE + "a stuck-goroutine detector and leak check", "Situations enumerated, schedules sampled.")

p("K05", "Control streams and parsers work with a program's own parts and types",
  "A control stream gives every message received to its parser and every item sent to its chunker exactly once and in order, delivers exactly what the parser made, writes exactly what the chunker made, and reports each failure of parser, chunker or writer as that failure, once, whatever came with it. "
  "A parser knows exactly the listed control types, of several with one number the last, and makes a fresh value for each message, also of types a program adds to the list, which are encoded and refused by their own rules. The protocol's named numbers are the specification's.",
  [I, S, F, C], "all scripts of successes and failures, all schedules, all bodies of own types",
  "The tests use mocks for one item in each direction.",
  ["control/stream.go", "control/default_parser.go", "control/default_chunker.go", "control/control.go"], [("a loop for each direction", "control/stream.go"), ("types by id", "control/default_parser.go")],
  ["calls of Parser, Chunker and Writer", "In, Errs"],
  RACE + "recording stand-ins for parser, chunker and writer, with an exactly-once order checker", "Sampled scripts and schedules.")

p("K06", "The two directions of a control stream do not wait for each other",
  "While a received control message, or the error for a malformed one, waits for the application to take it, control messages the application sends are accepted and written all the same, and while a write waits for the transport, what the peer sends is delivered all the same. "
  "So an application that takes messages and errors, and sends, in one loop never gets stuck, however much its peer sends ahead and however much the application sends first, nor do two streams that send to each other at once. "
  "Each message still reaches the application, and each of its own the peer, exactly once and in order, and nothing races.",
  [S, I], "all schedules of the peer, the stream, the transport and an application of one goroutine, all scripts of what it sends when",
  "The tests send or receive one item, never both.",
  ["control/stream.go"], [("a loop for each direction", "control/stream.go")], ["Out accepting", "In, Errs", "bytes handed to io.Writer"],
  RACE + "a stuck-goroutine detector and an exactly-once order checker", "Sampled scripts and schedules.")

p("S01", "Integer and byte primitives are exact, bounded and honest about the transport",
  "Encoding an integer of any supported width and byte order yields exactly its bytes, decoding gives it back, also from slices shorter than the width, and decoding never writes to the caller's memory. "
  "Writing reports how much the transport accepted and its failure; reading one or several bytes consumes exactly these bytes across any fragmentation and reports a transport that ends early with no partial result taken for data.",
  [I, F], "all 8- and 16-bit values, boundary and random wider values, all lengths, fragmentations and fault positions",
  "The package has no tests of its own.",
  ["spec/binary.go", "spec/bytes.go", "spec/math.go"], [("manual shifts", "spec/binary.go"), ("io.ReadFull", "spec/bytes.go")], ["function results", "memory behind slices"],
  "differential checking against encoding/binary with poisoned memory and failing transports", "16-bit values exhaustively, wider ones sampled.")

p("M01", "Nothing is kept of what is over, however long it goes on",
  "A reader, parser, combined stream, control stream or writer that goes on for any number of messages, errors, refused or repeated requests, aborts, size changes and failed writes does not grow: once an item was handed over, refused or dropped, "
  "the library holds no memory and no goroutine for it. The same holds for sources of a combined stream that ended, for handshakes that ended either way, and for whole sessions that were opened, used, closed and let go.",
  [H, I], "all lengths of a session and all numbers of sessions, over the traffic a peer may and may not send",
  "Tests read a few messages and exit; what grows by a few bytes an item needs tens of thousands of items and a look at the heap.",
  [RD, "chunk/builder.go", "chunk/default_normalizer.go", PA, "chunk/multi_stream.go", WR, "control/stream.go", "control/default_parser.go", "handshake/handshaker.go"],
  [("builders removed when complete or aborted", RD), ("one goroutine per source, which ends with it", "chunk/multi_stream.go")], ["live heap after a full collection", "number of goroutines"],
  "heap and goroutine monitor: live heap and goroutines at rest, before and after stretches of up to 300,000 further items", "Growth below about 5 bytes an item, or of something bounded by the number of chunk streams, is not seen.")

p("M02", "Who cannot pass on takes no more",
  "While the application takes no messages, control messages or errors, the reader, the parser with single, combined or unrequested streams, combined streams and the control stream stop taking from their source after a bounded amount, however much the peer has to send. "
  "While the transport takes nothing, writes do not return and outgoing control messages are not accepted beyond a bounded number. Thus no peer and no application can make the program hold an unbounded backlog.",
  [H, S], "all amounts a counterpart may have to send, at every point of a session at which the other side stops taking",
  "No test leaves a channel unread; a hidden queue passes them all.",
  [RD, PA, "chunk/stream.go", "chunk/multi_stream.go", WR, "control/stream.go"],
  [("unbuffered channels between all the parts", "chunk/reader.go")], ["bytes taken from the source, items accepted, with every goroutine parked"],
  "back-pressure monitor: a source of 24 MB or a sender of 20,000 items that counts what is taken of it until every goroutine is parked", "Anything up to a quarter of what is offered passes as buffering.")

p("M03", "Work is proportional to traffic, whatever came before",
  "What the library does, and what memory it asks for, while it reads, reassembles, routes, combines, writes or interprets messages is proportional to their number and size: a message of many chunks costs no more per chunk than one of few, "
  "and a message, error, size change, abort or refused request late in a session costs no more than an early one. No peer can thus make the program spend ever more on the same traffic.",
  [H, I], "all lengths of messages and sessions", "Tests use messages of a few chunks, at which a quadratic cost is invisible.",
  [RD, BU, NO, PA, MS, WR, "control/stream.go"], [("amortised appends of the parts", BU)], ["statements executed", "bytes allocated"],
  "deterministic statement and allocation counters compared between some traffic and sixteen times as much of it", "Twelve kinds of traffic; a growth of up to 2.5 times of the cost per item passes.")

p("U01", "A client session delivers and sends everything, end to end",
  "After its handshake, a client session hands every control, command, audio, video and data message of its peer to the part of the session it belongs to, exactly once and in order per chunk stream, while every message the application sends "
  "on any of the parts reaches the peer exactly once, whole, in order per part, as long as chunk sizes are announced. A handshake that fails is reported as its failure and nothing of the session starts, and a connection that ends leaves nothing of a closed session behind; nothing races.",
  [S, I, H], "all schedules of four incoming and four outgoing parts, all interleavings and header compressions of the peer",
  "The client package has one construction test, and cannot even be built here without a missing dependency.",
  ["client/client.go", "cmd/manager.go", "cmd/gate.go", PA, WR, "control/stream.go"], [("wiring of parser, control stream and command manager", "client/client.go")], ["channels of the parts, wire bytes"],
  RACE + "an independent peer with exactly-once order checkers", "amf0, missing offline, is replaced by a reference stub under /verif/stub. Known findings: chunk size 4096 is used unannounced; a message on a foreign chunk stream or a refused chunk size stops the session; its chunk parser outlives the connection.")

p("U02", "The server hands out every connection once and stops when closed",
  "Every peer that connects while the server accepts is handed to the application as exactly one client, connected to that peer and no other. "
  "Closing the server, in any state, ends its accept loop and its channels' producers, drops connections never handed out, reports no endless errors, and leaves clients already handed out usable; nothing races.",
  [S, "crash_points"], "all orders of arrival, take-over and close",
  "The tests accept one connection.",
  ["server/server.go"], [("accept loop", "server/server.go")], ["Server.Clients, Errs, sockets"],
  RACE + "scripted TCP peers on loopback with identity tags", "Sampled; built with the amf0 stub.")

p("U03", "Each message is routed to exactly the session parts whose rule it meets",
  "Whether a message reaches the NetConnection, the NetStream or the data stream is decided by its chunk stream, message stream and type alone: NetConnection gets chunk stream 3, and 8 with message stream 0; NetStream gets commands (type 20) on chunk stream 4, and on 8 with message stream 1; "
  "the data stream gets types 8, 9 and 18 on chunk stream 4. Combined rules mean what their and/or structure says, and every message a running manager receives is given to each matching part exactly once and to no other, without races.",
  [I, S], "all combinations of ids and types, all rule trees, all schedules of the manager",
  "The tests try a few examples per rule.",
  ["cmd/gate.go", "cmd/manager.go"], [("gates", "cmd/gate.go"), ("dispatch loop", "cmd/manager.go")], ["Gate.Open, channels of the parts"],
  RACE + "exhaustive gate tables and exactly-once checkers", "Gate table exhaustive over ids 0-70 and edges x 12 message streams x 256 types; built with the amf0 stub.")

p("U04", "Command streams deliver, send and report each item exactly once, in order",
  "Over a NetConnection, NetStream or data stream used in both directions at once, every intelligible incoming message is delivered exactly once, in order, with its arguments; every outgoing item is written exactly once, in order, as its specified encoding; and every unintelligible "
  "message and failed write is reported as exactly one error without disturbing later items. Nothing races.",
  [S, F, I], "all schedules of incoming, outgoing and failing traffic",
  "The tests send one item in each direction.",
  ["cmd/conn/net_conn.go", "cmd/stream/net_stream.go", "cmd/data/stream.go"], [("a loop for each direction", "cmd/conn/net_conn.go")], ["channels of the parts, wire bytes"],
  RACE + "exactly-once order checkers over recorded events", "Sampled; built with the amf0 stub, which defines the AMF encoding used on both sides.")

p("U05", "Status commands are independent of each other",
  "Each status command made from a NetStream status encodes exactly its own arguments, and neither making nor overwriting any other, in the same or another goroutine, changes it or races with it.",
  [S, I], "all schedules and arguments of concurrent status commands",
  "The tests make one status command.",
  ["cmd/stream/status.go"], [("fresh payload per command", "cmd/stream/status.go")], ["Status.AsChunk / Marshal output"],
  RACE + "reference encodings and mutation of earlier results", "Sampled; built with the amf0 stub.")

p("U06", "Closing command streams and their manager works and leaves nothing running",
  "Closing a NetConnection, NetStream, data stream or the manager of all three, in any state (idle, busy, blocked on an item or error nobody takes, after its source ended, or before it runs), makes its loop end without a crash, closes what it feeds, and leaves no goroutine behind; closing again, or from several goroutines at once, is harmless, and nothing races.",
  [S, "crash_points"], "all schedules of close and end-of-source against all states",
  "The tests close idle objects.",
  ["cmd/manager.go", "cmd/conn/net_conn.go", "cmd/stream/net_stream.go", "cmd/data/stream.go"], [("closer channels", "cmd/manager.go")], ["loops returning, channel ends, goroutine dump"],
  RACE + "a stuck-goroutine detector and leak check", "Situations enumerated, schedules sampled; built with the amf0 stub.")

p("U07", "Audio, video and data frames are interpreted and relayed faithfully",
  "Every audio or video message is presented with the codec, channel layout, rate, size or frame type its control byte stands for, and its payload unchanged; data frames with their names and arguments. "
  "Marshalling a received frame gives back the message it came from, and messages without a control byte or of unknown type are refused with an error.",
  [I], "all 256 control bytes and any payload",
  "The tests check one control byte per frame type, and pin wrong rates and sizes.",
  ["cmd/data/audio.go", "cmd/data/video.go", "cmd/data/data_frame.go", "cmd/data/default_parser.go"], [("bit fields of the control byte", "cmd/data/audio.go")], ["Data accessors, Marshal"],
  "enumeration of control bytes against the specification's table, round trips", "Known findings: audio rate and size and several names of codecs and frame types are wrong (pinned by existing tests); built with the amf0 stub.")


p("U08", "Command streams and their parsers carry a program's own messages and types",
  "A command or data parser given a table of a program's own types makes a new value of the type named by each message and fills it from that message alone, or refuses the message with an error, also when goroutines share it. "
  "A NetConnection sends whatever a program's own message marshals to and a data stream delivers whatever the program's own parser makes and sends whatever its data marshals to, each exactly once and in order, on the chunk stream asked for, and each failure of these is reported as that failure, once. Nothing races.",
  [S, F, I], "all tables, messages and failures of parsers, writers and messages of the program's own, all schedules",
  "The tests replace one part by a mock and send one item.",
  ["cmd/conn/default_parser.go", "cmd/conn/default_chunker.go", "cmd/conn/net_conn.go", "cmd/stream/default_parser.go", "cmd/data/default_parser.go", "cmd/data/stream.go"],
  [("factory tables", "cmd/conn/default_parser.go"), ("SetParser", "cmd/data/stream.go")], ["Parse results, calls recorded by the program's own parts, errors"],
  RACE + "recorded calls checked against the script of the program's parts", "Known finding: a NetConnection chunker ignores the chunk stream it is made for (pinned by existing tests); built with the amf0 stub.")

p("U09", "Independent client sessions do not influence each other",
  "Any number of client sessions running at once in one process, over one server's connections or any others, each deliver and send exactly what they would alone. "
  "What one of them receives, sends or suffers (a handshake, transport, write or encoding that fails, hostile bytes, an application that takes nothing, an early close) neither shows in nor delays another, before, beside or after it, and none races with another.",
  [S, F, C], "all schedules of simultaneous sessions, healthy and failing",
  "No test runs a session, let alone two.",
  ["client/client.go", "server/server.go", "cmd/manager.go", "cmd/stream/status.go", "cmd/conn/parser.go", "control/stream.go", PA, WR], [("no shared mutable package state", "client/client.go")], ["each session's deliveries and wire bytes"],
  RACE + "per-session exactly-once order checkers", "Sampled schedules, contents and failures; built with the amf0 stub.")

p("U10", "Commands, managers and servers keep nothing and take no more than they pass on",
  "A command stream, data stream or manager that goes on for any number of messages and errors in both directions neither grows nor slows down, nor does a program that opens, uses and closes managers grow, and a server holds on to no client that it handed out. "
  "While the application takes nothing, or the transport takes nothing, each of them, and a whole session, stops taking from the other side after a bounded amount.",
  [H, S], "all lengths of a session, all numbers of managers and clients, all points at which one side stops taking",
  "Tests send one or two messages; none looks at the heap or leaves a channel unread.",
  ["cmd/manager.go", "cmd/conn/net_conn.go", "cmd/stream/net_stream.go", "cmd/data/stream.go", "server/server.go", "client/client.go"],
  [("unbuffered channels between all the parts", "cmd/manager.go")], ["live heap and goroutines at rest", "items and bytes accepted at rest", "weak pointers to clients"],
  "heap, goroutine and back-pressure monitors, weak pointers to clients", "Bounded growth and buffering pass; the goroutines that a session itself leaves behind are the known finding of U01; built with the amf0 stub.")

p("U11", "The two directions of a session's parts do not wait for each other",
  "While an item that a NetConnection, NetStream or data stream received, or the error for one it refused, waits for the application to take it, what the application sends on that part is accepted and written all the same, and while a write of a part waits for the transport, what the peer sends to it is delivered all the same. "
  "So an application that serves one part, or all parts of a session, from one loop never gets stuck, however much its peer sends ahead and however much the application sends first, nor do two managers whose parts send to each other at once. "
  "Each item still arrives exactly once and in order on both sides, and nothing races.",
  [S, I], "all schedules of the peer, the parts, the transport and an application of one goroutine, all scripts of what it sends when",
  "The tests send or receive one item, never both.",
  ["cmd/conn/net_conn.go", "cmd/stream/net_stream.go", "cmd/data/stream.go", "control/stream.go", "client/client.go"],
  [("a loop for each direction", "cmd/conn/net_conn.go")], ["Out, Status and In accepting", "In, Out and Errs", "bytes handed to the transport"],
  RACE + "a stuck-goroutine detector and an exactly-once order checker", "Sampled scripts and schedules; built with the amf0 stub.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            n = x["statement"].count(". ") + 1
            assert n <= 3, (x["id"], n)
            f.write(json.dumps({
                "id": x["id"], "title": x["title"], "statement": x["statement"],
                "quantifier": {"over": x["over"], "text": x["over_text"]},
                "why_tests_cant": x["why"],
                "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                            "observe_at": x["observe"], "hook_needed": None},
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 setup.py",
        "checks": [{
            "property": x["id"],
            "quick_cmd": "python3 check.py " + x["id"],
            "thorough_cmd": "python3 check.py %s --thorough" % x["id"],
            "technique": "runtime monitoring: " + x["technique"],
            "level": "exploration",
            "level_note": x["note"],
        } for x in P],
        "not_applicable": [],
        "notes": "No hooks are committed in /repo: statement-level instrumentation, harness packages and go.mod are supplied by a go build -overlay made from the working tree on every run.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
