#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mech],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })

H, IO, FU, LIB, FS = ("protocol/src/handshake.rs", "protocol/src/io.rs", "protocol/src/futures.rs",
                      "protocol/src/lib.rs", "protocol/src/fschacha20poly1305.rs")
TL, TI, TF = "traffic/src/lib.rs", "traffic/src/io.rs", "traffic/src/futures.rs"

prop("C01", "Conforming peers always complete the handshake, into one shared session",
 "Whenever two conforming BIP-324 peers with opposite roles and the same network magic are joined by a lossless byte stream, both handshakes finish successfully a bounded time after the network has delivered their bytes, however those bytes are fragmented, delayed or interleaved. This holds for every legal choice of garbage (0 to 4095 bytes of any content), handshake decoys (any number and size the receiver may accept), and later-version peers that put contents in their version packet or set reserved header bits. Both sides end in the same session: equal session identifiers, and each can read what the other writes.",
 ["schedules", "inputs", "configurations"],
 "All delivery schedules (fragmentation, latency, short reads and writes, spurious wake-ups, stalls), all garbage and decoy choices, all pairings of the blocking, async and sans-I/O interfaces and an independent peer, in both roles.",
 "Tests run a handful of fixed garbage/decoy choices over in-memory buffers or loopback that deliver everything at once; fragmentation of the garbage terminator, garbage near the 4095 limit, many decoys and peers that are not this crate are never exercised.",
 [H, IO, FU],
 [("handshake state machine", "protocol/src/handshake.rs Handshake<...>"), ("blocking driver", "protocol/src/io.rs handshake_with_initialized"), ("async driver", "protocol/src/futures.rs handshake")],
 ["result of io::Protocol::new / futures::Protocol::new / Handshake", "CipherSession::id", "first payload each way"],
 [("garbage buffer", "bytes received after the key, searched for the terminator", "io.rs / futures.rs handshake")])

prop("C02", "Everything put on the wire is what BIP-324 prescribes for the session",
 "An independent BIP-324 implementation holding the peer's key accepts and fully decodes every byte an endpoint sends: key, then exactly the configured garbage, the session's garbage terminator, exactly the configured decoys in order, one empty version packet, and then exactly one packet per write with the written type and contents and no reserved header bits. Conversely an endpoint decodes every packet such an implementation sends, treating the ignore bit alone as deciding whether a packet is a decoy. This stays true for any number of packets in either direction, across every key rotation, including rotations during the handshake.",
 ["histories", "inputs", "schedules"],
 "All histories of writes (numbers, sizes, types) in both directions, all handshake garbage and decoys, both roles, all interfaces, any fragmentation.",
 "Test vectors pin a few packet indices of the sans-I/O cipher; two endpoints of this crate agree with each other even when both are wrong, and the tests that talk to bitcoind cannot run without it and do not reach key rotation.",
 [FS, LIB, H, IO, FU],
 [("rotating packet cipher", "fschacha20poly1305.rs FSChaCha20Poly1305"), ("rotating length cipher", "fschacha20poly1305.rs FSChaCha20"), ("key derivation", "lib.rs SessionKeyMaterial::from_ecdh"), ("packet type from header", "lib.rs PacketType::from_byte")],
 ["bytes accepted by the transport", "payloads returned by read"],
 [("message_counter / chunk_counter", "packets sent under the session, selecting nonce and rotation", "fschacha20poly1305.rs")])

prop("C03", "Payloads arrive exactly once, in order, unchanged, under any fragmentation",
 "Over a transport that loses nothing, the payloads one side reads are exactly the payloads the other side wrote: same contents, same genuine/decoy type, same order, none missing, none extra, in both directions at once. This holds for any sizes the reader may accept (from empty to the 4,000,000-byte protocol limit), any number of packets, any fragmentation, delay or stall of the transport, and whether the endpoint is used whole or split into halves driven by different threads or tasks. Every payload written is readable a bounded time after the network has delivered its bytes.",
 ["schedules", "histories", "inputs"],
 "All sequences of writes on both sides, all fragmentations, delays, stalls and back-pressure patterns, all schedules of the reading and writing threads or tasks.",
 "The tests exchange a few short messages over transports that return whole buffers; no test fragments session reads, fills buffers, runs full duplex from split halves or crosses a key rotation through the I/O interfaces.",
 [IO, FU, LIB],
 [("blocking reader/writer", "io.rs ProtocolReader::read, ProtocolWriter::write"), ("async reader state machine", "futures.rs DecryptState, ProtocolReader::read"), ("leftover chaining", "io.rs / futures.rs ProtocolSessionReader")],
 ["payload sequences returned by read against payloads passed to write"],
 [("DecryptState", "progress of a partly read packet", "futures.rs")])

prop("C04", "A tampered session stream never yields anything but what the peer sent",
 "Whatever an active network attacker does to the bytes of an established session (flipping, dropping, duplicating, reordering, replaying, inserting, reflecting or truncating, at any position), the payloads a reader returns are always a prefix of the payloads the peer wrote. No packet touched by the first modification, and none after it, is ever returned, and the reader reports an error once the attacker's stream ends. Reading again after an error never returns a wrong payload and never panics.",
 ["fault_sequences", "schedules", "inputs"],
 "All modifications of the byte stream at any offset, singly and combined, all fragmentations, and repeated reads after the error.",
 "Tests flip or mismatch a value in one packet of the sans-I/O cipher at most; packet-aligned replay, reordering and dropping, tampering with the encrypted length, and reading on after a failure are unbounded families of histories no test covers.",
 [LIB, FS, IO, FU],
 [("authentication tag and rotating nonce", "fschacha20poly1305.rs decrypt"), ("length decryption", "lib.rs InboundCipher::decrypt_packet_len"), ("reader error paths", "io.rs / futures.rs ProtocolReader::read")],
 ["payloads and errors returned by read"])

prop("C05", "A tampered or mismatched handshake never yields an established session",
 "An endpoint's handshake succeeds only if every handshake byte it received is exactly what its peer sent and the peer received its key unmodified, so any modification of key, garbage, terminator, decoys or version packet in either direction makes the affected side fail. A handshake never succeeds against its own reflected bytes, a peer in the same role, a peer on another network, or a peer that does not know the secret. The failure is an error (never a panic or a session), reported at the latest when the stream ends.",
 ["fault_sequences", "inputs", "configurations"],
 "All modifications at any offset of either handshake flight, reflection, role and magic mismatches, arbitrary bytes from a peer without the secret, all fragmentations.",
 "Tests only check a missing terminator and an oversized decoy; none shows that garbage, decoys or version packets are authenticated, and the set of modifications is unbounded.",
 [H, IO, FU, LIB],
 [("garbage authenticated as associated data of the first packet", "handshake.rs send_version, receive_version"), ("terminator search", "handshake.rs split_garbage"), ("key derivation binds both keys, role and magic", "lib.rs from_ecdh")],
 ["result of the handshake call"],
 [("remote_garbage", "garbage to authenticate with the first packet", "handshake.rs ReceivedGarbage")])

prop("C06", "No byte is lost or duplicated where the handshake meets the session",
 "However the peer's bytes are grouped, every byte that follows its version packet is available to the session exactly once and in order, even when the handshake had to read ahead of the version packet to find the end of the garbage. The session reader returned by a handshake, and the underlying reader recovered from a protocol after any number of reads, continue at exactly the first byte not yet consumed as part of a packet.",
 ["schedules", "inputs"],
 "All groupings of handshake and session bytes, all garbage and decoy sizes, all points at which the caller takes the reader back.",
 "One unit test checks a single trailing byte in one read; the over-read amount depends on fragmentation and garbage size, which tests do not vary, and the async path has no such test.",
 [IO, FU],
 [("ProtocolSessionReader", "io.rs and futures.rs"), ("leftover split", "io.rs / futures.rs handshake")],
 ["bytes and payloads read after the handshake", "ProtocolReader::into_inner"],
 [("leftover, leftover_pos", "bytes read ahead during the handshake", "futures.rs ProtocolSessionReader")])

prop("C07", "Cancelling an async read at any await point loses nothing",
 "Dropping an async read future at any point, any number of times, and calling read again later yields the same sequence of payloads as never having cancelled: no payload is lost, duplicated, reordered or corrupted. This holds wherever in a packet the cancellation falls, and for whole protocols, split readers and traffic-shaped readers.",
 ["schedules", "histories"],
 "All cancellation points relative to arriving bytes (inside the length, between length and body, inside the body), repeated cancellations, all fragmentations.",
 "No test cancels a read at all; a cancellation matters only if it lands between partial arrivals, which depends on the schedule.",
 [FU, TF],
 [("DecryptState kept across awaits", "futures.rs ProtocolReader::read")],
 ["payload sequence across cancelled and completed reads"],
 [("DecryptState", "progress of the current packet", "futures.rs")])

prop("C08", "Losing the connection anywhere gives a prompt, correctly classified error",
 "If the stream ends or fails at any byte, the handshake or read in progress returns an I/O error within a bounded time instead of hanging, panicking or inventing data, after every packet that fully arrived has been returned. During the handshake a closed, reset or aborted connection suggests retrying with V1 and any other I/O failure suggests aborting, whether it hits a read or a write. A peer whose first four bytes are the network magic is reported as speaking the V1 protocol.",
 ["crash_points", "fault_sequences", "inputs"],
 "Every byte offset of the inbound stream and of the outbound stream, every I/O error kind, every fragmentation, every interface.",
 "Tests cover one closed connection with real sockets (not run offline); cutting at each byte of key, garbage, terminator, length, body and with each error kind is a large crash-point space.",
 [IO, FU, LIB, H],
 [("error classification", "io.rs From<std::io::Error> for ProtocolError, ProtocolError::eof"), ("zero-byte read handling", "io.rs and futures.rs"), ("V1 detection", "handshake.rs receive_key")],
 ["error value returned by handshake and read", "time of return"])

prop("C09", "Hostile bytes never panic a peer or make it read or allocate without bound",
 "Whatever bytes a peer or attacker sends, handshake and session calls return a payload or an error and never panic. A handshake refuses a peer that sends more than 4095 bytes of garbage without a terminator, having read no more than a fixed amount beyond that limit, and accepts any garbage up to and including 4095 bytes. No reader sets aside memory for a single packet beyond the documented automatic-allocation limit of about 4 MB: a longer announced length is refused as too big, in the handshake and in the session, in the blocking and the async interface.",
 ["inputs", "fault_sequences"],
 "All peer byte streams: garbage of any length and content (including near-terminators), announced packet lengths over the full 24-bit range, random and mutated bytes, any fragmentation.",
 "Tests check one oversized handshake decoy and one garbage length each side of the limit through the sans-I/O call; memory use, bytes consumed and the session readers are not looked at.",
 [H, IO, FU, LIB],
 [("garbage limit", "handshake.rs split_garbage MAX_NUM_GARBAGE_BYTES"), ("allocation limit", "lib.rs MAX_PACKET_SIZE_FOR_ALLOCATION, io.rs, futures.rs"), ("minimum sizes", "lib.rs validate_ciphertext_size")],
 ["result of handshake/read", "bytes taken from the transport", "largest allocation made inside the call"])

prop("C10", "Interrupted calls and short transfers are invisible to the caller",
 "A transport call that is interrupted by a signal, transfers fewer bytes than asked for, or is polled without being ready never changes the outcome: blocking handshakes, reads and writes retry interrupted calls, and blocking and async operations alike produce the same payloads and the same bytes on the wire as with a transport that always transfers everything.",
 ["fault_sequences", "schedules"],
 "Interruptions at any read or write call, any pattern of short reads and writes and spurious not-ready polls, at every stage of handshake and session.",
 "No test transport ever interrupts, shortens or delays a call, so none of the retry paths run.",
 [IO, FU],
 [("read_exact / write_all retry loops", "io.rs"), ("explicit garbage read loop", "io.rs handshake_with_initialized"), ("async write_all/read loops", "futures.rs")],
 ["result of every call", "payloads delivered", "bytes on the wire"])

prop("C11", "Background shaping never corrupts, reorders or loses the application's data",
 "With traffic shaping in any configuration, the genuine payloads the peer receives are exactly those the application wrote, in order, each once, and the peer can authenticate every packet, however the background decoy worker, the application's writes and reads, and transport back-pressure interleave. Decoys are always marked as decoys, so a receiver that skips decoys sees only application data. Every application write completes a bounded time after the transport accepts data again.",
 ["schedules", "configurations", "histories"],
 "All interleavings of the decoy thread or task with application writes and reads, all shaping configurations, all transport stalls and back-pressure, blocking and async.",
 "The traffic tests only construct and drop a shaped protocol; none writes while the background worker is sending, and the integration tests against bitcoind cannot run offline and sample one schedule.",
 [TI, TF, TL],
 [("writer mutex", "traffic/src/io.rs WriterState"), ("single writer task", "traffic/src/futures.rs writer_task"), ("padding then payload", "ShapedProtocolWriter::write")],
 ["packets decoded by the peer", "results and times of write"],
 [("WriterState", "cipher and shaper shared with the decoy thread", "traffic/src/io.rs")],
 "guarded yield points before atomic and mutex operations in traffic/src")

prop("C12", "Shaping sends exactly what its configuration asks for",
 "With padding and decoys disabled a shaped endpoint sends no garbage, no decoys and only the application's packets. With random padding every application payload is accompanied by its own decoy packet adjacent to it, and the handshake garbage is random and at most 4095 bytes; with random decoys the handshake carries at most three decoys. Every decoy sent carries 1 to 1024 bytes, sizes vary randomly, and neither feature causes the other's traffic.",
 ["configurations", "histories", "schedules"],
 "All four strategy combinations, all write histories and schedules, blocking and async, both roles.",
 "Unit tests look at one call of the private shaper with a stepping mock generator; what reaches the wire under the real generator and scheduler is never examined.",
 [TL, TI, TF],
 [("handshake shaping", "traffic/src/lib.rs TrafficShaper::handshake"), ("padding", "TrafficShaper::pad"), ("cover traffic", "TrafficShaper::decoy")],
 ["handshake and session packets decoded by an independent peer"])

prop("C13", "Cover traffic keeps flowing while the connection is open",
 "With random decoys enabled, an endpoint keeps sending decoys for as long as its writing half is alive and the transport accepts data: in every idle minute at least one decoy appears, also while reads are pending, after the reading half is gone, between and after application writes, and within a minute of the end of a transport stall. With decoys disabled none ever appears on an idle connection.",
 ["schedules", "histories", "fault_sequences"],
 "Long simulated periods with arbitrary application activity, stalls, clock jumps and scheduling of the background worker.",
 "Needs minutes of waiting per case and control of time; tests never wait for a single background decoy.",
 [TI, TF, TL],
 [("decoy thread", "traffic/src/io.rs decoy_thread"), ("interval tick", "traffic/src/futures.rs writer_task"), ("decoy decision", "traffic/src/lib.rs TrafficShaper::decoy")],
 ["times of decoy packets decoded by the peer"])

prop("C14", "Dropping a shaped connection stops its worker and releases the transport",
 "Once the shaped protocol, or its writing half, is dropped, the background worker ends, nothing more is written, and the underlying writer is released so the peer sees the stream end, all within about a second of the transport being able to make progress. For the blocking interface this has happened by the time the drop returns. Everything successfully written before the drop is still delivered, and a failed handshake leaves no worker behind.",
 ["schedules", "crash_points"],
 "Dropping at any moment: right after creation, idle, while a decoy is being written, during a stall, with cancelled writes still queued, after errors, whole or split in either order.",
 "The existing drop tests only check that drop returns; they cannot see a worker that lives on, and the moment of the drop relative to the worker is one sample.",
 [TI, TF],
 [("shutdown flag and join", "traffic/src/io.rs Drop for ShapedProtocolWriter"), ("channel closure ends the task", "traffic/src/futures.rs writer_task")],
 ["bytes after the drop", "end of stream at the peer", "live threads", "duration of drop"])

prop("C15", "A write reported successful is really deliverable",
 "If every call on a writer so far has succeeded, everything it reported as written reaches a peer whose transport delivers the accepted bytes, flushed and decryptable. This includes failures nobody called for: after a background decoy could not be sent completely, or when a payload is too long for the protocol's length field, the writer must report an error rather than success. After an error has been reported, the peer still only ever sees a prefix of what was written.",
 ["fault_sequences", "schedules", "inputs"],
 "All write failures (one-shot or lasting, before or part way through a packet, on write or flush, hitting application packets, padding or background decoys), all payload lengths, blocking and async, shaped and plain.",
 "No test injects a failing write; whether a failure hits the background decoy is a matter of schedule, and oversized payloads are never tried.",
 [IO, FU, LIB, TI, TF],
 [("write and flush", "io.rs / futures.rs ProtocolWriter::write"), ("decoy write errors", "traffic/src/io.rs decoy_thread, traffic/src/futures.rs writer_task"), ("length field", "lib.rs OutboundCipher::encrypt")],
 ["results of write against payloads decoded by the peer"])

prop("C16", "Traffic statistics stay exact under concurrency and clock changes",
 "When any number of threads record reads and writes concurrently, no record is lost or double counted: once they are done the reported write/read ratio is exactly total bytes written over total bytes read (absent if nothing was read), and while they run it is explained by records begun so far. The time since last activity is the age of the latest record (or of creation if there was none), up to overlap of concurrent calls, and no forward or backward step of the system clock makes any call panic or report a time outside what the clock readings allow.",
 ["schedules", "fault_sequences", "histories"],
 "All interleavings of recording and querying threads at the granularity of atomic operations, all clock steps (after the epoch).",
 "The tests use one thread and the real clock; lost updates need a preemption between atomic operations and clock steps cannot be produced in a test.",
 [TL],
 [("atomic counters", "traffic/src/lib.rs AtomicTrafficStats"), ("saturating elapsed time", "time_since_last_activity")],
 ["write_read_ratio", "time_since_last_activity"],
 [("bytes_read, bytes_written, last_activity_ms", "counters", "traffic/src/lib.rs")],
 "guarded yield points before atomic operations in traffic/src")

prop("C17", "Every connection uses fresh secrets",
 "No two connections of a process, even if started at the same instant in different threads or tasks or with the same peer bytes, share an ephemeral public key, garbage terminator, session identifier, or random shaping material such as garbage and handshake decoys. Restarting the process at the same clock time with different operating-system entropy also yields different keys.",
 ["schedules", "histories", "crash_points"],
 "All sets of connections opened sequentially or concurrently at equal or different simulated times, with a replayed peer, across restarts.",
 "A constant, clock-derived or thread-shared seed passes every functional test; only comparing many connections under a controlled clock and entropy source reveals it.",
 [H, TL, LIB],
 [("ephemeral key generation", "handshake.rs Handshake::new"), ("shaper generator", "traffic/src/lib.rs TrafficShaper::new")],
 ["handshake bytes on the wire", "session identifiers"])

prop("C18", "Calls that fail for a short buffer or a bad packet leave the session unharmed",
 "An encrypt or decrypt call refused because the caller's buffer is too small, the contents exceed what the length field can say, or the supplied packet is too short or does not authenticate returns that error, changes nothing in the session, never panics, and names the required size where documented (so do the handshake calls that fill a buffer). Repeating the call with a large enough buffer or the right packet then succeeds, and the stream of packets on both sides continues as if the failed calls had never happened, at any point in the session including around key rotations.",
 ["histories", "fault_sequences", "inputs"],
 "All histories mixing good calls with refused ones (any undersized length, any truncation, any alteration) on both ciphers, in all three decrypt variants.",
 "Tests check the returned error of a few single calls but never that the session still works afterwards, nor the allocating variant with very short packets.",
 [LIB],
 [("size validation before state changes", "lib.rs OutboundCipher::encrypt, InboundCipher::decrypt, decrypt_in_place, decrypt_to_vec")],
 ["results of later calls", "bytes produced"])

prop("C19", "The two directions of a connection do not affect each other",
 "Corruption, closure or failure of one direction, or dropping or pausing the half that handles it, never changes what the other direction delivers: everything written in the healthy direction is delivered exactly once, in order, and its calls keep succeeding and completing in bounded time. This holds for whole and split endpoints, with and without traffic shaping, blocking and async.",
 ["fault_sequences", "schedules"],
 "All faults on one direction (tampering, end of stream, errors, stalls) at any point of the session, combined with any traffic in the other direction and any order of dropping halves.",
 "Tests never damage one direction while using the other, and never use split halves concurrently.",
 [IO, FU, TI, TF, LIB],
 [("separate inbound and outbound ciphers", "lib.rs CipherSession::into_split"), ("split halves", "io.rs, futures.rs, traffic/src")],
 ["payloads delivered in the healthy direction", "results of its calls"])

prop("C20", "Sessions work at any age",
 "A session that has already carried any number of packets, including more than 2^32 in a direction, keeps encrypting and decrypting as BIP-324 prescribes, rotating keys on schedule, without panicking, repeating a keystream or losing synchronisation with a conforming peer.",
 ["histories"],
 "All packet counts a long-lived connection can reach, in each direction, including those around every internal counter width and around key rotations.",
 "Reaching the interesting counts takes billions of packets; the test vectors stop at a few million.",
 [FS, LIB],
 [("counters and rotation", "fschacha20poly1305.rs FSChaCha20, FSChaCha20Poly1305")],
 ["bytes produced and payloads decoded by an aged session"],
 [("message_counter, chunk_counter", "packets processed so far", "fschacha20poly1305.rs")],
 "guarded fast-forward of the packet counters of a cipher session")

prop("C21", "Blocking, async and sans-I/O interfaces behave the same",
 "Given the same inbound byte stream, with the same faults, the blocking, async and sans-I/O interfaces return the same payloads and the same kind of outcome (success, V1 peer, missing terminator, packet too big, authentication failure, or connection lost with the same retry suggestion). They also send the same sequence of packets for the same writes.",
 ["inputs", "fault_sequences", "configurations"],
 "All inbound streams from a conforming or hostile peer, cut or tampered at any point, all fragmentations, both roles.",
 "The interfaces are separate code with separate tests; nothing compares them.",
 [IO, FU, H, LIB],
 [("duplicated handshake drivers", "io.rs handshake_with_initialized, futures.rs handshake"), ("duplicated readers", "io.rs / futures.rs ProtocolReader::read")],
 ["outcomes of the same scripted peer against each interface"])

prop("C22", "Connections of one process do not affect each other",
 "Several connections opened by one process, in any mix of interfaces, threads and tasks of one runtime, behave as if each were alone. Whatever happens to some of them (a stalled or slow peer, a stuck or abandoned handshake, hostile bytes, authentication failures, transport errors, paused readers, dropped handles), the others still complete their handshakes, deliver every payload exactly once, keep their cover traffic going, shut down promptly and report no error of their own.",
 ["schedules", "fault_sequences", "configurations"],
 "All sets of connections of one process with any faults on some of them, all schedules of their threads and of their tasks sharing one runtime thread.",
 "Every test uses one connection at a time; state shared by accident (a static or thread-local buffer kept across an await, a global lock held during I/O, a process-wide flag or limit, work that blocks the runtime thread) only shows when connections interleave and one of them is in trouble.",
 [IO, FU, H, TI, TF, TL],
 [("per-connection state", "io.rs, futures.rs Protocol"), ("one background worker per connection", "traffic/src/io.rs decoy_thread, traffic/src/futures.rs writer_task"), ("shared secp256k1 context and thread generator", "handshake.rs Handshake::new")],
 ["everything observed of the connections without faults"])

prop("C23", "A connection's resources stay bounded, and all are released when it ends",
 "While a connection is open, the memory it holds is bounded by a constant plus the packets in progress, however many packets, decoys and garbage bytes it has processed and however many calls failed or were cancelled. When its halves are dropped, or its handshake fails or is abandoned at an await, both of its transports are released promptly and nothing it allocated stays allocated. (Payloads of shaped async writes whose caller gave up remain queued until sent.)",
 ["histories", "fault_sequences", "schedules"],
 "All histories of packets, failed and cancelled calls on long sessions and long handshakes, all sets of connections that end in any way, including handshakes abandoned at any await.",
 "Tests are short and never look at memory; growth per packet, per error or per cancelled call, or a reference cycle that keeps a finished connection, is invisible until a process has run for long.",
 [IO, FU, H, TI, TF, LIB],
 [("packet buffers dropped per call", "io.rs, futures.rs read/write"), ("garbage buffer handed over as leftover", "ProtocolSessionReader"), ("worker owns the writer", "traffic/src/io.rs, traffic/src/futures.rs")],
 ["live heap bytes of the code under test", "when the transports are dropped"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
