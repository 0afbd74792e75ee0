#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in (state or [])],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": observe or [], "hook_needed": hook}})

SW="src/swarm/"
prop("C01","Uploaded blocks are authentic",
 "Every block the client uploads to a peer is byte-for-byte the torrent content at the (piece, offset, length) it is labelled with, answers a request that this same peer sent, and lies entirely inside a piece whose on-disk data matched its hash. This holds however many peers are served at once and however requests interleave, including requests for the short last piece and for ranges outside a piece, which must never be answered with bytes that are not content of that piece.",
 ["schedules","inputs","histories"],"all interleavings of any number of peers' requests, all request ranges, all TCP segmentations, any torrent layout",
 "No existing test runs a peer connection at all; cross-connection buffer sharing or stale-buffer leaks need concurrent connections and particular request orders.",
 [SW+"msghandler.go",SW+"peerhandler.go","src/torrent/fileio/fileio.go","src/p2p/piece.go"],
 [("handleRequest reads the piece and slices the requested range",SW+"msghandler.go:handleRequest"),("per-connection piece buffer",SW+"peerhandler.go:NewPeerHandler")],
 [("buf","per-peer piece buffer, reused between requests",SW+"peerhandler.go")],["bytes on the peer's TCP connection"])
prop("C02","Each valid request is answered exactly once, whatever the segmentation",
 "Every well-formed block request (range inside a piece the client has) sent on an accepted connection that stays open and is being read is answered by exactly one block message, in the order the requests were sent. This holds for every way TCP may split, delay or coalesce the byte stream and for every mix with other protocol messages (keep-alive, choke, unchoke, interested, have, bitfield, cancel, unknown types) sent before, between or after them; a peer that sends only well-formed messages and keeps reading is not disconnected.",
 ["schedules","inputs","histories"],"all segmentations/coalescings/delays of the peer's byte stream, all message mixes, all schedules",
 "Decoder tests feed whole messages in one slice; nothing tests messages split over several reads, mixed with others in one read, or a running connection.",
 [SW+"peerhandler.go",SW+"msghandler.go","src/p2p/message.go","src/io/readloop.go"],
 [("recvLoop / handleMessage decode loop",SW+"peerhandler.go:recvLoop"),("DecodeAll","src/p2p/message.go:DecodeAll")],
 None,["block messages on the peer's TCP connection"])
prop("C03","Hostile or broken peers cannot take the client down",
 "No sequence of bytes sent by any peer, before or after the handshake, under any segmentation and any way of disconnecting, makes the client process crash, exit or hang: new peers can still connect and honest peers continue to be served within bounded time. The offending connection alone is affected: it is either closed or goes on being served, and handling its data ends in bounded time.",
 ["inputs","schedules","fault_sequences"],"all peer byte streams (valid, truncated, mutated, adversarial lengths/indices), all segmentations, abrupt resets at any byte",
 "Tests check a handful of malformed messages in isolation; none reaches length-prefix overflow, out-of-range requests, zero-length bitfields or a reset in mid-message on a running client.",
 ["src/p2p/message.go","src/p2p/piece.go","src/p2p/bitfield.go","src/bf/bitfield.go",SW+"msghandler.go",SW+"peerhandler.go",SW+"swarm.go"],
 [("Decode length validation","src/p2p/message.go:Decode"),("request range validation",SW+"msghandler.go:handleRequest"),("bitfield length validation",SW+"msghandler.go:handleBitfield")],
 None,["process liveness","service to a control peer"])
prop("C04","Only peers with this torrent's handshake get anything, and all of them do",
 "On an incoming connection the client sends nothing until it has received a complete handshake with the BitTorrent protocol string and this torrent's info-hash; then it sends exactly one handshake (protocol string, info-hash, own 20-byte id) followed by one bitfield message whose set bits are exactly the pieces it has. A correct handshake that arrives completely within one second is accepted however TCP splits it or whatever data follows it at once, and a connection whose handshake is wrong, truncated or not completed in time is closed by the client in bounded time.",
 ["schedules","inputs","fault_sequences"],"all handshake byte strings, segmentations, delays, early closes and resets",
 "There is no test of the handshake; a fragmented handshake or a connection that stalls half-way needs controlled network timing.",
 [SW+"handshake.go",SW+"peerhandler.go",SW+"swarm.go","src/p2p/bitfield.go","src/bf/bitfield.go"],
 [("FromIncoming",SW+"peerhandler.go:FromIncoming"),("ValidHandshake",SW+"handshake.go:ValidHandshake")],
 None,["bytes on the TCP connection","connection close"])
prop("C05","The have-set after startup is exactly what is on disk",
 "Whatever the torrent's files contain when the client starts (missing, short, too long, partly written by an interrupted earlier run, torn or corrupted), once it is up it advertises and serves exactly the pieces whose bytes on disk have the hash recorded in the torrent, and no others. If storage errors prevent that from being established, startup fails with an error instead of advertising a guess.",
 ["crash_points","inputs","fault_sequences"],"all file states, crash points of an earlier run (process crash or power loss), storage read errors and short reads during verification, torrent layouts",
 "Tests read back only files they wrote completely; none starts the client, corrupts a file, crashes mid-write or injects a read error.",
 [SW+"swarm.go","src/torrent/fileio/fileio.go","src/utils/futils.go","src/bf/bitfield.go"],
 [("Swarm.Validate",SW+"swarm.go:Validate"),("OCAT","src/utils/futils.go:OCAT")],
 [("Bf","our have-bitfield",SW+"swarm.go")],["bitfield message on the wire","which requests are answered"])
prop("C06","Starting up never destroys downloaded data",
 "Opening a torrent's files never alters any existing byte inside the declared length of a file: files are only created, extended with zero bytes up to, or cut off beyond, their declared length. This holds at every crash point during startup and under every transient or permanent storage error (failing open, stat, mkdir, write, truncate, full disk, descriptor exhaustion), after which an unharmed restart still finds all pieces that were good before.",
 ["crash_points","fault_sequences","inputs"],"all storage-error sequences and crash points during startup, all pre-existing file states",
 "The file-utility tests create fresh files on a healthy disk; an open that fails on an existing file, or a crash in the middle of startup, is never exercised.",
 ["src/utils/futils.go","src/torrent/fileio/fileio.go"],
 [("OCAT open-or-create","src/utils/futils.go:OCAT"),("CreateZeroFilledFile","src/utils/futils.go:CreateZeroFilledFile"),("AppendZeros","src/utils/futils.go:AppendZeros")],
 None,["file contents on the simulated disk"])
prop("C07","Piece storage is a verified, linearizable piece store under faults",
 "Concurrent piece reads and writes on an open torrent behave like a simple array of pieces: a write of data with the wrong hash or size is refused and changes nothing, a successful write makes exactly that piece's bytes appear at their place in the torrent's files and nothing else change, and a read that reports success returns exactly the piece's current bytes and their count (a read overlapping a write of the same piece may see the old or the new bytes, file by file). A storage error (failed or short read or write, full disk) is reported as an error by the operation that met it, never as success with wrong data, and leaves every other piece intact.",
 ["schedules","fault_sequences","histories","inputs"],"all interleavings of readers and writers, all torrent layouts (pieces spanning several files, empty files, short last piece), all I/O error placements",
 "Tests write and read pieces sequentially on a healthy disk with two small layouts; no concurrency, no I/O error, no refused write is tested.",
 ["src/torrent/fileio/fileio.go","src/torrent/info/info.go","src/torrent/info/piecemap.go","src/torrent/filesd/entry.go","src/torrent/filesd/flist.go"],
 [("WritePiece hash check and scatter","src/torrent/fileio/fileio.go:WritePiece"),("ReadPiece gather","src/torrent/fileio/fileio.go:ReadPiece"),("per-file RWMutex","src/torrent/fileio/fileio.go:lockedFp")],
 [("lfps","open files by path","src/torrent/fileio/fileio.go")],["return values","file contents on the simulated disk"])
prop("C08","A stored piece survives a crash and is recognised on restart",
 "If storing a piece reported success and the process then crashes at any later instant (including in the middle of other piece writes, moves or closes), a restarted client finds that piece complete and has it; a piece whose write had not finished is either complete or treated as missing. Restarting any number of times with crashes during recovery itself does not lose any such piece.",
 ["crash_points","histories","schedules"],"all process-crash points (the OS page cache survives), repeated crashes during recovery, all concurrent piece writes in flight",
 "No test crashes or restarts anything.",
 ["src/torrent/fileio/fileio.go","src/utils/futils.go",SW+"swarm.go"],
 [("unbuffered WriteAt to the file","src/torrent/fileio/fileio.go:write"),("rehash of all pieces on start",SW+"swarm.go:Validate")],
 None,["have-set after restart","file contents on the simulated disk"])
prop("C09","Configured rate limits are never exceeded",
 "While the limiter runs (its clock task not itself starved of the processor for more than a period) with a limit of R bytes per second (R >= 1) in some direction, any number of concurrent transfers in that direction together never start more than R bytes plus one transfer per one-second accounting period, so over any interval of T seconds at most (T+2) times (R plus the largest single transfer). Reads and writes are limited independently, and with no limit set transfers are not delayed.",
 ["schedules","inputs","histories"],"all interleavings of concurrent readers/writers with the period reset, all sizes and limits, limit changes at run time",
 "The limiter has no tests; overshoot needs several goroutines passing the admission check together or racing with the period reset.",
 ["src/io/ratelimit.go","src/utils/opts.go",SW+"swarm.go"],
 [("admission under wlock/rlock","src/io/ratelimit.go:Write"),("counter reset each tick","src/io/ratelimit.go:Run")],
 [("wUsed/rUsed","bytes admitted in the current period","src/io/ratelimit.go")],["times and sizes of transfers at the underlying reader/writer"])
prop("C10","Rate-limited transfers complete, in full, exactly once",
 "Every rate-limited write hands the caller's bytes to the destination exactly once and in full, every rate-limited read that reports success fills the whole buffer with the source's next bytes however the source chops them up, and an error of the underlying reader or writer is returned to the caller of that transfer only. While the limiter runs with a limit of at least one byte per second no transfer waits forever: with n transfers pending all of them start within n+2 accounting periods, also when an earlier transfer is blocked in its destination or failed.",
 ["schedules","fault_sequences","histories"],"all schedules of concurrent transfers, short reads, failing or blocking endpoints, limits and limit changes",
 "The limiter has no tests; starvation, a lost or doubled write, or a short read only show with concurrent callers, slow endpoints or chopped sources.",
 ["src/io/ratelimit.go"],
 [("Write","src/io/ratelimit.go:Write"),("Read","src/io/ratelimit.go:Read"),("Run","src/io/ratelimit.go:Run")],
 None,["data at the underlying reader/writer","return of the call in simulated time"])
prop("C11","A piece is never assigned to two peers at once",
 "For every interleaving of peers joining, announcing pieces, asking for the next piece and leaving, the piece chosen for a peer is one that this peer has announced, that the client still needs, and that is not currently assigned to any connected peer; a request is refused only if no such piece exists. Pieces assigned to a peer that leaves become assignable again, pieces assigned to the others stay reserved, and the whole behaves as if the operations ran one at a time.",
 ["schedules","histories"],"all concurrent histories of announce/next/leave over any number of peers and pieces",
 "The existing test asks each peer once, sequentially, for distinct pieces; it never asks two peers for the same piece, never re-assigns after a leave and never runs concurrently.",
 [SW+"piecetracker.go","src/utils/ds/linklist.go","src/utils/ds/set.go"],
 [("active flag under mutex",SW+"piecetracker.go:NextPiece"),("release on leave",SW+"piecetracker.go:Unregister")],
 [("requests","pieces being fetched per peer",SW+"piecetracker.go"),("active","piece is being fetched",SW+"piecetracker.go")],["results of the next-piece calls"])
prop("C12","Rarest first, at any swarm size",
 "The piece chosen for a peer is always one with the fewest connected holders among the pieces that could be chosen for it at that moment, for any history of announcements and departures. Availability accounting works for any number of peers, including more holders of one piece than the tracker has rarity classes: nothing crashes, pieces never get lost or duplicated, and counts recover exactly when holders leave (pieces with 63 or more holders count as equally common).",
 ["histories","schedules","configurations"],"all histories of announce (repeated ones included) and leave, up to well over 64 holders per piece, all schedules",
 "The existing test uses at most four peers; class overflow, repeated announcements and leave/rejoin histories are never reached.",
 [SW+"piecetracker.go","src/utils/ds/linklist.go"],
 [("buckets by holder count",SW+"piecetracker.go:register"),("bucket demotion",SW+"piecetracker.go:Unregister")],
 [("buckets","pieces by number of holders",SW+"piecetracker.go")],["results of the next-piece calls"])
prop("C13","The connection reader delivers exactly the received byte stream",
 "For every way data arrives and every schedule, the chunks handed to the consumer of a connection reader concatenate to exactly the bytes received, in order, with none lost, repeated or altered, and a chunk does not change before the consumer has declared itself ready for the next one. When the connection ends, fails or stays silent for the idle timeout, the consumer is told once, with the cause, and only after it got all the data that came before.",
 ["schedules","inputs","fault_sequences"],"all arrival patterns, buffer sizes, consumer speeds, errors (also together with data) and timeouts at any point",
 "The connection reader has no test.",
 ["src/io/readloop.go"],
 [("Run / Ready hand-over of the single buffer","src/io/readloop.go:Run"),("chReady","src/io/readloop.go:Ready")],
 [("buf","the one receive buffer","src/io/readloop.go")],["chunks and errors seen by the consumer"])
prop("C14","A finished connection leaves nothing behind",
 "When a peer connection ends in any way and at any point (remote close, reset, timeout, protocol error, failing write, local stop), then within bounded time the client has closed the socket, every task and ticker working for that connection has ended, the peer no longer counts as a holder of any piece, and pieces being fetched from it can be fetched from others. Stopping a connection reader always ends its run promptly, whether it is waiting for data, handing over data or has already failed, and the stop request itself returns.",
 ["schedules","fault_sequences","histories"],"all disconnect causes at all points of the connection's life, all schedules of its tasks, several failures at once",
 "No test opens or closes a peer connection.",
 [SW+"peerhandler.go",SW+"swarm.go","src/io/readloop.go",SW+"piecetracker.go"],
 [("Loop error handling and kill channel",SW+"peerhandler.go:Loop"),("Finish","src/io/readloop.go:Finish"),("Unregister",SW+"piecetracker.go:Unregister")],
 [("procs","tasks of one connection",SW+"peerhandler.go")],["open sockets and live tasks in the simulator","requests to other peers"])
prop("C15","Connections are kept alive exactly as long as they should be",
 "On every established, otherwise quiet connection the client sends a message at least every two minutes, and a peer from which some data arrives at least every 110 seconds (keep-alives alone suffice) is not disconnected for silence. A peer that sends nothing at all but keeps reading is disconnected after two minutes (give or take ten seconds), not much earlier and not never; one that neither sends nor reads is disconnected in bounded time too.",
 ["schedules","histories","fault_sequences"],"all traffic patterns over hours of connection life, delays and segmentation",
 "Needs minutes to hours of connection time; no test runs a connection.",
 [SW+"peerhandler.go","src/io/readloop.go","src/p2p/keepalive.go"],
 [("pingLoop",SW+"peerhandler.go:pingLoop"),("read deadline renewed per read","src/io/readloop.go:Run")],
 None,["keep-alives and closes on the wire in simulated time"])
prop("C16","A stalled peer does not hold up the others",
 "Peers that stop reading, read very slowly, go silent in mid-message, or vanish without closing never stop the client from accepting new connections or from serving other connected peers within bounded time. This also holds with an upload limit in force: no peer's blocked connection keeps others from getting their share.",
 ["schedules","fault_sequences"],"all patterns of stalled/slow/black-holed peers with full socket buffers beside live peers, limited and unlimited upload",
 "Needs back-pressure on one connection while another is being served; nothing in the tests does that.",
 [SW+"peerhandler.go",SW+"msghandler.go",SW+"swarm.go","src/io/ratelimit.go"],
 [("one task set per connection",SW+"swarm.go:runListener"),("limiter lock released before the write","src/io/ratelimit.go:Write"),("per-file read locks","src/torrent/fileio/fileio.go:read")],
 None,["service times of live peers in simulated time"])
prop("C17","Outgoing connections: handshake first, verified, nothing lost",
 "On every connection the client opens to a peer named by the tracker, the first bytes it sends are exactly one correct handshake, and it treats the peer as part of the swarm (unchokes it, requests from it, serves it) only after receiving that peer's complete handshake for this torrent; otherwise it closes the connection in bounded time. Data that arrives in the same segment as the peer's handshake, or split anywhere, is processed like any other, and unreachable, refusing or resetting peers affect no other connection.",
 ["schedules","fault_sequences","inputs"],"all peer lists and dial outcomes, all replies, segmentations, delays and resets around the handshake",
 "No test dials a peer.",
 [SW+"peerhandler.go",SW+"handshake.go",SW+"swarm.go"],
 [("FromBootstrap",SW+"peerhandler.go:FromBootstrap"),("one task per peer",SW+"swarm.go:Start")],
 None,["bytes on the outgoing TCP connection"])
prop("C18","Download requests cover each chosen piece exactly, from one peer at a time",
 "Whenever the client decides to fetch a piece from a peer, the request messages it sends on that connection cover that piece exactly once (no gap, overlap or excess, each at most 16 KiB, the short last piece included), and only pieces that this peer announced and that the client lacks are requested. No piece is requested from two connected peers at the same time, and if a connected peer with no fetch outstanding has announced, by bitfield or have message, missing pieces that nobody else is fetching, it is sent requests within bounded time.",
 ["schedules","inputs","histories"],"all torrent geometries, partial have-sets, peer bitfields, peers coming and going, schedules",
 "No test drives the request loop; request messages have no encoding test.",
 [SW+"peerhandler.go",SW+"piecetracker.go","src/p2p/request.go",SW+"msghandler.go"],
 [("createReqMessages",SW+"peerhandler.go:createReqMessages"),("requestLoop",SW+"peerhandler.go:requestLoop"),("handleBitfield",SW+"msghandler.go:handleBitfield")],
 None,["request messages on the wire"])
prop("C19","Tracker contact is truthful and startup survives a bad tracker",
 "The announce goes to the torrent's announce URL (its own query kept) and carries this torrent's info-hash, the client's own id (the same one used in its handshakes), its listening port and the true number of bytes still missing, and every peer in a valid answer (compact or dictionary form, with IP addresses and ports up to 65535) is contacted at exactly the address given. If the tracker is unreachable, stalls, breaks off or answers with an error or garbage, startup ends with an error in bounded time, without a crash and without touching the data.",
 ["fault_sequences","inputs","schedules"],"all tracker behaviours: refusal, stall at any byte, truncated or corrupted body, failure reasons, any valid peer list; any have-set",
 "The tracker tests parse one well-formed compact answer; no request is ever made, no fault injected.",
 ["src/tracker/tracker.go","src/tracker/stats.go",SW+"swarm.go","src/bencode/decode.go","src/utils/utils.go"],
 [("Get/do/newRequest","src/tracker/tracker.go"),("newResponse","src/tracker/tracker.go:newResponse")],
 None,["request seen by the simulated tracker","dials on the simulated network","process exit"])
prop("C20","Only the torrent's own files inside the download directory are touched",
 "Starting the client on any torrent file, including malformed, truncated, bit-flipped or malicious ones, never creates, opens for writing, truncates, renames or removes anything other than the torrent's declared files (and their parent directories) beneath the download directory. Metadata that is malformed, contradicts itself (a file named twice, or being another one's directory) or would lead outside that directory is refused with an error, without a crash and before any file is touched.",
 ["inputs","fault_sequences","crash_points"],"all metainfo contents (names, paths, sizes, piece counts), corruption of the stored torrent file, storage errors during startup",
 "Tests parse three honest torrent files; none has hostile names, inconsistent sizes, truncation or flipped bytes.",
 ["src/torrent/info/info.go","src/torrent/filesd/entrybase.go","src/torrent/filesd/flist.go","src/torrent/info/piecemap.go","src/torrent/torrent.go","src/utils/futils.go"],
 [("FromDict path joining","src/torrent/info/info.go:FromDict"),("MakePieceMap byte accounting","src/torrent/info/piecemap.go:MakePieceMap")],
 None,["every path operation on the simulated disk","process exit"])
prop("C21","A created torrent describes the files as they are, or creation fails",
 "Creating torrent metadata from a list of files yields, for any file sizes, any piece length from 1 byte up to 128 MiB and however the operating system splits the reads, exactly the piece hashes, lengths and file list of the concatenated content, so that opening the same files with it finds every piece complete. If the piece length is not positive, or any file cannot be opened or read to its end, creation returns an error, in bounded time, instead of metadata, and leaves no file open.",
 ["fault_sequences","inputs"],"all read-splitting patterns and I/O error placements, all file sizes and piece lengths around the internal buffer size",
 "The creation tests hash three trees with one piece length each on a healthy disk; short reads, read errors and large piece lengths are not reached.",
 ["src/torrent/info/info.go","src/utils/utils.go"],
 [("CreateTorInfo buffer loop","src/torrent/info/info.go:CreateTorInfo"),("SegmentData","src/utils/utils.go:SegmentData")],
 None,["returned metadata","open descriptors on the simulated disk"])
prop("C22","Transient accept failures do not end the service",
 "A failure to accept one connection (aborted connection, descriptor exhaustion, out of buffers) does not terminate the client or its listening: existing connections go on being served, and once the condition passes new peers are accepted again within bounded time.",
 ["fault_sequences","schedules"],"all sequences and bursts of temporary accept errors at any point of the client's life",
 "No test runs the listener, let alone with failing accepts.",
 [SW+"swarm.go"],[("runListener accept loop",SW+"swarm.go:runListener")],
 None,["process liveness","service to peers before and after"])
prop("C23","Everything sent on a connection is a well-formed message stream",
 "The bytes the client sends on any one connection are always one handshake followed by a sequence of complete, correctly framed protocol messages (the last one may be cut off only where the connection ended), even though keep-alives, replies, requests and choke messages are sent by concurrently running tasks, with back-pressure, partial progress of writes, rate limiting and slow readers. No message is interleaved with another, sent twice or sent before the handshake; the bitfield, if sent, is the first message.",
 ["schedules","fault_sequences"],"all interleavings of the tasks writing to a connection, all send-buffer sizes, slow readers, resets",
 "No test has two writers on one connection.",
 [SW+"peerhandler.go",SW+"msghandler.go","src/io/ratelimit.go","src/p2p/message.go"],
 [("one conn.Write per message",SW+"peerhandler.go"),("RateLimitIO.Write","src/io/ratelimit.go:Write")],
 None,["byte stream received by the peer"])
prop("C24","File handles are managed correctly under concurrency and errors",
 "Closing all files releases every open file even if closing some of them fails, and still reports the failure; a read, write or close of a closed or unknown file, and a move of an unknown one, returns an error and changes nothing. Moving a file while pieces are being read or written neither loses nor corrupts data: operations succeed or report an error, never wrong data, and the moved file holds everything written successfully.",
 ["schedules","fault_sequences","histories"],"all interleavings of piece reads/writes with close and move, errors of close and rename at any file",
 "Tests close healthy files once at the end; no failing close, no move, no use after close.",
 ["src/torrent/fileio/fileio.go"],
 [("CloseAll","src/torrent/fileio/fileio.go:CloseAll"),("Move","src/torrent/fileio/fileio.go:Move"),("per-file lock","src/torrent/fileio/fileio.go:lockedFp")],
 None,["return values","descriptors and contents on the simulated disk"])

# ---- pure functions of their input: listed, not claimed (see MANIFEST not_applicable)
def pure(id,title,st,files,mech,why):
    prop(id,title,st,["inputs"],"all inputs",why,files,mech)
pure("N01","Bencoding round-trips and is canonical","Decoding an encoding yields the encoded value, and encoding emits the canonical form (sorted keys), for every supported value; undecodable input yields an error.",["src/bencode/decode.go","src/bencode/encode.go"],[("Encode/Decode","src/bencode")],"Tests use a few dozen literals.")
pure("N02","The info-hash is the SHA-1 of the torrent's info dictionary","For every valid torrent file the info-hash equals the SHA-1 of the bytes of its info dictionary as they appear in the file.",["src/torrent/torrent.go","src/bencode/encode.go"],[("FromTorrentFile","src/torrent/torrent.go")],"Tests compare three files.")
pure("N03","Message encoding and decoding are inverse","Each protocol message decodes to the fields it was encoded from and has the wire layout of BEP 3.",["src/p2p/message.go","src/p2p/request.go","src/p2p/piece.go","src/p2p/have.go"],[("Encode/Decode","src/p2p")],"Request encoding and piece decoding have no test.")
pure("N04","Bitfield set-count and completeness agree with the bits","After any sequence of bit updates by one caller the number of set bits and completeness reported match the bits.",["src/bf/bitfield.go"],[("Set/calcNset","src/bf/bitfield.go")],"Tests use a few fixed bitfields.")
pure("N05","Sizes given on the command line mean what they say","A limit such as 5K, 2M or -1B is parsed to exactly that many bytes, anything else is rejected.",["src/utils/opts.go"],[("parseSizeUnits","src/utils/opts.go")],"No test.")
pure("N06","List and set containers keep their contents","The linked list and keyed set hold exactly the elements added and not removed.",["src/utils/ds/linklist.go","src/utils/ds/set.go"],[("LinkedList, Set","src/utils/ds")],"Tests use short fixed sequences.")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
