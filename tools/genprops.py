#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

BC = "misc/beancode.go"
p("C01", "Bencode round trip",
  "Encoding any value built from integers, byte strings, lists and string-keyed dictionaries, nested up to 10 000 deep, yields well-formed bencode that denotes exactly that value, and decoding it gives an equal value back, through every public encode/decode pair. When a dictionary is followed by other bytes, the prefix decoder returns the same dictionary and exactly the number of bytes the dictionary occupies.",
  ["inputs"], "all nested values (any integers of the machine word, any byte strings including ':' and binary, any depth), any trailing bytes",
  "Tests compare a handful of literals; no test round-trips, none uses binary strings, colons, extreme integers or trailing bytes.",
  [BC], [("EncodeInteger/String/Slice/Dict", BC), ("innerDecode* recursive descent", BC), ("DecodeDictNoLimit next index", BC)],
  ["misc.Encode*/Decode* return values"])
p("C02", "Bencode decoding is total and strict",
  "For any input bytes, every decoder returns either a value or an error and never panics. Input that is not well-formed bencode - truncated or unterminated items, string lengths that overrun the input or overflow, integers with leading zeros, a minus zero, a plus sign, no digits or out of range, dictionary keys that are not strings, or (for the decoders that take a whole input) bytes after the value - is reported as an error and never as a value. Well-formed input is accepted with the value the grammar assigns to it; only input with more than 10 000 lists and dictionaries inside one another may be refused with an error instead.",
  ["inputs"], "all byte strings: grammar-generated, mutated and arbitrary",
  "Tests try about twenty short literals; malformed inputs are unbounded, and packets come from untrusted peers.",
  [BC], [("innerDecodeInteger/String/Slice/Dict bounds checks", BC), ("DecodeDict/DecodeSlice/DecodeInteger/DecodeString whole-input checks", BC)],
  ["misc.Decode* return values"])
p("C03", "Bencode encoding refuses what it cannot represent",
  "Encoding a list or dictionary that contains, at any depth, a value bencode cannot represent here (nil, floats, booleans, other integer widths, foreign slices and maps, nil containers) returns an error: it neither panics nor returns text that drops or replaces the value.",
  ["inputs"], "all nested values with unsupported leaves planted at arbitrary positions",
  "One test tries a single float in a flat list.",
  [BC], [("encodeItem type dispatch", BC)], ["misc.EncodeSlice/EncodeDict errors"])
T = "misc/types.go"
p("C04", "Typed accessors return the value or raise a typed error",
  "Reading a key (or list index) with a typed accessor returns exactly the stored value when it is present with that type, and otherwise raises the library's own error value whose text names the problem with code 201 and carries no stack trace. The or-default accessors never raise: they return the stored value when present with the right type and the default otherwise. Existence queries and case-insensitive membership agree with the contents.",
  ["inputs"], "all dictionaries and lists of decoded values, all keys and in-range indexes, all accessors",
  "Tests read a few fixed keys; their panic cases compare text only if the error branch runs.",
  [T, "misc/errors.go"], [("Dict/List getters", T), ("PanicBizErr", "misc/errors.go")], ["misc.Dict and misc.List methods", "misc.Error.Error()"])
S = "dht/krpc/server.go"; RH = "dht/requesthandler.go"; DM = "dht/messgaes.go"
p("C05", "Every valid query gets one correct reply",
  "Every well-formed ping, find_node, get_peers or announce_peer datagram of up to 1024 bytes with a 20-byte sender id is answered by exactly one datagram sent back to its source address, a response that echoes the transaction id byte for byte and carries the node's own constant 20-byte id. A find_node reply has a nodes string made of whole 26-byte entries; a get_peers reply has a token and nodes or values. This holds whatever other queries are in flight.",
  ["inputs", "histories", "schedules"], "all transaction ids, sender ids, info hashes, extra arguments and key orders; concurrent batches from several sockets",
  "Tests call the handler of one method with one fixed dictionary; nothing goes over a socket or runs concurrently.",
  [S, RH, DM, "dht/krpc/messages.go", "dht/dht.go"], [("recvPacketHandle/requestHandle", S), ("registered handlers", RH)], ["UDP datagrams sent by the running crawler"])
p("C06", "Malformed queries get an error reply without internals",
  "A query datagram whose transaction id and method are strings but which is otherwise unusable - unsupported method, missing or mistyped argument dictionary, sender id missing, mistyped or not 20 bytes, an info hash or port the method needs missing or mistyped - is answered by exactly one error message echoing the transaction id, with code 203 and a short text. The text never contains a stack trace, source path or other internals of the node.",
  ["inputs"], "all ways of breaking a valid query's method or arguments, all transaction ids",
  "One test checks one missing argument in process; the leak of a stack trace in the text was there unnoticed because that test fails.",
  [S, "misc/errors.go", "dht/krpc/messages.go"], [("requestHandle recover to WithParamErr", S), ("Error.Error printStack", "misc/errors.go")], ["UDP datagrams sent by the running crawler"])
p("C07", "No datagram stops the crawler from serving",
  "Whatever datagrams arrive - arbitrary bytes, truncated or mutated messages, hostile bencode, wrong types, responses and errors nobody asked for, oversized packets - the crawler keeps running and still answers a following valid query. A datagram that is not a query is never answered.",
  ["inputs", "histories"], "all sequences of datagrams up to the UDP size limit",
  "No test sends malformed traffic to a server.",
  [S, "dht/krpc/udp.go", BC, "dht/resphandler.go"], [("recvPacketHandle recover", S), ("receive loop", "dht/krpc/udp.go")], ["liveness of the process", "reply to a ping sent afterwards"])
p("C08", "Responses reach exactly the query they answer",
  "A sent query goes to the given address as one datagram that decodes to exactly its transaction id, type and arguments. A response datagram runs the handler of the query with the same transaction id, once, with that query, the response body and the address it came from; responses with unknown transaction ids, error messages and undecodable datagrams run no handler.",
  ["inputs", "histories", "schedules"], "all sets of outstanding queries with arbitrary transaction ids and bodies, responses in any order, duplicated ids replaced by the latest query",
  "Tests call handlers directly; correlation through the server and the socket is never exercised.",
  [S, "dht/krpc/messages.go"], [("requestMapping", S), ("responseHandle", S), ("Query", S)], ["handlers passed to krpc.NewBaseRequest", "datagrams on the wire"],
  state=[("requestMapping", "outstanding queries by transaction id", S)])
MW = "dht/krpc/middleware.go"
p("C09", "Middleware chains run each handler once, in order",
  "For any request or response middleware chain, every middleware and finally the handler run exactly once, in registration order; code after a middleware's call to continue runs after everything behind it, in reverse order, and a middleware that does not call it, or calls it twice, does not make anything run twice or be skipped. The reply is the last one written, request middleware runs only for queries and response middleware only for responses.",
  ["programs"], "all chains of up to ten middleware, each continuing zero, one or two times and writing or not writing a reply",
  "Tests use one chain of two middleware that both continue once.",
  [MW, S], [("RpcContext.Next", MW), ("doRequestHandle/doResponseHandle chain building", S)], ["order of middleware effects", "reply datagram"])
p("C10", "Handled requests are isolated from other traffic",
  "The transaction id, arguments, response body and address a handler received stay unchanged for as long as it keeps them, whatever is received or sent afterwards or at the same time, although receive buffers are reused. Concurrently handled messages never see parts of one another.",
  ["schedules", "histories"], "all interleavings of retained requests with later traffic of other sizes and contents",
  "Tests handle one message at a time and drop it at once, so a reused buffer cannot show.",
  [S, "dht/krpc/udp.go", "misc/bytespool.go"], [("string copy before decode", S), ("krpcBytesPool", S)], ["krpc.RpcContext contents kept by a handler"])
p("C11", "The crawl reaches every newly discovered node",
  "On start the crawler sends a find_node query with its own id to every configured bootstrap node. For each response to one of its find_node queries, every listed node that the routing table newly accepts is sent a find_node query at exactly the listed IPv4 address and port; an entry that cannot be reached, is rejected or is malformed does not keep the other entries from being queried. Addresses nobody mentioned are never contacted.",
  ["histories", "inputs"], "all topologies of responding nodes, with duplicate, unreachable and bucket-filling entries and trailing partial entries",
  "No test drives the response handler that does this.",
  ["dht/resphandler.go", "dht/dht.go", "dht/node.go", "cmd/root.go"], [("findNodeRespHandler", "dht/resphandler.go"), ("BootStrap", "dht/dht.go"), ("parseNodeInfo", "dht/node.go")], ["UDP datagrams received by simulated nodes"])
N = "dht/node.go"
p("C12", "Compact node and peer encodings are faithful",
  "The message constructors put nodes and peers on the wire as BEP 5 compact info - 20 id bytes, 4 address bytes and a big-endian port per node, 4 plus 2 bytes per peer, in order - and parsing gives back the same ids, addresses and ports. Every constructed query and response has exactly the fields of its message type with the given values.",
  ["inputs"], "all lists of IPv4 nodes and peers (any id bytes, any address in 4- or 16-byte form, any port), all constructor arguments",
  "Tests use one recorded packet, one peer and fixed ASCII ids.",
  [N, DM], [("joinNodeInfos/parseNodeInfo/joinPeerInfos/parsePeerInfo", N), ("With*Msg/With*Response", DM)], ["RawData() of built messages", "parsed nodes"])
R = "dht/routetable.go"
p("C13", "The routing table is a correct Kademlia table",
  "After any sequence of insertions the table holds the local node and exactly the nodes the Kademlia rule accepts: a node goes to the bucket of its common prefix length with the local id, only the bucket of the local id splits and only while capacity allows, and a full bucket rejects. A node is stored at most once, an insertion of an unknown node succeeds exactly when the node is then stored, and the reported size and fullness match the contents. Looking up a stored id finds a node with that id, other ids find nothing, and closest-node lookups return only stored nodes, each once, including a node stored under the target id.",
  ["histories", "inputs", "configurations"], "all insertion sequences, id distributions (long shared prefixes, duplicates, ids differing in one bit or in letter case), bucket sizes and capacities",
  "Tests insert hashed ids once in a fixed order and check a size; hashed ids never share long prefixes.",
  [R, N, "misc/bits.go"], [("addNode/addNodeWithsplitBucket", R), ("solvePrefixLen", R), ("NodeInfo.Equals", N)], ["AddNode, Find, FindClosest, Size, Full"],
  state=[("nodeMap/lastBucketIndex/size", "buckets by prefix length, index of the splitting bucket, node count", R)])
p("C14", "The routing table stays consistent under concurrency",
  "When many goroutines insert and look up nodes at the same time, no insertion is lost or stored twice, lookups return only nodes that were inserted, and the final table satisfies every sequential guarantee (size equals contents, bucket limits, every accepted node is found). No data race or crash occurs.",
  ["schedules", "histories"], "all interleavings of concurrent insertions and lookups",
  "Tests are single-threaded; the crawler runs up to 2000 workers on this table.",
  [R], [("RouteTable and Bucket RWMutex", R)], ["AddNode, Find, FindClosest, Size from many goroutines"])
p("C15", "Transaction ids do not repeat within a full cycle",
  "Any 65536 consecutive transaction ids, drawn by any number of concurrent callers from any starting value, are pairwise distinct, each a four-character lower-case hexadecimal string.",
  ["schedules", "inputs"], "all start values, all partitions of draws over goroutines",
  "The test prints three ids and asserts nothing.",
  [N], [("TxIdGenerator mutex and counter", N)], ["TxIdGenerator.Next"])
F = "dht/fetchtorrent.go"
p("C16", "Metadata is fetched from the address the announcer means",
  "After an announce_peer query the crawler connects over TCP to the source host of that datagram at the announced port, or at the datagram's source port when implied_port is present and positive, and asks for exactly the announced info hash. The address is valid to dial for IPv4 and IPv6 sources.",
  ["inputs"], "all source addresses (IPv4, IPv6, mapped), ports and implied_port values",
  "The test covers one IPv4 address with implied_port 0.",
  [F, RH], [("parseFetchAddr", F), ("recvInfoHash queue", F)], ["TCP connections and handshakes made by the crawler"])
W = "dht/peerwire/bep9.go"
p("C17", "Metadata that does not hash to the info hash is never returned",
  "A metadata fetch returns data only if its SHA-1 is the requested info hash, and otherwise returns an error and no data. This holds for every peer behaviour - wrong, short, long, missing, duplicated or reordered pieces, huge or negative announced sizes, malformed or oversized messages, stalls and disconnects at any byte - and every fetch ends in bounded time without crashing the process or using memory out of proportion.",
  ["inputs", "fault_sequences", "histories"], "all peer scripts, including disconnects and corruption at any point, with several fetches in parallel",
  "No runnable test connects to a peer; the only ones need hosts on the internet.",
  [W, "dht/peerwire/bep3.go", "dht/peerwire/bep10.go"], [("checksum in FetchMetaData", W), ("recover in FetchMetaData", W), ("deadlines and loop expiry", W)], ["peerwire.FetchMetaData result"])
p("C18", "Metadata is fetched completely from any conforming peer",
  "Given a responsive peer that follows BEP 3, 10 and 9 and has the metadata, a fetch succeeds and returns the metadata byte for byte. This does not depend on the metadata's size, on how TCP splits or merges the peer's bytes, on the order of the pieces, on which extension message id the peer assigned, on other messages and keep-alives mixed in, or on other fetches running at the same time.",
  ["inputs", "schedules", "histories"], "all metadata sizes (one to many pieces, exact multiples), segmentations, piece orders, peer extension ids, extra handshake fields, interleaved messages",
  "No test runs a fetch against a local peer.",
  [W, "dht/peerwire/bep3.go", "dht/peerwire/bep10.go", "dht/peerwire/peer.go"], [("readBytesByPrefixLenMsg framing", "dht/peerwire/bep3.go"), ("piece bookkeeping", W)], ["peerwire.FetchMetaData result", "bytes the crawler sends to the peer"])
p("C19", "Peer wire messages have the standard layout and parse back",
  "Handshake, extension handshake and metadata messages are encoded with the byte layout of BEP 3, 10 and 9 (68-byte handshake with the extension bit, big-endian length prefix covering the whole rest, message id 20, extension id, bencoded dictionary, raw piece data), and parsing an encoded message gives back every field and the exact data. Only messages that carry the extension bit in the reserved field are taken to support extensions.",
  ["inputs"], "all info hashes, peer ids, reserved bytes, dictionaries, extension ids, piece numbers, sizes and binary piece data",
  "Tests compare a few recorded messages, two of which fail or are order-dependent.",
  ["dht/peerwire/bep3.go", "dht/peerwire/bep10.go", W], [("Bytes()/parse* pairs", "dht/peerwire")], ["encoded bytes and parsed messages"])
BP = "misc/bytespool.go"
p("C20", "The byte pool never shares or resizes a buffer in use",
  "A buffer taken from the pool has exactly the requested length (the default width when none is given) and is not handed out again to anyone until it is returned, so its holder's contents stay intact, under any interleaving. Returning a buffer never blocks; a shortened slice comes back at full length, and no more than the configured number of buffers per size are retained.",
  ["histories", "schedules"], "all sequences of take and return with any sizes, shortened slices, and concurrent users",
  "The test takes and returns two buffers and compares addresses of local variables.",
  [BP], [("per-size bounded channels", BP)], ["Get, GetBySize, Put"])
p("C21", "The shared map behaves like a linearizable map",
  "The concurrent map returns for each key the latest value put and not deleted since, keys are independent, and operations from many goroutines take effect atomically in some order that respects real time. No operation crashes.",
  ["schedules", "histories"], "all concurrent histories of put, get and delete",
  "The map has no test.",
  ["misc/syncmap.go"], [("SyncMap mutex", "misc/syncmap.go")], ["SyncMap.Put/Get/Del"])
p("C22", "The work pool runs every accepted task once, bounded, then stops",
  "Every task submitted to a running pool runs exactly once and never more than the pool's size run at a time. Once shutdown or context cancellation took effect, submissions are refused by a panic; tasks accepted before still run, and shutdown returns once they are finished, or at its timeout if they are not. Shutting down repeatedly or concurrently is harmless.",
  ["schedules", "histories"], "all pool sizes, task durations, submission patterns from many goroutines and shutdown points",
  "Tests submit two or three tasks to a pool of two and only see that shutdown ends at its timeout.",
  ["misc/workpool.go"], [("workerLoop/queue", "misc/workpool.go"), ("Shutdown", "misc/workpool.go")], ["AsyncSubmit, Shutdown, Status"])
p("C23", "Shutdown runs every cleanup once and is bounded",
  "Waiting for shutdown blocks until the context is done or an interrupt or termination signal arrives (one that came after the context was created counts, even if nobody was waiting yet); then every registered cleanup runs exactly once, concurrently with the others, and the wait ends as soon as all have finished or when the timeout passes, whichever is first. The status is running before, shutting down while cleanups run and shut down afterwards.",
  ["histories", "schedules"], "all numbers, durations and batches of cleanups, all triggers, timeouts shorter and longer than the cleanups",
  "Tests use three fixed cleanups and a trigger that fires before the wait.",
  ["misc/shutdown.go"], [("WaitShutdown/waitCleans/runCleans", "misc/shutdown.go")], ["WithShutdownContext, Clean, WaitShutdown, Status"])
p("C24", "Verified metadata, and only that, is stored under its hash",
  "When an announcing peer serves metadata that matches the announced info hash, the crawler stores exactly those bytes in torrent/<lower-case hex of the hash>.torrent, even if the directory did not exist. Peers that serve anything else leave no file with wrong contents, and earlier or concurrent failures do not keep later torrents from being stored.",
  ["histories", "inputs"], "all mixes of honest and dishonest announcing peers, metadata contents and sizes",
  "No test covers storing, and without a pre-made directory nothing was ever stored.",
  [F], [("fetchHandler/flushTorrentFile", F)], ["files under torrent/ of the running crawler"])
p("C25", "Every info hash seen is recorded in the crawl log",
  "Each accepted get_peers or announce_peer query adds exactly one JSON line to logs/infohash.log with the event name, the source address, the lower-case hex info hash and, for announcements, the port. Other or rejected queries add none, and lines are never torn or mixed under concurrent queries.",
  ["histories", "inputs", "schedules"], "all info hashes (any bytes), ports, sources and concurrent mixes of queries",
  "No test reads the log, although it is the crawler's main output.",
  [RH, "misc/zap.go"], [("infoHashLogger", RH), ("zap/lumberjack writer", "misc/zap.go")], ["logs/infohash.log of the running crawler"])
p("C26", "Configuration is read faithfully and defaults are persisted",
  "Without a configuration file the built-in defaults apply and are written to conf/config.json, and reading that file back gives the same values. Every section given in the file takes exactly the values written there, sections left out keep their defaults, and a file named on the command line replaces values read before, so that the node opens on the port that file gives, prints messages from the log level it gives on, and serves profiles only if it says so.",
  ["configurations", "histories"], "all values of all settings, all subsets of sections, first and later runs, switching files",
  "No test covers configuration beyond using the defaults.",
  ["config/config.go", "cmd/root.go"], [("SetDefault/SafeWriteConfig/ReadInConfig", "config/config.go"), ("getSubConfig cache", "config/config.go")], ["config.DhtConfig() and the other sections", "conf/config.json"])
p("C27", "The torrent command reports what the files contain",
  "For a stored metadata file the torrent command prints one line with its name, file name, length and piece length, using the placeholder name and zeros for fields that are absent or of another type. For a directory it prints exactly one such line for every regular file whose name ends in .torrent, and none for anything else; a file whose contents are no dictionary, as a peer may have had stored, gets the line of one without fields. It works as well while a crawler with the same configuration is running.",
  ["inputs"], "all metadata dictionaries (any names, sizes, extra fields), directories with any mix of files and subdirectories",
  "The command has no test.",
  ["cmd/torrent.go"], [("printTorrentInfo", "cmd/torrent.go")], ["stdout of the program"])
p("C28", "Loggers filter by level, keep context and are shared by name",
  "A console or file logger prints a message if and only if its severity is at least the configured level, with its severity, prefix, text and every context key and value, and raising at panic severity always panics whatever the level. A change of the level applies to the named loggers handed out before as well. File loggers append one JSON line per message, unbroken under concurrent use. Level names are recognised in any letter case. Asking for a logger by name from any number of goroutines yields one and the same logger per name, without crashing.",
  ["inputs", "schedules", "configurations"], "all levels, severities, prefixes, messages and contexts; concurrent requests for loggers",
  "The test calls each method once and asserts nothing.",
  ["misc/logger.go", "misc/zap.go", "misc/strings.go"], [("consoleLogger", "misc/logger.go"), ("mapLogger", "misc/logger.go")], ["stdout", "misc.GetLogger", "logs/<name>.log"])
p("C29", "The UDP endpoint delivers datagrams intact",
  "Each datagram of up to 1024 bytes that arrives is delivered once, byte for byte, with its sender's address, and stays unchanged while the receiver keeps it, however many others arrive. A sent datagram arrives at the given address or host with exactly the given bytes. After closing, nothing is delivered or sent, sending reports an error, closing again is harmless and the port can be bound again.",
  ["inputs", "histories"], "all payloads, batches from several senders, close points",
  "The test sends one greeting back and forth.",
  ["dht/krpc/udp.go"], [("recvRoutiue", "dht/krpc/udp.go"), ("Close", "dht/krpc/udp.go")], ["RecvChan, SendPacket, SendPacketToHost, Close"])
p("C30", "The crawler terminates cleanly on a signal",
  "On an interrupt or termination signal, at any moment after it started and under any traffic or running fetches, the process exits by itself with status 0 within its shutdown time and releases its port.",
  ["schedules", "crash_points"], "all moments of the signal relative to queries, announcements and stalled metadata fetches",
  "No test starts the program.",
  ["cmd/root.go", "misc/shutdown.go", "dht/dht.go"], [("Wait4Shutdown", "cmd/root.go"), ("RegisterShutDownClean", "dht/dht.go")], ["exit status and time of the process"])
p("C31", "Traffic and fetches leave nothing behind",
  "Whatever datagrams came in and however metadata fetches ended (success, refusal, malformed or hostile messages, silence, hang-up at any point), once they have ended every connection, file and goroutine opened for them is gone: the process holds as many descriptors as before and no goroutine of a finished fetch or handler remains, however many there were.",
  ["histories", "inputs", "schedules"], "all mixes of honest, hostile, silent and absent peers, announcements and other datagrams, sequential or concurrent",
  "Tests make a few connections and look at no resource; leaks only show after many fetches that end in the one way that leaks.",
  [F, W, S, "misc/bytespool.go"], [("connection close on every path", W), ("flushTorrentFile closes the file", F), ("handlers run in a bounded pool", S)], ["open descriptors of the running crawler", "goroutines after fetches and handlers"])
p("C32", "A restart or crash loses nothing that was stored",
  "When the crawler is stopped by a signal or killed at any moment and started again in the same directory, torrents stored whole and crawl-log lines (including the line of every query answered before) are still there unchanged, it serves with the same configuration, and a torrent cut off by the crash is stored whole when announced again.",
  ["crash_points", "histories"], "all moments of a kill or termination signal relative to queries, announcements and writes, over repeated restarts",
  "No test starts the program, let alone twice.",
  [F, RH, "misc/zap.go", "cmd/root.go", "config/config.go"], [("flushTorrentFile", F), ("infohash.log is appended and unbuffered", "misc/zap.go"), ("config file is only written if missing", "config/config.go")], ["files under torrent/, logs/ and conf/ across restarts", "UDP replies after a restart"])
p("C33", "Configured worker limits bound concurrency and are used",
  "At any time the crawler fetches from at most the configured number of fetch workers' peers, and its RPC server runs at most its configured number of handlers; with enough work that many do run at once, and peers or handlers that keep silent for a while do not keep out those that come later.",
  ["schedules", "configurations", "histories"], "all configured numbers of workers and queue lengths, all numbers of slow peers and handlers",
  "No test looks at concurrency of fetches or handlers.",
  ["dht/dht.go", F, S, "misc/workpool.go"], [("fetch workers", F), ("RPC work pool", S), ("WorkPool size", "misc/workpool.go")], ["simultaneous peer connections of the running crawler", "handlers running at once in an RpcServer"])
p("C34", "A failing handler harms only its own message",
  "A handler or middleware of the RPC server that fails on a message does not affect any other message or stop the server. A request whose handling raises the library's own error is answered by exactly one error message with its transaction id, code 203 and the error's text, even when a reply had been written before. A request whose handling panics in another way (Go runtime errors included), writes no reply or writes one that cannot be encoded is never answered by a response, by anything that is not a KRPC message, or more than once. Handlers behind the failing one do not run; a failing response handler causes no datagram. All workers go on working.",
  ["programs", "histories", "schedules"], "all mixes of handled and failing messages, ways of failing, places in chains of up to five handlers, before or after the handlers behind, any number of workers",
  "No test registers a handler that fails; the recovery paths never run.",
  [S, MW, "misc/errors.go"], [("requestHandle and recvPacketHandle recover", S), ("PanicBizErr", "misc/errors.go")], ["datagrams sent by an RpcServer", "which handlers ran"])
p("C35", "Every announcement is followed up exactly once under any load",
  "Each accepted announce_peer query leads to exactly one connection to the announced peer for the announced info hash, however many arrive at once and whatever the queue size and numbers of workers: none is dropped, mixed up with another or followed up twice, even when the queue overflows, the same torrent is announced at several peers, or earlier peers hang up, refuse or keep silent (a pair of torrent and peer announced several times is tried at least once and at most that often). Every query sent meanwhile is answered exactly once, and what peers serve is stored.",
  ["histories", "schedules", "configurations"], "all loads of up to 600 announcements against any configured queue size and numbers of workers, with any mix of peers",
  "No test runs the crawler under load; a full queue never occurs.",
  [RH, F, "misc/workpool.go", S], [("recvInfoHash queue", RH), ("fetchTorrent loop", F), ("AsyncSubmit", "misc/workpool.go")], ["connections and handshakes at the announced peers", "UDP replies", "files under torrent/"],
  state=[("recvInfoHash", "announcements waiting to be fetched", F)])
p("C36", "Errors and text helpers report exactly what they were given",
  "The library's errors read 'code:text', followed by ', params: ' and every parameter in order, each closed by '|', the cause last, and carry a stack trace exactly when they are system errors; the variants that take a cause raise exactly when it is not nil. Values are shown as themselves if strings, by their error or string method if they have one (the error first), and as JSON otherwise. Conversions between strings and bytes keep every byte, hexadecimal is lower-case, xor works byte by byte up to the shorter length without touching its arguments. Paths are reported as existing, as directories and with their size as they are in the file system.",
  ["inputs"], "all codes, texts, parameters and causes; all byte strings; all trees of files and directories",
  "Tests look at one error and one pair of byte strings.",
  ["misc/errors.go", "misc/strings.go", "misc/bits.go", "misc/file.go"], [("Error.Error, Panic*", "misc/errors.go"), ("ToString, Str2Bytes, Bytes2Str, Str2Hex", "misc/strings.go"), ("Xor", "misc/bits.go"), ("IsExist, IsDir, GetFileSize", "misc/file.go")], ["raised errors and their text", "return values"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
