S = "; absence of a violation in the explored cases is evidence, not proof"
PBT = "property-based testing (rapid): "
T = {
 "C01": ("round trip of generated values through encoder, reference bencode parser and decoder",
         "Generated nested values, binary strings and extreme integers; trusts the reference parser in harness/ref"),
 "C02": ("generated, mutated and enumerated inputs, differential against a reference grammar; coverage-guided fuzzing (go test -fuzz) in the thorough tier",
         "Every decoder agrees with the reference grammar on generated, mutated, arbitrary and all short inputs; leading zeros of string lengths and duplicate keys are left unspecified"),
 "C03": ("unsupported values planted in generated structures",
         "37 unsupported types at drawn positions of generated values"),
 "C04": ("typed access compared with a reference model",
         "All accessors on generated decoded values; list indexes outside the list are left unspecified"),
 "C05": ("generated query sequences and concurrent batches against the running crawler, replies matched with queries by an oracle",
         "Valid queries of all methods with drawn ids, transaction ids, extra fields and key orders; loopback only, datagrams up to 1024 bytes"),
 "C06": ("generated violations of query well-formedness against the running crawler",
         "Queries broken in one or two of ten ways, mixed with valid ones"),
 "C07": ("generated and mutated datagrams (structure-aware fuzzing) against the running crawler, liveness probes between",
         "Arbitrary, mutated and adversarial datagrams; the crawler must answer afterwards; memory limited to 8 GB"),
 "C08": ("stateful histories of queries and responses in drawn orders against a model of the outstanding transactions",
         "Forged, duplicate, late and mismatched responses, errors and garbage in between"),
 "C09": ("generated middleware chains and handlers against a reference interpreter of the chain, alone and inside a running server",
         "Chains of up to 10 middleware that continue 0, 1 or 2 times and reply at drawn points"),
 "C10": ("generated traffic histories against kept handler contexts; multiset comparison under concurrent bursts",
         "Messages of 60 to 900 bytes, kept contexts compared after later traffic; cases where the kernel dropped datagrams are discarded"),
 "C11": ("generated worlds of simulated nodes around the running crawler, invariant over the queries each node hears",
         "Drawn topologies, malformed and mixed responses, silent nodes; loopback addresses only"),
 "C12": ("round trip and differential of generated node and peer lists against an independent compact codec",
         "All list lengths drawn up to dozens, malformed lengths; unexported parsers reached through an overlay shim"),
 "C13": ("stateful model-based testing of the route table against a reference table",
         "Drawn hosts, bucket sizes and id distributions down to long shared prefixes"),
 "C14": ("generated concurrent histories under the race detector with invariants on the outcome",
         "Drawn numbers of adders, readers and iterators; schedules are those the runtime produces"),
 "C15": ("generated numbers of concurrent callers and draw patterns with a distinctness and format invariant over whole cycles",
         "Full cycles of 65536 ids from drawn starting values"),
 "C16": ("generated announcements against the running crawler with listeners on several addresses; the address function differential against a reference",
         "IPv4 end to end on loopback, IPv6 at the level of the address function through an overlay shim"),
 "C17": ("generated hostile peers (structure-aware protocol fuzzing) against the fetcher with time, memory and result oracles",
         "Drawn scripts of well-formed and malformed peer messages; address space limited to 8 GB"),
 "C18": ("generated honest peers (fragmentation, unrelated messages, piece orders, ids) against the fetcher; the result must be the metadata",
         "Metadata from one byte to many pieces, drawn message fragmentation within the fetcher's time limits"),
 "C19": ("round trip and differential of generated peer messages against an independent codec",
         "All message kinds with drawn fields; unexported functions reached through an overlay shim"),
 "C20": ("stateful model of the buffer pool and concurrent generated histories with ownership stamps",
         "Drawn sizes, capacities, shortened slices and users"),
 "C21": ("generated concurrent histories checked for linearizability (porcupine), under the race detector",
         "Up to dozens of operations by several goroutines on few keys"),
 "C22": ("generated submission and shutdown histories with a model of the pool",
         "Drawn pool sizes, durations, concurrent submitters and shutdown points; wall-clock margins are generous"),
 "C23": ("generated cleanups, triggers and timeouts against a timed oracle",
         "Drawn durations around the timeout with generous margins; signals are sent to the test process itself"),
 "C24": ("generated mixes of honest and dishonest peers around the running crawler; files compared with the metadata served",
         "Drawn sizes and contents, ten kinds of dishonest peers, concurrent announcements"),
 "C25": ("generated concurrent batches of datagrams to the running crawler; added log lines compared as a multiset with those expected",
         "Queries of all kinds with binary hashes from five sources"),
 "C26": ("generated configuration files and switching histories read by fresh processes, compared with a model; the crawler started on drawn files",
         "Complete sections in drawn subsets; sections given in part are left unspecified"),
 "C27": ("generated dictionaries and directories given to the program; output compared with a model",
         "Names without line breaks; malformed files are left unspecified"),
 "C28": ("generated levels, messages and contexts compared with a reference formatter; concurrent lookups under the race detector",
         "Console and file loggers of drawn levels and prefixes; rotation of large files is not exercised"),
 "C29": ("generated datagram batches through real sockets compared with what was sent; generated close histories",
         "Loopback; up to 1024 bytes per datagram; cases where the kernel dropped datagrams are discarded"),
 "C30": ("generated traffic and signal moments against the running crawler; exit status, time and port checked",
         "Drawn moments from just after start to minutes of traffic; wall-clock margins are generous"),
 "C31": ("generated mixes of peers and datagrams around the running crawler and inside the test process; descriptors and goroutines afterwards compared with before",
         "Up to 40 announcements per case, of which each can end in any way; descriptors of the process and goroutines by stack"),
 "C32": ("generated histories of queries, announcements, kills and restarts of the crawler in one directory; files compared with a model",
         "SIGKILL and signals at drawn moments; the kernel keeps what was written, a power loss is not simulated"),
 "C33": ("generated worker limits and numbers of slow peers and handlers; concurrency measured at the peers and in the handlers",
         "1 to 12 fetch and 1 to 64 RPC workers; an excess is believed from 500 ms on, and when it repeats"),
 "C34": ("generated chains whose handlers fail in drawn ways on drawn messages, in a running server; replies and handler traces compared with a model, race detector",
         "Ten ways of failing, chains of up to 5 handlers, 1 to 8 workers; runtime.Goexit and fatal errors (deadlock, concurrent map writes) in a handler are not generated"),
 "C36": ("generated errors, values, byte strings and file trees compared with reference formatters and models",
         "13 kinds of parameters, nil pointers with methods and symbolic links are not generated"),
 "C35": ("generated loads of announcements against the running crawler; connections per torrent and peer counted at scripted peers and compared with what was announced",
         "20 to 600 announcements per case, up to 5 peers; cases where the kernel dropped datagrams are discarded"),
}
TECH = {k: PBT + v[0] for k, v in T.items()}
NOTE = {k: v[1] + S for k, v in T.items()}
