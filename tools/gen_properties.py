#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

# ---- byte buffer
p("B01","The byte buffer is an exact FIFO byte stream",
 "Whatever sequence of reserve, write-and-commit, extend, peek, advance, compact and clear is applied to a BytesMut, its readable bytes are exactly the bytes committed or appended since the last clear minus the bytes advanced over, in order and unaltered; reserve and compact never change that content. After reserve(n) returns, at least n bytes are writable and committing up to that many succeeds. size queries (remaining, writable, consumed, is_empty) always agree with that content.",
 ["inputs","histories"],"every buffer state reachable by any history of public operations, every argument value (appended spans not aliasing the buffer itself), every byte content",
 "The 13 unit tests sample a handful of sizes; growth/compaction branches depend on the combination of cursors, capacity and argument.",
 ["kio/core/bytes_mut.h"],[("reserve: compact in place or reallocate live data","kio/core/bytes_mut.h:61"),("extend_from_slice","kio/core/bytes_mut.h:153"),("compact","kio/core/bytes_mut.h:163"),("advance/commit_write cursor moves","kio/core/bytes_mut.h:106")],
 ["readable_span, remaining, writable, consumed, peek"],[("read_pos_/write_pos_","0<=read<=write<=size of storage","kio/core/bytes_mut.h:229")])
p("B02","The byte buffer never touches memory outside its storage",
 "No BytesMut operation reads or writes a byte outside the buffer's own live storage (or the caller's span), for any argument including huge sizes; spans it hands out lie inside that storage. A request beyond what is available (advance or peek past the readable bytes, commit past the writable space) throws and leaves the buffer unchanged, and a size that cannot be satisfied throws rather than being treated as satisfied.",
 ["inputs","histories"],"all reachable buffer states and all argument values, including sizes near the top of the size type",
 "Tests use small in-range sizes; wrap-around arguments and every cursor/capacity combination are not sampled.",
 ["kio/core/bytes_mut.h"],[("bounds checks throwing out_of_range","kio/core/bytes_mut.h:106"),("reserve capacity arithmetic","kio/core/bytes_mut.h:61")])
# ---- RESP
p("R01","RESP parsing never reads outside the bytes it was given",
 "For any byte content and any length, parsing a frame reads only bytes inside the readable region of the parser's buffer, and a frame returned on success lies entirely inside that region, starts at its first byte and has a non-zero size. A failed or incomplete parse consumes nothing and changes nothing.",
 ["inputs"],"every byte sequence of every length, at every nesting depth up to the configured limit",
 "Parser tests feed a few dozen literal strings; malformed lengths, truncated prefixes and nested combinations are unbounded.",
 ["kio/resp/parser.cpp","kio/resp/parser.h"],[("find_crlf bounded scan","kio/resp/parser.cpp:12"),("extract_bulk_header length check","kio/resp/parser.cpp:117"),("aggregate loop over subspans","kio/resp/parser.cpp:150")])
p("R02","RESP frames are recognised exactly as the protocol defines them",
 "A complete frame is accepted with the protocol's type, total size (through its terminating CRLF, including all children) and element count exactly when its content is valid for its type: integers are signed 64-bit decimals, booleans t or f, big numbers optionally-signed digit strings, bulk payloads exactly the declared length and followed by CRLF (or the null length -1), aggregates exactly the declared number of children with maps and attributes counting pairs. Input that is a proper prefix of a frame reports that more data is needed, and invalid content or an unknown type byte reports the corresponding error instead of a frame.",
 ["inputs"],"every byte sequence, every frame type, every split point of the stream",
 "Tests check a few literals per type; acceptance must be exact for every payload and every truncation.",
 ["kio/resp/parser.cpp"],[("parse_frame_internal dispatch","kio/resp/parser.cpp:147"),("parse_int/parse_boolean/is_valid_bignum","kio/resp/parser.cpp:38"),("extract_bulk_header","kio/resp/parser.cpp:117")])
p("R03","RESP nesting and size limits are enforced",
 "A frame nested deeper than the configured maximum depth, or a bulk whose declared length exceeds the configured maximum size, is always rejected with the depth or size error, whatever surrounds it and before its payload has to arrive; frames within the limits are never rejected for depth or size. Recursion depth never exceeds the configured maximum by more than one.",
 ["inputs","configurations"],"every configuration of limits and every input",
 "Tests use one configuration and one over-limit example each.",
 ["kio/resp/parser.cpp","kio/resp/parser.h"],[("depth check","kio/resp/parser.cpp:150"),("max_size check","kio/resp/parser.cpp:136")])
p("R04","RESP child iteration and payload views tile the parent frame",
 "Iterating the children of an accepted aggregate yields exactly its declared elements (two per pair for maps and attributes), consecutively from the end of the parent's header, each child starting where the previous one ended, then reports end of iteration forever. The payload view of an accepted simple or bulk frame is exactly the bytes between its header and its terminator and lies inside the frame.",
 ["inputs"],"every accepted frame and every iterator position",
 "Tests iterate a few small aggregates.",
 ["kio/resp/parser.cpp"],[("FrameIterator ctor/next","kio/resp/parser.cpp:225"),("get_simple_payload/get_bulk_payload","kio/resp/parser.cpp:99")])
# ---- queue
p("Q01","The cross-thread queue neither loses, duplicates nor reorders items",
 "For any number of producers and one consumer, every item whose push reported success is popped exactly once, unmodified, and items of one producer come out in the order that producer pushed them. A push that reports failure leaves no trace, and failure is reported only when the queue is full; pop reports empty only when no completed push is waiting at the head.",
 ["schedules","histories"],"all interleavings of producers' and the consumer's atomic steps, every accepted capacity, unbounded histories including index wrap",
 "There is no built queue test; a stress test samples a few schedules of billions.",
 ["kio/sync/mpsc_queue.h"],[("per-slot sequence numbers and CAS on the producer index","kio/sync/mpsc_queue.h:90")],
 ["try_push/try_pop results"])
p("Q02","Queue capacities are accepted or rounded exactly as documented",
 "Rounding a requested capacity up yields the smallest power of two not below it (and at least one), for every input that has one. Worker configuration validation accepts a configuration exactly when depth, batch size, backlog and queue capacity are non-zero, the growth factor exceeds one and the queue capacity is a power of two, and throws otherwise.",
 ["inputs","configurations"],"every size value and every configuration",
 "Tests touch only default configurations.",
 ["kio/sync/mpsc_queue.h","kio/core/worker.h"],[("next_power_of_2","kio/sync/mpsc_queue.h:205"),("WorkerConfig::check","kio/core/worker.h:93")])
# ---- errors
p("E01","Errors keep their number and get the documented category",
 "Building an error from an error number preserves the number and assigns the category fixed by the documented table: 0 is success, the 1000/2000/3000/4000 ranges are io_uring, serialization, application and TLS, each listed POSIX number has its listed category, anything else is Unknown. Two errors compare equal exactly when category and number are equal, only the success category reports success, and every category value has a printable name.",
 ["inputs"],"every int error number and every category value",
 "No unit test enumerates error numbers.",
 ["kio/core/errors.h"],[("CategoryFromErrno","kio/core/errors.h:101"),("Error::from_errno","kio/core/errors.h:283")])
# ---- worker
p("W01","An operation slot is never shared by two in-flight operations",
 "Between acquiring an operation id and releasing it, no other acquire on that worker returns the same id, every id handed out addresses an existing slot, and the reserved wake-up id is never handed out. When all slots are taken the pool grows by at least one slot up to the configured maximum and otherwise reports exhaustion by throwing without changing any slot; a released id becomes available again.",
 ["histories","configurations"],"every history of acquire/release and every validated configuration of slot count, growth factor and maximum",
 "core/worker.cpp is not even compiled by the build here; growth depends on float rounding of configuration values.",
 ["kio/core/worker.cpp","kio/core/worker.h"],[("get_op_id growth","kio/core/worker.cpp:229"),("release_op_id","kio/core/worker.cpp:260")])
p("W02","Exact reads and writes transfer exactly the requested range or fail",
 "An exact read or write that reports success has transferred precisely the caller's whole buffer, each byte once, in order and (for positional forms) at consecutive file offsets from the requested one, however the kernel splits the transfer. If the kernel reports an error or end of file first, the operation fails with that error (end of file as the EOF/broken-pipe error documented) and never reports success; it issues no transfer outside the remaining range.",
 ["inputs","fault_sequences"],"every buffer length, offset, and every sequence of kernel results (short counts, zero, errors)",
 "Short reads/writes and mid-transfer errors depend on kernel timing; worker tests are not built here.",
 ["kio/core/worker.cpp"],[("async_read_exact","kio/core/worker.cpp:430"),("async_write_exact","kio/core/worker.cpp:500"),("positional variants","kio/core/worker.cpp:450")])
p("W03","Each I/O result is reported faithfully to the operation that asked for it",
 "Every single-shot worker operation issues exactly one request with the caller's descriptor, buffer, length, offset and flags, and returns the kernel's non-negative result unchanged or, for a negative result, the error carrying that errno and its category. Byte and operation statistics grow by exactly what a successful operation reported and not at all on failure.",
 ["inputs","fault_sequences"],"every argument and every kernel result",
 "Needs every errno and every count for every operation; the file is not compiled by the build here.",
 ["kio/core/worker.cpp","kio/core/uring_awaitable.h"],[("async_read/async_write/async_accept/...","kio/core/worker.cpp:320"),("IoUringAwaitable","kio/core/uring_awaitable.h:20")])
p("W04","A file transfer via sendfile covers the requested range or fails",
 "A sendfile request that reports success has moved exactly the requested bytes of the source file range, in order and without gap or repetition, to the destination, however the kernel splits the two legs of the copy; otherwise it reports an error. Its temporary pipe is closed exactly once on every path.",
 ["inputs","fault_sequences"],"all offsets, counts and kernel result sequences of both legs",
 "Short splices and failures between the legs are kernel-timing dependent.",
 ["kio/core/worker.cpp"],[("async_sendfile","kio/core/worker.cpp:640")])
p("W05","Work is routed to existing workers and keys to stable partitions",
 "Looking up a worker by id returns that worker for every valid id and nothing (or a throw) otherwise, and a key is always mapped to the same existing worker or partition for a given topology, with every id in range. Round-robin style routing never yields an out-of-range worker.",
 ["inputs","configurations"],"all worker counts, ids, hashes and partition counts",
 "Tests use one small topology.",
 ["kio/core/worker_pool.cpp","kio/core/worker_pool.h","bitcask/src/bitcask.cpp"],[("IOPool::get_worker / get_worker_id_by_key","kio/core/worker_pool.cpp:1"),("BitKV::route","bitcask/src/bitcask.cpp:1")])
p("W06","A worker dispatches every completion once and keeps what is posted",
 "Every completion the kernel delivers is dispatched exactly once: its result reaches the coroutine that waits on its slot, that coroutine is resumed exactly once and the slot goes back to the pool, and the kernel's entries are acknowledged after they were read. A wake-up completion drains the posted coroutines and is re-armed exactly once unless the worker is stopping. A coroutine that was accepted by post() is in the queue before the worker is woken, and a stop request is visible before the worker is woken for it.",
 ["schedules","histories","fault_sequences"],"every batch of completions, every order and result, every queue content and stop point",
 "A lost or doubled completion needs particular batches and stop points that tests do not produce.",
 ["kio/core/worker.cpp"],[("Worker::process_completions / handle_cqe","kio/core/worker.cpp:1"),("Worker::post / request_stop / submit_wakeup_read / initialize","kio/core/worker.cpp:1")])
# ---- fds
p("F01","Every owned descriptor is closed exactly once",
 "A descriptor owned by a socket, file or guard object is closed exactly once: by an explicit close, by replacement, or by destruction, whichever comes first, and never after it was released or moved away. Moving transfers ownership completely (including self-move and move assignment over an open descriptor), and an empty object never closes anything.",
 ["histories"],"every history of construct, move, self-move, release, close, reset and destroy",
 "Double closes and leaks are silent in tests.",
 ["kio/net/socket.h","kio/core/worker.h","bitcask/include/file_handle.h","kio/fs/fs.h"],[("Socket","kio/net/socket.h:15"),("FileHandle","bitcask/include/file_handle.h:1"),("FDGuard","kio/net/net.h:1")])
# ---- bitcask
p("K01","Stored entries decode to what was encoded and corruption is rejected",
 "An encoded entry is its checksum, its payload length and its payload, and decoding a buffer that begins with it returns that entry and exactly the encoded length. For any buffer whatsoever, decoding reads only inside the buffer and returns an entry only if the declared payload is completely present and its checksum matches; a short buffer asks for more data, a checksum mismatch reports corruption.",
 ["inputs"],"every buffer content and length, including hostile length fields, and every entry",
 "bitcask is not built here; length fields near the integer limit are never sampled.",
 ["bitcask/src/entry.cpp","bitcask/include/entry.h"],[("DataEntry::serialize/deserialize","bitcask/src/entry.cpp:20")])
p("K02","File ids are unique, ordered and losslessly encoded",
 "Encoding then decoding a file id returns the same partition, timestamp and sequence, and every 64-bit value decodes to fields that encode back to it. The generator of one partition returns strictly increasing ids carrying that partition, whatever the clock does (same second, backwards, more than 65536 ids in one second).",
 ["inputs","histories"],"all field values and every history of clock readings",
 "Clock skew and sequence exhaustion are not reproducible in a unit test.",
 ["bitcask/include/file_id.h"],[("FileID::encode/decode","bitcask/include/file_id.h:36"),("FileIdGenerator::next","bitcask/include/file_id.h:67")])
p("K03","The descriptor cache stays within its limit and never leaks or loses",
 "The descriptor cache never holds more than its configured number of open descriptors, keeps exactly one descriptor per cached file, evicts the least recently used one, and closes each evicted or removed descriptor exactly once. A lookup returns the descriptor cached for that file or opens it, and an open failure is reported and caches nothing.",
 ["histories","fault_sequences"],"every history of get/remove/clear with every open result",
 "Tests use a few gets with real files.",
 ["bitcask/src/fd_cache.cpp","bitcask/include/fd_cache.h"],[("FDCache::get_or_open/evict","bitcask/src/fd_cache.cpp:1")])
p("K04","Appended records occupy consecutive disjoint ranges of the data file",
 "Each successful append to a data file writes the whole encoded record at the file's current end, returns precisely that offset and length, and advances the end by that length; a failed append returns the error and does not move the end. The file asks for rotation exactly when its size has reached the limit.",
 ["histories","fault_sequences"],"every record size, limit and write result",
 "Fault sequences of the write are not sampled; bitcask is not built here.",
 ["bitcask/src/data_file.cpp","bitcask/include/data_file.h"],[("DataFile::async_write","bitcask/src/data_file.cpp:37")])
p("K05","The key index always describes the newest stored version of each key",
 "After a successful put the key's index entry names exactly the file, offset and length of the record that was written for it, and readers get that value; when two puts of one key overlap, the one whose record lies later wins. A get reads the location the index named when it looked. After a successful delete the key is absent and its tombstone is in the active file; a failed put or delete leaves the index as it was. Other keys are untouched and the file statistics follow the index.",
 ["histories","fault_sequences","schedules"],"all histories of put/get/delete with any I/O outcome, with other operations running at the suspension points",
 "Index and file statistics must agree after every operation and failure, tests sample a few successes.",
 ["bitcask/src/partition.cpp"],[("Partition::put/get/del","bitcask/src/partition.cpp:1")])
p("K06","Recovery rebuilds the index that describes the newest surviving records",
 "Rebuilding from data or hint files processes records at their true offsets and leaves each key at the last record written for it, absent if that is a tombstone; a torn or corrupt tail is ignored without disturbing earlier records.",
 ["crash_points","inputs"],"every file content, every truncation point and chunk boundary",
 "Crash points and chunk-boundary splits are unbounded.",
 ["bitcask/src/partition.cpp"],[("Partition::recover*","bitcask/src/partition.cpp:300")])
p("K07","Compaction keeps every live record and no stale one wins",
 "Merging files preserves the current value of every key: exactly the records the index points at are copied, an index entry is redirected only if it still names the copied record, and source files are removed only after their live records are durable elsewhere.",
 ["schedules","crash_points"],"every interleaving with writers and every crash point",
 "Races between compaction and writers are not sampled.",
 ["bitcask/src/compactor.cpp"],[("compact_one_datafile / commit_batch","bitcask/src/compactor.cpp:1")])
# ---- metrics / http
p("M01","Exported metric names and label values are always valid exposition text",
 "Sanitised metric and label names consist only of characters the exposition format allows and never begin with a digit, keep already valid names unchanged, and label values are escaped so that backslash, double quote and newline can never break a line, with all other bytes unchanged. Distinct unescaped values stay distinct.",
 ["inputs"],"every byte string",
 "No test enumerates strings; one bad byte breaks the whole scrape.",
 ["kio/metrics/utils.h","kio/metrics/serializer.cpp"],[("SanitizeName/EscapeLabelValue","kio/metrics/utils.h:10")])
p("M02","The metrics HTTP endpoint frames its answers correctly",
 "Every response of the metrics endpoint declares exactly the length of the body it sends, answers the metrics path with the current metrics and any other path or malformed request with an error status, and never reads past the received bytes while parsing the request.",
 ["inputs"],"every request byte sequence",
 "Only manual scrapes exercise it.",
 ["kio/metrics/server.cpp"],[("request parsing / response building","kio/metrics/server.cpp:1")])
# ---- coroutines / sync
p("C01","A task delivers its value or exception exactly once to its awaiter",
 "Awaiting a task runs its body exactly once and yields exactly the value it returned or rethrows exactly the exception it threw, then continues the awaiting coroutine; a task that is never awaited runs nothing, and a task's frame is destroyed exactly once, including after a move. A task that was detached runs to its end and frees itself exactly once; one dropped while suspended is destroyed once.",
 ["programs","histories"],"every task body outcome and every create/move/await/destroy history",
 "Tests sample some programs; frame double-free or leak is not observable in them.",
 ["kio/core/coro.h"],[("Task promise/awaiter","kio/core/coro.h:1")])
p("C02","Synchronous wait returns precisely the task's outcome",
 "Blocking on a task returns only after the task finished, returning its value (moved, not copied) or rethrowing its exception, for values, references and void.",
 ["programs","schedules"],"every outcome and every completing thread",
 "Tests sample schedules.",
 ["kio/sync/sync_wait.h"],[("SyncWait","kio/sync/sync_wait.h:1")])
p("S01","A baton never loses a wake-up and never resumes a waiter twice",
 "If the baton is notified, every waiter that waited before or waits after is released exactly once, under every interleaving of notify, wait and ready checks; a waiter is released only if notified (or, for timed waits, timed out). Reset re-arms it only when no waiter is registered.",
 ["schedules"],"all interleavings of the atomic steps",
 "Lost wake-ups need a specific interleaving.",
 ["kio/sync/baton.h"],[("atomic state protocol","kio/sync/baton.h:1")])
p("S02","Setting an event releases every waiter exactly once",
 "Setting an event releases exactly the waiters registered before the set, each once, on its own worker; later waiters do not block until the event is reset.",
 ["schedules"],"all interleavings of set, wait and reset",
 "The event test is not compiled by the build.",
 ["kio/sync/event.h"],[("waiter list CAS","kio/sync/event.h:60")])
p("S03","when_any completes once with a task that really finished",
 "Waiting for any of several tasks completes exactly once, with the index and result of a task that has completed; later completions do not disturb it.",
 ["schedules","programs"],"all completion orders",
 "Completion races are not sampled.",
 ["kio/sync/when_any.h"],[("single-winner flag","kio/sync/when_any.h:20")])
# ---- logger
p("L01","Log messages are filtered by level and moved intact",
 "A message is emitted exactly when its level is at or above the configured one, and a message moved between buffers keeps its text, level and origin unchanged, whatever its length (inline or heap stored), with its storage freed exactly once.",
 ["inputs","histories"],"every message length and every move/assign history",
 "Tests log a few short messages.",
 ["kio/core/async_logger.h"],[("LogMessage storage","kio/core/async_logger.h:1")])
# ---- net
p("N01","Socket addresses carry the requested family, port and address",
 "Parsing a textual address and port yields a socket address of the right family and length with the port in network byte order and precisely that address, or an error; it never yields a partially filled address.",
 ["inputs"],"every string and every port",
 "Tests use one loopback address.",
 ["kio/net/net.cpp"],[("parse_address / bind helpers","kio/net/net.cpp:1")])
# ---- tls
p("T01","TLS contexts and sessions never silently downgrade",
 "A server context is created only with a loaded certificate and matching key, peer verification is configured as requested, and a session is reported connected only after the handshake completed and kernel TLS is active in both directions; any failure is reported as an error. Operations before the handshake fail instead of sending plain text.",
 ["fault_sequences","configurations"],"every result of the TLS library and every configuration",
 "Library failures cannot be provoked by tests.",
 ["kio/tls/context.cpp","kio/tls/stream.cpp"],[("TlsContext::create","kio/tls/context.cpp:1"),("TlsStream::async_handshake","kio/tls/stream.cpp:1")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
