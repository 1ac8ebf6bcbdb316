#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property list)."""
import json, os
P=[]
def prop(id,title,statement,over,otext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=otext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

prop("C01","Acknowledged records are read back complete, unchanged and in order",
 "Every record counted as added by an append is returned by a later full read of its log exactly once, byte-for-byte equal to what was appended, with its log's ID, a strictly increasing record ID and a creation time equal to the time in that ID, in append order and mixed with nothing that was not appended. This holds for any mix of logs, batch sizes and payload sizes (empty payloads included), across chunk growth and roll-over, eviction and re-opening of chunk files, and a clean shutdown and restart on the same directory, as long as the clock is not set back.",
 ["inputs","histories","configurations"],"all append/read/evict/restart histories, all payload and batch sizes, all chunk-size and open-chunk-limit settings",
 "The tests append a handful of equal-size batches to one log with one chunk configuration; sizes that land exactly on a growth or roll-over boundary, several logs competing for few open chunks, and restarts in between are never sampled together.",
 ["pkg/storage/logfs/locallog.go","pkg/storage/chunkfs/chunk.go","pkg/storage/chunkfs/provider.go","golibs/files/mmfile.go"],
 [("append loop over chunks","pkg/storage/logfs/locallog.go AppendRecords"),("chunk layout and growth","pkg/storage/chunkfs/chunk.go AppendRecords/growForWrite/writable")],
 [("chunk file","header, payload area growing up, meta area growing down","pkg/storage/chunkfs/chunk.go"),("chunk list","ordered ChunkInfo per log","logfs.LogsMetaStorage")],
 ["api.Service AppendRecords/QueryRecords"])

prop("C02","Following page tokens enumerates the matching records exactly once",
 "For one log, starting anywhere and repeatedly re-issuing a record query with the returned next-page token until the token is empty yields exactly the records at or after the start (at or before it when descending), each once and in ID order of the requested direction, for every positive limit. A page never holds more records than the limit, a returned token always leads to progress, and the token is empty only when nothing is left.",
 ["inputs","histories"],"all logs, start IDs (existing, between, before, after), directions, limits and size caps, with chunks of any shape",
 "Tests read pages with one or two limits, ascending, on one layout; the interaction of limit, size cap, chunk boundary and direction is a product no table of cases covers.",
 ["pkg/api/service.go","pkg/storage/logfs/locallog.go","golibs/ulidutils/ulidutils.go","pkg/storage/chunkfs/chunk.go"],
 [("next page id","pkg/api/service.go QueryRecords"),("chunk selection by StartID and per-chunk seek","pkg/storage/logfs/locallog.go QueryRecords; chunk.go SetStartID")],
 [],["api.Service QueryRecords"])

prop("C03","Record conditions select exactly the records they describe",
 "A record query or count with a condition over ctime (any comparison operator, combined with AND, OR, NOT and parentheses, any date in or out of range, any sub-second precision) returns exactly those records of the log whose creation time satisfies the condition read as ordinary Boolean logic, in order, composing correctly with start ID, direction, limit and paging. A condition that is malformed or uses something that is not supported for records is rejected as an invalid argument; no condition makes the server fail otherwise.",
 ["inputs","histories"],"all Boolean ctime conditions, all record populations and chunk layouts, all start/limit/direction combinations",
 "The tests check a few hand-written conditions; whether the interval algebra agrees with Boolean evaluation is a statement about every condition and every timestamp, boundaries included.",
 ["pkg/ql/intervalbuilder.go","pkg/intervals/intervals.go","pkg/storage/logfs/locallog.go","pkg/ql/dialect.go","pkg/ql/datetime.go"],
 [("condition to intervals","pkg/ql/intervalbuilder.go"),("intervals to ID ranges","pkg/storage/logfs/locallog.go getRanges/toRange/considerSIDAndDesc")],
 [],["api.Service QueryRecords/CountRecords with Condition"])

prop("C04","Counts agree with reads",
 "CountRecords reports as total the number of records stored in the selected logs, and as count the number of records that a complete read with the same logs, start ID, direction and condition would return. If any selected log cannot be counted, the caller gets an error with a proper status, never a silently smaller or zero count.",
 ["inputs","histories","fault_sequences"],"all histories, start IDs, directions, conditions and log selections; any failure to access a chunk while counting",
 "Tests compare counts for two or three fixed queries and never make a chunk unreadable while counting.",
 ["pkg/storage/logfs/locallog.go","pkg/api/service.go"],
 [("count per chunk, with or without opening it","pkg/storage/logfs/locallog.go CountRecords/countRecords"),("sum over logs","pkg/api/service.go CountRecords")],
 [],["api.Service CountRecords"])

prop("C05","Append outcomes are truthful and every record that can fit is accepted",
 "An append reports as added exactly the number of leading records of the batch that are now stored, returns their IDs in order when asked, and never stores a later record of the batch without the earlier ones; whatever the fill state of the last chunk, a record that fits into an empty chunk is accepted, and a record that cannot fit any chunk is refused as invalid without harming the log. Afterwards the chunk catalogue of the log describes each chunk exactly: its first and last record IDs and its record count, chunks in order and never larger than the configured maximum, also when the caller's context is cancelled at any moment of the append.",
 ["inputs","histories","fault_sequences"],"all fill states and payload sizes, all batch shapes, cancellation at any point",
 "Tests use chunk sizes and payloads that leave wide margins; the exact boundary where the remaining room is a few bytes short, an oversize record in the middle of a batch, and cancellation between writing the data and publishing the catalogue entry are not reached.",
 ["pkg/storage/logfs/locallog.go","pkg/storage/chunkfs/chunk.go","pkg/storage/chunkfs/provider.go"],
 [("writable/growForWrite capacity arithmetic","pkg/storage/chunkfs/chunk.go"),("catalogue update after the write","pkg/storage/logfs/locallog.go AppendRecords")],
 [],["api.Service AppendRecords, LogsMetaStorage GetChunks"])

prop("C06","Reading several logs merges them into one ordered stream",
 "A record query over any number of logs (given by IDs, in which case a logs condition is ignored, or by a logs condition) returns the union of the matching records of these logs in ID order of the requested direction, each record once and labelled with its log, limited to the requested number of records; following its page tokens enumerates the whole union exactly once. A failure to read any of the logs makes the query fail rather than return a partial merge, and selecting more logs than can be merged is refused.",
 ["inputs","histories","fault_sequences"],"any number of logs of any lengths, interleavings of their records, limits, directions, start IDs; a failing log at any position",
 "Tests merge two or three mock logs in memory; fan-in trees of odd sizes, internal refills of 100 records, and failures in the middle of the merge are not covered together.",
 ["pkg/api/service.go","pkg/api/riterator.go","pkg/api/mixer.go","golibs/container/iterable/mixer.go"],
 [("merge tree","pkg/api/mixer.go, golibs/container/iterable/mixer.go"),("paging iterator per log","pkg/api/riterator.go")],
 [],["api.Service QueryRecords with several LogIDs or LogsCondition"])

prop("C07","The log catalogue follows create, update and delete exactly",
 "A created log gets a fresh ID and is returned with its tags until deleted; an update changes exactly the tags (and update time) of an existing live log; a deleted log is reported once as deleted, disappears from every query, lookup, update and append, and never comes back; a lookup, update or append for an unknown or deleted log fails as not found. Listing logs by pages of any size, following page tokens, returns each matching live log exactly once, with the true total of matches, and all of this survives closing and re-opening the catalogue.",
 ["histories","inputs"],"all sequences of create/update/delete/list/restart, all page sizes and conditions",
 "Tests run fixed scripts with a few logs; page boundaries against deletes and repeated deletes, and restarts in between, are open-ended histories.",
 ["pkg/storage/buntdb/buntdb.go","pkg/storage/cache/cache.go","pkg/api/service.go"],
 [("log entries keyed by ID in buntdb transactions","pkg/storage/buntdb/buntdb.go"),("read cache in front","pkg/storage/cache/cache.go")],
 [],["api.Service CreateLog/UpdateLog/QueryLogs/DeleteLogs, storage Logs interface"])

prop("C08","Log conditions mean what the expression language says",
 "For every expression of the query language over logID and tags, a log is selected for listing, deletion or reading if and only if the expression is true for its ID and tags under the documented meaning of the operators (comparison, IN, LIKE, AND, OR, NOT, parentheses, missing tags read as empty strings). Text that is not a valid expression, or misuses operators or functions, is rejected as an invalid argument and never crashes the server.",
 ["inputs"],"all expressions up to a size, all tag values (quotes, wildcards, empty, unicode), all log populations",
 "Tests list a few dozen expressions with fixed expected values; precedence, nesting and the operator x operand-kind table are combinatorial.",
 ["pkg/ql/parser.go","pkg/ql/evaluator.go","pkg/ql/dialect.go","pkg/storage/buntdb/buntdb.go"],
 [("participle grammar","pkg/ql/parser.go"),("expression compiled to a predicate","pkg/ql/evaluator.go")],
 [],["ql.BuildExprF, api.Service QueryLogs/DeleteLogs"])

prop("C09","Cached metadata never serves what a completed change has replaced",
 "With the metadata cache in front of any metadata storage, once a call that changes a log or its chunk list has returned, every call started later observes that change (or a newer one), exactly as it would without the cache, whatever reads, writes and deletes run concurrently and whatever errors the storage returns. A failed call leaves the observable state as the storage has it. (Callers do not modify what was returned to them.)",
 ["schedules","histories","fault_sequences"],"all interleavings of cached reads with creates, updates, deletes and chunk-list changes, storage errors, cache evictions",
 "The tests are sequential; the window between loading a value and putting it into the cache is a schedule question.",
 ["pkg/storage/cache/cache.go","golibs/container/lru/ecache.go","golibs/container/lru/cache.go"],
 [("invalidate after write","pkg/storage/cache/cache.go"),("single-flight creation","golibs/container/lru/ecache.go GetOrCreate/Remove")],
 [("logsCache/chunksCache","last known log and chunk list by log ID","pkg/storage/cache/cache.go")],["cache.CachedStorage methods"])

prop("C10","Shared releasable objects: one per key, bounded, live while held, closed once",
 "Whatever calls run concurrently, holders of the same key share one live object; an object is never closed while somebody holds it and is closed exactly once after it left the pool; the number of live objects never exceeds the configured maximum; a failed creation or a cancelled caller leaves no trace. A waiting caller is served, or gets its own creation error, as soon as room is available, its context ends, or the pool is closed; closing the pool releases everything that is not held, and the rest as it is returned.",
 ["schedules","histories","fault_sequences"],"all interleavings of get, release, close, cancellation and failing or slow creations over any number of keys and capacities",
 "Tests run a few goroutines with timing sleeps; absence of a lost wake-up or of a double close over all schedules cannot be sampled.",
 ["golibs/container/lru/releasable.go"],
 [("reference counts, LRU of idle items, creation and capacity waiters","golibs/container/lru/releasable.go")],
 [],["lru.ReleasableCache GetOrCreate/Release/Close"])

prop("C11","Chunk-file access modes never overlap",
 "At any moment a chunk file has at most one of: one writer, or one remover/replacer; it is never removed or replaced while it is opened for use or being written, never opened while it is being removed, and there is never more than one opener. A waiting caller gets access as soon as the blocking access ends, or returns when its context ends or the access control is shut down, after which no new access is granted. (Opening while the chunk is being removed is refused, and so is a second opener.)",
 ["schedules","histories"],"all interleavings of open, close, write access, delete access, idle, cancellation and shutdown over several chunks",
 "Tests walk the state machine in one order with a few sleeps.",
 ["pkg/storage/chunkfs/caccessor.go","pkg/storage/chunkfs/provider.go","pkg/storage/chunkfs/replicator.go"],
 [("per-chunk state with waiter channels","pkg/storage/chunkfs/caccessor.go")],
 [("state/opened","Idle/Writing/Deleting and the opened flag","pkg/storage/chunkfs/caccessor.go")],["chunkfs.ChunkAccessor, chunkfs.Provider, chunkfs.Replicator"])

prop("C12","Replication never loses chunk data, whatever the object store does",
 "A local chunk file is removed in favour of its remote copy only when that remote copy exists and restores to exactly the same content; upload followed by download yields the identical file. If the object store fails, truncates, or is cancelled at any step of an upload, download or delete, all records acknowledged before remain readable (from the local file or from the remote copy) once the store works again, and no partial or foreign content is ever served as the chunk. (An object store that reports success has stored what it was given.)",
 ["fault_sequences","histories"],"all sequences of upload, download, local and remote delete, reads and appends, with the store failing at any call, or in the middle of a transfer",
 "The tests use a store that never fails.",
 ["pkg/storage/chunkfs/replicator.go","pkg/storage/chunkfs/provider.go","pkg/storage/chunkfs/scanner.go","golibs/files/ziputil.go"],
 [("upload then delete local","pkg/storage/chunkfs/replicator.go DeleteChunk/UploadChunk"),("download when missing or corrupted","pkg/storage/chunkfs/provider.go openChunk")],
 [],["chunkfs.Replicator, Provider.GetOpenedChunk, local directory, sss.Storage content"])

prop("C13","Acknowledged records survive a crash of the process",
 "If the process dies at any point while appending (including chunk creation, growth and roll-over), every record acknowledged before is still read back unchanged and in order after a restart on the same files, and the log accepts further appends. Records of the append in flight may be missing, but whatever is returned is a prefix of what was submitted with no damaged, duplicated or foreign record.",
 ["crash_points","histories"],"a crash between any two effects on the chunk file or the catalogue, at any point of any append history",
 "No test kills the process in the middle of an operation.",
 ["pkg/storage/chunkfs/chunk.go","golibs/files/mmfile.go","pkg/storage/logfs/locallog.go","pkg/storage/chunkfs/provider.go"],
 [("meta and payload written before the record counter","pkg/storage/chunkfs/chunk.go AppendRecords"),("catalogue entry written after the chunk","pkg/storage/logfs/locallog.go AppendRecords")],
 [],["chunk files and catalogue after a crash, read through api.Service"])

prop("C14","The distributed lock excludes, and always becomes available again",
 "Over one key-value storage, at any moment at most one holder, across all lock providers and goroutines, is between a successful lock and the start of its unlock as long as it keeps its lease alive; the lease is renewed while the lock is held. A renewal that fails once does not end the renewing, and the unlock of a holder that lost its lease does not take the lock from the next holder. After an unlock, or after the holder died and its lease expired, a waiting or new locker gets the lock; a locker whose context ends gets that error and does not hold the lock, a locker of a provider that was shut down gets the closed error, and a try-lock never blocks and never reports success while another holds.",
 ["schedules","histories","fault_sequences"],"all interleavings of lock, try-lock, unlock, lease renewal, expiry, holder death, cancellation and shutdown over several providers",
 "Tests use two or three goroutines and real sleeps.",
 ["golibs/kvs/distlock/kvlock.go","golibs/kvs/inmem/inmem.go"],
 [("record created with a lease, renewed by compare-and-set","golibs/kvs/distlock/kvlock.go")],
 [],["distlock Locker Lock/LockWithCtx/TryLock/Unlock"])

prop("C15","Key-value storages implement versioned records with compare-and-set",
 "For the in-memory and the Redis storage alike: every successful write of a key gives it a version it never had before, and a read returns the last value written with its version; create succeeds only when the key is absent or expired, compare-and-set only when the stored version equals the given one and otherwise reports a conflict or a missing key, and of concurrent conditional writes on one version exactly one succeeds. An expired record is as absent as a deleted one; waiting on a version returns as soon as the key has another version, is gone, or the context ends; key listing returns exactly the live keys matching the pattern, each once. (Calls on several keys take effect key by key.)",
 ["histories","schedules"],"all sequential histories and all interleavings of create, get, put, put-many, compare-and-set, delete, wait, list and expiry over several keys",
 "Tests check each method in isolation on one key.",
 ["golibs/kvs/kvs.go","golibs/kvs/inmem/inmem.go","golibs/kvs/redis/redis.go"],
 [("map under a mutex with version counters and waiters","golibs/kvs/inmem/inmem.go"),("WATCH/MULTI transactions","golibs/kvs/redis/redis.go")],
 [],["kvs.Storage implementations"])

prop("C16","Scheduled calls fire once, not early, and not after a cancel",
 "A function scheduled for later is invoked exactly once, never before its time and without waiting for unrelated later schedules, unless it is cancelled before it starts, in which case it is never invoked. Cancelling (once, repeatedly, concurrently, or after the call) affects no other scheduled function. (A function may wait for a free worker while all of them are busy; functions that panic are not covered.)",
 ["schedules","histories"],"all interleavings of scheduling, cancelling and firing with any delays, including bursts beyond the worker limit and long-running functions",
 "The package's tests are timing dependent (and excluded as flaky) and schedule a few calls.",
 ["golibs/timeout/timeout.go"],
 [("heap of futures served by watcher goroutines","golibs/timeout/timeout.go")],
 [],["timeout.Call, Future.Cancel"])

prop("C17","The block allocator hands out disjoint blocks and keeps its books",
 "Blocks handed out and not yet freed are pairwise disjoint, lie inside the buffer outside the allocator's own bookkeeping, and keep the bytes written to them across any other allocation, free and growth of the buffer; a free block is reused, freeing an unallocated block is refused, and the free/used counts are exact. Re-opening the allocator on the same buffer shows the same allocated set; invalid block sizes are refused.",
 ["histories","inputs","configurations"],"all sequences of allocate, free, read, write and re-open for every block size and buffer limit",
 "Tests run one block size and a random walk without checking overlaps.",
 ["golibs/container/bytes/blocks.go","golibs/container/bytes/inmem.go","golibs/files/mmfile.go"],
 [("bitmap header per segment","golibs/container/bytes/blocks.go")],
 [],["bytes.Blocks over bytes.Buffer"])

prop("C18","The ordered map and its iterators stay consistent under modification",
 "The ordered map keeps insertion order with unique keys under any sequence of add, remove, clear-style removals and lookups. Any number of iterators may be open while the map is modified: each visits every element present for its whole remaining walk exactly once in order, never a removed element it has not reached yet, never fails, and closing iterators in any order leaves the map intact.",
 ["histories"],"all sequences of map modifications interleaved with steps and closes of several iterators",
 "Tests use one or two iterators and a few removals.",
 ["golibs/container/iterable/map.go"],
 [("linked list with deferred unlinking of removed elements under iteration","golibs/container/iterable/map.go")],
 [],["iterable.Map Add/Get/Remove/First/Len/Iterator"])

prop("C19","Value caches respect recency, capacity, expiry and single-flight loading",
 "A value cache never holds more than its configured number of entries, evicts the least recently used first, never returns an expired or removed value, and a lookup returns the value loaded for that key. Concurrent lookups of a missing key load it once and all get that result; a failed load is reported to the callers and not remembered; every evicted or removed value is reported once. (A call that waited for somebody else's failed load may load by itself; a value that was being loaded when its key was removed may be returned to the calls that waited for it; loads that panic are not covered.)",
 ["histories","schedules"],"all sequences and interleavings of get-or-create, get, remove, clear and expiry over several keys and capacities",
 "Tests check a few fixed sequences and one concurrency case.",
 ["golibs/container/lru/ecache.go","golibs/container/lru/cache.go","golibs/container/lru/expirable.go"],
 [("ordered map as recency list","golibs/container/lru/ecache.go")],
 [],["lru.Cache, lru.ExpirableCache, lru.ECache"])

prop("C20","Background synchronisation copies every chunk and frees disk space safely",
 "The scanner looks at every folder of chunks periodically. A chunk file that has not changed for the configured time is copied to the remote store by the next look, once per change (again only if the copy failed or the notes about it were lost in a crash), and not before that time unless it is to be removed. When the size of the chunk files of a folder reaches its limit, the least recently changed or downloaded chunks are removed first, only until the size is below the target, and never one that is open or whose present content is not in the remote store; chunks that cannot be removed are passed over and do not count as freed. A failure with one chunk does not keep the scanner from the others, damaged notes do not stop it. Whatever it does, all records remain readable with the same content; when its context is done it begins no further copies or removals and ends, and it resumes after a restart or a crash.",
 ["histories","fault_sequences","configurations"],"all histories of appends, reads and scans, space limits, remote failures, restarts",
 "Tests run the scanner on one directory with fixed files and a perfect store.",
 ["pkg/storage/chunkfs/scanner.go","pkg/storage/chunkfs/replicator.go"],
 [("periodic scan, sweep and replicate","pkg/storage/chunkfs/scanner.go")],
 [],["chunkfs.Scanner with a Replicator, local directory, sss.Storage content"])

prop("C21","Concurrent appends and reads of logs are linearizable",
 "With any number of concurrent appends, reads and counts on any logs, each append takes effect atomically as one contiguous run of records between its call and its return, in the same order for all observers; a read returns a prefix-consistent state of the log that includes every append completed before it started; and operations on different logs do not disturb each other (a read over several logs is such a state of each of them, in the order of the IDs, not one moment of all). Every call returns: no schedule of such calls, chunk eviction included, blocks for ever.",
 ["schedules","histories"],"all interleavings of concurrent API calls with few open chunks, few lock slots, roll-overs and cancellations",
 "Only one test uses goroutines, and it checks totals.",
 ["pkg/storage/logfs/locallog.go","pkg/storage/chunkfs/provider.go","golibs/container/lru/releasable.go","pkg/storage/chunkfs/caccessor.go"],
 [("per-log lock, chunk RW lock, releasable chunk cache","pkg/storage/logfs/locallog.go, pkg/storage/chunkfs")],
 [],["api.Service under concurrency"])

prop("C22","Errors reach the client with the right class",
 "An operation that fails because of a bad argument, a missing or existing entity, a conflict, exhaustion, missing permission, an unimplemented function, a cancelled or timed-out context, or data loss reports exactly that class to a gRPC client as the status code and, decoded on the client side (errors.Is), as the same error class (a timed-out one as communication); however the error was wrapped (%w, errors.Join, own types, comparable or not, an object embedded in it, which arrives too) the class does not change, and an error that belongs to several of the classes may be reported as any of them. Every other failure, a closed component or a damaged file included, is reported as internal or, where that is the case, as data loss or not found, without a panic; success is never reported for a failure. The REST gateway answers the same failures with 404 (missing), 400 (bad argument, malformed requests included), 409 (existing, conflict) or another error status, and never with a success. Errors that are no gRPC errors are recognized as the classes they wrap and no other.",
 ["inputs","fault_sequences"],"every error class, wrapped to any depth, at every API entry point",
 "Tests map a few errors one by one.",
 ["golibs/errors/grpc.go","golibs/errors/errors.go","pkg/api/service.go","pkg/api/rest/rest.go"],
 [("class tables","golibs/errors/grpc.go"),("HTTP error mapping","pkg/api/rest/rest.go")],
 [],["api.Service, rest handlers, errors.GRPCWrap / FromGRPCError"])

prop("C23","The in-memory object store behaves as a consistent key-value store",
 "A get returns exactly the bytes of the last completed put of that key, or not-found if there is none or it was deleted; listing a path returns exactly the keys directly under it and its direct sub-paths, each once; malformed keys and paths are refused; a failing source during put leaves the previous value, and what was got stays what it is. (Deleting an absent key may or may not tell so.) Concurrent use from many goroutines is safe and linearizable.",
 ["histories","schedules","inputs"],"all sequences and interleavings of put, get, list and delete over nested keys",
 "The suite runs one fixed sequence.",
 ["golibs/sss/service.go","golibs/sss/inmem/storage.go"],
 [("sorted keys with path listing","golibs/sss/inmem/storage.go")],
 [],["sss.Storage (inmem)"])
prop("C24","REST and gRPC clients see exactly what the service does",
 "Every operation asked for over the REST gateway or over gRPC has the effect and the answer that the log store and the catalogue are specified to give (C01..C08): a log gets exactly the tags of the request, appended payloads arrive byte for byte (empty ones too) and in order, every parameter of a query (log IDs, conditions, direction, start, limit) is applied and every field of the answer (IDs, tags, times, payloads, next page, totals, number of deleted logs or added records) is what it is in the store, so that walking pages over the gateway returns every record exactly once. A malformed REST request (another content type, broken or mistyped JSON, a payload that is no base64, a parameter that is no number or boolean) is refused with a 4xx status and has no effect.",
 ["histories","inputs"],"every history of operations with arbitrary tags, payloads, conditions, directions and page sizes",
 "The gateway has no tests at all.",
 ["pkg/api/rest/rest.go","pkg/api/rest/transformers.go","pkg/api/service.go","pkg/grpc/server.go"],
 [("handlers and transformers","pkg/api/rest"),("service behind both","pkg/api/service.go")],
 ["C01","C05","C07"],["REST handlers (gin), gRPC server and generated client"])
prop("C25","Every configured option reaches the server",
 "The configuration the server starts with has for every option (transport, ports, paths, limits, every field of the database connection) the value of its environment variable (SOLARIS_ and the path of the option joined by _) if there is one that is not empty, else the value of the configuration file (YAML or JSON by the extension in any case) if it gives one (an empty text or a plain number 0 counts as none, an optional number may be 0), else the default; names count in any letter case in both; the order of variables or keys does not matter; any text (any Unicode character, quotes, equals signs, digits) arrives unchanged, plain or, in a variable, as a JSON text; a variable with the JSON of a whole group sets the group. Files and variables that name no option change nothing. A missing file is reported as not existing, an unknown extension as invalid, and contents or a variable that do not fit the type of the option are refused, never silently ignored or replaced.",
 ["inputs","configurations"],"every combination of default, file and environment for every option with arbitrary values",
 "The suite loads one file with one option.",
 ["pkg/server/config.go","golibs/config/enricher.go","golibs/transport/transport.go","pkg/db/db.go"],
 [("merge of file over default","golibs/config/enricher.go ApplyOther"),("environment variables","golibs/config/enricher.go ApplyEnvVariables")],
 [],["server.BuildConfig"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
    print(len(P))
