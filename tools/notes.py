_LOG = ("exhaustive TLC check of the chunk-level design in SolarisLog.tla against its record-level meaning; histories generated by TLC "
        "from GenLog.tla replayed on the assembled real stack (service, log store, chunk provider, catalogue, cache); the recorded "
        "executions validated by TLC against SolarisLog.tla (TraceLog.tla)")
_LOGN = ("Design level: exhaustive for small constants. Code level: the generated histories only (seeded, some hundred thousand compared "
         "records per run), with real files, real catalogue and restarts. Trusts TLC, the harness's rendering of requests and results, "
         "and the in-memory object store. ")
NOTES = {
 "C01": (_LOG, "model_checking", _LOGN),
 "C02": (_LOG, "model_checking", _LOGN),
 "C03": (_LOG, "model_checking", _LOGN + "Relative times (-1h, day) are not generated, because their meaning depends on the moment of evaluation."),
 "C04": (_LOG + "; chunk files hidden and calls failed while counting", "model_checking", _LOGN),
 "C05": (_LOG + "; the caller's context cancelled at generated statements of the append", "model_checking", _LOGN),
 "C06": (_LOG + "; calls of the log store and catalogue failed during the merge", "model_checking", _LOGN),
}
_SCH = ("; scenarios generated by TLC run in the real code under a controlled scheduler (statement-level instrumentation added by an "
        "overlay: every single preemption and random plans with more), the traces of observed events validated by TLC")
_SCHN = ("Design level: exhaustive for small constants (safety and liveness). Code level: few threads and short programs, every "
         "single-preemption schedule up to a cap and random ones beyond; quiescence is detected, so lost wake-ups are seen. ")
NOTES.update({
 "C11": ("exhaustive TLC check of Accessor.tla (safety, liveness, shutdown)" + _SCH + " against TraceAcc.tla; on the access control "
         "itself and on Provider and Replicator with real chunk files and an in-memory remote store", "model_checking", _SCHN),
 "C10": ("exhaustive TLC check of Releasable.tla" + _SCH + " against TraceRel.tla", "model_checking", _SCHN),
})
_SEQ = ("exhaustive TLC check of %s; histories generated by TLC from %s replayed in the real code%s; every recorded trace "
        "validated by TLC against %s")
NOTES.update({
 "C12": (_SEQ % ("Replication.tla", "GenRepl.tla (appends, reads, uploads, deletions after synchronisation, downloads, damaged files, restarts)",
         " with an object store that fails, truncates, answers late, breaks off or cancels at a generated call, and a full disk", "TraceStore.tla"),
         "model_checking", "Design level: exhaustive for small constants. Code level: the generated histories only. Assumes that the object store "
         "does not report success for a put it did not do. "),
 "C13": (_SEQ % ("Crash.tla (the steps of an append with growth and recovery, crashing anywhere)", "GenRepl.tla",
         ", the process dying (the files and the store are copied) after every instrumented statement that changed them, and restarting on the copy",
         "TraceStore.tla"), "fault_enumeration", "Death of the process, not of the operating system: what was written to the mapped file counts as written. "
         "A sample of the crash points of each operation is taken in the quick tier. "),
})
NOTES.update({
 "C07": (_SEQ % ("Catalogue.tla (page walks interleaved with changes)", "GenCat.tla (create, update, delete by condition and ID, page walks "
         "continued between changes, appends, reads, restarts; cached or not)", "", "TraceCat.tla"), "model_checking",
         "Design level: exhaustive for small constants. Code level: the generated histories only; concurrent changes are C09 and C21. "),
 "C08": (_SEQ % ("QL.tla: its recogniser and meaning against a declarative grammar, on every token sequence up to a length (MCQL.tla)",
         "GenCat.tla (random expressions, mutated and misused ones, long chains, deep nesting, arbitrary text)", "", "TraceCat.tla, which evaluates QL.tla"),
         "model_checking", "Expressions that the documentation allows and the implementation refuses (a constant or logID on the wrong side, numbers) are "
         "only required not to crash. The _ of SQL's LIKE and the SQL translation for Postgres are not covered. "),
})
NOTES["C18"] = (_SEQ % ("IterMap.tla (a linked list with removed elements held by iterators, against the sequence of elements)",
    "GenMap.tla (adds, removals, lookups, clear-style removals, several iterators opened, moved and closed in any order)", "", "TraceMap.tla"),
    "model_checking", "Design level: exhaustive for small constants. Code level: the generated histories only; a call that does not end is detected by a watchdog. ")
NOTES["C19"] = ("exhaustive TLC check of Lru.tla (lookups, removals, failing loads, expiry; safety and liveness)" + _SCH + " against TraceLru.tla; "
    "long single-threaded histories validated against exact recency order", "model_checking", _SCHN + "A load that panics is not covered. ")
NOTES["C09"] = ("exhaustive TLC check of MetaCache.tla (reads, loads, changes that fail before or after they are applied, invalidations; safety and liveness)" + _SCH +
    " against TraceCache.tla; long single-threaded histories too", "model_checking", _SCHN + "The storage under the cache is a stand-in that numbers its changes and "
    "fails on request (the real buntdb under the cache: C07). Callers are assumed not to modify what they are given. ")
NOTES["C21"] = ("exhaustive TLC check of Lin.tla (appends chunk by chunk, reads and counts, reload of chunks; safety and liveness)" + _SCH + " against TraceLin.tla "
    "(a search for the order in which the calls took effect)", "model_checking", _SCHN + "A read of several logs is required to be in ID order and prefix-consistent in each of them, "
    "not to be one instant of all of them. Assumes that the clock does not step back. ")
NOTES["C16"] = ("exhaustive TLC check of Timeout.tla (futures, workers, wake-ups, idle exits, time; safety and liveness); scenarios generated by TLC (GenTimeout.tla) "
    "run in the real code under a virtual clock and a scheduler that picks at random, seeded, who runs how many statements and when time passes; every trace "
    "validated by TLC against TraceTimeout.tla", "model_checking", "Design level: exhaustive for small constants. Code level: the generated scenarios and seeds only. "
    "What is due may wait while a worker is busy with a function that takes its time. A function that panics is not covered. ")
NOTES["C17"] = (_SEQ % ("Blocks.tla (bitmap, hint and books under allocation, release, re-opening and growth)", "GenBlk.tla (in-memory and mapped buffers, re-opening, growth, "
    "wrong sizes and indices)", "; small concurrent scenarios under the controlled scheduler", "TraceBlk.tla"), "model_checking",
    "Design level: exhaustive for small constants. Code level: the generated histories and schedules only. ")

NOTES["C15"] = ("exhaustive TLC check of Kvs.tla (compare-and-set as one step and as watch / look / execute, waiters with wake-ups, timers and polling, expiry; safety and "
    "liveness); scenarios and long single-client histories generated by TLC (GenKvs.tla) run on both storages (Redis: the real client against an in-process server whose "
    "clock is the virtual one) under a scheduler that picks at random, seeded, who runs how many statements or commands and when time passes; TLC searches for an order of "
    "the calls that explains every recorded history (TraceKvs.tla)", "model_checking", "Design level: exhaustive for small constants. Code level: the generated scenarios and "
    "seeds only. Calls on several keys need not be atomic as a whole. Trusts miniredis for the behaviour of Redis; keys do not begin with a slash (Redis ignores it), and a "
    "waiter of the Redis storage may be late by its polling interval. ")

NOTES["C14"] = ("exhaustive TLC check of Dlock.tla (record with a lease; lock, renewal with failures, unlock by compare-and-set, death, holders that are held up, time; "
    "exclusion, an own lease for every holder, availability as liveness); scenarios generated by TLC (GenDlock.tla: lockers of several providers over one storage, faults of "
    "their connections, death, shutdown) run on the real locks with a virtual clock under a seeded random scheduler of statements, timers and renewals; the recorded events "
    "validated by TLC against TraceDlock.tla", "model_checking", "Design level: exhaustive for small constants. Code level: the generated scenarios and seeds only, over the "
    "in-memory storage. A holder whose provider died, was cut off for more than a second, failed more than twice, lost the answer of a renewal or got the answer of its "
    "create after the lease is not held to exclusion. Providers are in one process (and share its timers); what waiting lockers do when their provider is shut down meanwhile is not checked. ")

NOTES["C23"] = ("exhaustive TLC check of Objs.tla (keys as paths, puts that read first and store then, listings that look at key after key; a listing is what is under the "
    "path at one moment, and walking all paths finds every key once); scenarios and long histories generated by TLC (GenObjs.tla, with failing sources and malformed keys) run on "
    "the real store under enumerated and random schedules, and freely under the race detector; TLC searches for an order of the calls that explains every history "
    "(TraceObjs.tla)", "model_checking", "Design level: exhaustive for small constants. Code level: the generated scenarios and schedules only. The S3 store is not covered. ")

NOTES["C22"] = ("exhaustive TLC check of ErrMap.tla (a call runs through stages, one of which fails with an error tree; the service makes a status of it, the client and the "
    "gateway decode it; the outcome is what the error means); TLC enumerates every error with one wrap or join at every place of every call and way in, and every listed "
    "failure of the real stack (EnumErr.tla), and generates deeper ones with paging, merging and contexts (GenErr.tla); all are run through the real service, directly, over the "
    "real gRPC server and client, and through the REST handlers; TLC compares what callers were told with what failed (TraceErr.tla)", "model_checking",
    "Design level: exhaustive for errors with one (thorough: two) wraps. Code level: the enumerated and generated cases. Messages are not compared. ")

NOTES["C20"] = ("exhaustive TLC check of Scanner.tla (a scan step by step: list, sweep oldest first, copy, note; users that open, append and download meanwhile, failing "
    "copies, stops and deaths at every step; safety, and as liveness: a stop ends the scan, everything gets copied); histories generated by TLC (GenScan.tla) run on the real "
    "Scanner, Replicator and Provider over real files with a virtual clock, a failing, slow or cancelled store, chunks that get opened within a scan, and process deaths at "
    "statements of a scan; every scan is recorded (what was there before and after, what was copied when) and validated by TLC against TraceScan.tla", "model_checking",
    "Design level: exhaustive for small constants. Code level: the generated histories only. Chunks are appended to between scans, not within one (C11, C12 do that for the transfers). ")

NA = {}

NOTES["C24"] = ("the histories that TLC generates from GenCat.tla (with malformed requests) and GenLog.tla are replayed against the real REST handlers (HTTP requests, JSON) and the real "
    "gRPC server (unix socket, generated client) on the assembled storage stack; the recorded histories are checked by the same TLA+ trace specifications as those of the service "
    "(TraceCat.tla, TraceLog.tla with every property of the log store on); Catalogue.tla and MCLog are the design models", "model_checking",
    "Design level: exhaustive for small constants. Code level: the generated histories only. Over REST no record IDs are returned by an append, so they are learnt from later reads, and "
    "the overall total of a count is taken from the service. The HTTP and TCP listeners themselves are not part of it (handlers are called in process). ")

NOTES["C25"] = ("exhaustive TLC check that layering defaults, file and variables in any order ends in the specified configuration (MCConfig.tla over Config.tla); configurations generated by TLC "
    "(GenConf.tla) are written as files and environment variables and built by the real server.BuildConfig; every result is compared by TLC (TraceConf.tla)", "model_checking",
    "Code level: the generated configurations only. Not covered: conflicting variables for the same option (documented as undefined), texts that are not valid UTF-8, variables "
    "with the JSON of a part of a group, what the server does with the values. ")
