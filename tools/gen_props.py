#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_props.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Concurrent operations on a key are linearizable",
 "With no expiration and no capacity pressure, the concurrent inserts, gets, removals, invalidations and containment tests that any number of threads or async tasks issue on a key behave as if each took effect atomically at one instant between its call and its return. In particular an acknowledged write is visible to every operation that starts later, a value never reappears after it was overwritten or removed, and this holds whatever the hasher and while the underlying table grows or shrinks.",
 ["schedules", "inputs", "histories"], "every interleaving of any number of callers, every key distribution and hash function, sync, segmented and async caches",
 "The multi-threaded unit tests use disjoint or non-conflicting values and check only the final state under the one schedule the OS happened to pick.",
 ["src/sync/base_cache.rs", "src/future/base_cache.rs", "src/cht/segment.rs", "src/cht/map/bucket.rs", "src/cht/map/bucket_array_ref.rs"],
 [("lock-free bucket CAS with tombstones and incremental relocation", "src/cht/map/bucket.rs insert_or_modify/remove_if/rehash"),
  ("entry replaced in one table operation", "src/sync/base_cache.rs do_insert_with_hash")],
 [("hash table bucket", "current entry of a key, tombstone or relocation sentinel", "src/cht/map/bucket.rs")],
 ["public API call/return"], "random delay points inside the hash table and between table update and bookkeeping")

prop("C02", "Any single-caller history matches a map: no stale, invented or reviving value",
 "For every sequence of public operations issued by one caller, a lookup returns either nothing or exactly the value of the latest write to that key, never an older, removed, invalidated or foreign value, and an unbounded non-expiring cache never loses an entry. Every operation's own result (removed value, whether an entry was fresh or replaced an old one, the outcome of a compute, entry-or-insert variants, owned and borrowed key forms, clones of the handle) agrees with the state of that map, wherever background maintenance happens to run.",
 ["histories", "inputs", "configurations"], "all operation sequences over all public methods, all configurations of capacity, weigher, expiration, listener, hasher, and all placements of maintenance",
 "Unit tests walk about thirty fixed scripts with a handful of keys each; they cannot cover the interaction of all operations, configurations and maintenance points.",
 ["src/sync/cache.rs", "src/sync/segment.rs", "src/future/cache.rs", "src/sync/entry_selector.rs", "src/future/entry_selector.rs", "src/common/entry.rs", "src/ops.rs"],
 [("get with validity filters", "src/sync/base_cache.rs do_get_with_hash"), ("insert/upsert classification", "src/sync/base_cache.rs do_insert_with_hash"),
  ("entry selector results", "src/sync/entry_selector.rs"), ("async counterparts", "src/future/cache.rs")],
 [], ["return values of every public method"], "mock clock")

prop("C03", "Time-to-live and time-to-idle are exact at every read",
 "An entry is returned by any read path (get, containment, iteration, entry and initialising operations) if and only if less than the time-to-live has passed since its last write and less than the time-to-idle since its last write or effective read, so an expired value is never served and a live one is never lost early; only reads that fetch the value through get-like calls, not containment tests or iteration, extend the idle time. An expired entry is physically removed, with its removal reported as expired, by maintenance that runs after the expiry (for time-to-idle, at the latest one further idle period later, since entries leave in access-queue order).",
 ["inputs", "histories", "configurations", "schedules"], "all durations, operation histories, clock advances and concurrent readers/writers",
 "Unit tests step a mock clock through a few 5-second boundaries; boundary ties, combinations of both limits, other read paths and concurrency are not explored.",
 ["src/sync/base_cache.rs", "src/future/base_cache.rs", "src/common/concurrent/entry_info.rs", "src/common/concurrent/deques.rs", "src/common/deque.rs", "src/common/time/instant.rs"],
 [("lazy expiry filters at read", "src/sync/base_cache.rs is_expired_by_tti/is_expired_by_ttl"), ("maintenance sweep of the queues", "src/sync/base_cache.rs remove_expired_wo/remove_expired_ao")],
 [("last_accessed/last_modified", "timestamps governing expiry", "src/common/concurrent/entry_info.rs")],
 ["public reads under a mock clock", "eviction listener"], "mock clock")

prop("C04", "Per-entry expiration follows the user's expiry policy exactly",
 "The user's create, update and read expiry hooks are called exactly for the operations that insert, overwrite and read an entry, with that entry's key, value, times and remaining duration, and the entry becomes invisible exactly when the earliest of the duration they last established, the time-to-live and the time-to-idle runs out; returning the remaining duration leaves the deadline unchanged and returning none removes it. Deadlines are kept to the timer's resolution of a few microseconds, and operations that overlap in time may take effect in either order. Entries whose deadline has passed are physically removed by maintenance within a couple of seconds of cache time, for deadlines from microseconds to years ahead, and entries whose deadline has not passed never are.",
 ["inputs", "histories", "configurations"], "all policies returning arbitrary durations, all histories and clock steps from nanoseconds to years",
 "Unit tests use fixed durations and one entry; the timer wheel's cascading levels, rescheduling, cancellation and stale timers are reached by a handful of fixed cases only.",
 ["src/common/timer_wheel.rs", "src/sync/base_cache.rs", "src/future/base_cache.rs", "src/common/concurrent/entry_info.rs", "src/policy.rs"],
 [("expire_after_create / expire_after_read_or_update", "src/sync/base_cache.rs"), ("hierarchical timer wheel", "src/common/timer_wheel.rs advance/schedule/reschedule/deschedule"),
  ("timer upkeep on writes and reads", "src/sync/base_cache.rs update_timer_wheel")],
 [("expiration_state", "packed deadline and generation of an entry", "src/common/concurrent/entry_info.rs")],
 ["arguments of the expiry hooks", "public reads", "entry count after maintenance"], "mock clock")

prop("C05", "Bulk invalidation hides exactly the older, matching entries",
 "Once invalidate-all returns, no entry whose write had completed before the call is ever visible again; once a predicate is registered, no entry whose write had completed before and that satisfies it is ever visible again, on any read path. Entries written afterwards, and entries the predicates reject, stay visible and intact, whatever maintenance runs in between and however many predicates or entries there are; the affected entries are physically removed by subsequent maintenance.",
 ["histories", "inputs", "schedules", "configurations"], "all sequences of writes, invalidations, predicate registrations and maintenance runs, including more entries than one maintenance batch",
 "Unit tests register one or two predicates over a few entries; multi-batch scans, overlapping predicates, re-inserted keys and concurrent writers are not covered.",
 ["src/sync/invalidator.rs", "src/future/invalidator.rs", "src/sync/base_cache.rs", "src/future/base_cache.rs", "src/sync/segment.rs"],
 [("validity watermark", "src/sync/base_cache.rs set_valid_after/is_invalid_entry"), ("predicate filter at read and batch scan", "src/sync/invalidator.rs apply_predicates/scan_and_invalidate")],
 [("valid_after", "instant before which entries are invalid", "src/sync/base_cache.rs"), ("predicates", "registered predicates and registration times", "src/sync/invalidator.rs")],
 ["public reads", "eviction listener", "entry count"], "mock clock")

prop("C06", "Capacity is never exceeded once maintenance settles, nor evicted needlessly",
 "Whenever pending maintenance has settled, the total weight of the entries in the cache is at most the configured maximum capacity, for any weigher, including weights that change on update, are zero, or exceed the maximum (such an entry does not stay). Entries are only evicted for size when the writes issued would otherwise overflow the capacity: a workload whose total weight always fits never loses an entry. Between maintenance runs, the number of stored entries exceeds the capacity by no more than the bounded backlog of pending writes.",
 ["histories", "inputs", "schedules", "configurations"], "all workloads, weighers, capacities, eviction policies, thread counts and interleavings",
 "Unit tests check one hand-worked weighted example; over-admission due to racing updates, stale weights or batch limits needs long random and concurrent runs.",
 ["src/sync/base_cache.rs", "src/future/base_cache.rs", "src/sync/segment.rs", "src/common/concurrent/housekeeper.rs"],
 [("capacity test, admission and LRU eviction", "src/sync/base_cache.rs handle_upsert/admit/evict_lru_entries"), ("bounded write log with back-pressure", "src/sync/cache.rs schedule_write_op")],
 [("weighted_size", "total policy weight of admitted entries", "src/sync/base_cache.rs")],
 ["iteration + weigher", "weighted_size()", "eviction listener"], "mock clock; delay points")

prop("C07", "Victims are chosen by recency and popularity as the policy promises",
 "Under the LRU policy, size evictions remove entries in least-recently-used order, where inserts, updates and value reads refresh recency. Under the default TinyLFU policy, when the cache is full a newcomer is admitted only if its recent request count exceeds the combined count of the least-recently-used entries it would displace, which then are exactly the entries evicted; otherwise the newcomer itself is dropped, so a set of frequently read entries survives a scan of one-time keys, and popularity fades with age.",
 ["histories", "inputs", "configurations"], "all access histories, weights and capacities",
 "Unit tests replay one three-entry example per policy; they do not compare the eviction sequence with the policy over arbitrary histories.",
 ["src/sync/base_cache.rs", "src/future/base_cache.rs", "src/common/frequency_sketch.rs", "src/common/deque.rs", "src/common/concurrent/deques.rs", "src/policy.rs"],
 [("admit", "src/sync/base_cache.rs"), ("evict_lru_entries", "src/sync/base_cache.rs"), ("count-min sketch with aging", "src/common/frequency_sketch.rs"), ("access-order deque", "src/common/deque.rs")],
 [("probation deque", "access order of admitted entries", "src/common/concurrent/deques.rs"), ("frequency sketch", "approximate request counts", "src/common/frequency_sketch.rs")],
 ["eviction listener order", "contains after maintenance"], "mock clock")

prop("C08", "Every departed value is reported to the eviction listener exactly once",
 "When a listener is configured, each value that was stored and then left the cache (replaced, removed, invalidated, expired or evicted) is delivered to the listener exactly once, with its own key and value, and a value still in the cache is never delivered. The cause is truthful: replaced for an overwrite of a live entry, explicit for a removal or invalidation, expired for an entry past its lifetime, size for a capacity eviction.",
 ["schedules", "histories", "inputs", "configurations"], "all histories and interleavings of all operations with maintenance, for sync, segmented and async caches",
 "Unit tests compare one fixed notification list per scenario, single-threaded; duplicated or lost notifications come from races of updates, removals and evictions.",
 ["src/notification.rs", "src/notification/notifier.rs", "src/future/notifier.rs", "src/sync/base_cache.rs", "src/future/base_cache.rs", "src/sync/cache.rs", "src/future/cache.rs", "src/sync/invalidator.rs"],
 [("notify_upsert / notify_invalidate / notify_entry_removal", "src/sync/base_cache.rs"), ("removal from the table decides who notifies", "src/sync/base_cache.rs remove_if callers")],
 [], ["listener calls", "API results"], "mock clock; delay points")

prop("C09", "Reported entry count and weighted size equal the real contents at rest",
 "After maintenance has settled, the reported entry count equals the number of entries stored and the reported weighted size equals the sum of their current weights, after any history of any length and any interleaving of inserts, updates that change weights, removals, expirations, invalidations and evictions. The figures never drift: emptying the cache brings both back to zero.",
 ["schedules", "histories", "inputs", "configurations"], "all histories, interleavings of writers with maintenance, weighers and configurations, including many updates of one key",
 "Tests check counts after short single-threaded scripts; drift arises from op reordering between the table and the policy queue and from long-lived entries.",
 ["src/sync/base_cache.rs", "src/future/base_cache.rs", "src/common/concurrent/entry_info.rs", "src/common/concurrent.rs", "src/sync/segment.rs"],
 [("counters updated when write ops are applied", "src/sync/base_cache.rs handle_upsert/handle_admit/handle_remove"), ("generation numbers ordering ops of an entry", "src/common/concurrent/entry_info.rs")],
 [("entry_count, weighted_size", "published totals", "src/sync/base_cache.rs"), ("entry_gen/policy_gen", "op generations", "src/common/concurrent/entry_info.rs")],
 ["entry_count()", "weighted_size()", "iteration"], "delay points between table update and op enqueue")

prop("C10", "Concurrent initialisation of a missing key runs one initialiser",
 "For concurrent get-or-initialise calls of the same kind on one absent key, initialisers never run concurrently with each other, exactly one successful initialiser runs while the entry stays cached, and every caller that overlapped it returns the value it produced (or one cached by someone else, or one that a call it overlapped was itself given), never a value that was not stored or produced for that key. A caller that finds a live entry never runs its initialiser, and calls on other keys are not blocked.",
 ["schedules", "inputs", "configurations"], "all numbers of callers, interleavings, owned/borrowed key forms and all get-or-initialise variants, sync, segmented and async",
 "Unit tests orchestrate five threads with fixed sleeps; the window between the waiter map and the table is never hit systematically.",
 ["src/sync/value_initializer.rs", "src/future/value_initializer.rs", "src/sync/cache.rs", "src/future/cache.rs"],
 [("per-key waiter with re-check of the cache after winning", "src/sync/value_initializer.rs try_init_or_read"), ("waiter map", "src/cht/segment.rs insert_if_not_present")],
 [("waiters", "in-flight initialisations by key and kind", "src/sync/value_initializer.rs")],
 ["initialiser enter/exit events and call results"], "delay points around waiter registration and removal")

prop("C11", "A failed, panicking or abandoned initialiser wedges no one and caches nothing",
 "If an initialiser returns an error or none, its caller and the callers waiting on it get that outcome and nothing is cached; if it or a compute closure panics, only its own caller sees the panic; if its async call is dropped, the others carry on. In every case the remaining and later callers for the key complete (running their own initialiser if needed), the previous cached value, if any, is unharmed, and different kinds of initialising calls on the same key do not corrupt each other's results.",
 ["fault_sequences", "schedules", "inputs"], "all sequences of errors, panics and cancellations of initialisers and user callbacks, with any number of waiters",
 "Unit tests panic or abort once with fixed sleeps; repeated faults, mixed call kinds, and faults with many waiters are not covered.",
 ["src/sync/value_initializer.rs", "src/future/value_initializer.rs", "src/sync/cache.rs", "src/future/cache.rs"],
 [("catch_unwind and waiter cleanup", "src/sync/value_initializer.rs"), ("WaiterGuard drop", "src/future/value_initializer.rs")],
 [("WaiterValue", "state of an in-flight initialisation", "src/sync/value_initializer.rs")],
 ["call results, panics, initialiser counts"], "delay points")

prop("C12", "Compute operations on an entry are atomic and serial",
 "Concurrent compute, try-compute and upsert operations on the same key run one at a time, each seeing the value left by the previous one, so no update is lost and each returned outcome (inserted, replaced, removed, unchanged, still none) describes exactly the transition made. An error or a panic in the closure leaves the entry unchanged, and the try-if-nobody-else form never runs its closure while another compute on that key is in progress.",
 ["schedules", "fault_sequences", "inputs"], "all interleavings of computes with each other, with panics, errors and async cancellation, sync and async",
 "The unit tests run two or five ordered computations with sleeps; one regression test samples one race of this kind.",
 ["src/sync/value_initializer.rs", "src/future/value_initializer.rs", "src/sync/entry_selector.rs", "src/future/entry_selector.rs"],
 [("try_compute with per-key waiter held until after the write", "src/sync/value_initializer.rs try_compute")],
 [], ["closure arguments and compute results"], "delay points between compute write and waiter removal")

prop("C13", "Iteration is complete, duplicate-free and never resurrects",
 "Iterating yields every entry that is present and live throughout the iteration exactly once with a value it held during it, never yields the same key twice, and never yields an entry that was removed, invalidated or had expired before the iterator was created. Concurrent inserts, removals, growth and shrinking of the table do not make it fail, loop or miss entries that stay, and iterating neither blocks writers nor counts as access.",
 ["schedules", "histories", "inputs"], "all concurrent modification schedules, table sizes and segment counts",
 "Unit tests iterate 150 entries with one concurrent writer once and check no more than membership.",
 ["src/common/iter.rs", "src/cht/segment.rs", "src/cht/iter.rs", "src/sync/base_cache.rs", "src/sync/segment.rs", "src/future/base_cache.rs"],
 [("per-segment key snapshot and re-lookup", "src/common/iter.rs"), ("keys of a bucket array, relocation aware", "src/cht/map/bucket_array_ref.rs keys")],
 [], ["iterator items vs recorded history"], "delay points in iteration and rehash")

prop("C14", "Dropping an async operation at any await point loses nothing",
 "If the future of any async cache operation is dropped at any point before completion, the cache behaves as if the operation had either happened entirely or not at all once other operations run: the contents, the reported sizes, the capacity bound and the exactly-once delivery of removal notifications all remain intact, including when the listener itself is slow or the dropped task was performing maintenance for others. No other task is left waiting forever because of the drop.",
 ["crash_points", "schedules", "fault_sequences"], "all operations x all suspension points at which they can be dropped x all states of the other tasks",
 "Unit tests cancel two operations at one point each using a hard-wired blocking switch.",
 ["src/future/base_cache.rs", "src/future/cache.rs", "src/future/housekeeper.rs", "src/future.rs", "src/future/value_initializer.rs"],
 [("CancelGuard and interrupted-op queue", "src/future.rs, src/future/base_cache.rs retry_interrupted_ops"), ("resumable maintenance task", "src/future/housekeeper.rs do_run_pending_tasks"), ("WaiterGuard", "src/future/value_initializer.rs")],
 [("interrupted_op_ch", "ops to resume", "src/future/base_cache.rs"), ("current_task", "maintenance future to resume", "src/future/housekeeper.rs")],
 ["contents, counts, notifications after drops"], "suspension points next to existing awaits; mock clock")

prop("C15", "No undefined behaviour or data race in any workload",
 "No safe use of the caches, from any number of threads, performs an invalid, dangling or misaligned memory access, a double free, a use of uninitialised memory, an aliasing violation or a data race, including in the lock-free table, intrusive queues, timer wheel, reference counting and reclamation.",
 ["schedules", "histories", "programs"], "all safe client programs and schedules",
 "The ordinary test run has no instrumentation: undefined behaviour typically stays silent, and loom covers only the small reference counter.",
 ["src/cht/map/bucket.rs", "src/cht/map/bucket_array_ref.rs", "src/cht/segment.rs", "src/common/deque.rs", "src/common/concurrent/deques.rs", "src/common/concurrent/arc.rs", "src/common/timer_wheel.rs", "src/common/concurrent.rs"],
 [("epoch-based reclamation", "src/cht/map/bucket.rs defer_destroy_*"), ("intrusive deque unlinking", "src/common/deque.rs"), ("timer node generations", "src/common/timer_wheel.rs"), ("MiniArc orderings", "src/common/concurrent/arc.rs")],
 [], ["Miri and AddressSanitizer reports"], None)

prop("C16", "Keys and values are released exactly once and never leaked",
 "Every key and value instance handed to a cache is dropped exactly once; values that were replaced, removed or evicted are released after maintenance and a bounded amount of further activity rather than being retained, and once the last handle to a cache is dropped every key, value, closure and listener it held has been released. Pending operations, waiters, iterators, key locks and timers do not keep departed values alive.",
 ["histories", "schedules", "configurations", "fault_sequences"], "all histories, thread exits, cancellations and panics followed by settling or dropping the cache",
 "Two unit tests count drops for a single insert/evict script.",
 ["src/cht/segment.rs", "src/cht/map/bucket.rs", "src/common/concurrent.rs", "src/common/concurrent/arc.rs", "src/common/deque.rs", "src/common/timer_wheel.rs", "src/sync/base_cache.rs", "src/future/base_cache.rs"],
 [("deferred destruction through epochs and flushes", "src/cht/map/bucket.rs"), ("Inner::drop epoch flushing", "src/sync/base_cache.rs"), ("MiniArc", "src/common/concurrent/arc.rs")],
 [], ["instance-counting keys/values"], None)

prop("C17", "Every operation completes and pending work stays bounded",
 "No combination of concurrent operations, full internal queues, slow listeners, evictions, invalidations and explicit maintenance calls makes an operation block forever or a maintenance run loop forever: whenever the user's own callbacks return, every call returns. Maintenance is triggered by ordinary operations alone, so that overflow, expired entries and pending bookkeeping are worked off without explicit maintenance calls and their backlog stays bounded.",
 ["schedules", "histories", "configurations"], "all interleavings, thread counts, bursts larger than the internal queues, sync and async",
 "A deadlock or lost wake-up needs a specific schedule; the tests rarely fill the queues and would show one only as a rare time-out.",
 ["src/sync/cache.rs", "src/future/base_cache.rs", "src/common/concurrent/housekeeper.rs", "src/future/housekeeper.rs", "src/sync/key_lock.rs", "src/future/key_lock.rs", "src/sync/base_cache.rs"],
 [("back-pressure on the write queue", "src/sync/cache.rs schedule_write_op, src/future/base_cache.rs schedule_write_op"), ("housekeeper try-lock and flush points", "src/common/concurrent/housekeeper.rs"), ("loop exit conditions", "src/sync/base_cache.rs do_run_pending_tasks")],
 [("write_op_ch", "bounded queue of pending writes", "src/sync/base_cache.rs")],
 ["operation completion; logical deadlock detection by a deterministic executor"], "suspension/delay points")

prop("C18", "Listener calls on one key are serialised in the order values departed",
 "For any one key, calls of the eviction listener for its successive values never overlap each other and arrive in the order in which those values left the cache, even when different threads or tasks and maintenance cause the departures. A panic inside a listener stays contained: the triggering operation and all later ones complete normally, and the listener is simply not called again.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of updates, removals and maintenance on a key; all listener panics",
 "One unit test times a slow listener with two updates; panics are tested at one point.",
 ["src/sync/key_lock.rs", "src/future/key_lock.rs", "src/notification/notifier.rs", "src/future/notifier.rs", "src/sync/base_cache.rs", "src/future/base_cache.rs"],
 [("per-key lock", "src/sync/key_lock.rs"), ("catch_unwind and disable", "src/notification/notifier.rs")],
 [("key locks", "lock per key with in-flight operations", "src/sync/key_lock.rs")],
 ["listener enter/exit events"], "delay points")

prop("C19", "A segmented cache is observationally one cache",
 "A segmented cache with any segment count behaves like a single cache with the same configuration: every key is found through every access path and every borrowed form, counts, weights, iteration, bulk invalidation, maintenance and listener notifications cover all segments exactly once, and its capacity is the configured one up to rounding per segment.",
 ["configurations", "histories", "inputs"], "all segment counts, hashers, histories and configurations",
 "Unit tests mostly run the segmented cache with one segment, or a few keys on up to sixteen.",
 ["src/sync/segment.rs", "src/sync/builder.rs", "src/common/iter.rs"],
 [("segment selection by hash", "src/sync/segment.rs select/segment_index_from_hash"), ("fan-out of bulk operations and sums", "src/sync/segment.rs")],
 [], ["public API"], "mock clock")

prop("C20", "Configuration is honoured and degenerate configurations are safe",
 "A cache reports exactly the name, maximum capacity, segment count and lifetimes it was built with and applies them; durations beyond the documented limit are refused at build time, and predicate invalidation is refused unless enabled. A cache of zero capacity stores nothing on any path while every operation still works and initialisers still deliver their value, and extreme settings (zero or huge durations, capacities, weights and initial sizes) never cause a panic, an overflow or a wrong visibility.",
 ["configurations", "inputs"], "all builder settings and their combinations, for all cache types",
 "Unit tests build a dozen fixed configurations.",
 ["src/sync/builder.rs", "src/future/builder.rs", "src/policy.rs", "src/common/builder_utils.rs", "src/sync/cache.rs", "src/future/cache.rs", "src/common/time/instant.rs"],
 [("builder hand-over to the cache", "src/sync/builder.rs build"), ("zero-capacity short cuts", "src/sync/base_cache.rs is_map_disabled"), ("saturating time arithmetic", "src/common/time/instant.rs")],
 [], ["policy(), name(), visibility under the mock clock"], "mock clock")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
