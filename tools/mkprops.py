#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))
GEO = "cfg candystore_verif_small: a small hash-table geometry, so that full rows and splits are within reach of few operations"

prop("C01", "Point operations behave as a map",
 """For every sequence of set, get, contains, remove, replace (with and without an expected value) and get_or_create,
 each call returns exactly what an ordinary map holding the same keys would return (previous value, created/existing,
 wrong value, missing), for arbitrary keys and values and however the hashes of the keys happen to fall
 (same shard, same row, same signature). The answers stay the same after the store is closed and reopened.""",
 ["inputs", "histories"], "all operation sequences, key bytes, value bytes and all hash values of the keys",
 """Tests use a fixed seed and random keys: equal signatures within one row, and orders of operations over colliding
 keys, are never or only accidentally reached; a test samples a few histories.""",
 ["src/store.rs", "src/shard.rs", "src/hashing.rs", "src/router.rs"],
 [("Shard::insert / try_replace / get / remove", "src/shard.rs"), ("PartedHash", "src/hashing.rs"), ("set_raw, replace_raw, get_or_create_raw", "src/store.rs")],
 [("ShardRow", "signature/offset table of a row", "src/shard.rs")],
 ["CandyStore::{set,get,contains,remove,replace,get_or_create,open}"], GEO)

prop("C02", "Collections and plain keys never interfere",
 """Operations on plain keys, typed keys, lists and queues affect only the addressed entry of the addressed
 collection: the same bytes used as plain key, typed key, list name, item key or queue name denote unrelated things,
 as do typed keys of different types; a big value shares its name with queues only. No choice of key bytes (including bytes that imitate internal suffixes) makes one visible through, or modify, another.""",
 ["inputs", "histories"], "all key/value byte strings up to the bound, all pairs of collection kinds, all hash values",
 """Tests use a handful of readable keys; none imitates the internal suffixes, and cross-kind effects are not checked.""",
 ["src/store.rs", "src/lists.rs", "src/queues.rs", "src/typed.rs"],
 [("namespace suffixes", "src/store.rs"), ("make_list_key/make_item_key", "src/lists.rs"), ("make_queue_key/make_queue_item_key", "src/queues.rs"), ("make_key", "src/typed.rs")],
 observe=["public operations of every collection kind"])

prop("C03", "Entries within limits round-trip; oversized ones have no effect",
 """Every key and value whose length is within the published limits (and the shard size) is stored and read back byte for byte, including empty ones;
 anything larger is rejected with an error (collections may accept slightly more, and then store it faithfully). A rejected operation, on plain keys, lists, queues or big values, leaves every observable
 content unchanged: nothing is lost, no phantom element appears and lengths stay right.""",
 ["inputs", "configurations"], "all key and value lengths around every limit, all operations that write, all shard-size settings within bounds",
 "Tests never exercise lengths at the limits nor look at the state after a rejected operation.",
 ["src/lib.rs", "src/store.rs", "src/shard.rs", "src/lists.rs", "src/queues.rs"],
 [("ensure_sizes, insert_internal", "src/store.rs"), ("write_kv/read_kv packing of lengths", "src/shard.rs")],
 observe=["set/get, set_in_list/get_from_list/list_len, push_to_queue_*/extend_queue/queue_len, set_big/get_big"])

prop("C04", "Shard splits and merges preserve content",
 """When an insert makes a shard split, once or repeatedly, or when small shards are merged, the store afterwards holds exactly the
 entries it held before (plus the inserted one), each reachable by its key, in memory and after reopening.
 Splitting and merging always finish, and a merge that does not fit leaves everything as it was.""",
 ["inputs", "histories", "configurations"], "all distributions of keys over the halves and rows, all histories that fill a row or a shard, balanced and unbalanced shard trees",
 "Tests split with well-spread random keys and merge one balanced tree; skewed halves, repeated splits and unbalanced trees are not reached.",
 ["src/shard.rs", "src/router.rs"],
 [("Shard::split, Shard::merge", "src/shard.rs"), ("ShardRouter::insert, treeify, _merge", "src/router.rs")],
 observe=["CandyStore::{set,get,merge_small_shards,iter,open}"], hook=GEO)

prop("C05", "Compaction preserves content, also while it runs",
 """Compaction, started at any moment and interleaved with any operations on the same shard, changes no observable content:
 every operation before, during and after it answers as if no compaction had happened, and so does a reopened store.""",
 ["schedules", "histories", "inputs"], "all interleavings (within the preemption bound) of the compaction thread with operations, all operation sequences within the bound",
 "Tests run compaction under whatever schedule the machine gives; operations hitting a row just before or just after it is moved are not controlled.",
 ["src/shard.rs"],
 [("begin_compaction, background_compact, do_compaction", "src/shard.rs"), ("operate_on_row(_mut): choice between old and new file", "src/shard.rs")],
 [("compacted_up_to", "rows below it live in the compaction target", "src/shard.rs")],
 ["CandyStore operations during compaction", "CandyStore::open after it"], GEO)

prop("C06", "A process crash during a point operation loses nothing else",
 """If the process dies at any point while setting, replacing or removing one key, the reopened store returns the exact value of every other key,
 and for the key in flight either its old or its new state, never anything else. The reopened store keeps working normally.""",
 ["crash_points", "inputs", "histories"], "every point between two persistent effects of the operation, all value bytes, all hash placements",
 "The crasher tool kills a process at random moments; the windows between two individual stores are a few nanoseconds wide.",
 ["src/shard.rs", "src/store.rs"],
 [("write_kv, then offset, then signature", "src/shard.rs"), ("load", "src/router.rs")],
 observe=["CandyStore::open after a crash, then get/set/iter"], hook=GEO)

prop("C07", "A crash during split, compaction, merge or creation is recovered from",
 """If the process dies at any point while a store is being created or cleared, or while a shard is being split, compacted or merged, the next open succeeds
 and the store holds every entry whose insertion had completed with its current value and no deleted or foreign entry, and keeps working normally.
 This also holds when recovery itself is interrupted by another crash.""",
 ["crash_points", "histories", "configurations"], "every point between two persistent effects of these activities, including a second crash during recovery",
 "Tests only place a few hand-made leftover files; the real intermediate states are never produced.",
 ["src/shard.rs", "src/router.rs"],
 [("temporary names bottom_/top_/merge_/compact_ and renames", "src/shard.rs"), ("load, consolidate_ranges, treeify, create_initial_shards", "src/router.rs"), ("resuming compaction in Shard::open", "src/shard.rs")],
 observe=["CandyStore::open after a crash, then get/iter/set"], hook=GEO)

prop("C08", "Iteration yields every entry exactly once; cookies resume exactly",
 """With no concurrent changes, iterating yields every plain key with its current value exactly once and nothing else.
 An iterator recreated from the cookie taken after any prefix (including after the end) yields exactly the remaining entries.
 Deleting or updating entries during iteration does not cause other, untouched entries to be skipped or repeated.""",
 ["inputs", "histories"], "all contents and hash placements within the bound, every prefix length",
 "Tests iterate over random contents and resume once; the end positions and boundary cookies are not covered.",
 ["src/store.rs", "src/shard.rs"],
 [("CandyStoreIterator::{next,cookie,from_cookie}", "src/store.rs"), ("Shard::read_at", "src/shard.rs")],
 observe=["CandyStore::{iter,iter_from_cookie,iter_raw}"], hook=GEO)

prop("C09", "Lists behave as insertion-ordered dictionaries",
 """For every sequence of list operations (set, promoting set, replace with expected value, get_or_create, get, remove, pop/peek head and tail, iterate both ways,
 length, discard) a list answers exactly as an insertion-ordered dictionary: updates keep an item's position, promoting moves it to the tail, removal forgets it.
 Distinct lists never affect one another.""",
 ["histories", "inputs"], "all sequences of list operations within the bound over few items and lists, all values, all hash placements of the internal entries",
 "Tests run a few fixed scripts and one random fuzz with a fixed mix of operations.",
 ["src/lists.rs"],
 [("_insert_to_list, owned_remove_from_list, get_from_list_at_index", "src/lists.rs")],
 [("List header, chain entries, item index suffix", "position bookkeeping", "src/lists.rs")],
 ["*_list operations of CandyStore"])

prop("C10", "List compaction changes nothing observable",
 """compact_list_if_needed, invoked at any point of any history with any parameters, leaves the order, items, values and length of the list unchanged
 and the list fully usable. It reports true exactly if it rewrote the list.""",
 ["histories", "inputs"], "all histories within the bound that create holes, all parameters",
 "One test compacts one list with one pattern of holes.",
 ["src/lists.rs"], [("compact_list_if_needed", "src/lists.rs")], observe=["compact_list_if_needed, iter_list, list_len and later list operations"])

prop("C11", "Queues behave as double-ended queues",
 """For every sequence of queue operations (push/pop/peek at both ends, extend, removal by index, iteration both ways, length, range, discard) a queue answers exactly
 as a double-ended queue whose elements keep the index they were given; removing by index leaves the others in place. Distinct queues never affect one another.""",
 ["histories", "inputs"], "all sequences of queue operations within the bound, all values",
 "Tests run two fixed scripts.",
 ["src/queues.rs"], [("_push_to_queue, _pop_queue, remove_from_queue, extend_queue, discard_queue", "src/queues.rs")],
 [("Queue header", "head, tail and count", "src/queues.rs")], ["*queue* operations of CandyStore"])

prop("C12", "Big values round-trip",
 """A big value of any length, including empty and lengths around multiples of the value limit, is read back byte for byte until it is overwritten or removed;
 overwriting leaves no trace of the old value, removal leaves none at all, and both report whether a value existed.""",
 ["inputs", "histories"], "all lengths around chunk boundaries, all sequences of big-value operations within the bound",
 "One test stores two sizes.",
 ["src/store.rs", "src/queues.rs"], [("set_big/get_big/remove_big", "src/store.rs")], observe=["set_big, get_big, remove_big"])

prop("C13", "Concurrent point operations are linearizable",
 """When several threads use one store, every set, get, remove, replace and get_or_create takes effect atomically at one moment during the call: the results of all calls and the final content
 match some sequential order of them. This includes operations that trigger splits, and read-modify-write operations (replace with expected value, get_or_create) never both succeed on the same prior state.""",
 ["schedules", "inputs"], "all interleavings within the preemption bound of two threads with up to two operations each, all hash placements",
 "One test hammers a counter; schedules are left to chance.",
 ["src/shard.rs", "src/router.rs"], [("row locks, files lock, router node lock", "src/shard.rs, src/router.rs")], observe=["results of concurrent calls and final content"], hook=GEO)

prop("C14", "Concurrent list and queue operations are atomic",
 """When several threads operate on the same list or queue, every element pushed is popped or present exactly once, inserted items are all present in some order of the insertions, and lengths, indices and
 iteration of the final structure match some sequential order of the calls.""",
 ["schedules", "inputs"], "all interleavings within the preemption bound of two threads with up to two operations each",
 "One multithreading test with a single mix of operations; schedules are left to chance.",
 ["src/lists.rs", "src/queues.rs", "src/store.rs"], [("lock_list keyed locks", "src/lists.rs")], observe=["results of concurrent calls and the final list/queue"])

prop("C15", "Concurrent use never deadlocks or panics",
 """No combination of concurrent operations, including ones that trigger splits, compaction, merging, clearing, statistics or flushing, ever blocks all of its participants or panics;
 every call returns (successfully, as long as the disk works), and entries none of the calls touches are unaffected, except by clear.""",
 ["schedules", "configurations"], "all interleavings within the preemption bound of pairs of operations with background compaction",
 "A test that deadlocks only under one schedule passes almost always.",
 ["src/shard.rs", "src/router.rs", "src/store.rs"], [("lock order: node, compaction handle, files, row", "src/shard.rs, src/router.rs")], observe=["termination of every call"], hook=GEO)

prop("C16", "Typed collections encode keys and values faithfully",
 """For every key and value of the supported types, the typed store, list and deque return exactly the value stored under exactly that key and type; distinct keys and equal bytes under different key types never collide,
 and typed operations answer like the corresponding map, ordered dictionary and deque.""",
 ["inputs", "histories"], "all integer values and strings/byte vectors within bounds, sequences of typed operations within the bound",
 "Tests use a few constants.",
 ["src/typed.rs"], [("make_key, make_list_key, from_bytes", "src/typed.rs")], observe=["CandyTypedStore, CandyTypedList, CandyTypedDeque"])

prop("C17", "Statistics agree with the content",
 """At any quiescent moment the number of entries reported by the statistics equals the number of stored entries, the data bytes equal the total size of the stored keys and values,
 and the shard count equals the number of shards, after any sequence of operations, splits, compactions, merges and reopening.""",
 ["histories", "inputs"], "all operation sequences within the bound",
 "Tests compare a few counters after fixed scripts.",
 ["src/stats.rs", "src/shard.rs", "src/store.rs"], [("num_inserts, num_removals, wasted_bytes, write_offset", "src/shard.rs")], observe=["CandyStore::stats"], hook=GEO)

prop("C18", "One process at a time owns a store directory",
 """While a store is open, opening the same directory again fails with an error and disturbs nothing; once it is closed, or its process has died at any point, opening succeeds.""",
 ["crash_points", "histories"], "every order of open/close attempts within the bound, every crash point while opening",
 "Tests open twice in one order.",
 ["src/store.rs"], [("lock file", "src/store.rs")], observe=["CandyStore::open"])

prop("C19", "Files of an unknown format are refused, never misread",
 """Opening a directory whose shard file has a foreign magic, another version or is too short fails with an error and leaves the file unchanged; with clearing enabled it succeeds and the store starts empty in that range and works.
 A well-formed file is always accepted.""",
 ["inputs", "configurations"], "all 16 bytes of the format marker, all short lengths, both settings",
 "One test tries two corrupted markers.",
 ["src/shard.rs", "src/router.rs"], [("Shard::open", "src/shard.rs")], observe=["CandyStore::open"], hook=GEO)

prop("C20", "After flush, everything written earlier has been synced",
 """When flush returns successfully, everything written before the call has been synced to the device, and stays in synced files until it is overwritten or removed: if the power fails at any later moment and every write that was not synced is lost, the store opens and still has it, whatever splits, compactions and merges happened before, during or after the flush.""",
 ["histories", "schedules"], "all operation sequences within the bound, every point of a power failure after the flush, all interleavings of flush with a running compaction or split within the preemption bound",
 "Durability against power loss is not observable in a test without fault injection.",
 ["src/shard.rs", "src/store.rs"], [("Shard::flush, CandyStore::flush", "src/shard.rs, src/store.rs")], observe=["sync calls versus written files"], hook=GEO)

prop("C21", "A crash during a list or queue operation leaves a usable structure",
 """If the process dies at any point during an operation on a list, queue or big value (other than compact_list_if_needed, which is documented not to be crash safe), after reopening all elements not touched by that operation are present, in order and with their values, and the in-flight element is either as before or as after the operation
 (of extend_queue a prefix may be present, of a discard some elements may remain, the item of a set_in_list_promoting may be gone, and an interrupted set_big or remove_big may leave some of the old or of the new chunks; lengths are estimates then). Subsequent operations behave consistently: what lookups find, iteration also finds, in both directions, and an element can be set, removed or popped again.""",
 ["crash_points", "histories"], "every point between two persistent effects of each list/queue operation, histories within the bound",
 "Not tested at all beyond random kills of the crasher tool.",
 ["src/lists.rs", "src/queues.rs"], [("order of header, chain and item updates", "src/lists.rs"), ("order of header and item updates", "src/queues.rs")], observe=["list/queue operations after reopening"])

prop("C22", "A failing disk operation is reported and corrupts nothing",
 """If any single file operation fails (no space, I/O error) during an operation, including a split, compaction or merge, the failure surfaces as an error (or is harmless), no other entry is lost or altered,
 the entry in flight is in its old or new state, and the store continues to work, also after reopening.""",
 ["fault_sequences", "histories"], "every single failing file operation of each activity within the bound",
 "No test injects failures.",
 ["src/shard.rs", "src/router.rs"], [("error propagation in write_kv, split, do_compaction, merge", "src/shard.rs")], observe=["results of the failing and later operations"], hook=GEO)

prop("C23", "Clear empties the store and leaves it usable",
 """After clear returns, no entry of any kind is visible, immediately and after reopening, entries set afterwards behave normally, and no file of the former content remains, whatever splits, compactions or merges happened before.""",
 ["histories", "schedules"], "all histories within the bound before clear, with and without a compaction in progress",
 "One test clears one store.",
 ["src/router.rs", "src/store.rs"], [("ShardRouter::clear", "src/router.rs")], observe=["CandyStore::{clear,get,iter,set,open}"], hook=GEO)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
