"""Which harnesses decide which property, with their bounds (quick and thorough)."""

# entry: harness function; variant: IR build; params: bounds passed to the harness;
# covers: witnesses that must be reached (a run that misses one proves nothing and is an error)
SMALL = "2 rows of 4 entries per shard"
REAL = "the real geometry (64 rows of 512)"

SPECS = {
    "C01": dict(
        runs=[
            dict(entry="h_c01_seq", variant="small", quick=dict(ops=2), thorough=dict(ops=3),
                 covers=range(14),
                 bounds="2 arbitrary one-byte keys and the empty key, any subset of the first two present with arbitrary one-byte values, "
                        "then {ops} operations, each any of 7 kinds on any key with arbitrary value and expected value; "
                        "hash of every key arbitrary in shard half, row and 2 signature bits; then reopen; " + SMALL),
            dict(entry="h_c01_lens", variant="real", quick=dict(ops=1), thorough=dict(ops=2), covers=range(14),
                 bounds="two keys of 1 and 2 arbitrary bytes with equal hashes, each present or not, then {ops} operation(s) of 7 kinds; values of 0 to 2 and expected values of 0 to 3 arbitrary bytes; reopen; " + REAL),
            dict(entry="h_c01_row", variant="real", inst=200000000, quick=dict(ops=1), thorough=dict(ops=2), covers=list(range(14)) + [20],
                 bounds="a row that holds 1 to 512 entries (9 fill levels; up to 64 with equal signatures), {ops} operation(s) of 7 kinds on a new key or the first, middle or last entry, arbitrary values; reopen; " + REAL),
        ],
    ),
    "C02": dict(
        runs=[
            dict(entry="h_c02_pair", variant="real", quick=dict(lens=8), thorough=dict(lens=8), covers=range(3),
                 bounds="every pair of 6 kinds of collection (plain, typed u16, typed i16, list, queue, big value), names of each of {lens} lengths "
                        "0..17 with all bytes arbitrary, one-byte list items and values arbitrary, all hashes equal; put into one, then put/get/remove in the other, any of them; " + REAL),
        ],
    ),
    "C03": dict(
        runs=[
            dict(entry="h_c03_plain", variant="real", covers=range(4),
                 bounds="plain keys of 11 lengths and values of 8 lengths around every limit, first and last byte arbitrary, key present or not, set/replace/get_or_create; reopen; " + REAL),
            dict(entry="h_c03_coll", variant="real", covers=range(6),
                 bounds="lists, queues and big values: names of 4 lengths, item keys of 5, values of 5 lengths around every limit and two around a small shard size; "
                        "collection existing or not; every inserting operation; " + REAL),
            dict(entry="h_c03_shard", variant="small", quick=dict(same=1, n=3), thorough=dict(same=1, n=4), covers=range(2),
                 bounds="{n} entries of 5 sizes up to just above the shard size (40 bytes), hash arbitrary in the first shard bit, equal elsewhere (unsplittable); " + SMALL),
            dict(entry="h_c03_shard", variant="small", quick=dict(same=0, n=3), thorough=dict(same=0, n=4), covers=range(2),
                 bounds="the same with two arbitrary shard bits, {n} entries"),
        ],
    ),
    "C04": dict(
        runs=[
            dict(entry="h_c04_split", variant="small", quick=dict(keys=6, shardbits=1), thorough=dict(keys=7, shardbits=2), covers=[0],
                 bounds="{keys} keys, hash arbitrary in {shardbits} shard bits and the row, the rest of a fixed injective hash; one arbitrary key removed or updated on the way; arbitrary values; reopen; " + SMALL),
            dict(entry="h_c04_split", variant="small", quick=dict(keys=6, shardbits=1, separable=0), thorough=dict(keys=7, shardbits=2, separable=0), covers=[0, 9],
                 bounds="the same with keys that no split can separate"),
            dict(entry="h_c04_size", variant="small", quick=dict(keys=4, more=1), thorough=dict(keys=5, more=2), covers=[0],
                 bounds="{keys} keys of 3 value lengths and {more} updates in shards of 64 bytes, hash arbitrary in 2 shard bits; reopen; " + SMALL),
            dict(entry="h_c04_merge", variant="small", quick=dict(keys=5, shardbits=1, rowbit=0, fixed=1), thorough=dict(keys=6, shardbits=1, rowbit=1, fixed=1), covers=[0, 1, 2, 9],
                 bounds="two initial shards, {keys} keys, hash arbitrary in {shardbits} shard bit(s) (and the row: {rowbit}), one removed or none, then merge at fill level 0.49, including merges that do not fit; set; reopen; " + SMALL),
            dict(entry="h_c04_merge", variant="small", quick=dict(keys=4, shardbits=2, rowbit=0), thorough=dict(keys=5, shardbits=2, rowbit=0), covers=range(3),
                 bounds="1, 2 or 4 initial shards, {keys} keys, hash arbitrary in {shardbits} shard bit(s) (and the row: {rowbit}), split by size or not, one removed or none, merge at 3 fill levels; set; reopen; " + SMALL),
        ],
    ),
    "C05": dict(
        runs=[
            dict(entry="h_c05_seq", variant="small", quick=dict(keys=3, ops=2), thorough=dict(keys=3, ops=3), covers=list(range(13)) + [20, 21],
                 bounds="{keys} keys, hash arbitrary in shard half and row; {ops} point operations of any kind with arbitrary values, each possibly starting a compaction (threshold 3 bytes), which runs after any of them; reopen; " + SMALL),
            dict(entry="h_c05_live", variant="small", quick=dict(keys=2, preempt=2, ops=1), thorough=dict(keys=2, preempt=2, ops=2), covers=[0],
                 bounds="{keys} keys, arbitrary rows; a compaction is started, then {ops} operation(s) (set/remove/get/iterate) with at most {preempt} preemptions between the two threads at any synchronization, file or mapped-page access; reopen; " + SMALL),
            dict(entry="h_c05_live", variant="small", quick=dict(keys=2, preempt=1, ops=1, begin=1), thorough=dict(keys=2, preempt=2, ops=1, begin=1), covers=[0],
                 bounds="the same with at most {preempt} preemption(s) from before the start of the compaction on"),
            dict(entry="h_c05_live", variant="small", quick=None, thorough=dict(keys=3, preempt=2, ops=1, mmap=1), covers=[0],
                 bounds="{keys} keys, at most {preempt} preemptions, also before every load from a mapped page"),
            dict(entry="h_c05_split", variant="small", covers=[0, 1, 4, 5, 30, 32, 33],
                 bounds="4 keys in a full row, or 2 in a shard that is too large (arbitrary shard half), up to 2 of them updated or removed, which starts a compaction that has run or not, 2 more keys that split the shard, 2 more updates, the compaction runs or not; reopen; " + SMALL),
        ],
    ),
    "C06": dict(
        runs=[
            dict(entry="h_c06_point", variant="small", quick=dict(target=3), thorough=dict(target=3, after=3), covers=[40, 41],
                 bounds="any subset of 3 keys present with arbitrary values, hash arbitrary in row and a signature bit; set/replace/get_or_create/remove of any of them; a crash before any persistent effect (every write, every store to a mapped page) or after completion; "
                        "reopen, compare everything, one more operation, reopen; " + SMALL),
        ],
    ),
    "C07": dict(
        runs=[
            dict(entry="h_c07_create", variant="small", quick=dict(crashes=2), thorough=dict(crashes=3), covers=[40, 41, 42],
                 bounds="creation of a store of 1, 2 or 4 shards, up to {crashes} crashes, each before any persistent effect of creation or recovery; " + SMALL),
            dict(entry="h_c07_clear", variant="small", quick=dict(crashes=2, keys=1), thorough=dict(crashes=2, keys=3), covers=[40, 41, 42],
                 bounds="clearing a store of 1, 2, 4 or more shards with {keys} keys, arbitrary 2 shard bits, up to {crashes} crashes; " + SMALL),
            dict(entry="h_c07_split", variant="small", quick=dict(crashes=2), thorough=dict(crashes=3), covers=[1, 40, 41, 42],
                 bounds="an insert that splits a shard of 4 entries (row full) or of 3 (by size), arbitrary shard bit, up to {crashes} crashes; " + SMALL),
            dict(entry="h_c07_compact", variant="small", quick=dict(crashes=2, keys=2), thorough=dict(crashes=2, keys=3), covers=[40, 41, 42],
                 bounds="{keys} keys in arbitrary rows, one removed or updated, compaction, up to {crashes} crashes; " + SMALL),
            dict(entry="h_c07_compact", variant="small", quick=dict(crashes=1, keys=2, preempt=1), thorough=dict(crashes=1, keys=2, preempt=2), covers=[40, 41],
                 bounds="the same with a second operation interleaved with the compaction ({preempt} preemption(s)) and {crashes} crash"),
            dict(entry="h_c07_merge", variant="small", quick=dict(crashes=2, keys=2), thorough=dict(crashes=2, keys=3), covers=[1, 40, 41, 42],
                 bounds="merging a store of 2 or 4 shards with {keys} keys, arbitrary 2 shard bits, up to {crashes} crashes; " + SMALL),
        ],
    ),
    "C08": dict(
        runs=[
            dict(entry="h_c08_cookie", variant="small", quick=dict(keys=4), thorough=dict(keys=5), covers=range(4),
                 bounds="any subset of {keys} keys with arbitrary values, hash arbitrary in shard half, row and a signature bit, 1 or 2 initial shards, other collections present or not; "
                        "cookie after every prefix (also past the end); " + SMALL),
            dict(entry="h_c08_modify", variant="small", quick=dict(keys=3), thorough=dict(keys=3), covers=[0],
                 bounds="{keys} keys, hash arbitrary in shard half and row, 1 or 2 initial shards; after any prefix any entry removed, updated or replaced, or a new one added (no split); " + SMALL),
            dict(entry="h_c08_full_row", variant="real", quick=dict(keys=512), thorough=dict(keys=512), covers=range(2),
                 bounds="a row (4 of them) filled with {keys} entries, some values arbitrary: at every position a second iteration resumed from the cookie continues like the first; " + REAL),
        ],
    ),
    "C09": dict(
        runs=[
            dict(entry="h_c09_seq", variant="real", quick=dict(ops=2, items=3), thorough=dict(ops=3, items=3), covers=range(13),
                 bounds="any list of up to {items} items built by insertion and removal, then {ops} operations of 12 kinds with arbitrary items, values and expected values; all hashes equal; a second list; " + REAL),
        ],
    ),
    "C10": dict(
        runs=[
            dict(entry="h_c10_compact", variant="real", quick=dict(before=2, after=1), thorough=dict(before=3, after=1), covers=list(range(12)) + [20, 21],
                 bounds="{before} list operations of any kind, compaction with any of several parameters, {after} operation(s), against the insertion-ordered dictionary; all hashes equal; " + REAL),
            dict(entry="h_c14_list", variant="wide", quick=dict(a0=7, preempt=1, holes=1, reopen=0), thorough=dict(a0=7, preempt=2, holes=1), covers=[0],
                 bounds="compaction of a list of up to 2 items with a hole, against one operation of 9 kinds of a second thread, at most {preempt} preemption(s); all hashes equal; 2 rows of 16 entries per shard"),
        ],
    ),
    "C11": dict(
        runs=[
            dict(entry="h_c11_seq", variant="real", quick=dict(ops=3, initial=3), thorough=dict(ops=4, initial=3), covers=range(9),
                 bounds="a queue of up to {initial} elements, then {ops} operations of any kind with arbitrary values and indices, against a double-ended queue with indices; a second queue; all hashes equal; " + REAL),
        ],
    ),
    "C12": dict(
        runs=[
            dict(entry="h_c12_seq", variant="real", quick=dict(ops=3, lens=6), thorough=dict(ops=4, lens=6), covers=range(4),
                 bounds="{ops} set/get/remove of big values of {lens} lengths (0, 1, around 1 and 2 times the value limit), first and last byte arbitrary; all hashes equal; " + REAL),
        ],
    ),
    "C13": dict(
        runs=[
            dict(entry="h_c13_lin", variant="small", quick=dict(mode=0, preempt=1), thorough=dict(mode=0, preempt=2), covers=[0],
                 bounds="two threads, one operation each of 6 kinds on the same or another key (arbitrary row and signature bit, so possibly colliding), at most {preempt} preemption(s) at any synchronization, file or mapped-page access; reopen; " + SMALL),
            dict(entry="h_c13_lin", variant="small", quick=dict(mode=1, preempt=1, flags=2, reopen=0), thorough=dict(mode=1, preempt=2, flags=2, reopen=0), covers=[0, 1],
                 bounds="the same in a shard with 3 or 4 more entries, so that operations split it, at most {preempt} preemption(s)"),
            dict(entry="h_c13_lin", variant="small", quick=dict(mode=2, preempt=1, flags=2, reopen=0, keys=1), thorough=dict(mode=2, preempt=2, flags=2, reopen=0, keys=1), covers=[0, 2],
                 bounds="the same on one key with a compaction due, which the operations start, at most {preempt} preemption(s) (three threads)"),
            dict(entry="h_c13_lin", variant="small", quick=None, thorough=dict(mode=0, preempt=1, ops=2, reopen=0), covers=[0],
                 bounds="one operation against {ops}, at most {preempt} preemption(s)"),
        ],
    ),
    "C14": dict(
        runs=[
            dict(entry="h_c14_list", variant="wide", quick=dict(preempt=1, reopen=0), thorough=dict(preempt=2), covers=[0],
                 bounds="a list of up to 2 items with an arbitrary value, two threads, one operation each of 9 kinds, at most {preempt} preemption(s); all hashes equal; 2 rows of 16 entries per shard"),
            dict(entry="h_c14_queue", variant="wide", quick=dict(preempt=1), thorough=dict(preempt=2), covers=[0],
                 bounds="a queue of up to 2 elements with arbitrary values, two threads, one operation each of 7 kinds, at most {preempt} preemption(s); reopen; all hashes equal; 2 rows of 16 entries per shard"),
        ],
    ),
    "C15": dict(
        runs=[
            dict(entry="h_c15_pairs", variant="small", quick=dict(preempt=1, flags=2), thorough=dict(preempt=1), covers=[0, 1, 2, 10, 11, 12, 13],
                 bounds="any two of 11 activities (set that splits, set, get, remove, iterate, statistics, flush, merge, clear, list and queue operations) with no compaction, one that becomes due or one already started (this only with list and queue operations); "
                        "at most {preempt} preemption(s); one compaction thread; reopen; " + SMALL),
            dict(entry="h_c15_pairs", variant="small", quick=dict(preempt=1, flags=3, waste=0, a0=5, a1=6), thorough=dict(preempt=2, flags=3, waste=0, a0=5, a1=6), covers=[0],
                 bounds="statistics against any activity, also preempted before loads from mapped pages"),
            dict(entry="h_c15_pairs", variant="smallagg", quick=dict(preempt=1, flags=2, a1=2, b1=4), thorough=dict(preempt=1, flags=0), covers=[0],
                 bounds="the same with flush aggregation (feature flush_aggregation), first activity a set, second a set, get or remove in the quick tier"),
            dict(entry="h_c15_pairs", variant="small", quick=dict(preempt=1, flags=2, waste=1, a1=2, b1=2, c1=11), thorough=dict(preempt=1, flags=0, a1=2, b1=4, c1=11), covers=range(2),
                 bounds="a set against a set followed by any other activity, with a compaction becoming due, at most {preempt} preemption(s); " + SMALL),
        ],
    ),
    "C16": dict(
        runs=[
            dict(entry="h_c16_types", variant="wide", covers=[0],
                 bounds="typed stores of every pair of different key types out of 17 (integers, bool, char, strings, byte arrays of up to 3 bytes), arbitrary keys; all hashes equal"),
            dict(entry="h_c16_same", variant="wide", covers=[0, 1] + list(range(10, 27)),
                 bounds="two arbitrary keys of the same type, any of 17 types, in a typed store, list and deque; all hashes equal"),
            dict(entry="h_c16_map", variant="wide", quick=dict(ops=3), thorough=dict(ops=4), covers=range(10),
                 bounds="{ops} operations of 10 kinds of a typed store (i16 to (u16, String)), arbitrary keys and values; reopen; all hashes equal"),
            dict(entry="h_c16_list", variant="wide", quick=dict(ops=3), thorough=dict(ops=4), covers=range(14),
                 bounds="{ops} operations of 14 kinds of a typed list (String, u16 to (u16, String)), arbitrary keys and values; a second list; all other hashes equal"),
            dict(entry="h_c16_deque", variant="wide", quick=dict(ops=4), thorough=dict(ops=5), covers=range(6),
                 bounds="{ops} operations of 6 kinds of a typed deque, arbitrary values; all hashes equal"),
        ],
    ),
    "C17": dict(
        runs=[
            dict(entry="h_c17_plain", variant="small", quick=dict(ops=2, keys=2), thorough=dict(ops=3, keys=2), covers=list(range(7)) + [10, 11, 12, 13],
                 bounds="{keys} keys, hash arbitrary in shard half and row, then {ops} operations of 7 kinds (set, remove, get_or_create, replace, merge, let a compaction run, reopen); compaction threshold 3 or large, shard size 12 or large, 1 or 2 initial shards; "
                        "compared with raw iteration, the reference map and the files; reopen; " + SMALL),
            dict(entry="h_c17_coll", variant="wide", quick=dict(ops=3), thorough=dict(ops=4), covers=range(12),
                 bounds="{ops} operations of 12 kinds on a list, a queue, a big value and a plain key, arbitrary item, compaction threshold 60 or large; compared with raw iteration and the files; reopen; 2 rows of 16 entries per shard"),
        ],
    ),
    "C18": dict(
        runs=[
            dict(entry="h_c18_order", variant="small", quick=dict(ops=4), thorough=dict(ops=5), covers=[0, 1],
                 bounds="{ops} steps, each an attempt to open (two configurations), a close or a set; every other open attempt is by another handle, as by another process"),
            dict(entry="h_c18_race", variant="small", quick=dict(preempt=2, flags=2), thorough=dict(preempt=3, flags=2), covers=range(3),
                 bounds="two threads that open at the same time, or one that opens while the other closes with a compaction running, at most {preempt} preemptions"),
            dict(entry="h_c18_crash", variant="small", quick=dict(crashes=2), thorough=dict(crashes=3), covers=[11, 12],
                 bounds="new or existing store; a crash before any persistent effect of opening, while open or after closing; {crashes} crashes"),
        ],
    ),
    "C19": dict(
        runs=[
            dict(entry="h_c19_format", variant="small", covers=range(3),
                 bounds="all 16 bytes of the format marker arbitrary, or one of 7 short lengths, or both, in any of 1 or 2 shards; clear_on_unsupported_version and truncate_up on or off; then use and reopen; " + SMALL),
            dict(entry="h_c19_compact", variant="small", covers=range(3),
                 bounds="any other 16 bytes as format marker after a crash before any persistent effect of a compaction; " + SMALL),
        ],
    ),
    "C20": dict(
        runs=[
            dict(entry="h_c20_power", variant="small", quick=dict(before=1, after=1), thorough=dict(before=2, after=2), covers=range(20, 24),
                 bounds="2 keys, arbitrary shard half and row, {before} of 4 kinds of activity, flush, {after} of 4 kinds of activity (compaction, merge, updates, splits), with compaction thresholds and shard sizes small or large, 1 or 2 shards; "
                        "power failure before any persistent effect after the flush; " + SMALL),
            dict(entry="h_c20_live", variant="small", quick=dict(preempt=1), thorough=dict(preempt=2), covers=[0, 1, 20, 21],
                 bounds="flush (after an optional set) while a compaction runs or another thread splits the shard, at most {preempt} preemption(s); power failure right after it or when all have finished; " + SMALL),
        ],
        assumptions=["a power failure loses everything not synced in each file; directory operations (create, rename, unlink) are durable at once and in order"],
    ),
    "C21": dict(
        runs=[
            dict(entry="h_c21_list", variant="wide", covers=list(range(8)) + [40, 41],
                 bounds="a list of up to 3 items (optionally one removed from the middle), one of 8 kinds of operation on an existing or new item, arbitrary one-byte values, crash before any persistent effect, one further operation of any kind, reopen; "
                        "a second list, queue and plain key untouched; all hashes equal"),
            dict(entry="h_c21_queue", variant="wide", covers=list(range(7)) + [40, 41],
                 bounds="a queue of up to 3 elements (optionally with a hole), one of 7 kinds of operation, crash before any persistent effect, two further operations, reopen; all hashes equal"),
            dict(entry="h_c21_big", variant="wide", covers=[40, 41],
                 bounds="a big value of 0 to 3 chunks replaced or removed, crash before any persistent effect, set or removed again; all hashes equal"),
            dict(entry="h_c21_queue", variant="wide", quick=None, thorough=dict(items=1, crashes=2), covers=list(range(7)) + [40, 41, 42],
                 bounds="up to 1 element, two crashes in successive operations"),
            dict(entry="h_c21_list", variant="wide", quick=None, thorough=dict(items=1, crashes=2), covers=list(range(8)) + [40, 41, 42],
                 bounds="up to 1 item, two crashes in successive operations"),
        ],
    ),
    "C22": dict(
        runs=[
            dict(entry="h_c22_fault", variant="small", quick=dict(ops=2), thorough=dict(ops=3), covers=list(range(7)) + [20, 21, 22],
                 bounds="2 keys in one of 6 configurations (compaction threshold 3 or large, shard size 12 or large, 1 or 4 shards), then {ops} of 9 kinds of activity (sets that compact or split, remove, get, iterate, merge, flush, statistics, background work), "
                        "arbitrary values; any one file operation of these fails; then everything compared, five keys set, background work, reopened (at once or in the end); " + SMALL),
            dict(entry="h_c22_fault", variant="small", quick=dict(ops=1, symbolic=1, keys=2, more=3), thorough=dict(ops=1, symbolic=1), covers=[0, 1, 2, 3, 4, 5, 6, 20, 21, 22],
                 bounds="the same with {ops} activity and arbitrary rows"),
            dict(entry="h_c22_open", variant="small", quick=dict(keys=2), thorough=dict(keys=3), covers=[10, 11, 12],
                 bounds="{keys} keys, the same configurations, a crash before any persistent effect of a set, remove, compaction, split or merge (or after it), then any one file operation fails while the store is opened; opened again, compared, used, reopened; " + SMALL),
            dict(entry="h_c22_clear", variant="small", covers=[1, 2, 3],
                 bounds="3 keys, the same configurations, clear with any one file operation failing; what is left is unaltered, the store usable, clear possible; reopened; " + SMALL),
            dict(entry="h_c22_list", variant="wide", quick=dict(items=3, after=5), thorough=dict(items=3, after=9), covers=list(range(9)) + [40, 41],
                 bounds="a list of up to {items} items, one of 9 kinds of operation with any one file operation failing, compaction due or not; one further operation, reopen; a second list, queue and plain key untouched; all hashes equal"),
            dict(entry="h_c22_queue", variant="wide", quick=dict(items=2), thorough=dict(items=3), covers=list(range(8)) + [41],
                 bounds="a queue of up to {items} elements, one of 8 kinds of operation with any one file operation failing; two further operations, reopen; all hashes equal"),
            dict(entry="h_c22_big", variant="wide", covers=[40, 41],
                 bounds="a big value of 0 to 3 chunks replaced, removed or read with any one file operation failing; set or removed again, reopen; all hashes equal"),
        ],
        assumptions=["running out of space is reported by the call that fails; a failing store to a mapped page (SIGBUS) is not modelled", "one failure; writes fail without effect"],
    ),
    "C23": dict(
        runs=[
            dict(entry="h_c23_clear", variant="small", quick=dict(ops=1, keys=2), thorough=dict(ops=2, keys=2), covers=[0, 2, 3],
                 bounds="{keys} keys, arbitrary shard half and row, {ops} of 8 kinds of activity with compaction thresholds and shard sizes small or large and 1, 2 or 4 initial shards, clear with or without a compaction waiting or running; then use and reopen; " + SMALL),
            dict(entry="h_c23_clear", variant="small", quick=dict(ops=1, keys=2, crash=1), thorough=dict(ops=2, keys=2, crash=1, between=1), covers=[1, 2, 3],
                 bounds="the same with a crash before any persistent effect of the activity, and the clear after reopening"),
            dict(entry="h_c15_pairs", variant="small", quick=dict(preempt=1, flags=2, a0=8, a1=9), thorough=dict(preempt=2, flags=2, a0=8, a1=9), covers=[0],
                 bounds="clear against any other activity of a second thread, at most {preempt} preemption(s)"),
        ],
    ),
}

NOT_APPLICABLE = {}
