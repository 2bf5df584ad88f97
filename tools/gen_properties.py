"""Writes properties.jsonl (kept in one readable place)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


prop("C01", "The queue is first-in first-out for every history within its capacity",
     "For every sequence of single and batched enqueues, dequeues, peeks, positional reads and clears that never stores more than the capacity and never removes more than is stored, the queue hands out exactly the enqueued values, whole and in order, reports as size the number of items stored, and room freed by dequeuing or clearing can always be used again. Peeking and positional reads (counted from the oldest item) change nothing, and an enqueue that does not fit never alters an item that is already stored.",
     ["histories"],
     "all operation sequences (any length) over single/batched operations of every size, for each capacity and value class in the bound",
     "tests run a handful of short histories on one capacity; circular reuse of storage, partial fills and clear/refill combinations only appear after particular sequences",
     ["xtructure/queue/queue.py"],
     [("circular slot computation", "queue.py:_storage_index"), ("enqueue/dequeue counters", "queue.py:_queue_enqueue_jit,_queue_dequeue_jit")],
     [("val_store", "item storage", "queue.py:Queue"), ("head/tail", "oldest item and next free position", "queue.py:Queue")],
     ["Queue.enqueue/dequeue/peek/clear/size/__getitem__"])

prop("C02", "The stack is last-in first-out for every history within its capacity",
     "For every sequence of single and batched pushes, pops, peeks and positional reads that never stores more than the capacity and never removes more than is stored, a pop returns exactly the most recently pushed values, whole (a batch in the order the items lie in the stack), and the size is the number of items stored. Peeking and positional reads (counted from the bottom) change nothing, and a push that does not fit never alters an item that is already stored.",
     ["histories"],
     "all operation sequences (any length) over single/batched operations of every size, for each capacity and value class in the bound",
     "tests run a few short histories on one capacity",
     ["xtructure/stack/stack.py"],
     [("push/pop index computation", "stack.py:_stack_push_jit,_stack_pop_jit,_stack_peek_jit")],
     [("val_store", "item storage", "stack.py:Stack"), ("size", "number of stored items", "stack.py:Stack")],
     ["Stack.push/pop/peek/size/__getitem__"])

prop("C03", "The priority queue returns every pair exactly once, smallest keys first",
     "For every history of batched insertions (any number of finite keys per batch, any order, ties included) and minimum extractions that stays within the capacity, each extraction returns exactly the smallest keys still stored, in ascending order and padded with infinite keys, each next to the value it was inserted with; no pair is lost, duplicated or invented, and the reported size is the number of pairs stored. Once insertions exceed the capacity the surplus is dropped, but the queue still never invents or duplicates a pair, never drops any of the smallest batch, and keeps at least its capacity of pairs and at most one partial batch more.",
     ["histories"],
     "all sequences of insertions (all key patterns over a small ordered domain with ties, all fill counts) and extractions up to the stated depth, for several branch/batch shapes",
     "tests insert random keys into one large heap and check sortedness; tie handling, partially filled last batches, heap shapes around level boundaries and overflow need specific histories",
     ["xtructure/bgpq/bgpq.py", "xtructure/bgpq/_insert.py", "xtructure/bgpq/_delete.py", "xtructure/bgpq/_merge.py", "xtructure/bgpq/_utils.py", "xtructure/bgpq/merge_split"],
     [("insert path heapify and buffer merge", "_insert.py"), ("root refill and sift down", "_delete.py"), ("merge and split of sorted batches", "_merge.py, merge_split/")],
     [("key_store/val_store", "heap of sorted batches", "bgpq.py:BGPQ"), ("key_buffer/val_buffer", "partial batch", "bgpq.py:BGPQ"), ("heap_size/buffer_size", "fill counters", "bgpq.py:BGPQ")],
     ["BGPQ.insert/delete_mins/size/make_batched/make_batched_like"])

prop("C04", "The hash table is an exact set with stable slots, whatever collides",
     "For every history of single and batched insertions and lookups, a lookup reports a key as present if and only if an earlier insertion reported storing it, and the position it returns holds exactly that key; the position of a stored key never changes, distinct keys never share one, and the size is the number of distinct keys stored. This holds for any hash collisions (equal buckets, equal fingerprints, equal full hashes), any bucket size, any fill level up to a completely full table and any probe limit, and an insertion is refused only when every slot the probe limit lets a lookup search is taken.",
     ["histories", "configurations"],
     "all insertion/lookup sequences over a small key alphabet containing forced collisions, for small tables of many shapes, from empty to completely full",
     "tests use random keys in roomy tables, where collisions of full hashes, full buckets along a whole probe path and exhausted probe limits practically never occur",
     ["xtructure/hashtable/table.py", "xtructure/hashtable/lookup.py", "xtructure/hashtable/insert.py", "xtructure/hashtable/hash_utils.py"],
     [("double hashing probe sequence", "hash_utils.py:get_new_idx_byterized, lookup.py"), ("fingerprint filter then full comparison", "lookup.py"), ("first free slot placement", "insert.py")],
     [("bucket_fill_levels/bucket_occupancy", "used slots per bucket", "table.py:HashTable"), ("fingerprints", "per-slot hash summary", "table.py:HashTable"), ("table", "stored keys", "table.py:HashTable")],
     ["HashTable.build/insert/lookup/lookup_parallel/parallel_insert/__getitem__/size"])

prop("C05", "Batch insertion reports exactly one representative per distinct key",
     "For every batch, validity mask and cost array, a batched insertion marks exactly one valid entry per distinct key as representative (the one with the lowest cost, the earliest among equal costs or when no costs are given), stores exactly the representatives whose key was not yet present, and never lets an invalid entry influence the table or the representatives. Every valid entry, duplicates included, is given the position at which its key is stored.",
     ["inputs", "histories"],
     "all batches up to the stated length over a small alphabet (with colliding keys), all validity masks, all cost patterns with ties, infinities and integer costs, on tables in every reachable fill state of the bound",
     "tests sample a few random batches with random masks; ties in cost combined with masks, duplicates, collisions and full buckets are never enumerated",
     ["xtructure/hashtable/insert.py", "xtructure/hashtable/hash_utils.py", "xtructure/hashtable/lookup.py"],
     [("in-batch deduplication", "hash_utils.py:_compute_unique_mask_from_hash_pairs"), ("slot conflict resolution between entries", "insert.py:_resolve_slot_conflicts,_hashtable_parallel_insert_internal")],
     None, ["HashTable.parallel_insert", "HashTable.lookup_parallel"])

prop("C06", "Concurrent slot reservation on accelerators is atomic under every schedule",
     "On the accelerator insertion paths, for every interleaving of the parallel insertion programs (and every processing order), each accepted entry receives a slot of its own that was free before, nothing is refused while a free slot remains within its reach, and the table's occupancy bookkeeping afterwards describes exactly the stored entries. Consequently every accepted key is found by later lookups, just as on the portable path.",
     ["schedules"],
     "all interleavings of the memory operations of 2-3 concurrent insertion programs that contend for the same buckets, from every initial occupancy of the bound",
     "tests have no accelerator: this code never runs in them, and a single run exercises one schedule only",
     ["xtructure/hashtable/insert_triton.py", "xtructure/hashtable/insert_pallas.py", "xtructure/hashtable/insert.py"],
     [("atomic bit claim per bucket", "insert_triton.py:_make_reserve_slots_kernel"), ("bucket-owner groups per round", "insert_pallas.py:_make_bucket_owner_kernel,_reserve_slots"), ("occupancy and fill write-back", "insert.py:_hashtable_parallel_insert_internal_triton/_pallas")],
     [("bucket_occupancy", "claimed slot bits per bucket", "table.py:HashTable")],
     ["HashTable.parallel_insert with the accelerator backend selected"])

prop("C07", "Performance settings never change results",
     "For every documented tuning setting (batch deduplication mode, sort algorithm, priority-queue merge algorithm, sort stability and value reordering, hash streaming and aggregation, packing algorithm and tile size), the same history of operations gives the same observable results as with the defaults. The only permitted differences are where settings document them: positions inside a hash table when the hash value itself changes, which of several equal-key pairs comes first, and missed collisions in the approximate deduplication modes.",
     ["configurations", "histories"],
     "all combinations of each setting's values with all histories of a bounded menu",
     "tests run with the default settings only",
     ["xtructure/hashtable/hash_utils.py", "xtructure/bgpq/_merge.py", "xtructure/bgpq/_constants.py", "xtructure/core/xtructure_decorators/hash.py", "xtructure/core/xtructure_decorators/aggregate_bitpack/kernels.py"],
     [("environment switches", "hash_utils.py, _constants.py, hash.py, kernels.py")],
     None, ["all container operations and hashing/packing under each setting"])

prop("C08", "Every merge algorithm merges sorted runs correctly",
     "For any two ascending key sequences (any lengths the algorithm accepts, ties and infinities included), every available merge algorithm returns the ascending merge of both together with an index order that says which input element each output came from, using every input element exactly once. Splitting a merge of two batches yields the smaller half first, with each value still attached to its key.",
     ["inputs"],
     "all pairs of ascending sequences over a small key domain (with ties and infinities) for every length pair in the bound, for every algorithm",
     "tests check a few random arrays, mostly without ties, and the block-parallel kernels only on one size",
     ["xtructure/bgpq/merge_split", "xtructure/bgpq/_merge.py"],
     [("merge path partitioning and kernels", "merge_split/"), ("merge_sort_split_idx", "_merge.py")],
     None, ["merge functions exported by the merge_split package"])

prop("C09", "Equal values hash equally and every bit of a value counts",
     "For every value, its hashes depend only on the seed and on the content of its fields: they are the same whether it is hashed alone, as an element of a batch, nested, under compilation, by the streaming or the materialised route, or after a save and load, and the hash pair and the byte encoding agree with the single hash. No field, element or bit is ignored: values that differ anywhere have different byte encodings, and the byte encoding of a batch element equals the encoding of that element alone.",
     ["inputs", "configurations"],
     "all single-bit changes of values of every class in the bound (all dtypes, odd byte lengths, nested, bit-packed), all seeds in the bound, every hashing route",
     "tests compare a few random values on one route",
     ["xtructure/core/xtructure_decorators/hash.py"],
     [("byte view and word padding", "hash.py"), ("word mixing and finalisation", "hash.py")],
     None, ["instance.hash(), hash_pair(), uint32ed, hash_with_uint32ed()"])

prop("C10", "Duplicate elimination keeps exactly the cheapest entry of every distinct value",
     "For every batch, the uniqueness mask selects exactly one entry for each distinct value: the first one, or with costs the one with the lowest cost (the earliest among equals), never an entry marked invalid or with infinite cost. Requested indices list exactly the selected entries, and the inverse mapping sends every valid entry to the selected entry of its own value; values that differ are never merged, whatever their hashes.",
     ["inputs"],
     "all batches up to the stated length over small value alphabets (incl. values with colliding signatures), all validity masks, all cost patterns with ties, infinities and integer costs, with and without compilation",
     "tests sample a few batches; ties, masks, collisions and infinities in combination are not enumerated",
     ["xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py"],
     [("signature sort and segment minimum", "optimized_unique_ops.py")],
     None, ["xnp.unique_mask"])

prop("C11", "Conditional updates apply exactly the first enabled write per position",
     "For every array or structured batch, a conditional update changes exactly the positions addressed by at least one enabled entry, to the value of the first enabled entry addressing it, and leaves everything else, bit for bit, as it was; conditional selection takes every element of every field from exactly the side its condition names. Both treat a structured element as a unit, whatever the shapes of its fields.",
     ["inputs"],
     "all index vectors (with duplicates and out-of-range entries), all condition vectors and all batch shapes up to the bound, for all field shapes, one- and multi-dimensional addressing, scalar and structured values",
     "tests use a few fixed index vectors; the large-array strategies and duplicate/disabled combinations are not covered",
     ["xtructure/core/xtructure_numpy/array_ops.py", "xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py", "xtructure/core/xtructure_decorators/indexing.py"],
     [("first-true-wins scatter", "array_ops.py:_update_array_on_condition"), ("where alignment", "dataclass_ops/batch_ops.py:where")],
     None, ["xnp.update_on_condition", "xnp.where", "xnp.where_no_broadcast", "instance.at[...].set_as_condition"])

prop("C12", "Structured array operations act on every field like on an array of records",
     "For every batch shape and class, each joining, reshaping, axis, selection, rearranging, broadcasting, padding, comparison and creation operation gives the result obtained by treating the batch as an array of whole records: every output record is bit for bit an input record (or the documented fill value), at the position the corresponding array operation would put it, with all fields and their own inner shapes kept together (operations documented as applied field by field, such as tile, or given negative or omitted axes, are covered for classes without inner shapes). Type, dtype and inner shape of every field are preserved unless the operation is meant to change them.",
     ["inputs"],
     "all operations with all axis/shape/repeat/index arguments over all batch shapes up to three dimensions of small extent, including extents that coincide with the inner shapes of fields, and non-negative batch axes",
     "tests check a few shapes per operation; ambiguities between batch and inner dimensions need particular coinciding extents",
     ["xtructure/core/xtructure_numpy/dataclass_ops", "xtructure/core/xtructure_decorators/ops.py", "xtructure/core/xtructure_decorators/shape.py"],
     [("field-wise application with batch-axis resolution", "dataclass_ops/*.py")],
     None, ["xtructure.numpy functions and the corresponding instance methods"])

prop("C13", "Bit packing is lossless for every width, shape and value",
     "For every bit width from 1 to 32, every element count and every content whose values fit the width, packing and unpacking returns the original values; this holds for plain byte streams, for fields stored packed and for whole records packed into one stream, including partial reads of single fields or elements. The packed size is the documented minimum and no value ever leaks into a neighbour.",
     ["inputs", "configurations"],
     "all bit widths x element counts x content patterns of the bound (all contents exhaustively for small totals; all single-element and boundary patterns otherwise), all batch shapes in the bound, every packing algorithm",
     "tests cover a few widths and one shape each; word-boundary straddling depends on width, offset and count together",
     ["xtructure/core/xtructure_decorators/aggregate_bitpack", "xtructure/core/xtructure_decorators/bitpack_accessors.py"],
     [("word contribution tables", "aggregate_bitpack/spec.py"), ("pack kernels", "aggregate_bitpack/kernels.py"), ("byte stream packing", "aggregate_bitpack/bitpack.py")],
     None, ["to_uint8/from_uint8", "field_unpacked/set_unpacked/from_unpacked", "packed/unpacked/as_original/unpack_field"])

prop("C14", "A saved instance loads back exactly, or loading fails",
     "For every instance (any class with values that fit their declared bit widths, any batch shape, packed or not), loading a completely saved file returns an instance of the same class whose fields are bit for bit equal, and loading it through a different class is refused. If the write is cut off or a stored byte is damaged at any point, loading either fails or still returns exactly the saved values, never something else.",
     ["inputs", "crash_points"],
     "all dtypes, nestings, batch shapes and packing choices of the bound; for the crash part every truncation length and every single-byte corruption of a saved file",
     "tests save and load a few instances; no test damages a file",
     ["xtructure/io/io.py", "xtructure/core/xtructure_decorators/io.py"],
     [("flattening with per-field keys and bit packing", "io.py:_flatten_instance_for_save"), ("class check and reconstruction", "io.py:load, xtructure_decorators/io.py")],
     None, ["instance.save", "Class.load"])

prop("C15", "Indexing and indexed assignment treat each record as a unit",
     "For every batch shape and every index (integers, slices, masks, integer arrays, tuples of these), indexing returns exactly the addressed records in all fields, and an indexed assignment replaces exactly the addressed records with the given ones (or fills every field with the given scalar), leaving all others and the original instance unchanged. Reported batch shape, length, number of dimensions and single/batched/unstructured classification always agree with the actual field shapes.",
     ["inputs"],
     "all index expressions of the grammar in the bound over all batch shapes of the bound, for classes whose inner shapes coincide with batch extents",
     "tests use a few indices on one batch shape",
     ["xtructure/core/xtructure_decorators/indexing.py", "xtructure/core/xtructure_decorators/shape.py", "xtructure/core/structuredtype.py"],
     [("field-wise indexing", "indexing.py"), ("batch shape inference", "shape.py")],
     None, ["instance[...]", "instance.at[...].set", "len/shape/batch/structured_type"])

prop("C16", "Updates never disturb earlier versions, and compilation never changes meaning",
     "For every history of operations on any container or structured instance, every earlier version stays usable and unchanged after later operations are applied to it or to its descendants. Running the same operations inside compiled, vectorised or looped code gives the same results as running them step by step, and every container survives being pickled, or flattened and rebuilt as a tree of arrays, with its static configuration intact.",
     ["histories", "programs"],
     "all operation sequences up to the stated depth for each container, with branching from every intermediate version, executed eagerly, under jit, vmap, scan and while loops",
     "tests run straight-line histories and never return to an earlier version or compare execution modes",
     ["xtructure/core/dataclass.py", "xtructure/queue/queue.py", "xtructure/stack/stack.py", "xtructure/bgpq/bgpq.py", "xtructure/hashtable/table.py"],
     [("frozen dataclass pytrees with static fields", "core/dataclass.py"), ("functional updates", "all containers")],
     None, ["container operations on retained versions; jax.jit/vmap/lax.scan/tree_util over containers"])

prop("C17", "Declared field contracts govern defaults, random instances and validation",
     "For every class definition, the generated default and random instances have exactly the declared dtype and inner shape for every field at every requested batch shape, with defaults equal to the declared (or documented dtype-dependent) fill values. A class that provides its own default keeps it. A class defined with validation accepts an instance exactly when every field has the declared dtype (or nested class) and inner shape and every custom validator accepts it, and rejects it with an error otherwise.",
     ["inputs", "programs"],
     "all field declarations over the dtype/shape/fill/nesting grammar of the bound, all batch shapes of the bound, all single- and two-field deviations of dtype and inner shape",
     "tests check a few hand-written classes",
     ["xtructure/core/field_descriptors.py", "xtructure/core/xtructure_decorators/default.py", "xtructure/core/xtructure_decorators/structure_util.py", "xtructure/core/xtructure_decorators/validation.py"],
     [("descriptor defaults", "field_descriptors.py"), ("default/random construction", "default.py, structure_util.py"), ("invariant checking", "validation.py")],
     None, ["Class.default/random", "construction with validate=True", "check_invariants"])

prop("C18", "A printed instance shows exactly its own records",
     "For every class and batch shape, printing an instance succeeds and changes nothing. A single record shows every field with its value, or the text the class itself provides. A batch shows its own records, whole and in order: all of them when it is small (up to four, or up to four rows and columns when the batch has two dimensions), otherwise the first two and last two (rows and columns) with an ellipsis between, and always states its full batch shape; an instance whose fields share no batch shape is reported as unstructured.",
     ["inputs"],
     "all batch shapes of up to five axes within the bound, every class of a zoo of field types and nestings, own and built-in record texts",
     "tests only check that printing returns a non-empty string containing a digit of the shape",
     ["xtructure/core/xtructure_decorators/string_format.py", "xtructure/core/xtructure_decorators/annotate.py"],
     [("selection of shown records and layout", "string_format.py:get_str"), ("built-in record text", "string_format.py:_custom_pretty_formatter")],
     None, ["str(instance)", "instance.str(**kwargs)"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
