From c5914793c4922bf7a5fccf6dbf01a518a8d11a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 01/29] fix: mask parallel_insert occupancy bits with where
 instead of mismatched lax.select

---
 xtructure/hashtable/insert.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index f342f60..5708c84 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -241,14 +241,9 @@ def _hashtable_parallel_insert_internal(
     if table.bucket_size <= 32:
         bucket_i32 = jnp.asarray(index.index, dtype=jnp.int32)
         slot_u32 = jnp.asarray(index.slot_index, dtype=jnp.uint32)
-        safe_slot_u32 = jnp.asarray(
-            jax.lax.select(successful, slot_u32, jnp.uint32(0)),
-            dtype=jnp.uint32,
-        )
+        safe_slot_u32 = jnp.where(successful, slot_u32, jnp.uint32(0))
         bit = jnp.left_shift(jnp.uint32(1), safe_slot_u32)
-        bit = jnp.asarray(
-            jax.lax.select(successful, bit, jnp.uint32(0)), dtype=jnp.uint32
-        )
+        bit = jnp.where(successful, bit, jnp.uint32(0))
         table = table.replace(
             bucket_occupancy=table.bucket_occupancy.at[bucket_i32].add(bit)
         )
-- 
2.43.0


From 7cdcedbbd369d77073f61099dd95becf316261ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 02/29] fix: reuse queue storage freed by dequeue so capacity
 is not lost

---
 xtructure/queue/queue.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/xtructure/queue/queue.py b/xtructure/queue/queue.py
index d7c2112..c83ba4d 100644
--- a/xtructure/queue/queue.py
+++ b/xtructure/queue/queue.py
@@ -8,6 +8,11 @@ from ..core import Xtructurable, base_dataclass
 SIZE_DTYPE = jnp.uint32
 
 
+def _storage_index(queue, indices):
+    # Storage is circular, so slots freed by dequeue are reused by later enqueues.
+    return indices % queue.max_size
+
+
 @partial(jax.jit, static_argnums=(0, 1))
 def _queue_build_jit(max_size: int, value_class: Xtructurable):
     val_store = value_class.default((max_size,))
@@ -26,7 +31,13 @@ def _queue_enqueue_jit(queue, items: Xtructurable):
         assert len(batch_size) == 1, "Batch size must be 1"
         num_to_enqueue = batch_size[0]
         indices = queue.tail + jnp.arange(num_to_enqueue)
-    val_store = queue.val_store.at[indices].set(items)
+    # Writes beyond the capacity are dropped instead of overwriting live items.
+    slots = jnp.where(
+        indices - queue.head < queue.max_size,
+        _storage_index(queue, indices),
+        queue.max_size,
+    )
+    val_store = queue.val_store.at[slots].set(items)
     new_tail = queue.tail + num_to_enqueue
     return queue.replace(val_store=val_store, tail=new_tail)
 
@@ -38,9 +49,11 @@ def _queue_dequeue_jit(queue, num_items: int = 1):
     else:
         indices = queue.head + jnp.arange(num_items)
 
-    dequeued_items = queue.val_store[indices]
+    dequeued_items = queue.val_store[_storage_index(queue, indices)]
     new_head = queue.head + num_items
-    return queue.replace(head=new_head), dequeued_items
+    # Keep the counters bounded: shift both by one lap once the head completes it.
+    lap = jnp.where(new_head >= queue.max_size, queue.max_size, 0).astype(SIZE_DTYPE)
+    return queue.replace(head=new_head - lap, tail=queue.tail - lap), dequeued_items
 
 
 @partial(jax.jit, static_argnums=(1,))
@@ -49,7 +62,7 @@ def _queue_peek_jit(queue, num_items: int = 1):
         indices = queue.head
     else:
         indices = queue.head + jnp.arange(num_items)
-    peeked_items = queue.val_store[indices]
+    peeked_items = queue.val_store[_storage_index(queue, indices)]
     return peeked_items
 
 
@@ -60,7 +73,7 @@ def _queue_clear_jit(queue):
 
 @jax.jit
 def _queue_getitem_jit(queue, idx: SIZE_DTYPE) -> Xtructurable:
-    storage_idx = queue.head + idx
+    storage_idx = _storage_index(queue, queue.head + idx)
     return queue.val_store[storage_idx]
 
 
-- 
2.43.0


From acff263c4a0d353510cca70e5dc0db85990bc92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 03/29] fix: never place hash table entries past the probe
 budget lookups search

---
 xtructure/hashtable/insert.py | 43 ++++++++++++++++++++++++++---------
 xtructure/hashtable/lookup.py | 16 +++++++++----
 2 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index 5708c84..62a1829 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -112,7 +112,10 @@ def _hashtable_insert_jit(
 
     idx, found, fingerprint = _hashtable_lookup_bucket_jit(table, input)
 
-    is_empty = idx.slot_index >= table.bucket_fill_levels[idx.index]
+    is_empty = jnp.logical_and(
+        idx.slot_index >= table.bucket_fill_levels[idx.index],
+        idx.slot_index < table.bucket_size,
+    )
     can_insert = jnp.logical_and(jnp.logical_not(found), is_empty)
 
     def _no_insert():
@@ -138,9 +141,15 @@ def _hashtable_parallel_insert_internal(
     index: Any,
     updatable: chex.Array,
     fingerprints: chex.Array,
+    probed: chex.Array,
 ) -> tuple[Any, Any, chex.Array]:
     capacity = jnp.asarray(table._capacity, dtype=SIZE_DTYPE)
     probe_steps = jnp.asarray(probe_steps, dtype=SIZE_DTYPE)
+    bucket_size_u32 = SIZE_DTYPE(table.bucket_size)
+    # Slots a lookup would examine: entries must not be placed past this budget.
+    probe_limit = SIZE_DTYPE(
+        min(int(table.max_probes), int(table._capacity) * int(table.bucket_size))
+    )
 
     def _advance(idx: Any, step: chex.Array) -> Any:
         next_bucket = idx.slot_index >= (table.bucket_size - 1)
@@ -184,14 +193,23 @@ def _hashtable_parallel_insert_internal(
         jnp.logical_and(updatable, jnp.logical_not(valid_initial)),
     )
 
-    def _cond(val: tuple[Any, chex.Array, chex.Array]) -> chex.Array:
-        _, pending, probes = val
-        return jnp.logical_and(jnp.any(pending), probes < table.max_probes)
+    def _cond(val: tuple[Any, chex.Array, chex.Array, chex.Array]) -> chex.Array:
+        _, _, pending, _ = val
+        return jnp.any(pending)
 
     def _body(
-        val: tuple[Any, chex.Array, chex.Array],
-    ) -> tuple[Any, chex.Array, chex.Array]:
-        idxs, pending, probes = val
+        val: tuple[Any, chex.Array, chex.Array, chex.Array],
+    ) -> tuple[Any, chex.Array, chex.Array, chex.Array]:
+        idxs, updatable, pending, probed = val
+
+        leaving = jnp.logical_and(pending, idxs.slot_index >= (table.bucket_size - 1))
+        exhausted = jnp.logical_and(leaving, probed >= probe_limit)
+        updatable = jnp.logical_and(updatable, jnp.logical_not(exhausted))
+        pending = jnp.logical_and(pending, jnp.logical_not(exhausted))
+        probed = probed + jnp.where(
+            jnp.logical_and(leaving, pending), bucket_size_u32, SIZE_DTYPE(0)
+        )
+
         updated_idxs = _next_idx(idxs, pending)
 
         valid = updated_idxs.slot_index < table.bucket_size
@@ -206,10 +224,12 @@ def _hashtable_parallel_insert_internal(
             jnp.logical_and(updatable, jnp.logical_not(unique_mask)),
             jnp.logical_and(updatable, jnp.logical_not(valid)),
         )
-        return updated_idxs, next_pending, probes + 1
+        return updated_idxs, updatable, next_pending, probed
 
-    index, pending, _ = jax.lax.while_loop(
-        _cond, _body, (index, pending, jnp.uint32(0))
+    # Every pending entry either moves forward along its probe sequence or runs out of
+    # budget, so this terminates.
+    index, updatable, pending, _ = jax.lax.while_loop(
+        _cond, _body, (index, updatable, pending, probed)
     )
 
     successful = jnp.logical_and(updatable, jnp.logical_not(pending))
@@ -436,7 +456,7 @@ def _hashtable_parallel_insert_jit(
         )
 
         initial_found = jnp.logical_not(unique_filled)
-        idx, found = _hashtable_lookup_parallel_internal(
+        idx, found, probed = _hashtable_lookup_parallel_internal(
             table,
             inputs,
             idx,
@@ -490,6 +510,7 @@ def _hashtable_parallel_insert_jit(
                 idx,
                 updatable,
                 fingerprints,
+                probed,
             )
 
         cond_found = jnp.asarray(found, dtype=jnp.bool_)
diff --git a/xtructure/hashtable/lookup.py b/xtructure/hashtable/lookup.py
index b514a57..eeb2642 100644
--- a/xtructure/hashtable/lookup.py
+++ b/xtructure/hashtable/lookup.py
@@ -95,7 +95,12 @@ def _hashtable_lookup_internal(
         match_slot = cast(jax.Array, jnp.where(found_fast, first_match_slot, match_fb))
 
         bucket_full = filled_limit_u32 == bucket_size_u32
-        should_stop = jnp.logical_or(new_found, jnp.logical_not(bucket_full))
+        # A bucket past the probe budget is never examined, so it must not be returned
+        # either: on exhaustion stay on the last examined (full) bucket.
+        exhausted = probes + bucket_size_u32 >= max_probes_u32
+        should_stop = jnp.logical_or(
+            new_found, jnp.logical_or(jnp.logical_not(bucket_full), exhausted)
+        )
 
         out_slot = cast(jax.Array, jnp.where(new_found, match_slot, filled_limit))
         next_bucket = (bucket_idx + probe_step) & mask
@@ -146,7 +151,8 @@ def _hashtable_lookup_parallel_internal(
     fingerprints: chex.Array,
     founds: chex.Array,
     active: chex.Array | None = None,
-) -> tuple[Any, chex.Array]:
+) -> tuple[Any, chex.Array, chex.Array]:
+    """Probe all inputs; also returns how many slots each input has examined."""
     if active is None:
         active = jnp.ones(inputs.shape.batch, dtype=jnp.bool_)
 
@@ -293,10 +299,10 @@ def _hashtable_lookup_parallel_internal(
         active = continue_mask
         return idxs, founds, probes, active
 
-    idxs, founds, _, _ = jax.lax.while_loop(
+    idxs, founds, probes, _ = jax.lax.while_loop(
         _cond, _body, (idxs, founds, probes, active)
     )
-    return idxs, founds
+    return idxs, founds, probes
 
 
 @jax.jit
@@ -320,7 +326,7 @@ def _hashtable_lookup_parallel_jit(
         )
         founds = jnp.zeros(batch_size, dtype=jnp.bool_)
 
-        idx, found = _hashtable_lookup_parallel_internal(
+        idx, found, _ = _hashtable_lookup_parallel_internal(
             table,
             inputs,
             idxs,
-- 
2.43.0


From 9158a72ae77d8c2c1ac5c7348c48e84dd8669564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 04/29] fix: keep every slot usable for bucket_size >= 256 and
 never build fewer slots than capacity

---
 xtructure/hashtable/constants.py | 2 +-
 xtructure/hashtable/table.py     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/xtructure/hashtable/constants.py b/xtructure/hashtable/constants.py
index 039f80f..64481ba 100644
--- a/xtructure/hashtable/constants.py
+++ b/xtructure/hashtable/constants.py
@@ -1,7 +1,7 @@
 import jax.numpy as jnp
 
 SIZE_DTYPE = jnp.uint32
-SLOT_IDX_DTYPE = jnp.uint8
+SLOT_IDX_DTYPE = jnp.uint32
 DOUBLE_HASH_SECONDARY_DELTA = jnp.uint32(0x9E3779B1)
 FINGERPRINT_MIX_CONSTANT_A = jnp.uint32(0x85EBCA6B)
 FINGERPRINT_MIX_CONSTANT_B = jnp.uint32(0xC2B2AE35)
diff --git a/xtructure/hashtable/table.py b/xtructure/hashtable/table.py
index 97a227f..b9fc250 100644
--- a/xtructure/hashtable/table.py
+++ b/xtructure/hashtable/table.py
@@ -30,6 +30,8 @@ def _hashtable_build_jit(
     max_probes: int | None = None,
 ) -> "HashTable":
     _target_cap = int(hash_size_multiplier * capacity / bucket_size)
+    # Always provide at least `capacity` slots, whatever the multiplier rounds to.
+    _target_cap = max(_target_cap, -(-int(capacity) // int(bucket_size)))
     if _target_cap <= 1:
         _capacity = 1
     else:
-- 
2.43.0


From c500d9d3768acce24e585e82fbd8000d6d355db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 05/29] fix: compare integer unique_key costs exactly and never
 elect an unfilled representative

---
 xtructure/hashtable/hash_utils.py | 50 ++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/xtructure/hashtable/hash_utils.py b/xtructure/hashtable/hash_utils.py
index 66433c8..c39db0d 100644
--- a/xtructure/hashtable/hash_utils.py
+++ b/xtructure/hashtable/hash_utils.py
@@ -96,6 +96,32 @@ def _first_occurrence_mask(
     return jnp.logical_and(mask, active)
 
 
+def _cheapest_candidates(
+    sorted_key: jax.Array,
+    sorted_filled: jax.Array,
+    group_id: jax.Array,
+    sorted_indices: jax.Array,
+) -> jax.Array:
+    """Batch index of each filled entry holding its group's minimum key, else batch_len."""
+    batch_len = int(sorted_indices.shape[0])
+    # Pad within the key's own dtype: promoting integer keys to float loses precision.
+    if jnp.issubdtype(sorted_key.dtype, jnp.integer):
+        pad = jnp.array(jnp.iinfo(sorted_key.dtype).max, dtype=sorted_key.dtype)
+    else:
+        pad = jnp.inf
+    masked_key = jnp.where(sorted_filled, sorted_key, pad)
+    min_keys = (
+        jnp.full((batch_len,), pad, dtype=masked_key.dtype)
+        .at[group_id]
+        .min(masked_key)
+    )
+    return jnp.where(
+        jnp.logical_and(sorted_filled, masked_key == min_keys[group_id]),
+        sorted_indices,
+        jnp.int32(batch_len),
+    )
+
+
 def _compute_unique_mask_from_uint32eds(
     uint32eds: chex.Array,
     filled: chex.Array,
@@ -272,16 +298,8 @@ def _compute_unique_mask_from_uint32eds(
             raise ValueError("unique_key must match uint32eds leading dimension.")
 
         sorted_unique_key = unique_key_arr[sorted_indices]
-        masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
-        min_keys = (
-            jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
-            .at[group_id]
-            .min(masked_key)
-        )
-        candidate_indices = jnp.where(
-            masked_key == min_keys[group_id],
-            sorted_indices,
-            batch_len_i32,
+        candidate_indices = _cheapest_candidates(
+            sorted_unique_key, sorted_filled, group_id, sorted_indices
         )
     else:
         candidate_indices = jnp.where(sorted_filled, sorted_indices, batch_len_i32)
@@ -418,16 +436,8 @@ def _compute_unique_mask_from_hash_pairs(
                 raise ValueError("unique_key must match hash arrays leading dimension.")
 
             sorted_unique_key = unique_key_arr[sorted_indices]
-            masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
-            min_keys = (
-                jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
-                .at[group_id]
-                .min(masked_key)
-            )
-            candidate_indices = jnp.where(
-                masked_key == min_keys[group_id],
-                sorted_indices,
-                batch_len_i32,
+            candidate_indices = _cheapest_candidates(
+                sorted_unique_key, sorted_filled, group_id, sorted_indices
             )
         else:
             candidate_indices = jnp.where(sorted_filled, sorted_indices, batch_len_i32)
-- 
2.43.0


From 308d5a3abc3a62d1d4ea5eef0c36d84bce2db4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 06/29] fix: make unique_mask compare whole values exactly
 (packed tail, signature collisions, unfilled rows, integer costs)

---
 .../unique_ops/optimized_unique_ops.py        | 78 +++++++++++--------
 1 file changed, 47 insertions(+), 31 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index d376481..79a8026 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -108,7 +108,9 @@ def unique_mask(
         def _key_fn(x):
             # Prefer aggregate-packed representation if available for density
             if hasattr(x, "packed") and hasattr(x, "bitpack_schema"):
-                return x.packed.words
+                packed = x.packed
+                # The tail holds the bytes that do not fill a whole word.
+                return jnp.concatenate([packed.words, packed.tail.astype(jnp.uint32)])
             return x.uint32ed
 
         key_fn_local = _key_fn
@@ -152,48 +154,62 @@ def unique_mask(
     if key is not None:
         key_arr = jnp.asarray(key)
         # Docstring semantics: entries with +inf cost are excluded.
-        finite_key = key_arr < jnp.array(jnp.inf, dtype=key_arr.dtype)
-        effective_filled = jnp.logical_and(effective_filled, finite_key)
-
-    # 4. Handle filled: invalid items get MAX_KEY so they sort to the end
-    for i in range(len(hashes)):
-        dtype = hashes[i].dtype
-        if jnp.issubdtype(dtype, jnp.integer) or dtype == jnp.bool_:
-            max_val = jnp.array(jnp.iinfo(dtype).max, dtype=dtype)
-        elif jnp.issubdtype(dtype, jnp.floating):
-            max_val = jnp.array(jnp.finfo(dtype).max, dtype=dtype)
-        else:
-            raise TypeError(f"Unsupported key dtype for unique_mask: {dtype}")
-        hashes[i] = jnp.where(effective_filled, hashes[i], max_val)
+        if jnp.issubdtype(key_arr.dtype, jnp.floating):
+            finite_key = key_arr < jnp.array(jnp.inf, dtype=key_arr.dtype)
+            effective_filled = jnp.logical_and(effective_filled, finite_key)
 
     def _stable_sort_perm(perm_in: jax.Array, key_1d: jax.Array) -> jax.Array:
         order = jnp.argsort(key_1d[perm_in], stable=True)
         return perm_in[order]
 
-    # 5. Stable multi-pass argsort to avoid lexsort / multi-key lax.sort.
+    # 4. Stable multi-pass argsort to avoid lexsort / multi-key lax.sort.
     # Start perm as arange to get smallest-index tie-breaking for free.
-    perm = jnp.arange(batch_len_i, dtype=jnp.int32)
+    base_perm = jnp.arange(batch_len_i, dtype=jnp.int32)
 
     if key is not None:
-        key_arr2 = jnp.asarray(key)
-        inf_fill = jnp.array(jnp.inf, dtype=key_arr2.dtype)
-        valid_key = jnp.where(effective_filled, key_arr2, inf_fill)
-        perm = _stable_sort_perm(perm, valid_key)
+        base_perm = _stable_sort_perm(base_perm, jnp.asarray(key))
+
+    def _finish(perm: jax.Array) -> jax.Array:
+        # Validity is the most significant key: invalid items sort to the end and
+        # never share a group with a valid item, whatever their value.
+        return _stable_sort_perm(perm, jnp.logical_not(effective_filled))
 
     # Hash keys: least significant first so the first hash becomes most significant.
+    perm = base_perm
     for h in reversed(hashes):
         perm = _stable_sort_perm(perm, h)
-
-    # 6. Compute unique mask from sorted hashes
-    sorted_hashes = [h[perm] for h in hashes]
-
-    # Row i is unique if it differs from i-1 in ANY of the hashes
-    diffs = [h[1:] != h[:-1] for h in sorted_hashes]
-    is_diff = diffs[0]
-    for d in diffs[1:]:
-        is_diff = jnp.logical_or(is_diff, d)
-
-    mask_sorted = jnp.concatenate([jnp.array([True]), is_diff])
+    perm = _finish(perm)
+
+    # 5. Distinct rows may share a wide hash; fall back to sorting on every column.
+    num_cols = int(keys_flat.shape[1])
+
+    def _rows_differ(perm: jax.Array) -> jax.Array:
+        rows = keys_flat[perm]
+        return jnp.any(rows[1:] != rows[:-1], axis=1)
+
+    if num_cols > len(hashes):
+        sorted_hashes = [h[perm] for h in hashes]
+        same_hash = jnp.logical_and(
+            effective_filled[perm][1:], effective_filled[perm][:-1]
+        )
+        for h in sorted_hashes:
+            same_hash = jnp.logical_and(same_hash, h[1:] == h[:-1])
+        collision = jnp.any(jnp.logical_and(same_hash, _rows_differ(perm)))
+
+        def _full_row_sort(_):
+            def _sort_col(i, p):
+                col = lax.dynamic_index_in_dim(
+                    keys_flat, num_cols - 1 - i, axis=1, keepdims=False
+                )
+                return _stable_sort_perm(p, col)
+
+            return _finish(lax.fori_loop(0, num_cols, _sort_col, base_perm))
+
+        perm = lax.cond(collision, _full_row_sort, lambda _: perm, operand=None)
+
+    # 6. Compute unique mask from sorted rows: row i starts a group if it differs
+    # from row i-1 in ANY column.
+    mask_sorted = jnp.concatenate([jnp.array([True]), _rows_differ(perm)])
 
     # 7. Filter out the invalid group
     is_valid_sorted = effective_filled[perm]
-- 
2.43.0


From f83d67869a6235669b1ebda23ae4daf8c04359e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 07/29] fix: accept narrow integer index dtypes in
 update_on_condition for large arrays

---
 xtructure/core/xtructure_numpy/array_ops.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index aebea61..9913259 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -4,6 +4,13 @@ import jax.numpy as jnp
 import numpy as np
 
 
+def _widen_indices(indices: jnp.ndarray) -> jnp.ndarray:
+    """Widen sub-32-bit integer indices so array sizes and offsets are representable."""
+    if jnp.issubdtype(indices.dtype, jnp.integer) and indices.dtype.itemsize < 4:
+        return indices.astype(jnp.int32)
+    return indices
+
+
 def _update_array_on_condition(
     original_array: jnp.ndarray,
     indices: Union[jnp.ndarray, tuple[jnp.ndarray, ...]],
@@ -26,7 +33,9 @@ def _update_array_on_condition(
         flat_batch_size = np.prod(batch_shape).item()
         reshaped_array = original_array.reshape((flat_batch_size, *item_shape))
 
-        raveled_indices = jnp.ravel_multi_index(indices, batch_shape, mode="clip")
+        # Narrow index dtypes cannot hold the raveled positions.
+        wide_indices = tuple(_widen_indices(jnp.asarray(idx)) for idx in indices)
+        raveled_indices = jnp.ravel_multi_index(wide_indices, batch_shape, mode="clip")
 
         result = _update_array_on_condition(
             reshaped_array, raveled_indices, condition, values_to_set
@@ -44,7 +53,7 @@ def _update_array_on_condition(
             f"`condition` shape {condition.shape} must match `indices` shape {indices_array.shape}."
         )
 
-    indices_array = jnp.reshape(indices_array, (num_updates,))
+    indices_array = _widen_indices(jnp.reshape(indices_array, (num_updates,)))
     index_dtype = indices_array.dtype
     invalid_index = jnp.array(original_array.shape[0], dtype=index_dtype)
 
-- 
2.43.0


From 9bf999684dc973e9db5e15d8b77a879e86512176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 08/29] fix: align a per-entry condition with the batch axes in
 where

---
 .../core/xtructure_numpy/dataclass_ops/logical_ops.py  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
index fc4461c..e50c642 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
@@ -16,10 +16,20 @@ def where(
 ) -> Xtructurable:
     """Apply jnp.where across every field of a dataclass."""
     condition_array = jnp.asarray(condition, dtype=jnp.bool_)
+    x_shape = getattr(x, "shape", None)
+    condition_is_batch_mask = condition_array.ndim > 0 and (
+        condition_array.shape == getattr(x_shape, "batch", None)
+    )
 
     def _align_condition(target_shape: tuple[int, ...]) -> jnp.ndarray:
         if condition_array.shape == target_shape:
             return condition_array
+        if condition_is_batch_mask and len(target_shape) > condition_array.ndim:
+            # One flag per batch entry: never spread it over field-specific axes.
+            trailing = (1,) * (len(target_shape) - condition_array.ndim)
+            return jnp.broadcast_to(
+                condition_array.reshape(condition_array.shape + trailing), target_shape
+            )
         try:
             return jnp.broadcast_to(condition_array, target_shape)
         except ValueError as err:
-- 
2.43.0


From 578cc7f17756510ff0d8e785b323bbb7f561f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 09/29] fix: resolve negative axes and broadcast targets
 against the batch shape

---
 .../dataclass_ops/batch_ops.py                | 14 ++++++++++++--
 .../dataclass_ops/shape_ops.py                | 19 +++++++++++++++++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
index 56913bf..8b3883a 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
@@ -66,7 +66,7 @@ def concat(dataclasses: List[T], axis: int = 0) -> T:
         first_batch_shape = dataclasses[0].shape.batch
         concat_axis_adjusted = axis if axis >= 0 else len(first_batch_shape) + axis
 
-        if concat_axis_adjusted >= len(first_batch_shape):
+        if not 0 <= concat_axis_adjusted < len(first_batch_shape):
             raise ValueError(
                 f"Concatenation axis {axis} is out of bounds for batch shape {first_batch_shape}"
             )
@@ -85,7 +85,8 @@ def concat(dataclasses: List[T], axis: int = 0) -> T:
                     )
 
         return jax.tree_util.tree_map(
-            lambda *arrays: jnp.concatenate(arrays, axis=axis), *dataclasses
+            lambda *arrays: jnp.concatenate(arrays, axis=concat_axis_adjusted),
+            *dataclasses,
         )
 
     raise ValueError(
@@ -174,6 +175,15 @@ def stack(dataclasses: List[T], axis: int = 0) -> T:
     if not dataclasses:
         raise ValueError("Cannot stack empty list of dataclasses")
 
+    # A negative axis counts from the end of the batch shape, not of each field.
+    batch_shape = dataclasses[0].shape.batch
+    if axis < 0 and isinstance(batch_shape, tuple):
+        axis += len(batch_shape) + 1
+        if axis < 0:
+            raise ValueError(
+                f"Stacking axis is out of bounds for batch shape {batch_shape}"
+            )
+
     if len(dataclasses) == 1:
         return jax.tree_util.tree_map(
             lambda x: jnp.expand_dims(x, axis=axis), dataclasses[0]
diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py
index 4521966..12283df 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py
@@ -111,6 +111,9 @@ def transpose(dataclass_instance: T, axes: Union[tuple[int, ...], None] = None)
 
     if axes is None:
         axes = tuple(range(batch_ndim - 1, -1, -1))
+    else:
+        # Negative axes count from the end of the batch shape, not of each field.
+        axes = tuple(a + batch_ndim if a < 0 else a for a in axes)
 
     def transpose_batch_only(field: jnp.ndarray) -> jnp.ndarray:
         field_ndim = jnp.ndim(field)
@@ -191,8 +194,20 @@ def moveaxis(
 
 
 def broadcast_to(array: T, shape: Sequence[int]) -> T:
-    """Broadcast an array to a new shape."""
-    return jax.tree_util.tree_map(lambda x: jnp.broadcast_to(x, shape=shape), array)
+    """Broadcast the batch dimensions of a dataclass to a new batch shape."""
+    target = (shape,) if isinstance(shape, int) else tuple(shape)
+    batch_shape = array.shape.batch
+    batch_ndim = len(batch_shape) if isinstance(batch_shape, tuple) else None
+
+    def _broadcast_leaf(x):
+        # Field-specific dimensions stay behind the broadcast batch dimensions.
+        field_shape = () if batch_ndim is None else jnp.shape(x)[batch_ndim:]
+        if field_shape:
+            lead = (1,) * (len(target) - batch_ndim)
+            x = jnp.reshape(x, lead + jnp.shape(x))
+        return jnp.broadcast_to(x, target + field_shape)
+
+    return jax.tree_util.tree_map(_broadcast_leaf, array)
 
 
 def broadcast_arrays(*args: Any) -> list[Any]:
-- 
2.43.0


From ccdc58a1090522d74fcbc67e07396edf948e995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 10/29] fix: respect max_probes on accelerator insert paths

---
 xtructure/hashtable/insert.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index 62a1829..7b0660b 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -468,14 +468,22 @@ def _hashtable_parallel_insert_jit(
 
         updatable = jnp.logical_and(jnp.logical_not(found), unique_filled)
 
+        # The accelerator kernels visit every bucket; with a smaller probe budget they
+        # could place entries where lookups never search.
+        full_probe_budget = (
+            table.max_probes >= int(table._capacity) * table.bucket_size
+        )
+
         use_triton = (
             jax.default_backend() == "gpu"
+            and full_probe_budget
             and table.bucket_size <= 32
             and triton_insert_enabled()
         )
 
         use_pallas = (
             jax.default_backend() == "tpu"
+            and full_probe_budget
             and table.bucket_size <= 32
             and pallas_insert_enabled()
         )
-- 
2.43.0


From 5df75e76edfcc0ea2dd216ef864edba97bb8f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 11/29] fix: load extension-dtype (bfloat16, float8) fields
 with their declared dtype

---
 xtructure/io/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 11679a2..6e137aa 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -145,7 +145,12 @@ def _unflatten_data_for_load(
                 field_values[field_name] = unpacked
             elif full_key in data:
                 # Load JAX array from NumPy array
-                field_values[field_name] = jnp.array(data[full_key])
+                array = data[full_key]
+                if array.dtype.kind == "V" and field_descriptor is not None:
+                    # The npy format stores extension dtypes (bfloat16, float8, ...)
+                    # as raw void bytes; reinterpret them as the declared dtype.
+                    array = array.view(np.dtype(field_descriptor.dtype))
+                field_values[field_name] = jnp.array(array)
     return field_values
 
 
-- 
2.43.0


From 5a59ce3cea185ae156758ba48d46773c62bbfa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 12/29] fix: bitpack empty batches to an empty byte stream

---
 .../core/xtructure_decorators/aggregate_bitpack/bitpack.py     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
index 36bf01b..3987471 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
@@ -157,6 +157,9 @@ def to_uint8(values: chex.Array, active_bits: int = 1) -> chex.Array:
 
     values_flat = values.reshape((-1,))
 
+    if values_flat.size == 0:
+        return jnp.zeros((0,), dtype=jnp.uint8)
+
     # Fast path for byte-aligned packing.
     if active_bits == 8:
         return values_flat.astype(jnp.uint8)
-- 
2.43.0


From 9df3dadf0ea7a8f5b68de639bc0a62b4cd1c1c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 13/29] fix: end the delete_mins sift-down at childless nodes
 (vmapped deletes on single-branch queues never terminated)

---
 xtructure/bgpq/_delete.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xtructure/bgpq/_delete.py b/xtructure/bgpq/_delete.py
index 29f6626..1dcb1be 100644
--- a/xtructure/bgpq/_delete.py
+++ b/xtructure/bgpq/_delete.py
@@ -75,7 +75,9 @@ def _bgpq_delete_heapify_internal(heap: "BGPQ"):
         min_l = heap.key_store[left_child][0]
         min_r = heap.key_store[right_child][0]
         min_lr = jnp.minimum(min_l, min_r)
-        return max_c > min_lr
+        # A node without children ends the path (row indices past the store would be
+        # clamped onto existing rows).
+        return jnp.logical_and(left_child < heap.branch_size, max_c > min_lr)
 
     def _body(state):
         (
-- 
2.43.0


From 689b5ee1831f87ba763fb07320b8111e7decda59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 14/29] fix: make the loop merge kernel work on current JAX
 (removed pl.load/pl.store, default backend)

---
 xtructure/bgpq/merge_split/loop.py | 68 +++++++-----------------------
 1 file changed, 15 insertions(+), 53 deletions(-)

diff --git a/xtructure/bgpq/merge_split/loop.py b/xtructure/bgpq/merge_split/loop.py
index 7d491be..2678e14 100644
--- a/xtructure/bgpq/merge_split/loop.py
+++ b/xtructure/bgpq/merge_split/loop.py
@@ -26,18 +26,8 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             merged_indices_ref_from_cond,
         ) = cond_operands
         val_a_casted = val_a_to_store.astype(merged_keys_ref_from_cond.dtype)
-        pl.store(
-            merged_keys_ref_from_cond,
-            (current_out_ptr_val,),
-            val_a_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            merged_indices_ref_from_cond,
-            (current_out_ptr_val,),
-            current_idx_a,
-            eviction_policy="evict_last",
-        )
+        merged_keys_ref_from_cond[current_out_ptr_val] = val_a_casted
+        merged_indices_ref_from_cond[current_out_ptr_val] = current_idx_a
         return current_idx_a + 1, current_idx_b
 
     def false_branch_body_fn(cond_operands):
@@ -52,18 +42,8 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             merged_indices_ref_from_cond,
         ) = cond_operands
         val_b_casted = val_b_to_store.astype(merged_keys_ref_from_cond.dtype)
-        pl.store(
-            merged_keys_ref_from_cond,
-            (current_out_ptr_val,),
-            val_b_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            merged_indices_ref_from_cond,
-            (current_out_ptr_val,),
-            n + current_idx_b,
-            eviction_policy="evict_last",
-        )
+        merged_keys_ref_from_cond[current_out_ptr_val] = val_b_casted
+        merged_indices_ref_from_cond[current_out_ptr_val] = n + current_idx_b
         return current_idx_a, current_idx_b + 1
 
     initial_main_loop_state = (
@@ -90,8 +70,8 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             loop_merged_keys_ref,
             loop_merged_indices_ref,
         ) = state
-        val_a = pl.load(loop_ak_ref, (idx_a,))
-        val_b = pl.load(loop_bk_ref, (idx_b,))
+        val_a = loop_ak_ref[idx_a]
+        val_b = loop_bk_ref[idx_b]
         pred = val_a <= val_b
 
         updated_idx_a, updated_idx_b = jax.lax.cond(
@@ -153,20 +133,10 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             loop_merged_keys_ref,
             loop_merged_indices_ref,
         ) = state
-        val_to_store = pl.load(loop_ak_ref, (current_idx_a,))
+        val_to_store = loop_ak_ref[current_idx_a]
         val_casted = val_to_store.astype(loop_merged_keys_ref.dtype)
-        pl.store(
-            loop_merged_keys_ref,
-            (current_out_ptr,),
-            val_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            loop_merged_indices_ref,
-            (current_out_ptr,),
-            current_idx_a,
-            eviction_policy="evict_last",
-        )
+        loop_merged_keys_ref[current_out_ptr] = val_casted
+        loop_merged_indices_ref[current_out_ptr] = current_idx_a
         return (
             current_idx_a + 1,
             current_out_ptr + 1,
@@ -206,20 +176,10 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             loop_merged_keys_ref,
             loop_merged_indices_ref,
         ) = state
-        val_to_store = pl.load(loop_bk_ref, (current_idx_b,))
+        val_to_store = loop_bk_ref[current_idx_b]
         val_casted = val_to_store.astype(loop_merged_keys_ref.dtype)
-        pl.store(
-            loop_merged_keys_ref,
-            (current_out_ptr,),
-            val_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            loop_merged_indices_ref,
-            (current_out_ptr,),
-            n + current_idx_b,
-            eviction_policy="evict_last",
-        )
+        loop_merged_keys_ref[current_out_ptr] = val_casted
+        loop_merged_indices_ref[current_out_ptr] = n + current_idx_b
         return (
             current_idx_b + 1,
             current_out_ptr + 1,
@@ -254,5 +214,7 @@ def merge_arrays_indices_loop(
     out_idx_shape_dtype = jax.ShapeDtypeStruct((n + m,), jnp.int32)
 
     return pl.pallas_call(
-        merge_indices_kernel_loop, out_shape=(out_keys_shape_dtype, out_idx_shape_dtype)
+        merge_indices_kernel_loop,
+        out_shape=(out_keys_shape_dtype, out_idx_shape_dtype),
+        backend="triton",
     )(ak, bk)
-- 
2.43.0


From ddd62eb82941a694e66ac1a17cea54f9fa184e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 15/29] fix: resolve slices in unpack_field like Python slices
 (negative, reversed and oversized bounds read other fields)

---
 .../core/xtructure_decorators/aggregate_bitpack/__init__.py  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
index 09c31f4..8c09bf7 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
@@ -260,10 +260,7 @@ def add_aggregate_bitpack(cls: Type[T]) -> Type[T]:
         if indices is None:
             return jnp.arange(nvalues, dtype=jnp.int32)
         if isinstance(indices, slice):
-            start = 0 if indices.start is None else int(indices.start)
-            stop = nvalues if indices.stop is None else int(indices.stop)
-            step = 1 if indices.step is None else int(indices.step)
-            return jnp.arange(start, stop, step, dtype=jnp.int32)
+            return jnp.arange(*indices.indices(nvalues), dtype=jnp.int32)
         if isinstance(indices, (list, tuple, np.ndarray)):
             return jnp.asarray(indices, dtype=jnp.int32).reshape((-1,))
         return jnp.asarray(indices, dtype=jnp.int32).reshape((-1,))
-- 
2.43.0


From 02cfd9647aff867e11ba0f4abf3d7061b0fbb758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 16/29] fix: merge key/value runs when one side is empty in the
 parallel backend

---
 xtructure/bgpq/merge_split/parallel.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xtructure/bgpq/merge_split/parallel.py b/xtructure/bgpq/merge_split/parallel.py
index b213a8e..2d32dd5 100644
--- a/xtructure/bgpq/merge_split/parallel.py
+++ b/xtructure/bgpq/merge_split/parallel.py
@@ -332,6 +332,14 @@ def _get_merge_arrays_parallel_kv(
             ]
             return out_keys, out_vals
 
+        if n == 0:
+            key_dtype = jnp.result_type(ak.dtype, bk.dtype)
+            return bk.astype(key_dtype), list(bv_leaves)
+
+        if m == 0:
+            key_dtype = jnp.result_type(ak.dtype, bk.dtype)
+            return ak.astype(key_dtype), list(av_leaves)
+
         key_dtype = jnp.result_type(ak.dtype, bk.dtype)
         ak = ak.astype(key_dtype)
         bk = bk.astype(key_dtype)
-- 
2.43.0


From 1fadb51849cf15a0f85202a06f323b9c9a3aca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 17/29] fix: apply conditional updates addressed by a slice

---
 xtructure/core/xtructure_numpy/array_ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index 9913259..fb0abdd 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -42,6 +42,9 @@ def _update_array_on_condition(
         )
         return result.reshape(original_array.shape)
 
+    if isinstance(indices, slice):
+        indices = jnp.arange(original_array.shape[0])[indices]
+
     condition = jnp.asarray(condition, dtype=jnp.bool_)
     num_updates = condition.size
     if num_updates == 0:
-- 
2.43.0


From 0cce996d58aee417eb070107a9826d044a31e759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 18/29] fix: keep the field dtype when where selects against a
 Python scalar

---
 xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
index e50c642..432d091 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
@@ -73,7 +73,8 @@ def where(
                 "broadcast to match `x` field shape {x_field.shape}."
                 f"Original `y` shape: {scalar_value.shape}, `x` shape: {x_field.shape}."
             ) from err
-        target_dtype = jnp.result_type(x_field.dtype, y_array.dtype)
+        # A Python scalar keeps its weak type, so it never widens or wraps the field.
+        target_dtype = jnp.result_type(x_field.dtype, scalar_value)
         return _where_no_broadcast(
             cond,
             jnp.asarray(x_field, dtype=target_dtype),
-- 
2.43.0


From 39e8f205be000f85af3f2fa993c31d0f25f73f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 19/29] fix: take whole records along axis 0 by default, as
 documented

---
 xtructure/core/xtructure_numpy/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/__init__.py b/xtructure/core/xtructure_numpy/__init__.py
index a932779..95b0b52 100644
--- a/xtructure/core/xtructure_numpy/__init__.py
+++ b/xtructure/core/xtructure_numpy/__init__.py
@@ -136,6 +136,9 @@ def take(
 ):
     if _is_xtructurable(a):
         _reject_dataclass_kwargs("take", out=out)
+        if axis is None:
+            # The documented default: records are taken along the first batch axis.
+            axis = 0
         return jax.tree_util.tree_map(
             lambda x: jnp.take(
                 x,
-- 
2.43.0


From 13a887cc28bac3ee22267471200bb97daee685d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 20/29] fix: report an unstructured nested field with an inner
 shape instead of failing

---
 xtructure/core/xtructure_decorators/shape.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/shape.py b/xtructure/core/xtructure_decorators/shape.py
index b6511dc..07bb5ba 100644
--- a/xtructure/core/xtructure_decorators/shape.py
+++ b/xtructure/core/xtructure_decorators/shape.py
@@ -82,7 +82,10 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
                 if default_shape_field == ():
                     batch_shapes.append(shape.batch)
                     shape = shape.__class__((), *shape[1:])
-                elif shape.batch[-len(default_shape_field) :] == default_shape_field:
+                elif (
+                    shape.batch != -1
+                    and shape.batch[-len(default_shape_field) :] == default_shape_field
+                ):
                     batch_shapes.append(shape.batch[: -len(default_shape_field)])
                     cuted_batch_shape = shape.batch[-len(default_shape_field) :]
                     shape = shape.__class__(cuted_batch_shape, *shape[1:])
-- 
2.43.0


From 4f2efb8055a362bcf55c7f33927d0e600521906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 21/29] fix: refuse to load damaged files whose array headers
 shrink the stored data

---
 xtructure/io/io.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 6e137aa..4d7c396 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -168,6 +168,12 @@ def load(path: str) -> Xtructurable:
         A new instance of the saved xtructure dataclass.
     """
     with np.load(path, allow_pickle=False) as data:
+        # Reading a member whose header claims fewer bytes than were stored stops
+        # before its checksum is verified, so verify every member up front.
+        damaged = data.zip.testzip()
+        if damaged is not None:
+            raise ValueError(f"File is damaged: checksum mismatch in '{damaged}'.")
+
         # Extract metadata
         if METADATA_MODULE_KEY not in data or METADATA_CLASS_NAME_KEY not in data:
             raise ValueError(
-- 
2.43.0


From 483eae3219bd4b3dbdce8fa72f510a29cdc47dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:29 +0000
Subject: [PATCH 22/29] fix: at[...].set ignored fields held in NumPy arrays

---
 xtructure/core/xtructure_decorators/indexing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/indexing.py b/xtructure/core/xtructure_decorators/indexing.py
index 7408932..697b311 100644
--- a/xtructure/core/xtructure_decorators/indexing.py
+++ b/xtructure/core/xtructure_decorators/indexing.py
@@ -2,6 +2,7 @@ from operator import attrgetter
 from typing import Any, Type, TypeVar
 
 import jax.numpy as jnp
+import numpy as np
 
 from ..xtructure_numpy.array_ops import _update_array_on_condition
 
@@ -57,6 +58,9 @@ class _Updater:
         for i, (field_name, current_field_value) in enumerate(
             zip(self._field_names, instance_values)
         ):
+            if isinstance(current_field_value, (np.ndarray, np.generic)):
+                # NumPy arrays have no `.at`; without this they would stay unchanged.
+                current_field_value = jnp.asarray(current_field_value)
             try:
                 # Most common fast path: arrays and xtructure instances both expose `.at[...]`.
                 updater_ref = current_field_value.at[self.indices]
@@ -123,6 +127,8 @@ class _Updater:
                 else value_to_conditionally_set
             )
 
+            if isinstance(original_field_value, (np.ndarray, np.generic)):
+                original_field_value = jnp.asarray(original_field_value)
             try:
                 if hasattr(original_field_value, "at"):
                     nested_updater = original_field_value.at[self.indices]
-- 
2.43.0


From 38715b8afe5136f1d05df6281157ce37cf8139f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:29 +0000
Subject: [PATCH 23/29] fix: keep a class's explicitly provided default
 classmethod

---
 xtructure/core/xtructure_decorators/default.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/default.py b/xtructure/core/xtructure_decorators/default.py
index 55c496d..49cbcb0 100644
--- a/xtructure/core/xtructure_decorators/default.py
+++ b/xtructure/core/xtructure_decorators/default.py
@@ -26,8 +26,10 @@ class FieldInfo(NamedTuple):
 def add_default_method(cls: Type[T]) -> Type[T]:
     field_descriptors = get_field_descriptors(cls)
 
-    # add default method to class
-    setattr(cls, "default", _create_default_method(cls, field_descriptors))
+    # add default method to class, unless the class provides its own
+    default_method = _create_default_method(cls, field_descriptors)
+    if "default" not in cls.__dict__:
+        setattr(cls, "default", default_method)
     return cls
 
 
-- 
2.43.0


From a58052645ab7805e14d689e3c6da189a5b8f31af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:29 +0000
Subject: [PATCH 24/29] fix: check_invariants ignored the declared inner shape
 of nested fields

---
 xtructure/core/xtructure_decorators/validation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/validation.py b/xtructure/core/xtructure_decorators/validation.py
index 79e30bb..9054b66 100644
--- a/xtructure/core/xtructure_decorators/validation.py
+++ b/xtructure/core/xtructure_decorators/validation.py
@@ -61,6 +61,16 @@ def add_runtime_validation(cls: Type[T], *, enabled: bool) -> Type[T]:
                         f"{cls.__name__}.{field_name} expected instance of "
                         f"{descriptor.dtype.__name__}, got {type(value).__name__}."
                     )
+                intrinsic_shape = tuple(descriptor.intrinsic_shape)
+                batch_shape = value.shape.batch
+                if intrinsic_shape and (
+                    batch_shape == -1
+                    or batch_shape[-len(intrinsic_shape) :] != intrinsic_shape
+                ):
+                    raise ValueError(
+                        f"{cls.__name__}.{field_name} expected trailing shape {intrinsic_shape}, "
+                        f"but got batch shape {batch_shape}."
+                    )
                 continue
             _validate_array_field(field_name, descriptor, value)
 
-- 
2.43.0


From 19722045b9c59c6f0fc261e0418655a40b588aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 25/29] fix: instances could not be pickled once their shape
 had been read

---
 xtructure/core/dataclass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/dataclass.py b/xtructure/core/dataclass.py
index 7c1395f..675adf3 100644
--- a/xtructure/core/dataclass.py
+++ b/xtructure/core/dataclass.py
@@ -134,7 +134,8 @@ class _Dataclass:
             return dataclasses.replace(self, **kwargs)
 
         def _getstate(self):
-            return self.__dict__
+            # The caches hold namedtuple types that cannot be pickled.
+            return {k: v for k, v in self.__dict__.items() if k not in _INTERNAL_CACHE_KEYS}
 
         # Register the dataclass at definition. As long as the dataclass is defined
         # outside __main__, this is sufficient to make JAX's PyTree registry
-- 
2.43.0


From 56bc3c099bd43e18ff83a63c3b67c9b130c7d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:08 +0000
Subject: [PATCH 26/29] fix: hash records without any element alike on the
 streaming and materialised routes

---
 xtructure/core/xtructure_decorators/hash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/hash.py b/xtructure/core/xtructure_decorators/hash.py
index a13e461..985e282 100644
--- a/xtructure/core/xtructure_decorators/hash.py
+++ b/xtructure/core/xtructure_decorators/hash.py
@@ -241,7 +241,7 @@ def byterize_hash_func_builder(x: Xtructurable):
     def _hash_streaming_from_leaves(flat_leaves, seed):
         """Hash without materializing the full concatenated uint32ed buffer."""
         seed_u32 = jnp.uint32(seed)
-        if len(flat_leaves) == 0:
+        if all(leaf.size == 0 for leaf in flat_leaves):
             return _avalanche32(seed_u32 ^ jnp.uint32(0x9E3779B1))
 
         combined = jnp.uint32(0)
@@ -265,7 +265,7 @@ def byterize_hash_func_builder(x: Xtructurable):
     def _hash_pair_streaming_from_leaves(flat_leaves, seed):
         """Hash pair without materializing the full concatenated uint32ed buffer."""
         seed_u32 = jnp.uint32(seed)
-        if len(flat_leaves) == 0:
+        if all(leaf.size == 0 for leaf in flat_leaves):
             h0 = _avalanche32(seed_u32 ^ jnp.uint32(0x9E3779B1))
             h1 = _avalanche32(seed_u32 ^ jnp.uint32(0x85EBCA6B))
             return h0, h1
-- 
2.43.0


From 7bac799a5c974a9dc7e11a07d0e6f05fa66022a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:08 +0000
Subject: [PATCH 27/29] fix: merge values whose fields have no element

---
 xtructure/bgpq/merge_split/parallel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xtructure/bgpq/merge_split/parallel.py b/xtructure/bgpq/merge_split/parallel.py
index 2d32dd5..2dae793 100644
--- a/xtructure/bgpq/merge_split/parallel.py
+++ b/xtructure/bgpq/merge_split/parallel.py
@@ -430,7 +430,9 @@ def merge_arrays_parallel_kv(
 
         use_scalar = False
         use_shard = False
-        if packing_mode == "scalar":
+        if inner_size == 0:
+            pass  # nothing to split: padded to one column below
+        elif packing_mode == "scalar":
             use_scalar = True
         elif packing_mode == "shard":
             use_shard = True
-- 
2.43.0


From 10333bd36779cfd4e42d57bc105cd139711ca3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:09 +0000
Subject: [PATCH 28/29] fix: state the whole batch shape when printing narrow
 batches

---
 xtructure/core/xtructure_decorators/string_format.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/string_format.py b/xtructure/core/xtructure_decorators/string_format.py
index af6a8cd..4a04bd5 100644
--- a/xtructure/core/xtructure_decorators/string_format.py
+++ b/xtructure/core/xtructure_decorators/string_format.py
@@ -127,11 +127,17 @@ def add_string_representation_methods(cls: Type[T]) -> Type[T]:
                         results.append(get_slice_str(self[index]))
                 table.add_row(*results)
 
+            title = f"Batched {cls.__name__}"
+            subtitle = f"shape: {batch_shape}"
+            # A fitted panel makes room for its title but not for its subtitle.
+            width = max(
+                console.measure(table).maximum + 4, len(title) + 6, len(subtitle) + 6
+            )
             panel = Panel(
                 table,
-                title=f"[yellow bold]Batched {cls.__name__}[/yellow bold]",
-                subtitle=f"[green bold]shape: {batch_shape}[/green bold]",
-                expand=False,
+                title=f"[yellow bold]{title}[/yellow bold]",
+                subtitle=f"[green bold]{subtitle}[/green bold]",
+                width=width,
             )
             console.print(panel)
             return console_buffer.getvalue()
-- 
2.43.0


From b3d2977bb815c67fcac94f678e3f892281115b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:09 +0000
Subject: [PATCH 29/29] fix: save fields called like parameters of the archive
 writer

---
 xtructure/io/io.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 4d7c396..5f3fb10 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -21,6 +21,14 @@ METADATA_CLASS_NAME_KEY = "__xtructure_class_name__"
 
 _BITPACK_PREFIX = "__xtructure_bitpack__"
 
+# np.savez_compressed takes these names as its own parameters, so top-level fields
+# called like that are stored under an escaped key.
+_RESERVED_KEYS = ("file", "allow_pickle")
+
+
+def _storage_key(full_key: str) -> str:
+    return f"{full_key}." if full_key in _RESERVED_KEYS else full_key
+
 
 def _bitpack_keys(full_key: str) -> Tuple[str, str, str, str]:
     # Use separate arrays so we can keep npz backward compatible and inspectable.
@@ -68,10 +76,10 @@ def _flatten_instance_for_save(
                     np.array(str(jnp.asarray(value).dtype), dtype=np.str_)
                 )
             else:
-                flat_data[full_key] = np.asarray(value)
+                flat_data[_storage_key(full_key)] = np.asarray(value)
         else:
             # For non-array-like fields, save as 0-dim array
-            flat_data[full_key] = np.array(value)
+            flat_data[_storage_key(full_key)] = np.array(value)
     return flat_data
 
 
@@ -143,9 +151,9 @@ def _unflatten_data_for_load(
                     except TypeError:
                         pass
                 field_values[field_name] = unpacked
-            elif full_key in data:
+            elif _storage_key(full_key) in data:
                 # Load JAX array from NumPy array
-                array = data[full_key]
+                array = data[_storage_key(full_key)]
                 if array.dtype.kind == "V" and field_descriptor is not None:
                     # The npy format stores extension dtypes (bfloat16, float8, ...)
                     # as raw void bytes; reinterpret them as the declared dtype.
-- 
2.43.0

