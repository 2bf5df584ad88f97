"""C06: concurrent slot reservation on accelerators is atomic under every schedule.

The real parallel_insert runs with the accelerator paths switched on; whenever
it launches a Pallas kernel, mc/pallas_emu.py interprets the kernel's jaxpr and
explores every interleaving of its programs.  Every distinct outcome is fed
back into the library and judged through the public API: representatives,
positions, sizes, lookups, and whether the table still works afterwards (a
second concurrent batch, then filling it to the last slot).
"""
from __future__ import annotations

import itertools

LEVEL = "model_checking"
RULE = ("kernel states are (shared buffers, values read so far by each program); transitions are single shared-memory "
        "accesses; each distinct kernel outcome is one execution of parallel_insert judged by lookups and follow-up operations")
ASSUMPTIONS = [
    "shared accesses of a kernel are single reads, writes or atomic read-modify-writes of one element",
    "in the relaxed jobs plain reads may return any value the cell held since the launch (per-program coherence), atomics act on the newest value",
    "the accelerator compiler implements the kernel's jaxpr faithfully (kernels are interpreted, not compiled)",
]

# name -> class, capacity, bucket, max_probes, alphabet (pairs, triples, singles, default), seed
T = {
    "one-bucket4": ("Pair", 4, 4, None, (1, 0, 3, 1), 42),
    "2x2": ("Pair", 4, 2, None, (1, 0, 3, 1), 7),
    "4x1": ("Scalar", 4, 1, None, (0, 0, 6, 0), 3),
    "4x2": ("Vec", 8, 2, None, (1, 0, 6, 1), 5),
    "bucket32": ("Pair", 32, 32, None, (1, 0, 33, 0), 1),
    "bucket31": ("Pair", 31, 31, None, (0, 0, 34, 0), 1),
    "probes": ("Pair", 4, 1, 2, (1, 0, 3, 0), 11),
    "bucket33": ("Pair", 33, 33, None, (0, 0, 36, 0), 13),
}


def jobs(tier):
    out = []

    def add(name, backend, table, L, ids, fills, masks, relaxed=False, depth=2, cost=5):
        out.append({"name": f"{backend}-{table}-len{L}-{name}" + ("-relaxed" if relaxed else ""), "fn": "schedules",
                    "cost": cost, "args": dict(backend=backend, table=table, L=L, ids=ids, fills=fills, masks=masks,
                                               relaxed=relaxed, depth=depth)})

    for be in ("gpu", "tpu"):
        add("all-batches", be, "2x2", 2, [0, 1, 2, 3, 4, 5], [[], [5], [3, 4], [2, 3, 4]], True, cost=9)
        add("three", be, "2x2", 3, [0, 1, 2, 3], [[], [4], [4, 5]], False, depth=1, cost=9)
        add("three", be, "one-bucket4", 3, [0, 1, 2, 5], [[], [4], [3, 4]], False, depth=1, cost=9)
        add("three", be, "4x1", 3, [0, 1, 2, 3], [[], [4, 5]], False, depth=1, cost=8)
        add("full-mask", be, "bucket32", 3, [0, 1, 2], [list(range(3, 32)), list(range(3, 33))], False, depth=1)
        add("odd-mask", be, "bucket31", 2, [0, 1, 2], [list(range(3, 32)), list(range(3, 33)), list(range(4, 34))], False, depth=1)
        add("fallback", be, "probes", 2, [0, 1, 2, 3], [[], [4]], True, depth=2, cost=3)
        add("fallback", be, "bucket33", 2, [0, 1], [list(range(2, 33)), list(range(2, 34))], False, depth=1, cost=3)
    add("three", "gpu", "2x2", 3, [0, 2, 4], [[], [5]], False, relaxed=True, depth=1, cost=9)
    for be in ("gpu", "tpu"):
        add("four", be, "2x2", 4, [0, 2, 4], [[], [5]], False, depth=1, cost=9)
    add("two", "gpu", "one-bucket4", 2, [0, 1, 2, 3], [[], [4], [4, 5]], True, relaxed=True, depth=1, cost=9)
    if tier == "thorough":
        for be in ("gpu", "tpu"):
            add("four-wide", be, "2x2", 4, [0, 2, 3, 4], [[], [5]], False, depth=1)
            add("four", be, "one-bucket4", 4, [0, 1, 2, 3], [[], [5]], False, depth=1)
            add("deep", be, "4x2", 3, [0, 1, 2, 3], [[], [8], [5, 6, 7]], True, depth=2)
            add("three-masked", be, "2x2", 3, [0, 1, 2, 3], [[], [4], [4, 5]], True, depth=2)
        add("three", "gpu", "one-bucket4", 3, [0, 1, 2, 3], [[], [4]], True, relaxed=True, depth=1)
    return out


def schedules(job, backend, table, L, ids, fills, masks, relaxed, depth):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from xtructure import HashTable

    from mc import pallas_emu as E
    from mc.seqlib import cls_of
    from mc.tablelib import Alphabet, Refusals, decode, judge_batch, tree

    cls, cap, b, probes, al, seed = T[table]
    C = cls_of(cls)
    A = Alphabet(C, seed, *al[:3], default=bool(al[3]))
    label = f"HashTable({cls}, seed={seed}, capacity={cap}, bucket_size={b}, multiplier=1, max_probes={probes}) on {backend}"
    keys = tree(jnp.asarray, A.keys)
    t0 = HashTable.build(C, seed, cap, b, 1, probes)
    # the first start state is also filled by one batch on the CPU path and continued on the accelerator
    moved = None
    if fills[0]:
        moved = t0.parallel_insert(tree(lambda l: l[np.array(fills[0])], keys))
    jax.clear_caches()
    E.install(backend)
    ref = Refusals(job, cap, probes if probes is not None else 1 << 62)
    st = E.Stats()

    pins = jax.jit(lambda t, i, f: t.parallel_insert(tree(lambda l: l[i], keys), f))

    @jax.jit
    def look(t):
        ix, found = t.lookup_parallel(keys)
        return t.size, ix.index, found, t[ix]

    @jax.jit
    def fill_up(t):
        def body(t, k):
            t, ok, ix = t.insert(tree(lambda l: l[k], keys))
            return t, (ok, ix.index)
        t, r = jax.lax.scan(body, t, jnp.arange(A.n))
        ix, found = t.lookup_parallel(keys)
        return r, (ix.index, found), t[ix], t.size

    def check_lookups(m, pos, found, content):
        have = dict(m)
        pos, found, content = np.asarray(pos).tolist(), np.asarray(found).tolist(), decode(A, content)
        for k in range(A.n):
            if found[k] != (k in have) or (k in have and (pos[k] != have[k] or content[k] != k)):
                return (f"lookup of key {k}: found={found[k]} position {pos[k]} holding {content[k]}, expected "
                        f"{'position %d' % have[k] if k in have else 'not found'}")
        return None

    done = set()

    def aftermath(t, m, where):
        """Single insertions of every key until the table is full; everything found afterwards."""
        fp = (m, b"".join(np.asarray(l).tobytes() for l in jax.tree_util.tree_leaves(t)))
        if fp in done:
            return
        done.add(fp)
        (ok, pos), (lp, lf), content, size = fill_up(t)
        ok, pos = np.asarray(ok).tolist(), np.asarray(pos).tolist()
        have = dict(m)
        for k in range(A.n):
            if k in have:
                job.expect(not ok[k] and pos[k] == have[k], f"{where}: then insert of the stored key {k} gives inserted={ok[k]} position {pos[k]}, stored at {have[k]}")
            elif ok[k]:
                job.expect(pos[k] not in have.values(), f"{where}: then inserting key {k} puts it at the occupied position {pos[k]} ({have})")
                have[k] = pos[k]
                ref.stored(k, pos[k])
            else:
                msg = ref.note(k, have.values(), where + " and single insertions")
                job.expect(not msg, lambda: f"{where}: then inserting key {k}: {msg}")
        msg = check_lookups(tuple(have.items()), lp, lf, content)
        job.expect(not msg and int(size) == len(have), f"{where}, then filling the table: {msg}, size {int(size)} of {len(have)}")
        job.count("tables_followed_up")

    # start states: filled one by one (odd) or by sequentially judged concurrent batches (even)
    frontier = []
    for n, fill in enumerate(fills):
        t, m = t0, {}
        if n % 2 == 0 and len(fill) >= L:
            cut = len(fill) - len(fill) % L
            for i in range(0, cut, L):
                (t, ins, uniq, ix), _ = next(iter(E.explore(lambda: pins(t, np.array(fill[i:i + L], np.int32), np.ones(L, bool)), st)))
                for j in range(L):
                    if bool(ins[j]):
                        m[fill[i + j]] = int(ix.index[j])
            fill = fill[cut:]
        for k in fill:
            t, ok, ix = t.insert(tree(lambda l: l[k], keys))
            if bool(ok):
                m[k] = int(ix.index)
        frontier.append((t, tuple(sorted(m.items())), f"{label} holding {tuple(sorted(m.items()))}"))
    if moved:
        t, ins, uniq, ix = moved
        m = {k: int(ix.index[j]) for j, k in enumerate(fills[0]) if bool(ins[j])}
        frontier.append((t, tuple(sorted(m.items())), f"{label} holding {tuple(sorted(m.items()))}, filled on CPU"))
    menu_masks = list(itertools.product((True, False), repeat=L)) if masks else [(True,) * L]
    seen = set()
    for d in range(depth):
        nxt = []
        for t, m, where in frontier:
            for batch in itertools.product(ids, repeat=L):
                if d and not any(k not in dict(m) for k in batch):
                    continue
                for mask in (menu_masks if d == 0 else menu_masks[:1]):
                    n_out = 0
                    for (t2, ins, uniq, ix), sched in E.explore(
                            lambda: pins(t, np.array(batch, np.int32), np.array(mask)), st, relaxed):
                        n_out += 1
                        w = f"{where}: parallel_insert(keys {batch}, filled {mask}), schedule outcome {sched}"
                        m2, msg = judge_batch(A, m, batch, mask, None, (ins, uniq, ix.index, t2.size), ref, lambda: w)
                        job.expect(not msg, f"{w}: {msg}", {"batch": batch, "mask": mask, "model": m, "schedule": sched})
                        job.count("executions")
                        if msg:
                            continue
                        size, lp, lf, content = look(t2)
                        msg = check_lookups(m2, lp, lf, content)
                        job.expect(not msg, f"{w}: {msg}", {"batch": batch, "mask": mask, "model": m, "schedule": sched})
                        if len(m2) > len(m):
                            job.outcome((m, batch, mask, m2))
                        fp = (m2, b"".join(np.asarray(l).tobytes() for l in jax.tree_util.tree_leaves(t2)))
                        if fp not in seen:
                            seen.add(fp)
                            aftermath(t2, m2, w)
                            nxt.append((t2, m2, w))
                    job.count("batches")
            job.progress(where)
        frontier = nxt
    ref.finish(label)
    job.count("states", st.states)
    job.count("transitions", st.transitions)
    job.count("kernel_launches", st.kernels)
    job.count("traces_validated_against_impl", job.counts.get("executions", 0))
    job.info["most_outcomes_of_one_launch"] = st.max_outcomes
    if st.capped:
        job.exhaustive = False
    expects_kernel = table not in ("probes", "bucket33")
    job.info["kernel_used"] = st.kernels > 0
    job.sample({"harness": label, "starts": len(fills), "kernel launches": st.kernels, "expected on kernel path": expects_kernel})
