"""C04: the hash table is an exact set with stable slots, whatever collides.

Explicit-state search over the real HashTable: every order of single and
batched insertions of a small key alphabet, from empty to completely full, for
tables of many shapes.  The alphabet contains keys whose full hashes are equal
(found by a birthday search through the public hash method) and the class's
default value, which is what empty slots hold.  In every state every key is
looked up one by one, in a batch and in a masked batch.
"""
from __future__ import annotations

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from mc.bfs import Op, Search
from mc.seqlib import cls_of, pick
from mc.tablelib import Alphabet, Refusals, judge_batch, probe_compare, probe_impl, tree

LEVEL = "model_checking"
RULE = ("a state is the table's complete storage, fingerprints, fill counters and occupancy bits plus the model's "
        "key->position map; transitions are insert of every key and parallel_insert of every batch in the alphabet")
ASSUMPTIONS = [
    "keys contain no NaN and no negative zero (equality of such floats differs from bit equality)",
    "the position returned for a key that is not present, and for a refused insertion, is unspecified",
]


def jobs(tier):
    # class, capacity, bucket, multiplier, max_probes, alphabet (pairs, triples, singles, default), table seed
    S = [
        ("Pair", 4, 1, 1, None, (1, 0, 3, 1), 42),
        ("Pair", 4, 2, 1, None, (1, 1, 1, 1), 7),
        ("Vec", 4, 4, 1, None, (2, 0, 1, 1), 1),
        ("Pair", 8, 2, 1, 3, (2, 0, 3, 1), 42),
        ("Wide", 4, 1, 1, 2, (2, 0, 2, 1), 3),
        ("Mixed", 3, 3, 2, None, (1, 0, 3, 1), 0),
        ("Pair", 8, 1, 1, 2, (1, 0, 5, 1), 5),
        ("Scalar", 2, 2, 1, None, (0, 0, 3, 1), 9),
        ("Byte", 1, 1, 1, None, (0, 0, 3, 1), 123456789),
        ("Nest2", 4, 8, 2, None, (0, 0, 4, 1), 11),
        ("Vec", 6, 4, 1, 5, (1, 0, 4, 0), 2),
        ("Hole", 4, 2, 1, None, (0, 0, 4, 1), 6),
        # keys of equal hash that agree in all but two words
        ("Tri", 4, 4, 1, None, (0, 0, 0, 0, [[0], [1], [2]]), 21),
        ("Parts", 4, 2, 1, None, (0, 0, 0, 1, [[0, 8, 9], list(range(8)), list(range(1, 8))]), 22),
        ("Wide", 4, 8, 1, None, (0, 0, 0, 0, [list(range(10)), list(range(2, 12)), list(range(1, 11))]), 23),
    ]
    # wide buckets and large tables, prefilled to just below a boundary
    P = [("Pair", 32, 32, 1, None, 29), ("Pair", 33, 33, 1, None, 30), ("Pair", 256, 256, 1, None, 253),
         ("Scalar", 600, 300, 1, None, 597), ("Pair", 1024, 8, 1, None, 1021), ("Vec", 64, 8, 1, 20, 55)]
    if tier == "thorough":
        S += [("Pair", 8, 2, 1, None, (2, 1, 1, 1), 42), ("Vec", 8, 1, 1, None, (2, 0, 3, 1), 8),
              ("Pair", 8, 8, 1, None, (1, 1, 2, 1), 4), ("Pair", 8, 1, 1, 3, (2, 0, 3, 1), 12),
              ("Nest2", 8, 4, 1, 4, (0, 0, 7, 1), 6), ("Pair", 4, 16, 2, None, (2, 1, 1, 1), 77),
              ("Wide", 8, 2, 1, 4, (2, 0, 3, 1), 15)]
        P += [("Pair", 4096, 2, 1, None, 4092), ("Vec", 65536, 256, 1, None, 65532), ("Pair", 512, 256, 1, 256, 400),
              ("Scalar", 70000, 70000, 1, None, 69997)]
    out = []
    for cls, cap, b, mult, mp, al, seed in S:
        out.append({"name": f"{cls}-cap{cap}-bucket{b}-x{mult}-probes{mp}-seed{seed}", "fn": "explore", "cost": sum(al[:4]) + 2 * len(al[4:]),
                    "args": dict(cls=cls, cap=cap, bucket=b, mult=mult, probes=mp, alpha=list(al), tseed=seed)})
    for cls, cap, b, mult, mp, al, seed in [("Long", 4, 2, 1, None, (2, 0, 1, 1), 17), ("Mixed", 3, 3, 2, None, (1, 0, 3, 1), 0)]:
        out.append({"name": f"{cls}-cap{cap}-bucket{b}-x64", "fn": "explore", "cost": sum(al[:4]), "env": {"JAX_ENABLE_X64": "1"},
                    "args": dict(cls=cls, cap=cap, bucket=b, mult=mult, probes=mp, alpha=list(al), tseed=seed)})
    for cls, cap, b, mult, mp, fill in P:
        out.append({"name": f"{cls}-cap{cap}-bucket{b}-probes{mp}-from{fill}", "fn": "prefilled", "cost": 6,
                    "args": dict(cls=cls, cap=cap, bucket=b, mult=mult, probes=mp, fill=fill, tseed=31)})
    # the class's default record, which fills the empty slots, is itself one of three keys of equal hash
    for cap, b in ((4, 4), (6, 8)):
        out.append({"name": f"home-Pair-cap{cap}-bucket{b}", "fn": "explore", "cost": 6,
                    "args": dict(cls="Pair", cap=cap, bucket=b, mult=1, probes=None, alpha=[0, 1, 1, 0], tseed=19, home=True)})
    for b in (1, 2, 3, 8, 16):
        out.append({"name": f"build-shapes-bucket{b}", "fn": "shapes", "cost": 5, "args": {"bucket": b}})
    return out


def explore(job, cls, cap, bucket, mult, probes, alpha, tseed, home=False):
    from xtructure import HashTable

    C = cls_of(cls)
    A = Alphabet(C, tseed, *alpha[:3], default=bool(alpha[3]), agree=alpha[4] if len(alpha) > 4 else ())
    if home:
        C, cls = A.rehome(), f"{cls} with the first key as default"
    t0 = HashTable.build(C, tseed, cap, bucket, mult, probes)
    search(job, A, t0, (), cap, probes, f"HashTable({cls}, seed={tseed}, capacity={cap}, bucket_size={bucket}, "
                                        f"multiplier={mult}, max_probes={probes}), equal hashes {A.groups}")


def search(job, A, t0, model0, cap, probes, label, batches=True, depth=None, direct=None):
    ref = Refusals(job, cap, probes if probes is not None else 1 << 62)
    for k, p in model0:
        ref.stored(k, p)
    n = A.n
    mask = np.array([k % 3 != 1 for k in range(n)])

    def ins_step(m, k, o):
        inserted, pos, size = bool(o[0]), int(o[1]), int(o[2])
        have = dict(m)
        if k in have:
            if inserted:
                return None, f"key {k} reported inserted although it is present"
            if pos != have[k]:
                return None, f"insert of the present key {k} gives position {pos}, it is stored at {have[k]}"
        elif inserted:
            if pos in have.values():
                return None, f"key {k} got position {pos}, which holds another key"
            have[k] = pos
            ref.stored(k, pos)
        else:
            msg = ref.note(k, have.values(), f"a state holding {m}")
            if msg:
                return None, msg
        if size != len(have):
            return None, f"size is {size}, {len(have)} distinct keys are stored"
        job.outcome((inserted, len(have)))
        return tuple(sorted(have.items())), None

    def ins_impl(t, k):
        t2, ins, ix = t.insert(k)
        return t2, (ins, ix.index, t2.size)

    one = [(f"key {k}", tree(lambda l: l[k], A.keys), k) for k in range(n)]
    ops = [Op("insert", ins_impl, lambda m: one, ins_step, observing=True)]
    if batches:
        L = 3
        menu = []
        for ids in itertools.combinations_with_replacement(range(n), L):
            # one order of each multiset, rotated so that all relative orders occur
            r = sum(ids) % L
            ids = ids[r:] + ids[:r]
            menu.append((ids, (True,) * L))
        menu += [((a, b, a), (False, True, True)) for a in range(0, n, 2) for b in range(1, n, 2)]
        acts = [(f"keys {i} valid {f}", (A.take(i), np.array(f)), (i, f)) for i, f in menu]

        def pins(t, a):
            t2, ins, uniq, ix = t.parallel_insert(a[0], a[1])
            return t2, (ins, uniq, ix.index, t2.size)

        def pstep(m, a, o):
            return judge_batch(A, m, a[0], a[1], None, o, ref, lambda: f"a batch {a} on a table holding {m}")

        ops.append(Op("parallel_insert", pins, lambda m: acts, pstep, observing=True))

    s = Search(job, ops, chunk=128, invariant=(probe_impl(A, mask), probe_compare(A, mask)), label=label, max_depth=depth)
    s.run([(t0, model0)])
    ref.finish(label)
    job.sample({"harness": label, "history": s.trace(len(s.states) - 1)})
    s.replay_direct(pick(range(len(s.states)), direct or (20 if job.thorough else 5)), t0, model0)
    return s


def prefilled(job, cls, cap, bucket, mult, probes, fill, tseed):
    """Fills a table with batched insertions (checking every one), then searches on from there."""
    from xtructure import HashTable

    C = cls_of(cls)
    extra = 5
    A = Alphabet(C, tseed, singles=fill + extra)
    t = HashTable.build(C, tseed, cap, bucket, mult, probes)
    label = f"HashTable({cls}, capacity={cap}, bucket_size={bucket}, max_probes={probes})"
    model = {}
    step = max(1, fill // 3)
    for i in range(0, fill, step):
        ids = list(range(i, min(i + step, fill)))
        if i + step >= fill:
            for k in ids:  # the last third one by one
                t, ins, ix = t.insert(tree(lambda l: jnp.asarray(l[k]), A.keys))
                if bool(ins):
                    job.expect(int(ix.index) not in model.values(), f"{label}: key {k} got an occupied position")
                    model[k] = int(ix.index)
                else:
                    job.expect(probes is not None and len(model) >= min(probes, cap), f"{label}: key {k} refused with {len(model)} stored")
                job.count("transitions")
        else:
            t, ins, uniq, ix = t.parallel_insert(tree(jnp.asarray, A.take(ids)))
            ins, pos = np.asarray(ins), np.asarray(ix.index)
            job.expect(bool(np.asarray(uniq).all()), f"{label}: distinct keys not all representatives")
            ok = len(set(pos[ins].tolist())) == ins.sum() and not set(pos[ins].tolist()) & set(model.values())
            job.expect(ok, f"{label}: positions of a batch are shared")
            job.expect(ins.all() or (probes is not None and len(model) + ins.sum() >= min(probes, cap)), f"{label}: keys refused below capacity")
            for k in np.nonzero(ins)[0]:
                model[ids[k]] = int(pos[k])
            job.count("transitions")
        job.count("states")
    # everything is still where it was reported
    ix, found = t.lookup_parallel(tree(jnp.asarray, A.keys))
    ix, found = np.asarray(ix.index).tolist(), np.asarray(found).tolist()
    for k in range(A.n):
        job.expect(found[k] == (k in model) and (k not in model or ix[k] == model[k]),
                   f"{label}: after filling, lookup of key {k} gives {found[k]} at {ix[k]}, expected {model.get(k)}")
    job.progress("filled")
    # explore the last slots with the unused keys and one stored key; a small alphabet view
    keep = list(range(fill, fill + extra)) + [0, fill - 1]
    B = Alphabet.__new__(Alphabet)
    B.C, B.n, B.keys, B.groups = C, len(keep), A.take(keep), []
    from mc.tablelib import key_bytes
    B.by_bytes = {x: i for i, x in enumerate(key_bytes(B.keys))}
    hidden = {k: p for k, p in model.items() if k not in keep}
    # hidden keys take part in the model under ids >= B.n, so sizes and positions stay comparable
    m0 = tuple(sorted([(keep.index(k), p) for k, p in model.items() if k in keep] +
                      [(B.n + j, p) for j, (k, p) in enumerate(sorted(hidden.items()))]))
    search(job, B, t, m0, cap, probes, f"{label} holding {len(model)} keys", batches=bucket <= 64 and fill < 100, direct=3,
           depth=None if cap < 2000 else 4)


def shapes(job, bucket):
    """Every capacity/bucket/multiplier in the grid can hold at least its capacity, one by one and in a batch."""
    from xtructure import HashTable

    C = cls_of("Scalar")
    grid = [(cap, b, m) for cap in ((1, 2, 3, 5, 8, 12) if not job.thorough else (1, 2, 3, 4, 5, 7, 8, 9, 12, 17))
            for b in (bucket,) for m in ((1, 2) if not job.thorough else (1, 2, 3, 0.5))]
    for cap, b, m in grid:
        A = Alphabet(C, 5, singles=cap)
        t = HashTable.build(C, 5, cap, b, m)
        keys = tree(jnp.asarray, A.keys)
        t2, ins, uniq, ix = t.parallel_insert(keys)
        pos = np.asarray(ix.index).tolist()
        where = f"HashTable(Scalar, capacity={cap}, bucket_size={b}, multiplier={m})"
        job.expect(bool(np.asarray(ins).all()) and len(set(pos)) == cap and int(t2.size) == cap,
                   f"{where}: batch of {cap} distinct keys: inserted {np.asarray(ins).tolist()}, positions {pos}, size {int(t2.size)}")
        t1 = t
        got = []
        for k in range(cap):
            t1, ok, i1 = t1.insert(tree(lambda l: l[k], keys))
            got.append((bool(ok), int(i1.index)))
        job.expect(all(g[0] for g in got) and len({g[1] for g in got}) == cap and int(t1.size) == cap,
                   f"{where}: inserting {cap} distinct keys one by one gives {got}")
        for name, tt, p in (("batch", t2, pos), ("single", t1, [g[1] for g in got])):
            ix, found = tt.lookup_parallel(keys)
            job.expect(bool(np.asarray(found).all()) and np.asarray(ix.index).tolist() == p,
                       f"{where}: lookup after {name} insertion: {np.asarray(found).tolist()} {np.asarray(ix.index).tolist()} vs {p}")
        job.count("states", 2)
        job.count("transitions", cap + 1)
        job.count("traces_validated_against_impl", 2)
        job.outcome((cap, b, m))
        job.progress(where)
