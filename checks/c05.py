"""C05: batch insertion reports exactly one representative per distinct key.

Complete enumeration of batches: every tuple of keys over a small alphabet
(with keys of equal hash and the default record), every validity mask and every
cost pattern, applied by the real parallel_insert to tables in several fill
states; each result (representatives, insertions, positions, and what lookups
say afterwards) is compared with a reference implementation of the contract.
"""
from __future__ import annotations

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from mc.seqlib import cls_of
from mc.tablelib import Alphabet, Refusals, decode, judge_batch, tree

LEVEL = "model_checking"
RULE = ("a state is a table in one of the listed fill states; a transition is parallel_insert of one (keys, validity, cost) "
        "batch, all combinations within the stated length and domains")
ASSUMPTIONS = [
    "costs are not NaN; keys contain no NaN and no negative zero",
    "the position reported for invalid entries and refused keys is unspecified",
]

INF = float("inf")
COSTS = {
    "none": None,
    "float32": (np.float32, [0.0, 1.0, INF]),
    "float32neg": (np.float32, [-INF, -1.0, 0.0]),
    "float16": (np.float16, [0.5, 65504.0, INF]),
    "int32": (np.int32, [(1 << 24) + 1, 1 << 24, 2**31 - 1]),
    "int32b": (np.int32, [-2**31, -1, 0]),
    "uint32": (np.uint32, [0, 2**32 - 1, 2**32 - 2]),
    "uint8": (np.uint8, [255, 0, 254]),
    "float64": (np.float64, [1.0, 1.0 + 2.0 ** -40, INF]),
    "int64": (np.int64, [1 << 32, (1 << 32) + 1]),
    "float2": (np.float32, [1.0, 0.0]),
    "int2": (np.int32, [16777217, 16777216]),
}
# class, capacity, bucket, max_probes, alphabet (pairs, triples, singles, default), seed
T = {
    "roomy": ("Pair", 16, 4, None, (1, 0, 1, 1), 42),
    "tight": ("Pair", 4, 1, None, (0, 1, 2, 1), 7),
    "bucket2": ("Vec", 4, 2, None, (1, 0, 2, 1), 3),
    "probes": ("Pair", 4, 1, 2, (1, 0, 3, 0), 11),
    "wide": ("Wide", 8, 2, None, (1, 0, 0, 1), 5),
    "nested": ("Nest2", 8, 40, None, (0, 0, 3, 1), 9),
    # equal hashes among keys that agree in all but two words
    "tri": ("Tri", 8, 2, None, (0, 0, 0, 0, [[0], [1], [2]]), 21),
    "parts": ("Parts", 8, 4, None, (0, 0, 0, 1, [[0, 8, 9], [0, 1, 2, 3, 4, 5, 6, 7], [1, 2, 3, 4, 5, 6, 7]]), 22),
    "wide2": ("Wide", 8, 4, None, (0, 0, 0, 0, [list(range(10)), list(range(2, 12)), list(range(1, 11))]), 23),
    "long": ("Long", 8, 2, None, (2, 0, 0, 1), 19),
    "hole": ("Hole", 4, 2, None, (0, 0, 3, 1), 13),
    "byte": ("Byte", 4, 4, None, (0, 0, 3, 1), 1),
}


def jobs(tier):
    # table, ids used per batch position, length, cost kinds, fill states (ids inserted before)
    E = [
        ("roomy", [0, 1, 2, 3], 3, ["float32", "int32"], [(), (0, 2)]),
        ("roomy", [0, 1, 2], 4, ["float2"], [(), (1,)]),
        ("roomy", [0, 1, 3], 5, ["none"], [(), (3, 0)]),
        ("bucket2", [0, 1, 2, 4], 3, ["uint32", "float32neg"], [(), (0, 2)]),
        ("bucket2", [0, 1, 2, 3, 4], 4, ["none"], [(), (1,), (2, 3), (3, 0, 4)]),
        ("tight", [0, 1, 2, 3, 4], 4, ["none"], [(), (5,), (3, 4), (1, 3, 5)]),
        ("tight", [0, 1, 2, 5], 3, ["int32b"], [(), (3, 4, 5)]),
        ("probes", [0, 1, 2, 3, 4], 4, ["none"], [(), (2,), (0, 3)]),
        ("wide", [0, 1, 3, 4], 4, ["none"], [(), (3,)]),
        ("wide", [0, 1, 3, 4], 3, ["float16"], [(), (0,)]),
        ("nested", [0, 1, 3], 3, ["uint8"], [(), (1,)]),
        ("tri", [0, 1, 2, 3, 4, 5], 3, ["none"], [(), (1,), (2, 4)]),
        ("parts", [0, 1, 2, 3, 4, 5, 6], 3, ["none"], [(), (0, 3)]),
        ("wide2", [0, 1, 2, 3, 4, 5], 3, ["none"], [(), (1, 2, 5)]),
        ("hole", [0, 1, 2, 3], 3, ["float2"], [(), (0,)]),
        ("byte", [0, 1, 2, 3], 4, ["none"], [(), (0,), (1, 2, 3)]),
    ]
    if tier == "thorough":
        E += [
            ("roomy", [0, 1, 2], 4, ["float32", "int32"], [(), (0,)]),
            ("tight", [0, 1, 2, 3, 4, 5], 5, ["none"], [(), (5,)]),
            ("bucket2", [0, 1, 2, 3], 5, ["int2"], [(), (1, 2)]),
            ("wide", [0, 1, 2, 3, 4], 5, ["none"], [(), (3,)]),
            ("probes", [0, 1, 2, 3, 4], 5, ["none"], [(), (2,), (0, 3)]),
            ("roomy", [0, 1, 2], 5, ["float2"], [()]),
        ]
    out = []
    for t, ids, L, costs, fills in E:
        for c in costs:
            out.append({"name": f"{t}-len{L}-{len(ids)}keys-cost-{c}", "fn": "enumerate_batches",
                        "cost": len(ids) ** L * (1 << L) * (1 if c == "none" else len(COSTS[c][1]) ** L) * len(fills),
                        "args": dict(table=t, ids=ids, L=L, cost=c, fills=[list(f) for f in fills])})
    for t, ids, L, c, fills in [("long", [0, 1, 2, 4], 3, "float64", [(), (0, 2)]), ("long", [0, 1, 2, 3, 4], 3, "int64", [(), (1,)]), ("wide", [0, 1, 3, 4], 4, "none", [(), (3,)])]:
        out.append({"name": f"{t}-len{L}-{len(ids)}keys-cost-{c}-x64", "fn": "enumerate_batches", "cost": 100000, "env": {"JAX_ENABLE_X64": "1"},
                    "args": dict(table=t, ids=ids, L=L, cost=c, fills=[list(f) for f in fills])})
    for t in ("tight", "bucket2", "wide", "tri", "wide2"):
        out.append({"name": f"{t}-permutations", "fn": "permuted", "cost": 30000, "args": dict(table=t)})
    for L in ([0, 1, 40], [2, 17], [3, 7, 16]):
        out.append({"name": f"argument-forms-{L[0]}", "fn": "forms", "cost": 200000, "args": {"lengths": L}})
    return out


def setup(table):
    from xtructure import HashTable

    cls, cap, b, probes, al, seed = T[table]
    C = cls_of(cls)
    A = Alphabet(C, seed, *al[:3], default=bool(al[3]), sig_twins=table == "wide", agree=al[4] if len(al) > 4 else ())
    t = HashTable.build(C, seed, cap, b, 1, probes)
    return A, t, cap, probes, f"HashTable({cls}, seed={seed}, capacity={cap}, bucket_size={b}, max_probes={probes}, multiplier=1)"


def prefill(job, A, t, fill, ref, label):
    m = {}
    for k in fill:
        t, ok, ix = t.insert(tree(lambda l: jnp.asarray(l[k]), A.keys))
        if bool(ok):
            m[k] = int(ix.index)
            ref.stored(k, m[k])
    job.expect(len(set(m.values())) == len(m), f"{label}: single insertions share positions {m}")
    return t, tuple(sorted(m.items()))


def run_rows(job, A, t, model, rows_, costs, ref, label, chunk=512, direct=3):
    """rows_: list of (ids, mask, cost tuple or None)."""
    keys = tree(jnp.asarray, A.keys)

    def one(t, ids, mask, cost):
        batch = tree(lambda l: l[ids], keys)
        t2, ins, uniq, ix = t.parallel_insert(batch, mask, cost)
        i2, found = t2.lookup_parallel(keys)
        return (ins, uniq, ix.index, t2.size), (i2.index, found), t2[i2]

    f = jax.jit(jax.vmap(one, in_axes=(None, 0, 0, None if costs is None else 0)))
    dt = None if costs is None else costs[0]

    def judge(row, o):
        ids, mask, cost = row
        res, (pos, found), content = o
        m2, msg = judge_batch(A, model, ids, mask, cost, res, ref,
                              lambda: f"batch keys {ids} valid {mask} cost {cost} on {model}")
        if msg:
            return msg
        have = dict(m2)
        if len(have) > len(model):
            job.outcome((m2, tuple(np.asarray(res[1]).tolist())))
        pos, found = np.asarray(pos), np.asarray(found)
        for k in range(A.n):
            if bool(found[k]) != (k in have) or (k in have and pos[k] != have[k]):
                return (f"afterwards lookup of key {k} gives found={bool(found[k])} position {int(pos[k])}, expected "
                        f"{'position %d' % have[k] if k in have else 'not found'}")
        return content, have

    def arrays(part):
        ids = np.array([r[0] for r in part], np.int32)
        mask = np.array([r[1] for r in part], bool)
        cost = None if dt is None else np.array([r[2] for r in part], dt)
        return ids, mask, cost

    dec = {}
    for i in range(0, len(rows_), chunk):
        part = rows_[i:i + chunk]
        full = part + [part[0]] * (chunk - len(part))
        o = tree(np.asarray, f(t, *arrays(full)))
        content = [np.ascontiguousarray(l).reshape(chunk, A.n, -1) for l in jax.tree_util.tree_leaves(o[2])]
        want = [np.ascontiguousarray(l).reshape(A.n, -1) for l in jax.tree_util.tree_leaves(A.keys)]
        same = np.all([(c == w).all(-1) for c, w in zip(content, want)], axis=0)
        for j, row in enumerate(part):
            r = judge(row, (tuple(x[j] for x in o[0]), (o[1][0][j], o[1][1][j]), same[j]))
            if not isinstance(r, str):
                bad = [k for k in r[1] if not r[0][k]]
                r = f"the position of key(s) {bad} holds another record" if bad else None
            if r:
                job.violation(f"{label} holding {model}, alphabet with equal hashes {A.groups}: parallel_insert(keys {row[0]}, "
                              f"filled {row[1]}, unique_key {row[2]}{'' if dt is None else ' ' + np.dtype(dt).name}): {r}",
                              {"row": row, "model": model})
        job.count("transitions", len(part))
        job.progress(f"{label} row {i}")
    # the same calls, unbatched, outside jit/vmap
    for j in sorted({int(k * (len(rows_) - 1) / max(1, direct - 1)) for k in range(direct)}) if rows_ else []:
        row = rows_[j]
        ids, mask, cost = arrays([row])
        batch = tree(lambda l: jnp.asarray(l[ids[0]]), A.keys)
        t2, ins, uniq, ix = t.parallel_insert(batch, jnp.asarray(mask[0]), None if cost is None else jnp.asarray(cost[0]))
        i2, found = t2.lookup_parallel(keys)
        got = decode(A, t2[i2])
        r = judge(row, ((ins, uniq, ix.index, t2.size), (i2.index, found), None))
        if not isinstance(r, str):
            bad = [k for k in r[1] if got[k] != k]
            r = f"the position of key(s) {bad} holds another record" if bad else None
        job.expect(not r, f"{label} holding {model}: direct parallel_insert(keys {row[0]}, filled {row[1]}, unique_key {row[2]}): {r}")
        job.count("traces_validated_against_impl")


def enumerate_batches(job, table, ids, L, cost, fills):
    A, t0, cap, probes, label = setup(table)
    costs = COSTS[cost]
    cs = [None] if costs is None else list(itertools.product(costs[1], repeat=L))
    rows_ = [(k, m, c) for k in itertools.product(ids, repeat=L) for m in itertools.product((True, False), repeat=L)
             for c in cs]
    ref = Refusals(job, cap, probes if probes is not None else 1 << 62)
    for fill in fills:
        t, model = prefill(job, A, t0, fill, ref, label)
        job.count("states")
        run_rows(job, A, t, model, rows_, costs, ref, label)
    ref.finish(label)
    job.sample({"harness": label, "batches": len(rows_), "one": repr(rows_[len(rows_) // 2])})


def permuted(job, table):
    """All orders of all keys at once (every in-batch slot conflict), on several fill states."""
    A, t0, cap, probes, label = setup(table)
    n = min(A.n, 6)
    ref = Refusals(job, cap, probes if probes is not None else 1 << 62)
    rows_ = [(p, tuple(i not in drop for i in range(n)), None) for p in itertools.permutations(range(n))
             for drop in [()] + [(i,) for i in range(n)]]
    for fill in ((), (n - 1,), (0, 1), tuple(range(n))):
        t, model = prefill(job, A, t0, fill, ref, label)
        job.count("states")
        run_rows(job, A, t, model, rows_, None, ref, label)
    ref.finish(label)
    job.sample({"harness": label, "orders": len(rows_)})


def forms(job, lengths):
    """Omitted/scalar masks and costs, and batch lengths from 0 to 40."""
    A, t0, cap, probes, label = setup("roomy")
    keys = tree(jnp.asarray, A.keys)
    for L in lengths:
        for start in ((), (0,)):
            ref = Refusals(job, cap, 1 << 62)
            t, model = prefill(job, A, t0, start, ref, label)
            job.count("states")
            for r in range(4):
                ids = tuple((i * (2 * r + 1) + r) % A.n for i in range(L))
                batch = tree(lambda l: l[np.array(ids, np.int32)], keys)
                for fname, filled, mask in (("omitted", None, (True,) * L), ("True", True, (True,) * L),
                                            ("False", False, (False,) * L), ("jnp True", jnp.bool_(True), (True,) * L),
                                            ("all", jnp.ones(L, bool), (True,) * L),
                                            ("every third off", jnp.arange(L) % 3 != 1, tuple(i % 3 != 1 for i in range(L)))):
                    for cname, cost, cl in (("omitted", None, None), ("scalar", jnp.float32(3.0), (3.0,) * L),
                                            ("descending", -jnp.arange(L, dtype=jnp.float32), tuple(-float(i) for i in range(L)))):
                        t2, ins, uniq, ix = t.parallel_insert(batch, filled, cost)
                        _, msg = judge_batch(A, model, ids, mask, cl, (ins, uniq, ix.index, t2.size), ref, lambda: "")
                        job.expect(not msg, f"{label} holding {model}: parallel_insert(keys {ids}, filled {fname}, unique_key {cname}): {msg}")
                        job.count("transitions")
                        job.count("traces_validated_against_impl")
                        job.outcome((L, r, fname, cname))
            job.progress(f"forms L={L}")
