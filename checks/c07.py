"""C07: performance settings never change results.

The product of all tuning settings and an exhaustive menu of histories: every
history is executed by a fresh process per setting (settings are read when the
library is imported) and every observable output is compared with the run under
the default settings.  Beside this lockstep comparison, the model-based searches
of C03 and C05 run under the settings that replace their algorithms.
"""
from __future__ import annotations

import itertools
import os
import subprocess
import sys

import jax
import jax.numpy as jnp
import numpy as np

LEVEL = "exploration"
RULE = ("an evaluation is one (setting, history) pair whose complete observable output is compared with the default run; histories "
        "are all operation sequences of the stated length over the menu; non-trivial = distinct observable outputs")
ASSUMPTIONS = [
    "accelerator kernels selected by a setting are executed by JAX's Pallas interpreter on the CPU",
    "the probe bucket limit of the Pallas insertion is a capacity setting, not a performance setting, and is not varied",
    "the approximate mode is exercised with keys whose signatures differ",
]

G, C = "gpu", "cpu"
MB, VB = "XTRUCTURE_BGPQ_MERGE_BACKEND", "XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND"
RO, ST = "XTRUCTURE_BGPQ_VALUE_REORDER", "XTRUCTURE_BGPQ_SORT_STABLE"
M = "XTRUCTURE_BGPQ_MERGE_"
# (backend to emulate or None, environment)
BGPQ_SETTINGS = [
    (None, {ST: "false"}), (None, {ST: "0", RO: "concat"}), (None, {MB: "xla"}), (None, {MB: "sort", RO: "direct"}),
    (None, {RO: "concat_gather"}), (C, {MB: "parallel"}), (C, {MB: "pallas", M + "BLOCK_SIZE": "1"}),
    (C, {MB: "parallel", M + "BLOCK_SIZE": "3", M + "UNROLL_MAX": "0", RO: "concat"}),
    (C, {MB: "parallel", M + "BLOCK_SIZE": "16", M + "UNROLL_MAX": "1", ST: "off"}),
    (C, {MB: "parallel", M + "NUM_WARPS": "4", M + "NUM_STAGES": "2"}),
    (G, {}), (G, {VB: "on"}), (G, {VB: "off", RO: "concat"}), (G, {VB + "_SORTSPLIT": "kv"}), (G, {VB + "_BUFFER": "parallel"}),
    (G, {VB: "on", VB + "_BUFFER": "off"}), (G, {VB: "auto", M + "VALUE_AUTO_MIN_BATCH": "1"}),
    (G, {VB: "kv_auto", M + "VALUE_AUTO_MIN_BATCH": "3"}), (G, {VB: "kv_parallel", M + "VALUE_PACKING": "pad"}),
    (G, {VB: "on", M + "VALUE_PACKING": "scalar"}), (G, {VB: "on", M + "VALUE_PACKING": "shard"}),
    (G, {VB: "on", M + "VALUE_PACKING": "auto", M + "VALUE_SCALAR_MAX": "1"}), (G, {VB: "on", M + "BLOCK_SIZE": "2", M + "UNROLL_MAX": "0"}),
    (None, {VB: "on"}), (G, {MB: "sort", VB: "on", ST: "false"}),
]
# unrolled kernels are long to compile under emulation: a few settings keep the default unrolling, the others run the loop
for _b, _e in BGPQ_SETTINGS[6:]:
    if _b and _e not in ({}, {VB: "on"}) and len(_e) > 0:
        _e.setdefault(M + "UNROLL_MAX", "0")
DD, SB = "XTRUCTURE_HASHTABLE_DEDUPE_MODE", "XTRUCTURE_HASHTABLE_SORT_BACKEND"
HS, HT, AM = "XTRUCTURE_HASH_STREAM", "XTRUCTURE_HASH_STREAM_THRESHOLD_U32", "XTRUCTURE_HASH_AGG_MODE"
TABLE_SETTINGS = [
    (None, {DD: "exact"}), (None, {DD: "fast"}), (None, {DD: "approx"}), (None, {SB: "lax_unstable"}), (None, {SB: "lax_stable"}),
    (None, {DD: "exact", SB: "lax_unstable"}), (None, {DD: "exact", SB: "lax_stable"}), (None, {DD: "approx", SB: "lax_unstable"}),
    (None, {HS: "on"}), (None, {HS: "off"}), (None, {HS: "auto", HT: "0"}), (None, {HS: "auto", HT: "3", SB: "lax_stable"}),
    (None, {AM: "raw"}), (None, {AM: "auto"}), (None, {AM: "packed"}),
]
PB, PT = "XTRUCTURE_AGG_BITPACK_PACK_BACKEND", "XTRUCTURE_AGG_BITPACK_PACK_WORD_TILE"
PACK_SETTINGS = [
    (None, {PB: "xla"}), (None, {PB: "off"}), (None, {PT: "1"}), (C, {PB: "pallas"}), (C, {PB: "pallas", PT: "1"}), (C, {PB: "pallas", PT: "2"}),
    (C, {PB: "pallas", PT: "3"}), (C, {PB: "pallas", PT: "7"}), (C, {PB: "pallas", PT: "64"}), (C, {PB: "pallas", AM: "packed"}),
    (G, {PB: "auto"}), ("tpu", {PB: "auto"}), (None, {PB: "auto", AM: "packed"}),
]
KINDS = {"queue": BGPQ_SETTINGS, "table": TABLE_SETTINGS, "pack": PACK_SETTINGS}


def jobs(tier):
    out = []
    for kind, per in (("queue", 5), ("table", 5), ("pack", 7)):
        S = KINDS[kind]
        for i in range(0, len(S), per):
            out.append({"name": f"{kind}-settings-{i}-{min(i + per, len(S)) - 1}", "fn": "lockstep", "cost": {"queue": 30, "table": 25, "pack": 9}[kind],
                        "args": {"kind": kind, "ids": list(range(i, min(i + per, len(S))))}})
    # the model-based searches under replaced algorithms
    deep = tier == "thorough"
    for name, backend, env in [("parallel", C, {MB: "parallel"}), ("kv-on", G, {VB: "on"}), ("unstable-concat", None, {ST: "false", RO: "concat"})] + (
            [("kv-shard", G, {VB: "on", M + "VALUE_PACKING": "shard", M + "BLOCK_SIZE": "1"}), ("gpu", G, {}),
             ("parallel-block1", C, {MB: "parallel", M + "BLOCK_SIZE": "1", M + "UNROLL_MAX": "0"})] if deep else []):
        out.append({"name": f"queue-search-{name}", "fn": "queue_search", "cost": 35, "env": env,
                    "args": dict(backend=backend, cls="Mixed" if deep or name == "parallel" else "Pair", total=5, batch=2, nk=2,
                                 depth=5 if not deep else 7, dt="float32", ordered=True, max_states=30000 if not deep else 200000)})
    for env, table, ids, L, cost in [
            ({DD: "exact"}, "wide", [0, 1, 3, 4], 4, "none"), ({SB: "lax_unstable"}, "wide", [0, 1, 3], 4, "none"),
            ({SB: "lax_unstable"}, "roomy", [0, 1, 2], 4, "float2"), ({SB: "lax_stable"}, "roomy", [0, 1, 2], 4, "float2"),
            ({DD: "exact", SB: "lax_unstable"}, "wide", [0, 1, 3], 3, "float2")] + (
            [({DD: "exact"}, "wide", [0, 1, 2, 3, 4], 5, "none"), ({SB: "lax_unstable"}, "tight", [0, 1, 2, 3, 4, 5], 5, "none"),
             ({SB: "lax_stable"}, "wide", [0, 1, 2, 3, 4], 5, "none")] if deep else []):
        out.append({"name": f"batches-{'-'.join(env.values())}-{table}-len{L}-{cost}", "fn": "batch_search", "cost": 22, "env": env,
                    "args": dict(table=table, ids=ids, L=L, cost=cost, fills=[[], [0]])})
    near = [["ZAg0", "ZAg1", "ZAg2"], ["ZAg3", "ZAgI", "ZAgN"], ["ZWide", "ZOdd", "ZNest"]]
    for env in [{AM: "packed"}, {AM: "packed", HS: "on"}, {HS: "on"}, {DD: "exact", SB: "lax_unstable"}] + (
            [{}, {HS: "auto", HT: "3"}, {DD: "exact"}, {SB: "lax_unstable"}, {SB: "lax_stable"}, {AM: "auto"}, {AM: "packed", DD: "exact"}
            ] if deep else []):
        for i, g in enumerate(near):
            if deep or ((AM in env) == (i < 2)):
                out.append({"name": f"near-keys-{'-'.join(env.values())}-{i}", "fn": "near_keys", "cost": 20, "env": env, "args": {"classes": g}})
    return out


def queue_search(job, backend, **args):
    from checks import c03
    from mc import pallas_emu as emu

    if backend:
        emu.install_sequential(backend)
    c03.explore(job, **args)
    job.count("evaluations", job.counts.get("transitions", 0))


def batch_search(job, **args):
    from checks import c05

    c05.enumerate_batches(job, **args)
    job.count("evaluations", job.counts.get("transitions", 0))


def near_keys(job, classes):
    """Under one setting: all ordered pairs among records that differ in one or two bits (and
    some base records), offered as one batch (a, b, a) to an empty table."""
    from xtructure import HashTable
    from mc import zoo
    from mc.tablelib import tree

    for name in classes:
        Z = zoo.ALL[name]
        live, _ = zoo.live_bits(Z)
        base = [frozenset(b) for b in zoo.bases(Z)][:5 if job.thorough else 3]
        sets = list(dict.fromkeys([b for b in base] + [b ^ {p} for b in base[:2] for p in live]))
        raw = np.array([zoo.pattern(Z, s) for s in sets])
        n = len(raw)
        keys = zoo.jn(zoo.from_bits(Z, raw))
        t0 = HashTable.build(Z, 3, 16, 4)

        def one(a, b):
            batch = tree(lambda l: l[jnp.stack([a, b, a])], keys)
            t, ins, uniq, ix = t0.parallel_insert(batch)
            ix2, found = t.lookup_parallel(batch)
            c = (a + b + 1) % n
            _, other = t.lookup(tree(lambda l: l[c], keys))
            got = t[ix2]
            same = jnp.stack([(x == y).reshape(3, -1).all(-1) for x, y in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(batch))]).all(0)
            return t.size, ins, uniq, found & same, other, c

        f = jax.jit(jax.vmap(one))
        pairs = np.array([(i, j) for i in range(n) for j in range(n)])
        chunk = 2048
        for o in range(0, len(pairs), chunk):
            p = pairs[o:o + chunk]
            m = len(p)
            full = np.concatenate([p, np.repeat(p[:1], chunk - m, 0)])
            size, ins, uniq, ok, other, c = (np.asarray(x)[:m] for x in f(jnp.asarray(full[:, 0]), jnp.asarray(full[:, 1])))
            differ = p[:, 0] != p[:, 1]
            # the third entry repeats the first: exactly one of them represents the key
            good = (size == 1 + differ) & (ins.sum(1) == 1 + differ) & (uniq.sum(1) == 1 + differ) & ok.all(1)
            good &= np.where(differ, ins[:, 1] & (ins[:, 0] ^ ins[:, 2]), True)
            good &= other == ((c == p[:, 0]) | (c == p[:, 1]))
            for b in np.nonzero(~good)[0][:2]:
                x, y = (raw[i].tobytes().hex() for i in p[b])
                job.violation(f"{name} records a={x} b={y} offered as (a, b, a) to an empty table: size {int(size[b])}, inserted {ins[b].tolist()}, "
                              f"representatives {uniq[b].tolist()}, found again {ok[b].tolist()}, lookup of record {raw[c[b]].tobytes().hex()} gives "
                              f"{bool(other[b])}", {"class": name, "a": x, "b": y})
            job.count("evaluations", m)
            job.progress(f"{name} {o}")
        job.count("distinct_nontrivial", len(pairs) - n)
        job.outcome((name, n))
    job.sample({"classes": classes, "records of the last": n})


# ---------------------------------------------------------------- histories
def queue_histories(deep, which=None):
    """{name: array}; arrays named *.pairs are multisets (sorted), everything else is compared as it is."""
    from xtructure import BGPQ
    from mc.classes import make
    from mc.seqlib import cls_of

    out = {}
    # class, total, batch, prefilled blocks, length, tied?, key dtype
    H = [("Mixed", 5, 2, 0, 4, False, jnp.float32), ("Scalar", 3, 1, 0, 6, False, jnp.float16), ("Nest2", 16, 2, 5, 3, False, jnp.float32),
         ("Vec", 12, 3, 0, 3, True, jnp.bfloat16), ("Pair", 24, 2, 6, 4, True, jnp.float32)]
    if not deep:
        H = H[:3] + H[4:]
        H = [h for i, h in enumerate(H) if which is None or i in which]
    if deep:
        H = [(c, t, b, p, n + 1, tied, dt) for c, t, b, p, n, tied, dt in H] + [("Scalar", 64, 8, 3, 2, True, jnp.float32), ("Mixed", 40, 20, 0, 2, False, jnp.float16)]
    for cls, total, batch, pre, n, tied, dt in H:
        Z = cls_of(cls)
        vals = {1: [(), (0,), (1,), (2,)], 2: [(), (0,), (2,), (0, 1), (1, 0), (2, 2), (0, 2)]}.get(batch)
        if vals is None:
            vals = [(), (1,), (0, 1, 2)[:batch], tuple([2, 0, 1, 1, 0, 2, 2, 0] * 3)[:batch], tuple([1] * (batch - 1))]
        nops = len(vals) + 1

        def keyval(step, op):
            """keys and tokens of the block inserted at `step`."""
            v = vals[op]
            # untied: the step and position decide between equal base values (exact in every key dtype used)
            k = [x * 64 + (0 if tied else step * batch + j) for j, x in enumerate(v)] + [np.inf] * (batch - len(v))
            return np.array(k, np.float64), np.array([step * batch + j for j in range(batch)])
        K = np.array([[keyval(s, o)[0] for o in range(nops - 1)] + [[np.inf] * batch] for s in range(n)]).astype(dt)
        TOK = np.array([keyval(s, 0)[1] for s in range(n)])
        all_vals = jax.tree_util.tree_map(jnp.asarray, make(Z, np.arange((n + pre) * batch)))
        q0 = BGPQ.build(total, batch, Z, dt)
        for p in range(pre):
            t = np.arange((n + p) * batch, (n + p + 1) * batch)
            k = np.array([((int(x) * 37) % 61) * 3 % 180 if not tied else (int(x) * 5 % 3) * 64 for x in t], np.float64).astype(dt)
            if not tied:
                k = (np.asarray(k, np.float64) + 0.5).astype(dt)
            q0 = q0.insert(jnp.asarray(k), jax.tree_util.tree_map(lambda l: l[t], all_vals))
        rounds = -(-total // batch) + 2
        Kj, TOKj = jnp.asarray(K), jnp.asarray(TOK)

        def run(ops):
            def step(q, x):
                s, op = x
                qi = q.insert(Kj[s, op], jax.tree_util.tree_map(lambda l: l[TOKj[s]], all_vals))
                qd, k, v = q.delete_mins()
                dele = op == nops - 1
                pick = lambda a, b: jax.tree_util.tree_map(lambda x, y: jnp.where(dele, x, y), a, b)
                q2 = pick(qd, qi)
                k = jnp.where(dele, k, jnp.full_like(k, jnp.inf))
                return q2, (k, v, q2.size)
            q, (k, v, sizes) = jax.lax.scan(step, q0, (jnp.arange(n), ops))

            def drain(q, _):
                q, k, v = q.delete_mins()
                return q, (k, v)
            q, (k2, v2) = jax.lax.scan(drain, q, None, length=rounds)
            join = lambda a, b: jnp.concatenate([a.reshape((-1,) + a.shape[2:]), b.reshape((-1,) + b.shape[2:])])
            return join(k, k2), jax.tree_util.tree_map(join, v, v2), sizes, q.size
        hist = np.array(list(itertools.product(range(nops), repeat=n)), np.int32)
        f = jax.jit(jax.vmap(run))
        chunk = min(1024, len(hist))
        parts = []
        for i in range(0, len(hist), chunk):
            p = hist[i:i + chunk]
            full = np.concatenate([p, np.repeat(p[:1], chunk - len(p), 0)])
            parts.append(jax.tree_util.tree_map(lambda x: np.asarray(x)[:len(p)], f(full)))
        k, v, sizes, left = jax.tree_util.tree_map(lambda *x: np.concatenate(x), *parts)
        name = f"{cls}-total{total}-batch{batch}-pre{pre}-{'tied' if tied else 'distinct'}"
        kb = k.view(np.uint8).reshape(len(hist), k.shape[1], -1)
        vb = np.concatenate([np.ascontiguousarray(l).reshape(len(hist), k.shape[1], -1).view(np.uint8).reshape(len(hist), k.shape[1], -1)
                             for l in jax.tree_util.tree_leaves(v)], axis=-1)
        # a value next to an infinite key is padding and means nothing
        vb = np.where(np.isinf(k)[..., None], np.uint8(0), vb)
        out[name + ".keys"] = k.astype(np.float32)
        out[name + ".sizes"] = np.concatenate([sizes, left[:, None]], 1).astype(np.int64)
        pairs = np.concatenate([kb, vb], -1)
        if tied:
            w = pairs.shape[-1]
            flat = np.ascontiguousarray(pairs).view(f"V{w}").reshape(len(hist), -1)
            pairs = np.array([sorted(x.tobytes() for x in row) for row in flat]).view(np.uint8).reshape(len(hist), -1) if w else pairs
        out[name + ".pairs"] = pairs.reshape(len(hist), -1)
        out[name + ".history"] = hist
    return out


def table_histories(deep, which=None):
    from xtructure import HashTable
    from mc import zoo
    from mc.seqlib import cls_of
    from mc.tablelib import Alphabet, tree

    out = {}
    approx = os.environ.get(DD) == "approx" or os.environ.get("C07_NO_TWINS") == "1"
    # class, capacity, bucket, probes, alphabet, seed
    H = [("Pair", 8, 2, None, (1, 0, 2, 1), 7, 3), ("Wide", 8, 4, None, (1, 0, 0, 1), 5, 3),
         ("Pair", 4, 1, 2, (1, 0, 3, 0), 11, 3), ("Nest2", 8, 40, None, (0, 0, 3, 1), 9, 2), ("ZAg1", 8, 4, None, None, 3, 3), ("ZAgN", 4, 1, None, None, 2, 2)]
    if not deep:
        H = [H[1], H[2], H[4]]
        H = [h for i, h in enumerate(H) if which is None or i in which]
    for cls, cap, bucket, probes, al, seed, n in H:
        if al is None:
            Z = zoo.ALL[cls]
            live, _ = zoo.live_bits(Z)
            keys = zoo.from_bits(Z, np.array([zoo.pattern(Z, s) for s in ([], live, live[::2], live[-1:], live[:1])]))
            nk = 5
        else:
            Z = cls_of(cls)
            if approx:  # keys whose signatures differ only
                al = (0, 0, 2 * al[0] + al[2], al[3])
            A = Alphabet(Z, seed, *al[:3], default=bool(al[3]), sig_twins=cls == "Wide" and not approx)
            keys, nk = A.keys, A.n
        keys = tree(jnp.asarray, keys)
        t0 = HashTable.build(Z, seed, cap, bucket, 1, probes)
        L = 4
        # operations: single insert of each key, and batches (ids, mask, cost)
        menu = [((i,) * L, (True,) + (False,) * 3, (0.0,) * 4, True) for i in range(min(nk, 3))]
        a, b, c, d = 0, 1, 2, nk - 1
        menu += [((a, b, a, b), (True,) * 4, (2.0, 1.0, 1.0, 1.0), False), ((d, c, b, a), (True,) * 4, (0.0,) * 4, False),
                 ((c, c, d, d), (False, True, True, True), (1.0, 5.0, float("inf"), float("inf")), False),
                 ((a, a, a, c), (True, False, True, True), (3.0, 0.0, 2.0, 2.0), False)]
        ids = jnp.asarray([m[0] for m in menu])
        masks = jnp.asarray([m[1] for m in menu])
        costs = jnp.asarray([m[2] for m in menu], jnp.float32)
        single = jnp.asarray([m[3] for m in menu])

        def run(ops):
            def step(t, op):
                batch = tree(lambda l: l[ids[op]], keys)
                t1, ok, ix1 = t.insert(tree(lambda l: l[0], batch))
                t2, ins, uniq, ix2 = t.parallel_insert(batch, masks[op], costs[op])
                s = single[op]
                tt = tree(lambda x, y: jnp.where(s, x, y), t1, t2)
                first = jnp.arange(L) == 0
                ins, uniq = jnp.where(s, ok & first, ins), jnp.where(s, first, uniq)
                pos = jnp.where(s, ix1.index, ix2.index)
                li, found = tt.lookup_parallel(keys)
                # the position of an invalid or unstored entry means nothing
                pos = jnp.where(masks[op] & found[ids[op]], pos, 0)
                return tt, (ins, uniq, pos.astype(jnp.uint32), found, jnp.where(found, li.index, 0).astype(jnp.uint32), tt.size)
            return jax.lax.scan(step, t0, ops)[1]
        hist = np.array(list(itertools.product(range(len(menu)), repeat=n + int(deep))), np.int32)
        f = jax.jit(jax.vmap(run))
        chunk = min(512, len(hist))
        parts = []
        for i in range(0, len(hist), chunk):
            p = hist[i:i + chunk]
            full = np.concatenate([p, np.repeat(p[:1], chunk - len(p), 0)])
            parts.append(jax.tree_util.tree_map(lambda x: np.asarray(x)[:len(p)], f(full)))
        r = jax.tree_util.tree_map(lambda *x: np.concatenate(x), *parts)
        name = f"{cls}-cap{cap}-bucket{bucket}-probes{probes}"
        for k, v in zip(("inserted", "representatives", "positions", "found", "lookup_positions", "size"), r):
            out[f"{name}.{k}"] = v.reshape(len(hist), -1)
        out[name + ".history"] = hist
        # hashes are unchanged unless documented
        for s in (0, seed):
            h = jax.vmap(lambda k: k.hash(s))(keys)
            out[f"{name}.hash{s}"] = np.asarray(h)[:, None]
    return out


def pack_histories(deep, which=None):
    from checks.c13 import record_values
    from mc import zoo

    out = {}
    for name in ("ZAg0", "ZAg1", "ZAg2", "ZAg3", "ZAgI", "ZAgN") if deep else ("ZAg1", "ZAgN"):
        Z = zoo.ALL[name]
        raw = record_values(Z, 1500 if deep else 300)
        raw = raw[:len(raw) // 6 * 6]
        x = zoo.jn(zoo.from_bits(Z, raw))
        p = x.packed
        n = len(raw)
        w = np.asarray(p.words).reshape(n, -1).view(np.uint8) if np.asarray(p.words).size else np.zeros((n, 0), np.uint8)
        t = np.asarray(p.tail).reshape(n, -1)
        out[name + ".packed"] = np.concatenate([w, t], 1)
        out[name + ".roundtrip"] = zoo.to_bits(Z, p.as_original())
        x2 = jax.tree_util.tree_map(lambda l: l.reshape((n // 6, 6) + l.shape[1:]), x)
        p2 = x2.packed
        out[name + ".packed2d"] = np.concatenate([np.asarray(p2.words).reshape(n, -1).view(np.uint8) if np.asarray(p2.words).size else w,
                                                  np.asarray(p2.tail).reshape(n, -1)], 1)
        one = jax.tree_util.tree_map(lambda l: l[n // 2], x).packed
        out[name + ".packed0d"] = np.concatenate([np.asarray(one.words).reshape(-1).view(np.uint8), np.asarray(one.tail).reshape(-1)])[None]
        j = jax.jit(lambda z: z.packed)(x)
        out[name + ".jit"] = np.concatenate([np.asarray(j.words).reshape(n, -1).view(np.uint8) if np.asarray(j.words).size else w,
                                             np.asarray(j.tail).reshape(n, -1)], 1)
    return out


HIST = {"queue": queue_histories, "table": table_histories, "pack": pack_histories}


def child(kind, backend, path, deep, which=None):
    from mc import pallas_emu as emu

    if backend:
        emu.install_sequential(backend)
    np.savez(path, **HIST[kind](deep, which))


def lockstep(job, kind, ids):
    def run(backend, env, which=None):
        p = os.path.join(job.work, "o.npz")
        e = {k: v for k, v in os.environ.items() if not k.startswith("XTRUCTURE_")}
        e.update(env)
        if not job.thorough:  # these programs take longer to compile than to run
            e["XLA_FLAGS"] = "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true"
        c = f"from checks.c07 import child; child({kind!r}, {backend!r}, {p!r}, {job.thorough}, {which!r})"
        r = subprocess.run([sys.executable, "-c", c], env=e, capture_output=True, text=True, timeout=700)
        if r.returncode:
            job.violation(f"{kind} operations fail under {env}{' on ' + backend if backend else ''}: {r.stderr[-700:]}", {"env": env, "backend": backend})
            return None
        d = np.load(p)
        return {k: d[k] for k in d.files}

    refs = {}
    for i in ids:
        backend, env = KINDS[kind][i]
        twins = {"C07_NO_TWINS": "1"} if env.get(DD) == "approx" else {}
        key = tuple(twins)
        if key not in refs:
            refs[key] = run(None, twins)
        # quick tier: every setting meets one or two of the shapes, every shape meets settings of every kind
        which = None if job.thorough or kind == "pack" else [i % 3, (i + 1) % 3] if kind == "table" else [0, 1 + i % 3]
        if kind == "queue" and backend and which:
            which = [1] if env in ({}, {VB: "on"}) else [i % 4]
        ref, got = refs[key], run(backend, dict(env, **twins), which)
        if ref is None or got is None:
            continue
        job.expect(which is not None or set(ref) == set(got), f"outputs {set(ref) ^ set(got)} exist only under one setting")
        for k in got:
            if k not in ref:
                job.violation(f"output {k} exists only under {env}")
                continue
            changes_hash = env.get(AM) == "packed" and k.startswith("ZAg") and k.rsplit(".", 1)[1] in (
                "positions", "lookup_positions", "hash0", "hash2", "hash3")
            if changes_hash:
                continue
            a, b = ref[k], got[k]
            if a.shape != b.shape:
                job.violation(f"{k} under {env} has shape {b.shape}, by default {a.shape}", {"env": env, "backend": backend})
                continue
            bad = (a != b).reshape(len(a), -1).any(1) if a.size else np.zeros(0, bool)
            if bad.any():
                h = int(np.argmax(bad))
                hist = ref.get(k.rsplit(".", 1)[0] + ".history")
                job.violation(f"{k} of history {hist[h].tolist() if hist is not None else h} under {env}{' on ' + backend if backend else ''} is "
                              f"{b[h].tolist()}, by default {a[h].tolist()} ({int(bad.sum())} of {len(a)} differ)", {"env": env, "backend": backend})
            job.count("evaluations", len(a))
        job.progress(str(env))
    for ref in refs.values():
        for k, a in (ref or {}).items():
            if k.endswith((".keys", ".positions", ".packed")):
                job.count("distinct_nontrivial", len(np.unique(a, axis=0)))
    job.sample({"kind": kind, "settings": [KINDS[kind][i] for i in ids], "outputs": sorted(refs[next(iter(refs))] or {})[:6]})
