"""C09: equal values hash equally and every bit of a value counts.

For every class of the zoo: all values (8- and 16-bit spaces), and around
several base records every single-bit and (small records) double-bit change.
Every such record is hashed and byte-encoded along every route; routes must
agree, encodings must be injective, and no bit may leave the hash unchanged.
"""
from __future__ import annotations

import itertools
import os
import subprocess
import sys

import jax
import jax.numpy as jnp
import numpy as np

LEVEL = "exploration"
RULE = ("an evaluation is one record hashed and encoded along the batched routes; records are all values of 8- and 16-bit spaces, "
        "and all single- and double-bit variations of base records; non-trivial = distinct record contents")
ASSUMPTIONS = ["only bits inside a field's declared width are varied"]

FULL = ["ZBool", "ZU8", "ZI8", "ZU16", "ZI16", "ZF16", "ZBF16", "ZTwo8"]
FLIP = ["ZF32", "ZI32", "ZU32", "ZF8", "ZSwap", "ZOdd", "ZMat", "ZIn", "ZNest", "ZDeep", "ZWide", "ZBits", "ZPk", "ZHole", "ZVoid",
        "ZAg0", "ZAg1", "ZAg2", "ZAg3", "ZAgI", "ZAgN"]
SETTINGS = [
    ("stream-on", {"XTRUCTURE_HASH_STREAM": "on"}),
    ("stream-off", {"XTRUCTURE_HASH_STREAM": "off"}),
    ("stream-auto-0", {"XTRUCTURE_HASH_STREAM": "auto", "XTRUCTURE_HASH_STREAM_THRESHOLD_U32": "0"}),
    ("stream-auto-4", {"XTRUCTURE_HASH_STREAM": "auto", "XTRUCTURE_HASH_STREAM_THRESHOLD_U32": "4"}),
    ("agg-raw", {"XTRUCTURE_HASH_AGG_MODE": "raw"}),
    ("agg-auto", {"XTRUCTURE_HASH_AGG_MODE": "auto"}),
    ("agg-packed", {"XTRUCTURE_HASH_AGG_MODE": "packed"}),
    ("hash-randomization", {"PYTHONHASHSEED": "12345"}),
]


def jobs(tier):
    from mc import zoo

    out = []
    for c in FULL:
        out.append({"name": f"all-values-{c}", "fn": "all_values", "cost": 2, "args": {"cls": c}})
    for c in FLIP:
        out.append({"name": f"bit-flips-{c}", "fn": "flips", "cost": 3, "args": {"cls": c}})
        if c.startswith(("ZAg", "ZBits")):
            out.append({"name": f"bit-flips-{c}-packed-hash", "fn": "flips", "cost": 3, "args": {"cls": c},
                        "env": {"XTRUCTURE_HASH_AGG_MODE": "packed"}})
    for c in zoo.WITH_64:
        for e in ({}, {"XTRUCTURE_HASH_STREAM": "on"}):
            out.append({"name": f"bit-flips-{c}" + ("-streamed" if e else ""), "fn": "flips", "cost": 3, "args": {"cls": c}, "env": dict(e, JAX_ENABLE_X64="1")})
    for c in ("ZNest", "ZWide", "ZAg3", "ZMat"):
        out.append({"name": f"bit-flips-{c}-x64", "fn": "flips", "cost": 3, "args": {"cls": c}, "env": {"JAX_ENABLE_X64": "1"}})
    out.append({"name": "across-settings-64", "fn": "across", "cost": 30, "args": {"classes": zoo.WITH_64}, "env": {"JAX_ENABLE_X64": "1"}})
    for c in ("ZDeep", "ZOdd", "ZMat"):
        out.append({"name": f"bit-flips-{c}-streamed", "fn": "flips", "cost": 3, "args": {"cls": c},
                    "env": {"XTRUCTURE_HASH_STREAM": "on"}})
    groups = [FLIP[:7], FLIP[7:13] + ["ZTwo8", "ZU8"], FLIP[13:]]
    for i, g in enumerate(groups):
        out.append({"name": f"across-settings-{i}", "fn": "across", "cost": 30, "args": {"classes": g}})
    out.append({"name": "large-record", "fn": "large", "cost": 5, "args": {}})
    return out


SEEDS = [0, 1, 42, 2**31, 2**32 - 1]


def routes(x, s):
    """Everything the library derives from one record."""
    h = x.hash(s)
    p = x.hash_pair(s)
    hu, u = x.hash_with_uint32ed(s)
    pu, u2 = x.hash_pair_with_uint32ed(s)
    return {"hash": h, "pair0": p[0], "pair1": p[1], "hash_w": hu, "pair_w0": pu[0], "pair_w1": pu[1],
            "u_w": u, "u_pw": u2, "u": x.uint32ed, "bytes": x.bytes}


def evaluate(Z, raw, seeds):
    f = jax.jit(jax.vmap(routes, in_axes=(0, None)))
    return [{k: np.asarray(v) for k, v in f(Z, jnp.uint32(s)).items()} for s in seeds]


def distinct_rows(a):
    a = np.ascontiguousarray(a)
    return len(np.unique(a.view([("", a.dtype)] * a.shape[1]))) if a.shape[1] else min(1, len(a))


def check_set(job, name, raw, single=None, seeds=(0, 42)):
    """raw: (N, nbytes) distinct records; single: [(i, j)] pairs differing in exactly one bit."""
    from mc import zoo

    C = zoo.ALL[name]
    assert distinct_rows(raw) == len(raw)
    Z = zoo.jn(zoo.from_bits(C, raw))
    res = evaluate(Z, raw, seeds)
    r0 = res[0]

    def rec(i):
        return f"{name} record {raw[i].tobytes().hex()} {[np.asarray(l)[i].tolist() for l in jax.tree_util.tree_leaves(Z)]}"

    for s, r in zip(seeds, res):
        for a, b in (("hash", "pair0"), ("hash", "hash_w"), ("pair0", "pair_w0"), ("pair1", "pair_w1")):
            bad = np.nonzero(r[a] != r[b])[0]
            job.expect(not len(bad), lambda: f"{rec(bad[0])} seed {s}: {a} {r[a][bad[0]]} but {b} {r[b][bad[0]]}")
        for a, b in (("u", "u_w"), ("u", "u_pw")):
            job.expect(r[a].shape == r[b].shape and (r[a] == r[b]).all(), lambda: f"{name}: the words returned with the hash differ from uint32ed")
        job.expect(r["hash"].dtype == np.uint32 and r["bytes"].dtype == np.uint8, f"{name}: hash dtype {r['hash'].dtype}, bytes dtype {r['bytes'].dtype}")
        job.expect((r["bytes"] == r0["bytes"]).all() and (r["u"] == r0["u"]).all(), f"{name}: the byte encoding depends on the seed")
        if single is not None and len(single):
            i, j = np.array(single).T
            same = np.nonzero((r["hash"][i] == r["hash"][j]))[0]
            job.expect(not len(same), lambda: f"seed {s}: flipping one bit leaves the hash unchanged: {rec(i[same[0]])} and {rec(j[same[0]])}")
            same = np.nonzero((r["pair0"][i] == r["pair0"][j]) & (r["pair1"][i] == r["pair1"][j]))[0]
            job.expect(not len(same), lambda: f"seed {s}: flipping one bit leaves the hash pair unchanged: {rec(i[same[0]])} and {rec(j[same[0]])}")
    for k in ("bytes", "u"):
        if distinct_rows(r0[k]) != len(raw):
            seen = {}
            for i in range(len(raw)):
                o = seen.setdefault(r0[k][i].tobytes(), i)
                if o != i:
                    job.violation(f"two different records have the same {'byte encoding' if k == 'bytes' else 'word encoding'}: {rec(o)} and {rec(i)}")
                    break
    job.count("evaluations", len(raw) * len(seeds))
    job.count("distinct_nontrivial", len(raw))
    # direct routes, eager, element by element and in other batch shapes
    n = len(raw)
    picks = sorted({int(k * (n - 1) / 11) for k in range(12)})
    for i in picks:
        alone = jax.tree_util.tree_map(lambda l: l[i], Z)
        elem = Z[i]
        for k, (x, s) in enumerate(itertools.product((alone, elem), seeds)):
            got = routes(x, s if k % 2 and s < 2**31 else np.uint32(s))
            want = {kk: v[i] for kk, v in res[seeds.index(s)].items()}
            for kk in want:
                g = np.asarray(got[kk])
                job.expect(g.shape == want[kk].shape and (g == want[kk]).all(),
                           lambda: f"{rec(i)} seed {s}: {kk} computed on the record alone is {g.tolist()}, inside a batch {want[kk].tolist()}")
            job.count("direct_routes")
    m = n - n % 4
    if m >= 8:
        grid = Z[:m].reshape((m // 4, 4))
        g = jax.jit(jax.vmap(jax.vmap(lambda x: (x.hash(jnp.uint32(seeds[-1])), x.bytes))))(grid)
        job.expect((np.asarray(g[0]).reshape(-1) == res[-1]["hash"][:m]).all() and
                   (np.asarray(g[1]).reshape(m, -1) == r0["bytes"][:m]).all(),
                   f"{name}: hashes or encodings in a two-dimensional batch differ from those in a flat batch")
        if any(l.dtype == jnp.bfloat16 for l in jax.tree_util.tree_leaves(Z)):
            m = 0  # XLA flushes bfloat16 subnormals when slicing inside loops
    if m >= 8:
        sc = jax.lax.scan(lambda c, x: (c, x.hash(jnp.uint32(seeds[-1]))), 0, Z[:m])[1]
        job.expect((np.asarray(sc) == res[-1]["hash"][:m]).all(), f"{name}: hashes inside lax.scan differ")
        job.count("direct_routes", 2 * m)
    # save and load
    path = os.path.join(job.work, f"{name}.npz")
    Z.save(path)
    L = C.load(path)
    r2 = evaluate(zoo.jn(L), raw, seeds[-1:])[0]
    for kk in ("hash", "pair1", "bytes"):
        bad = np.nonzero((r2[kk] != res[-1][kk]).reshape(n, -1).any(1))[0]
        job.expect(not len(bad), lambda: f"{rec(bad[0])}: {kk} changed by saving and loading")
    job.outcome((name, n))
    return r0


def all_values(job, cls):
    from mc import zoo

    C = zoo.ALL[cls]
    live, nbytes = zoo.live_bits(C)
    raw = np.zeros((1 << len(live), nbytes * 8), np.uint8)
    v = np.arange(1 << len(live))
    for i, p in enumerate(live):
        raw[:, p] = (v >> i) & 1
    raw = np.packbits(raw, axis=1, bitorder="little")
    single = [(x, x ^ (1 << b)) for b in range(len(live)) for x in range(len(raw)) if not x >> b & 1]
    check_set(job, cls, raw, single, seeds=(0, 42, 2**31, 2**32 - 1))
    job.sample({"class": cls, "values": len(raw), "single_bit_pairs": len(single)})


def flip_set(name, pairs_limit=72):
    from mc import zoo

    C = zoo.ALL[name]
    live, _ = zoo.live_bits(C)
    index, rows, single = {}, [], []

    def add(pos):
        r = zoo.pattern(C, pos)
        k = r.tobytes()
        if k not in index:
            index[k] = len(rows)
            rows.append(r)
        return index[k]

    for base in zoo.bases(C):
        b = frozenset(base)
        i0 = add(b)
        ids = {}
        for p in live:
            ids[p] = add(b ^ {p})
            single.append((i0, ids[p]))
        if len(live) <= pairs_limit:
            for p, q in itertools.combinations(live, 2):
                j = add(b ^ {p, q})
                single.append((ids[p], j))
    return np.array(rows), sorted(set(single))


def flips(job, cls):
    raw, single = flip_set(cls, 140 if job.thorough else 72)
    check_set(job, cls, raw, single, seeds=tuple(SEEDS) if job.thorough else (0, 42, 2**32 - 1))
    job.sample({"class": cls, "records": len(raw), "single_bit_pairs": len(single)})


def large(job):
    """Records longer than the streaming threshold: every word counts."""
    from mc import zoo

    C = zoo.mk("ZLarge", [("w", jnp.uint32, (9000,), None), ("t", jnp.uint8, (3,), None)])
    n = 9000
    raw = np.zeros((1, n * 4 + 3), np.uint8)
    base = zoo.jn(zoo.from_bits(C, raw))[0]
    h0 = np.asarray(base.hash(7))
    f = jax.jit(jax.vmap(lambda i, b: (lambda y: (y.hash(7), y.hash_pair(7), y.hash_with_uint32ed(7)[0]))(
        base.replace(w=base.w.at[i].set(jnp.uint32(1) << b)))))
    pos = np.array([(i, (i * 7) % 32) for i in range(0, n, 1 if job.thorough else 3)] + [(8191, 0), (8192, 31), (8190, 5), (n - 1, 1)])
    hs = set()
    for o in range(0, len(pos), 256):
        p = pos[o:o + 256]
        p = np.concatenate([p, np.repeat(p[:1], 256 - len(p), 0)])
        h, pr, hw = f(jnp.asarray(p[:, 0]), jnp.asarray(p[:, 1], jnp.uint32))
        h, p0, hw = np.asarray(h), np.asarray(pr[0]), np.asarray(hw)
        for arr, nm in ((p0, "hash_pair"), (hw, "hash_with_uint32ed")):
            bad = np.nonzero(arr != h)[0]
            job.expect(not len(bad), lambda: f"9000-word record, word {p[bad[0]][0]} set: {nm} disagrees with hash")
        bad = np.nonzero(h == h0)[0]
        job.expect(not len(bad), lambda: f"9000-word record: setting bit {p[bad[0]][1]} of word {p[bad[0]][0]} leaves the hash unchanged")
        hs.update(h.tolist())
    for i in range(3):
        y = base.replace(t=base.t.at[i].set(1))
        job.expect(int(y.hash(7)) != int(h0) and int(y.hash(7)) == int(y.hash_pair(7)[0]) == int(y.hash_with_uint32ed(7)[0]),
                   f"9000-word record: trailing byte {i} is ignored or routes disagree")
    job.count("evaluations", len(pos) + 3)
    job.count("distinct_nontrivial", len(hs))
    job.sample({"class": "9000 words and 3 bytes", "positions": len(pos)})


def dump(classes, path):
    from mc import zoo

    out = {}
    for name in classes:
        raw, _ = flip_set(name, 40)
        r = evaluate(zoo.jn(zoo.from_bits(zoo.ALL[name], raw)), raw, (5,))[0]
        out.update({f"{name}.{k}": v for k, v in r.items()})
    np.savez(path, **out)


def across(job, classes):
    """The same records hashed by fresh processes under each setting."""
    def run(env):
        p = os.path.join(job.work, "o.npz")
        e = dict(os.environ, **env)
        c = f"from checks.c09 import dump; dump({classes!r}, {p!r})"
        r = subprocess.run([sys.executable, "-c", c], env=e, capture_output=True, text=True, timeout=600)
        if r.returncode:
            job.violation(f"hashing fails under {env}: {r.stderr[-600:]}")
            return None
        d = np.load(p)
        return {k: d[k] for k in d.files}

    ref = run({})
    for label, env in SETTINGS:
        got = run(env)
        if got is None or ref is None:
            continue
        packed = label == "agg-packed"
        for k in ref:
            if packed and k.startswith(("ZAg", "ZBits")):
                continue
            same = got[k].shape == ref[k].shape and (got[k] == ref[k]).all()
            job.expect(same, lambda: f"{k} under {env} differs from the default configuration: {first_diff(ref[k], got[k])}")
            job.count("evaluations", len(ref[k]))
        job.progress(label)
    job.count("distinct_nontrivial", sum(len(v) for k, v in ref.items() if k.endswith(".hash")))
    job.sample({"classes": classes, "settings": [s[0] for s in SETTINGS]})


def first_diff(a, b):
    if a.shape != b.shape:
        return f"shape {a.shape} against {b.shape}"
    i = int(np.argmax((a != b).reshape(len(a), -1).any(1)))
    return f"record {i}: {a[i].tolist()} against {b[i].tolist()}"
