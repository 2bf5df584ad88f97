"""C08: every merge algorithm merges sorted runs correctly.

Every pair of ascending sequences over small key domains (ties, extremes and
infinities included), for all lengths within the bound, block sizes, unrolling
and dtypes, goes through every merge implementation.  Kernels run on JAX's
Pallas interpreter for the bulk, and on the interleaving explorer (all
schedules of all grid programs) for the smaller sizes.
"""
from __future__ import annotations

import itertools
import os

import jax
import jax.numpy as jnp
import numpy as np

from mc import pallas_emu as emu
from mc.classes import leaves_np, make
from mc.seqlib import cls_of

LEVEL = "model_checking"
RULE = ("a transition is one merge of one pair of ascending sequences, all pairs over the stated key domain and lengths; "
        "kernel schedules: all interleavings of the grid programs (one order when their footprints are disjoint)")
ASSUMPTIONS = [
    "keys are not NaN and contain no negative zero; both inputs are ascending",
    "accelerator kernels are interpreted from their Pallas jaxprs; the Triton/Mosaic code generators are trusted",
    "which of several equal keys comes first is the algorithm's choice",
]

INF = float("inf")
DOM = {
    "float32": [0.0, 1.5, 3.4028235e38, INF],
    "float32n": [-INF, -1.0, 0.0, INF],
    "float32two": [0.0, INF],
    "float32three": [0.0, 1.0, INF],
    "float16": [0.5, 1.0, 65504.0, INF],
    "bfloat16": [-2.0, 0.5, 1.0, INF],
    "int32": [-2**31, -1, 7, 2**31 - 1],
    "uint32": [0, 1, 2**31, 2**32 - 1],
    "uint8": [0, 1, 254, 255],
    "int16": [-32768, 0, 32767],
}


def np_dtype(name):
    for d in ("float32", "float16", "bfloat16", "int32", "uint32", "uint8", "int16"):
        if name.startswith(d):
            return jnp.dtype(d)


def jobs(tier):
    out = []

    def merge(alg, dom, lo, hi, block=None, unroll=None, dom2=None, cost=1, note=""):
        env = {}
        if block:
            env["XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE"] = str(block)
        if unroll is not None:
            env["XTRUCTURE_BGPQ_MERGE_UNROLL_MAX"] = str(unroll)
        out.append({"name": f"{alg}-{dom}{'' if not dom2 else '-' + dom2}-len{lo}to{hi}"
                            f"{'' if not block else f'-block{block}'}{'' if unroll is None else f'-unroll{unroll}'}{note}",
                    "fn": "enumerate_merges", "cost": cost, "env": env,
                    "args": dict(alg=alg, dom=dom, lo=lo, hi=hi, dom2=dom2)})

    T = tier == "thorough"
    hi = 6 if T else 5
    merge("sort", "float32", 0, hi)
    merge("sort", "int32", 0, 4)
    for b, u in ((1, 32), (2, 0), (3, 32), (4, 0), (5, 4)):
        merge("parallel", "float32", 0, hi if b > 1 else 4, b, u, cost=4)
    merge("parallel", "float32n", 0, 4, 2, 32, cost=3)
    merge("parallel", "int32", 0, 4, 3, 0, cost=3)
    merge("parallel", "uint32", 0, 4, 4, None, cost=3)
    merge("parallel", "uint8", 0, 4, 2, None, cost=3)
    merge("parallel", "float16", 0, 4, None, None, cost=3)
    merge("parallel", "bfloat16", 0, 3, 3, None, cost=3)
    merge("parallel", "uint8", 0, 3, 3, None, dom2="int32", cost=3)
    merge("parallel", "float16", 0, 3, 2, None, dom2="float32", cost=3)
    merge("loop", "float32", 1, hi, cost=4)
    merge("loop", "int32", 1, 4, cost=3)
    merge("loop", "uint8", 1, 3, dom2="int32", cost=3)
    for pack in ("auto", "pad", "scalar", "shard"):
        for c, b in (("Vec", 2), ("Nest2", 3), ("Hole", 2)) if pack in ("auto", "shard") else (("Mixed", 4), ("Hole", 2)):
            out.append({"name": f"kv-{pack}-{c}-block{b}", "fn": "splits", "cost": 5,
                        "env": {"XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": str(b), "XTRUCTURE_BGPQ_MERGE_VALUE_PACKING": pack,
                                "XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND": "on",
                                "XTRUCTURE_BGPQ_MERGE_VALUE_SCALAR_MAX": "4" if pack == "auto" else "16"},
                        "args": dict(cls=c, gpu=True, hi=4 if T else 3)})
    for mb in ("sort", "parallel"):
        for ro in ("gather", "concat"):
            out.append({"name": f"split-{mb}-{ro}", "fn": "splits", "cost": 4,
                        "env": {"XTRUCTURE_BGPQ_MERGE_BACKEND": mb, "XTRUCTURE_BGPQ_VALUE_REORDER": ro,
                                "XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": "3"},
                        "args": dict(cls="Mixed", gpu=False, hi=4 if T else 3)})
    out.append({"name": "long-runs-parallel", "fn": "long_runs", "cost": 8, "env": {},
                "args": dict(alg="parallel", sizes=[[64, 64], [63, 66], [1, 130], [100, 29], [129, 1]])})
    out.append({"name": "long-runs-parallel-block16", "fn": "long_runs", "cost": 8,
                "env": {"XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": "16", "XTRUCTURE_BGPQ_MERGE_UNROLL_MAX": "8"},
                "args": dict(alg="parallel", sizes=[[16, 16], [40, 24], [7, 90]])})
    out.append({"name": "long-runs-sort-loop", "fn": "long_runs", "cost": 5, "env": {},
                "args": dict(alg="sort", sizes=[[64, 64], [100, 29]])})
    out.append({"name": "long-runs-loop", "fn": "long_runs", "cost": 5, "env": {},
                "args": dict(alg="loop", sizes=[[32, 33], [64, 8]])})
    for b, u in ((1, 32), (2, 0), (3, 32)) if not T else ((1, 32), (2, 0), (3, 32), (4, 2), (5, 32)):
        out.append({"name": f"schedules-block{b}-unroll{u}", "fn": "schedules", "cost": 9,
                    "env": {"XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": str(b), "XTRUCTURE_BGPQ_MERGE_UNROLL_MAX": str(u)},
                    "args": dict(hi=4 if T else 3, alg="parallel")})
    out.append({"name": "schedules-loop", "fn": "schedules", "cost": 9, "env": {}, "args": dict(hi=3, alg="loop")})
    return out


def runs(vals, n):
    """All ascending sequences of length n."""
    return list(itertools.combinations_with_replacement(vals, n))


def algorithm(alg):
    import xtructure.bgpq.merge_split as ms

    return {"sort": ms.merge_sort_split_idx, "parallel": ms.merge_arrays_parallel, "loop": ms.merge_arrays_indices_loop}[alg]


def verdicts(A, B, keys, idx, dt):
    """Row-wise judgement of merged (keys, idx): None or (row, message)."""
    n, m = A.shape[1], B.shape[1]
    R = len(A)
    if keys.shape != (R, n + m) or idx.shape != (R, n + m):
        return 0, f"returned shapes {keys.shape[1:]} and {idx.shape[1:]} instead of {(n + m,)}"
    if keys.dtype != dt:
        return 0, f"merged keys have dtype {keys.dtype}, not {dt}"
    src = np.concatenate([A.astype(dt), B.astype(dt)], axis=1)
    perm_bad = (np.sort(idx, axis=1) != np.arange(n + m)).any(axis=1)
    if perm_bad.any():
        i = int(np.argmax(perm_bad))
        return i, f"the index order {idx[i].tolist()} does not use every input exactly once"
    took = np.take_along_axis(src, idx, axis=1)
    bad = (took.view(np.uint8) if dt.itemsize == 1 else took) != (keys.view(np.uint8) if dt.itemsize == 1 else keys)
    if bad.any():
        i = int(np.argmax(bad.any(axis=1)))
        return i, f"merged keys {keys[i].tolist()} are not the inputs in the reported order {idx[i].tolist()}"
    down = keys[:, 1:] < keys[:, :-1]
    if down.any():
        i = int(np.argmax(down.any(axis=1)))
        return i, f"merged keys {keys[i].tolist()} are not ascending"
    return None


def check_rows(job, f, fdirect, A, B, dt, label):
    k, ix = f(jnp.asarray(A), jnp.asarray(B))
    r = verdicts(A, B, np.asarray(k), np.asarray(ix), dt)
    if r:
        i, msg = r
        job.violation(f"{label}: merging {A[i].tolist()} and {B[i].tolist()}: {msg}",
                      {"a": A[i].tolist(), "b": B[i].tolist(), "dtype": str(dt)})
    job.count("transitions", len(A))
    for i in sorted({0, len(A) // 2, len(A) - 1}):
        k, ix = fdirect(jnp.asarray(A[i]), jnp.asarray(B[i]))
        r = verdicts(A[i:i + 1], B[i:i + 1], np.asarray(k)[None], np.asarray(ix)[None], dt)
        job.expect(not r, lambda: f"{label}: merging {A[i].tolist()} and {B[i].tolist()} directly: {r[1]}")
        job.count("traces_validated_against_impl")


def product_rows(ra, rb, da, db, n, m):
    A = np.array([a for a in ra for _ in rb], dtype=da).reshape(len(ra) * len(rb), n)
    B = np.array([b for _ in ra for b in rb], dtype=db).reshape(len(ra) * len(rb), m)
    return A, B


def enumerate_merges(job, alg, dom, lo, hi, dom2):
    emu.install_sequential()
    f0 = algorithm(alg)
    f = jax.jit(jax.vmap(f0))
    da, db = np_dtype(dom), np_dtype(dom2 or dom)
    dt = jnp.result_type(da, db)
    for n, m in itertools.product(range(lo, hi + 1), repeat=2):
        ra, rb = runs(DOM[dom], n), runs(DOM[dom2 or dom], m)
        A, B = product_rows(ra, rb, da, db, n, m)
        job.count("states", len(A))
        for o in range(0, len(A), 1024):
            a, b = A[o:o + 1024], B[o:o + 1024]
            pad = (1024 if len(A) > 1024 else len(A)) - len(a)
            if pad:
                a, b = np.concatenate([a, np.repeat(a[:1], pad, 0)]), np.concatenate([b, np.repeat(b[:1], pad, 0)])
            check_rows(job, f, f0, a, b, dt, f"{alg} merge {env_note()}")
        job.outcome((n, m))
        job.progress(f"{alg} {dom} lengths {n},{m}")
    job.sample({"algorithm": alg, "domain": DOM[dom], "lengths": f"{lo}..{hi} each", "dtype": str(dt)})


def env_note():
    return str({k[10:]: v for k, v in os.environ.items() if k.startswith("XTRUCTURE_")} or "")


def long_runs(job, alg, sizes):
    """Lengths around the block sizes: all 0/inf and 0/1/inf step sequences with few steps."""
    emu.install_sequential()
    f0 = algorithm(alg)
    f = jax.jit(jax.vmap(f0))
    dt = np.dtype(np.float32)
    for n, m in sizes:
        def steps(n):
            cuts = sorted({0, 1, 2, 3, n // 3, n // 2, n - 2, n - 1, n, min(16, n), min(15, n), min(63, n), min(17, n)} & set(range(n + 1)))
            out = [np.where(np.arange(n) < c, 0.0, INF) for c in range(n + 1)]
            out += [np.where(np.arange(n) < a, 0.0, np.where(np.arange(n) < b, 1.0, 2.0)) for a in cuts for b in cuts if a < b]
            out += [np.arange(n) * 2.0, np.arange(n) * 2.0 + 1, np.arange(n) // 2 * 1.0, np.arange(n) + n / 2, np.arange(n) - 1000.0]
            return [tuple(x) for x in out]
        A, B = product_rows(steps(n), steps(m), dt, dt, n, m)
        job.count("states", len(A))
        ch = 1024
        for o in range(0, len(A), ch):
            a, b = A[o:o + ch], B[o:o + ch]
            pad = min(ch, len(A)) - len(a)
            if pad:
                a, b = np.concatenate([a, np.repeat(a[:1], pad, 0)]), np.concatenate([b, np.repeat(b[:1], pad, 0)])
            check_rows(job, f, f0, a, b, dt, f"{alg} merge {env_note()}")
        job.outcome((n, m))
        job.progress(f"{alg} long {n},{m}")
    job.sample({"algorithm": alg, "sizes": sizes})


def schedules(job, hi, alg):
    """Every interleaving of the kernel's grid programs, for every pair of short runs over {0, 1, inf}."""
    emu.install("gpu")
    st = emu.Stats()
    f = algorithm(alg)
    dt = np.dtype(np.float32)
    n_out = 0
    for n, m in itertools.product(range(1, hi + 1), repeat=2):
        for a in runs(DOM["float32three"], n):
            for b in runs(DOM["float32three"], m):
                A, B = np.array([a], dt), np.array([b], dt)
                for (k, ix), _ in emu.explore(lambda: f(jnp.asarray(A[0]), jnp.asarray(B[0])), st):
                    r = verdicts(A, B, np.asarray(k)[None], np.asarray(ix)[None], dt)
                    n_out += 1
                    job.expect(not r, lambda: f"{alg} kernel {env_note()}: merging {list(a)} and {list(b)} under some schedule: {r[1]}",
                               {"a": list(a), "b": list(b)})
                    job.count("traces_validated_against_impl")
        job.progress(f"schedules {n},{m}")
        job.outcome((n, m))
    if st.capped:
        job.exhaustive = False
    job.count("states", st.states)
    job.count("transitions", st.transitions)
    job.count("kernels_explored", st.kernels)
    job.count("kernels_with_disjoint_programs", st.independent)
    job.sample({"algorithm": alg, "kernels": st.kernels, "merges": n_out})


def find_split():
    import importlib
    import pkgutil

    import xtructure.bgpq as pkg

    try:
        from xtructure.bgpq._merge import merge_sort_split
        return merge_sort_split
    except ImportError:
        for mi in pkgutil.walk_packages(pkg.__path__, "xtructure.bgpq."):
            if "benchmark" in mi.name:
                continue
            f = getattr(importlib.import_module(mi.name), "merge_sort_split", None)
            if f is not None:
                return f
    return None


def splits(job, cls, gpu, hi):
    """merge_sort_split: smaller half first, every value still next to its key."""
    emu.install_sequential("gpu" if gpu else None)
    f = find_split()
    if f is None:
        job.info["skipped"] = "merge_sort_split is not present"
        job.exhaustive = False
        return
    C = cls_of(cls)
    dt = np.dtype(np.float32)
    g = jax.jit(jax.vmap(f, in_axes=(0, None, 0, None)))
    dom = DOM["float32"]
    sizes = list(itertools.product(range(1, hi + 1), repeat=2)) + [(8, 8)]
    for n, m in sizes:
        if (n, m) == (8, 8):
            s = [tuple(np.where(np.arange(8) < c, 1.0, INF)) for c in range(9)] + [tuple(np.arange(8) * 1.0), tuple(np.arange(8) // 3 * 1.0)]
            ra = rb = s
        else:
            ra, rb = runs(dom, n), runs(dom, m)
        A, B = product_rows(ra, rb, dt, dt, n, m)
        av, bv = make(C, np.arange(n)), make(C, 100 + np.arange(m))
        src = [np.concatenate([x, y]) for x, y in zip(leaves_np(av), leaves_np(bv))]
        tok = {b"".join(l[i].tobytes() for l in src): i for i in range(n + m)}
        assert len(tok) == n + m

        def judge(a, b, o):
            k1, v1, k2, v2 = o
            keys = np.concatenate([np.asarray(k1), np.asarray(k2)])
            lv = [np.concatenate([x, y]) for x, y in zip(leaves_np(v1), leaves_np(v2))]
            if len(k1) != n or len(k2) != m:
                return f"split into {len(k1)} and {len(k2)} elements"
            if keys.tobytes() != np.sort(np.concatenate([a, b])).tobytes():
                return f"keys {keys.tolist()}, expected the sorted inputs, smaller half first"
            if [x.shape for x in lv] != [x.shape for x in src] or [x.dtype for x in lv] != [x.dtype for x in src]:
                return "value shapes or dtypes changed"
            who = [tok.get(b"".join(l[i].tobytes() for l in lv)) for i in range(n + m)]
            if sorted(x if x is not None else -1 for x in who) != list(range(n + m)):
                return f"values are inputs number {who}: not each exactly once"
            both = np.concatenate([a, b])
            if both[who].tobytes() != keys.tobytes():
                return f"values number {who} (keys {both[who].tolist()}) stand next to keys {keys.tolist()}"
            return None

        o = jax.tree_util.tree_map(np.asarray, g(jnp.asarray(A), av, jnp.asarray(B), bv))
        job.count("states", len(A))
        for i in range(len(A)):
            msg = judge(A[i], B[i], jax.tree_util.tree_map(lambda l: l[i], o))
            job.expect(not msg, lambda: f"merge_sort_split {env_note()} of {A[i].tolist()} and {B[i].tolist()} with {cls} values: {msg}",
                       {"a": A[i].tolist(), "b": B[i].tolist()})
        job.count("transitions", len(A))
        for i in sorted({0, len(A) // 3, len(A) - 1}):
            msg = judge(A[i], B[i], f(jnp.asarray(A[i]), av, jnp.asarray(B[i]), bv))
            job.expect(not msg, lambda: f"merge_sort_split {env_note()} of {A[i].tolist()} and {B[i].tolist()} with {cls} values, directly: {msg}")
            job.count("traces_validated_against_impl")
        job.outcome((n, m))
        job.progress(f"split {n},{m}")
    job.sample({"class": cls, "settings": env_note(), "sizes": sizes})
