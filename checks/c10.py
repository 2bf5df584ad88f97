"""C10: duplicate elimination keeps exactly the cheapest entry of every distinct value.

Complete enumeration of batches (every tuple of values over an alphabet, every
validity mask, every cost pattern) through the real unique_mask, compared with a
reference.  The alphabets contain records whose 128-bit sort signatures agree
although they differ, and records that differ only in a packed tail byte.
"""
from __future__ import annotations

import itertools

import jax
import jax.numpy as jnp
import numpy as np

LEVEL = "exploration"
RULE = ("an evaluation is one (values, validity, costs) batch, all combinations within the stated length and domains; non-trivial = "
        "batches containing at least one repeated valid value")
ASSUMPTIONS = ["entries whose cost is NaN count as excluded, like infinite ones",
               "the order of the returned indices and the inverse of excluded entries are unspecified"]

INF, NAN = float("inf"), float("nan")
COSTS = {
    "none": None,
    "f32": (np.float32, [1.0, 0.0, INF]),
    "f32neg": (np.float32, [-INF, -1.5, INF]),
    "f32nan": (np.float32, [2.0, NAN, INF]),
    "f16": (np.float16, [65504.0, 0.5, INF]),
    "bf16": (jnp.bfloat16, [3.0, 2.0, INF]),
    "i32": (np.int32, [(1 << 24) + 1, 1 << 24, 2**31 - 1]),
    "i32b": (np.int32, [-2**31, 2**31 - 1, 0]),
    "u32": (np.uint32, [2**32 - 1, 0, 2**31]),
    "u8": (np.uint8, [255, 0]),
    "i2": (np.int32, [16777217, 16777216]),
    "f2": (np.float32, [1.0, 0.5]),
}
# differences between ten-word rows that leave both 64-bit polynomial signatures unchanged
DIFF64 = [[2554, -6100, -1700, 8430, -4412, -5526, -1763, 4824, -1267, 0], [7182, 4039, -766, 4707, 5282, -4469, 3355, -6745, 6775, 0]]


def alphabet(name):
    """(class, [instances' raw rows]) - pairwise different records."""
    from mc import zoo

    u32 = jnp.uint32

    def words(C, rows):
        return C, np.array([np.array(r, np.uint32).view(np.uint8) for r in rows])

    def flips(C, k, where, pad=0, base=0x01234567):
        rows = []
        for w in where:
            r = np.array([(base * (i + 3)) & 0x7FFFFFFF for i in range(k)], np.uint32)
            for i in w:
                r[i] ^= np.uint32(1 << 31)
            rows.append(np.concatenate([r.view(np.uint8), np.full(pad, 9, np.uint8)]))
        return C, np.array(rows)

    def bits(C, sets):
        live, _ = zoo.live_bits(C)
        return C, np.array([zoo.pattern(C, [live[i] for i in s]) for s in sets])
    if name == "bool":
        return bits(zoo.ZBool, [[], [0]])
    if name == "u8":
        return bits(zoo.ZU8, [[], range(8), [7]])
    if name == "u32":
        return words(zoo.ZU32, [[0], [0xFFFFFFFF], [1 << 31]])
    if name == "f32":
        return words(zoo.ZF32, [np.array([v], np.float32).view(np.uint32) for v in (0.0, 1.0, INF)])
    if name == "four":
        return words(zoo.mk("ZW4", [("w", u32, (4,), None)]), [[0, 0, 0, 1], [0, 0, 1, 0], [1, 0, 0, 0], [0xFFFFFFFF] * 4])
    if name == "five":
        return flips(zoo.mk("ZW5", [("w", u32, (5,), None)]), 5, [(), (0, 4), (1, 2), (0, 1, 2, 3)])
    if name == "wide":
        return flips(zoo.ZWide, 9, [(), (0, 1), (7, 8), (0, 1, 7, 8)], pad=1)
    if name == "wide64":
        base = np.full(10, 1 << 20, np.int64)
        base[9] = 9
        d = np.array(DIFF64)
        rows = [base, base + d[0], base + d[1], base + d[0] + d[1]]
        return zoo.ZWide, np.array([r.astype(np.uint32).view(np.uint8)[:37] for r in rows])
    if name == "nested":
        return bits(zoo.ZDeep, [[], [0], [len(zoo.live_bits(zoo.ZDeep)[0]) - 1], [40]])
    if name == "fields":
        return bits(zoo.ZPk, [[], [0], [13], [60]])
    if name in ("ag0", "ag1", "ag2", "ag3", "agn"):
        C = zoo.ALL["ZAg" + name[2:].upper()]
        n = len(zoo.live_bits(C)[0])
        return bits(C, [[], [n - 1], [0], [n - 2]])
    if name == "agwide":
        C = zoo.mk("ZAgW", [("a", u32, (6,), 32), ("b", jnp.uint8, (3,), 5)], aggregate_bitpack=True)
        C_, rows = flips(C, 6, [(), (0, 5), (2, 3), ()], pad=3)
        rows[3, -1] = 10
        return C, rows
    raise KeyError(name)


def jobs(tier):
    E = [
        ("bool", 4, 2, ["f32", "i32"]), ("u8", 3, 3, ["f32neg", "f16", "bf16"]), ("u32", 4, 3, ["none", "f2"]),
        ("u32", 3, 3, ["u32", "i32b", "f32nan"]), ("f32", 3, 3, ["f32", "u8"]), ("four", 4, 4, ["none"]), ("four", 3, 4, ["i2"]),
        ("five", 4, 4, ["none"]), ("five", 4, 3, ["f2"]), ("wide", 5, 3, ["none"]), ("wide", 4, 3, ["i2"]), ("wide", 3, 4, ["f32"]),
        ("nested", 4, 4, ["none"]), ("fields", 3, 4, ["f2"]), ("ag0", 3, 4, ["f2"]), ("ag1", 4, 4, ["none"]), ("ag2", 3, 4, ["f2"]),
        ("ag3", 4, 4, ["none"]), ("agn", 3, 4, ["f2"]), ("agwide", 4, 4, ["none"]), ("agwide", 3, 4, ["f32"]), ("u8", 6, 3, ["none"]),
    ]
    if tier == "thorough":
        E += [("u32", 4, 3, ["f32", "i32", "u32"]), ("wide", 4, 4, ["f2", "f32"]), ("five", 5, 4, ["none"]), ("agwide", 5, 4, ["none"]),
              ("u32", 5, 3, ["f2", "i2"]), ("u8", 7, 3, ["none"]), ("ag1", 4, 4, ["f2"]), ("nested", 4, 4, ["i2"])]
    out = []
    for a, L, k, costs in E:
        for c in costs:
            n = (k * 2 * (1 if c == "none" else len(COSTS[c][1]))) ** L
            out.append({"name": f"{a}-len{L}-{k}values-cost-{c}", "fn": "enumerate_batches", "cost": 1 + n / 5000,
                        "args": dict(name=a, L=L, k=k, cost=c)})
    for c in ("none", "f2"):
        out.append({"name": f"x64-wide-cost-{c}", "fn": "enumerate_batches", "cost": 8, "args": dict(name="wide64", L=4 if c == "none" else 3, k=4, cost=c),
                    "env": {"JAX_ENABLE_X64": "1"}})
    out.append({"name": "x64-small", "fn": "enumerate_batches", "cost": 5, "args": dict(name="u32", L=3, k=3, cost="f32"), "env": {"JAX_ENABLE_X64": "1"}})
    for a in ("wide", "agwide", "ag3", "u8"):
        out.append({"name": f"{a}-permutations", "fn": "permuted", "cost": 9, "args": dict(name=a)})
    for a in ("u8", "wide", "ag3", "agwide", "nested"):
        out.append({"name": f"forms-{a}", "fn": "forms", "cost": 40, "args": {"name": a}})
    out.append({"name": "key-functions", "fn": "key_functions", "cost": 8, "args": {}})
    out.append({"name": "key-types", "fn": "key_types", "cost": 30, "args": {}})
    out.append({"name": "key-types-x64", "fn": "key_types", "cost": 35, "args": {}, "env": {"JAX_ENABLE_X64": "1"}})
    out.append({"name": "long-batches", "fn": "long_batches", "cost": 10, "args": {}})
    out.append({"name": "hundreds", "fn": "hundreds", "cost": 10, "args": {}})
    for n in (90000,) if tier == "quick" else (300, 40000, 90000, 200000):
        out.append({"name": f"batch-of-{n}", "fn": "huge", "cost": 10, "args": {"n": n}})
    return out


def reference(groups, filled, cost):
    """groups, filled, cost: (N, n) -> (selected, representative index or -1) per entry."""
    valid = filled.copy()
    if cost is not None:
        c = cost.astype(np.float64)
        if cost.dtype.kind not in "iu":
            valid &= c < INF
    else:
        c = np.zeros(groups.shape)
    n = groups.shape[1]
    i = np.arange(n)
    same = (groups[:, :, None] == groups[:, None, :]) & valid[:, :, None] & valid[:, None, :]
    better = (c[:, None, :] < c[:, :, None]) | ((c[:, None, :] == c[:, :, None]) & (i[None, None, :] < i[None, :, None]))
    sel = valid & ~(same & better).any(2)
    rep = np.where(valid, (same & sel[:, None, :]).argmax(2), -1)
    return valid, sel, rep


def judge(job, label, G, fil, cost, mask, idx, inv, toks=None):
    """idx padded with n."""
    n = G.shape[1]
    valid, sel, rep = reference(G, fil, cost)

    def show(r):
        return (f"{label}: values {(G if toks is None else toks)[r].tolist()} valid {fil[r].tolist()}" +
                ("" if cost is None else f" costs {np.asarray(cost[r], np.float64).tolist() if cost.dtype.kind not in 'iu' else cost[r].tolist()}"))
    bad = np.nonzero((mask != sel).any(1))[0]
    job.expect(not len(bad), lambda: f"{show(bad[0])}: mask {mask[bad[0]].tolist()}, expected {sel[bad[0]].tolist()}")
    if idx is not None:
        want = np.sort(np.where(sel, np.arange(n), n), axis=1)
        bad2 = np.nonzero((np.sort(idx, axis=1) != want).any(1))[0]
        job.expect(not len(bad2), lambda: f"{show(bad2[0])}: indices {idx[bad2[0]].tolist()}, selected are {np.nonzero(sel[bad2[0]])[0].tolist()} padded with {n}")
    if inv is not None:
        inside = (inv >= 0) & (inv < n)
        got = np.take_along_axis(idx, np.clip(inv, 0, n - 1), axis=1)
        bad3 = np.nonzero((valid & ((got != rep) | ~inside)).any(1))[0]
        job.expect(not len(bad3), lambda: f"{show(bad3[0])}: indices {idx[bad3[0]].tolist()} with inverse {inv[bad3[0]].tolist()} "
                   f"map entries to {got[bad3[0]].tolist()}, representatives are {rep[bad3[0]].tolist()}")
    job.count("evaluations", len(G))
    job.count("distinct_nontrivial", int(((~sel) & valid).any(1).sum()))


def runner(A, n, has_cost, mapped):
    from xtructure import numpy as xnp

    def one(tok, fil, cost):
        v = jax.tree_util.tree_map(lambda l: l[tok], A)
        return xnp.unique_mask(v, key=cost if has_cost else None, filled=fil, return_index=True, return_inverse=True)
    if mapped == "vmap":
        f = jax.jit(jax.vmap(one))
    else:
        f = jax.jit(lambda t, m, c: jax.lax.map(lambda x: one(*x), (t, m, c)))
    return f


def load(name, k=None):
    from mc import zoo

    C, raw = alphabet(name)
    assert len({r.tobytes() for r in raw}) == len(raw)
    return C, zoo.jn(zoo.from_bits(C, raw if k is None else raw[:k]))


def product(dom, L):
    g = np.indices((dom,) * L).reshape(L, -1).T
    return np.ascontiguousarray(g)


def enumerate_batches(job, name, L, k, cost):
    C, A = load(name, k)
    dom = None if cost == "none" else COSTS[cost]
    per = k * 2 * (1 if dom is None else len(dom[1]))
    total = per ** L
    CH = 1 << 14
    for mapped in ("vmap", "map"):
        f = runner(A, L, dom is not None, mapped)
        step = 1 if mapped == "vmap" or total <= 70000 else 7
        codes = np.arange(0, total, step)
        for o in range(0, len(codes), CH):
            c = codes[o:o + CH]
            real = len(c)
            if real < CH and len(codes) > CH:
                c = np.concatenate([c, np.repeat(c[:1], CH - real)])
            d = np.stack([(c // per ** i) % per for i in range(L)], axis=1)
            tok, d = d % k, d // k
            fil, d = (d % 2).astype(bool), d // 2
            key = None if dom is None else np.array(dom[1], dtype=dom[0])[d]
            r = f(tok, fil, np.zeros(tok.shape, np.float32) if key is None else key)
            mask, idx, inv = [np.asarray(x)[:real] for x in r]
            judge(job, f"{C.__name__} ({mapped})", tok[:real], fil[:real], None if key is None else key[:real], mask, idx, inv)
        job.progress(f"{name} length {L} {mapped}")
    job.sample({"alphabet": name, "length": L, "values": k, "cost": cost, "batches": total})


def permuted(job, name):
    """All orders of a fixed multiset with ties, more entries than the complete enumeration reaches."""
    C, A = load(name)
    k = len(jax.tree_util.tree_leaves(A)[0])
    tok0 = np.array([0, 1, 0, 1, 2, 2, 0])
    cost0 = np.array([2.0, 1.0, 1.0, 1.0, INF, 3.0, 1.0], np.float32)
    fil0 = np.array([1, 1, 1, 1, 1, 1, 0], bool)
    tok0 = np.minimum(tok0, k - 1)
    P = np.array(list(itertools.permutations(range(7))))
    for has in (True, False):
        f = runner(A, 7, has, "map")
        mask, idx, inv = [np.asarray(x) for x in f(tok0[P], fil0[P], cost0[P])]
        judge(job, f"{C.__name__} permutation", tok0[P], fil0[P], cost0[P] if has else None, mask, idx, inv)
    job.sample({"alphabet": name, "permutations": len(P)})


def long_batches(job):
    """Every placement of a value, its signature twin and an invalid copy among many different values."""
    from mc import zoo

    for name in ("wide", "five", "agwide"):
        C, raw = alphabet(name)
        filler = []
        live, _ = zoo.live_bits(C)
        for i in range(40):
            r = raw[0].copy()
            bit = live[(i * 7 + 3) % len(live)]
            r[bit // 8] ^= 1 << (bit % 8)
            r[0] ^= np.uint8(i * 2 + 2)
            filler.append(r)
        rows = np.concatenate([raw[:2], np.array(filler)])
        _, g = np.unique(rows, axis=0, return_inverse=True)
        g = g.reshape(-1)
        A = zoo.jn(zoo.from_bits(C, rows))
        for n in (12, 33):
            tok, fil, cost = [], [], []
            for a, b, c in itertools.permutations(range(n), 3) if n < 20 else itertools.combinations(range(n), 3):
                t = np.arange(2, 2 + n)
                t[[a, b, c]] = [0, 1, 0]
                for inval in (0, 1):
                    m = np.ones(n, bool)
                    if inval:
                        m[a] = False
                    tok.append(t)
                    fil.append(m)
                    cost.append((np.arange(n) * 5 % 3).astype(np.float32))
            tok, fil, cost = np.array(tok), np.array(fil), np.array(cost)
            if n > 20 and not job.thorough:
                tok, fil, cost = tok[::5], fil[::5], cost[::5]
            f = runner(A, n, True, "map")
            mask, idx, inv = [np.asarray(x) for x in f(tok, fil, cost)]
            judge(job, f"{C.__name__} batch of {n}", g[tok], fil, cost, mask, idx, inv, toks=tok)
            job.progress(f"long {name} {n}")


def hundreds(job):
    """Every one of 300 different values in turn occurs twice with its signature twin in between, wherever the two sort."""
    from mc import zoo

    n = 300
    for name, where in (("wide", (0, 1)), ("five", (0, 4)), ("agwide", (2, 3))):
        C, raw = alphabet(name)
        words = 5 if name == "five" else 6
        rows = np.repeat(raw[:1], n, axis=0)
        w = np.ascontiguousarray(rows[:, :4 * words]).view(np.uint32)
        w ^= (np.arange(n, dtype=np.uint32)[:, None] * np.array([0x9E3779B1 + 2 * i for i in range(words)], np.uint32)) >> np.uint32(1)
        twin = w.copy()
        for i in where:
            twin[:, i] ^= np.uint32(1 << 31)
        rows, twins = rows.copy(), rows.copy()
        rows[:, :4 * words], twins[:, :4 * words] = w.view(np.uint8), twin.view(np.uint8)
        both = np.concatenate([rows, twins])
        assert len({r.tobytes() for r in both}) == 2 * n
        A = zoo.jn(zoo.from_bits(C, both))
        tok, fil, cost = [], [], []
        for i in range(0, n, 1 if job.thorough else 3):
            t = (np.arange(n) + i + 1) % n
            a, b, c = sorted((i * p + 11 * k) % n for k, p in enumerate((7, 11, 13)))
            if len({a, b, c}) < 3:
                a, b, c = 3, 150, 290
            t[[a, b, c]] = [i, i + n, i]
            m = np.ones(n, bool)
            m[(i * 5) % n] = i % 2 == 0
            tok.append(t)
            fil.append(m)
            cost.append(((np.arange(n) + i) % 5).astype(np.float32))
        tok, fil, cost = np.array(tok), np.array(fil), np.array(cost)
        for has in (False, True):
            f = runner(A, n, has, "map")
            mask, idx, inv = [np.asarray(x) for x in f(tok, fil, cost)]
            for o in range(0, len(tok), 50):
                part = slice(o, o + 50)
                judge(job, f"{C.__name__} batch of {n}", tok[part], fil[part], cost[part] if has else None, mask[part], idx[part], inv[part])
        job.progress(f"hundreds {name}")


def huge(job, n):
    """One batch with more than 2^16 different values."""
    from mc import zoo
    from xtructure import numpy as xnp

    i = np.arange(n)
    ids = np.where(i % 10 == 0, i * 7919 % n, i) + (1 << 24)
    cost = (i * 104729 % 1009).astype(np.int32)
    fil = i % 19 != 0
    A = zoo.jn(zoo.from_bits(zoo.ZU32, ids.astype(np.uint32)[:, None].view(np.uint8)))
    for has in (False, True):
        best = {}
        for j in i[fil].tolist():
            c = cost[j] if has else 0
            if ids[j] not in best or c < cost[best[ids[j]]] * has:
                best[ids[j]] = j
        sel = np.zeros(n, bool)
        sel[list(best.values())] = True
        for jit in (False, True):
            f = lambda a, c, m: xnp.unique_mask(a, key=c if has else None, filled=m, return_index=True, return_inverse=True)
            mask, idx, inv = [np.asarray(x) for x in (jax.jit(f) if jit else f)(A, jnp.asarray(cost), jnp.asarray(fil))]
            lab = f"{n} entries, cost {has}, jit {jit}"
            bad = np.nonzero(mask != sel)[0]
            job.expect(not len(bad), lambda: f"{lab}: entry {bad[0]} of value {ids[bad[0]]} selected {mask[bad[0]]}")
            job.expect(np.array_equal(np.sort(idx), np.concatenate([np.nonzero(sel)[0], np.full(len(idx) - sel.sum(), n)])), f"{lab}: indices differ from the mask")
            ok = np.array([0 <= inv[j] < len(idx) and idx[inv[j]] == best[ids[j]] for j in i[fil]])
            job.expect(ok.all(), lambda: f"{lab}: inverse of entry {i[fil][np.nonzero(~ok)[0][0]]} leads to another value")
            job.count("evaluations")
            job.count("distinct_nontrivial")


def forms(job, name):
    """Argument forms, called directly and under jit."""
    from xtructure import numpy as xnp

    jitted = jax.jit(lambda v, k, f: xnp.unique_mask(v, key=k, filled=f, return_index=True))
    if True:
        C, A = load(name, 3)
        rows = [(), (0,), (1, 1), (0, 1, 0), (1, 0, 2, 2, 1, 0, 1)] + ([(2, 1, 1, 2, 0), (0, 0, 0, 0)] if job.thorough else [])
        for tok in rows:
            n = len(tok)
            t = np.array(tok, int)
            v = jax.tree_util.tree_map(lambda l: l[t], A)
            for fil in sorted({tuple([True] * n), tuple(i % 2 == 0 for i in range(n))} | ({tuple([False] * n)} if n == 2 or job.thorough else set())):
                fm = np.array(fil, bool)
                for cost in (None, np.array([(i * 7 + 2) % 3 for i in range(n)], np.float32), np.array([3 - i % 2 for i in range(n)], np.int32)):
                    if not job.thorough and cost is not None and (cost.dtype == np.int32) == bool(n % 2):
                        continue
                    key = None if cost is None else jnp.asarray(cost)
                    lab = f"{C.__name__} direct"
                    g = t[None]
                    valid, sel, rep = reference(g, fm[None], None if cost is None else cost[None]) if n else (fm[None], fm[None], t[None])
                    m = np.asarray(xnp.unique_mask(v, key=key, filled=jnp.asarray(fm)))
                    job.expect(m.shape == (n,) and m.dtype == bool and (m == sel[0]).all(), lambda: f"{lab} {tok} {fil} {cost}: mask {m.tolist()}, expected {sel[0].tolist()}")
                    m2, ix, iv = [np.asarray(x) for x in xnp.unique_mask(v, key=key, filled=jnp.asarray(fm), return_index=True, return_inverse=True)]
                    job.expect((m2 == sel[0]).all() and sorted(ix.tolist()) == np.nonzero(sel[0])[0].tolist(),
                               lambda: f"{lab} {tok} {fil} {cost}: without a size the indices are {ix.tolist()}, selected {np.nonzero(sel[0])[0].tolist()}")
                    job.expect(iv.shape == (n,) and all(ix[iv[i]] == rep[0][i] for i in range(n) if valid[0][i]),
                               lambda: f"{lab} {tok} {fil} {cost}: indices {ix.tolist()} inverse {iv.tolist()}, representatives {rep[0].tolist()}")
                    if n:
                        two = xnp.unique_mask(v, key=key, filled=jnp.asarray(fm), return_inverse=True)
                        job.expect(len(two) == 2 and all(ix[int(two[1][i])] == rep[0][i] for i in range(n) if valid[0][i]), f"{lab} {tok} {fil}: inverse alone differs")
                        j = jitted(v, key, jnp.asarray(fm))
                        got = sorted(np.asarray(j[1]).tolist())
                        job.expect(got == sorted(np.nonzero(sel[0])[0].tolist() + [n] * (n - int(sel.sum()))) and (np.asarray(j[0]) == sel[0]).all(),
                                   lambda: f"{lab} {tok} {fil} {cost}: under jit without a size the indices are {got}")
                        b = np.asarray(xnp.unique_mask(v, key=key, filled=jnp.asarray(fm), batch_len=n))
                        job.expect((b == sel[0]).all(), f"{lab} {tok} {fil}: explicit batch_len changes the mask")
                    job.count("evaluations", 4)
                    job.count("distinct_nontrivial")
            if n:
                m = np.asarray(xnp.unique_mask(v))
                _, sel, _ = reference(t[None], np.ones((1, n), bool), None)
                job.expect((m == sel[0]).all(), f"{C.__name__} {tok}: mask without any option is {m.tolist()}")
        job.progress(f"forms {name}")


def key_functions(job):
    """A custom key function decides which values count as equal."""
    from mc import zoo
    from xtructure import numpy as xnp

    rows = np.array([[1, 1, 0], [1, 2, 0], [2, 1, 0], [1, 1, 5]], np.uint8)
    C = zoo.mk("ZKey", [("a", jnp.uint8, (), None), ("b", jnp.uint8, (), None), ("c", jnp.uint8, (), None)])
    A = zoo.jn(zoo.from_bits(C, rows))
    for what, fn, gid in (("a", lambda x: x.a, [0, 0, 1, 0]), ("a and b", lambda x: jnp.stack([x.a, x.b]), [0, 1, 2, 0]),
                          ("six words", lambda x: jnp.stack([x.a, x.b, x.c, x.a, x.b, x.c]).astype(jnp.uint32) << 31, None),
                          ("all", lambda x: x.uint32ed, [0, 1, 2, 3])):
        gid = np.array(gid) if gid is not None else np.unique(rows.astype(np.uint32) & 1, axis=0, return_inverse=True)[1].reshape(-1)
        tok = product(4, 4)
        f = jax.jit(lambda t: jax.lax.map(lambda t: xnp.unique_mask(jax.tree_util.tree_map(lambda l: l[t], A), key_fn=fn, return_index=True,
                                                                    return_inverse=True), t))
        mask, idx, inv = [np.asarray(x) for x in f(tok)]
        judge(job, f"key_fn {what}", gid[tok], np.ones(tok.shape, bool), None, mask, idx, inv, toks=tok)


def key_types(job):
    """Key functions may return any number of columns of any type; rows count as equal exactly if they are."""
    from mc import zoo
    from xtructure import numpy as xnp

    C = zoo.ZU8
    A = zoo.jn(zoo.from_bits(C, np.arange(4, dtype=np.uint8)[:, None]))
    wide = [np.uint64, np.int64, np.float64] if jax.config.jax_enable_x64 else []
    near = {"b": [0, 1], "u": [0, 1, 2], "i": [-1, 0, 1], "f": [0.25, 0.5, -0.25, 0.75]}
    tok = product(4, 4 if not job.thorough else 5)
    for dt in [np.bool_, np.uint8, np.int8, np.uint16, np.int32, np.uint32, np.float16, jnp.bfloat16, np.float32] + wide:
        dt = np.dtype(dt)
        kind = "f" if dt == jnp.bfloat16 else dt.kind
        base = near[kind]
        if kind in "ui" and dt.itemsize > 1:
            base = base + [1 << (8 * dt.itemsize - 2), (1 << (8 * dt.itemsize - 2)) + 1, (1 << (4 * dt.itemsize)) + 1]
        elif kind == "f" and dt.itemsize > 2:
            base = base + [1.0, float(np.nextafter(dt.type(1), dt.type(2))), 2.0 ** 40, 2.0 ** 40 * (1 + 2.0 ** -20)]
        for width in (0, 1, 2, 3, 5, 9):  # 0: the key function returns a scalar
            w = max(width, 1)
            table = []
            for first in range(0, len(base), 3):
                part = [base[(first + i) % len(base)] for i in range(4)]
                # four rows that differ in one column, in each column once
                for col in sorted({0, w // 2, w - 1}):
                    rows = np.full((4, w), base[0]).astype(dt)
                    rows[:, col] = np.array(part).astype(dt)
                    table.append(rows)
            table = np.array(table)
            tab = jnp.asarray(table if width else table[:, :, 0])
            assert tab.dtype == dt

            def one(tb, t):
                return xnp.unique_mask(jax.tree_util.tree_map(lambda l: l[t], A), key_fn=lambda x: tb[x.x.astype(jnp.int32)],
                                       return_index=True, return_inverse=True)
            f = jax.jit(jax.vmap(jax.vmap(one, in_axes=(None, 0)), in_axes=(0, None)))
            out = [np.asarray(x) for x in f(tab, jnp.asarray(tok))]
            for i, rows in enumerate(table):
                seen = {}
                gid = np.array([seen.setdefault(r.tobytes(), len(seen)) for r in rows])
                mask, idx, inv = [o[i] for o in out]
                judge(job, f"key_fn returning {width or 'one scalar'} {dt.name}, rows {rows.tolist()}", gid[tok], np.ones(tok.shape, bool), None, mask, idx, inv,
                      toks=tok)
            job.progress((dt.name, width))
