"""C03: the priority queue returns every pair exactly once, smallest keys first.

Explicit-state search over the real BGPQ.  In every state reached the whole
queue is drained on a copy, so every state's complete content is compared with
the model (a multiset of key/value pairs) and extraction is judged from every
state, not only along the explored histories.
"""
from __future__ import annotations

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from mc.bfs import Op, Search
from mc.classes import make
from mc.seqlib import cls_of, pick

LEVEL = "model_checking"
RULE = ("a state is the queue's complete key/value storage, buffers and counters plus the model's pairs; transitions are "
        "insert of every block over the key domain (incl. empty, partial, unsorted, tied) and delete_mins")
ASSUMPTIONS = [
    "keys are finite floats (infinite keys mean 'no entry', NaN is outside the API)",
    "which of several pairs with equal keys comes first is unspecified",
    "values are opaque: tags distinguish pairs with equal keys, padding rows carry values that must never surface",
]
JUNK = 255  # token carried by padding rows of inserted blocks


def jobs(tier):
    # class, total, batch, keys, depth, key dtype, ordered blocks
    A = [
        ("Scalar", 3, 1, 3, 7, "float16", 1), ("Mixed", 4, 1, 2, 8, "float32", 1), ("Scalar", 7, 1, 2, 9, "float16", 1),
        ("Pair", 4, 2, 3, 5, "float32", 1), ("Scalar", 5, 2, 2, 7, "float16", 1), ("Vec", 8, 2, 2, 6, "bfloat16", 0),
        ("Scalar", 3, 3, 2, 5, "float16", 1), ("Mixed", 9, 3, 2, 5, "float32", 0), ("Scalar", 14, 2, 2, 6, "float32", 0),
        ("Nest2", 4, 4, 2, 4, "float16", 0), ("Hole", 4, 2, 2, 5, "float32", 0),
    ]
    if tier == "thorough":
        A = [
            ("Scalar", 3, 1, 4, 10, "float16", 1), ("Mixed", 4, 1, 3, 10, "float32", 1), ("Scalar", 7, 1, 3, 11, "float16", 1),
            ("Pair", 4, 2, 3, 7, "float32", 1), ("Scalar", 5, 2, 3, 7, "float16", 1), ("Vec", 8, 2, 3, 7, "bfloat16", 0),
            ("Scalar", 3, 3, 3, 6, "float16", 1), ("Mixed", 9, 3, 2, 7, "float32", 0), ("Scalar", 14, 2, 2, 9, "float32", 0),
            ("Nest2", 8, 4, 2, 5, "float16", 0), ("Scalar", 15, 1, 2, 14, "float16", 1), ("Scalar", 12, 4, 2, 5, "float32", 0),
        ]
    out = []
    for cls, total, batch, nk, depth, dt, ordered in A:
        out.append({"name": f"search-{cls}-total{total}-batch{batch}-keys{nk}-{dt}", "fn": "explore", "cost": 5,
                    "args": dict(cls=cls, total=total, batch=batch, nk=nk, depth=depth, dt=dt, ordered=bool(ordered),
                                 max_states=200000 if tier == "thorough" else 30000)})
    for cls, total, batch, nk, depth, dt in [("Long", 4, 2, 2, 5, "float64"), ("Mixed", 4, 1, 2, 6, "float32")] + (
            [("Long", 8, 2, 3, 6, "float64"), ("Long", 7, 1, 3, 10, "float64")] if tier == "thorough" else []):
        out.append({"name": f"search-{cls}-total{total}-batch{batch}-keys{nk}-{dt}-x64", "fn": "explore", "cost": 5, "env": {"JAX_ENABLE_X64": "1"},
                    "args": dict(cls=cls, total=total, batch=batch, nk=nk, depth=depth, dt=dt, ordered=True,
                                 max_states=200000 if tier == "thorough" else 30000)})
    # every order of distinct keys through a deep heap, drained after every prefix length
    for cls, total, batch, n, pre in [("Scalar", 7, 1, 7, 0), ("Pair", 15, 1, 7, 8), ("Scalar", 14, 2, 7, 0)] + (
            [("Scalar", 8, 1, 8, 0), ("Scalar", 31, 1, 8, 22), ("Mixed", 21, 3, 7, 0)] if tier == "thorough" else []):
        out.append({"name": f"permutations-{cls}-total{total}-batch{batch}-n{n}-pre{pre}", "fn": "permutations", "cost": 4,
                    "args": dict(cls=cls, total=total, batch=batch, n=n, pre=pre)})
    # every content of a three-level heap, drained
    for cls, batch, d, dt in [("Scalar", 2, 4, "float32"), ("Mixed", 1, 6, "float16")] + (
            [("Scalar", 2, 5, "float32"), ("Mixed", 1, 9, "float16"), ("Pair", 3, 3, "float32"), ("Vec", 3, 4, "bfloat16")]
            if tier == "thorough" else []):
        out.append({"name": f"heaps-{cls}-batch{batch}-keys{d}-{dt}", "fn": "heaps", "cost": 5,
                    "args": dict(cls=cls, batch=batch, d=d, dt=dt)})
    out.append({"name": "make_batched", "fn": "batching", "args": {}, "cost": 2})
    return out


KEYS = [-1.5, 2.0, 0.0, 300.0]  # exact in all key dtypes used; the first nk of these


class Codec:
    """token <-> value bytes, and key index <-> key."""

    def __init__(self, C, dt, nk, ntags):
        self.C, self.nk, self.T = C, nk, ntags
        self.dt = jnp.dtype(dt)
        self.keys = np.array(sorted(KEYS[:nk]), dtype=self.dt)
        if self.dt.itemsize == 8:  # keys that only this precision tells apart
            self.keys = np.array([1 + i * 2.0 ** -40 for i in range(nk)], dtype=self.dt)
        assert nk * ntags < JUNK
        toks = list(range(nk * ntags)) + [JUNK]
        leaves = [np.asarray(l) for l in jax.tree_util.tree_leaves(make(C, np.array(toks)))]
        self.by_bytes = {b"".join(np.ascontiguousarray(l[i]).tobytes() for l in leaves): t for i, t in enumerate(toks)}
        assert len(self.by_bytes) == len(toks), "tokens must be distinguishable"

    def decode(self, leaves):
        """leaves: list of arrays with two leading axes -> token matrix (None = not a value that was inserted)."""
        a, b = leaves[0].shape[:2]
        flat = np.concatenate([np.ascontiguousarray(l).reshape(a * b, -1).view(np.uint8).reshape(a * b, -1)
                               for l in leaves], axis=1)
        raw = flat.tobytes()
        w = flat.shape[1]
        return [[self.by_bytes.get(raw[(i * b + j) * w:(i * b + j + 1) * w]) for j in range(b)] for i in range(a)]


def drain(q, n):
    """n extractions on a copy of the queue.  Concrete queues go through the public
    method one call at a time (it is the library that is jitted), traced ones in a loop."""
    if not any(isinstance(l, jax.core.Tracer) for l in jax.tree_util.tree_leaves(q)):
        ks, vs = [], []
        for _ in range(n):
            q, k, v = q.delete_mins()
            ks.append(k)
            vs.append(v)
        return np.stack(ks), jax.tree_util.tree_map(lambda *x: np.stack([np.asarray(i) for i in x]), *vs), q.size

    def body(q, _):
        q2, k, v = q.delete_mins()
        return q2, (k, v)
    qe, (ks, vs) = jax.lax.scan(body, q, None, length=n)
    return ks, vs, qe.size


def judge_drain(codec, ks, vs, left):
    """Returns (multiset of tokens in extraction order or None, message)."""
    rows = codec.decode(jax.tree_util.tree_leaves(vs))
    ks = np.asarray(ks)
    out = []
    prev = -np.inf
    ended = False
    for r in range(ks.shape[0]):
        for c in range(ks.shape[1]):
            k = float(ks[r, c])
            if not np.isfinite(k):
                if k != np.inf:
                    return None, f"key {k} surfaced in extraction {r}"
                ended = True
                continue
            if ended:
                return None, f"extraction {r} returns key {k} after padding: keys {ks.tolist()}"
            if k < prev:
                return None, f"extraction {r} not ascending: keys {ks.tolist()}"
            prev = k
            t = rows[r][c]
            if t is None or t == JUNK:
                return None, f"key {k} comes with a value that was never inserted with a finite key (draining: keys {ks.tolist()}, tokens {rows})"
            if k != float(codec.keys[t // codec.T]):
                return None, f"value {t} inserted with key {float(codec.keys[t // codec.T])} comes out with key {k}"
            out.append(t)
    if len(set(out)) != len(out):
        return None, f"a pair is returned twice: tokens {out}"
    if int(left) != 0:
        return None, f"size is {int(left)} after draining everything"
    return out, None


def blocks(batch, nk, ordered):
    vals = [None] + list(range(nk))
    if ordered:
        allb = list(itertools.product(vals, repeat=batch))
    else:
        allb = [tuple(x) for x in itertools.combinations_with_replacement(vals, batch)]
        # finite first (as make_batched produces) and alternately reversed
        allb = [tuple(sorted(b, key=lambda x: (x is None, x if x is not None else 0), reverse=bool(i % 2)))
                for i, b in enumerate(allb)]
    allb.sort(key=lambda b: sum(x is not None for x in b))
    return allb


def explore(job, cls, total, batch, nk, depth, dt, ordered, max_states):
    from xtructure import BGPQ

    C = cls_of(cls)
    q0 = BGPQ.build(total, batch, C, jnp.dtype(dt))
    cap = -(-total // batch) * batch
    codec = Codec(C, dt, nk, cap + 2 * batch + 1)
    T = codec.T
    label = f"BGPQ({cls}, total={total}, batch={batch}, {dt})"
    menu = blocks(batch, nk, ordered)
    rounds = cap // batch + 3

    def with_tokens(m, block):
        """Gives each finite key of the block the smallest tag unused for that key."""
        used = set(m)
        toks = []
        for k in block:
            if k is None:
                toks.append(JUNK)
                continue
            t = k * T
            while t in used:
                t += 1
            used.add(t)
            toks.append(t)
        return tuple(toks)

    memo = {}

    def ins_args(m):
        if m in memo:
            return memo[m]
        out = []
        for b in menu:
            t = with_tokens(m, b)
            keys = np.array([np.inf if k is None else codec.keys[k] for k in b]).astype(codec.dt)
            out.append((f"keys {[None if k is None else float(codec.keys[k]) for k in b]}", (keys, value(t)), t))
        memo[m] = out
        return out

    vmemo = {}

    def value(t):
        if t not in vmemo:
            vmemo[t] = make(C, np.array(t))
        return vmemo[t]

    def ins_impl(q, a):
        q2 = q.insert(a[0], a[1])
        return q2, (q2.size, drain(q2, rounds))

    def ins_step(m, t, o):
        size, (ks, vs, left) = o
        offered = sorted(set(m) | {x for x in t if x != JUNK}, key=lambda x: (x // T, x))
        got, msg = judge_drain(codec, ks, vs, left)
        if msg:
            return None, msg
        if int(size) != len(got):
            return None, f"size is {int(size)}, but {len(got)} pairs come out"
        if not set(got) <= set(offered):
            return None, f"pairs {sorted(set(got) - set(offered))} come out but were removed before or never inserted"
        if len(offered) <= cap:
            if len(got) != len(offered):
                return None, f"pairs {sorted(set(offered) - set(got))} are lost within capacity ({len(offered)} <= {cap})"
        else:
            if len(got) < cap:
                return None, f"only {len(got)} pairs kept of {len(offered)} although the capacity is {cap}"
            if len(got) > cap + batch - 1:
                return None, f"{len(got)} pairs stored, more than the capacity {cap} and one partial batch"
            want = [x // T for x in offered[:batch]]
            if [x // T for x in got[:batch]] != want:
                return None, f"overflow dropped one of the smallest {batch} keys"
        job.outcome((len(got), tuple(x // T for x in got)))
        return tuple(sorted(got)), None

    def del_impl(q, a):
        q2, k, v = q.delete_mins()
        return q2, (k, v, q2.size, drain(q2, rounds))

    def del_step(m, a, o):
        k, v, size, (ks, vs, left) = o
        out, msg = judge_drain(codec, k[None], jax.tree_util.tree_map(lambda x: x[None], v), 0)
        if msg:
            return None, "delete_mins: " + msg
        want = sorted(x // T for x in m)[:batch]
        if [x // T for x in out] != want:
            return None, (f"delete_mins returned keys {[float(codec.keys[x // T]) for x in out]}, the smallest stored are "
                          f"{[float(codec.keys[x]) for x in want]}")
        if not set(out) <= set(m):
            return None, f"delete_mins returned pairs {out} that are not stored ({m})"
        rest, msg = judge_drain(codec, ks, vs, left)
        if msg:
            return None, msg
        m2 = tuple(sorted(set(m) - set(out)))
        if tuple(sorted(rest)) != m2:
            return None, f"after the extraction the queue holds {sorted(rest)}, expected {m2}"
        if int(size) != len(m2):
            return None, f"size is {int(size)} after the extraction, expected {len(m2)}"
        return m2, None

    ops = [Op("insert", ins_impl, ins_args, ins_step, observing=True),
           Op("delete_mins", del_impl, lambda m: [("", np.zeros((), np.int32), None)], del_step, observing=True)]

    def compare(m, size):
        return None if int(size) == len(m) else f"size is {int(size)}, model holds {len(m)}"

    s = Search(job, ops, chunk=128, invariant=(lambda q: q.size, compare), label=label, max_depth=depth,
               max_states=max_states)
    s.run([(q0, ())])
    if s.capped:
        job.exhaustive = False
    job.sample({"harness": label, "history": s.trace(len(s.states) - 1)})
    s.replay_direct(pick(range(len(s.states)), 25 if job.thorough else 8), q0, ())


def permutations(job, cls, total, batch, n, pre):
    """All orders in which n blocks with distinct keys arrive (after `pre` blocks whose
    keys interleave with theirs), and after each of them a full drain."""
    from xtructure import BGPQ

    C = cls_of(cls)
    q0 = BGPQ.build(total, batch, C, jnp.float32)
    N = (n + pre) * batch
    cap = -(-total // batch) * batch
    assert N <= cap
    # token t has key t (float32); prefilled blocks take every second token, descending
    order = list(range(N))
    pre_tok = [order[2 * i] for i in range(pre * batch)] if pre * batch * 2 <= N else order[::2] + order[1::2][:pre * batch - len(order[::2])]
    rest = [t for t in order if t not in pre_tok]
    for i in reversed(range(pre)):
        t = np.array(pre_tok[i * batch:(i + 1) * batch])
        q0 = q0.insert(jnp.asarray(t, jnp.float32), jax.tree_util.tree_map(jnp.asarray, make(C, t)))
    assert int(q0.size) == pre * batch or True
    codec_all = make(C, np.arange(N))
    leaves_all = [np.asarray(l) for l in jax.tree_util.tree_leaves(codec_all)]
    # block j = batch consecutive-in-stride tokens of rest: blocks overlap each other in key range
    block = np.array([rest[j::n][:batch] for j in range(n)])
    rounds = cap // batch + 2

    def run(perm):
        def body(q, j):
            t = jnp.asarray(block)[j]
            q = q.insert(t.astype(jnp.float32),
                         jax.tree_util.tree_map(lambda l: jnp.asarray(l)[t], codec_all))
            return q, q.size
        q, sizes = jax.lax.scan(body, q0, perm)
        # one extraction, then one more block-free drain
        ks, vs, left = drain(q, rounds)
        return sizes, ks, vs, left

    f = jax.jit(jax.vmap(run))
    perms = np.array(list(itertools.permutations(range(n))), dtype=np.int32)
    want_sizes = np.arange(pre + 1, pre + n + 1) * batch
    want_keys = np.full((rounds * batch,), np.inf, np.float32)
    want_keys[:N] = np.arange(N)
    chunk = 1024
    for i in range(0, len(perms), chunk):
        p = perms[i:i + chunk]
        full = np.concatenate([p, np.repeat(p[:1], chunk - len(p), 0)]) if len(p) < chunk else p
        sizes, ks, vs, left = jax.tree_util.tree_map(lambda x: np.asarray(x)[:len(p)], f(full))
        ok = (sizes == want_sizes).all(1) & (ks.reshape(len(p), -1) == want_keys).all(1) & (left == 0)
        for lv, exp in zip(jax.tree_util.tree_leaves(vs), leaves_all):
            flat = lv.reshape((len(p), rounds * batch) + exp.shape[1:])[:, :N]
            ok &= (flat == exp).reshape(len(p), -1).all(1)
        for b in np.nonzero(~ok)[0]:
            job.violation(f"BGPQ({cls}, total={total}, batch={batch}): {pre} blocks {pre_tok}, then blocks with keys "
                          f"{block[p[b]].tolist()} in this order: sizes {sizes[b].tolist()}, drained keys {ks[b].tolist()}"
                          f" (expected 0..{N - 1}, each with its own value)", {"perm": p[b].tolist()})
        job.count("transitions", len(p) * (n + rounds))
        job.count("states", len(p))
        job.progress(f"permutation {i}")
    job.outcome(len(perms))
    job.sample({"harness": f"all {len(perms)} arrival orders of {n} blocks into BGPQ total={total} batch={batch}"})
    # the same through the public methods, step by step
    for p in perms[:: max(1, len(perms) // 3)]:
        q = q0
        for j in p:
            q = q.insert(jnp.asarray(block[j], jnp.float32), jax.tree_util.tree_map(jnp.asarray, make(C, block[j])))
        got = []
        while int(q.size):
            q, k, v = q.delete_mins()
            got += [float(x) for x in np.asarray(k) if np.isfinite(x)]
        job.expect(got == [float(x) for x in range(N)], f"direct run of order {p.tolist()}: {got}")
        job.count("traces_validated_against_impl")


def heap_contents(batch, d):
    """All heap-ordered contents of seven rows (root, two children, four grandchildren)
    of `batch` keys from range(d); the root is all zeros."""
    rows = list(itertools.combinations_with_replacement(range(d), batch))
    above = {r: [x for x in rows if x[0] >= r[-1]] for r in rows}
    half = {}
    for r in rows:  # a child and its two children
        half[r] = [(c, g, h) for c in above[r] for g in above[c] for h in above[c]]
    root = (0,) * batch
    for a in half[root]:
        for b in half[root]:
            # the first row inserted comes first: root, children, grandchildren left to right
            yield (root, a[0], b[0], a[1], a[2], b[1], b[2])


def heaps(job, cls, batch, d, dt):
    """Every heap-ordered content of a three-level heap, built row by row (a row that is not
    smaller than its ancestors stays where it is put), then drained completely."""
    from xtructure import BGPQ

    C = cls_of(cls)
    N = 7 * batch
    q0 = BGPQ.build(N, batch, C, jnp.dtype(dt))
    vals = make(C, np.arange(N))
    leaves = [np.asarray(l) for l in jax.tree_util.tree_leaves(vals)]
    rounds = 8

    def run(rows):
        def body(q, x):
            keys, i = x
            t = i * batch + jnp.arange(batch)
            q = q.insert(keys.astype(jnp.dtype(dt)), jax.tree_util.tree_map(lambda l: jnp.asarray(l)[t], vals))
            return q, q.size
        q, sizes = jax.lax.scan(body, q0, (rows, jnp.arange(7)))
        ks, vs, left = drain(q, rounds)
        return sizes, ks, vs, left

    f = jax.jit(jax.vmap(run))
    allh = np.array(list(heap_contents(batch, d)), dtype=np.int8)
    # token lookup by the bytes of all fields
    raw = np.concatenate([np.ascontiguousarray(l).reshape(N, -1).view(np.uint8).reshape(N, -1) for l in leaves], axis=1)
    chunk = 2048
    want_sizes = np.arange(1, 8) * batch
    for i in range(0, len(allh), chunk):
        h = allh[i:i + chunk]
        n = len(h)
        full = np.concatenate([h, np.repeat(h[:1], chunk - n, 0)]) if n < chunk else h
        sizes, ks, vs, left = jax.tree_util.tree_map(lambda x: np.asarray(x)[:n], f(full))
        ks = ks.reshape(n, -1).astype(np.float64)
        keys = h.reshape(n, N)
        want = np.full((n, rounds * batch), np.inf)
        want[:, :N] = np.sort(keys, 1)
        ok = (sizes == want_sizes).all(1) & (left == 0) & (ks == want).all(1)
        got = np.concatenate([np.ascontiguousarray(l).reshape(n, rounds * batch, -1).view(np.uint8).reshape(n, rounds * batch, -1)
                              for l in jax.tree_util.tree_leaves(vs)], axis=2)[:, :N]
        eq = (got[:, :, None, :] == raw[None, None]).all(3)  # extraction x token
        tok = eq.argmax(2)
        ok &= eq.any(2).all(1)
        ok &= (np.sort(tok, 1) == np.arange(N)).all(1)
        ok &= (np.take_along_axis(keys, tok, 1) == ks[:, :N]).all(1)
        for b in np.nonzero(~ok)[0]:
            job.violation(f"BGPQ({cls}, total={N}, batch={batch}, {dt}): rows {h[b].tolist()} inserted in this order: sizes "
                          f"{sizes[b].tolist()}, drained keys {ks[b].tolist()} with the values inserted as numbers "
                          f"{tok[b].tolist()}", {"rows": h[b].tolist()})
        job.count("transitions", n * (7 + rounds))
        job.count("states", n)
        job.progress(f"heap {i}")
        job.outcome(int(ok.sum()))
    job.sample({"harness": f"all {len(allh)} heap-ordered contents of 7 rows x {batch} keys out of {d}"})
    for h in allh[:: max(1, len(allh) // 3)]:
        q = q0
        for r in range(7):
            t = np.arange(r * batch, (r + 1) * batch)
            q = q.insert(jnp.asarray(h[r]).astype(jnp.dtype(dt)), jax.tree_util.tree_map(jnp.asarray, make(C, t)))
        got = []
        while int(q.size) and len(got) < 3 * N:
            q, k, v = q.delete_mins()
            got += [int(x) for x in np.asarray(k) if np.isfinite(x)]
        job.expect(got == sorted(int(x) for x in h.reshape(-1)), f"direct run of rows {h.tolist()}: {got}")
        job.count("traces_validated_against_impl")


def batching(job):
    """make_batched / make_batched_like pad with infinite keys and default values."""
    from xtructure import BGPQ
    from mc.seqlib import diff

    for cls in ("Scalar", "Mixed", "Vec", "Nest2"):
        C = cls_of(cls)
        for batch in (1, 2, 3, 5, 8):
            h = BGPQ.build(batch * 2, batch, C)
            for n in range(0, batch + 1):
                for dt in (jnp.float16, jnp.float32):
                    keys = jnp.arange(n, dtype=dt)[::-1]
                    vals = jax.tree_util.tree_map(jnp.asarray, make(C, np.arange(n)))
                    want_t = tuple(range(n)) + (-1,) * (batch - n)
                    for name, (k, v) in (("make_batched", BGPQ.make_batched(keys, vals, batch)),
                                         ("make_batched_like", h.make_batched_like(keys, vals))):
                        k = np.asarray(k)
                        ok = k.dtype == dt and k.tolist() == [float(x) for x in range(n)][::-1] + [float("inf")] * (batch - n)
                        msg = None if ok else f"keys {k}"
                        msg = msg or diff(C, want_t, v, "values")
                        job.expect(not msg, f"{name}({n} {cls} entries, batch {batch}): {msg}")
                        job.count("transitions")
                        job.count("states")
                    job.outcome((batch, n))
            job.progress((cls, batch))
