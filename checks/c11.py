"""C11: conditional updates apply exactly the first enabled write per position.

Complete enumeration of (index vector, condition vector) pairs - duplicates and
out-of-range entries included - for plain arrays and structured batches, applied
by the real functions and compared with a sequential reference; and of all masks
for conditional selection.
"""
from __future__ import annotations

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from mc.classes import make
from mc.seqlib import cls_of

LEVEL = "exploration"
RULE = ("an evaluation is one (index vector, condition vector, value form) applied to one array or batch, all combinations within the "
        "bound; non-trivial = at least one enabled in-range entry (updates) or a mask that is not constant (selection)")
ASSUMPTIONS = [
    "index vectors are one-dimensional or tuples of those (as documented); tuple indices are in range",
    "scalars written into every field are representable in every field's dtype",
    "conditions of a selection are scalars, masks of exactly the batch shape, or (strict form) of every field's shape",
]

CLASSES = ["Pair", "Vec", "Mixed", "Nest2", "Inner", "Hole"]
INT = {"int8": jnp.int8, "uint8": jnp.uint8, "int16": jnp.int16, "uint16": jnp.uint16, "int32": jnp.int32, "uint32": jnp.uint32}


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for N, m in [(1, 4), (2, 4), (3, 4), (4, 3), (1, 1), (3, 0)] + ([(3, 5), (4, 4), (5, 4)] if deep else []):
        out.append({"name": f"array-{N}-updates{m}", "fn": "arrays", "cost": 2 + m, "args": dict(N=N, m=m)})
    for d in INT:
        out.append({"name": f"index-{d}", "fn": "index_dtypes", "cost": 6, "args": {"dtype": d}})
    for c in CLASSES:
        out.append({"name": f"records-{c}", "fn": "records", "cost": 11, "args": {"cls": c, "deep": deep}})
        out.append({"name": f"tuples-{c}", "fn": "tuples", "cost": 9, "args": {"cls": c, "deep": deep}})
        out.append({"name": f"select-{c}", "fn": "select", "cost": 9, "args": {"cls": c, "deep": deep}})
    for fn in ("records", "tuples", "select"):
        out.append({"name": f"{fn}-Long-x64", "fn": fn, "cost": 9, "args": {"cls": "Long", "deep": deep}, "env": {"JAX_ENABLE_X64": "1"}})
    out.append({"name": "array-3-updates3-x64", "fn": "arrays", "cost": 6, "args": dict(N=3, m=3), "env": {"JAX_ENABLE_X64": "1"}})
    for d in ("int64", "uint64", "int32"):
        out.append({"name": f"index-{d}-x64", "fn": "index_dtypes", "cost": 6, "args": {"dtype": d}, "env": {"JAX_ENABLE_X64": "1"}})
    for c in ("Pair", "Vec"):
        out.append({"name": f"long-vectors-{c}", "fn": "long_vectors", "cost": 8, "args": {"cls": c, "deep": deep}})
    out.append({"name": "select-mixed-types", "fn": "mixed", "cost": 3, "args": {}})
    out.append({"name": "strict-select", "fn": "strict", "cost": 6, "args": {}})
    return out


def reference(base, idx, cond, vals):
    """base (P,), idx/cond (R, m), vals (R or 1, m) token arrays -> (R, P); out-of-range entries are dropped."""
    R, m = idx.shape
    P = len(base)
    out = np.tile(base, (R, 1))
    vals = np.broadcast_to(vals, (R, m))
    for j in reversed(range(m)):
        ok = cond[:, j] & (idx[:, j] >= 0) & (idx[:, j] < P)
        r = np.nonzero(ok)[0]
        out[r, idx[r, j]] = vals[r, j]
    return out


def rows_of(domain, m):
    idx = np.array(list(itertools.product(domain, repeat=m)), np.int64).reshape(len(domain) ** m, m)
    cond = np.array(list(itertools.product((True, False), repeat=m)), bool).reshape(1 << m, m)
    return np.repeat(idx, len(cond), 0), np.tile(cond, (len(idx), 1))


def batched(f, *args, chunk=4096):
    n = len(args[0])
    chunk = min(chunk, n)
    g = jax.jit(jax.vmap(f))
    parts = []
    for i in range(0, n, chunk):
        p = [a[i:i + chunk] for a in args]
        k = len(p[0])
        p = [np.concatenate([a, np.repeat(a[:1], chunk - k, 0)]) for a in p]
        parts.append(jax.tree_util.tree_map(lambda x: np.asarray(x)[:k], g(*p)))
    return jax.tree_util.tree_map(lambda *x: np.concatenate(x), *parts)


def check(job, label, got, table, tokens, describe):
    """got: instance batched (R, ...batch); tokens (R, ...batch) index into table (leaves with one leading axis)."""
    bad = np.zeros(len(tokens), bool)
    gl, tl = jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(table)
    job.expect(len(gl) == len(tl), f"{label}: the result has {len(gl)} fields instead of {len(tl)}")
    for g, t in zip(gl, tl):
        g, want = np.asarray(g), np.asarray(t)[tokens]
        if g.shape != want.shape or g.dtype != want.dtype:
            job.violation(f"{label}: a field has shape {g.shape} dtype {g.dtype}, expected {want.shape} {want.dtype}")
            return
        a = np.ascontiguousarray(g).reshape(len(g), -1).view(np.uint8)
        b = np.ascontiguousarray(want).reshape(len(g), -1).view(np.uint8)
        bad |= (a != b).any(1)
    for r in np.nonzero(bad)[0][:3]:
        job.violation(f"{label}: {describe(int(r))}: result {[np.asarray(g)[r].tolist() for g in gl]}, expected "
                      f"{[np.asarray(t)[tokens[r]].tolist() for t in tl]} (records {tokens[r].tolist()})")
    job.count("evaluations", len(tokens))
    job.progress(label)


def pick(n, k):
    return sorted({int(i * (n - 1) / max(1, k - 1)) for i in range(k)}) if n else []


def lead(x):
    return jax.tree_util.tree_map(lambda l: np.asarray(l)[None], x)


def arrays(job, N, m):
    from xtructure import numpy as xnp

    idx, cond = rows_of([-2, -1] + list(range(N)) + [N, 2**31 - 1], m) if m < 4 or N < 3 else rows_of([-1] + list(range(N)) + [N], m)
    base = np.arange(N)
    for dt, inner in ((jnp.float32, ()), (jnp.uint8, (m or 2,)), (jnp.int16, (N, 1)), (jnp.bool_, ())):
        n = N + m + 1
        size = int(np.prod(inner))
        raw = np.arange(n * size).reshape((n,) + inner)
        table = (raw % 2 == 1) if dt == jnp.bool_ else raw.astype(jnp.dtype(dt))
        T = jnp.asarray(table)
        for form in ("array", "scalar") if not inner else ("array", "one"):
            vals = T[N:N + m] if form == "array" else T[N + m]
            tok = np.arange(N, N + m) if form == "array" else np.full(m, N + m)
            f = lambda i, c: xnp.update_on_condition(T[:N], i, c, vals)
            got = batched(f, idx.astype(np.int32), cond)
            want = reference(base, idx, cond, tok)
            lab = f"update_on_condition({np.dtype(dt).name} array of shape {(N,) + inner}, {form} value)"
            check(job, lab, got, table, want, lambda r: f"indices {idx[r].tolist()} condition {cond[r].tolist()}")
            for r in pick(len(idx), 6):
                d = f(jnp.asarray(idx[r], jnp.int32), jnp.asarray(cond[r]))
                check(job, lab + " called directly", lead(d), table, want[r:r + 1], lambda _: f"indices {idx[r].tolist()} condition {cond[r].tolist()}")
            job.count("distinct_nontrivial", int((want != base).any(1).sum()))
    job.sample({"indices": idx[len(idx) // 2].tolist(), "condition": cond[len(idx) // 2].tolist()})


def index_dtypes(job, dtype):
    """Index types too narrow for the array, and positions around their limits."""
    from xtructure import numpy as xnp

    dt = np.dtype(dtype)
    lim = np.iinfo(dt)
    for N in (3, 100, 128, 129, 200, 256, 300, 40000, 65536, 70000):
        cand = [0, 1, 2, 126, 127, 128, 129, 200, 254, 255, 256, 299, 32767, 32768, 39999, 65535, 65536, N - 1, N, -1, -128]
        dom = sorted({c for c in cand if lim.min <= c <= lim.max})
        idx, cond = rows_of(dom, 2)
        base = np.zeros(N, np.uint8)
        vals = np.array([1, 2])

        def f(i, c):
            y = xnp.update_on_condition(jnp.zeros(N, jnp.uint8), i, c, jnp.array([1, 2], jnp.uint8))
            # positions that matter, and everything else summed up
            return y[jnp.array([min(max(d, 0), N - 1) for d in dom])], y.astype(jnp.int32).sum()
        got, total = batched(f, idx.astype(dt), cond, chunk=1024)
        pos = np.array([min(max(d, 0), N - 1) for d in dom])
        want = np.array([0])
        w = np.zeros((len(idx), len(dom)), np.uint8)
        s = np.zeros(len(idx), np.int64)
        for j in (1, 0):
            ok = cond[:, j] & (idx[:, j] >= 0) & (idx[:, j] < N)
            w[ok] = np.where(pos[None] == idx[ok, j][:, None], vals[j], w[ok])
        first = cond[:, 0] & (idx[:, 0] >= 0) & (idx[:, 0] < N)
        second = cond[:, 1] & (idx[:, 1] >= 0) & (idx[:, 1] < N) & ~(first & (idx[:, 0] == idx[:, 1]))
        s = first * 1 + second * 2
        bad = (got != w).any(1) | (total != s)
        for r in np.nonzero(bad)[0][:2]:
            job.violation(f"update_on_condition(array of {N}, {dtype} indices {idx[r].tolist()}, condition {cond[r].tolist()}): positions {pos.tolist()} "
                          f"hold {got[r].tolist()} (sum over the array {int(total[r])}), expected {w[r].tolist()} (sum {int(s[r])})")
        job.count("evaluations", len(idx))
        job.count("distinct_nontrivial", int((s > 0).sum()))
        job.progress(N)
    # narrow tuple indices whose raveled position does not fit
    for shape in ((3, 50), (20, 10), (10, 7, 5), (300, 3)):
        coords = sorted({tuple(min(c, n - 1, lim.max) for n in shape) for c in (0, 1, 6, 19, 120, 250)} |
                        {tuple(n - 1 for n in shape)} | {(0,) * (len(shape) - 1) + (shape[-1] - 1,)})
        coords = [c for c in coords if max(c) <= lim.max]
        rows = np.array(list(itertools.product(range(len(coords)), repeat=2)))
        ix = np.array(coords)[rows]                       # (R, 2, rank)
        flat = np.ravel_multi_index(tuple(np.moveaxis(ix, 2, 0)), shape)
        cond = np.ones(flat.shape, bool)

        def g(i, c):
            return xnp.update_on_condition(jnp.zeros(shape, jnp.uint8), tuple(i[:, a] for a in range(len(shape))), c, jnp.array([1, 2], jnp.uint8))
        got = batched(g, ix.astype(dt), cond)
        want = reference(np.zeros(int(np.prod(shape)), np.int64), flat, cond, np.array([1, 2]))
        check(job, f"update_on_condition(array of shape {shape}, tuple of {dtype} indices)", got, np.arange(3, dtype=np.uint8),
              want.reshape((-1,) + shape), lambda r: f"indices {ix[r].T.tolist()}")
    job.sample({"dtype": dtype})


def scalar_record(C, s):
    return jax.tree_util.tree_map(lambda l: np.full((1,) + np.shape(l), s).astype(np.asarray(l).dtype), C.default())


def forms(C, base_n, m, with_scalar=True):
    """(name, value, tokens per update) for values written by m updates; the table holds base, values, single, ones."""
    table = jax.tree_util.tree_map(lambda a, b: np.concatenate([a, b]), make(C, np.arange(base_n + m + 1)), scalar_record(C, 1))
    T = jax.tree_util.tree_map(jnp.asarray, table)
    out = [("one record per entry", jax.tree_util.tree_map(lambda l: l[base_n:base_n + m], T), np.arange(base_n, base_n + m)),
           ("a single record", jax.tree_util.tree_map(lambda l: l[base_n + m], T), np.full(m, base_n + m)),
           ("the scalar 1", 1, np.full(m, base_n + m + 1))]
    return table, T, out


def update_ops():
    from xtructure import numpy as xnp

    return [("update_on_condition", lambda x, i, c, v: xnp.update_on_condition(x, i, c, v)),
            ("at[].set_as_condition", lambda x, i, c, v: x.at[i].set_as_condition(c, v))]


def records(job, cls, deep):
    C = cls_of(cls)
    for N, m in [(1, 2), (2, 2), (3, 3), (2, 3)] + ([(4, 4), (3, 4)] if deep else []):
        idx, cond = rows_of([-1] + list(range(N)) + [N], m)
        table, T, fs = forms(C, N, m)
        X = jax.tree_util.tree_map(lambda l: l[:N], T)
        for vname, V, tok in fs:
            want = reference(np.arange(N), idx, cond, tok)
            for oname, op in update_ops():
                lab = f"{cls} batch of {N}: {oname} with {vname}"
                got = batched(lambda i, c: op(X, i, c, V), idx.astype(np.int32), cond)
                say = lambda r: f"indices {idx[r].tolist()} condition {cond[r].tolist()}"
                check(job, lab, got, table, want, say)
                for r in pick(len(idx), 3):
                    d = op(X, jnp.asarray(idx[r], jnp.int32), jnp.asarray(cond[r]), V)
                    check(job, lab + " called directly", lead(d), table, want[r:r + 1], lambda _: say(r))
                    job.expect(type(d) is C, f"{lab}: the result is a {type(d).__name__}")
            job.count("distinct_nontrivial", int((want != np.arange(N)).any(1).sum()))
    # one position, condition a scalar; the whole range of a slice
    N = 3
    table, T, fs = forms(C, N, N)
    X = jax.tree_util.tree_map(lambda l: l[:N], T)
    for i in range(N):
        for c in (True, False):
            for name, V, tok in (fs[1], fs[2]):
                want = np.arange(N)
                want[i] = tok[0] if c else i
                got = X.at[i].set_as_condition(jnp.asarray(c), V)
                check(job, f"{cls}: at[{i}].set_as_condition({c}) with {name}", lead(got), table, want[None], lambda r: "")
    for s in (slice(0, 3), slice(1, 3), slice(None), slice(0, 3, 2), slice(None, None, -1), slice(2, 2), slice(-2, None)):
        pos = np.arange(N)[s]
        table, T, fs = forms(C, N, len(pos))
        X = jax.tree_util.tree_map(lambda l: l[:N], T)
        for c in itertools.product((True, False), repeat=len(pos)):
            for name, V, tok in fs:
                want = reference(np.arange(N), pos[None], np.array([c], bool), tok)
                got = X.at[s].set_as_condition(jnp.asarray(c, bool), V)
                check(job, f"{cls}: at[{s}].set_as_condition({c}) with {name}", lead(got), table, want, lambda r: "")
    job.sample({"class": cls, "indices": idx[len(idx) // 3].tolist(), "condition": cond[len(idx) // 3].tolist()})


def tuples(job, cls, deep):
    """Two-dimensional batches: addressed by pairs of indices, and by rows."""
    C = cls_of(cls)
    for shape, m in [((2, 2), 3), ((2, 3), 2), ((3, 1), 2)] + ([((2, 3), 3), ((2, 2), 4)] if deep else []):
        P = int(np.prod(shape))
        flat, cond = rows_of(list(range(P)), m)
        ij = np.stack(np.unravel_index(flat, shape), -1)
        table, T, fs = forms(C, P, m)
        X = jax.tree_util.tree_map(lambda l: l[:P].reshape(shape + l.shape[1:]), T)
        for vname, V, tok in fs:
            want = reference(np.arange(P), flat, cond, tok).reshape((-1,) + shape)
            for oname, op in update_ops():
                lab = f"{cls} batch {shape}: {oname} with tuple indices and {vname}"
                got = batched(lambda i, c: op(X, (i[:, 0], i[:, 1]), c, V), ij.astype(np.int32), cond)
                say = lambda r: f"indices {ij[r].T.tolist()} condition {cond[r].tolist()}"
                check(job, lab, got, table, want, say)
                for r in pick(len(flat), 2):
                    d = op(X, (jnp.asarray(ij[r, :, 0]), jnp.asarray(ij[r, :, 1])), jnp.asarray(cond[r]), V)
                    check(job, lab + " called directly", lead(d), table, want[r:r + 1], lambda _: say(r))
            job.count("distinct_nontrivial", len(flat))
    # rows of a two-dimensional batch
    for n, w, m in [(2, 2, 2), (3, 2, 2), (2, 3, 2), (3, 3, 1)]:
        idx, cond = rows_of([-1] + list(range(n)) + [n], m)
        P = n * w
        table, T, _ = forms(C, P, m * w)
        X = jax.tree_util.tree_map(lambda l: l[:P].reshape((n, w) + l.shape[1:]), T)
        V = jax.tree_util.tree_map(lambda l: l[P:P + m * w].reshape((m, w) + l.shape[1:]), T)
        for vname, val, tok in (("one row per entry", V, np.arange(P, P + m * w).reshape(m, w)),
                                ("a single record", jax.tree_util.tree_map(lambda l: l[P + m * w], T), np.full((m, w), P + m * w)),
                                ("the scalar 1", 1, np.full((m, w), P + m * w + 1))):
            want = np.stack([reference(np.arange(P).reshape(n, w)[:, k], idx, cond, tok[:, k]) for k in range(w)], -1)
            for oname, op in update_ops():
                got = batched(lambda i, c: op(X, i, c, val), idx.astype(np.int32), cond)
                check(job, f"{cls} batch {(n, w)}: {oname} of rows with {vname}", got, table, want,
                      lambda r: f"indices {idx[r].tolist()} condition {cond[r].tolist()}")
        job.count("distinct_nontrivial", len(idx))
    job.sample({"class": cls})


def select(job, cls, deep):
    """where: scalar conditions and all masks of the batch shape."""
    from xtructure import numpy as xnp

    C = cls_of(cls)
    shapes = [(), (1,), (2,), (3,), (4,), (1, 1), (2, 2), (2, 3), (3, 2), (1, 3), (2, 1, 2), (2, 2, 2)] + ([(3, 3), (2, 2, 3), (10,)] if deep else [])
    for shape in shapes:
        P = int(np.prod(shape))
        table = jax.tree_util.tree_map(lambda a, b: np.concatenate([a, b]), make(C, np.arange(2 * P + 1)), scalar_record(C, 1))
        T = jax.tree_util.tree_map(jnp.asarray, table)
        part = lambda a, b: jax.tree_util.tree_map(lambda l: l[a:b].reshape(shape + l.shape[1:]), T)
        X, Y, one = part(0, P), part(P, 2 * P), jax.tree_util.tree_map(lambda l: l[2 * P], T)
        tx, ty = np.arange(P).reshape(shape), np.arange(P, 2 * P).reshape(shape)
        masks = np.array(list(itertools.product((True, False), repeat=P)), bool).reshape((-1,) + shape)
        for yname, y, t in (("a batch", Y, ty), ("one record", one, np.full(shape, 2 * P))):
            got = batched(lambda c: xnp.where(c, X, y), masks)
            want = np.where(masks, tx, t)
            lab = f"where over {cls} of batch shape {shape}, otherwise {yname}"
            check(job, lab, got, table, want, lambda r: f"condition {masks[r].tolist()}")
            for r in pick(len(masks), 3):
                d = xnp.where(jnp.asarray(masks[r]), X, y)
                check(job, lab + " called directly", lead(d), table, want[r:r + 1], lambda _: f"condition {masks[r].tolist()}")
                job.expect(type(d) is C, f"{lab}: the result is a {type(d).__name__}")
            job.count("distinct_nontrivial", max(0, len(masks) - 2))
            for c in (True, False):
                for form in (c, jnp.asarray(c), np.bool_(c)):
                    d = xnp.where(form, X, y)
                    check(job, lab + f", scalar condition {form!r}", lead(d), table, (tx if c else t)[None], lambda _: "")
    # a scalar instead of a record: value kept in every field (result type follows promotion)
    for shape in ((2,), (3,), (2, 2)):
        P = int(np.prod(shape))
        X = jax.tree_util.tree_map(jnp.asarray, make(C, np.arange(P).reshape(shape)))
        masks = np.array(list(itertools.product((True, False), repeat=P)), bool).reshape((-1,) + shape)
        for s in (0, 1):
            got = batched(lambda c: xnp.where(c, X, s), masks)
            for g, x in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(X)):
                x, g = np.asarray(x), np.asarray(g)
                m = masks.reshape(masks.shape + (1,) * (x.ndim - len(shape)))
                want = np.where(m, x.astype(np.float64)[None], float(s))
                bad = (g.astype(np.float64) != want).reshape(len(masks), -1).any(1)
                for r in np.nonzero(bad)[0][:1]:
                    job.violation(f"where(condition {masks[r].tolist()}, {cls} batch {shape}, {s}): field {g[r].tolist()}, expected {want[r].tolist()}")
            job.count("evaluations", len(masks))
    job.sample({"class": cls, "shapes": shapes})


def long_vectors(job, cls, deep):
    """Vectors far longer than the complete enumeration reaches, every position addressed many times."""
    from xtructure import numpy as xnp

    C = cls_of(cls)
    for N, m in [(3, 17), (3, 65), (7, 130), (300, 1000), (1, 300), (40, 5000)] + ([(40000, 70000), (70000, 70000)] if deep else [(70000, 70000)]):
        rows = [(a, b, p, q) for a in (1, 3, 7919) for b in (0, 5) for p, q in ((1, 1), (2, 1), (7, 3))]
        if N > 1000:
            rows = rows[::7]
        j = np.arange(m)
        idx = np.array([(j // (1 + r[1]) * r[0] + r[1]) % (N + 2) - 1 for r in rows])
        cond = np.array([(j * 5 + r[1]) % r[2] < r[3] for r in rows])
        want = reference(np.arange(N), idx, cond, np.arange(N, N + m)[None])
        table = make(C, np.arange(N + m)) if N <= 1000 else {"a": np.arange(N + m).astype(np.int32)}
        T = jax.tree_util.tree_map(jnp.asarray, table)
        X, V = (jax.tree_util.tree_map(lambda l: l[o], T) for o in (slice(0, N), slice(N, N + m)))
        for dt in (jnp.int32, jnp.uint32, jnp.int16, jnp.int8):
            if N >= np.iinfo(dt).max or (N > 1000 and dt == jnp.uint32):
                continue
            use = np.arange(len(rows)) if dt != jnp.uint32 else np.nonzero((idx >= 0).all(1))[0]
            if not len(use):
                continue
            say = lambda r: f"{m} entries, pattern {rows[use[r]]}"
            if N > 1000:
                got = jax.lax.map(lambda x: xnp.update_on_condition(X["a"], x[0], x[1], V["a"]), (jnp.asarray(idx.astype(dt)), jnp.asarray(cond)))
                check(job, f"array of {N}: update_on_condition", got, table["a"], want, say)
            else:
                for oname, op in update_ops():
                    got = jax.lax.map(lambda x: op(X, x[0], x[1], V), (jnp.asarray(idx[use].astype(dt)), jnp.asarray(cond[use])))
                    check(job, f"{cls} batch of {N}: {oname} with {np.dtype(dt).name} indices", got, table, want[use], say)
                d = op(X, jnp.asarray(idx[use[-1]].astype(dt)), jnp.asarray(cond[use[-1]]), V)
                check(job, f"{cls} batch of {N}: {oname} called directly", lead(d), table, want[use[-1:]], lambda _: say(len(use) - 1))
            job.count("distinct_nontrivial", len(use))
    job.sample({"class": cls})


def mixed(job):
    """The two sides may hold different types (as after astype): every element keeps its value."""
    from xtructure import numpy as xnp

    for cls, pairs in (("Pair", [(jnp.int8, jnp.int32), (jnp.uint8, jnp.int16), (jnp.int16, jnp.float32), (jnp.bool_, jnp.int32)]),
                       ("Vec", [(jnp.float16, jnp.float32), (jnp.bfloat16, jnp.float32), (jnp.int8, jnp.float32)]),
                       ("Mixed", [(jnp.int8, jnp.float32), (jnp.uint8, jnp.int32)])):
        C = cls_of(cls)
        for shape in ((3,), (2, 2)):
            P = int(np.prod(shape))
            for small, big in pairs:
                for flip in (False, True):
                    S = make(C, np.arange(P).reshape(shape))
                    S = jax.tree_util.tree_map(lambda l: jnp.asarray((np.arange(l.size) % 2).reshape(l.shape)).astype(small), S)
                    B = jax.tree_util.tree_map(lambda l: jnp.asarray((np.arange(l.size) * 257 + 300).reshape(l.shape)).astype(big), S)
                    if jnp.issubdtype(big, jnp.floating):
                        B = jax.tree_util.tree_map(lambda l: l + 2.0 ** -8, B)
                    X, Y = (B, S) if flip else (S, B)
                    for row in itertools.product((True, False), repeat=P):
                        c = np.array(row).reshape(shape)
                        got = xnp.where(jnp.asarray(c), X, Y)
                        for g, x, y in zip(*map(jax.tree_util.tree_leaves, (got, X, Y))):
                            w = np.where(c.reshape(shape + (1,) * (x.ndim - len(shape))), np.asarray(x).astype(np.float64), np.asarray(y).astype(np.float64))
                            job.expect((np.asarray(g).astype(np.float64) == w).all(), lambda: f"where({c.tolist()}, {cls} of {x.dtype}, {cls} of {y.dtype}): "
                                       f"field {np.asarray(g).tolist()} ({g.dtype}), expected the values {w.tolist()}")
                        job.count("evaluations")
                        job.count("distinct_nontrivial")
    job.sample({"classes": "Pair Vec Mixed"})


def strict(job):
    """where_no_broadcast: per-element conditions given as a structure, or one array fitting every field."""
    from xtructure import numpy as xnp

    for cls, shape in (("Inner", ()), ("Inner", (2,)), ("Vec", (2,)), ("Pair", (3,)), ("Pair", (2, 2)), ("Mixed", ())):
        C = cls_of(cls)
        P = int(np.prod(shape))
        T = make(C, np.arange(2 * P).reshape((2,) + shape))
        X, Y = (jax.tree_util.tree_map(lambda l: jnp.asarray(l[i]), T) for i in (0, 1))
        leaves, tree = jax.tree_util.tree_flatten(X)
        sizes = [l.size for l in leaves]
        bits = sum(sizes)
        rows = np.array(list(itertools.product((True, False), repeat=bits)), bool) if bits <= 10 else None
        assert rows is not None, bits
        cut = np.cumsum([0] + sizes)

        def f(c):
            cs = [c[cut[i]:cut[i + 1]].reshape(leaves[i].shape) for i in range(len(leaves))]
            return xnp.where_no_broadcast(jax.tree_util.tree_unflatten(tree, cs), X, Y)
        got = batched(f, rows)
        for i, (g, x, y) in enumerate(zip(jax.tree_util.tree_leaves(got), leaves, jax.tree_util.tree_leaves(Y))):
            want = np.where(rows[:, cut[i]:cut[i + 1]].reshape((-1,) + x.shape), np.asarray(x), np.asarray(y))
            bad = (np.asarray(g) != want).reshape(len(rows), -1).any(1) if want.size else np.zeros(1, bool)
            for r in np.nonzero(bad)[0][:1]:
                job.violation(f"where_no_broadcast over {cls} {shape} with per-element condition {rows[r].tolist()}: field {i} is {np.asarray(g)[r].tolist()}, expected {want[r].tolist()}")
            job.expect(np.asarray(g).dtype == want.dtype, f"where_no_broadcast changes the dtype of field {i} of {cls}")
        job.count("evaluations", len(rows))
        job.count("distinct_nontrivial", len(rows) - 2)
        if cls == "Pair":
            masks = np.array(list(itertools.product((True, False), repeat=P)), bool).reshape((-1,) + shape)
            got = batched(lambda c: xnp.where_no_broadcast(c, X, Y), masks)
            for g, x, y in zip(jax.tree_util.tree_leaves(got), leaves, jax.tree_util.tree_leaves(Y)):
                job.expect((np.asarray(g) == np.where(masks, np.asarray(x), np.asarray(y))).all(), f"where_no_broadcast over {cls} {shape} with an array condition")
            job.count("evaluations", len(masks))
        # anything that would need broadcasting or casting is refused
        bad_cases = [("another class", lambda: xnp.where_no_broadcast(X, X, cls_of("Scalar").default())),
                     ("another batch shape", lambda: xnp.where_no_broadcast(jax.tree_util.tree_map(lambda l: l.astype(bool), X), X, C.default((5,)))),
                     ("a shorter condition", lambda: xnp.where_no_broadcast(jnp.ones((7,), bool), X, Y)),
                     ("other dtypes", lambda: xnp.where_no_broadcast(jax.tree_util.tree_map(lambda l: l.astype(bool), X), X,
                                                                     jax.tree_util.tree_map(lambda l: l.astype(jnp.float16), Y)))]
        for name, call in bad_cases:
            try:
                r = call()
                job.violation(f"where_no_broadcast over {cls} {shape} accepts {name} and returns {jax.tree_util.tree_map(np.shape, r)}")
            except (ValueError, TypeError):
                pass
            job.count("evaluations")
    job.sample({"classes": "Inner Vec Pair Mixed"})
