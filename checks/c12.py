"""C12: structured array operations act on every field like on an array of records.

Data movement does not look at values, so one batch of pairwise distinct records
decides an operation for every content: the operation is applied to the batch
(all fields) and, independently by numpy, to the array of record numbers; every
output record must be bit for bit the record with that number.  All batch shapes
and all argument combinations within the bound are enumerated, plus all chains
of two operations, and for comparisons and conversions all pairs of values from
a grid.
"""
from __future__ import annotations

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from mc.classes import BY_NAME, make

LEVEL = "exploration"
RULE = ("an evaluation is one (operation with its arguments, class, batch shape) compared record for record with numpy on record numbers; "
        "non-trivial = the batch has at least two records")
ASSUMPTIONS = [
    "operations documented as a per-field map of the jnp function (tile, 1-D *stack forms, block) and negative or omitted axes are judged "
    "on classes whose fields have no inner shape, where the two readings agree",
    "axes, indices and shapes are valid for the batch (invalid ones are judged only where the documentation promises an error)",
    "data movement does not depend on values, so one assignment of pairwise distinct records decides it; values are enumerated separately for comparison and conversion",
]

SCALAR_CLASSES = {"Scalar", "Pair", "Byte"}
QUICK_SHAPES = [(), (0,), (1,), (4,), (2, 3), (1, 2), (2, 0), (2, 1, 3), (1, 1, 2)]
DEEP_SHAPES = [s for k in range(4) for s in itertools.product((0, 1, 2, 3), repeat=k)] + [(2, 1, 1, 2), (5,), (7,), (1, 3, 2, 2), (4, 5)]
D = -1  # record number of the class's default record
CONSTANT = {0: -3, 1: -2}  # numbers of the records whose every entry is that constant


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for c in ["Mixed", "Pair", "Nest2", "Hole"] + (["Vec", "Inner", "Scalar"] if deep else []):
        for s in (DEEP_SHAPES if deep else QUICK_SHAPES if c != "Hole" else [(3,), (0,), (2, 3)]):
            out.append({"name": f"ops-{c}-{s}".replace(" ", ""), "fn": "ops", "cost": 6 + len(s) * 5, "args": {"cls": c, "shape": list(s)}})
    for s in (DEEP_SHAPES[:40] if deep else [(3,), (2, 2)]):
        out.append({"name": f"ops-Long-{s}-x64".replace(" ", ""), "fn": "ops", "cost": 6 + len(s) * 5, "args": {"cls": "Long", "shape": list(s)}, "env": {"JAX_ENABLE_X64": "1"}})
    for c in ["Mixed", "Pair"]:
        out.append({"name": f"chains-{c}", "fn": "chains", "cost": 20, "args": {"cls": c, "deep": deep}})
    for c in ["Mixed", "Pair", "Vec"]:
        out.append({"name": f"direct-{c}", "fn": "direct", "cost": 12, "args": {"cls": c}})
    out.append({"name": "compare", "fn": "compare", "cost": 12, "args": {}})
    out.append({"name": "create-convert", "fn": "convert", "cost": 12, "args": {}})
    out.append({"name": "mismatch", "fn": "mismatch", "cost": 8, "args": {}})
    return out


def records(name, n):
    """Leaves of records 0..n-1, the constant records and the default record (found by their negative numbers)."""
    known = make(BY_NAME[name], np.array(list(range(n)) + [0] * len(CONSTANT) + [D]))

    def constants(leaf):
        leaf = np.array(leaf)
        for value, record in CONSTANT.items():
            leaf[record] = value
        return leaf

    return jax.tree_util.tree_map(constants, known)


def instance(table, tokens):
    return jax.tree_util.tree_map(lambda l: jnp.asarray(np.asarray(l)[tokens]), table)


def compare_result(job, label, got, tokens, table, cls):
    """One instance against an array of record numbers, including everything it reports about itself."""
    if not isinstance(got, cls):
        return job.violation(f"{label}: returned {type(got).__name__} instead of {cls.__name__}")
    b = got.shape.batch
    if b != tokens.shape:
        return job.violation(f"{label}: reported batch shape {b}, expected {tokens.shape}")
    kind = "SINGLE" if tokens.shape == () else "BATCHED"
    if got.structured_type.name != kind or got.ndim != tokens.ndim or got.batch_shape != tokens.shape:
        return job.violation(f"{label}: reports {got.structured_type.name} with ndim {got.ndim} for batch shape {tokens.shape}")
    if len(got) != (tokens.shape[0] if tokens.ndim else 1):
        return job.violation(f"{label}: len() is {len(got)} for batch shape {tokens.shape}")
    gl, tl = jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(table)
    if len(gl) != len(tl):
        return job.violation(f"{label}: {len(gl)} fields instead of {len(tl)}")
    for k, (g, t) in enumerate(zip(gl, tl)):
        want = np.asarray(t)[tokens]
        g = np.asarray(g)
        if g.dtype != want.dtype or g.shape != want.shape:
            return job.violation(f"{label}: field {k} is {g.dtype}{g.shape}, expected {want.dtype}{want.shape}")
        if g.tobytes() != want.tobytes():
            return job.violation(f"{label}: field {k} is {g.tolist()}, expected records {tokens.tolist()} = {want.tolist()}")


def judge(job, label, got, want, table, cls):
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            job.violation(f"{label}: returned {type(got).__name__} of length {len(got) if hasattr(got, '__len__') else '-'}, expected {len(want)} pieces")
        else:
            for i, (g, w) in enumerate(zip(got, want)):
                compare_result(job, f"{label} piece {i}", g, w, table, cls)
    else:
        compare_result(job, label, got, want, table, cls)
    job.count("evaluations")


class Lib:
    """The operations, once on structured instances and once on arrays of record numbers."""

    def __init__(self, side):
        self.x = side == "x"
        if self.x:
            from xtructure import numpy as xnp
            self.m = xnp
        else:
            self.m = np

    def call(self, name, *a, **k):
        return getattr(self.m, name)(*a, **k)


def np_pad(a, width, mode="constant", fill=D):
    nd = max(1, a.ndim)
    a = a if a.ndim else a[None]
    if isinstance(width, int):
        w = [(width, width)] * nd
    elif len(width) == 2 and all(isinstance(i, int) for i in width):
        w = [tuple(width)] + [(0, 0)] * (nd - 1)
    elif all(isinstance(i, int) for i in width):
        w = [(i, i) for i in width]
    else:
        w = [tuple(i) for i in width]
    if mode == "constant":
        return np.pad(a, w, constant_values=fill)
    return np.pad(a, w, mode=mode)


def catalogue(shape, scalar_only):
    """(label, on instances, on record numbers); both take (A, B, C): B like A, C like A but longer by one along axis 0."""
    from xtructure import numpy as X

    nd, n = len(shape), int(np.prod(shape))
    out = []

    def op(label, fx, fn):
        out.append((label, fx, fn))

    def same(name, *a, method=False, **k):
        lab = f"{name}({', '.join([str(v) for v in a] + [f'{q}={v}' for q, v in k.items()])})"
        op(lab, lambda A, B, C: getattr(X, name)(A, *a, **k), lambda A, B, C: getattr(np, name)(A, *a, **k))
        if method:
            op("." + lab, lambda A, B, C: getattr(A, name)(*a, **k), lambda A, B, C: getattr(np, name)(A, *a, **k))

    axes = list(range(nd))
    neg = [-a - 1 for a in axes]
    # joining
    for ax in axes + neg:
        op(f"concat([A,B],axis={ax})", lambda A, B, C, ax=ax: X.concat([A, B], axis=ax), lambda A, B, C, ax=ax: np.concatenate([A, B], axis=ax))
        op(f"concatenate((A,B,A),axis={ax})", lambda A, B, C, ax=ax: X.concatenate((A, B, A), axis=ax), lambda A, B, C, ax=ax: np.concatenate([A, B, A], axis=ax))
    if nd:
        op("concat([A,C,B])", lambda A, B, C: X.concat([A, C, B]), lambda A, B, C: np.concatenate([A, C, B]))
        op("concatenate([C,A])", lambda A, B, C: X.concatenate([C, A]), lambda A, B, C: np.concatenate([C, A]))
        op("concat([A])", lambda A, B, C: X.concat([A]), lambda A, B, C: A)
    else:
        op("concat([A,B])", lambda A, B, C: X.concat([A, B]), lambda A, B, C: np.stack([A, B]))
        op("concatenate([B,A,B])", lambda A, B, C: X.concatenate([B, A, B]), lambda A, B, C: np.stack([B, A, B]))
    for ax in range(-nd - 1, nd + 1):
        op(f"stack([A,B],axis={ax})", lambda A, B, C, ax=ax: X.stack([A, B], axis=ax), lambda A, B, C, ax=ax: np.stack([A, B], axis=ax))
        op(f"stack((B,A,B),axis={ax})", lambda A, B, C, ax=ax: X.stack((B, A, B), axis=ax), lambda A, B, C, ax=ax: np.stack([B, A, B], axis=ax))
        op(f"stack([A],axis={ax})", lambda A, B, C, ax=ax: X.stack([A], axis=ax), lambda A, B, C, ax=ax: np.stack([A], axis=ax))
    joiners = []
    if scalar_only:
        joiners = ["vstack", "hstack", "dstack", "column_stack"]
    else:
        joiners = (["vstack", "hstack"] if nd >= 2 else []) + (["dstack"] if nd >= 3 else []) + (["column_stack"] if nd >= 2 else [])
    for j in joiners:
        op(f"{j}([A,B])", lambda A, B, C, j=j: getattr(X, j)([A, B]), lambda A, B, C, j=j: getattr(np, j)([A, B]))
        op(f"{j}((B,A,A))", lambda A, B, C, j=j: getattr(X, j)((B, A, A)), lambda A, B, C, j=j: getattr(np, j)((B, A, A)))
    if scalar_only:
        op("block([[A,B],[B,A]])", lambda A, B, C: X.block([[A, B], [B, A]]), lambda A, B, C: np.block([[A, B], [B, A]]))
        op("block([A,B])", lambda A, B, C: X.block([A, B]), lambda A, B, C: np.block([A, B]))
        op("block([[A],[B]])", lambda A, B, C: X.block([[A], [B]]), lambda A, B, C: np.block([[A], [B]]))
        for reps in [1, 2, 3, (2,), (1, 2), (2, 1), (2, 3), (1, 2, 1), 0, (2, 0)]:
            same("tile", reps)
    # reshaping
    if nd:
        targets = {(n,), (1, n), (n, 1), (1, n, 1)} | {tuple(p) for p in itertools.permutations(shape)}
        for k in (2, 3):
            targets |= {t for t in itertools.product(range(1, n + 1), repeat=k) if np.prod(t) == n} if n else set()
        for t in sorted(targets, key=lambda t: (len(t), t)):
            same("reshape", t, method=True)
            if n:
                for i in range(len(t)):
                    h = t[:i] + (-1,) + t[i + 1:]
                    op(f"reshape({h})", lambda A, B, C, h=h: X.reshape(A, h), lambda A, B, C, h=h: A.reshape(h))
            if t and len(t) > 1:
                op(f".reshape(*{t})", lambda A, B, C, t=t: A.reshape(*t), lambda A, B, C, t=t: A.reshape(t))
        op("reshape(list)", lambda A, B, C: X.reshape(A, [1, n]), lambda A, B, C: A.reshape(1, n))
        op("reshape(int)", lambda A, B, C: X.reshape(A, n), lambda A, B, C: A.reshape(n))
        if n:
            op(".reshape(-1)", lambda A, B, C: A.reshape(-1), lambda A, B, C: A.reshape(-1))
        for nm in ("flatten", "ravel"):
            op(f"{nm}()", lambda A, B, C, nm=nm: getattr(X, nm)(A), lambda A, B, C: A.reshape(-1))
        op(".flatten()", lambda A, B, C: A.flatten(), lambda A, B, C: A.reshape(-1))
        # axes
        same("transpose", method=True)
        for p in itertools.permutations(axes):
            same("transpose", p)
            op(f"transpose(list{p})", lambda A, B, C, p=p: X.transpose(A, axes=list(p)), lambda A, B, C, p=p: np.transpose(A, p))
            q = tuple(a - nd if i % 2 else a for i, a in enumerate(p))
            same("transpose", q)
        for a, b in itertools.product(axes + neg, repeat=2):
            same("swapaxes", a, b, method=(a == 0))
        for a, b in itertools.product(axes + (neg if scalar_only else []), repeat=2):
            same("moveaxis", a, b, method=(a == 0))
        for k in range(2, nd + 1):
            for src in itertools.permutations(axes, k):
                for dst in itertools.permutations(axes, k):
                    if k < 3 or dst == tuple(axes):
                        same("moveaxis", src, dst)
    for ax in range(-nd - 1 if scalar_only else 0, nd + 1):
        same("expand_dims", ax, method=True)
    for ax in itertools.combinations(range(nd + 2), 2):
        same("expand_dims", ax)
    ones = [a for a in axes if shape[a] == 1]
    for ax in ones:
        same("squeeze", ax, method=True)
        if scalar_only:
            same("squeeze", ax - nd)
    for ax in itertools.combinations(ones, 2):
        same("squeeze", ax)
    if scalar_only:
        same("squeeze", method=True)
    # selecting
    for ax in axes + (neg if scalar_only else []):
        d = shape[ax]
        idx = [np.array([], np.int32)]
        if d:
            idx += [np.arange(d)[::-1].copy(), np.array([0, d - 1, 0]), np.array([-1, 0]), np.array([[0, -1], [d - 1, 0]]), np.int32(d - 1)]
        for i in idx:
            op(f"take({i.tolist()},axis={ax})", lambda A, B, C, i=i, ax=ax: X.take(A, jnp.asarray(i, jnp.int32), axis=ax),
               lambda A, B, C, i=i, ax=ax: A[(slice(None),) * (ax % nd) + (np.asarray(i, int),)])
        if d:
            for mode in ("clip", "wrap"):
                i = np.array([d + 1, 0, d - 1, d])
                op(f"take({i.tolist()},axis={ax},mode={mode})", lambda A, B, C, i=i, ax=ax, mode=mode: X.take(A, jnp.asarray(i), axis=ax, mode=mode),
                   lambda A, B, C, i=i, ax=ax, mode=mode, d=d: A[(slice(None),) * (ax % nd) + (np.minimum(i, d - 1) if mode == 'clip' else i % d,)])
            i = np.array([d, 0, d + 5, d - 1])
            for v, r in CONSTANT.items():
                op(f"take({i.tolist()},axis={ax},mode=fill,fill_value={v})", lambda A, B, C, i=i, ax=ax, v=v: X.take(A, jnp.asarray(i), axis=ax, mode="fill", fill_value=v),
                   lambda A, B, C, i=i, ax=ax, r=r, d=d: np.where((i < d).reshape((-1,) + (1,) * (nd - 1 - ax % nd)), A[(slice(None),) * (ax % nd) + (np.minimum(i, d - 1),)], r))
        if n:
            order = np.argsort((np.arange(n).reshape(shape) * 7 + 3) % (n + 1 if n % 7 == 6 else n + 2), axis=ax, kind="stable")
            one = order.take([0], axis=ax)
            for nm, o in (("full", order), ("one", one), ("dup", np.concatenate([order, one], axis=ax))):
                op(f"take_along_axis({nm},axis={ax})", lambda A, B, C, o=o, ax=ax: X.take_along_axis(A, jnp.asarray(o, jnp.int32), axis=ax),
                   lambda A, B, C, o=o, ax=ax: np.take_along_axis(A, o, axis=ax))
            row = order.take([0], axis=tuple(a for a in axes if a != ax % nd)[0]) if nd > 1 else None
            if row is not None and ax >= 0:
                op(f"take_along_axis(broadcast,axis={ax})", lambda A, B, C, o=row, ax=ax: X.take_along_axis(A, jnp.asarray(o, jnp.int32), axis=ax),
                   lambda A, B, C, o=row, ax=ax: np.take_along_axis(A, np.broadcast_to(o, shape) if o.shape != shape else o, axis=ax))
        for r in (0, 1, 2, 3):
            same("repeat", r, axis=ax)
        rep = np.array([(3 * i + 1) % 4 for i in range(d)], int)
        op(f"repeat({rep.tolist()},axis={ax})", lambda A, B, C, rep=rep, ax=ax: X.repeat(A, rep, axis=ax), lambda A, B, C, rep=rep, ax=ax: np.repeat(A, rep, axis=ax))
        for k in range(1, d + 1):
            if d % k == 0:
                same("split", k, axis=ax)
        for cuts in [(1,), (0, 1), (1, 2), (d,), (2, 2), (d - 1,), ()]:
            if all(0 <= c <= d for c in cuts):
                op(f"split({list(cuts)},axis={ax})", lambda A, B, C, c=cuts, ax=ax: X.split(A, np.array(c, int), axis=ax),
                   lambda A, B, C, c=cuts, ax=ax: np.split(A, np.array(c, int), axis=ax))
    if nd == 1 and n:
        i = np.array([n - 1, 0, -1])
        op("take(idx)", lambda A, B, C: X.take(A, jnp.asarray(i)), lambda A, B, C: np.take(A, i))
    if scalar_only and nd:
        same("repeat", 2)
        op("take_along_axis()", lambda A, B, C: X.take_along_axis(A, jnp.zeros(shape[:-1] + (min(1, shape[-1]),), jnp.int32)),
           lambda A, B, C: np.take_along_axis(A, np.zeros(shape[:-1] + (min(1, shape[-1]),), int), axis=-1))
    # rearranging
    for ax in axes + (neg if scalar_only else []):
        for s in (-4, -1, 0, 1, 2, 5):
            same("roll", s, axis=ax, method=(s == 1))
        same("flip", axis=ax, method=True)
    for a, b in itertools.permutations(axes, 2):
        same("roll", (1, -2), axis=(a, b))
        same("roll", 1, axis=(a, b))
        same("flip", axis=(a, b))
        for k in (-1, 0, 1, 2, 3, 4, 5):
            op(f"rot90({k},{(a, b)})", lambda A, B, C, k=k, a=a, b=b: X.rot90(A, k=k, axes=(a, b)), lambda A, B, C, k=k, a=a, b=b: np.rot90(A, k=k, axes=(a, b)))
    if nd >= 2:
        same("rot90", method=True)
    if scalar_only:
        same("flip", method=True)
        for s in (1, -2):
            same("roll", s, method=True)
    # broadcasting
    goals = {shape, (2,) + shape, (1,) + shape, (2, 3) + shape, (0,) + shape}
    for a in axes:
        if shape[a] == 1:
            goals |= {shape[:a] + (3,) + shape[a + 1:], (2,) + shape[:a] + (2,) + shape[a + 1:], shape[:a] + (0,) + shape[a + 1:]}
    for g in sorted(goals):
        same("broadcast_to", g, method=True)
    op("broadcast_arrays(A,B)", lambda A, B, C: X.broadcast_arrays(A, B), lambda A, B, C: [A, B])
    if nd:
        op("broadcast_arrays(A,C[:1],B)", lambda A, B, C: X.broadcast_arrays(A, C[:1], B), lambda A, B, C: list(np.broadcast_arrays(A, C[:1], B)))
    for k in (1, 2, 3):
        if scalar_only or nd >= k:
            op(f"atleast_{k}d(A)", lambda A, B, C, k=k: getattr(X, f"atleast_{k}d")(A), lambda A, B, C, k=k: getattr(np, f"atleast_{k}d")(A))
            op(f"atleast_{k}d(A,B)", lambda A, B, C, k=k: getattr(X, f"atleast_{k}d")(A, B), lambda A, B, C, k=k: list(getattr(np, f"atleast_{k}d")(A, B)))
    # padding
    m = max(1, nd)
    widths = [0, 1, 2, (0, 0), (0, 2), (1, 0), (2, 1), [1, 2]]
    if m != 2:
        widths += [tuple((i + 1) % 3 for i in range(m))]
    widths += [tuple((i % 2, 2 - i % 3) for i in range(m)), tuple((0, i) for i in range(m)), [[1, 0]] * m]
    for w in widths:
        z = isinstance(w, int) and w == 0 or not isinstance(w, int) and not np.any(np.array(w))
        op(f"pad({w})", lambda A, B, C, w=w: X.pad(A, w), (lambda A, B, C, w=w: A) if z else (lambda A, B, C, w=w: np_pad(A, w)))
        if n or not nd:
            for mode in ("edge", "wrap", "symmetric") + (("reflect",) if all(d > 1 for d in shape) else ()):
                op(f"pad({w},{mode})", lambda A, B, C, w=w, mode=mode: X.pad(A, w, mode=mode), (lambda A, B, C, w=w: A) if z else (lambda A, B, C, w=w, mode=mode: np_pad(A, w, mode)))
        if not z:
            for v, r in CONSTANT.items():
                op(f"pad({w},constant_values={v})", lambda A, B, C, w=w, v=v: X.pad(A, w, constant_values=v), lambda A, B, C, w=w, r=r: np_pad(A, w, fill=r))
            op(f".pad({w},constant,constant_values=1)", lambda A, B, C, w=w: A.pad(w, mode="constant", constant_values=1), lambda A, B, C, w=w: np_pad(A, w, fill=CONSTANT[1]))
    op(".pad(1)", lambda A, B, C: A.pad(1), lambda A, B, C: np_pad(A, 1))
    return out


def inputs(table, shape):
    n = int(np.prod(shape))
    tA = np.arange(n).reshape(shape)
    tB = (np.arange(n) + n).reshape(shape)
    longer = (shape[0] + 1,) + tuple(shape[1:]) if shape else ()
    tC = (np.arange(int(np.prod(longer))) + 2 * n).reshape(longer)
    toks = (tA, tB, tC)
    return toks, [instance(table, t) for t in toks]


def ops(job, cls, shape):
    """Every operation with every argument combination, on one class and batch shape, in one compiled program."""
    shape = tuple(shape)
    n = int(np.prod(shape))
    table = records(cls, 4 * n + 12)
    toks, ins = inputs(table, shape)
    cat = catalogue(shape, cls in SCALAR_CLASSES)
    C = BY_NAME[cls]
    okay = []

    def program(A, B, Cc):
        res = []
        for i, (label, fx, fn) in enumerate(cat):
            try:
                res.append(fx(A, B, Cc))
                okay.append(i)
            except Exception as e:  # judged below: numpy accepts these arguments
                job.violation(f"{label} on {cls}{shape}: raised {type(e).__name__}: {str(e)[:200]}")
        return res

    got = jax.jit(program).lower(*ins).compile({"xla_backend_optimization_level": "0"})(*ins)
    for i, g in zip(okay, got):
        label, fx, fn = cat[i]
        judge(job, f"{label} on {cls}{shape}", g, fn(*toks), table, C)
    job.count("distinct_nontrivial", len(okay) if n > 1 else 0)
    for t, x in zip(toks, ins):
        compare_result(job, f"the operand of an operation on {cls}{shape}", x, t, table, C)
    job.sample({"class": cls, "shape": list(shape), "operations": len(cat), "first": [c[0] for c in cat[:5]]})
    job.progress("operations")


def chains(job, cls, deep):
    """Every ordered pair of operations: the second sees the instance the first returned."""
    from xtructure import numpy as X

    shape = (2, 3)
    table = records(cls, 40)
    toks, ins = inputs(table, shape)
    C = BY_NAME[cls]
    u = [
        ("reshape(3,2)", lambda x: X.reshape(x, (3, 2)) if x.ndim == 2 and x.shape.batch == (2, 3) else X.reshape(x, x.shape.batch[::-1]), lambda t: t.reshape((3, 2) if t.shape == (2, 3) else t.shape[::-1])),
        ("flatten", lambda x: x.flatten(), lambda t: t.reshape(-1)),
        ("transpose", lambda x: x.transpose(), lambda t: t.T),
        ("expand0", lambda x: X.expand_dims(x, 0), lambda t: t[None]),
        ("stack1", lambda x: X.stack([x, x], axis=1), lambda t: np.stack([t, t], 1)),
        ("concat0", lambda x: X.concat([x, x, x]), lambda t: np.concatenate([t, t, t])),
        ("pad(0,1)", lambda x: X.pad(x, (0, 1)), lambda t: np_pad(t, (0, 1))),
        ("row", lambda x: x[1], lambda t: t[1]),
        ("slice", lambda x: x[::-1], lambda t: t[::-1]),
        ("roll", lambda x: X.roll(x, 1, axis=0), lambda t: np.roll(t, 1, axis=0)),
        ("broadcast", lambda x: X.broadcast_to(x, (2,) + x.shape.batch), lambda t: np.broadcast_to(t, (2,) + t.shape)),
        ("split", lambda x: X.split(x, np.array([1]))[1], lambda t: np.split(t, [1])[1]),
        ("take", lambda x: X.take(x, jnp.array([1, 0, 1]), axis=0), lambda t: np.take(t, [1, 0, 1], axis=0)),
        ("repeat", lambda x: X.repeat(x, 2, axis=0), lambda t: np.repeat(t, 2, axis=0)),
        ("set", lambda x: x.at[0].set(x[1]), lambda t: np.concatenate([t[1:2], t[1:]])),
        ("flip", lambda x: X.flip(x, axis=0), lambda t: np.flip(t, axis=0)),
        ("replace", lambda x: x.replace(), lambda t: t),
    ]
    depth = 3 if deep else 2
    seqs = [s for s in itertools.product(range(len(u)), repeat=depth)]
    ran = []

    def program(A):
        # look at every intermediate instance, as code that consults its shape would
        memo, res = {(): A}, []
        for s in seqs:
            for k in range(1, depth + 1):
                p = s[:k]
                if p not in memo:
                    x = memo[p[:-1]]
                    if x is None or x.ndim == 0 or len(x) < 2:
                        memo[p] = None
                        continue
                    try:
                        memo[p] = u[p[-1]][1](x)
                        memo[p].shape, memo[p].structured_type
                        res.append(memo[p])
                        ran.append(p)
                    except Exception as e:
                        memo[p] = None
                        job.violation(f"{' then '.join(u[i][0] for i in p)} on {cls}{shape}: raised {type(e).__name__}: {str(e)[:200]}")
        return res

    got = jax.jit(program).lower(ins[0]).compile({"xla_backend_optimization_level": "0"})(ins[0])
    for p, g in zip(ran, got):
        t = toks[0]
        for i in p:
            t = u[i][2](t)
        judge(job, f"{' then '.join(u[i][0] for i in p)} on {cls}{shape}", g, t, table, C)
    job.count("distinct_nontrivial", len(ran))
    job.sample({"class": cls, "chain": [u[i][0] for i in ran[-1]]})
    job.progress("chains")


def direct(job, cls):
    """A cross-section of the operations called one by one, outside compiled code."""
    shape = (2, 3)
    table = records(cls, 60)
    toks, ins = inputs(table, shape)
    seen = set()
    for label, fx, fn in catalogue(shape, cls in SCALAR_CLASSES):
        name = label.split("(")[0]
        if name in seen and name not in ("pad", "stack"):
            continue
        seen.add(name)
        if name in ("pad", "stack") and len([s for s in seen if s.startswith(name + "#")]) > 3:
            continue
        seen.add(name + "#" + label)
        judge(job, f"{label} on {cls}{shape}, called directly", fx(*ins), fn(*toks), table, BY_NAME[cls])
        for t, x in zip(toks, ins):
            compare_result(job, f"the operand after {label}", x, t, table, BY_NAME[cls])
    job.count("distinct_nontrivial", len(seen))
    job.progress("direct")


GRID = {
    np.dtype(np.float32): np.array([0.0, -0.0, 1.0, 1.0 + 2.0**-23, 1.0 + 1e-5, 1.0 + 2e-5, 1.22, -1.0, 1e-8, 3e-8, 1e30, 1.1e30, np.inf, -np.inf, np.nan], np.float32),
    np.dtype(np.uint8): np.array([0, 1, 2, 127, 128, 255], np.uint8),
    np.dtype(np.uint32): np.array([0, 1, 2, 2**24, 2**24 + 1, 2**31 - 1, 2**31, 2**32 - 1], np.uint32),
    np.dtype(np.int16): np.array([0, 1, -1, 32767, -32768], np.int16),
    np.dtype(np.int32): np.array([0, 1, -1, 2**24 + 1, 2**31 - 1, -2**31], np.int32),
    np.dtype(np.bool_): np.array([False, True]),
    np.dtype(np.uint16): np.array([0, 1, 65535], np.uint16),
}


def grid_pair(proto):
    """Two instances of the same class: every field walks over all pairs of its own grid (repeating)."""
    L = max(len(g) ** 2 for g in GRID.values())
    la, lb = [], []
    for leaf in jax.tree_util.tree_leaves(proto):
        leaf = np.asarray(leaf)
        g = GRID[leaf.dtype]
        p = np.array(list(itertools.product(range(len(g)), repeat=2)))
        inner = leaf.shape
        k = int(np.prod(inner)) if inner else 1
        sel = p[(np.arange(L)[:, None] + np.arange(k)[None] * 5) % len(p)]
        la.append(g[sel[..., 0]].reshape((L,) + inner))
        lb.append(g[sel[..., 1]].reshape((L,) + inner))
    td = jax.tree_util.tree_structure(proto)
    mk = lambda ls: jax.tree_util.tree_unflatten(td, [jnp.asarray(l) for l in ls])
    return mk(la), mk(lb), la, lb, L


def compare(job):
    """equal/not_equal/isclose/allclose and == / != : all pairs of values of a grid, then one differing element at every position."""
    from xtructure import numpy as X

    for cls in ["Scalar", "Pair", "Vec", "Inner", "Mixed", "Nest2"]:
        C = BY_NAME[cls]
        A, B, la, lb, L = grid_pair(make(C, np.int64(0)))
        forms = [("equal", {}, np.equal), ("not_equal", {}, np.not_equal)]
        for rtol, atol, en in [(1e-5, 1e-8, False), (1e-5, 1e-8, True), (0.0, 0.0, False), (0.2, 0.0, True), (0.0, 1.5, False)]:
            forms.append(("isclose", dict(rtol=rtol, atol=atol, equal_nan=en), None))
        for name, kw, ref in forms:
            for how in ("function", "method"):
                got = getattr(X, name)(A, B, **kw) if how == "function" else getattr(A, name)(B, **kw)
                job.count("evaluations", L)
                if not job.expect(isinstance(got, C), f"{name} on {cls} returned {type(got).__name__}"):
                    continue
                for k, (g, a, b) in enumerate(zip(jax.tree_util.tree_leaves(got), la, lb)):
                    # close-ness is judged with jnp on the plain arrays (integer promotion is jnp's business)
                    want = ref(a, b) if ref else np.asarray(jnp.isclose(jnp.asarray(a), jnp.asarray(b), **kw))
                    g = np.asarray(g)
                    job.expect(g.dtype == np.bool_ and g.shape == want.shape and (g == want).all(),
                               lambda: f"{name}({kw}) on {cls} ({how}): field {k} differs from the element-wise comparison of {a[(g != want)][:3].tolist() if g.shape == want.shape else g.shape} and {b[(g != want)][:3].tolist() if g.shape == want.shape else want.shape}")
        # allclose of every pair of records, all fields taken from the grid and then one field at a time
        close = [kw for n_, kw, _ in forms if n_ == "isclose"]
        for k in [None] + list(range(len(la))):
            mixed = [b if k in (None, i) else a for i, (a, b) in enumerate(zip(la, lb))]
            Bk = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(A), [jnp.asarray(m) for m in mixed])
            got = jax.jit(jax.vmap(lambda a, b: [X.allclose(a, b, **kw) for kw in close] + [a.allclose(b, **kw) for kw in close]))(A, Bk)
            for i, g in enumerate(got):
                kw, g = close[i % len(close)], np.asarray(g)
                want = np.ones(L, bool)
                for a, m in zip(la, mixed):
                    want &= np.asarray(jnp.isclose(jnp.asarray(a), jnp.asarray(m), **kw)).reshape(L, -1).all(1)
                job.count("evaluations", L)
                for j in np.nonzero(g != want)[0][:2] if g.shape == want.shape else [0]:
                    job.violation(f"allclose({kw}) on {cls} is {g[j] if g.ndim else g} for fields {[np.asarray(a)[j].tolist() for a in la]} and {[np.asarray(m)[j].tolist() for m in mixed]}, expected {want[j]}")
        job.progress(f"compare {cls}")
        # reductions: a single differing element anywhere decides
        table = records(cls, 24)
        base = instance(table, np.arange(6).reshape(2, 3))
        bl = [np.asarray(l) for l in jax.tree_util.tree_leaves(base)]
        td = jax.tree_util.tree_structure(base)
        variants = [(None, bl)]
        for k, l in enumerate(bl):
            for pos in range(l.size):
                c = l.copy()
                f = c.reshape(-1)
                f[pos] = (not f[pos]) if c.dtype == np.bool_ else (f[pos] + 1)
                variants.append(((k, pos), bl[:k] + [c] + bl[k + 1:]))
        stacked = [jnp.asarray(np.stack([v[1][k] for v in variants])) for k in range(len(bl))]
        V = jax.tree_util.tree_unflatten(td, stacked)
        red = jax.jit(jax.vmap(lambda v: (base == v, base != v, X.allclose(base, v), v == base, base.allclose(v), X.allclose(base, v, rtol=0.0, atol=10.0))))(V)
        same_ = np.array([v[0] is None for v in variants])
        for lab, got, want in zip(["==", "!=", "allclose", "reversed ==", ".allclose", "allclose(atol=10)"], red,
                                  [same_, ~same_, {}, same_, {}, dict(rtol=0.0, atol=10.0)]):
            got = np.asarray(got)
            if isinstance(want, dict):
                want = np.array([all(np.asarray(jnp.allclose(jnp.asarray(a), jnp.asarray(b), **want)) for a, b in zip(bl, v[1])) for v in variants])
            for i in np.nonzero(got != want)[0][:3]:
                job.violation(f"{lab} on {cls} is {bool(got[i])} where {'nothing differs' if variants[i][0] is None else f'leaf {variants[i][0][0]} differs at flat position {variants[i][0][1]}'}, expected {bool(want[i])}")
            job.count("evaluations", len(variants))
        job.expect(bool(base == instance(table, np.arange(6).reshape(2, 3))) and not bool(base != base), f"== / != on {cls} called directly")
        job.count("distinct_nontrivial", len(variants) + L)
        job.progress(f"reduce {cls}")
    other = make(BY_NAME["Pair"], np.int64(1))
    one = make(BY_NAME["Scalar"], np.int64(1))
    job.expect((one == other) is False or (one == other) is NotImplemented or not bool(one == other), "instances of different classes compare equal")
    job.expect(bool(one != other), "instances of different classes compare as not different")
    job.sample({"classes": 6, "grid": {str(k): v.tolist()[:4] for k, v in list(GRID.items())[1:3]}})


def convert(job):
    """zeros_like/ones_like/full_like, astype, result_type, can_cast: field by field, every class, shape and target type."""
    from xtructure import numpy as X

    for cls in ["Scalar", "Pair", "Vec", "Mixed", "Nest2"]:
        C = BY_NAME[cls]
        for shape in [(), (3,), (0,), (2, 2)]:
            table = records(cls, 8)
            x = instance(table, np.arange(int(np.prod(shape))).reshape(shape))
            for lab, got, fill in [("zeros_like", X.zeros_like(x), 0), ("ones_like", X.ones_like(x), 1), ("full_like(7)", X.full_like(x, 7), 7), ("full_like(100)", X.full_like(x, 100), 100)]:
                job.count("evaluations")
                if not job.expect(isinstance(got, C) and got.shape == x.shape and got.dtype == x.dtype, f"{lab} on {cls}{shape}: class, shape or dtypes changed"):
                    continue
                for g, l in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(x)):
                    want = np.full(l.shape, fill, dtype=np.float64).astype(l.dtype)
                    job.expect((np.asarray(g) == want).all(), lambda: f"{lab} on {cls}{shape}: {np.asarray(g).tolist()}")
        A, B, la, lb, L = grid_pair(make(C, np.int64(0)))
        for dt in (jnp.float32, jnp.int32, jnp.uint8, jnp.bool_, jnp.float16, jnp.uint32):
            for got in (X.astype(A, dt), A.astype(dt)):
                job.count("evaluations", L)
                job.expect(isinstance(got, C), f"astype on {cls} returned {type(got).__name__}")
                for g, a in zip(jax.tree_util.tree_leaves(got), la):
                    g = np.asarray(g)
                    want = np.asarray(jnp.asarray(a).astype(dt))
                    job.expect(g.dtype == want.dtype and g.tobytes() == want.tobytes(), lambda: f"astype({np.dtype(dt)}) on {cls}: {g.tolist()[:5]} instead of {want.tolist()[:5]}")
            tos = [np.dtype(dt)]
            for casting in ("no", "equiv", "safe", "same_kind", "unsafe"):
                try:
                    want = all(bool(jnp.can_cast(a.dtype, np.dtype(dt), casting=casting)) for a in la)
                    got = X.can_cast(A, np.dtype(dt), casting=casting)
                    job.count("evaluations")
                    job.expect(bool(got) == want, f"can_cast({cls}, {np.dtype(dt)}, {casting}) is {got}, expected {want}")
                except Exception as e:
                    job.violation(f"can_cast({cls}, {np.dtype(dt)}, {casting}) raised {type(e).__name__}: {e}")
        rt = X.result_type(A, X.astype(B, jnp.float32))
        got = jax.tree_util.tree_leaves(rt)
        want = [jnp.result_type(a.dtype, jnp.float32) for a in la]
        job.expect(len(got) == len(want) and all(np.dtype(g) == np.dtype(w) for g, w in zip(got, want)), f"result_type on {cls}: {got} instead of {want}")
        job.count("distinct_nontrivial", L)
        job.progress(f"convert {cls}")
    job.sample({"classes": 5, "targets": 6})


def mismatch(job):
    """Joins the documentation promises to refuse are refused, for every pair of batch shapes in the bound."""
    from xtructure import numpy as X

    shapes = [(), (1,), (2,), (3,), (1, 2), (2, 2), (2, 3), (2, 2, 1)]
    P, V = records("Pair", 30), records("Vec", 30)
    at = lambda T, s: instance(T, np.arange(int(np.prod(s))).reshape(s))

    def refuses(f, label, errors=(ValueError, TypeError)):
        job.count("evaluations")
        try:
            r = f()
        except errors:
            return
        except Exception as e:
            return job.violation(f"{label}: raised {type(e).__name__} instead of ValueError or TypeError: {e}")
        job.violation(f"{label}: accepted, returned batch shape {getattr(getattr(r, 'shape', None), 'batch', r)}")

    for a, b in itertools.product(shapes, repeat=2):
        A, B = at(P, a), at(P, b)
        if a != b:
            refuses(lambda: X.stack([A, B]), f"stack of batch shapes {a} and {b}")
        for ax in range(len(a)):
            bad = len(a) != len(b) or any(x != y for i, (x, y) in enumerate(zip(a, b)) if i != ax)
            if bad:
                refuses(lambda: X.concat([A, B], axis=ax), f"concat(axis={ax}) of batch shapes {a} and {b}")
        if a == b:
            refuses(lambda: X.stack([A, at(V, a)]), f"stack of two classes at {a}")
            refuses(lambda: X.concat([A, at(V, a)]), f"concat of two classes at {a}")
            if a:
                for ax in (len(a), -len(a) - 1):
                    refuses(lambda: X.concat([A, B], axis=ax), f"concat(axis={ax}) at {a}")
    for s in shapes:
        A = at(P, s)
        n = int(np.prod(s))
        if s:
            for t in [(n + 1,), (n, 2), (-1, n + 1), (-1, -1)]:
                refuses(lambda: X.reshape(A, t), f"reshape of {s} to {t}")
        for ax in (len(s), -len(s) - 1):
            refuses(lambda: X.swapaxes(A, ax, 0), f"swapaxes({ax}, 0) at {s}")
        refuses(lambda: X.pad(A, -1), f"pad(-1) at {s}")
        refuses(lambda: X.pad(A, ((0, 1),) * (len(s) + 2)), f"pad with too many widths at {s}")
    for f in (X.concat, X.concatenate, X.stack):
        refuses(lambda: f([]), f"{f.__name__} of nothing")
    job.count("distinct_nontrivial", len(shapes) ** 2)
    job.sample({"shapes": [list(s) for s in shapes]})
    job.progress("mismatch")
