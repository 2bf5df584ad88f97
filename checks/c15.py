"""C15: indexing and indexed assignment treat a record as one unit; reported shapes agree with the fields.

Indexing does not look at values, so one batch of pairwise distinct records
decides an index expression for every content: the expression is applied to the
batch and, by numpy, to the array of record numbers, and every record of the
result must be bit for bit the record with that number.  All index expressions
of a grammar are enumerated over all batch shapes of the bound; reported shapes
are enumerated over all assignments of field shapes, and again after every short
history of operations that could leave stale answers behind.
"""

import copy
import itertools
import pickle

import jax
import jax.numpy as jnp
import numpy as np

from checks.c12 import SCALAR_CLASSES, compare_result, instance, records
from mc.classes import BY_NAME, SPEC

LEVEL = "exploration"
RULE = ("an evaluation is one index expression (with one kind of assigned value) on one class and batch shape compared record for record with numpy, or one "
        "instance whose reported shape is compared with its fields; non-trivial = the expression addresses at least one record, or two fields disagree in batch shape")
ASSUMPTIONS = [
    "indices are in range and address batch axes only; an Ellipsis that is followed by further indices is judged on classes without inner shapes",
    "an assigned instance broadcasts to the addressed records; repeated positions receive equal records",
    "scalars are representable in every field",
    "instances are values: fields are not assigned to after construction",
]

QUICK = {"Mixed": [(), (1,), (2,), (4,), (0,), (2, 2), (2, 3), (2, 2, 2)], "Pair": [(3,), (3, 2), (2, 1, 2)], "Vec": [(3,), (3, 3)], "Hole": [(3,), (2, 2)], "Nest2": [(2,), (2, 2)]}
DEEP = [s for k in range(4) for s in itertools.product((1, 2, 3), repeat=k)] + [(0,), (2, 0), (0, 3), (5,), (2, 1, 2, 2)]


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for c, shapes in (QUICK.items() if not deep else [(c, DEEP) for c in ("Mixed", "Pair", "Vec", "Nest2", "Inner")]):
        for s in shapes:
            for fn in ("get", "assign"):
                out.append({"name": f"{fn}-{c}-{s}".replace(" ", ""), "fn": fn, "cost": 8 + 6 * len(s) + (8 if fn == "assign" else 0), "args": {"cls": c, "shape": list(s), "deep": deep}})
    for c in ["Mixed", "Vec", "Nest2"]:
        out.append({"name": f"host-{c}", "fn": "host", "cost": 15, "args": {"cls": c, "deep": deep}})
    for c in ["Mixed", "Pair", "Vec"]:
        out.append({"name": f"traced-{c}", "fn": "traced", "cost": 15, "args": {"cls": c, "deep": deep}})
    for c in ["Mixed", "Pair"]:
        out.append({"name": f"direct-{c}", "fn": "direct", "cost": 15, "args": {"cls": c}})
    for c in ["Flat", "Deep", "Mixed", "Vec", "Pair"]:
        out.append({"name": f"reported-{c}", "fn": "reported", "cost": 15, "args": {"cls": c, "deep": deep}})
    for fn, sh in (("get", [3]), ("assign", [3]), ("get", [2, 2])):
        out.append({"name": f"{fn}-Long-{len(sh)}-x64", "fn": fn, "cost": 20, "args": {"cls": "Long", "shape": sh, "deep": deep}, "env": {"JAX_ENABLE_X64": "1"}})
    out.append({"name": "reported-Long-x64", "fn": "reported", "cost": 15, "args": {"cls": "Long", "deep": deep}, "env": {"JAX_ENABLE_X64": "1"}})
    out.append({"name": "stale", "fn": "stale", "cost": 15, "args": {"deep": deep}})
    return out


# ---------------------------------------------------------------- index grammar

def slices(d, rich):
    if rich:
        pts = [None] + list(range(-d - 1, d + 2))
        return [slice(a, b, c) for a in pts for b in pts for c in (None, 1, 2, 3, -1, -2)]
    return [slice(None), slice(1, None), slice(None, -1), slice(None, None, -1), slice(0, d, 2), slice(-1, None), slice(1, 1), slice(d, 0, -2)]


def vectors(d, rich):
    """Integer arrays and masks for one axis."""
    out = [np.array([], np.int32)]
    if d:
        out += [np.array([d - 1, 0], np.int32), np.array([-1, 0, 0, d - 1], np.int32), np.array([[0, -1], [-d, d - 1]], np.int32), np.array([d - 1], np.uint8)]
        if rich:
            out += [np.array(v, np.int32) for k in (1, 2, 3) for v in itertools.product(range(-d, d), repeat=k)][:400]
    masks = list(itertools.product((False, True), repeat=d)) if rich or d <= 2 else [(False,) * d, (True,) * d, tuple(i % 2 == 1 for i in range(d)), tuple(i == d - 1 for i in range(d))]
    return out + [np.array(m, bool) for m in masks]


def ints(d):
    return sorted({0, d - 1, -1, -d}) if d else []


def label(idx):
    if isinstance(idx, tuple):
        return "(" + ", ".join(label(i) for i in idx) + ("," if len(idx) == 1 else "") + ")"
    if isinstance(idx, slice):
        return ":".join("" if v is None else str(v) for v in (idx.start, idx.stop)) + ("" if idx.step is None else f":{idx.step}")
    if isinstance(idx, np.ndarray):
        return f"{idx.dtype}{idx.tolist()}"
    return {None: "None", Ellipsis: "..."}.get(idx, str(idx)) if not isinstance(idx, (int, np.integer)) else str(idx)


def grammar(shape, scalar_only, rich=False, wide=True):
    """All index expressions of the bound, as Python objects (constants)."""
    nd = len(shape)
    out = [(), Ellipsis, None, (None, Ellipsis), (None, None)]
    if nd:
        d = shape[0]
        out += ints(d) + [np.int32(i) for i in ints(d)[:1]] + slices(d, rich) + vectors(d, rich)
    comp = []
    for d in shape:
        c = ints(d)[:1] + ([-1] if d > 1 else []) + [slice(None), slice(1, None), slice(None, None, -1)]
        if rich:
            c += [slice(None, -1), slice(0, d, 2), -d] if d else []
        comp.append(c)
    for k in range(1, nd + 1):
        prods = list(itertools.product(*comp[:k]))
        if not wide and k == nd and k > 2:
            prods = prods[::3]
        out += prods
        # trailing Ellipsis, inserted new axes
        some = prods if rich else prods[:: max(1, len(prods) // 8)]
        out += [p + (Ellipsis,) for p in some]
        for p in some[:: 1 if rich else 2]:
            for i in range(k + 1):
                out.append(p[:i] + (None,) + p[i:])
        if scalar_only and k < nd:
            for p in itertools.product(*comp[nd - k:]):
                out.append((Ellipsis,) + p)
            for p in itertools.product(comp[0], comp[-1]):
                out.append((p[0], Ellipsis, p[1]))
        # advanced indices at one or two axes, mixed with integers and slices
        if k >= 2:
            for i, j in itertools.combinations(range(k), 2):
                if not shape[i] or not shape[j]:
                    continue
                a, b = np.array([shape[i] - 1, 0], np.int32), np.array([-1, 0], np.int32)
                rest = [[slice(None), 0] if shape[q] else [slice(None)] for q in range(k)]
                rest[i], rest[j] = [a, a[:, None], a == 0 if shape[i] == 2 else a], [b]
                out += list(itertools.product(*rest))
        for i in range(k):
            if not shape[i] or k < 2:
                continue
            rest = [[slice(None), slice(None, None, -1), 0] if shape[q] else [slice(None)] for q in range(k)]
            m = np.array([q != 1 for q in range(shape[i])], bool)
            rest[i] = [np.array([shape[i] - 1, 0, -1], np.int32), np.array([[0], [-1]], np.int32), m]
            out += list(itertools.product(*rest))
        if k >= 2:
            n = int(np.prod(shape[:k]))
            masks = ([np.array(m, bool).reshape(shape[:k]) for m in itertools.product((0, 1), repeat=n)] if n <= (9 if rich else 4)
                     else [(np.arange(n) % q == r).reshape(shape[:k]) for q, r in ((1, 0), (2, 1), (3, 0), (n, n - 1))])
            out += masks + [np.zeros(shape[:k], bool)]
            out += [(m,) for m in masks[-2:]]
    seen, res = set(), []
    for i in out:
        key = (type(i).__name__, label(i))
        if key not in seen:
            seen.add(key)
            res.append(i)
    return res


def compiled(job, steps, ins, what):
    """Runs [(label, function of the inputs)] in one compiled program; a step that raises is reported."""
    ok = []

    def program(*a):
        res = []
        for i, (lab, f) in enumerate(steps):
            try:
                res.append(f(*a))
                ok.append(i)
            except Exception as e:
                job.violation(f"{lab} on {what}: raised {type(e).__name__}: {str(e)[:200]}")
        return res
    got = jax.jit(program).lower(*ins).compile({"xla_backend_optimization_level": "0"})(*ins)
    return list(zip(ok, got))


def get(job, cls, shape, deep):
    shape = tuple(shape)
    n = int(np.prod(shape))
    C, table = BY_NAME[cls], records(cls, n + 1)
    tok = np.arange(n).reshape(shape)
    x = instance(table, tok)
    idx = grammar(shape, cls in SCALAR_CLASSES, wide=deep)
    for i, g in compiled(job, [(f"x[{label(j)}]", lambda x, j=j: x[j]) for j in idx], [x], f"{cls}{shape}"):
        compare_result(job, f"x[{label(idx[i])}] on {cls}{shape}", g, np.asarray(tok[idx[i]]), table, C)
        job.count("evaluations")
        job.count("distinct_nontrivial", np.asarray(tok[idx[i]]).size > 0)
    compare_result(job, f"{cls}{shape} after indexing", x, tok, table, C)
    job.sample({"class": cls, "shape": list(shape), "indices": [label(i) for i in idx[:: max(1, len(idx) // 6)]]})
    job.progress("get")


def fill_reference(table, tok, mark, value):
    """Leaves of the batch with every marked record's fields filled with the scalar."""
    res = []
    for l in jax.tree_util.tree_leaves(table):
        l = np.array(np.asarray(l)[tok])
        l[mark] = np.asarray(value).astype(l.dtype)
        res.append(l)
    return res


def same_leaves(job, lab, got, want, cls):
    if not isinstance(got, cls):
        return job.violation(f"{lab}: returned {type(got).__name__}")
    g = jax.tree_util.tree_leaves(got)
    for k, (a, b) in enumerate(zip(g, want)):
        a = np.asarray(a)
        if a.dtype != b.dtype or a.shape != b.shape or a.tobytes() != b.tobytes():
            return job.violation(f"{lab}: field {k} is {a.dtype}{a.tolist()}, expected {b.dtype}{b.tolist()}")
    if len(g) != len(want):
        job.violation(f"{lab}: {len(g)} fields instead of {len(want)}")


def assignments(shape, tok, idx, n):
    """(kind, value record numbers or scalar, expected record numbers or marks) for one index expression."""
    sel = np.asarray(tok[idx])
    mark = np.zeros(shape, bool)
    mark[idx] = True
    out = []
    distinct = len(np.unique(sel)) == sel.size
    if distinct:
        new = np.arange(sel.size).reshape(sel.shape) + n  # fresh records
        t = tok.copy()
        t[idx] = new
        out.append(("instance", new, t))
    t = tok.copy()
    t[idx] = 2 * n + 1
    out.append(("one record", np.array(2 * n + 1), t))
    if distinct and sel.ndim >= 2 and sel.shape[-1]:
        new = np.arange(sel.shape[-1]) + n
        t = tok.copy()
        t[idx] = new
        out.append(("row", new, t))
    out.append(("scalar", 1, mark))
    out.append(("scalar", 0, mark))
    return out


def assign(job, cls, shape, deep):
    shape = tuple(shape)
    n = int(np.prod(shape))
    C, table = BY_NAME[cls], records(cls, 2 * n + 4)
    tok = np.arange(n).reshape(shape)
    x, full = instance(table, tok), instance(table, np.arange(2 * n + 3))
    steps, want = [], []
    idxs = grammar(shape, cls in SCALAR_CLASSES, wide=deep)
    if not deep and len(shape) > 1:
        idxs = idxs[:30] + idxs[30:: 1 + len(idxs) // 80]
    for i, idx in enumerate(idxs):
        for kind, v, t in assignments(shape, tok, idx, n):
            if kind == "scalar" and (v + i) % 2 and not deep:
                continue
            lab = f"x.at[{label(idx)}].set({kind if kind != 'scalar' else v})"
            if kind == "scalar":
                steps.append((lab, lambda x, y, idx=idx, v=v: x.at[idx].set(v)))
            else:
                # the value's records come from the second operand
                steps.append((lab, lambda x, y, idx=idx, v=v: x.at[idx].set(jax.tree_util.tree_map(lambda l: l[np.asarray(v)], y))))
            want.append((kind, v, t))
    for i, g in compiled(job, steps, [x, full], f"{cls}{shape}"):
        kind, v, t = want[i]
        lab = f"{steps[i][0]} on {cls}{shape}"
        if kind == "scalar":
            same_leaves(job, lab, g, fill_reference(table, tok, t, v), C)
            job.count("distinct_nontrivial", bool(t.any()))
        else:
            compare_result(job, lab, g, t, table, C)
            job.count("distinct_nontrivial", bool((t != tok).any()))
        job.count("evaluations")
    compare_result(job, f"{cls}{shape} after assignments", x, tok, table, C)
    job.sample({"class": cls, "shape": list(shape), "assignments": [s for s, _ in steps[:: max(1, len(steps) // 6)]]})
    job.progress("assign")


def host(job, cls, deep):
    """The complete grammar on instances held in host (numpy) arrays."""
    C = BY_NAME[cls]
    for shape in ([(4,), (2, 2), (2, 3), (2, 2, 2), (0, 2)] if not deep else DEEP):
        n = int(np.prod(shape))
        table = records(cls, 2 * n + 4)
        tok = np.arange(n).reshape(shape)
        x = jax.tree_util.tree_map(lambda l: np.asarray(l)[tok], table)
        for idx in grammar(shape, cls in SCALAR_CLASSES, rich=True):
            want = np.asarray(tok[idx])
            compare_result(job, f"x[{label(idx)}] on {cls}{shape} held in numpy arrays", x[idx], want, table, C)
            job.count("evaluations")
            job.count("distinct_nontrivial", want.size > 0)
        compare_result(job, f"{cls}{shape} after indexing", x, tok, table, C)
        if n:
            # assignment to an instance held in host arrays, and from one
            for idx in (0, -1, slice(1, None), np.array([0], np.int32), np.arange(shape[0]) % 2 == 0):
                for kind, v, t in assignments(shape, tok, idx, n):
                    lab = f"x.at[{label(idx)}].set({kind}) on {cls}{shape} held in numpy arrays"
                    value = v if kind == "scalar" else jax.tree_util.tree_map(lambda l: np.asarray(l)[v], table)
                    for y, where in ((x, ""), (instance(table, tok), " (only the value)")):
                        g = y.at[idx].set(value)
                        if kind == "scalar":
                            same_leaves(job, lab, g, fill_reference(table, tok, t, v), C)
                        else:
                            compare_result(job, lab + where, g, t, table, C)
                        job.count("evaluations")
                        job.count("distinct_nontrivial")
            compare_result(job, f"{cls}{shape} after assignments", x, tok, table, C)
        job.progress(f"{shape}")
    job.sample({"class": cls, "indices": [label(i) for i in grammar((2, 3), False, rich=True)[::97]]})


def traced(job, cls, deep):
    """Indices that are themselves computed inside compiled code: every position and every vector of positions."""
    C = BY_NAME[cls]
    for shape in [(4,), (2, 3)] + ([(3, 2, 2), (1,)] if deep else []):
        n, d = int(np.prod(shape)), shape[0]
        table = records(cls, 2 * n + 4)
        tok = np.arange(n).reshape(shape)
        x, one = instance(table, tok), instance(table, np.array(n + 1))
        pos = np.arange(-d, d).astype(np.int32)
        pairs = np.array(list(itertools.product(range(-d, d), repeat=2)), np.int32)
        rows = instance(table, (np.arange(int(np.prod((2,) + shape[1:]))) + n).reshape((2,) + shape[1:]))
        rtok = (np.arange(int(np.prod((2,) + shape[1:]))) + n).reshape((2,) + shape[1:])
        progs = [
            ("x[i]", pos, lambda i: x[i], lambda i: tok[i]),
            ("x[(i,)]", pos, lambda i: x[(i,)], lambda i: tok[i]),
            ("x[[i,j]]", pairs, lambda i: x[i], lambda i: tok[i]),
            ("x.at[i].set(record)", pos, lambda i: x.at[i].set(one), lambda i: put(tok, i, n + 1)),
            ("x.at[[i,j]].set(rows)", pairs, lambda i: x.at[i].set(rows), lambda i: put(tok, i, rtok) if i[0] % d != i[1] % d else None),
        ]
        if len(shape) > 1:
            ij = np.array(list(itertools.product(range(-d, d), range(-shape[1], shape[1]))), np.int32)
            progs += [("x[i,j]", ij, lambda i: x[i[0], i[1]], lambda i: tok[i[0], i[1]]),
                      ("x[:,j]", ij, lambda i: x[:, i[1]], lambda i: tok[:, i[1]]),
                      ("x.at[i,j].set(record)", ij, lambda i: x.at[i[0], i[1]].set(one), lambda i: put(tok, (i[0], i[1]), n + 1)),
                      ("x.at[:,j].set(record)", ij, lambda i: x.at[:, i[1]].set(one), lambda i: put(tok, (slice(None), i[1]), n + 1))]
        for lab, idx, fx, fn in progs:
            got = jax.jit(jax.vmap(fx))(jnp.asarray(idx))
            got = jax.tree_util.tree_map(np.asarray, got)
            for k, i in enumerate(idx):
                w = fn(i)
                if w is None:
                    continue
                compare_result(job, f"{lab} with computed indices {i.tolist()} on {cls}{shape}", jax.tree_util.tree_map(lambda l: l[k], got), np.asarray(w), table, C)
                job.count("evaluations")
                job.count("distinct_nontrivial")
            job.progress(lab)
    job.sample({"class": cls, "program": "x.at[i,j].set(record)"})


def put(tok, i, v):
    t = tok.copy()
    t[i] = v
    return t


def direct(job, cls):
    """A cross-section called one by one outside compiled code, with the original looked at after every step."""
    C = BY_NAME[cls]
    for shape in [(2, 2), (3,)]:
        n = int(np.prod(shape))
        table = records(cls, 2 * n + 4)
        tok = np.arange(n).reshape(shape)
        x = instance(table, tok)
        for idx in grammar(shape, cls in SCALAR_CLASSES)[:: 3 if len(shape) > 1 else 2]:
            compare_result(job, f"x[{label(idx)}] on {cls}{shape}, called directly", x[idx], np.asarray(tok[idx]), table, C)
            for kind, v, t in assignments(shape, tok, idx, n)[:2]:
                lab = f"x.at[{label(idx)}].set({kind}) on {cls}{shape}, called directly"
                g = x.at[idx].set(v if kind == "scalar" else instance(table, v))
                if kind == "scalar":
                    same_leaves(job, lab, g, fill_reference(table, tok, t, v), C)
                else:
                    compare_result(job, lab, g, t, table, C)
                job.count("evaluations", 2)
                job.count("distinct_nontrivial", 2)
                compare_result(job, f"the original after {lab}", x, tok, table, C)
            job.progress(label(idx))
    job.sample({"class": cls})


# ---------------------------------------------------------------- reported shapes

def _extra():
    from xtructure import FieldDescriptor as F
    from xtructure import xtructure_dataclass

    @xtructure_dataclass
    class Flat:
        a: F.scalar(dtype=jnp.uint8)
        v: F.tensor(dtype=jnp.int16, shape=(2,))
        m: F.tensor(dtype=jnp.float32, shape=(2, 2))

    @xtructure_dataclass
    class Leafy:
        p: F.scalar(dtype=jnp.uint8)
        q: F.tensor(dtype=jnp.bool_, shape=(2,))

    @xtructure_dataclass
    class Deep:
        n: F.scalar(dtype=Leafy)
        arr: F.tensor(dtype=Leafy, shape=(2,))
        k: F.tensor(dtype=jnp.uint32, shape=(1,))

    return {"Flat": (Flat, [("a", np.uint8, ()), ("v", np.int16, (2,)), ("m", np.float32, (2, 2))]),
            "Leafy": (Leafy, [("p", np.uint8, ()), ("q", np.bool_, (2,))]),
            "Deep": (Deep, [("n", "Leafy", ()), ("arr", "Leafy", (2,)), ("k", np.uint32, (1,))])}


EXTRA = _extra()
DECL = {c: s for c, s in SPEC.items()}
DECL.update({c: s for c, s in EXTRA.values()})


def class_named(name):
    return EXTRA[name][0] if name in EXTRA else BY_NAME[name]


def nested(dtype):
    if isinstance(dtype, str):
        return EXTRA[dtype][0]
    return dtype if dtype in DECL else None


def strip(batch, inner):
    if batch is None:
        return None
    k = len(inner)
    if not k:
        return batch
    return batch[:-k] if len(batch) >= k and batch[len(batch) - k:] == inner else None


def true_batch(x):
    """The common batch shape of all fields, or None."""
    bs = set()
    for name, dtype, inner in DECL[type(x)]:
        f = getattr(x, name)
        bs.add(strip(true_batch(f) if nested(dtype) else np.shape(f), inner))
    return bs.pop() if len(bs) == 1 else None


def leaf_count(C):
    return sum(leaf_count(nested(d)) if nested(d) else 1 for _, d, _ in DECL[C])


def build(C, shapes, arrays):
    kw = {}
    for name, dtype, _ in DECL[C]:
        if nested(dtype):
            kw[name] = build(nested(dtype), shapes, arrays)
        else:
            kw[name] = arrays(np.dtype(dtype), next(shapes))
    return C(**kw)


CACHE = {}


def blank(dtype, shape):
    if (dtype, shape) not in CACHE:
        CACHE[dtype, shape] = np.zeros(shape, dtype)
    return CACHE[dtype, shape]


def check_report(job, x, what):
    b = true_batch(x)
    want = -1 if b is None else b
    kind = "UNSTRUCTURED" if b is None else "BATCHED" if b else "SINGLE"
    for _ in range(2):  # the second look must agree with the first
        try:
            got = (x.shape.batch, x.batch_shape, x.structured_type.name)
        except Exception as e:
            return job.violation(f"{what()}: reporting its shape raised {type(e).__name__}: {e}")
        if got != (want, want, kind):
            return job.violation(f"{what()}: reports batch {got[0]} / {got[1]} / {got[2]}, its fields have {'no common batch shape' if b is None else b} ({kind})")
        for f, good in ((len, None if b is None else b[0] if b else 1), (lambda x: x.ndim, None if b is None else len(b))):
            try:
                r = f(x)
            except TypeError:
                r = None
            except Exception as e:
                r = f"{type(e).__name__}"
            if r != good:
                return job.violation(f"{what()}: len or ndim is {r}, expected {'a TypeError' if good is None else good} for batch {b}")
    if b is not None:
        for name, dtype, inner in DECL[type(x)]:
            s = getattr(x.shape, name)
            s = tuple(s.batch) if nested(dtype) else tuple(s)
            if s != inner:
                return job.violation(f"{what()}: reports shape {s} for field {name} declared {inner} (batch {b})")
    for name, dtype, inner in DECL[type(x)]:
        if nested(dtype):
            check_report(job, getattr(x, name), lambda: f"{what()} field {name}")
        elif np.dtype(getattr(x.dtype, name)) != getattr(x, name).dtype:
            return job.violation(f"{what()}: reports dtype {getattr(x.dtype, name)} for field {name} holding {getattr(x, name).dtype}")


def reported(job, cls, deep):
    """Every assignment of shapes to the fields."""
    C = class_named(cls)
    k = leaf_count(C)
    if k <= 2:
        S = [s for r in range(5) for s in itertools.product((0, 1, 2, 3), repeat=r)][:200]
    elif k == 3:
        S = [s for r in range(4) for s in itertools.product((1, 2, 3) if not deep else (0, 1, 2, 3), repeat=r)]
    else:
        S = [s for r in range(4) for s in itertools.product((2,), repeat=r)] + [(1,), (2, 1), (3,), (3, 2), (2, 3)] + ([(3, 2, 2), (1, 2), (2, 2, 1), (2, 2, 2, 2)] if deep else [])
        S = S[:7] + [(2, 2, 2)] if not deep and k >= 5 else S
        if k >= 5 and deep:
            S = S[:10]
    n = 0
    for shapes in itertools.product(S, repeat=k):
        x = build(C, iter(shapes), blank)
        check_report(job, x, lambda: f"{cls} with field shapes {shapes}")
        n += 1
        job.count("distinct_nontrivial", true_batch(x) is None)
        if n % 2000 == 0:
            job.progress(f"{n} instances")
    job.count("evaluations", n)
    if k <= 2 and cls != "Vec":
        x = C(**{f: d(1) for f, d, _ in DECL[C]})  # plain scalars
        check_report(job, x, lambda: f"{cls} of numpy scalars")
        job.count("evaluations")
    job.sample({"class": cls, "field shapes": [list(s) for s in S[:8]], "instances": n})


def stale(job, deep):
    """Reported shapes after every short history of operations, with every instance looked at on the way."""
    def names(x):
        return [f for f, _, _ in DECL[type(x)]]

    tm = jax.tree_util.tree_map
    steps = {
        "first record": lambda x: x[0],
        "new axis": lambda x: x[None],
        "tree_map a[None]": lambda x: tm(lambda a: a[None], x),
        "tree_map a[0]": lambda x: tm(lambda a: a[0], x),
        "jit identity": lambda x: jax.jit(lambda y: y)(x),
        "jit a[None]": lambda x: jax.jit(lambda y: y[None])(x),
        "vmap inside": lambda x: jax.vmap(lambda y: y[None])(x),
        "scan": lambda x: jax.lax.scan(lambda c, y: (c, y[None]), 0, x)[1],
        "eval_shape": lambda x: jax.eval_shape(lambda y: y, x),
        "copy": copy.copy,
        "deepcopy": copy.deepcopy,
        "pickle": lambda x: pickle.loads(pickle.dumps(x)),
        "flatten": lambda x: x.flatten(),
        "reshape": lambda x: x.reshape((-1, 1)),
        "device_get": jax.device_get,
        "unflatten doubled": lambda x: jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(x), [jnp.stack([l, l]) for l in jax.tree_util.tree_leaves(x)]),
        "replace first": lambda x: x.replace(**{names(x)[0]: tm(lambda a: a[None], getattr(x, names(x)[0]))}),
        "replace last": lambda x: x.replace(**{names(x)[-1]: tm(lambda a: a[0], getattr(x, names(x)[-1]))}),
        "replace all": lambda x: x.replace(**{f: tm(lambda a: jnp.concatenate([jnp.asarray(a)] * 2), getattr(x, f)) for f in names(x)}),
        "at.set": lambda x: x.at[0].set(0),
        "stack": lambda x: __import__("xtructure").numpy.stack([x, x]),
    }

    def look(x, seen, what):
        check_report(job, x, what)

    depth = 3 if deep else 2
    for cls in ["Pair", "Mixed", "Vec"]:
        C = BY_NAME[cls]
        start = {s: instance(records(cls, 8), np.arange(int(np.prod(s))).reshape(s)) for s in ((2,), (2, 2))}
        for s, x0 in start.items():
            memo = {(): x0}
            for k in range(1, depth + 1):
                for p in itertools.product(steps, repeat=k):
                    x = memo.get(p[:-1])
                    if x is None:
                        continue
                    before = true_batch(x)
                    if k == 3 and (p[0] == p[1] or hash_of(p) % 4):
                        continue
                    try:
                        y = steps[p[-1]](x)
                    except Exception:
                        continue  # not applicable to this instance
                    check_report(job, y, lambda: f"{cls}{s} after {' then '.join(p)}")
                    check_report(job, x, lambda: f"{cls}{s} after {' then '.join(p[:-1])}, looked at again after {p[-1]}")
                    job.count("evaluations", 2)
                    job.count("distinct_nontrivial", true_batch(y) != before)
                    if k < depth and "eval_shape" not in p:
                        memo[p] = y
                job.progress(f"{cls} depth {k}")
    # inside compiled and mapped code
    for cls in ["Pair", "Mixed", "Nest2"]:
        x = instance(records(cls, 13), np.arange(12).reshape(2, 3, 2))
        x.shape, x.structured_type

        def inner(y):
            check_report(job, y, lambda: f"{cls} inside two vmaps")
            return y
        jax.vmap(jax.vmap(inner))(x)
        jax.jit(inner)(x)
        jax.lax.scan(lambda c, y: (c, inner(y)), 0, x)
        jax.lax.while_loop(lambda c: False, inner, x)
        jax.lax.cond(True, inner, lambda y: y, x)
        jax.lax.map(inner, x)
        job.count("evaluations", 6)
    job.sample({"history": list(steps)[:6]})


def hash_of(p):
    import zlib
    return zlib.crc32(repr(p).encode())
