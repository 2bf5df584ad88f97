"""C17: declared field contracts govern defaults, random instances and validation.

Classes are generated from a grammar of declarations (dtype x inner shape x fill
x way of writing the declaration x nesting); for every class and batch shape the
default and a random instance are compared with the declaration, and for
classes with validation every combination of field values from a grid of right
and wrong dtypes and shapes must be accepted exactly when every field is right.
"""
import itertools
import typing

import jax
import jax.numpy as jnp
import numpy as np

LEVEL = "exploration"
RULE = ("an evaluation is one generated class and batch shape whose default or random instance is compared with the declaration, or one combination of field "
        "values offered to a validating class; non-trivial = the class has an inner shape, a declared fill or a nested field, or a combination with a wrong field")
ASSUMPTIONS = [
    "declared dtypes exist in the active precision mode (64-bit ones are explored with 64-bit mode on); sub-byte, 8-bit float and complex dtypes are excluded",
    "fill values are representable in the declared dtype; classes do not inherit fields",
    "a validated class does not compare the batch shapes of its fields with each other (its documentation accepts such an instance)",
    "the contents of a nested field are the nested class's contract: the outer class checks its class and inner shape",
]

D32 = ["bool_", "uint8", "uint16", "uint32", "int8", "int16", "int32", "float16", "bfloat16", "float32"]
D64 = ["int64", "uint64", "float64", "int32", "uint8"]
INNER = [(), (1,), (2,), (3, 2), (2, 1, 2), (0,)]
BATCH = [(), (1,), (4,), (2, 3), (0,), (2, 0, 1)]
FILLS = ["none", "zero", "one", "max", "min", "nan", "factory-array", "factory-scalar"]
FORMS = ["tensor", "scalar", "direct", "direct-positional", "bracket", "bracket-shape", "bracket-fill", "annotated", "dtype-instance", "numpy-type"]


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for i in range(0, len(D32), 2):
        out.append({"name": f"single-{'-'.join(D32[i:i + 2])}", "fn": "single", "cost": 15, "args": {"dtypes": D32[i:i + 2], "deep": deep}})
        out.append({"name": f"random-{'-'.join(D32[i:i + 2])}", "fn": "randoms", "cost": 15, "args": {"dtypes": D32[i:i + 2], "deep": deep}})
    out.append({"name": "single-64bit", "fn": "single", "cost": 15, "env": {"JAX_ENABLE_X64": "1"}, "args": {"dtypes": D64, "deep": deep}})
    out.append({"name": "random-64bit", "fn": "randoms", "cost": 15, "env": {"JAX_ENABLE_X64": "1"}, "args": {"dtypes": D64, "deep": deep}})
    for k in range(4):
        out.append({"name": f"several-{k}", "fn": "several", "cost": 20, "args": {"part": k, "parts": 4, "deep": deep}})
    for k in range(2):
        out.append({"name": f"derived-{k}", "fn": "derived", "cost": 20, "args": {"part": k, "parts": 2, "deep": deep}})
    out.append({"name": "nested", "fn": "nested", "cost": 20, "args": {"deep": deep}})
    for k in range(5):
        out.append({"name": f"validate-{k}", "fn": "validate", "cost": 20, "args": {"part": k, "parts": 5, "deep": deep}})
    out.append({"name": "validators", "fn": "validators", "cost": 15, "args": {"deep": deep}})
    out.append({"name": "validate-nested", "fn": "validate_nested", "cost": 15, "args": {"deep": deep}})
    out.append({"name": "validate-later", "fn": "validate_later", "cost": 15, "args": {}})
    return out


def dt(name):
    return np.dtype(getattr(jnp, name))


def kind(d):
    return "b" if d == np.bool_ else "u" if jnp.issubdtype(d, jnp.unsignedinteger) else "i" if jnp.issubdtype(d, jnp.integer) else "f"


def implied(d):
    """The documented fill of a field without a declared one."""
    return {"b": lambda: False, "u": lambda: int(jnp.iinfo(d).max), "i": lambda: 0, "f": lambda: float("inf")}[kind(d)]()


def fill_of(fill, d):
    """(applicable, declared value)"""
    k = kind(d)
    if fill == "zero":
        return True, {"b": False}.get(k, 0 if k != "f" else 0.0)
    if fill == "one":
        return True, {"b": True}.get(k, 1)
    if fill in ("max", "min"):
        if k in "ui":
            return True, int(getattr(jnp.iinfo(d), fill))
        return k == "f", float(jnp.finfo(d).max if fill == "max" else -jnp.inf) if k == "f" else None
    if fill == "nan":
        return k == "f", float("nan")
    return True, None


def ramp(shape, d):
    n = int(np.prod(shape))
    return np.asarray((np.arange(n) % 5 % (2 if kind(d) == "b" else 5)).reshape(shape)).astype(d)


def declare(name, inner, fill, form):
    """(descriptor or annotation, expected default of one field as a function of its full shape), or None when the form cannot express it."""
    from xtructure import FieldDescriptor as F

    T, d = getattr(jnp, name), dt(name)
    ok, v = fill_of(fill, d)
    if not ok:
        return None
    kw, f = {}, {}
    if fill == "factory-array":
        f = {"fill_value_factory": lambda s, t: jnp.asarray(ramp(s, d))}
        want = lambda s: ramp(s, d)
    elif fill == "factory-scalar":
        def fac(s, t):
            assert np.dtype(t) == d, f"the factory was given {t} for {d}"
            return len(s) % 2
        f = {"fill_value_factory": fac}
        want = lambda s: np.full(s, len(s) % 2, d)
    elif fill == "none":
        want = lambda s: np.full(s, implied(d), d)
    else:
        kw = {"fill_value": v}
        want = lambda s: np.full(s, v, d)
    if form == "tensor":
        return F.tensor(dtype=T, shape=inner, **kw, **f), want
    if form == "scalar":
        return (F.scalar(dtype=T, **({"default": v} if kw else {}), **f), want) if inner == () else None
    if form == "direct":
        return F(dtype=T, intrinsic_shape=inner, **kw, **f), want
    if form == "direct-positional":
        return (F(T, inner, v), want) if kw else (F(T, inner, **f), want)
    if form == "bracket":
        return (F[T], want) if inner == () and not kw and not f else None
    if form == "bracket-shape":
        return None if f else (F[T, inner, v], want) if kw else (F[T, inner], want)
    if form == "bracket-fill":
        return (F[T, v], want) if inner == () and kw else None
    if form == "annotated":
        return typing.Annotated[jnp.ndarray, F.tensor(dtype=T, shape=inner, **kw, **f)], want
    if form == "dtype-instance":
        return F.tensor(dtype=jnp.dtype(T), shape=inner, **kw, **f), want
    if form == "numpy-type":
        return F.tensor(dtype=d.type, shape=inner, **kw, **f), want


N = itertools.count()


def define(fields, **kw):
    from xtructure import xtructure_dataclass

    C = type(f"C17_{next(N)}", (), {"__annotations__": dict(fields), "__module__": __name__, "__qualname__": "gen"})
    return xtructure_dataclass(**kw)(C) if kw else xtructure_dataclass(C)


def check_field(job, what, got, want):
    if not hasattr(got, "shape") or not hasattr(got, "dtype"):
        return job.violation(f"{what} is {type(got).__name__} {got!r}, not an array")
    g = np.asarray(got)
    if g.dtype != want.dtype or g.shape != want.shape:
        return job.violation(f"{what} is {g.dtype}{g.shape}, declared {want.dtype}{want.shape}")
    if g.tobytes() != want.tobytes() and not np.array_equal(g.astype(np.float64), want.astype(np.float64), equal_nan=True):
        return job.violation(f"{what} is {g.tolist()}, declared {want.tolist()}")


def single(job, dtypes, deep):
    """Every dtype x inner shape x fill x way of writing it; defaults at every batch shape."""
    for name in dtypes:
        n = 0
        for inner, fill, form in itertools.product(INNER, FILLS, FORMS):
            try:
                decl = declare(name, inner, fill, form)
                if decl is None:
                    continue
                label = f"{name} {inner} fill {fill} written as {form}"
                C = define({"x": decl[0]})
            except Exception as e:
                job.violation(f"{name} {inner} fill {fill} written as {form}: cannot be declared: {type(e).__name__}: {str(e)[:200]}")
                continue
            # every way of writing it once; every batch shape for the plain ones
            for b in BATCH if form in ("tensor", "scalar") or deep else [BATCH[(len(inner) + FILLS.index(fill)) % len(BATCH)]]:
                try:
                    x = C.default(b) if b else C.default()
                    check_field(job, f"the default field of {label} at batch {b}", x.x, decl[1](b + inner))
                    y = C.default(shape=b)
                    check_field(job, f"the default field (shape=) of {label} at batch {b}", y.x, decl[1](b + inner))
                except Exception as e:
                    job.violation(f"{label}: default at batch {b} raised {type(e).__name__}: {str(e)[:200]}")
                job.count("evaluations", 2)
                job.count("distinct_nontrivial", 2 * bool(inner or fill != "none"))
                n += 1
            if C.default_shape.x != inner or np.dtype(C.default_dtype.x) != dt(name):
                job.violation(f"{label}: default_shape/default_dtype report {C.default_shape.x} {C.default_dtype.x}")
            # descriptors derived from this one
            if form == "tensor":
                from xtructure.core.field_descriptor_utils import broadcast_intrinsic_shape, clone_field_descriptor, with_intrinsic_shape
                for how, fd, s in (("clone", clone_field_descriptor(decl[0]), inner), ("with_intrinsic_shape", with_intrinsic_shape(decl[0], (2, 2)), (2, 2)),
                                   ("broadcast_intrinsic_shape", broadcast_intrinsic_shape(decl[0], [3]), (3,) + inner)):
                    check_field(job, f"the default field of {label} after {how}", define({"x": fd}).default((2,)).x, decl[1]((2,) + s))
                    job.count("evaluations")
        # compiled and mapped
        C = define({"x": declare(name, (2,), "none", "tensor")[0], "y": declare(name, (), "one", "scalar")[0]})
        for how, x, b in (("compiled", jax.jit(lambda: C.default((3,)))(), (3,)), ("mapped", jax.vmap(lambda _: C.default())(jnp.arange(3)), (3,)),
                          ("mapped batch", jax.vmap(lambda _: C.default((2,)))(jnp.arange(3)), (3, 2))):
            check_field(job, f"{name}: {how} default", x.x, np.full(b + (2,), implied(dt(name)), dt(name)))
            check_field(job, f"{name}: {how} default", x.y, np.full(b, fill_of("one", dt(name))[1], dt(name)))
            job.count("evaluations")
        job.progress(f"{name}: {n}")
    job.sample({"dtypes": dtypes, "declarations": n, "fills": FILLS, "forms": FORMS})


def randoms(job, dtypes, deep):
    """Random instances: dtype and shape at every batch shape; a function of the key."""
    import collections

    for name in dtypes:
        d = dt(name)
        for inner in INNER:
            C = define({"x": declare(name, inner, "none", "tensor")[0], "y": declare(name, (), "none", "scalar")[0]})
            for b in BATCH:
                k = jax.random.PRNGKey(len(inner) * 7 + len(b))
                try:
                    r, s, z = C.random(b, k), C.random(shape=b, key=k), C.random(b)
                except Exception as e:
                    job.violation(f"random {name}{inner} at batch {b} raised {type(e).__name__}: {str(e)[:200]}")
                    continue
                for x in (r, s, z):
                    for f, want in (("x", b + inner), ("y", b)):
                        v = getattr(x, f)
                        job.expect(v.dtype == d and v.shape == want, f"random field of {name}{inner} at batch {b} is {v.dtype}{v.shape}, declared {d}{want}")
                    job.count("evaluations")
                    job.count("distinct_nontrivial", bool(inner))
                job.expect(all(np.asarray(p).tobytes() == np.asarray(q).tobytes() for p, q in zip(jax.tree_util.tree_leaves(r), jax.tree_util.tree_leaves(s))),
                           f"random {name}{inner} at batch {b}: two calls with one key differ")
        C = define({"x": declare(name, (8,), "none", "tensor")[0]})
        vals = [np.asarray(C.random((8,), jax.random.PRNGKey(i)).x) for i in range(6)]
        job.expect(len({v.tobytes() for v in vals}) == 6, f"random {name}: different keys give the same instance")
        j = jax.jit(lambda k: C.random((8,), k))(jax.random.PRNGKey(3))
        job.expect(np.asarray(j.x).tobytes() == vals[3].tobytes(), f"random {name} differs when compiled")
        m = jax.vmap(lambda k: C.random((8,), k))(jnp.stack([jax.random.PRNGKey(i) for i in range(6)]))
        job.expect(np.asarray(m.x).tobytes() == np.stack(vals).tobytes(), f"random {name} differs when mapped over keys")
        job.count("evaluations", 8)
        job.progress(name)
    job.sample({"dtypes": dtypes, "inner": [list(i) for i in INNER], "batch": [list(b) for b in BATCH]})


def several(job, part, parts, deep):
    """Classes of two and three fields: all pairs of (dtype, fill) with inner shapes that coincide with batch extents."""
    kinds = [(n, i, f) for n in D32 for i, f in zip([(), (2,), (2, 3), (3,)], ["none", "zero", "factory-array", "one"])]
    pairs = [p for q, p in enumerate(itertools.product(kinds, repeat=2)) if q % parts == part]
    if not deep:
        pairs = [p for q, p in enumerate(pairs) if (q // 3) % 2 == 0]
    for q, (a, b) in enumerate(pairs):
        fields = [a, b] + ([kinds[(q * 7) % len(kinds)]] if q % 3 == 0 else [])
        decl = [declare(*f, FORMS[(q + j) % 2 * 7]) or declare(*f, "tensor") for j, f in enumerate(fields)]
        C = define({f"f{j}": d[0] for j, d in enumerate(decl)})
        for batch in [(), (2,)] + ([(2, 3), (3,), (0,)] if deep else []):
            x = C.default(batch)
            for j, (f, d) in enumerate(zip(fields, decl)):
                check_field(job, f"field {j} of the default of {fields} at batch {batch}", getattr(x, f"f{j}"), d[1](batch + f[1]))
            job.expect(x.shape.batch == batch, f"the default of {fields} at batch {batch} reports batch {x.shape.batch}")
            job.count("evaluations")
            job.count("distinct_nontrivial")
        if q % 20 == 0 or deep and q % 5 == 0:
            x = C.random((2,), jax.random.PRNGKey(q))
            for j, f in enumerate(fields):
                v = getattr(x, f"f{j}")
                job.expect(v.dtype == dt(f[0]) and v.shape == (2,) + f[1], f"field {j} of a random {fields} is {v.dtype}{v.shape}")
            job.count("evaluations")
        if q % 50 == 0:
            job.progress(f"{q}")
    job.sample({"fields": [list(map(str, f)) for f in fields]})


def never(v):
    raise ValueError("this validator accepts nothing")


def below_100(v):
    if (np.asarray(v).astype(np.float64) >= 100).any():
        raise ValueError("too large")


def factory(shape, t):
    return np.full(shape, 3)


KEEP = object()


def derived(job, part, parts, deep):
    """Descriptors derived from others, by every combination of overrides (and chains of two), in a class."""
    import xtructure
    from xtructure import FieldDescriptor as F

    base = [(n, i, f, v) for n, i, f, v in itertools.product(["bool_", "uint8", "int32", "float32"], [(), (2,), (0,)], [("none", None), ("value", 1), ("value", 0), ("factory", factory)],
                                                             [None, below_100])]
    over = list(itertools.product([KEEP, "int16", "float16"], [KEEP, (), (3, 2), [2]], [KEEP, ("value", 0), ("value", 1), ("value", False), ("value", 2), ("factory", factory)],
                                  [KEEP, None, below_100, never]))
    q = 0

    def build(n, i, f, v):
        return {"dtype": dt(n), "shape": i, "fill": ("value", implied(dt(n))) if f[0] == "none" else f, "validator": v}

    def derive(d, m, o):
        t, i, f, v = o
        kw, m = {}, dict(m)
        if t is not KEEP:
            kw["dtype"] = getattr(jnp, t)
            m["dtype"] = dt(t)
        if i is not KEEP:
            kw["intrinsic_shape"] = i
            m["shape"] = tuple(i)
        if f is not KEEP:
            kw["fill_value" if f[0] == "value" else "fill_value_factory"] = f[1]
            m["fill"] = f
        if v is not KEEP:
            kw["validator"] = v
            m["validator"] = v
        return xtructure.clone_field_descriptor(d, **kw), m

    def judge(label, d, m, full):
        meta = xtructure.descriptor_metadata(d)
        job.expect(np.dtype(meta["dtype"]) == m["dtype"] and tuple(meta["intrinsic_shape"]) == m["shape"] and meta["validator"] is m["validator"]
                   and (meta["fill_value_factory"] is m["fill"][1] if m["fill"][0] == "factory" else meta["fill_value_factory"] is None),
                   lambda: f"{label}: the derived descriptor declares {meta}, expected {m}")
        if full:
            b = (2,) if q % 2 else ()
            C = define({"x": d})
            v = 3 if m["fill"][0] == "factory" else m["fill"][1]
            want = np.full(b + m["shape"], v).astype(m["dtype"])
            check_field(job, f"{label}: the default field at batch {b}", C.default(b).x, want)
            V = define({"x": d}, validate=True)
            low = jnp.asarray(np.full(b + m["shape"], 1).astype(m["dtype"]))
            high = jnp.asarray(np.full(b + m["shape"], 100).astype(m["dtype"]))
            for val, refuse in ((low, m["validator"] is never), (high, m["validator"] is never or m["validator"] is below_100 and m["dtype"] != np.bool_ and high.size > 0)):
                try:
                    V(x=val)
                    took = True
                except ValueError:
                    took = False
                job.expect(took != refuse, f"{label}: a validating class {'accepts' if took else 'rejects'} {np.asarray(val).tolist()}")
                job.count("evaluations")
        job.count("evaluations")
        job.count("distinct_nontrivial")

    seen = set()
    for bi, (n, i, f, v) in enumerate(base):
        if bi % parts != part:
            continue
        d0, m0 = F(getattr(jnp, n), i, validator=v, **({} if f[0] == "none" else {"fill_value": f[1]} if f[0] == "value" else {"fill_value_factory": f[1]})), build(n, i, f, v)
        for oi, o in enumerate(over):
            t, ii, ff, vv = o
            if t is not KEEP and m0["fill"][0] == "value" and ff is KEEP and f[0] == "none":
                continue  # which fill an undeclared one becomes under another dtype is not specified
            d1, m1 = derive(d0, m0, o)
            tag = (str(m1), oi % 7)
            full = deep or tag not in seen and oi % 2 == bi % 2
            seen.add(tag)
            judge(f"{n}{i} fill {f[0]} {f[1] if f[0] == 'value' else ''} cloned with {['-' if k is KEEP else getattr(k, '__name__', k) for k in o]}", d1, m1, full)
            q += 1
            if oi % 5 == bi % 5:
                o2 = over[(oi * 31 + bi) % len(over)]
                if o2[0] is not KEEP and o2[2] is KEEP and f[0] == "none" and ff is KEEP:
                    continue
                d2, m2 = derive(d1, m1, o2)
                judge(f"{n}{i} fill {f[0]} cloned twice with {['-' if k is KEEP else getattr(k, '__name__', k) for k in o + o2]}", d2, m2, deep)
                judge(f"{n}{i}: the original after being cloned", d0, m0, False)
        # both fills at once are refused
        try:
            xtructure.clone_field_descriptor(d0, fill_value=1, fill_value_factory=factory)
            job.violation(f"{n}{i}: a clone with both a fill value and a fill factory is accepted")
        except ValueError:
            pass
        job.progress(f"{bi}")
    # packed and bit-width declarations survive
    for bits, pb in itertools.product([None, 3, 8], [None, 5]):
        d = F.packed_tensor(shape=(7,), packed_bits=pb) if pb else F.tensor(dtype=jnp.uint8, shape=(7,), bits=bits)
        for how, e in (("clone", xtructure.clone_field_descriptor(d)), ("validator", xtructure.clone_field_descriptor(d, validator=below_100)), ("fill", xtructure.clone_field_descriptor(d, fill_value=1))):
            a, b = xtructure.descriptor_metadata(d), xtructure.descriptor_metadata(e)
            for k in ("dtype", "intrinsic_shape", "bits", "packed_bits", "unpacked_dtype", "unpacked_intrinsic_shape"):
                job.expect(a[k] == b[k], f"clone ({how}) of a {bits or pb}-bit field: {k} is {b[k]}, was {a[k]}")
            job.count("evaluations")
    job.sample({"bases": len(base), "overrides": len(over)})


def nested(job, deep):
    """Nesting: inner shapes and fills of every level reach defaults and random instances; packed fields and explicit defaults."""
    from xtructure import FieldDescriptor as F
    from xtructure import xtructure_dataclass

    for di, (n1, f1) in enumerate(itertools.product(D32, ["none", "zero", "factory-array"])):
        i1 = [(), (2,), (2, 3)][di % 3]
        d1 = declare(n1, i1, f1, "tensor")
        A = define({"p": d1[0], "q": F.scalar(dtype=jnp.bool_)})
        for i2 in [(), (2,), (3, 1)]:
            B = define({"a": F.tensor(dtype=A, shape=i2) if i2 else F.scalar(dtype=A), "k": F[jnp.int16, (2,)]})
            for i3 in [(), (2,)]:
                Cc = define({"b": F(B, i3), "a": F[A], "z": declare("uint32", (), "none", "scalar")[0]}) if deep or di % 3 == 0 else None
                for b in [(), (2,), (0, 3)]:
                    todo = [("B", B.default(b), lambda x: x.a, b + i2, lambda x: x.k, b)]
                    if Cc:
                        todo.append(("C", Cc.default(b), lambda x: x.b.a, b + i3 + i2, lambda x: x.b.k, b + i3))
                        todo.append(("C", Cc.default(b), lambda x: x.a, b, lambda x: x.b.k, b + i3))
                    for lab, x, fa, sa, fk, sk in todo:
                        check_field(job, f"nested default {lab} {n1}{i1} in {i2} in {i3} at batch {b}: p", fa(x).p, d1[1](sa + i1))
                        check_field(job, f"nested default {lab} in {i2} in {i3} at batch {b}: q", fa(x).q, np.full(sa, False))
                        check_field(job, f"nested default {lab} in {i2} in {i3} at batch {b}: k", fk(x), np.zeros(sk + (2,), np.int16))
                        job.expect(type(fa(x)) is A and x.shape.batch == b, f"nested default {lab} in {i2} at batch {b} reports {x.shape}")
                        job.count("evaluations")
                        job.count("distinct_nontrivial")
                    if di % 6 == 0:
                        C2 = Cc or B
                        x = C2.random(b, jax.random.PRNGKey(di))
                        y = C2.default(b)
                        for u, v in zip(jax.tree_util.tree_leaves(x), jax.tree_util.tree_leaves(y)):
                            job.expect(u.dtype == v.dtype and u.shape == v.shape, f"nested random field is {u.dtype}{u.shape}, default {v.dtype}{v.shape}")
                        job.expect(jax.tree_util.tree_structure(x) == jax.tree_util.tree_structure(y), "nested random instance has another structure than the default")
                        job.count("evaluations")
                if not Cc:
                    break
        job.progress(f"{n1} {f1}")
    # packed storage fields
    for bits, shape in itertools.product(range(1, 33), [(1,), (5,), (3, 4), (33,)]):
        P = define({"s": F.packed_tensor(shape=shape, packed_bits=bits), "k": F[jnp.int32]})
        nbytes = P.default().s.shape[-1]
        for b in [(), (3,)]:
            x = P.default(b)
            check_field(job, f"the packed default of {bits} bits {shape}", x.s, np.zeros(b + (nbytes,), np.uint8))
            u = x.s_unpacked
            want = np.zeros(b + shape, np.bool_ if bits == 1 else np.uint8 if bits <= 8 else np.uint32)
            check_field(job, f"the logical view of the packed default of {bits} bits {shape}", u, want)
            job.expect(nbytes * 8 >= bits * int(np.prod(shape)), f"{bits} bits {shape} stored in {nbytes} bytes")
            job.count("evaluations")
    job.progress("packed")
    # a class that provides its own default keeps it

    @xtructure_dataclass
    class Own:
        x: F.scalar(dtype=jnp.int32)
        v: F.tensor(dtype=jnp.float32, shape=(2,))

        @classmethod
        def default(cls, shape=()):
            return cls(x=jnp.full(shape, 7, jnp.int32), v=jnp.full(shape + (2,), 1.5, jnp.float32))
    Outer = define({"o": F(Own, (2,)), "k": F[jnp.uint8]})
    for b in BATCH:
        check_field(job, f"an explicitly provided default at batch {b}", Own.default(b).x, np.full(b, 7, np.int32))
        check_field(job, f"a nested explicitly provided default at batch {b}", Outer.default(b).o.v, np.full(b + (2, 2), 1.5, np.float32))
        check_field(job, f"the other field at batch {b}", Outer.default(b).k, np.full(b, 255, np.uint8))
        job.count("evaluations", 2)
    job.sample({"nesting": "C{b: B[(2,)]{a: A[(3,1)]{p, q}, k}, a: A, z}"})


# ---------------------------------------------------------------- validation

def offers(name, inner, deep):
    """Field values with whether the declaration admits them."""
    d = dt(name)
    dts = [dt(n) for n in (D32 if deep else ["bool_", "uint8", "uint32", "int16", "int32", "bfloat16", "float32"])]
    shapes = [s for r in range(4) for s in itertools.product((1, 2, 3), repeat=r)]
    out = []
    for e in dts:
        out.append((np.zeros((2,) + inner, e), e == d, f"{e}"))
        out.append((jnp.zeros(inner, e), e == d, f"{e} single"))
    for s in shapes:
        k = len(inner)
        out.append((np.zeros(s, d), k == 0 or s[-k:] == inner if len(s) >= k else False, f"shape {s}"))
    return out


def accepts(f):
    try:
        f()
        return True
    except Exception:
        return False


def validate(job, part, parts, deep):
    """Every pair of field values (right and wrong dtypes and shapes) offered to two-field classes."""
    decls = [("uint8", ()), ("float32", (2,)), ("bool_", (2, 3)), ("int32", (1,)), ("bfloat16", (3,)), ("uint32", (2, 1, 2)), ("int16", (3, 3)), ("float16", ())]
    combos = [c for q, c in enumerate(itertools.combinations(decls, 2)) if q % parts == part]
    if not deep:
        combos = combos[::2]
    for a, b in combos:
        fields = {"f": declare(*a, "none", "tensor")[0], "g": declare(*b, "none", "tensor")[0]}
        C, L = define(fields, validate=True), define(fields)
        one = [offers(*a, deep), offers(*b, deep)]
        if not deep:  # each field deviates in every way beside a right and a few wrong partners
            short = [[o for o in one[j] if o[1]][::4] + [o for o in one[j] if not o[1]][::9] for j in (0, 1)]
            pairs = list(itertools.product(one[0], short[1])) + list(itertools.product(short[0], one[1]))
        else:
            pairs = list(itertools.product(*one))
        for (x, okx, lx), (y, oky, ly) in pairs:
            want = okx and oky
            got = accepts(lambda: C(f=x, g=y))
            job.count("evaluations")
            job.count("distinct_nontrivial", not want)
            if got != want:
                job.violation(f"a class declaring f {a[0]}{a[1]} and g {b[0]}{b[1]} {'accepts' if got else 'rejects'} f of {lx} and g of {ly}", {"f": lx, "g": ly, "declared": [str(a), str(b)]})
            if deep or (len(lx) + len(ly)) % 3 == 0:
                z = L(f=x, g=y)  # without validation anything is stored; asking later gives the same answer
                got = accepts(z.check_invariants)
                job.count("evaluations")
                if got != want:
                    job.violation(f"check_invariants of a class declaring f {a[0]}{a[1]} and g {b[0]}{b[1]} {'accepts' if got else 'rejects'} f of {lx} and g of {ly}")
        job.progress(f"{a} {b}")
        for bad in (None, "text", object(), [["x"]], {"a": 1}):
            good = [o for o in one[0] if o[1]][0][0]
            job.expect(not accepts(lambda: C(f=good, g=bad)), f"a class declaring g {b[0]}{b[1]} accepts {bad!r}")
            job.expect(not accepts(lambda: C(f=bad, g=[o for o in one[1] if o[1]][0][0])), f"a class declaring f {a[0]}{a[1]} accepts {bad!r}")
            job.count("evaluations", 2)
        for batch in [(), (3,), (2, 2)]:
            job.expect(accepts(lambda: C.default(batch)) and accepts(lambda: C.default(batch).check_invariants()), f"a validated class rejects its own default at batch {batch}")
            job.count("evaluations")
        job.expect(accepts(lambda: C.random((2,), jax.random.PRNGKey(1))), "a validated class rejects its own random instance")
        job.expect(accepts(lambda: jax.jit(lambda: C.default((2,)))()), "a validated class rejects its own default in compiled code")
    job.sample({"declared": [str(c) for c in combos[0]], "offers": [o[2] for o in one[0]][::5]})


def validators(job, deep):
    """Custom validators: every subset of fields carries one, every assignment of good and bad values."""
    from xtructure import FieldDescriptor as F

    class No(Exception):
        pass

    calls = []

    def guard(tag, limit):
        def v(x):
            calls.append((tag, np.asarray(x).tolist()))
            if bool(np.any(np.asarray(x) > limit)):
                raise No(tag)
        return v
    shapes = {"a": (), "b": (2,), "c": (2, 2)}
    for who in itertools.product((False, True), repeat=3):
        for form in ("tensor", "direct", "annotated"):
            def fld(n, w):
                v = guard(n, 5) if w else None
                s = shapes[n]
                if form == "direct":
                    return F(jnp.int32, s, validator=v)
                fd = F.tensor(dtype=jnp.int32, shape=s, validator=v) if s else F.scalar(dtype=jnp.int32, validator=v)
                return typing.Annotated[jnp.ndarray, fd] if form == "annotated" else fd
            fields = {n: fld(n, w) for n, w in zip(shapes, who)}
            C, L = define(fields, validate=True), define(fields)
            for batch in [(), (2,)]:
                for bad in itertools.product((False, True), repeat=3):
                    vals = {}
                    for (n, s), w in zip(shapes.items(), bad):
                        v = np.arange(int(np.prod(batch + s))).reshape(batch + s).astype(np.int32) % 3
                        if w:
                            v = np.array(v)
                            v.reshape(-1)[-1] = 9
                        vals[n] = v
                    want = not any(w and b for w, b in zip(who, bad))
                    calls.clear()
                    got = accepts(lambda: C(**vals))
                    job.count("evaluations")
                    job.count("distinct_nontrivial", any(bad))
                    if got != want:
                        job.violation(f"validators on {[n for n, w in zip(shapes, who) if w]}, bad values in {[n for n, b in zip(shapes, bad) if b]} (batch {batch}): {'accepted' if got else 'rejected'}")
                    if got:
                        seen = sorted(calls, key=str)
                        job.expect(all(any(c[0] == n and c[1] == vals[n].tolist() for c in seen) for n, w in zip(shapes, who) if w),
                                   lambda: f"an accepted instance's validators saw {seen} for {vals}")
                    z = L(**vals)
                    job.expect(accepts(z.check_invariants) == want, f"check_invariants with validators on {who}, bad values {bad}: {'rejected' if want else 'accepted'}")
                    # the positive part of the contract still holds beside validators
                    w2 = dict(vals, b=vals["b"].astype(np.int16))
                    job.expect(not accepts(lambda: C(**w2)), f"a wrong dtype is accepted beside validators {who}")
                    # derived instances are validated as well
                    if want and batch:
                        x = C(**vals)
                        job.expect(accepts(lambda: x.replace(a=vals["a"])), "replace with a good value is rejected")
                        if who[0]:
                            job.expect(not accepts(lambda: x.replace(a=np.full(batch, 9, np.int32))), "replace with a bad value is accepted")
                        job.expect(accepts(lambda: x[0]) and accepts(lambda: x.at[0].set(1)), "indexing a valid instance is rejected")
                    job.count("evaluations", 3)
        job.progress(f"{who}")
    # __post_init__ runs first
    ns = {"__annotations__": {"a": F.scalar(dtype=jnp.int32), "b": F.tensor(dtype=jnp.float32, shape=(2,))}, "__module__": __name__, "__qualname__": "gen"}
    from xtructure import xtructure_dataclass
    Fix = xtructure_dataclass(validate=True)(type("Fix", (), dict(ns, __post_init__=lambda s: setattr(s, "a", jnp.asarray(s.a, jnp.int32)))))
    Spoil = xtructure_dataclass(validate=True)(type("Spoil", (), dict(ns, __annotations__=dict(ns["__annotations__"]), __post_init__=lambda s: setattr(s, "a", jnp.asarray(s.a, jnp.float32)))))
    b = np.zeros((2,), np.float32)
    for e in ("int32", "int16", "float32"):
        job.expect(accepts(lambda: Fix(a=np.zeros((), e), b=b)), f"an instance that __post_init__ makes valid is rejected ({e})")
        job.expect(not accepts(lambda: Spoil(a=np.zeros((), e), b=b)), f"an instance that __post_init__ makes invalid is accepted ({e})")
        job.count("evaluations", 2)
    # a plain Python number of the right kind is acceptable (documented)
    C = define({"vector": F.tensor(dtype=jnp.float32, shape=(3,)), "positive": F.scalar(dtype=jnp.int32, validator=guard("p", 50))}, validate=True)
    job.expect(accepts(lambda: C(vector=jnp.ones((5, 3), jnp.float32), positive=10)), "the documented example is rejected")
    job.expect(not accepts(lambda: C(vector=jnp.ones((5, 3), jnp.int32), positive=10)), "the documented counter-example is accepted")
    job.expect(not accepts(lambda: C(vector=jnp.ones((5, 3), jnp.float32), positive=100)), "the documented counter-example is accepted")
    job.count("evaluations", 3)
    job.sample({"validators": list(shapes)})


def validate_nested(job, deep):
    """Nested fields: the class and the inner shape of the nested instance, validators on it, both levels validated."""
    from xtructure import FieldDescriptor as F

    class No(Exception):
        pass

    def small(x):
        if bool(np.any(np.asarray(x.p) > 5)):
            raise No()
    A = define({"p": F.scalar(dtype=jnp.int32), "q": F.tensor(dtype=jnp.uint8, shape=(2,))}, validate=True)
    A2 = define({"p": F.scalar(dtype=jnp.int32), "q": F.tensor(dtype=jnp.uint8, shape=(2,))}, validate=True)
    mk = lambda C, s, v=0: C(p=np.full(s, v, np.int32), q=np.zeros(s + (2,), np.uint8))
    shapes = [s for r in range(4) for s in itertools.product((1, 2, 3), repeat=r)]
    for inner in [(), (2,), (1,), (2, 3), (3, 1)]:
        for guarded in (False, True):
            fields = {"n": F(A, inner, validator=small if guarded else None), "k": F[jnp.int16]}
            C, L = define(fields, validate=True), define(fields)
            k = len(inner)
            for s in shapes:
                for v in (0, 9):
                    want = (k == 0 or len(s) >= k and s[len(s) - k:] == inner) and not (guarded and v)
                    batch = s[:len(s) - k] if want else ()
                    for label, f in (("constructing", lambda: C(n=mk(A, s, v), k=np.zeros(batch, np.int16))), ("check_invariants", L(n=mk(A, s, v), k=np.zeros(batch, np.int16)).check_invariants)):
                        got = accepts(f)
                        job.count("evaluations")
                        job.count("distinct_nontrivial", not want)
                        if got != want:
                            job.violation(f"{label}: a nested field declared with inner shape {inner} holding a batch {s} of value {v}{' with a validator' if guarded else ''} is {'accepted' if got else 'rejected'}")
            for bad in (mk(A2, inner), np.zeros(inner, np.int32), None, 3, {"p": 1}):
                job.expect(not accepts(lambda: C(n=bad, k=np.zeros((), np.int16))), f"a nested field accepts a {type(bad).__name__}")
                job.count("evaluations")
            job.expect(not accepts(lambda: C(n=mk(A, inner), k=np.zeros((), np.int32))), "a wrong dtype beside a nested field is accepted")
            for b in [(), (2,), (2, 3)]:
                job.expect(accepts(lambda: C.default(b)), f"a class with a nested field of inner shape {inner} rejects its own default at batch {b}")
                x = mk(A, (4,) + inner)
                y = C(n=x, k=np.zeros((4,), np.int16))
                job.expect(accepts(lambda: (y[0], y[1:], y.at[1].set(y[0]), y.replace(k=y.k), y.reshape((2, 2)))), "indexing or reshaping a valid nested instance is rejected")
                job.count("evaluations", 6)
        job.progress(f"{inner}")
    job.sample({"inner": [str(i) for i in [(), (2,), (1,), (2, 3), (3, 1)]]})


def validate_later(job):
    """The library's own operations on valid instances of a validated class are never rejected."""
    from xtructure import BGPQ, HashTable, Queue, Stack
    from xtructure import FieldDescriptor as F
    from xtructure import numpy as X

    A = define({"p": F.scalar(dtype=jnp.int16), "q": F.tensor(dtype=jnp.bool_, shape=(2,))}, validate=True)
    C = define({"n": F(A, (2,)), "k": F[jnp.uint32], "v": F[jnp.float32, (3,)]}, validate=True)
    x = C.random((4,), jax.random.PRNGKey(1))
    y = C.random((4,), jax.random.PRNGKey(2))
    ops = {
        "concat": lambda: X.concat([x, y]), "stack": lambda: X.stack([x, y]), "pad": lambda: X.pad(x, 1), "take": lambda: X.take(x, jnp.array([0, 1]), axis=0),
        "where": lambda: X.where(jnp.array([True, False, True, False]), x, y), "roll": lambda: X.roll(x, 1, axis=0), "flatten": lambda: x.reshape((2, 2)).flatten(),
        "update": lambda: X.update_on_condition(x, jnp.array([0, 1]), jnp.array([True, False]), y[:2]), "expand": lambda: X.expand_dims(x, 0), "squeeze": lambda: X.squeeze(x[None], 0),
        "transpose": lambda: x.reshape((2, 2)).transpose(), "full_like": lambda: X.full_like(x, 1), "zeros_like": lambda: X.zeros_like(x), "split": lambda: X.split(x, 2),
        "broadcast": lambda: X.broadcast_to(x, (3, 4)), "unique_mask": lambda: X.unique_mask(x), "at.set": lambda: x.at[1:3].set(y[0]), "set_as_condition": lambda: x.at[jnp.array([0, 2])].set_as_condition(jnp.array([True, False]), y[:2]),
        "jit": lambda: jax.jit(lambda a: a.at[0].set(a[1]))(x), "vmap": lambda: jax.vmap(lambda a: a.replace(k=a.k + 1))(x), "scan": lambda: jax.lax.scan(lambda c, a: (a, c), x[0], x),
        "queue": lambda: Queue.build(3, C).enqueue(x[:2]).dequeue(), "stack container": lambda: Stack.build(3, C).push(x[0]).pop(),
        "bgpq": lambda: BGPQ.build(4, 2, C, jnp.float32).insert(jnp.arange(2.0), x[:2]).delete_mins(), "table": lambda: HashTable.build(C, 1, 8).parallel_insert(x),
        "str": lambda: str(x), "eq": lambda: x == y, "hash": lambda: x[0].hash(1), "tree_map": lambda: jax.tree_util.tree_map(lambda a: a[0], x), "eval_shape": lambda: jax.eval_shape(lambda a: a[0], x),
    }
    for label, f in ops.items():
        try:
            f()
        except Exception as e:
            job.violation(f"{label} on valid instances of a validated class raised {type(e).__name__}: {str(e)[:200]}")
        job.count("evaluations")
        job.count("distinct_nontrivial")
        job.progress(label)
    job.sample({"operations": list(ops)})
