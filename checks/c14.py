"""C14: a saved instance loads back exactly, or loading fails.

Complete enumeration of (a) classes x batch shapes x storage options x bit
patterns for undamaged files, and (b) for a file of every kind of class: every
cut-off length, every prefix of the writes the library issues (a write cut off
at any byte), every subset of persisted sectors, and every damaged byte with
many replacement values.  The oracle is the instance that was saved.
"""
from __future__ import annotations

import io
import itertools
import os
import resource

import jax
import numpy as np

from mc import zoo
from mc.classes import BY_NAME, make

LEVEL = "fault_enumeration"
RULE = ("an evaluation is one load of one (possibly damaged) file, or one record bit pattern compared after a load; a fault is one cut-off point, one prefix of the issued writes, one set "
        "of persisted sectors, or one (byte position, replacement) pair; non-trivial = the file differs from the saved one, or holds set bits")
ASSUMPTIONS = [
    "at most one byte of a completely written file is damaged",
    "paths end in .npz (numpy appends the suffix otherwise) and classes are importable module-level classes",
    "values fit the declared bit widths",
]
DAMAGE = ["ZU8", "ZF8", "ZOdd", "ZMat", "ZNest", "ZBits", "ZPk", "ZAgN"]


def jobs(tier):
    deep = tier == "thorough"
    names = list(zoo.ALL)
    out = []
    for i in range(0, len(names), 4):
        out.append({"name": f"roundtrip-{'-'.join(names[i:i + 4])}", "fn": "roundtrip", "cost": 18, "args": {"names": names[i:i + 4], "deep": deep}})
    for i in (0, 3):
        out.append({"name": f"roundtrip-64-{i}", "fn": "roundtrip", "cost": 18, "args": {"names": zoo.WITH_64[i:i + 3], "deep": deep}, "env": {"JAX_ENABLE_X64": "1"}})
    out.append({"name": "damage-64", "fn": "damage", "cost": 22, "args": {"name": "Z64Nest", "shape": [2], "part": [0, 1], "deep": deep}, "env": {"JAX_ENABLE_X64": "1"}})
    for part in range(4):
        out.append({"name": f"lengths-{part}", "fn": "lengths", "cost": 15, "args": {"part": part, "deep": deep}})
    out.append({"name": "roundtrip-plain", "fn": "roundtrip", "cost": 12, "args": {"names": list(BY_NAME), "deep": deep}})
    for part in range(2):
        out.append({"name": f"field-names-{part}", "fn": "field_names", "cost": 15, "args": {"part": part}})
    out.append({"name": "overwrite", "fn": "overwrite", "cost": 14, "args": {}})
    out.append({"name": "other-class", "fn": "other_class", "cost": 12, "args": {}})
    for n in (zoo.ALL if deep else DAMAGE):
        parts = 4 if deep else 2
        for p in range(parts):
            out.append({"name": f"damage-{n}-{p}", "fn": "damage", "cost": 22, "args": {"name": n, "shape": [2], "part": [p, parts], "deep": deep}})
    # fields longer than the reader's buffer, stored uncompressed because they do not compress
    for n, k in (("ZU32", 3000), ("ZTwo8", 9700)) + ((("ZWide", 400), ("ZNest", 300), ("ZAg3", 900), ("ZU16", 9000)) if deep else ()):
        parts = 8 if deep else 4
        for p in range(parts):
            out.append({"name": f"damage-long-{n}-{p}", "fn": "damage", "cost": 30, "args": {"name": n, "shape": [k], "part": [p, parts], "deep": deep}})
    for n in DAMAGE if deep else ("ZOdd", "ZBits", "ZNest"):
        out.append({"name": f"crash-{n}", "fn": "crash", "cost": 16, "args": {"name": n, "deep": deep}})
    return out


def cls_of(name):
    return zoo.ALL[name] if name in zoo.ALL else BY_NAME[name]


def noise(name, shape):
    """Incompressible content: every live bit from a fixed hash of its position."""
    C = cls_of(name)
    n = int(np.prod(shape))
    if name in BY_NAME:
        return make(C, np.arange(n).reshape(shape))
    live, size = zoo.live_bits(C)
    x = (np.arange(n * size, dtype=np.uint64) + np.uint64(1)) * np.uint64(0x9E3779B97F4A7C15)
    x ^= x >> np.uint64(29)
    x *= np.uint64(0xBF58476D1CE4E5B9)
    b = ((x >> np.uint64(40)) & np.uint64(255)).astype(np.uint8).reshape(tuple(shape) + (size,))
    return zoo.from_bits(C, b & zoo.pattern(C, live))


def image(x):
    """Everything that must come back: class, tree, dtypes, shapes and bits."""
    return type(x), jax.tree_util.tree_structure(x), [(np.asarray(l).dtype, np.asarray(l).shape, np.asarray(l).tobytes()) for l in jax.tree_util.tree_leaves(x)]


def differs(a, b):
    if a[0] is not b[0]:
        return f"class {b[0].__name__} instead of {a[0].__name__}"
    if a[1] != b[1]:
        return "another structure"
    for k, (x, y) in enumerate(zip(a[2], b[2])):
        if x != y:
            return f"leaf {k} is {y[0]}{y[1]} {np.frombuffer(y[2], np.uint8)[:16].tolist()} instead of {x[0]}{x[1]} {np.frombuffer(x[2], np.uint8)[:16].tolist()}"
    return None


BIG = {}


def big_class(inner, bits, dt):
    """A class with one field of the given inner shape."""
    k = f"ZBig{len(BIG)}"
    if (inner, bits, dt) not in BIG:
        BIG[inner, bits, dt] = zoo.mk(k, [("x", jax.numpy.dtype(dt).type, inner, bits), ("y", jax.numpy.uint8, (), None)])
    return BIG[inner, bits, dt]


def lengths(job, part, deep):
    """Axis lengths on both sides of every power of two up to 2**17, as batch and as inner axes,
    and many axes; every element has its own content."""
    p = os.path.join(job.work, "file.npz")
    edge = sorted({n for k in range(1, 18) for n in (2 ** k - 1, 2 ** k, 2 ** k + 1)})
    kinds = [((), 1, "bool"), ((2,), 3, "uint8"), ((), 12, "uint16"), ((), None, "uint32")]
    inner_kinds = [(1, "bool"), (5, "uint8"), (17, "uint32"), (None, "uint16")]

    def check(C, shape, label):
        import xtructure.io as xio

        n = int(np.prod(shape, dtype=int))
        (_, dt, inner, bits, _), _ = zoo.leaves_of(C)
        w = 1 if dt == np.bool_ else bits or 8 * dt.itemsize
        x = np.arange(n * int(np.prod(inner, dtype=int)), dtype=np.uint64)
        x = ((x * np.uint64(0x9E3779B97F4A7C15)) >> np.uint64(64 - w)).astype(dt).reshape(tuple(shape) + tuple(inner))
        v = C(x=jax.numpy.asarray(x), y=jax.numpy.asarray((np.arange(n) % 251).astype(np.uint8).reshape(shape)))
        for kw in ({}, {"packed": False}):
            try:
                v.save(p, **kw)
                for how in (C.load, xio.load):
                    d = differs(image(v), image(how(p)))
                    if d:
                        job.violation(f"{label} {kw} loads back as {d}")
            except Exception as e:
                job.violation(f"{label} {kw}: saving or loading raised {type(e).__name__}: {str(e)[:200]}")
            job.count("evaluations", 2)
            job.count("distinct_nontrivial", 2)
    inner, bits, dt = kinds[part]
    C = big_class(inner, bits, dt)
    for n in edge if deep or part < 2 else [e for e in edge if e > 100]:
        check(C, (n,), f"batch of {n} {dt} fields of {bits} bits")
        if n < 40000:
            check(C, (2, n), f"batch of (2, {n}) {dt} fields of {bits} bits")
            check(C, (n, 1), f"batch of ({n}, 1) {dt} fields of {bits} bits")
        job.progress(n)
    for rank in range(3, 13):
        check(C, (1,) * (rank - 2) + (2, 3), f"batch of {rank} axes")
    bits, dt = inner_kinds[part]
    for n in [e for e in edge if e in (1, 2, 255, 256, 257, 32767, 32768, 65535, 65536, 65537) or (deep and e > 6)]:
        check(big_class((n,), bits, dt), (), f"one record with an inner axis of {n}, {dt} of {bits} bits")
        check(big_class((n, 1), bits, dt), (2,), f"two records with inner shape ({n}, 1), {dt} of {bits} bits")
        job.progress(n)
    job.outcome(part)
    job.sample({"axis lengths": edge, "kind": [list(inner), bits, dt]})


# Parameter names of the archive writers and readers, archive member conventions, names with
# meaning in this library's files, and names that differ only in case or script.
NAMES = ["file", "allow_pickle", "args", "kwds", "arr_0", "arr_1", "path", "instance", "packed_", "compress", "zipf", "name", "npy", "npz", "data", "bits", "shape_", "dtype_",
         "f", "fid", "mmap_mode", "cls", "key", "files", "zip", "words", "tail", "a", "A", "aa", "a_a", "a__a", "x1", "X1", "module", "class_name", "format", "encoding", "\u00e9", "\u540d",
         "ownfid", "pickle_kwargs", "max_header_size", "fix_imports", "prefix", "compresslevel", "savez", "n" * 120]


def field_names(job, part):
    """Fields of every such name, alone and in pairs, at top level and nested, plain and with a declared width."""
    import xtructure.io as xio
    from jax import numpy as jnp

    p = os.path.join(job.work, "names.npz")

    def check(C, x, label):
        for kw in ({}, {"packed": False}):
            try:
                x.save(p, **kw)
                for how in (C.load, xio.load):
                    d = differs(image(x), image(how(p)))
                    if d:
                        job.violation(f"{label} {kw} loads back as {d}")
            except Exception as e:
                job.violation(f"{label} {kw}: saving or loading raised {type(e).__name__}: {str(e)[:200]}")
            job.count("evaluations", 2)
            job.count("distinct_nontrivial", 2)

    def values(C, n):
        return C(**{f: jnp.arange(n, dtype=jnp.uint8) % 7 + i for i, f in enumerate(C.__dataclass_fields__)})
    for i, a in enumerate(NAMES):
        if i % 2 != part:
            continue
        for bits in (None, 4):
            C = zoo.mk(f"ZName{i}_{bits}", [(a, jnp.uint8, (), bits)])
            check(C, values(C, 5), f"a class whose only field is called {a} ({bits} bits)")
            for j in (NAMES[(i + 1) % len(NAMES)], NAMES[(7 * i + 3) % len(NAMES)], "file", "a"):
                if j == a:
                    continue
                C = zoo.mk(f"ZName{i}_{bits}_{j}", [(a, jnp.uint8, (), bits), (j, jnp.uint8, (), None if bits else 5)])
                x = values(C, 5)
                check(C, x, f"a class with fields {a} and {j} ({bits} bits)")
                # nested under a field of either name, beside a field of the other
                D = zoo.mk(f"ZName{i}_{bits}_{j}_in", [(j, C, (), None), (a, jnp.uint8, (), None)])
                check(D, D(**{j: x, a: jnp.arange(5, dtype=jnp.uint8) + 9}), f"a class with a nested field {j} holding {a} and {j} ({bits} bits), and a field {a}")
        job.progress(a)
    job.outcome(part)
    job.sample({"names": NAMES[:8]})


def roundtrip(job, names, deep):
    """Undamaged files: every class, batch shape, storage option, and bit pattern."""
    shapes = [(), (1,), (3,), (2, 3), (0,), (2, 0), (1, 1, 2)] + ([(5, 2, 2), (0, 0), (7, 1), (33,)] if deep else [])
    p = os.path.join(job.work, "deep", "er", "file.npz")
    for name in names:
        C = cls_of(name)

        def check(x, label, **kw):
            job.count("evaluations")
            want = image(x)
            for how in ("class", "module"):
                try:
                    if how == "class":
                        x.save(p, **kw)
                        y = C.load(p)
                    else:
                        import xtructure.io as xio
                        xio.save(p, x, **kw)
                        y = xio.load(p)
                except Exception as e:
                    return job.violation(f"{label} {kw}: saving or loading raised {type(e).__name__}: {str(e)[:200]}")
                d = differs(want, image(y))
                if d:
                    job.violation(f"{label} {kw} loads back as {d}")
                d = differs(want, image(x))
                if d:
                    job.violation(f"{label} {kw}: saving changed the instance: {d}")
                if len(jax.tree_util.tree_leaves(x)[0].shape) > 1 and not deep:
                    break
        for s in shapes:
            x = noise(name, s)
            for kw in ({}, {"packed": False}, {"packed": True}):
                check(jax.tree_util.tree_map(jax.numpy.asarray, x), f"{name} of batch shape {s}", **kw)
            check(x, f"{name} of batch shape {s} with numpy fields")
        if name in zoo.ALL:
            live, size = zoo.live_bits(C)
            if size <= 2:  # every value
                raw = np.arange(1 << (8 * size), dtype=np.uint32).view(np.uint8).reshape(-1, 4)[:, :size] & zoo.pattern(C, live)
            else:
                pats = zoo.bases(C) + [[b] for b in live] + [[q for q in live if q != b] for b in live] + [[a, b] for a, b in zip(live, live[1:])]
                raw = np.array([zoo.pattern(C, q) for q in pats])
            for kw in ({}, {"packed": False}):
                check(zoo.jn(zoo.from_bits(C, raw)), f"{name}, {len(raw)} bit patterns", **kw)
            job.count("distinct_nontrivial", len(raw))
            job.count("evaluations", 2 * len(raw))
            for r in raw[:: max(1, len(raw) // 6)]:
                check(zoo.jn(zoo.from_bits(C, r)), f"one {name} with bytes {r.tolist()}")
        if name in BY_NAME or not has_bits(C):  # the default of a field with declared bits need not fit them
            check(jax.tree_util.tree_map(jax.numpy.asarray, C.default((2,))), f"the default {name}")
        job.progress(name)
    job.sample({"classes": names, "shapes": [list(s) for s in shapes]})


def has_bits(C):
    return any(bits for _, _, _, bits, _ in zoo.leaves_of(C))


def overwrite(job):
    """Saving over an existing file, all ordered pairs of a set of instances, twice in a row."""
    xs = [(n, s, zoo.jn(noise(n, s))) for n, s in (("ZU8", (1,)), ("ZOdd", (40,)), ("ZBits", (3,)), ("ZNest", ()), ("ZPk", (2, 2)), ("ZU8", (2000,)), ("ZBits", (0,)))]
    p = os.path.join(job.work, "f.npz")
    for seq in itertools.product(range(len(xs)), repeat=2):
        for i in seq:
            xs[i][2].save(p, packed=bool(i % 2))
        n, s, x = xs[seq[-1]]
        job.count("evaluations")
        d = differs(image(x), image(cls_of(n).load(p)))
        if d:
            job.violation(f"after saving {[(xs[i][0], xs[i][1]) for i in seq]} to one path, loading gives {d}")
    # two files at a time, and a relative path
    job.count("distinct_nontrivial", len(xs) ** 2)
    os.chdir(job.work)
    for (n, s, x), (m, t, y) in itertools.permutations(xs[:5], 2):
        x.save("one.npz")
        y.save("two.npz")
        job.count("evaluations")
        for q, C, z in (("one.npz", cls_of(n), x), ("two.npz", cls_of(m), y)):
            d = differs(image(z), image(C.load(q)))
            if d:
                job.violation(f"{q} among two files loads as {d}")
    job.progress("overwrite")
    job.sample({"sequence": [[n, list(s)] for n, s, _ in xs]})


def other_class(job):
    """Every ordered pair of classes: loading through the wrong one is refused."""
    names = list(zoo.ALL) + list(BY_NAME)
    for n in names:
        p = os.path.join(job.work, "f.npz")
        jax.tree_util.tree_map(jax.numpy.asarray, noise(n, (2,))).save(p)
        for m in names:
            job.count("evaluations")
            try:
                y = cls_of(m).load(p)
            except Exception as e:
                job.expect(m != n, lambda: f"{n} cannot be loaded back: {type(e).__name__}: {e}")
                continue
            job.expect(m == n, f"a saved {n} was loaded through {m} as {type(y).__name__}")
            job.count("distinct_nontrivial", m == n)
        job.progress(n)
    job.sample({"classes": len(names)})


class Judge:
    def __init__(self, job, C, want, path, what):
        self.job, self.C, self.want, self.path, self.what = job, C, want, path, what
        self.kinds = {}

    def load(self, content, label):
        with open(self.path, "wb") as f:
            f.write(content)
        job = self.job
        job.count("evaluations")
        try:
            y = self.C.load(self.path)
        except Exception as e:
            self.kinds[type(e).__name__] = self.kinds.get(type(e).__name__, 0) + 1
            return
        except BaseException as e:
            return job.violation(f"{self.what}: {label()}: loading ended with {type(e).__name__}")
        d = differs(self.want, image(y))
        if d:
            job.violation(f"{self.what}: {label()}: loading succeeded with {d}", {"what": self.what, "fault": label()})
        self.kinds["exact"] = self.kinds.get("exact", 0) + 1


def limited():
    # a damaged length must not take the machine's memory; allocation beyond this raises MemoryError
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, resource.RLIM_INFINITY))


def saved(job, name, shape):
    C = cls_of(name)
    x = jax.tree_util.tree_map(jax.numpy.asarray, noise(name, shape))
    p = os.path.join(job.work, "orig.npz")
    x.save(p)
    with open(p, "rb") as f:
        return C, x, f.read()


def damage(job, name, shape, part, deep):
    """Every cut-off length and every damaged byte."""
    limited()
    C, x, good = saved(job, name, tuple(shape))
    J = Judge(job, C, image(x), os.path.join(job.work, "bad.npz"), f"{name} of batch shape {tuple(shape)} ({len(good)} bytes)")
    k, parts = part
    long = len(good) > 6000
    J.load(good, lambda: "undamaged file")
    if not J.kinds.get("exact"):
        return job.violation(f"{name}: the undamaged file does not load")
    arr = bytearray(good)
    for pos in range(k, len(good), parts):
        if not long or deep or pos < 700 or pos > len(good) - 900 or pos % 16 == k:
            J.load(good[:pos], lambda: f"cut off after {pos} bytes")
            job.count("distinct_nontrivial")
        old = arr[pos]
        if (deep and not long) or (long and pos < 420):
            vals = [v for v in range(256) if v != old]
        else:
            vals = [old ^ (1 << b) for b in range(8)] + [v for v in (0, 255, old ^ 255, (old + 1) & 255, (old - 1) & 255)]
            if long and not deep and 420 < pos < len(good) - 900:
                vals = [old ^ (1 << (pos // 8 % 8))]
            vals = sorted({v for v in vals if v != old})
        for v in vals:
            arr[pos] = v
            J.load(bytes(arr), lambda: f"byte {pos} damaged from {old} to {v}")
            job.count("distinct_nontrivial")
        arr[pos] = old
        if pos % 64 < parts:
            job.progress(f"byte {pos}")
    for kind, n in J.kinds.items():
        job.outcome(f"{name} {kind}")
    job.info["outcomes"] = J.kinds
    job.sample({"file": J.what, "fault": f"byte {len(good) // 2}"})


def crash(job, name, deep):
    """The write is cut off: every prefix of the writes issued by save, at byte granularity, and every set of persisted sectors."""
    limited()
    C = cls_of(name)
    x = jax.tree_util.tree_map(jax.numpy.asarray, noise(name, (3,)))
    p = os.path.join(job.work, "crash.npz")
    log = []
    real = io.open

    class Rec:
        def __init__(self, f):
            self.__dict__["f"] = f

        def __getattr__(self, n):
            return getattr(self.f, n)

        def write(self, b):
            log.append((self.f.tell(), bytes(b)))
            return self.f.write(b)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.f.close()

    def opened(file, mode="r", *a, **k):
        f = real(file, mode, *a, **k)
        return Rec(f) if "b" in mode and any(c in mode for c in "wx+a") and os.path.abspath(str(file)).startswith(job.work) else f
    import builtins
    io.open, builtins.open = opened, opened
    try:
        x.save(p)
    finally:
        io.open, builtins.open = real, real
    with open(p, "rb") as f:
        final = f.read()
    J = Judge(job, C, image(x), os.path.join(job.work, "torn.npz"), f"{name} of batch shape (3,), write cut off")
    # the issued writes reproduce the file: the log is complete
    cur = bytearray()

    def apply(buf, off, data):
        if len(buf) < off:
            buf.extend(b"\0" * (off - len(buf)))
        buf[off:off + len(data)] = data
    states = set()
    complete = bytearray()
    for off, data in log:
        apply(complete, off, data)
    if bytes(complete) == final:
        for i, (off, data) in enumerate(log):
            for n in range(len(data) + 1):
                b = bytearray(cur)
                apply(b, off, data[:n])
                b = bytes(b)
                if b not in states:
                    states.add(b)
                    J.load(b, lambda: f"write {i} of {len(log)} cut off after {n} bytes")
            apply(cur, off, data)
    else:  # written some other way: only the final content is known
        for n in range(len(final)):
            J.load(final[:n], lambda: f"cut off after {n} bytes")
    # sectors persisted in any order
    size = max(128, -(-len(final) // (12 if deep else 10)))
    cuts = list(range(0, len(final), size))
    for keep in itertools.product((0, 1), repeat=len(cuts)):
        b = b"".join(final[c:c + size] if k else b"\0" * len(final[c:c + size]) for c, k in zip(cuts, keep))
        J.load(b, lambda: f"only the sectors {keep} of {size} bytes persisted")
        states.add(b)
    job.count("distinct_nontrivial", len(states))
    job.info["outcomes"] = J.kinds
    job.info["writes"] = len(log)
    job.sample({"file": J.what, "writes": len(log), "bytes": len(final)})
    job.progress("crash")
