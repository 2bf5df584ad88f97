"""C18: a printed instance shows exactly its own records.

Every batch shape up to a bound is printed for classes whose records have a short
recognisable text; the printed tokens, their order, the ellipses and the reported
shape are compared with a model of the documented summary. Every class of the
zoo is printed as a single record and as a batch.
"""
import itertools
import re

import jax
import jax.numpy as jnp
import numpy as np

from mc import zoo
from xtructure import FieldDescriptor as F
from xtructure import xtructure_dataclass

LEVEL = "exploration"
RULE = ("an evaluation is one instance printed and compared, token by token, with the records it must show; non-trivial = a batch of at least two records, or a single "
        "record with inner shapes or nested fields")
ASSUMPTIONS = [
    "the texts of the shown records fit the terminal width side by side (wider ones are wrapped or cropped by the terminal library)",
    "printing is done on concrete instances, not on abstract values inside compiled code",
    "the limits (4 records shown in full, else 2 + 2) are those of the documentation's MAX_PRINT_BATCH_SIZE and SHOW_BATCH_SIZE",
]
ANSI = re.compile(r"\x1b\[[0-9;]*m")


def jobs(tier):
    deep = tier == "thorough"
    out = []
    top = {1: 40, 2: 12, 3: 6, 4: 4, 5: 2} if deep else {1: 14, 2: 8, 3: 4, 4: 2, 5: 1}
    for axes, n in top.items():
        shapes = [list(s) for s in itertools.product(range(n + 1), repeat=axes)]
        parts = max(1, len(shapes) // 45)
        for p in range(parts):
            out.append({"name": f"shapes-{axes}-{p}", "fn": "shapes", "cost": 12, "args": {"shapes": shapes[p::parts]}, "env": {"COLUMNS": ["80", "132", "100"][p % 3]}})
    names = list(zoo.ALL)
    for i in range(0, len(names), 9):
        out.append({"name": f"zoo-{i}", "fn": "classes", "cost": 12, "args": {"names": names[i:i + 9], "deep": deep}, "env": {"COLUMNS": "400"}})
    out.append({"name": "kinds", "fn": "kinds", "cost": 8, "args": {}, "env": {"COLUMNS": "200"}})
    return out


@xtructure_dataclass
class Short:
    a: F.scalar(dtype=jnp.uint32)
    b: F.tensor(dtype=jnp.int16, shape=(2,))

    def __str__(self, mark="", **kw):
        return f"<{int(self.a)}{mark}>"


@xtructure_dataclass
class Two:
    hi: F.scalar(dtype=jnp.uint32)
    lo: F.scalar(dtype=jnp.uint32)


@xtructure_dataclass
class Holder:
    s: F.tensor(dtype=Short, shape=(2,))
    k: F.scalar(dtype=jnp.uint8)

    def __str__(self, **kw):
        return f"{{{int(self.k)}:{'+'.join(str(int(v)) for v in self.s.a)}}}"


def shown(n, limit=4, keep=2):
    """Positions of an axis (or of a flat batch) that are shown; None is the ellipsis."""
    return list(range(n)) if n <= limit else list(range(keep)) + [None] + list(range(n - keep, n))


def grid(shape):
    """Rows of flat positions that the summary shows."""
    if len(shape) == 2:
        r, c = shown(shape[0]), shown(shape[1])
        rows = [[None if i is None or j is None else i * shape[1] + j for j in c] for i in r]
        return [row for row in rows if row]
    row = shown(int(np.prod(shape)))
    return [row] if row else []


def plain(text):
    return ANSI.sub("", text)


def rows_of(text):
    return [r for r in ([t for t in line.split() if t != "│"] for line in plain(text).splitlines() if line.startswith("│")) if r]


def says_shape(text, shape):
    return f"shape: {tuple(shape)}" in plain(text)


def make(shape, base=0):
    n = int(np.prod(shape))
    i = np.arange(n, dtype=np.uint32) + base
    return Short(a=jnp.asarray(i.reshape(shape)), b=jnp.asarray(np.stack([i, i + 1], -1).astype(np.int16).reshape(tuple(shape) + (2,))))


def shapes(job, shapes):
    for s in map(tuple, shapes):
        x = make(s)
        before = [np.asarray(v).tobytes() for v in jax.tree_util.tree_leaves(x)]
        try:
            text, tagged = str(x), x.str(mark="!")
        except Exception as e:
            job.violation(f"printing a batch of shape {s} raised {type(e).__name__}: {str(e)[:200]}")
            continue
        for what, t, m in (("str", text, ""), ("str with an argument", tagged, "!")):
            want = [["..." if i is None else f"<{i}{m}>" for i in r] for r in grid(s)]
            job.expect(rows_of(t) == want, lambda: f"a batch of shape {s} printed by {what} shows {rows_of(t)}, its records are {want}")
            job.expect(says_shape(t, s) and "Short" in plain(t), lambda: f"a batch of shape {s} printed by {what} does not state its shape: {plain(t)!r}")
            job.count("evaluations")
            job.count("distinct_nontrivial", int(np.prod(s)) > 1)
        job.expect([np.asarray(v).tobytes() for v in jax.tree_util.tree_leaves(x)] == before and x.shape.batch == s, f"printing a batch of shape {s} changes it")
        job.outcome("empty" if 0 in s else "summarised" if any(None in r for r in grid(s)) else "full")
    job.progress(f"{s}")
    job.sample({"shapes": shapes[:3] + shapes[-1:]})


def squash(t):
    return re.sub(r"\s", "", plain(t))


def leaves(x):
    for n in x.__dataclass_fields__:
        v = getattr(x, n)
        if hasattr(v, "__dataclass_fields__"):
            yield n, None
            yield from leaves(v) if v.shape.batch == () else ()
        else:
            yield n, v


def classes(job, names, deep):
    """Every class with the built-in text: each field of a single record with its value, and batches of every kind."""
    for name in names:
        C = zoo.ALL[name]
        live, size = zoo.live_bits(C)
        pats = [zoo.pattern(C, q) for q in zoo.bases(C)]
        Z = zoo.from_bits(C, np.array(pats).reshape(len(pats), size))
        for i in range(len(pats)):
            x = zoo.jn(jax.tree_util.tree_map(lambda v: v[i], Z))
            try:
                t = str(x)
            except Exception as e:
                job.violation(f"printing one {name} raised {type(e).__name__}: {str(e)[:200]}")
                continue
            for f, v in leaves(x):
                want = f"{f}:" + ("" if v is None else squash(str(v)))
                job.expect(want in squash(t), lambda: f"one {name} printed does not show {want}: {plain(t)!r}")
            job.expect(name in t, f"one {name} printed does not name its class")
            job.count("evaluations")
            job.count("distinct_nontrivial", len(list(leaves(x))) > 1)
        for s in [(0,), (1,), (3,), (5,), (2, 2), (1, 0), (2, 1, 2)]:
            x = C.default(s)
            try:
                t = str(x)
            except Exception as e:
                job.violation(f"printing a {name} batch of shape {s} raised {type(e).__name__}: {str(e)[:200]}")
                continue
            k = sum(i is not None for r in grid(s) for i in r)
            # every shown record starts with the class name; the panel title adds one
            job.expect(says_shape(t, s), lambda: f"a {name} batch of shape {s} does not state its shape: {plain(t)!r}")
            job.expect(plain(t).count(f"{name}(") == k, lambda: f"a {name} batch of shape {s} shows {plain(t).count(name + '(')} records, {k} expected")
            job.count("evaluations")
            job.count("distinct_nontrivial")
        job.progress(name)
    job.sample({"classes": names})


def kinds(job):
    """Built-in text in batches value by value, nested batches, packed instances, unstructured instances."""
    for s in [(1,), (2,), (4,), (5,), (9,), (2, 2), (4, 4), (5, 1), (1, 5), (6, 6), (2, 2, 2), (1, 2, 1)]:
        n = int(np.prod(s))
        x = Two(hi=jnp.arange(10000, 10000 + n, dtype=jnp.uint32).reshape(s), lo=jnp.arange(70000, 70000 + n, dtype=jnp.uint32).reshape(s))
        t = plain(str(x))
        flat = [[i for i in r if i is not None] for r in grid(s)]
        flat = [r for r in flat if r]
        got = [int(v) for v in re.findall(r"\d{5}", t)]
        want = [v for r in flat for v in [10000 + i for i in r] + [70000 + i for i in r]]
        job.expect(got == want, f"a batch of shape {s} with the built-in text shows {got}, expected {want}")
        h = Holder(s=make(s + (2,)), k=jnp.full(s, 7, jnp.uint8))
        want = [["..." if i is None else f"{{7:{2 * i}+{2 * i + 1}}}" for i in r] for r in grid(s)]
        t = str(h)
        job.expect(rows_of(t) == want and says_shape(t, s), lambda: f"a batch of shape {s} of records with nested records shows {rows_of(t)}, expected {want}")
        job.count("evaluations", 2)
        job.count("distinct_nontrivial", 2 * (n > 1))
        # the same after going through views, compiled code and pickling-free rebuilding
        for how, y in (("a slice of a larger batch", make((n + 3,))[3:].reshape(s)), ("a compiled result", jax.jit(lambda v: v)(make(s, 3))),
                       ("a rebuilt tree", jax.tree_util.tree_map(lambda v: v, make(s, 3))), ("a numpy-backed batch", jax.tree_util.tree_map(np.asarray, make(s, 3)))):
            str(make(s))
            t = str(y)
            want = [["..." if i is None else f"<{i + 3}>" for i in r] for r in grid(s)]
            job.expect(rows_of(t) == want and says_shape(t, s), lambda: f"{how} of shape {s} shows {rows_of(t)}, expected {want}")
            job.count("evaluations")
            job.count("distinct_nontrivial", n > 1)
        job.progress(str(s))
    # a batch is re-read on every print
    x = make((6,))
    for i in range(6):
        x = x.at[i].set(make((), 50 + i))
        t = rows_of(str(x))
        cur = [50 + j if j <= i else j for j in range(6)]
        job.expect(t == [[f"<{cur[0]}>", f"<{cur[1]}>", "...", f"<{cur[4]}>", f"<{cur[5]}>"]], f"after {i + 1} updates a batch of 6 shows {t}")
        job.count("evaluations")
    # fields of unrelated shapes
    for a, b in itertools.product([(), (1,), (2,), (2, 3), (0,)], repeat=2):
        x = Short(a=jnp.zeros(a, jnp.uint32), b=jnp.zeros(b + (2,), jnp.int16))
        try:
            t = plain(str(x))
        except Exception as e:
            job.violation(f"printing fields of batch shapes {a} and {b} raised {type(e).__name__}: {str(e)[:200]}")
            continue
        job.expect(("Unstructured" in t) == (a != b), lambda: f"fields of batch shapes {a} and {b} print as {t!r}")
        job.count("evaluations")
    x = Short(a=jnp.zeros((), jnp.uint32), b=jnp.zeros((3,), jnp.int16))
    job.expect("Unstructured" in str(x), lambda: f"a field of the wrong inner shape prints as {str(x)!r}")
    job.sample({"nested": "{7:0+1}"})
