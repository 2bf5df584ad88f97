"""C02: the stack is last-in first-out for every history within capacity.

Explicit-state search over the real Stack: every sequence of operations from an
empty stack until no new (storage, counters, model) state appears, i.e. for
histories of any length over the alphabet.  Tokens are handed out cyclically,
so live values are always pairwise distinct; a further action pushes the
class's default value (what empty slots hold).
"""
from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np

from mc.bfs import Op, Search
from mc.classes import make
from mc.seqlib import cls_of, diff, pick

LEVEL = "model_checking"
RULE = ("a state is the stack's complete storage and counters plus the model's item list; "
        "transitions are all enabled operations (single/batched push incl. overflowing ones, "
        "pop, peek, index) with all argument sizes")
ASSUMPTIONS = [
    "pop/peek of n items is only issued with at least n stored (the API gives no under-run answer)",
    "values are opaque to the stack (data independence): tokens cycle over capacity+2 distinct values plus the default value",
]


def jobs(tier):
    # (class, capacity, default value in the alphabet, depth bound or None = until no new state)
    combos = [("Scalar", 1, 1, None), ("Mixed", 2, 1, None), ("Pair", 3, 1, None), ("Vec", 4, 0, None),
              ("Nest2", 3, 0, None), ("Hole", 2, 1, None), ("Scalar", 5, 0, 10), ("Byte", 7, 0, 6)]
    # capacities past the range of narrow index types, with only boundary-sized batches
    big = [("Scalar", 300, (1, 2, 127, 128, 129, 255, 256, 257, 299, 300), 3),
           ("Pair", 70000, (1, 32768, 65535, 65537, 70000), 3)]
    if tier == "thorough":
        combos += [("Mixed", 4, 1, None), ("Scalar", 5, 0, None), ("Pair", 5, 1, 9), ("Scalar", 8, 0, 8),
                   ("Vec", 11, 0, 5), ("Nest2", 6, 0, 9), ("Scalar", 6, 1, 9), ("Mixed", 3, 1, None)]
        big += [("Vec", 257, (1, 2, 128, 256, 257), 5), ("Byte", 65537, (1, 2, 65535, 65536, 65537), 4)]
    out = []
    for cls, n, dflt, depth in combos:
        out.append({"name": f"{cls}-cap{n}" + ("-default" if dflt else "") + (f"-depth{depth}" if depth else ""),
                    "fn": "explore", "cost": n + 3 * dflt,
                    "args": {"cls": cls, "cap": n, "dflt": bool(dflt), "depth": depth}})
    for cls, n, dflt, depth in [("Long", 3, 1, None), ("Mixed", 2, 1, None)] + ([("Long", 4, 1, None)] if tier == "thorough" else []):
        out.append({"name": f"{cls}-cap{n}-x64", "fn": "explore", "cost": 6, "env": {"JAX_ENABLE_X64": "1"},
                    "args": {"cls": cls, "cap": n, "dflt": bool(dflt), "depth": depth}})
    for cls, n, sizes, depth in big:
        out.append({"name": f"{cls}-cap{n}-depth{depth}", "fn": "explore", "cost": 9,
                    "args": {"cls": cls, "cap": n, "dflt": False, "depth": depth, "sizes": list(sizes)}})
    return out


def explore(job, cls, cap, dflt, depth, sizes=None):
    from xtructure import Stack

    C = cls_of(cls)
    M = cap + 2
    label = f"Stack({cls}, max_size={cap})"
    q0 = Stack.build(cap, C)
    sizes = sizes or list(range(1, cap + 1))
    small = cap <= 16
    looked_at = list(range(cap)) if small else sorted({i + d for i in [0] + sizes for d in (-2, -1, 0) if 0 <= i + d < cap})

    def toks(m, k):
        return tuple((m[1] + i) % M for i in range(k))

    # model: (items bottom first, next token)
    def enq_args(k):
        def args(m):
            if len(m[0]) + k > cap:
                return []
            t = toks(m, k)
            out = [(f"{k} tokens from {t[0]}", make(C, np.array(t)), t)]
            if dflt:
                d = (-1,) * k
                out.append(("defaults", make(C, np.array(d)), d))
            return out
        return args

    def enq_step(m, t):
        return (m[0] + t, (m[1] + len(t)) % M if t[0] != -1 else m[1]), None

    def single_args(m):
        return [(lab, jax.tree_util.tree_map(lambda x: x[0], a), t) for lab, a, t in enq_args(1)(m)]

    def no_obs(m, a, m2, e, o):
        return None

    ops = [Op("push(one)", lambda q, a: (q.push(a), ()), single_args, enq_step, no_obs)]
    for k in sizes:
        ops.append(Op(f"push(batch {k})", lambda q, a: (q.push(a), ()), enq_args(k), enq_step, no_obs))

    # An push that does not fit must leave the stored items alone.
    def over_args(k):
        def args(m):
            if len(m[0]) + k <= cap:
                return []
            t = tuple((m[1] + i) % M for i in range(k))
            return [(f"overflow by {k} from {t[0]}", make(C, np.array(t)), t)]
        return args

    def over_check(m, a, m2, e, got):
        if len(m[0]) == 0:
            return None
        part = jax.tree_util.tree_map(lambda x: x[:len(m[0])], got)
        return diff(C, m[0], part, "items stored before an overflowing push")

    for k in sizes + [cap + 1]:
        ops.append(Op(f"push(overflow {k})",
                      lambda q, a: (q.push(a), q.push(a)[jnp.arange(cap)]),
                      over_args(k), lambda m, t: (None, None), over_check))

    def deq(n):
        def args(m):
            return [("", np.zeros((), np.int32), n)] if len(m[0]) >= n else []

        def step(m, n):
            return (m[0][:-n], m[1]), m[0][-n:]

        def check(m, a, m2, e, o):
            return (diff(C, e[0] if n == 1 else e, o[0], f"pop({n})")
                    or diff(C, e[0] if n == 1 else e, o[1], f"peek({n})"))

        def impl(q, a):
            pk = q.peek(n) if n > 1 else q.peek()
            q2, items = q.pop(n) if n > 1 else q.pop()
            return q2, (items, pk)
        return Op(f"pop({n})", impl, args, step, check)

    ops += [deq(n) for n in sorted({1, *sizes})]
    def probe(q):
        return q.size, q[jnp.arange(cap)], [q[i] for i in looked_at]

    def compare(m, o):
        size, items, single = o
        if int(size) != len(m[0]):
            return f"size is {int(size)}, model holds {len(m[0])}"
        if m[0]:
            msg = diff(C, m[0], jax.tree_util.tree_map(lambda x: x[:len(m[0])], items), "indexing with an array")
            if msg:
                return msg
        for j, i in enumerate(looked_at):
            if i >= len(m[0]):
                break
            msg = diff(C, m[0][i], single[j], f"index {i}")
            if msg:
                return msg
        job.outcome(m[0] if small else (len(m[0]), m[0][:1]))
        return None

    s = Search(job, ops, chunk=64 if small else 16, invariant=(probe, compare), label=label,
               max_depth=depth, max_states=None if small else 4000)
    s.run([(q0, ((), 0))])
    job.sample({"harness": label, "longest shortest history": s.trace(len(s.states) - 1)})
    s.replay_direct(pick(range(len(s.states)), (60 if job.thorough else 25) if small else 6), q0, ((), 0))
