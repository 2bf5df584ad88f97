"""C16: earlier versions stay intact; compilation, mapping and looping never change results.

For each kind of container (and for structured instances) every operation
sequence up to a depth is executed on the real code as a tree of versions,
branching from every intermediate version.  Afterwards every version ever made
is still there bit for bit, and applying the operations again to any of them, in
the opposite order, gives the results they gave the first time.  The same
sequences are then executed as one compiled program, as compiled loops (scan,
fori, while), vectorised over all sequences at once, and with compilation
switched off; every step's outputs and observable state agree with the tree.
"""
import functools
import itertools
import pickle

import jax
import jax.numpy as jnp
import numpy as np

from mc.classes import BY_NAME, make

LEVEL = "exploration"
RULE = ("an evaluation is one version (state after one operation sequence) whose outputs and observable state are compared between two ways of executing "
        "the sequence, or whose stored content is compared before and after everything else happened; non-trivial = the sequence is not empty")
ASSUMPTIONS = [
    "the step-by-step execution itself is judged by the other properties; here ways of executing are compared with each other",
    "operations stay within what each container specifies (unspecified results of under-runs are masked out)",
]

KINDS = ["queue", "stack", "bgpq", "bgpq1", "table", "table-dup", "instance", "packed"]
DEPTH = {"queue": 5, "stack": 5, "bgpq": 4, "bgpq1": 5, "table": 4, "table-dup": 4, "instance": 3, "packed": 3}


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for k in KINDS:
        d = DEPTH[k] + (1 if deep else 0)
        out.append({"name": f"versions-{k}", "fn": "versions", "cost": 30, "args": {"kind": k, "depth": d - 1}})
        out.append({"name": f"mapped-{k}", "fn": "mapped", "cost": 25, "args": {"kind": k, "depth": d}})
        out.append({"name": f"loops-{k}", "fn": "loops", "cost": 25, "args": {"kind": k, "depth": d - 1}})
        out.append({"name": f"straight-{k}", "fn": "straight", "cost": 30, "args": {"kind": k, "depth": 2}})
        out.append({"name": f"uncompiled-{k}", "fn": "uncompiled", "cost": 20, "args": {"kind": k, "depth": 3 if deep and k != "table" else 2}})
    for g in ("tables", "queues", "stacks", "heaps"):
        out.append({"name": f"static-{g}", "fn": "static", "cost": 50 if g == "tables" else 20, "args": {"which": g, "deep": deep}})
    return out


tm = jax.tree_util.tree_map
NONE = np.zeros((), np.int32)


def rec(cls, toks):
    return tm(jnp.asarray, make(cls, np.asarray(toks)))


def masked(x, keep):
    """Leaves of a batch of records with unspecified records zeroed."""
    def f(l):
        k = keep.reshape(keep.shape + (1,) * (l.ndim - keep.ndim))
        return jnp.where(k, l, jnp.zeros_like(l))
    return tm(f, x)


class System:
    """initial(): first version; ops: (label, fn(state, args) -> (state, outputs)); args: one pytree per step; observe(state)."""

    def __init__(self, kind, depth):
        self.depth = depth
        getattr(self, "make_" + kind.replace("-", "_"))(depth)
        self.n = len(self.ops)
        self.zero = jax.eval_shape(lambda: [f(self.initial, self.arg(0))[1] for _, f in self.ops])

    def arg(self, s):
        return tm(lambda l: l[s], self.args)

    def apply(self, i, state, args):
        """Operation i with outputs of all operations side by side (zero for the others), so that all have one shape."""
        st, out = self.ops[i][1](state, args)
        outs = [tm(lambda l: jnp.zeros(l.shape, l.dtype), z) for z in self.zero]
        outs[i] = out
        return st, outs

    def step(self, state, x):
        s, op = x
        st, outs = jax.lax.switch(op, [functools.partial(self.apply, i) for i in range(self.n)], state, self.arg(s))
        return st, (outs, self.observe(st))

    # ---- the systems
    def make_queue(self, depth):
        from xtructure import Queue
        C = BY_NAME["Mixed"]
        cap = 4
        self.initial = Queue.build(cap, C)
        self.args = {"one": rec(C, np.arange(depth)), "two": rec(C, np.arange(2 * depth).reshape(depth, 2) + 20)}

        def deq(k):
            def f(q, a):
                r, x = q.dequeue(k) if k > 1 else q.dequeue()
                return r, masked(x, jnp.arange(k) < q.size if k > 1 else jnp.asarray(q.size > 0))
            return f
        self.ops = [("enqueue one", lambda q, a: (q.enqueue(a["one"]), NONE)), ("enqueue two", lambda q, a: (q.enqueue(a["two"]), NONE)),
                    ("dequeue", deq(1)), ("dequeue 2", deq(2)), ("clear", lambda q, a: (q.clear(), NONE))]

        def observe(q):
            return q.size, masked(q.peek(cap), jnp.arange(cap) < q.size), masked(q[0], jnp.asarray(q.size > 0))
        self.observe = observe
        self.config = lambda q: (q.max_size,)

    def make_stack(self, depth):
        from xtructure import Stack
        C = BY_NAME["Nest2"]
        cap = 4
        self.initial = Stack.build(cap, C)
        self.args = {"one": rec(C, np.arange(depth)), "two": rec(C, np.arange(2 * depth).reshape(depth, 2) + 20)}

        def pop(k):
            def f(q, a):
                r, x = q.pop(k) if k > 1 else q.pop()
                # a short pop is unspecified as a whole
                return r, masked(x, jnp.broadcast_to(q.size >= k, (k,)) if k > 1 else jnp.asarray(q.size > 0))
            return f
        self.ops = [("push one", lambda q, a: (q.push(a["one"]), NONE)), ("push two", lambda q, a: (q.push(a["two"]), NONE)), ("pop", pop(1)), ("pop 2", pop(2))]

        def observe(q):
            return q.size, [masked(q[i], jnp.asarray(q.size > i)) for i in range(cap)], masked(q.peek(), jnp.asarray(q.size > 0))
        self.observe = observe
        self.config = lambda q: (q.max_size,)

    def make_bgpq(self, depth, total=6, batch=2, cls="Pair"):
        from xtructure import BGPQ
        C = BY_NAME[cls]
        self.initial = BGPQ.build(total, batch, C, jnp.float32)
        n = depth * batch
        base = np.arange(n).reshape(depth, batch)
        keys = {"low": (base + 1).astype(np.float32), "high": (500 - base).astype(np.float32), "part": np.where(np.arange(batch) < max(1, batch - 1), base + 200.5, np.inf).astype(np.float32)}
        self.args = {k: (jnp.asarray(v), rec(C, base + 40 * i)) for i, (k, v) in enumerate(keys.items())}

        def delete(q, a):
            q, k, v = q.delete_mins()
            return q, (k, masked(v, jnp.isfinite(k)))
        self.ops = [(f"insert {k}", lambda q, a, k=k: (q.insert(*a[k]), NONE)) for k in keys] + [("delete_mins", delete)]
        rounds = -(-total // batch) + 1

        def observe(q):
            res = [q.size]
            for _ in range(rounds):
                q, k, v = q.delete_mins()
                res.append((k, masked(v, jnp.isfinite(k))))
            return res
        self.observe = observe
        self.config = lambda q: (q.max_size, q.branch_size, q.batch_size)

    def make_bgpq1(self, depth):
        self.make_bgpq(depth, 3, 1, "Vec")

    def make_table(self, depth, dup=False):
        from xtructure import HashTable
        C = BY_NAME["Pair"] if not dup else BY_NAME["Mixed"]
        keys = rec(C, np.array([0, 1, 2, 3, -1]))
        self.initial = HashTable.build(C, 5, 4, 2, 1)
        at = lambda ids: tm(lambda l: l[jnp.asarray(ids)], keys)
        # the arguments change from step to step
        ids = np.array([[(s + i) % 5 for i in range(4)] for s in range(depth)])
        self.args = {"ids": jnp.asarray(ids), "cost": jnp.asarray(np.array([[(3 * s + i) % 4 for i in range(4)] for s in range(depth)], np.float32))}
        mask = jnp.array([True, True, False, True])

        def insert(i):
            def f(t, a):
                t, ok, ix = t.insert(at(i) if isinstance(i, int) else tm(lambda l: l[a["ids"][0]], keys))
                return t, (ok, ix)
            return f

        def batch(t, a, sel):
            before = t
            t, ins, uniq, ix = t.parallel_insert(tm(lambda l: l[sel], keys), mask, a["cost"])
            return t, (ins, uniq, jnp.where(ins, ix.index, 0))
        self.ops = [("insert k0", insert(0)), ("insert default", insert(4)), ("insert", insert("step")),
                    ("parallel_insert", lambda t, a: batch(t, a, a["ids"])),
                    ("parallel_insert duplicates", lambda t, a: batch(t, a, jnp.stack([a["ids"][1], a["ids"][1], a["ids"][0], a["ids"][2]])))]
        if dup:
            self.ops = self.ops[2:]

        def observe(t):
            ix, found = t.lookup_parallel(keys)
            one, f1 = t.lookup(at(3))
            pos = jnp.where(found, ix.index, 0)
            return t.size, found, pos, f1, jnp.where(f1, one.index, 0), masked(t[type(ix)(pos)], found)
        self.observe = observe
        self.config = lambda t: (t.seed, t.capacity, t.bucket_size, t.max_probes)

    def make_table_dup(self, depth):
        self.make_table(depth, True)

    def make_instance(self, depth):
        from xtructure import numpy as X
        C = BY_NAME["Mixed"]
        self.initial = rec(C, np.arange(4))
        self.args = {"one": rec(C, np.arange(depth) + 10), "four": rec(C, np.arange(4 * depth).reshape(depth, 4) + 30),
                     "cond": jnp.asarray([[(s >> 0) % 2 == i % 2 for i in range(4)] for s in range(depth)]), "i": jnp.asarray(np.arange(depth) * 3 % 4),
                     "idx": jnp.asarray([[s % 4, 2, 2, (s + 1) % 4] for s in range(depth)])}
        self.ops = [
            ("at[i].set", lambda x, a: (x.at[a["i"]].set(a["one"]), NONE)), ("at[1:3].set(0)", lambda x, a: (x.at[1:3].set(0), NONE)),
            ("roll", lambda x, a: (X.roll(x, 1, axis=0), NONE)), ("flip", lambda x, a: (X.flip(x, axis=0), NONE)),
            ("take", lambda x, a: (X.take(x, a["idx"], axis=0), NONE)), ("where", lambda x, a: (X.where(a["cond"], x, a["four"]), NONE)),
            ("update_on_condition", lambda x, a: (X.update_on_condition(x, a["idx"], a["cond"], a["four"]), NONE)),
            ("at.set_as_condition", lambda x, a: (x.at[a["idx"]].set_as_condition(a["cond"], a["one"]), NONE)),
            ("concat", lambda x, a: (X.concat([x[2:], x[:2]]), x[a["i"]])),
            ("reshape transpose", lambda x, a: (x.reshape((2, 2)).transpose().flatten(), NONE)),
            ("replace", lambda x, a: (x.replace(t=a["four"].t), X.equal(x, a["four"]))),
        ]
        # (X.equal is a per-field comparison)
        self.observe = lambda x: (x, x[0], x[::-1])
        self.config = lambda x: (x.shape, x.structured_type.name, x.dtype)

    def make_packed(self, depth):
        from mc import zoo
        C = zoo.ALL["ZAgN"]
        live, _ = zoo.live_bits(C)
        pat = lambda sel: zoo.pattern(C, sel)
        raws = np.array([pat([b for j, b in enumerate(live) if (j * (r + 3) + r) % (r + 2) == 0]) for r in range(3 + 3 * depth)])
        at = lambda ids: zoo.jn(zoo.from_bits(C, raws[np.asarray(ids).reshape(-1)].reshape(np.shape(ids) + raws.shape[1:]).reshape(-1, raws.shape[1])))
        resh = lambda x, s: tm(lambda l: l.reshape(s + l.shape[1:]), x)
        self.initial = at([0, 1, 2])
        self.args = {"x": resh(at(np.arange(3 * depth) + 3), (depth, 3))}
        self.ops = [("pack", lambda x, a: (x.packed.as_original(), x.packed)), ("swap", lambda x, a: (a["x"].packed.as_original(), NONE)),
                    ("set", lambda x, a: (x.at[1].set(a["x"][0]), NONE)), ("row", lambda x, a: (x.at[0].set(x.packed[2].as_original()), x[1].packed))]
        self.observe = lambda x: (x, x.packed)
        self.config = lambda x: (x.shape, x.structured_type.name)


def host(x):
    return [np.array(l) for l in jax.tree_util.tree_leaves(x)]


def same(a, b):
    return len(a) == len(b) and all(x.dtype == y.dtype and x.shape == y.shape and x.tobytes() == y.tobytes() for x, y in zip(a, b))


def show(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        if x.dtype != y.dtype or x.shape != y.shape or x.tobytes() != y.tobytes():
            return f"array {k} is {x.dtype}{x.tolist()} and was {y.dtype}{y.tolist()}"[:500]
    return f"{len(a)} arrays instead of {len(b)}"


def names(S, seq):
    return ", ".join(S.ops[i][0] for i in seq) or "nothing"


def versions(job, kind, depth):
    """The tree of versions, built step by step; then everything is looked at and done again."""
    S = System(kind, depth)
    observe = jax.jit(S.observe)
    keep, snap, seen = {(): S.initial}, {(): host(S.initial)}, {(): host(observe(S.initial))}
    outs = {}
    args = [S.arg(s) for s in range(depth)]
    asnap = [host(a) for a in args]
    td, cfg = jax.tree_util.tree_structure(S.initial), S.config(S.initial)
    order = [()] + [p for k in range(1, depth + 1) for p in itertools.product(range(S.n), repeat=k)]

    def do(seq, first):
        parent = keep[seq[:-1]]
        try:
            st, out = S.ops[seq[-1]][1](parent, args[len(seq) - 1])
            got = host(out)
        except Exception as e:
            job.violation(f"{kind}: {names(S, seq)}: {type(e).__name__}: {str(e)[:200]}")
            return None
        job.count("evaluations")
        if first:
            keep[seq], snap[seq], outs[seq] = st, host(st), got
            seen[seq] = host(observe(st))
            if jax.tree_util.tree_structure(st) != td:
                job.violation(f"{kind} after {names(S, seq)}: its tree structure (static configuration included) changed from {td} to {jax.tree_util.tree_structure(st)}")
            if [(x.dtype, x.shape) for x in snap[seq]] != [(x.dtype, x.shape) for x in snap[()]]:
                job.violation(f"{kind} after {names(S, seq)}: array types changed")
            if S.config(st) != cfg:
                job.violation(f"{kind} after {names(S, seq)}: configuration {S.config(st)} instead of {cfg}")
        else:
            now = host(observe(st))
            if not same(got, outs[seq]) or not same(now, seen[seq]):
                job.violation(f"{kind}: {names(S, seq)}: doing the last operation again on the retained version gives different results: {show(got, outs[seq]) if not same(got, outs[seq]) else show(now, seen[seq])}")
        return st

    for seq in order[1:]:
        if do(seq, True) is None:
            return
    job.progress(f"{len(order)} versions")

    def intact(when):
        for seq in order:
            try:
                now = host(keep[seq])
            except Exception as e:
                return job.violation(f"{kind}: the version after {names(S, seq)} is no longer usable {when}: {type(e).__name__}: {str(e)[:200]}")
            job.count("evaluations")
            job.count("distinct_nontrivial", len(seq) > 0)
            if not same(now, snap[seq]):
                return job.violation(f"{kind}: the version after {names(S, seq)} changed {when}: {show(now, snap[seq])}", {"kind": kind, "seq": [S.ops[i][0] for i in seq]})
            if S.config(keep[seq]) != cfg:
                return job.violation(f"{kind}: the version after {names(S, seq)} changed its configuration {when}")
        for s, a in enumerate(args):
            if not same(host(a), asnap[s]):
                return job.violation(f"{kind}: an operand was changed {when}")

    intact("after the other sequences")
    for seq in reversed(order[1:]):
        if do(seq, False) is None:
            return
    intact("after every operation was repeated in reverse order")
    job.progress("repeated")
    # rebuilt versions: flattened and put together again, through compiled code, through numpy, pickled
    jit_id = jax.jit(lambda x: x)
    rebuild = {
        "flattening": lambda x: jax.tree_util.tree_unflatten(td, jax.tree_util.tree_leaves(x)),
        "flattening with paths": lambda x: jax.tree_util.tree_unflatten(jax.tree_util.tree_flatten_with_path(x)[1], [l for _, l in jax.tree_util.tree_flatten_with_path(x)[0]]),
        "a compiled identity": jit_id,
        "numpy": lambda x: tm(lambda l: jnp.asarray(np.asarray(l)), x),
        "pickling": lambda x: pickle.loads(pickle.dumps(x)),
        "stacking and mapping": lambda x: tm(lambda l: l[1], jax.vmap(lambda y: y)(tm(lambda l: jnp.stack([l, l]), x))),
    }
    sub = [s for s in order if len(s) < depth]
    sub = sub[:: max(1, len(sub) // 60)]
    for how, f in rebuild.items():
        for seq in sub:
            try:
                y = f(keep[seq])
                if jax.tree_util.tree_structure(y) != td or S.config(y) != cfg or not same(host(y), snap[seq]) or type(y) is not type(S.initial):
                    return job.violation(f"{kind} after {names(S, seq)} does not survive {how}: configuration {S.config(y)}, {show(host(y), snap[seq])}")
                i = (len(seq) + sum(seq)) % S.n
                st, out = S.ops[i][1](y, args[len(seq)])
                now = host(observe(st))
            except Exception as e:
                return job.violation(f"{kind} after {names(S, seq)} is unusable after {how}: {type(e).__name__}: {str(e)[:300]}")
            if not same(host(out), outs[seq + (i,)]) or not same(now, seen[seq + (i,)]):
                job.violation(f"{kind} after {names(S, seq)}, {how}, {S.ops[i][0]}: results differ from the original's")
            job.count("evaluations")
            job.count("distinct_nontrivial")
    intact("after the versions were rebuilt")
    job.info["versions"] = len(order)
    job.sample({"kind": kind, "sequence": names(S, order[-2])})


def reference(S, depth):
    """Outputs and observable state after every sequence, step by step (the shared prefixes are executed once)."""
    observe = jax.jit(S.observe)
    args = [S.arg(s) for s in range(depth)]
    state, ref = {(): S.initial}, {}
    for k in range(1, depth + 1):
        nxt = {}
        for seq in itertools.product(range(S.n), repeat=k):
            st, out = S.ops[seq[-1]][1](state[seq[:-1]], args[k - 1])
            nxt[seq] = st
            ref[seq] = (host(out), host(observe(st)))
        state = nxt
    return ref


def agree(job, S, kind, how, seq, outs, obs, ref, zero=True):
    """outs: leaves per operation (list), obs: leaves; of the step that completes `seq`."""
    want_out, want_obs = ref[seq]
    got = outs[seq[-1]] if zero else outs
    job.count("evaluations")
    job.count("distinct_nontrivial")
    if not same(got, want_out):
        job.violation(f"{kind}: {names(S, seq)}: output {how} differs from step by step: {show(got, want_out)}", {"kind": kind, "how": how, "seq": [S.ops[i][0] for i in seq]})
    if not same(obs, want_obs):
        job.violation(f"{kind}: {names(S, seq)}: state {how} differs from step by step: {show(obs, want_obs)}", {"kind": kind, "how": how, "seq": [S.ops[i][0] for i in seq]})


def mapped(job, kind, depth):
    """All sequences at once: a scan over the operations, vectorised over the sequences."""
    S = System(kind, depth)
    if S.n ** depth > 20000:
        depth -= 1
    ref = reference(S, depth)
    job.progress("reference")
    seqs = np.array(list(itertools.product(range(S.n), repeat=depth)), np.int32)

    def run(ops):
        return jax.lax.scan(S.step, S.initial, (jnp.arange(depth), ops))[1]
    f = jax.jit(jax.vmap(run))
    chunk = min(512, len(seqs))
    done = set()
    for c in range(0, len(seqs), chunk):
        part = seqs[c:c + chunk]
        full = np.concatenate([part, np.repeat(part[:1], chunk - len(part), 0)])
        outs, obs = f(jnp.asarray(full))
        outs, obs = [host(o) for o in outs], host(obs)
        for i, seq in enumerate(map(tuple, part.tolist())):
            for k in range(depth):
                p = seq[:k + 1]
                if p in done:
                    continue
                done.add(p)
                agree(job, S, kind, "in vectorised loops", p, [[l[i, k] for l in o] for o in outs], [l[i, k] for l in obs], ref)
        job.progress(f"{c}")
    job.sample({"kind": kind, "sequence": names(S, tuple(seqs[len(seqs) // 2].tolist()))})


def loops(job, kind, depth):
    """Every sequence in compiled scan, fori and while loops, one at a time."""
    S = System(kind, depth)
    while S.n ** depth > 1400:
        depth -= 1
    ref = reference(S, depth)
    job.progress("reference")
    shape = jax.eval_shape(lambda: S.step(S.initial, (0, jnp.int32(0)))[1])
    blank = tm(lambda z: jnp.zeros((depth,) + z.shape, z.dtype), shape)

    def put(acc, k, y):
        return tm(lambda a, v: a.at[k].set(v), acc, y)

    def scan(x, ops):
        return jax.lax.scan(S.step, x, (jnp.arange(depth), ops))

    def fori(x, ops):
        def body(k, c):
            st, y = S.step(c[0], (k, ops[k]))
            return st, put(c[1], k, y)
        return jax.lax.fori_loop(0, depth, body, (x, blank))

    def while_(x, ops):
        def body(c):
            st, y = S.step(c[1], (c[0], ops[c[0]]))
            return c[0] + 1, st, put(c[2], c[0], y)
        return jax.lax.while_loop(lambda c: c[0] < depth, body, (0, x, blank))[1:]

    # a version as operand of the compiled function, and one closed over
    modes = {"in a compiled scan": jax.jit(scan), "in a compiled fori loop": jax.jit(fori), "in a compiled while loop": jax.jit(while_)}
    closed = jax.jit(lambda ops: scan(S.initial, ops))
    modes["in a compiled scan over a closed-over container"] = lambda x, ops: closed(ops)
    cfg, td = S.config(S.initial), jax.tree_util.tree_structure(S.initial)
    done = set()
    for n, seq in enumerate(itertools.product(range(S.n), repeat=depth)):
        for m, (how, f) in enumerate(modes.items()):
            if m and (n + m) % 3 and S.n ** depth > 300:
                continue
            st, (outs, obs) = f(S.initial, jnp.asarray(seq, jnp.int32))
            if S.config(st) != cfg or jax.tree_util.tree_structure(st) != td:
                job.violation(f"{kind}: {names(S, seq)} {how}: configuration {S.config(st)} instead of {cfg}")
            outs, obs = [host(o) for o in outs], host(obs)
            for k in range(depth):
                if (how, seq[:k + 1]) in done:
                    continue
                done.add((how, seq[:k + 1]))
                agree(job, S, kind, how, seq[:k + 1], [[l[k] for l in o] for o in outs], [l[k] for l in obs], ref)
        if n % 50 == 0:
            job.progress(f"{n}")
    job.sample({"kind": kind, "modes": list(modes)})


def straight(job, kind, depth):
    """All short sequences written out in one compiled program, from a shared first version, and through conditionals."""
    S = System(kind, depth)
    ref = reference(S, depth)
    seqs = [p for k in range(1, depth + 1) for p in itertools.product(range(S.n), repeat=k)]

    def program(x, args):
        memo, res = {(): x}, []
        for p in seqs:
            st, out = S.ops[p[-1]][1](memo[p[:-1]], tm(lambda l: l[len(p) - 1], args))
            memo[p] = st
            res.append((out, S.observe(st)))
        return res, [memo[p] for p in seqs]
    got, sts = jax.jit(program).lower(S.initial, S.args).compile({"xla_backend_optimization_level": "0"})(S.initial, S.args)
    cfg, td = S.config(S.initial), jax.tree_util.tree_structure(S.initial)
    for p, (out, obs), st in zip(seqs, got, sts):
        agree(job, S, kind, "in one compiled program", p, host(out), host(obs), ref, zero=False)
        if S.config(st) != cfg or jax.tree_util.tree_structure(st) != td:
            job.violation(f"{kind}: {names(S, p)} in one compiled program: configuration {S.config(st)} instead of {cfg}")
    job.progress("program")

    # each operation under a conditional, taken and not taken, and as its own compiled function
    @functools.partial(jax.jit, static_argnums=2)
    def maybe(x, a, i, go):
        return jax.lax.cond(go, lambda y: S.ops[i][1](y, a)[0], lambda y: y, x)
    before = host(jax.jit(S.observe)(S.initial))
    for i in range(S.n):
        for go in (True, False):
            st = maybe(S.initial, S.arg(0), i, go)
            obs = host(jax.jit(S.observe)(st))
            want = ref[(i,)][1] if go else before
            job.count("evaluations")
            job.expect(same(obs, want), f"{kind}: {S.ops[i][0]} under a conditional that is {'taken' if go else 'not taken'}: {show(obs, want)}")
        st, out = jax.jit(S.ops[i][1])(S.initial, S.arg(0))
        agree(job, S, kind, "as its own compiled function", (i,), host(out), host(jax.jit(S.observe)(st)), ref, zero=False)
    # two different containers side by side in one mapped call
    two = jax.vmap(lambda x, a: S.ops[0][1](x, a), in_axes=(0, None))
    a, b = S.ops[0][1](S.initial, S.arg(0))[0], S.ops[1][1](S.initial, S.arg(0))[0]
    st, _ = two(tm(lambda *l: jnp.stack(l), a, b), S.arg(1))
    for j, p in enumerate(((0, 0), (1, 0))):
        obs = host(jax.jit(S.observe)(tm(lambda l: l[j], st)))
        job.count("evaluations")
        job.expect(same(obs, ref[p][1]), f"{kind}: {names(S, p)}, the last mapped over two containers: {show(obs, ref[p][1])}")
    job.sample({"kind": kind, "programs": len(seqs)})


def uncompiled(job, kind, depth):
    """Short sequences with compilation switched off altogether."""
    S = System(kind, depth)
    ref = reference(S, depth)
    observe = jax.jit(S.observe)
    st = {(): S.initial}
    outs = {}
    import time
    t0 = time.time()
    with jax.disable_jit():
        for k in range(1, depth + 1):
            for p in itertools.product(range(S.n), repeat=k):
                if k > 1 and time.time() - t0 > (420 if job.thorough else 60):
                    job.exhaustive = False
                    continue
                st[p], outs[p] = S.ops[p[-1]][1](st[p[:-1]], S.arg(k - 1)) if p[:-1] in st else (None, None)
                if st[p] is None:
                    del st[p]
                    continue
                job.progress(names(S, p))
    for p in outs:
        if p in st:
            agree(job, S, kind, "with compilation switched off", p, host(outs[p]), host(observe(st[p])), ref, zero=False)
    job.sample({"kind": kind, "sequences": len(st)})


def static(job, which, deep):
    """Containers that differ in configuration only, through one compiled function, in every order."""
    from xtructure import BGPQ, HashTable, Queue, Stack

    P, V = BY_NAME["Pair"], BY_NAME["Vec"]
    keys = rec(P, np.arange(6))
    tables = [HashTable.build(P, seed, cap, b, mult, probes) for seed, cap, b, mult, probes in
              [(1, 4, 2, 2, None), (2, 4, 2, 2, None), (1, 8, 2, 1, None), (1, 4, 2, 2, 1), (1, 4, 2, 2, 2), (3, 6, 2, 1, 3), (1, 2, 4, 2, None)]]

    def fill(t):
        t, ins, _, ix = t.parallel_insert(keys)
        _, found = t.lookup_parallel(keys)
        return t, (ins, found, jnp.where(found, t.lookup_parallel(keys)[0].index, 0), t.size)
    queues = [Queue.build(n, V) for n in (1, 2, 3)] + [Queue.build(2, P)]
    stacks = [Stack.build(n, V) for n in (1, 2, 3)] + [Stack.build(2, P)]

    def two(q):
        C = V if type(jax.tree_util.tree_leaves(q)) and "Vec" in str(type(q.val_store)) else P
        items = rec(C, np.array([1, 2]))
        f = q.enqueue if isinstance(q, Queue) else q.push
        q = f(items)
        return q, q.size
    heaps = [BGPQ.build(t, b, V, jnp.float32) for t, b in ((4, 2), (6, 2), (4, 4), (3, 1))]

    def heap(q):
        k = jnp.arange(q.batch_size, dtype=jnp.float32)
        q = q.insert(k, rec(V, np.arange(q.batch_size)))
        q, kk, vv = q.delete_mins()
        return q, (kk, vv, q.size)
    cfg = {HashTable: lambda t: (t.seed, t.capacity, t.bucket_size, t.max_probes), Queue: lambda q: (q.max_size,), Stack: lambda q: (q.max_size,),
           BGPQ: lambda q: (q.max_size, q.branch_size, q.batch_size)}
    for group, f in ({"tables": (tables, fill), "queues": (queues, two), "stacks": (stacks, two), "heaps": (heaps, heap)}[which],):
        alone = []
        for x in group:
            st, out = f(x)
            alone.append((host(st), host(out)))
        for first in range(len(group)):
            g = jax.jit(lambda x: f(x), compiler_options={"xla_backend_optimization_level": "0"})  # a fresh compiled function: the first container shapes it
            rest = [i for i in range(len(group)) if i != first]
            for i in [first] + (rest if deep or group is not tables else (rest[first:] + rest[:first])[:3]) + [first]:
                st, out = g(group[i])
                job.count("evaluations")
                job.count("distinct_nontrivial")
                c = cfg[type(group[i])]
                if c(st) != c(group[i]) or type(st) is not type(group[i]):
                    job.violation(f"{type(st).__name__} {c(group[i])} came back from compiled code with configuration {c(st)}")
                if not same(host(out), alone[i][1]) or not same(host(st), alone[i][0]):
                    job.violation(f"{type(st).__name__} {c(group[i])} in a compiled function first used with {c(group[first])}: {show(host(out), alone[i][1])}")
                job.progress(f"{type(group[0]).__name__} {first} {i}")
        for i, j in itertools.permutations(range(len(group)), 2):
            if cfg[type(group[i])](group[i]) != cfg[type(group[j])](group[j]) and jax.tree_util.tree_structure(group[i]) == jax.tree_util.tree_structure(group[j]):
                job.violation(f"{type(group[i]).__name__}: configurations {cfg[type(group[i])](group[i])} and {cfg[type(group[j])](group[j])} flatten to equal tree structures")
    job.sample({"configurations": [str(cfg[type(x)](x)) for x in group]})
