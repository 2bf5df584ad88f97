"""Breadth-first search whose transition function is the real container code.

A state is (container pytree, model value).  Every operation in the alphabet is
applied to every reached state by running the library's own function, jitted
and vmapped over a chunk of (state, argument) rows.  After each transition the
model decides what should have been observed.  States are merged only when the
container's arrays are bit-identical AND the model values are equal, so merged
states have the same futures.
"""
from __future__ import annotations

import jax
import numpy as np


class Op:
    """One operation signature.

    impl(container, arg) -> (container', obs): pure, jit-able, calls the library.
    args(model) -> list of (label, arg pytree of numpy, model-arg), the argument
        values enabled in this model state (all with the same array shapes).
    step(model, model-arg) -> (model', expected) in plain Python; model' None
        means the successor is checked but not explored further.
    check(model, marg, model', expected, obs) -> None or a message.
    With observing=True, step(model, model-arg, obs) -> (model', message or None)
        replaces step and check: where the specification leaves a choice (ties),
        the model follows what was observed after judging it.
    """

    def __init__(self, name, impl, args, step, check=None, observing=False):
        self.name, self.impl, self.args, self._step, self._check = name, impl, args, step, check
        self.observing = observing

    def judge(self, m, marg, o):
        if self.observing:
            return self._step(m, marg, o)
        m2, exp = self._step(m, marg)
        return m2, self._check(m, marg, m2, exp, o)


def _stack(trees):
    return jax.tree_util.tree_map(lambda *xs: np.stack([np.asarray(x) for x in xs]), *trees)


class Search:
    def __init__(self, job, ops, chunk=128, max_states=None, max_depth=None, invariant=None,
                 label=""):
        """invariant: (impl, expect(model), compare(expected row, obs row)) probe run on every new state."""
        self.job, self.ops, self.chunk = job, ops, chunk
        self.max_states, self.max_depth, self.label = max_states, max_depth, label
        self.invariant = invariant
        self.states = []   # (model, parent id, op name, label)
        self.fns = {}
        self.capped = False

    def fn(self, op):
        if op.name not in self.fns:
            def run(leaves, arg, op=op):
                c = jax.tree_util.tree_unflatten(self.treedef, leaves)
                c2, obs = op.impl(c, arg)
                l2, td2 = jax.tree_util.tree_flatten(c2)
                return l2, obs
            self.fns[op.name] = jax.jit(jax.vmap(run))
        return self.fns[op.name]

    def trace(self, sid):
        out = []
        while sid is not None and self.states[sid][1] is not None:
            m, parent, op, lab = self.states[sid]
            out.append((op, lab))
            sid = parent
        return out[::-1]

    def run(self, inits):
        """inits: list of (container, model). Returns the states' leaves in id order."""
        job = self.job
        leaves0 = [jax.tree_util.tree_flatten(c) for c, _ in inits]
        self.treedef = leaves0[0][1]
        n = len(leaves0[0][0])
        self.n_leaves = n
        self.store = [[] for _ in range(n)]  # per leaf list of numpy rows
        seen = {}
        frontier = []
        for (lv, _), (_, m) in zip(leaves0, inits):
            rows = [np.asarray(x) for x in lv]
            k = (m, b"".join(r.tobytes() for r in rows))
            if k in seen:
                continue
            seen[k] = sid = len(self.states)
            self.states.append((m, None, None, None))
            for s, r in zip(self.store, rows):
                s.append(r)
            frontier.append(sid)
        self._probe(frontier)
        depth = 0
        job.count("states", len(frontier))
        while frontier and (self.max_depth is None or depth < self.max_depth):
            nxt = []
            for op in self.ops:
                batch = []
                for sid in frontier:
                    m = self.states[sid][0]
                    for lab, arg, marg in op.args(m):
                        batch.append((sid, lab, arg, marg))
                for i in range(0, len(batch), self.chunk):
                    self._apply(op, batch[i:i + self.chunk], seen, nxt)
                    job.progress(f"{self.label} depth {depth} op {op.name}: states {len(self.states)}")
                    if self.max_states and len(self.states) >= self.max_states:
                        break
            self._probe(nxt)
            job.count("states", len(nxt))
            depth += 1
            frontier = nxt
            if self.max_states and len(self.states) >= self.max_states:
                self.capped = bool(frontier)
                break
        self.depth = depth
        self.closed = not frontier
        if not self.closed and self.max_depth is None:
            job.exhaustive = False
        job.info.setdefault("searches", []).append(
            {"label": self.label, "states": len(self.states), "depth": depth,
             "closed": self.closed, "capped_at_max_states": self.capped})
        return self

    def _pad(self, tree, n):
        def f(x):
            if x.shape[0] == n:
                return x
            return np.concatenate([x, np.repeat(x[:1], n - x.shape[0], axis=0)])
        return jax.tree_util.tree_map(f, tree)

    def _apply(self, op, rows, seen, nxt):
        job = self.job
        if not rows:
            return
        leaves = [np.stack([st[sid] for sid, *_ in rows]) for st in self.store]
        arg = _stack([a for _, _, a, _ in rows])
        leaves, arg = self._pad(leaves, self.chunk), self._pad(arg, self.chunk)
        new, obs = self.fn(op)(leaves, arg)
        new = [np.asarray(x) for x in new]
        obs = jax.tree_util.tree_map(np.asarray, obs)
        for i, (sid, lab, a, marg) in enumerate(rows):
            m = self.states[sid][0]
            o = jax.tree_util.tree_map(lambda x: x[i], obs)
            m2, msg = op.judge(m, marg, o)
            job.count("transitions")
            if msg:
                job.violation(
                    f"{self.label}: after {self.trace(sid)} then {op.name}({lab}): {msg}",
                    {"label": self.label, "trace": self.trace(sid) + [(op.name, lab)]})
                continue
            if m2 is None:
                continue
            row = [x[i] for x in new]
            k = (m2, b"".join(r.tobytes() for r in row))
            if k not in seen:
                seen[k] = nid = len(self.states)
                self.states.append((m2, sid, op.name, lab))
                for s, r in zip(self.store, row):
                    s.append(r.copy())
                nxt.append(nid)

    def _probe(self, sids):
        if self.invariant is None or not sids:
            return
        impl, compare = self.invariant
        if not hasattr(self, "_probe_fn"):
            self._probe_fn = jax.jit(jax.vmap(
                lambda lv: impl(jax.tree_util.tree_unflatten(self.treedef, lv))))
        for i in range(0, len(sids), self.chunk):
            part = sids[i:i + self.chunk]
            leaves = self._pad([np.stack([st[s] for s in part]) for st in self.store], self.chunk)
            obs = jax.tree_util.tree_map(np.asarray, self._probe_fn(leaves))
            for j, s in enumerate(part):
                o = jax.tree_util.tree_map(lambda x: x[j], obs)
                msg = compare(self.states[s][0], o)
                self.job.count("state_invariants")
                if msg:
                    self.job.violation(f"{self.label}: state after {self.trace(s)}: {msg}",
                                       {"label": self.label, "trace": self.trace(s)})

    def container(self, sid):
        import jax.numpy as jnp
        return jax.tree_util.tree_unflatten(self.treedef, [jnp.asarray(st[sid]) for st in self.store])

    def replay_direct(self, sids, init, init_model):
        """Re-runs the trace reaching each state through the library's public
        methods, unbatched and step by step, checking every observation again."""
        ops = {o.name: o for o in self.ops}
        for sid in sids:
            c, m = init, init_model
            tr = self.trace(sid)
            for k, (name, lab) in enumerate(tr):
                op = ops[name]
                found = [(a, g) for l, a, g in op.args(m) if l == lab]
                assert found, "trace does not replay on the model"
                a, g = found[0]
                c, o = op.impl(c, jax.tree_util.tree_map(jax.numpy.asarray, a))
                m2, msg = op.judge(m, g, jax.tree_util.tree_map(np.asarray, o))
                if msg:
                    self.job.violation(f"{self.label}: direct replay of {tr[:k + 1]}: {msg}",
                                       {"label": self.label, "trace": tr[:k + 1]})
                    break
                m = m2
            else:
                self.job.expect(m == self.states[sid][0],
                                f"{self.label}: model disagrees on replay of {tr}")
                if self.invariant:
                    impl, compare = self.invariant
                    msg = compare(m, jax.tree_util.tree_map(np.asarray, impl(c)))
                    self.job.expect(not msg, f"{self.label}: direct replay of {tr}: {msg}",
                                    {"label": self.label, "trace": tr})
            self.job.count("traces_validated_against_impl")
