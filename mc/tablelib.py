"""Shared pieces of the hash table harnesses: key alphabets containing forced
hash collisions, and the reference judgement of every operation.

The model of a table is the sorted tuple of (key id, position): a key id is an
index into the harness's alphabet, the position is what the operation that
stored the key returned.  Which free position a key gets is the table's
choice; everything else is determined.
"""
from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np


def tree(f, *t):
    return jax.tree_util.tree_map(f, *t)


def raw_pool(C, n, seed):
    """n records with pseudo-random content (fixed by seed); only used to search for colliding keys."""
    rng = np.random.Generator(np.random.PCG64(seed))

    def leaf(d):
        dt, shape = d.dtype, (n,) + d.shape
        if dt == np.bool_:
            return rng.integers(0, 2, shape).astype(np.bool_)
        if dt.kind in "iu":
            return rng.integers(0, 256, shape + (dt.itemsize,), dtype=np.uint8).view(dt).reshape(shape)
        return rng.integers(-(1 << 20), 1 << 20, shape).astype(dt) / dt.type(8) + dt.type(2.0 ** -30 if dt.itemsize == 8 else 0)
    return tree(lambda d: leaf(np.asarray(d)), C.default())


def rows(keys, ids):
    return tree(lambda l: np.asarray(l)[np.asarray(ids)], keys)


def concat(parts):
    return tree(lambda *l: np.concatenate(l), *parts)


def key_bytes(keys):
    ls = [np.ascontiguousarray(l) for l in jax.tree_util.tree_leaves(keys)]
    n = ls[0].shape[0]
    return [b"".join(l[i].tobytes() for l in ls) for i in range(n)]


def hold(pool, elements):
    """The pool with the listed elements (numbered through all fields) equal in all records."""
    off = [0]

    def fix(l):
        flat = l.reshape(l.shape[0], -1).copy()
        for e in elements:
            if 0 <= e - off[0] < flat.shape[1]:
                flat[:, e - off[0]] = flat[0, e - off[0]]
        off[0] += flat.shape[1]
        return flat.reshape(l.shape)
    return tree(fix, pool)


def collision_groups(C, table_seed, pairs=0, triples=0, size=1 << 20, pool_seed=7, agree=()):
    """Groups of distinct records with equal hash (public hash method, table's seed), which
    agree in the listed elements."""
    h = jax.jit(jax.vmap(lambda k: k.hash(table_seed)))
    pool = hold(raw_pool(C, size, pool_seed), agree)
    hs = np.concatenate([np.asarray(h(tree(lambda l: l[i:i + 65536], pool))) for i in range(0, size, 65536)])
    order = np.argsort(hs, kind="stable")
    s = hs[order]
    out = []
    eq2 = np.nonzero(s[1:] == s[:-1])[0]
    if triples:
        eq3 = np.nonzero((s[2:] == s[1:-1]) & (s[1:-1] == s[:-2]))[0]
        out += [order[[i, i + 1, i + 2]] for i in eq3[:triples]]
        assert len(out) == triples, "no three-way collision found; enlarge the pool"
    used = set(np.concatenate(out).tolist()) if out else set()
    got = 0
    for i in eq2:
        if got == pairs:
            break
        g = order[[i, i + 1]]
        if used & set(g.tolist()):
            continue
        b = key_bytes(rows(pool, g))
        if b[0] == b[1]:
            continue
        out.append(g)
        used |= set(g.tolist())
        got += 1
    assert got == pairs, "not enough collisions found; enlarge the pool"
    return [rows(pool, g) for g in out]


class Alphabet:
    """keys: batched instance; `groups` lists ids of keys with equal hashes."""

    def __init__(self, C, table_seed, pairs=0, triples=0, singles=0, default=False, sig_twins=False, size=None,
                 pool_seed=7, agree=()):
        parts, self.groups, n = [], [], 0
        if pairs or triples:
            for g in collision_groups(C, table_seed, pairs, triples,
                                      size or ((6 << 20) if triples else (1 << 18)), pool_seed):
                k = len(jax.tree_util.tree_leaves(g)[0])
                self.groups.append(list(range(n, n + k)))
                parts.append(g)
                n += k
        for a in agree:
            for g in collision_groups(C, table_seed, 1, 0, 1 << 18, pool_seed, a):
                self.groups.append([n, n + 1])
                parts.append(g)
                n += 2
        if singles:
            parts.append(raw_pool(C, singles, pool_seed + 1))
            n += singles
        if sig_twins:
            # first key of the alphabet with the top bit of two 32-bit words flipped (single uint32 vector field)
            leaf, = jax.tree_util.tree_leaves(parts[0])
            t = leaf[:1].copy()
            t[0, [1, 3]] ^= np.uint32(1 << 31)
            u = leaf[:1].copy()
            u[0, [0, -1]] ^= np.uint32(1 << 31)
            parts.append(tree(lambda _: np.concatenate([t, u]), parts[0]))
            n += 2
        if default:
            parts.append(tree(lambda l: np.asarray(l)[None], C.default()))
            n += 1
        self.C, self.n = C, n
        self.keys = concat(parts)
        b = key_bytes(self.keys)
        assert len(set(b)) == n, "alphabet keys must be distinct"
        self.by_bytes = {x: i for i, x in enumerate(b)}

    def take(self, ids):
        return rows(self.keys, ids)

    def rehome(self):
        """Moves the keys to a class of the same (scalar) fields whose default record is the first key."""
        from xtructure import FieldDescriptor, xtructure_dataclass

        vals = {f: np.asarray(getattr(self.keys, f)) for f in self.keys.__dataclass_fields__}
        C = xtructure_dataclass(type("Home" + self.C.__name__, (), {"__module__": __name__, "__annotations__": {
            f: FieldDescriptor.scalar(dtype=v.dtype, default=v[0].item()) for f, v in vals.items()}}))
        assert key_bytes(tree(lambda l: np.asarray(l)[None], C.default()))[0] == key_bytes(self.keys)[0]
        self.C, self.keys = C, C(**vals)
        return C


def decode(A, items):
    """Key ids of a batch of records (None = not in the alphabet)."""
    return [A.by_bytes.get(b) for b in key_bytes(items)]


def reps(ids, mask, cost):
    """Reference choice of representatives: index per entry (None where invalid)."""
    best = {}
    for i, (k, f) in enumerate(zip(ids, mask)):
        if not f:
            continue
        c = 0 if cost is None else cost[i]
        if k not in best or c < best[k][0]:
            best[k] = (c, i)
    return [best[k][1] if f else None for k, f in zip(ids, mask)]


class Refusals:
    """Collects refused insertions and judges them against where the same key was ever stored."""

    def __init__(self, job, slots_lower_bound, budget):
        self.job, self.budget, self.least = job, budget, slots_lower_bound
        self.reach = {}
        self.refused = {}
        self.most = 0

    def stored(self, k, pos):
        self.reach.setdefault(k, set()).add(pos)

    def note(self, k, taken, where):
        """Returns a message if the refusal is wrong whatever the probe sequence is."""
        taken = frozenset(taken)
        limit = min(self.budget, self.least)
        if len(taken) < limit:
            return f"refused although only {len(taken)} slots are taken and a lookup searches at least {limit}"
        self.refused.setdefault((k, taken), where)
        return None

    def finish(self, label):
        for (k, taken), where in self.refused.items():
            free = self.reach.get(k, set()) - taken
            self.job.expect(not free, f"{label}: key {k} was refused in {where} although position(s) {sorted(free)}, "
                                      f"where it has been stored in another history, were free; taken: {sorted(taken)}")
            self.job.count("refusals_judged")


def judge_batch(A, model, ids, mask, cost, o, refusals, where):
    """o = (inserted, unique, positions, size) of one parallel_insert. -> (model', message)"""
    inserted, unique, pos, size = [np.asarray(x).tolist() for x in o]
    have = dict(model)
    taken = set(have.values())
    rep = reps(ids, mask, cost)
    n = len(ids)
    want_unique = [rep[i] == i for i in range(n)]
    if unique != want_unique:
        return None, f"representatives {unique}, expected {want_unique}"
    new = {}
    refused = []
    for i in range(n):
        if not want_unique[i] or ids[i] in have:
            if inserted[i]:
                return None, f"entry {i} reported inserted (key {ids[i]}, representative {want_unique[i]}, present {ids[i] in have})"
            continue
        if inserted[i]:
            p = pos[i]
            if p in taken or p in new.values():
                return None, f"entry {i} (key {ids[i]}) got position {p}, which holds another key"
            new[ids[i]] = p
        else:
            refused.append(i)
    have.update(new)
    for i in refused:
        msg = refusals.note(ids[i], have.values(), where())
        if msg:
            return None, f"entry {i} (key {ids[i]}): {msg}"
    for k, p in new.items():
        refusals.stored(k, p)
    for i in range(n):
        if mask[i] and ids[i] in have and pos[i] != have[ids[i]]:
            return None, f"entry {i} (key {ids[i]}) was given position {pos[i]}, the key is stored at {have[ids[i]]}"
    if size != len(have):
        return None, f"size is {size}, {len(have)} distinct keys are stored"
    return tuple(sorted(have.items())), None


def probe_impl(A, mask):
    """Observation of a table: every key looked up one by one and as a batch."""
    keys = tree(jnp.asarray, A.keys)

    def impl(t):
        traced = any(isinstance(l, jax.core.Tracer) for l in jax.tree_util.tree_leaves(t))
        if traced:
            i1, f1 = jax.vmap(t.lookup)(keys)
        else:
            r = [t.lookup(tree(lambda l: l[i], keys)) for i in range(A.n)]
            i1 = tree(lambda *l: jnp.stack(l), *[x[0] for x in r])
            f1 = jnp.stack([x[1] for x in r])
        i2, f2 = t.lookup_parallel(keys)
        i3, f3 = t.lookup_parallel(keys, jnp.asarray(mask))
        _, f4 = t.lookup_parallel(keys, False)
        i5, f5, _ = jax.vmap(t.lookup_bucket)(keys)
        at = i5.index * t.bucket_size + i5.slot_index
        return t.size, (i1.index, f1), (i2.index, f2), (i3.index, f3), (at, f5), f4, t[i1], t[i2]
    return impl


def probe_compare(A, mask, fresh=True):
    def compare(m, o):
        size, s, p, q, b, none, c1, c2 = o
        have = dict(m)
        if int(size) != len(have):
            return f"size is {int(size)}, {len(have)} distinct keys are stored"
        if np.asarray(none).any():
            return "lookup_parallel with filled=False reports keys"
        c1, c2 = decode(A, c1), decode(A, c2)
        for name, (ix, f), c, act in (("lookup", s, c1, None), ("lookup_parallel", p, c2, None),
                                      ("masked lookup_parallel", q, None, mask), ("lookup_bucket", b, None, None)):
            ix, f = np.asarray(ix).tolist(), np.asarray(f).tolist()
            for k in range(A.n):
                if act is not None and not act[k]:
                    if f[k]:
                        return f"{name} reports the masked-out key {k} as found"
                    continue
                if f[k] != (k in have):
                    return f"{name}({k}) = {f[k]}, but the key was {'' if k in have else 'never '}stored (stored: {m})"
                if f[k]:
                    if ix[k] != have[k]:
                        return f"{name}({k}) gives position {ix[k]}, the key was stored at {have[k]}"
                    if c is not None and c[k] != k:
                        return f"position {ix[k]} returned by {name}({k}) holds {'key ' + str(c[k]) if c[k] is not None else 'an unknown record'}"
        return None
    return compare
