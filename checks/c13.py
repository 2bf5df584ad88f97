"""C13: bit packing is lossless for every width, shape and value.

Widths 1-32 and element counts around every block boundary, with complete
content enumeration where the content space is small and otherwise all
single-bit and neighbouring-bit contents and their complements; through plain
streams, packed fields and whole-record packing (portable and kernel packers).
"""
from __future__ import annotations

import itertools
import os

import jax
import jax.numpy as jnp
import numpy as np

LEVEL = "exploration"
RULE = ("an evaluation is one packed and unpacked content; contents are all values when the total is at most 12 bits, else every "
        "single-bit content, every pair of bits in the same or adjacent elements, and complements; non-trivial = distinct contents")
ASSUMPTIONS = ["values fit their declared width", "accelerator packing kernels run on JAX's Pallas interpreter"]


def contents(w, n, pairs=True):
    """(N, n) uint32 values of width w."""
    tot = w * n
    if tot == 0:
        return np.zeros((1, n), np.uint32)
    if tot <= 12:
        v = np.arange(1 << tot, dtype=np.uint64)
        return np.stack([((v >> (w * i)) & ((1 << w) - 1)).astype(np.uint32) for i in range(n)], axis=1)
    rows = [np.zeros(n, np.uint64)]

    def bit(b):
        r = np.zeros(n, np.uint64)
        r[b // w] |= np.uint64(1 << (b % w))
        return r
    for b in range(tot):
        rows.append(bit(b))
        for c in (b + 1, b + w - 1, b + w) if pairs else ():
            if c < tot:
                rows.append(bit(b) | bit(c))
    rows.append(np.arange(n).astype(np.uint64) * 2654435761 & ((1 << w) - 1))
    rows.append((np.arange(n).astype(np.uint64) + 1) * 0x9E3779B1 & ((1 << w) - 1))
    a = np.array(rows)
    a = np.concatenate([a, ((1 << w) - 1) ^ a])
    return np.unique(a.astype(np.uint32), axis=0)


def jobs(tier):
    out = []
    ws = list(range(1, 33))
    for i in range(4):
        out.append({"name": f"streams-{i}", "fn": "streams", "cost": 10, "args": {"widths": ws[i::4]}})
        out.append({"name": f"packed-fields-{i}", "fn": "fields", "cost": 12, "args": {"widths": ws[i::4]}})
    for i in range(6):
        out.append({"name": f"records-{i}", "fn": "records", "cost": 20, "args": {"widths": ws[i::6]}})
    for t in (1, 2, 3, 4, 7):
        out.append({"name": f"records-kernel-tile{t}", "fn": "records", "cost": 20,
                    "args": {"widths": {1: [3, 12], 2: [1, 17], 3: [7, 29], 4: [5, 32], 7: [11, 31]}[t], "kernel": "gpu" if t % 2 else "tpu"},
                    "env": {"XTRUCTURE_AGG_BITPACK_PACK_BACKEND": "pallas", "XTRUCTURE_AGG_BITPACK_PACK_WORD_TILE": str(t)}})
    out.append({"name": "records-kernel-schedules", "fn": "kernel_schedules", "cost": 10, "args": {},
                "env": {"XTRUCTURE_AGG_BITPACK_PACK_BACKEND": "pallas", "XTRUCTURE_AGG_BITPACK_PACK_WORD_TILE": "1"}})
    out.append({"name": "records-zoo", "fn": "zoo_records", "cost": 20, "args": {}})
    return out


def chunks(a, n):
    for o in range(0, len(a), n):
        p = a[o:o + n]
        yield o, np.concatenate([p, np.repeat(p[:1], n - len(p), 0)]) if len(a) > n else p


def streams(job, widths):
    from xtructure.core.xtructure_decorators.aggregate_bitpack import bitpack as bp

    from mc.zoo import packed_len

    for w in widths:
        per = int(np.lcm(w, 8)) // w
        counts = sorted({0, 1, 2, per - 1, per, per + 1, 2 * per + 1, 9} | (set(range(10)) | {2 * per, 17, 32, 33, 64, 65, 100} if job.thorough else set()))
        for n in counts:
            vals = contents(w, n)
            dts = [jnp.uint32] + ([jnp.bool_] if w == 1 else []) + ([jnp.uint8] if w <= 8 else []) + \
                  ([jnp.int32] if w < 32 else []) + ([jnp.uint16] if w <= 16 else [])
            if not job.thorough and n != per + 1:
                dts = dts[:1]
            for dt in dts:
                def rt(v):
                    b = bp.to_uint8(v, w)
                    return b, bp.from_uint8(b, (n,), w)
                f = jax.jit(jax.vmap(rt))
                sub = vals if dt == jnp.uint32 else vals[:: max(1, len(vals) // 64)]
                for o, part in chunks(sub, 2048):
                    b, r = [np.asarray(x) for x in f(jnp.asarray(part).astype(dt))]
                    judge_rows(job, part, r, lambda i: f"{n} values of {w} bits ({jnp.dtype(dt).name}) {part[i].tolist()}: packed {b[i].tolist()}")
                    job.expect(b.dtype == np.uint8 and b.shape[1] == packed_len((n,), w) == bp.packed_num_bytes(n, w),
                               f"{n} values of {w} bits: stream has {b.shape[1]} {b.dtype} bytes, documented size {packed_len((n,), w)}, "
                               f"packed_num_bytes says {bp.packed_num_bytes(n, w)}")
                    distinct(job, part, b, f"{n} values of {w} bits")
                    job.count("evaluations", len(part))
                job.count("distinct_nontrivial", len(sub))
            for v in (vals[0], vals[-1], vals[len(vals) // 2]) if job.thorough or n in (2, per + 1) else ():
                for shape in {(n,), (n // 2, 2) if n % 2 == 0 else (1, n), (n, 1)}:
                    b = bp.to_uint8(jnp.asarray(v).reshape(shape), w)
                    r = np.asarray(bp.from_uint8(b, shape, w))
                    job.expect(r.shape == shape and (r.reshape(-1) == v).all(),
                               lambda: f"values {v.tolist()} of {w} bits in shape {shape} come back as {r.tolist()}")
                    job.count("evaluations")
            job.progress(f"streams width {w} count {n}")
    job.sample({"widths": widths, "counts": counts})


def judge_rows(job, want, got, label):
    if got.shape != want.shape:
        job.violation(f"{label(0)} unpacked to shape {got.shape[1:]} instead of {want.shape[1:]}")
        return
    bad = np.nonzero((got.astype(np.uint32) != want).reshape(len(want), -1).any(1))[0]
    job.expect(not len(bad), lambda: f"{label(bad[0])} comes back as {got[bad[0]].tolist()}")


def distinct(job, part, b, what):
    u = len({r.tobytes() for r in part})
    job.expect(len({r.tobytes() for r in b}) == u, f"{what}: different contents have the same packed bytes")


def make_class(name, rows):
    from mc import zoo

    return zoo.mk(name, rows)


def fields(job, widths):
    from mc import zoo

    for w in widths:
        per = int(np.lcm(w, 8)) // w
        shapes = [(1,), (per + 1,), (3, 2)] + ([(2,), (2, 1, 2), (7,), (2 * per,), (5, 3)] if job.thorough else [])
        shapes = shapes if job.thorough else shapes[1:] if w % 2 else [shapes[0], shapes[2]] if w % 4 else shapes[:2]
        for si, shape in enumerate(shapes):
            n = int(np.prod(shape))
            C = make_class(f"ZF{w}_{si}", [("a", jnp.uint8, (), None), ("p", "packed", shape, w), ("q", "packed", (3,), 5), ("z", jnp.uint16, (2,), None)])
            dt = np.bool_ if w == 1 else np.uint8 if w <= 8 else np.uint32
            vals = contents(w, n, pairs=n * w <= 64)
            vals = vals if len(vals) <= 600 else vals[:: -(-len(vals) // 600)]
            vals = np.concatenate([vals, vals[np.arange(601 - len(vals)) % len(vals)]])  # one batch size: fewer compilations
            q = (np.arange(len(vals) * 3).reshape(-1, 3) * 7 % 32).astype(np.uint8)
            a = (np.arange(len(vals)) % 251).astype(np.uint8)
            z = (np.arange(len(vals) * 2).reshape(-1, 2) * 257).astype(np.uint16)
            pv = vals.reshape((-1,) + shape).astype(dt)
            N = len(vals)

            def look(x, label, idx=slice(None), pv=pv, q=q, a=a, z=z):
                got = np.asarray(x.p_unpacked)
                job.expect(got.dtype == dt, f"{label}: unpacked dtype {got.dtype}, declared {np.dtype(dt)}")
                want = pv[idx]
                job.expect(got.shape == want.shape and (got == want).all(), lambda: f"{label}: p_unpacked is {short(got)}, stored {short(want)}")
                gq = np.asarray(x.q_unpacked)
                job.expect(gq.shape == q[idx].shape and (gq == q[idx]).all(), lambda: f"{label}: the neighbouring packed field reads {short(gq)}, stored {short(q[idx])}")
                job.expect((np.asarray(x.a) == a[idx]).all() and (np.asarray(x.z) == z[idx]).all(), f"{label}: an ordinary neighbour field changed")
                job.expect(np.asarray(x.p).dtype == np.uint8 and np.asarray(x.p).shape[-1] == zoo.packed_len(shape, w),
                           f"{label}: stored bytes {np.asarray(x.p).shape}, documented size {zoo.packed_len(shape, w)}")

            lab = f"packed field of {w} bits, shape {shape}"
            x = C.from_unpacked(shape=(N,), a=jnp.asarray(a), p=jnp.asarray(pv), q=jnp.asarray(q), z=jnp.asarray(z))
            look(x, f"{lab}, from_unpacked batch of {N}")
            y = C.default((N,)).replace(a=jnp.asarray(a), z=jnp.asarray(z)).set_unpacked(p=jnp.asarray(pv))
            y = y.set_unpacked(q=jnp.asarray(q))
            look(y, f"{lab}, set_unpacked batch of {N}")
            job.expect((np.asarray(x.p) == np.asarray(y.p)).all(), f"{lab}: from_unpacked and set_unpacked store different bytes")
            job.count("evaluations", 2 * N)
            job.count("distinct_nontrivial", N)
            # overwriting: every content on top of another one
            sh = np.roll(np.arange(N), N // 3 + 1)
            y2 = y.set_unpacked(p=jnp.asarray(pv[sh]))
            look(y2, f"{lab}, overwritten", pv=pv[sh])
            look(y, f"{lab}, after a later set_unpacked")
            job.count("evaluations", N)
            for i in sorted({0, N - 1, N // 2}) if job.thorough else [N // 2]:
                look(x[i], f"{lab}, element {i} of a batch", i)
                e = C.from_unpacked(a=jnp.asarray(a[i]), p=jnp.asarray(pv[i]), q=jnp.asarray(q[i]), z=jnp.asarray(z[i]))
                look(e, f"{lab}, single record", i)
                job.expect((np.asarray(e.p) == np.asarray(x.p)[i]).all(), f"{lab}: a record packs differently alone and in a batch")
                look(C.from_unpacked(a=jnp.asarray(a[i]), p=jnp.asarray(pv[i]), z=jnp.asarray(z[i])).set_unpacked(q=jnp.asarray(q[i])), f"{lab}, partial from_unpacked", i)
                job.count("evaluations", 3)
            m = N - N % 4
            if m:
                look(x[:m].reshape((m // 4, 4)), f"{lab}, two-dimensional batch", np.arange(m).reshape(-1, 4))
            v = jax.jit(jax.vmap(lambda a_, p_, q_, z_: C.from_unpacked(a=a_, p=p_, q=q_, z=z_)))(a, pv, q, z)
            look(v, f"{lab}, under jit and vmap")
            u = jax.jit(jax.vmap(lambda r: r.p_unpacked))(x)
            job.expect((np.asarray(u) == pv).all(), f"{lab}: p_unpacked under jit and vmap differs")
            job.progress(lab)
    job.sample({"widths": widths, "shapes": shapes})


def short(a):
    s = str(a.tolist())
    return s if len(s) < 300 else s[:300] + "..."


def record_values(C, cap=1500):
    """Raw records: every single live bit, complements, stripes, neighbouring bits."""
    from mc import zoo

    live, _ = zoo.live_bits(C)
    if len(live) <= 11:
        sets = [[p for i, p in enumerate(live) if v >> i & 1] for v in range(1 << len(live))]
    else:
        sets = [list(b) for b in zoo.bases(C)]
        for i, p in enumerate(live):
            sets.append([p])
            sets.append([x for x in live if x != p])
            if i + 1 < len(live):
                sets.append([p, live[i + 1]])
    rows = {zoo.pattern(C, s).tobytes(): None for s in sets}
    rows = np.array([np.frombuffer(r, np.uint8) for r in rows])
    rows = rows if len(rows) <= cap else rows[:: len(rows) // cap + 1]
    return np.concatenate([rows, rows[np.arange(-len(rows) % 256) % len(rows)]])  # few batch sizes: fewer compilations


def view_dtype(bits):
    return np.dtype(np.bool_) if bits == 1 else np.dtype(np.uint8) if bits <= 8 else np.dtype(np.uint32)


def check_record_class(job, C, label, raw=None, install=None):
    from mc import zoo

    raw = record_values(C) if raw is None else raw
    N = len(raw)
    leaves = zoo.leaves_of(C)
    tot = sum(int(np.prod(sh, dtype=int)) * b for _, _, sh, b, _ in leaves)
    Z = zoo.jn(zoo.from_bits(C, raw))
    rec = lambda i: f"{label} record {[np.asarray(zoo.get(Z, p))[i].tolist() for p, *_ in leaves]}"

    def look(P, idx, how, partial=True):
        lead = np.asarray(idx).shape if not isinstance(idx, slice) else (N,)
        o = P.as_original()
        job.expect(type(o) is C, f"{label} {how}: as_original returns {type(o).__name__}")
        got = zoo.to_bits(C, o)
        want = raw[idx]
        ok = got.shape == want.shape
        bad = np.nonzero((got != want).reshape(-1, raw.shape[1]).any(1))[0] if ok else [0]
        ids = np.arange(N)[idx].reshape(-1)
        job.expect(ok and not len(bad), lambda: f"{rec(ids[bad[0]])} {how}: packs and unpacks to "
                   f"{[np.asarray(zoo.get(o, p)).reshape((-1,) + tuple(sh))[bad[0]].tolist() for p, _, sh, *_ in leaves]}")
        u = P.unpacked
        for p, dt, sh, b, _ in leaves:
            w = np.asarray(zoo.get(Z, p))[idx]
            g = np.asarray(zoo.get(u, p))
            job.expect(g.dtype == view_dtype(b) and g.shape == w.shape and (g.astype(np.uint32) == w.astype(np.uint32)).all(),
                       lambda: f"{label} {how}: .unpacked field {'.'.join(p)} is {short(g)} ({g.dtype}), expected {short(w)}")
            if not partial:
                continue
            n = int(np.prod(sh, dtype=int))
            flat = w.reshape(lead + (n,))
            full = np.asarray(P.unpack_field(".".join(p)))
            decl = np.asarray(P.unpack_field(".".join(p), dtype_policy="declared"))
            job.expect(full.shape == w.shape and (full.astype(np.uint32) == w.astype(np.uint32)).all() and decl.dtype == dt and (decl == w).all(),
                       lambda: f"{label} {how}: unpack_field({'.'.join(p)}) is {short(full)} / {short(decl)} {decl.dtype}, expected {short(w)} {dt}")
            sel = [[i] for i in (range(n) if n <= 6 or job.thorough else (0, 1, n // 2, n - 1))] + [list(range(n))[::-1], [n - 1, 0, n - 1], [0, n // 2]]
            for s in sel:
                for form in (s, tuple(s), np.array(s), jnp.asarray(s)) if len(s) == 3 else (s,):
                    g = np.asarray(P.unpack_field(".".join(p), indices=form))
                    job.expect(g.shape == lead + (len(s),) and (g.astype(np.uint32) == flat[..., s].astype(np.uint32)).all(),
                               lambda: f"{label} {how}: unpack_field({'.'.join(p)}, indices={form}) is {short(g)}, expected {short(flat[..., s])}")
            for sl in (slice(None), slice(1, None), slice(None, n + 5), slice(-1, None), slice(None, None, -1), slice(0, n, 2), slice(-2, None), slice(2, 1)):
                g = np.asarray(P.unpack_field(".".join(p), indices=sl))
                wv = flat[..., sl]
                job.expect(g.shape == wv.shape and (g.astype(np.uint32) == wv.astype(np.uint32)).all(),
                           lambda: f"{label} {how}: unpack_field({'.'.join(p)}, indices={sl}) is {short(g)}, expected {short(wv)}")
            g = np.asarray(P.unpack_field(".".join(p), indices=n - 1))
            job.expect((g.reshape(lead).astype(np.uint32) == flat[..., n - 1]).all(), f"{label} {how}: unpack_field with an integer index is wrong")
            job.count("partial_reads", len(sel) + 9)

    P = Z.packed
    nbytes = sum(np.asarray(l).nbytes for l in jax.tree_util.tree_leaves(P)) // N
    payload = -(-tot // 8)
    sch = C.bitpack_schema()
    job.expect(sch["total_bits"] == tot and sch["payload_bytes"] == payload and sch["storage_bytes"] == nbytes and
               payload <= nbytes <= payload + (1 if payload % 4 == 3 else 0),
               lambda: f"{label}: {tot} bits are stored in {nbytes} bytes, schema {sch['total_bits']}/{sch['payload_bytes']}/{sch['storage_bytes']}")
    rows = np.concatenate([np.ascontiguousarray(np.asarray(l)).reshape(N, -1).view(np.uint8).reshape(N, -1) for l in jax.tree_util.tree_leaves(P)], axis=1)
    distinct(job, raw, rows, label)
    # the stream is exactly the concatenated values: no unused bit is ever set
    ones = np.unpackbits(rows, axis=1).sum(1)
    want = np.unpackbits(raw, axis=1).sum(1)
    bad = np.nonzero(ones != want)[0]
    job.expect(not len(bad), lambda: f"{rec(bad[0])}: the packed stream has {ones[bad[0]]} bits set, the record {want[bad[0]]}")
    look(P, slice(None), f"batch of {N}")
    job.count("evaluations", N)
    job.count("distinct_nontrivial", N)
    for i in (0, N // 2, N - 1) if job.thorough else (N // 2,):
        one = Z[i].packed
        job.expect(all((np.asarray(a) == np.asarray(b)[i]).all() for a, b in zip(jax.tree_util.tree_leaves(one), jax.tree_util.tree_leaves(P))),
                   lambda: f"{rec(i)}: packs differently alone and in a batch")
        look(one, i, "single record", partial=i == N // 2 and job.thorough)
        look(P[i], i, "element of a packed batch", partial=False)
        job.count("evaluations", 2)
    m = N - N % 3
    if m >= 3:
        idx = np.arange(m).reshape(m // 3, 3)
        look(Z[:m].reshape((m // 3, 3)).packed, idx, "two-dimensional batch", partial=False)
        look(P[:m].reshape((m // 3, 3)), idx, "reshaped packed batch", partial=False)
        job.count("evaluations", 2 * m)
    if install is None:
        q = jax.jit(jax.vmap(lambda r: r.packed))(Z)
        look(q, slice(None), "under jit and vmap", partial=False)
        o = jax.jit(jax.vmap(lambda p: p.as_original()))(q)
        job.expect((zoo.to_bits(C, o) == raw).all(), f"{label}: as_original under jit and vmap differs")
        job.count("evaluations", N)
    # replacing one packed element leaves the others alone
    j, k = N // 3, N - 1
    P2 = P.at[j].set(P[k])
    want = raw.copy()
    want[j] = raw[k]
    job.expect((zoo.to_bits(C, P2.as_original()) == want).all(), f"{label}: replacing element {j} of a packed batch disturbs others")
    job.progress(label)


def records(job, widths, kernel=None):
    if kernel:
        from mc import pallas_emu as emu

        emu.install_sequential(kernel)
    for w in widths:
        n = 2 if w > 16 else 3
        dt = jnp.bool_ if w == 1 else jnp.uint8 if w <= 8 else jnp.uint16 if w <= 16 else jnp.uint32
        v = 33 - w
        dv = jnp.bool_ if v == 1 else jnp.uint8 if v <= 8 else jnp.uint16 if v <= 16 else jnp.uint32
        fam = [[("a", dt, (n,), w), ("b", jnp.bool_, (w % 5 + 1,), 1), ("c", dv, (2,), v)],
               [("b", jnp.uint32, (), v), ("a", jnp.uint32, (2, n - 1), w), ("d", jnp.int32, (), 3)]]
        if job.thorough:
            fam += [[("a", jnp.uint32, (7,), w)], [("k", jnp.uint8, (w % 7 + 1,), 2), ("a", jnp.uint32, (5,), w), ("e", jnp.uint16, (3,), 13)]]
        for i, rows in enumerate(fam):
            if not job.thorough and i != w % 2 and not kernel:
                continue
            C = make_class(f"ZR{w}_{i}", rows)
            check_record_class(job, C, f"whole record of {[(r[2], r[3]) for r in rows]} (shape, bits){' kernel ' + kernel if kernel else ''}",
                               install=kernel)
    job.sample({"widths": widths, "kernel": kernel})


def zoo_records(job):
    from mc import zoo

    for name in ("ZAg0", "ZAg1", "ZAg2", "ZAg3", "ZAgI", "ZAgN", "ZBits"):
        check_record_class(job, zoo.ALL[name], name)
    for name in ("ZAg1", "ZAgN"):
        C = zoo.ALL[name]
        for shape in ((), (3,), (2, 2), (0,)):
            d = C.default(shape)
            p = C.Packed.default(shape)
            job.expect(tuple(np.asarray(p.words).shape[:-1]) == shape and (zoo.to_bits(C, p.as_original()) == 0).all(),
                       f"{name}: the default packed instance of shape {shape} does not unpack to zeros")
            job.count("evaluations")
            if shape == (0,):
                o = d.packed.as_original()
                job.expect(zoo.to_bits(C, o).shape[0] == 0, f"{name}: an empty batch does not pack and unpack to an empty batch")
    job.sample({"classes": "ZAg*, ZBits"})


def kernel_schedules(job):
    """Every interleaving of the packing kernel's programs, for a few records."""
    from mc import pallas_emu as emu
    from mc import zoo

    emu.install("gpu")
    st = emu.Stats()
    for name in ("ZAg1", "ZAg2", "ZAg3"):
        C = zoo.ALL[name]
        raw = record_values(C)
        for o in range(0, min(len(raw), 60), 2):
            part = raw[o:o + 2]
            Z = zoo.jn(zoo.from_bits(C, part))
            for P, _ in emu.explore(lambda: Z.packed, st):
                got = zoo.to_bits(C, P.as_original())
                job.expect((got == part).all(), lambda: f"{name} records {part.tolist()}: under some schedule of the packing kernel they come back as {got.tolist()}")
                job.count("evaluations", len(part))
        job.progress(name)
    job.expect(st.kernels > 0, "the packing kernel was not used although it was requested")
    job.count("distinct_nontrivial", st.kernels)
    job.count("kernel_steps", st.transitions)
    job.sample({"kernels": st.kernels, "with disjoint programs": st.independent})
