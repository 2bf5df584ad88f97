"""Runs Pallas kernels under an exhaustive scheduler, on a machine without accelerator.

`install(backend)` makes the library believe it runs on that backend and gives
the pallas_call primitive a CPU lowering: the kernel's own jaxpr (exactly what
the accelerator compiler would receive) is interpreted, one program per grid
index, and every interleaving of the programs' accesses to shared memory is
explored as an explicit-state search.  A state is the content of the kernel's
buffers plus, per program, the sequence of values it has read so far (programs
are deterministic, so that sequence is their local state).  Reads of buffers no
program can write are not scheduling points.  Output buffers that alias no
input start out poisoned.

In relaxed mode a plain read may return any value the cell has held since the
kernel started that is not older than what the same program already saw or
wrote there; atomics always act on the newest value.

If the programs of a kernel, each run alone, touch no common cell that any of
them writes, all interleavings are equivalent and one order is explored
(partial-order reduction; `Stats.independent` counts these kernels).

`explore(fn)` calls fn once per combination of kernel outcomes.
`install_sequential(backend)` instead gives pallas_call JAX's own interpreter
(programs in grid order), for enumerations where schedules are settled.
"""
from __future__ import annotations

import numpy as np

import jax
import jax.numpy as jnp
from jax.interpreters import mlir

CTX = {"path": [], "pos": 0, "options": [], "stats": None, "relaxed": False, "order": "all", "max_states": 400000}


class Stats:
    def __init__(self):
        self.states = self.transitions = self.kernels = self.outcomes = 0
        self.max_outcomes = 0
        self.independent = 0
        self.capped = False


def install(backend):
    from jax._src.pallas.pallas_call import pallas_call_p

    jax.default_backend = lambda: backend
    mlir.register_lowering(pallas_call_p, mlir.lower_fun(_impl, multiple_results=True), "cpu")


def install_sequential(backend=None):
    from jax._src.pallas.hlo_interpreter import pallas_call_hlo_interpret
    from jax._src.pallas.pallas_call import pallas_call_p

    if backend:
        jax.default_backend = lambda: backend

    def impl(*args, interpret=None, **params):
        return pallas_call_hlo_interpret(*args, **params)

    mlir.register_lowering(pallas_call_p, mlir.lower_fun(impl, multiple_results=True), "cpu")


def explore(fn, stats, relaxed=False):
    """Yields fn() for every combination of schedules' distinct outcomes."""
    CTX.update(stats=stats, relaxed=relaxed)
    path = []
    while True:
        CTX.update(path=path, pos=0, options=[])
        r = fn()
        jax.block_until_ready(jax.tree_util.tree_leaves(r))
        opts = CTX["options"]
        taken = path[:len(opts)] + [0] * (len(opts) - len(path))
        yield r, tuple(taken)
        i = len(opts) - 1
        while i >= 0 and taken[i] + 1 >= opts[i]:
            i -= 1
        if i < 0:
            return
        path = taken[:i] + [taken[i] + 1]


def _impl(*args, jaxpr, grid_mapping, input_output_aliases, out_avals, **params):
    grid = tuple(int(g) for g in grid_mapping.grid)
    kern = Kernel.get(jaxpr, grid, tuple(tuple(p) for p in input_output_aliases),
                      [(tuple(a.shape), np.dtype(a.dtype)) for a in out_avals], len(args), grid_mapping)
    outs = [jax.ShapeDtypeStruct(a.shape, a.dtype) for a in out_avals]
    from jax.experimental import io_callback

    return io_callback(lambda *a: _callback(kern, *a), outs, *args, ordered=False)


NP1 = {
    "not": np.bitwise_not, "neg": np.negative, "sign": np.sign, "abs": np.abs,
}
NP2 = {
    "and": np.bitwise_and, "or": np.bitwise_or, "xor": np.bitwise_xor, "add": np.add, "sub": np.subtract,
    "mul": np.multiply, "max": np.maximum, "min": np.minimum, "eq": np.equal, "ne": np.not_equal,
    "lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal,
}


class Kernel:
    cache: dict = {}

    @classmethod
    def get(cls, jaxpr, grid, aliases, outs, n_in, gm):
        key = (id(jaxpr), grid)
        if key not in cls.cache:
            cls.cache[key] = (cls(jaxpr, grid, aliases, outs, n_in, gm), jaxpr)
        return cls.cache[key][0]

    def __init__(self, jaxpr, grid, aliases, outs, n_in, gm):
        self.jaxpr, self.grid, self.outs, self.n_in = jaxpr, grid, outs, n_in
        assert not jaxpr.constvars, "kernel with constants"
        for bm in gm.block_mappings:
            shape = tuple(int(getattr(b, "block_size", b)) for b in bm.block_shape)
            assert shape == tuple(bm.array_aval.shape), "blocked operands are not supported by the emulator"
        # buffer of each invar: output o is buffer n_in + o unless aliased to an input
        self.buf = list(range(n_in + len(outs)))
        self.alias = {}
        for i, o in aliases:
            self.buf[n_in + o] = i
            self.alias[o] = i
        self.mutable = sorted({self.buf[n_in + o] for o in range(len(outs))})
        self.next = {}     # (pid, history) -> request
        self.memo = {}     # input bytes -> outcomes

    # -- one program ------------------------------------------------------
    def program(self, pid, inputs):
        """Generator of shared accesses; replies are sent in."""
        env = {}
        for v, b in zip(self.jaxpr.invars, self.buf):
            env[v] = ("ref", b)
        yield from self.run(self.jaxpr, env, pid, inputs)

    def run(self, jaxpr, env, pid, inputs):
        def val(a):
            return a.val if hasattr(a, "val") else env[a]

        for eqn in jaxpr.eqns:
            name = eqn.primitive.name
            ins = [val(a) for a in eqn.invars]
            p = eqn.params
            if name == "program_id":
                out = [np.int32(np.unravel_index(pid, self.grid)[p["axis"]])]
            elif name == "num_programs":
                out = [np.int32(self.grid[p["axis"]])]
            elif name in ("get", "masked_load", "load"):
                if name == "get":
                    ref, idx, mask, other = ins[0], self.index(p["tree"], ins[1:]), None, None
                else:
                    ref, tr, mask, other = self.unflat(p["args_tree"], ins)
                    idx = self.index_of(tr)
                if mask is not None and not bool(mask):
                    out = [other]
                else:
                    out = [(yield from self.access("read", ref[1], idx, None, inputs))]
            elif name in ("swap", "masked_swap", "store"):
                if name == "swap":
                    ref, v, idx, mask = ins[0], ins[1], self.index(p["tree"], ins[2:]), None
                else:
                    ref, tr, v, mask = self.unflat(p["args_tree"], ins)
                    idx = self.index_of(tr)
                drop = type(eqn.outvars[0]).__name__ == "DropVar"
                if mask is not None and not bool(mask):
                    out = [None]
                else:
                    out = [(yield from self.access("write" if drop else "exchange", ref[1], idx, v, inputs))]
            elif name == "atomic_rmw":
                ref, tr, v, mask = self.unflat(p["args_tree"], ins)
                idx = self.index_of(tr)
                op = p["atomic_type"].name.lower()
                if mask is not None and not bool(mask):
                    out = [np.asarray(v) * 0 + np.asarray(0xA5A5A5A5 & (2 ** (8 * np.asarray(v).dtype.itemsize - 1) - 1)).astype(np.asarray(v).dtype)]
                else:
                    out = [(yield from self.access(op, ref[1], idx, v, inputs))]
            elif name == "atomic_cas":
                ref, cmp, v = ins[0], ins[1], ins[2]
                out = [(yield from self.access("cas", ref[1], (), (cmp, v), inputs))]
            elif name == "while":
                cc, bc = p["cond_nconsts"], p["body_nconsts"]
                cj, bj = p["cond_jaxpr"], p["body_jaxpr"]
                cconst, bconst, carry = ins[:cc], ins[cc:cc + bc], ins[cc + bc:]
                while True:
                    c = yield from self.call(cj, cconst + carry, pid, inputs)
                    if not bool(c[0]):
                        break
                    carry = yield from self.call(bj, bconst + carry, pid, inputs)
                out = carry
            elif name == "cond":
                br = p["branches"]
                i = min(max(int(ins[0]), 0), len(br) - 1)
                out = yield from self.call(br[i], ins[1:], pid, inputs)
            elif name == "scan":
                assert not p["num_carry"] == -1 and len(eqn.outvars) == p["num_carry"], "scan outputs in a kernel"
                nc = p["num_consts"]
                assert len(ins) == nc + p["num_carry"], "scan inputs in a kernel"
                carry = ins[nc:]
                for _ in range(p["length"]):
                    carry = yield from self.call(p["jaxpr"], ins[:nc] + carry, pid, inputs)
                out = carry
            elif name in ("jit", "pjit", "closed_call", "core_call", "custom_jvp_call", "remat"):
                inner = p.get("jaxpr") or p.get("call_jaxpr")
                out = yield from self.call(inner, ins, pid, inputs)
            else:
                out = self.pure(eqn, name, ins)
            for v, o in zip(eqn.outvars, out):
                if type(v).__name__ != "DropVar":
                    env[v] = o
        return [val(a) for a in jaxpr.outvars]

    def call(self, closed, ins, pid, inputs):
        inner = getattr(closed, "jaxpr", closed)
        consts = getattr(closed, "consts", ())
        env = dict(zip(inner.constvars, consts))
        env.update(zip(inner.invars, ins))
        return (yield from self.run(inner, env, pid, inputs))

    def pure(self, eqn, name, ins):
        with np.errstate(over="ignore"):
            if name in NP2:
                return [NP2[name](ins[0], ins[1])]
            if name in NP1:
                x = np.asarray(ins[0])
                return [np.logical_not(x) if x.dtype == np.bool_ and name == "not" else NP1[name](x)]
            if name == "select_n":
                assert np.ndim(ins[0]) == 0
                return [ins[1 + int(ins[0])]]
            if name == "convert_element_type":
                return [np.asarray(ins[0]).astype(eqn.params["new_dtype"])]
            out = eqn.primitive.bind(*[jnp.asarray(i) for i in ins], **eqn.params)
            out = out if eqn.primitive.multiple_results else [out]
            return [np.asarray(o) for o in out]

    @staticmethod
    def unflat(t, ins):
        import jax.tree_util as tu

        return tu.tree_unflatten(t, ins)

    @classmethod
    def index(cls, t, flat):
        return cls.index_of(cls.unflat(t, flat))

    @staticmethod
    def index_of(transforms):
        tr = list(transforms)
        if not tr:
            return ()
        assert len(tr) == 1, "chained ref views in a kernel"
        idx = []
        for i in tr[0].indices:
            if hasattr(i, "start"):
                idx.append(("s", int(i.start), int(i.size), int(getattr(i, "stride", 1) or 1)))
            else:
                assert np.ndim(i) == 0, "vector indices in a kernel"
                idx.append(int(i))
        return tuple(idx)

    def access(self, kind, b, idx, v, inputs):
        if b not in self.mutable:
            assert kind == "read"
            a = inputs[b]
            return a[self.np_index(idx, a.shape)]
        if v is not None and kind != "cas":
            v = np.asarray(v)
        return (yield (kind, b, idx, v))

    @staticmethod
    def np_index(idx, shape):
        # JAX semantics: negative indices have been normalised by the tracer; what is out of range is an error here
        out = []
        for i, n in zip(idx, shape):
            if isinstance(i, tuple):
                _, s, k, st = i
                if s < 0 or s + (k - 1) * st >= n:
                    raise OutOfBounds(f"kernel accesses {i} of a dimension of {n}")
                out.append(slice(s, s + (k - 1) * st + 1, st))
            else:
                if i < 0 or i >= n:
                    raise OutOfBounds(f"kernel accesses element {i} of a dimension of {n}")
                out.append(i)
        return tuple(out)

    # -- all programs -----------------------------------------------------
    def call_for(self, pid, hist, inputs, ikey):
        """The next shared access of a program after reading `hist`, or None when it has ended."""
        k = (ikey, pid, hist)
        if k not in self.next:
            g = self.program(pid, inputs)
            try:
                req = next(g)
                for h in hist:
                    req = g.send(h[1])
                self.next[k] = req
            except StopIteration:
                self.next[k] = None
        return self.next[k]

    def outcomes(self, args):
        key = tuple(np.ascontiguousarray(a).tobytes() for a in args) + (CTX["relaxed"],)
        if key not in self.memo:
            self.memo[key] = self.search([np.asarray(a) for a in args])
        return self.memo[key]

    def search(self, inputs):
        st = CTX["stats"] or Stats()
        relaxed = CTX["relaxed"]
        st.kernels += 1
        ikey = tuple(inputs[b].tobytes() for b in range(self.n_in) if b not in self.mutable)
        P = int(np.prod(self.grid))
        init = {}
        for b in self.mutable:
            if b < self.n_in:
                init[b] = inputs[b]
            else:
                shape, dt = self.outs[b - self.n_in]
                init[b] = np.ones(shape, dt) if dt == np.bool_ else np.full(shape, 0xA5, np.uint8 if dt.itemsize == 1 else dt)
                init[b] = init[b].astype(dt)
        shapes = {b: (a.shape, a.dtype) for b, a in init.items()}
        # memory as dict buffer -> tuple of cells; in relaxed mode a cell is the tuple of values it has held
        mem0 = tuple(tuple((x,) if relaxed else x for x in init[b].ravel().tolist()) for b in self.mutable)
        pos = {b: i for i, b in enumerate(self.mutable)}
        flat = {b: np.arange(init[b].size).reshape(init[b].shape) for b in self.mutable}
        alone = None if relaxed else self.independent(P, mem0, pos, flat, shapes, inputs, ikey, st)
        if alone is not None:
            st.independent += 1
            st.outcomes += 1
            st.max_outcomes = max(st.max_outcomes, 1)
            outs = []
            for k, (shape, dt) in enumerate(self.outs):
                outs.append(np.array(alone[pos[self.buf[self.n_in + k]]], dtype=dt).reshape(shape))
            return [outs]
        start = (mem0, ((),) * P, ((),) * P)
        seen = {start}
        stack = [start]
        finals = set()
        while stack:
            mem, hists, views = stack.pop()
            ended = True
            for pid in range(P):
                req = self.call_for(pid, hists[pid], inputs, ikey)
                if req is None:
                    continue
                ended = False
                kind, b, idx, v = req
                shape, dt = shapes[b]
                cells = flat[b][self.np_index(idx, shape)]
                one = np.ndim(cells) == 0
                cl = [int(cells)] if one else [int(c) for c in cells.ravel()]
                for mem2, res, view2 in self.step(kind, mem, pos[b], b, cl, v, dt, one, views[pid], relaxed,
                                                  None if one else cells.shape):
                    h2 = hists[pid] + (Reply(res),)
                    s2 = (mem2, hists[:pid] + (h2,) + hists[pid + 1:], views[:pid] + (view2,) + views[pid + 1:])
                    st.transitions += 1
                    if s2 not in seen:
                        seen.add(s2)
                        stack.append(s2)
            if ended:
                finals.add(mem)
            if len(seen) > CTX["max_states"]:
                st.capped = True
                break
        st.states += len(seen)
        outs = []
        for mem in sorted(finals, key=repr):
            o = []
            for k, (shape, dt) in enumerate(self.outs):
                m = mem[pos[self.buf[self.n_in + k]]]
                o.append(np.array([c[-1] if relaxed else c for c in m], dtype=dt).reshape(shape))
            outs.append(o)
        # in relaxed mode different value histories can end in the same content
        uniq = {tuple(x.tobytes() for x in o): o for o in outs}
        outs = [uniq[k] for k in sorted(uniq)]
        st.outcomes += len(outs)
        st.max_outcomes = max(st.max_outcomes, len(outs))
        return outs

    def independent(self, P, mem, pos, flat, shapes, inputs, ikey, st):
        """Final memory if no two programs touch a common cell one of them writes, else None."""
        reads, writes = [], []
        out = list(mem)
        for pid in range(P):
            m, r, w = mem, set(), set()
            g = self.program(pid, inputs)
            try:
                req = next(g)
                for n in range(100001):
                    if n == 100000:
                        return None  # waits for another program
                    kind, b, idx, v = req
                    shape, dt = shapes[b]
                    cells = flat[b][self.np_index(idx, shape)]
                    one = np.ndim(cells) == 0
                    cl = [int(cells)] if one else [int(c) for c in cells.ravel()]
                    (r if kind == "read" else w).update((b, c) for c in cl)
                    (m, res, _), = self.step(kind, m, pos[b], b, cl, v, dt, one, (), False, None if one else cells.shape)
                    st.transitions += 1
                    st.states += 1
                    req = g.send(res)
            except StopIteration:
                pass
            reads.append(r)
            writes.append(w)
            for b, c in w:
                i = pos[b]
                if isinstance(out[i], tuple):
                    out[i] = list(out[i])
                out[i][c] = m[i][c]
        touched = {}
        for pid in range(P):
            for x in reads[pid] | writes[pid]:
                touched.setdefault(x, []).append(pid)
        for x, who in touched.items():
            if len(who) > 1 and any(x in writes[p] for p in who):
                return None
        return tuple(tuple(x) for x in out)

    def step(self, kind, mem, bi, b, cl, v, dt, one, view, relaxed, shape):
        buf = mem[bi]

        def newest(c):
            return buf[c][-1] if relaxed else buf[c]

        def arr(vals):
            a = np.array(vals, dtype=dt)
            return a[0] if one else a.reshape(shape)

        if kind == "read":
            if not relaxed:
                yield mem, arr([buf[c] for c in cl]), view
                return
            assert one, "relaxed vector reads"
            c = cl[0]
            seen = dict(view)
            lo = seen.get((b, c), 0)
            for i in range(lo, len(buf[c])):
                seen2 = dict(seen)
                seen2[(b, c)] = i
                yield mem, arr([buf[c][i]]), tuple(sorted(seen2.items()))
            return
        old = [newest(c) for c in cl]
        vv = None if kind == "cas" else np.broadcast_to(np.asarray(v, dt), (len(cl),) if one else shape).ravel()
        new = []
        for j, c in enumerate(cl):
            o = np.array(old[j], dt)[()]
            x = vv[j] if vv is not None else None
            with np.errstate(over="ignore"):
                if kind in ("write", "exchange", "xchg"):
                    n = x
                elif kind == "or":
                    n = o | x
                elif kind == "and":
                    n = o & x
                elif kind == "xor":
                    n = o ^ x
                elif kind == "add":
                    n = o + x
                elif kind in ("max", "umax"):
                    n = max(o, x)
                elif kind in ("min", "umin"):
                    n = min(o, x)
                elif kind == "cas":
                    cmp, nv = v
                    n = np.asarray(nv, dt)[()] if o == np.asarray(cmp, dt)[()] else o
                else:
                    raise NotImplementedError(kind)
            new.append(n.item())
        cells = list(buf)
        seen = dict(view)
        for j, c in enumerate(cl):
            if relaxed:
                if cells[c][-1] != new[j]:
                    cells[c] = cells[c] + (new[j],)
                seen[(b, c)] = len(cells[c]) - 1
            else:
                cells[c] = new[j]
        mem2 = mem[:bi] + (tuple(cells),) + mem[bi + 1:]
        yield mem2, (None if kind == "write" else arr(old)), (tuple(sorted(seen.items())) if relaxed else view)


class OutOfBounds(Exception):
    pass


class Reply(tuple):
    """What an access answered: compares by content."""

    def __new__(cls, res):
        key = None if res is None else (np.asarray(res).dtype.str, np.asarray(res).tobytes())
        return tuple.__new__(cls, (key, res))

    def __eq__(self, o):
        return self[0] == o[0]

    def __ne__(self, o):
        return self[0] != o[0]

    def __hash__(self):
        return hash(self[0])


def _callback(self, *args):
    outs = self.outcomes(args)
    i = CTX["pos"]
    CTX["pos"] += 1
    path = CTX["path"]
    CTX["options"].append(len(outs))
    choice = path[i] if i < len(path) else 0
    return outs[choice]
