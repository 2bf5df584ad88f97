"""Record classes generated from a table, for the value-level properties.

Each class is described by rows (field, dtype or class or "packed", inner
shape, active bits or None), so the harness knows the layout without asking the
library.  `from_bits` builds instances from raw bytes, one bit pattern per
record, which makes "every value" and "every single bit" enumerable for every
class; only the bits a field declares are ever set.
"""

import jax
import jax.numpy as jnp
import numpy as np

from xtructure import FieldDescriptor as F
from xtructure import xtructure_dataclass

SPECS = {}
ALL = {}


def mk(name, rows, **kw):
    ann = {}
    for f, dt, shape, bits in rows:
        if isinstance(dt, type) and dt in SPECS:
            ann[f] = F.tensor(dtype=dt, shape=shape) if shape else F.scalar(dtype=dt)
        elif dt == "packed":
            ann[f] = F.packed_tensor(shape=shape, packed_bits=bits)
        elif shape:
            ann[f] = F.tensor(dtype=dt, shape=shape, bits=bits)
        else:
            ann[f] = F.scalar(dtype=dt, bits=bits)
    cls = xtructure_dataclass(type(name, (), {"__annotations__": ann, "__module__": __name__}), **kw)
    SPECS[cls] = rows
    ALL[name] = cls
    globals()[name] = cls
    return cls


u8, u16, u32, i8, i16, i32 = jnp.uint8, jnp.uint16, jnp.uint32, jnp.int8, jnp.int16, jnp.int32
f16, bf16, f32, bl = jnp.float16, jnp.bfloat16, jnp.float32, jnp.bool_

ZBool = mk("ZBool", [("x", bl, (), None)])
ZU8 = mk("ZU8", [("x", u8, (), None)])
ZI8 = mk("ZI8", [("x", i8, (), None)])
ZU16 = mk("ZU16", [("x", u16, (), None)])
ZI16 = mk("ZI16", [("x", i16, (), None)])
ZF16 = mk("ZF16", [("x", f16, (), None)])
ZBF16 = mk("ZBF16", [("x", bf16, (), None)])
ZF32 = mk("ZF32", [("x", f32, (), None)])
ZI32 = mk("ZI32", [("x", i32, (), None)])
ZU32 = mk("ZU32", [("x", u32, (), None)])
ZF8 = mk("ZF8", [("x", jnp.float8_e4m3fn, (3,), None)])
ZTwo8 = mk("ZTwo8", [("a", u8, (), None), ("b", i8, (), None)])
ZSwap = mk("ZSwap", [("b", u16, (), None), ("a", u16, (), None)])
ZOdd = mk("ZOdd", [("v", u8, (5,), None), ("w", u16, (3,), None), ("z", bl, (2, 3), None)])
ZMat = mk("ZMat", [("m", i16, (2, 3), None), ("f", f32, (2,), None), ("h", f16, (3,), None), ("g", bf16, (), None)])
ZIn = mk("ZIn", [("p", i8, (2,), None), ("q", u32, (), None)])
ZNest = mk("ZNest", [("k", i32, (), None), ("n", ZIn, (), None), ("arr", ZIn, (2,), None), ("t", bl, (), None)])
ZDeep = mk("ZDeep", [("n", ZNest, (), None), ("u", u16, (1,), None)])
ZWide = mk("ZWide", [("w", u32, (9,), None), ("c", u8, (), None)])
# declared bit widths, stored unpacked
ZBits = mk("ZBits", [("a", bl, (5,), 1), ("b", u8, (3,), 3), ("c", u16, (2,), 12), ("d", u32, (), 20)])
# packed storage per field
ZPk = mk("ZPk", [("p", "packed", (13,), 1), ("q", "packed", (3, 2), 3), ("r", "packed", (2,), 12), ("n", u8, (), None)])
# whole-record packing: tails of 0, 1, 2 and 3+ bytes, fields crossing word boundaries, nesting
ZAg0 = mk("ZAg0", [("a", u8, (4,), 5), ("b", u16, (), 12)], aggregate_bitpack=True)
ZAg1 = mk("ZAg1", [("a", bl, (3,), 1), ("b", u32, (1,), 29), ("c", u8, (), 7)], aggregate_bitpack=True)
ZAg2 = mk("ZAg2", [("a", u16, (3,), 11), ("b", u8, (2, 2), 2)], aggregate_bitpack=True)
ZAg3 = mk("ZAg3", [("a", u32, (2,), 32), ("b", u8, (), 8), ("c", bl, (11,), 1)], aggregate_bitpack=True)
ZAgI = mk("ZAgI", [("x", u8, (2,), 4), ("y", bl, (), 1)], aggregate_bitpack=True)
ZAgN = mk("ZAgN", [("h", u16, (), 9), ("n", ZAgI, (), None), ("t", u32, (2,), 17)], aggregate_bitpack=True)
# fields without any element, and a class without any
ZHole = mk("ZHole", [("e", f32, (0,), None), ("x", u16, (), None), ("z", u8, (2, 0), None), ("t", bl, (), None)])
ZVoid = mk("ZVoid", [("e", u32, (0,), None), ("n", ZHole, (0,), None)])

# 64-bit fields exist only where a job enables them (JAX_ENABLE_X64)
WITH_64 = ["Z64U", "Z64I", "Z64F", "Z64Mix", "Z64Nest", "Z64Bits"]
if jax.config.jax_enable_x64:
    mk("Z64U", [("x", jnp.uint64, (), None)])
    mk("Z64I", [("x", jnp.int64, (2,), None)])
    mk("Z64F", [("x", jnp.float64, (2,), None)])
    _in = mk("Z64Mix", [("a", u8, (), None), ("b", jnp.int64, (), None), ("c", f32, (), None), ("d", jnp.float64, (), None)])
    mk("Z64Nest", [("k", u16, (), None), ("n", _in, (2,), None), ("t", jnp.uint64, (1, 2), None)])
    mk("Z64Bits", [("a", u32, (3,), 32), ("b", u8, (3,), 3), ("c", jnp.uint64, (), None)])


def is_cls(dt):
    return isinstance(dt, type) and dt in SPECS


def packed_len(shape, bits):
    """Documented size: whole bytes for 1, 2, 4 and 8 bits, whole lcm(bits, 8) blocks otherwise."""
    n = int(np.prod(shape)) * bits
    block = 8 if bits in (1, 2, 4, 8) else int(np.lcm(bits, 8))
    return -(-n // block) * block // 8


def leaves_of(cls, prefix=(), shape=()):
    """[(path, numpy dtype, full inner shape, active bits per element or None, packed?)] in declaration order."""
    out = []
    for f, dt, sh, bits in SPECS[cls]:
        if is_cls(dt):
            out += leaves_of(dt, prefix + (f,), shape + tuple(sh))
        elif dt == "packed":
            out.append((prefix + (f,), np.dtype(np.uint8), shape + (packed_len(sh, bits),), None, (tuple(sh), bits)))
        else:
            out.append((prefix + (f,), np.dtype(dt), shape + tuple(sh), bits, None))
    return out


def get(x, path):
    for p in path:
        x = getattr(x, p)
    return x


def build(cls, values, prefix=()):
    """Instance from {path: array}."""
    kw = {}
    for f, dt, sh, bits in SPECS[cls]:
        kw[f] = build(dt, values, prefix + (f,)) if is_cls(dt) else values[prefix + (f,)]
    return cls(**kw)


def live_bits(cls):
    """Positions (in the byte encoding used by from_bits) of the bits a record can have."""
    out, off = [], 0
    for path, dt, shape, bits, packed in leaves_of(cls):
        n, size = int(np.prod(shape, dtype=int)), dt.itemsize
        if packed:
            out += [off * 8 + b for b in range(int(np.prod(packed[0])) * packed[1])]
        else:
            w = 1 if dt == np.bool_ else (bits or size * 8)
            out += [(off + e * size) * 8 + b for e in range(n) for b in range(w)]
        off += n * size
    return out, off


def pattern(cls, positions):
    _, n = live_bits(cls)
    b = np.zeros(n * 8, np.uint8)
    b[list(positions)] = 1
    return np.packbits(b, bitorder="little")


def from_bits(cls, raw):
    """raw: uint8 (..., nbytes) -> instance batched like the leading axes, numpy leaves."""
    raw = np.ascontiguousarray(raw)
    vals, off = {}, 0
    for path, dt, shape, bits, packed in leaves_of(cls):
        n = int(np.prod(shape, dtype=int)) * dt.itemsize
        part = np.ascontiguousarray(raw[..., off:off + n])
        vals[path] = (part.astype(np.bool_) if dt == np.bool_ else part.view(dt)).reshape(raw.shape[:-1] + shape)
        off += n
    return build(cls, vals)


def to_bits(cls, x):
    """Inverse of from_bits: uint8 (..., nbytes)."""
    out = []
    for path, dt, shape, bits, packed in leaves_of(cls):
        a = np.asarray(get(x, path)).copy(order="C")
        assert a.dtype == dt, f"{path} has dtype {a.dtype} instead of {dt}"
        lead = a.shape[:a.ndim - len(shape)]
        assert a.shape[len(lead):] == tuple(shape), f"{path} has shape {a.shape}, inner shape {shape} expected"
        out.append(a.reshape(lead + (-1,)).view(np.uint8).reshape(lead + (-1,)) if a.size else
                   np.zeros(lead + (int(np.prod(shape, dtype=int)) * dt.itemsize,), np.uint8))
    return np.concatenate(out, axis=-1)


def jn(x):
    return jax.tree_util.tree_map(jnp.asarray, x)


def bases(cls):
    """A few base records as sets of bit positions: empty, full, two stripes, a sparse one."""
    live, _ = live_bits(cls)
    return [[], live, live[::2], live[1::2], live[::3]]
