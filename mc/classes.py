"""Value classes the harnesses store, and a boring way to make distinct values.

`make(cls, tokens)` turns an integer array of tokens into an instance batched
like the tokens; different tokens differ in every field wide enough to tell
them apart, and token -1 is the class's default value (what empty storage is
filled with), so an element mistaken for an empty slot shows.
"""

import zlib

import jax
import jax.numpy as jnp
import numpy as np

from xtructure import FieldDescriptor as F
from xtructure import xtructure_dataclass


@xtructure_dataclass
class Scalar:
    x: F.scalar(dtype=jnp.uint32)


@xtructure_dataclass
class Byte:
    b: F.scalar(dtype=jnp.uint8)


@xtructure_dataclass
class Pair:
    a: F.scalar(dtype=jnp.uint8)
    b: F.scalar(dtype=jnp.uint32)


@xtructure_dataclass
class Vec:
    v: F.tensor(dtype=jnp.uint16, shape=(3,))


@xtructure_dataclass
class Inner:
    p: F.scalar(dtype=jnp.int16)
    q: F.tensor(dtype=jnp.bool_, shape=(2,))


@xtructure_dataclass
class Mixed:
    f: F.scalar(dtype=jnp.float32)
    n: F.scalar(dtype=Inner)
    t: F.tensor(dtype=jnp.uint8, shape=(2, 2))


@xtructure_dataclass
class Nest2:
    # two levels of nesting and a nested field that has its own intrinsic shape
    m: F.scalar(dtype=Mixed)
    arr: F.tensor(dtype=Inner, shape=(2,))
    k: F.scalar(dtype=jnp.int32)


@xtructure_dataclass
class Wide:
    # more 32-bit words than the table's exact in-batch sort handles without signatures
    w: F.tensor(dtype=jnp.uint32, shape=(12,))


@xtructure_dataclass
class Tri:
    t: F.tensor(dtype=jnp.uint32, shape=(3,))


@xtructure_dataclass
class Parts:
    # fields that do not start on word boundaries
    a: F.scalar(dtype=jnp.uint16)
    b: F.tensor(dtype=jnp.uint8, shape=(7,))
    c: F.tensor(dtype=jnp.uint32, shape=(2,))


@xtructure_dataclass
class Long:
    # 64-bit fields (they are 32-bit unless the job enables 64-bit types)
    i: F.scalar(dtype=jnp.int64 if jax.config.jax_enable_x64 else jnp.int32)
    u: F.tensor(dtype=jnp.uint64 if jax.config.jax_enable_x64 else jnp.uint32, shape=(2,))
    f: F.scalar(dtype=jnp.float64 if jax.config.jax_enable_x64 else jnp.float32)
    b: F.scalar(dtype=jnp.bool_)


@xtructure_dataclass
class Hole:
    # fields without any element
    e: F.tensor(dtype=jnp.float32, shape=(0,))
    x: F.scalar(dtype=jnp.uint32)
    z: F.tensor(dtype=jnp.uint8, shape=(2, 0))


X64 = bool(jax.config.jax_enable_x64)
# (name, dtype, shape) per field; dtype may be another class
SPEC = {
    Scalar: [("x", np.uint32, ())],
    Byte: [("b", np.uint8, ())],
    Pair: [("a", np.uint8, ()), ("b", np.uint32, ())],
    Vec: [("v", np.uint16, (3,))],
    Inner: [("p", np.int16, ()), ("q", np.bool_, (2,))],
    Mixed: [("f", np.float32, ()), ("n", Inner, ()), ("t", np.uint8, (2, 2))],
    Wide: [("w", np.uint32, (12,))],
    Long: [("i", np.int64 if X64 else np.int32, ()), ("u", np.uint64 if X64 else np.uint32, (2,)),
           ("f", np.float64 if X64 else np.float32, ()), ("b", np.bool_, ())],
    Hole: [("e", np.float32, (0,)), ("x", np.uint32, ()), ("z", np.uint8, (2, 0))],
    Tri: [("t", np.uint32, (3,))],
    Parts: [("a", np.uint16, ()), ("b", np.uint8, (7,)), ("c", np.uint32, (2,))],
    Nest2: [("m", Mixed, ()), ("arr", Inner, (2,)), ("k", np.int32, ())],
}
DEFAULTS = {np.dtype(np.uint8): 255, np.dtype(np.uint16): 65535, np.dtype(np.uint32): 0xFFFFFFFF,
            np.dtype(np.int16): 0, np.dtype(np.int32): 0, np.dtype(np.int8): 0,
            np.dtype(np.bool_): False, np.dtype(np.float32): np.inf, np.dtype(np.float64): np.inf,
            np.dtype(np.uint64): 0xFFFFFFFFFFFFFFFF, np.dtype(np.int64): 0}
BY_NAME = {c.__name__: c for c in SPEC}


def leaf_values(dtype, tokens, shape, path):
    """Values of one field for every token: shape tokens.shape + shape."""
    dtype = np.dtype(dtype)
    h = zlib.crc32(path.encode()) & 0xFFFF
    t = np.asarray(tokens, dtype=np.int64).reshape(np.shape(tokens) + (1,) * len(shape))
    e = np.arange(int(np.prod(shape, dtype=np.int64)), dtype=np.int64).reshape(shape)
    raw = t * (2 * (h % 50) + 1) + e * (11 + 2 * (h % 5)) + h % 97
    if dtype == np.bool_:
        val = ((t >> (e % 3)) & 1).astype(np.bool_)
    elif dtype == np.float64:
        # neighbouring tokens differ beyond single precision only
        val = 1.0 + (raw % 4096) * 2.0 ** -40
    elif dtype.itemsize == 8:
        # neighbouring tokens differ in the upper half only, or in both
        val = ((raw % 512) << 32 | (raw // 512 if dtype.kind == "i" else raw)).astype(np.uint64).astype(dtype)
    elif dtype.kind == "f":
        val = ((raw % 512).astype(np.float64) / 8.0).astype(dtype)
    elif dtype == np.uint32:
        # use the high bits as well
        val = ((raw * 0x01010101) & 0xFFFFFFFF).astype(np.uint32)
    else:
        bits = dtype.itemsize * 8
        val = (raw & ((1 << bits) - 1)).astype(f"uint{bits}").astype(dtype)
    default = np.full(val.shape, DEFAULTS[dtype], dtype=dtype)
    return np.where(np.broadcast_to(t == -1, val.shape), default, val)


def make(cls, tokens, path=""):
    """Instance (numpy leaves) of `cls`, batched like `tokens`."""
    tokens = np.asarray(tokens)
    kw = {}
    for name, dtype, shape in SPEC[cls]:
        p = f"{path}.{name}"
        if dtype in SPEC:
            if shape:
                e = np.arange(int(np.prod(shape))).reshape(shape)
                t = tokens.reshape(tokens.shape + (1,) * len(shape))
                sub = np.where(t == -1, -1, t * (2 * int(np.prod(shape)) + 1) + e)
                kw[name] = make(dtype, sub, p)
            else:
                kw[name] = make(dtype, tokens, p)
        else:
            kw[name] = leaf_values(dtype, tokens, shape, p)
    return cls(**kw)


def make_jnp(cls, tokens):
    return jax.tree_util.tree_map(jnp.asarray, make(cls, tokens))


def leaves_np(x):
    return [np.asarray(l) for l in jax.tree_util.tree_leaves(x)]


def same_bits(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def same_tree(x, y):
    lx, ly = leaves_np(x), leaves_np(y)
    return len(lx) == len(ly) and all(same_bits(a, b) for a, b in zip(lx, ly))


def show(x):
    return [np.asarray(l).tolist() for l in jax.tree_util.tree_leaves(x)]
