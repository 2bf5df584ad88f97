"""Shared pieces of the sequence-container harnesses (queue, stack)."""
from __future__ import annotations

from functools import lru_cache

import jax
import numpy as np

from mc.classes import BY_NAME, leaves_np, make


@lru_cache(maxsize=200000)
def expected(cls, tokens):
    """Leaves of the instance holding these tokens (int -> unbatched, tuple -> batch)."""
    return tuple(leaves_np(make(cls, np.asarray(tokens, dtype=np.int64))))


def diff(cls, tokens, got, what):
    """None if pytree `got` is bit-identical to the values of `tokens`."""
    exp = expected(cls, tokens)
    obs = jax.tree_util.tree_leaves(got)
    if len(exp) != len(obs):
        return f"{what}: {len(obs)} fields instead of {len(exp)}"
    for e, o in zip(exp, obs):
        o = np.asarray(o)
        if o.dtype != e.dtype or o.shape != e.shape or o.tobytes() != e.tobytes():
            return (f"{what}: expected values of tokens {tokens}, i.e. {e.tolist()} "
                    f"({e.dtype}{list(e.shape)}), got {o.tolist()} ({o.dtype}{list(o.shape)})")
    return None


def pick(ids, n):
    """About n state ids, spread deterministically over the search."""
    ids = list(ids)
    if len(ids) <= n:
        return ids
    step = len(ids) / n
    return sorted({ids[int(i * step)] for i in range(n)} | {ids[-1]})


def cls_of(name):
    return BY_NAME[name]
