"""long inputs: numbers everywhere except at a few symbolic positions; integer-typed inputs"""
import math
import numpy as np


def number(i, k=0, lo=0.5, hi=1.5):
    """a fixed, irregular number in [lo, hi]"""
    u = math.sin(12.9898 * (i + 1) + 78.233 * (k + 1)) * 43758.5453
    return lo + (hi - lo) * round(u - math.floor(u), 6)


def spots(n): return (0, 1, n // 2, n - 1)


def mixed(env, name, n, k, lo=0.5, hi=1.5, at=None, **facts):
    """n values in [lo, hi] (pos or arbitrary facts at the symbolic positions)"""
    at = spots(n) if at is None else at
    f = facts or dict(lo=lo, hi=hi)
    return [env.real(f'{name}[{i}]', **f) if i in at else number(i, k, lo, hi) for i in range(n)]


def ints(n, k, lo, hi, dtype='int64'):
    """fixed irregular integers as a real integer-typed array"""
    return np.array([int(round(number(i, k, lo, hi))) for i in range(n)], dtype=dtype)
