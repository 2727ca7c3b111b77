"""Rooted trees up to order 5 and the elementary weights of one-step methods
(exact rational arithmetic)."""
from fractions import Fraction
from functools import lru_cache


@lru_cache(None)
def trees(n):
    """rooted trees with n nodes; a tree is a sorted tuple of its subtrees"""
    if n == 1:
        return ((),)
    out = set()

    def parts(m, mx):
        if m == 0:
            yield ()
            return
        for k in range(min(m, mx), 0, -1):
            for t in trees(k):
                for r in parts(m - k, k):
                    yield tuple(sorted((t,) + r))
    for p in parts(n - 1, n - 1):
        out.add(p)
    return tuple(sorted(out))


def size(t):
    return 1 + sum(size(s) for s in t)


def density(t):
    g = size(t)
    for s in t:
        g *= density(s)
    return g


def upto(p):
    return [t for n in range(1, p + 1) for t in trees(n)]


def name(t):
    return "[" + "".join(name(s) for s in t) + "]"


def rk_weight(t, A, b):
    """elementary weight sum_i b_i Phi_i(t) of a Runge-Kutta method, and the sum
    of absolute values of its terms"""
    ns = len(b)

    def phi(t):
        v = [1] * ns
        w = [1] * ns
        for s in t:
            p, q = phi(s)
            for i in range(ns):
                v[i] *= sum(A[i][j] * p[j] for j in range(ns))
                w[i] *= sum(abs(A[i][j]) * q[j] for j in range(ns))
        return v, w
    p, q = phi(t)
    return sum(b[i] * p[i] for i in range(ns)), sum(abs(b[i]) * q[i] for i in range(ns))
