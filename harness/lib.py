"""Helpers shared by the harnesses (work in symbolic and in concrete mode)."""
import hashlib
import itertools

import numpy as np

from symx.arr import SymArray, sym
from symx.core import S, SymBool, ball, band, bany, bnot, bor  # noqa: F401


def arr(c, x):
    """Array of the mode's element type from nested lists / ndarray."""
    if c.symbolic:
        a = np.array(x, dtype=object)
        for i, v in np.ndenumerate(a):
            if type(v) in (float, int):
                a[i] = np.float64(v)
        return a.view(SymArray)
    return np.array(x, dtype=float)


def zeros(c, *shape):
    if c.symbolic:
        a = np.empty(shape, dtype=object)
        a.fill(np.float64(0.0))
        return a.view(SymArray)
    return np.zeros(shape)


def dag(c, name, n, order=None, nonzero=False, zero=()):
    """Adjacency matrix whose entries [i, j] are symbolic for j before i in `order`."""
    order = list(order) if order is not None else list(range(n))
    B = zeros(c, n, n)
    for a in range(n):
        for b in range(a):
            i, j = order[a], order[b]
            if (i, j) in zero:
                continue
            B[i, j] = c.real(f"{name}{i}_{j}", nonzero=nonzero)
    return B


def matrix(c, name, rows, cols, zero=(), **kw):
    B = zeros(c, rows, cols)
    for i in range(rows):
        for j in range(cols):
            if (i, j) not in zero:
                B[i, j] = c.real(f"{name}{i}_{j}", **kw)
    return B


def isnan(v):
    return isinstance(v, float) and v != v


def absv(v):
    return abs(v)


def snapshot(a):
    """Elements of an array, to detect later mutation."""
    return list(np.ndarray.ravel(np.asarray(a).view(np.ndarray)).tolist())


def same(u, v):
    """Syntactic sameness of two elements (NaN equal to NaN)."""
    if isinstance(u, S) or isinstance(v, S):
        if u is v:
            return True
        return isinstance(u, S) and isinstance(v, S) and u.n == v.n and u.q == v.q
    if isnan(u) and isnan(v):
        return True
    return u == v


def check_unmutated(c, a, snap, what):
    now = snapshot(a)
    c.check(len(now) == len(snap) and all(same(x, y) for x, y in zip(now, snap)), what)


def topo_ok(edges, n):
    """True if the directed graph (list of (from, to)) is acyclic."""
    adj = {i: set() for i in range(n)}
    for f, t in edges:
        adj[f].add(t)
    seen, done = set(), set()

    def visit(u):
        if u in done:
            return True
        if u in seen:
            return False
        seen.add(u)
        for w in adj[u]:
            if not visit(w):
                return False
        done.add(u)
        return True
    return all(visit(u) for u in range(n))


def mat_total(c, B, n):
    """I + B + B^2 + ... + B^(n-1): total effects of a DAG."""
    def mul(A, C):
        R = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                s = 0.0
                for k in range(n):
                    x, y = A[i][k], C[k][j]
                    if (not isinstance(x, S) and x == 0) or (not isinstance(y, S) and y == 0):
                        continue
                    s = s + x * y
                R[i][j] = s
        return R
    M = [[B[i, j] for j in range(n)] for i in range(n)]
    P = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    T = [row[:] for row in P]
    for _ in range(n - 1):
        P = mul(P, M)
        T = [[T[i][j] + P[i][j] for j in range(n)] for i in range(n)]
    return T


def perms(n):
    return [list(p) for p in itertools.permutations(range(n))]


def all_simple_paths(has, n, src, dst):
    """All simple directed paths src -> dst; has(i, j) is True if j -> i."""
    out = []

    def go(path):
        u = path[-1]
        if u == dst:
            out.append(list(path))
            return
        for w in range(n):
            if w not in path and has(w, u):
                go(path + [w])
    go([src])
    return out


def raises(fn, exc=Exception):
    """(value, None) or (None, exception)."""
    try:
        return fn(), None
    except exc as e:
        return None, e


def gap(c, v, eps=1e-6):
    """Assume a coefficient is exactly zero or clearly nonzero (the code uses absolute tolerances)."""
    c.assume(bor(v == 0, bor(v > eps, v < -eps)))
    return v


def gapdag(c, name, n, order=None, zero=()):
    B = dag(c, name, n, order, zero=zero)
    for i in range(n):
        for j in range(n):
            if isinstance(B[i, j], S) or not c.symbolic:
                gap(c, B[i, j])
    return B


def part(c, name, n, order, sym=(), zero=()):
    """A larger DAG: fixed nonzero coefficients, symbolic ones at the positions (a, b) of the order in `sym`
    (order[b] -> order[a]) and no edge at those in `zero`."""
    B = zeros(c, n, n)
    for a in range(n):
        for b in range(a):
            i, j = order[a], order[b]
            if (a, b) in sym:
                B[i, j] = c.real(f"{name}{i}_{j}")
            elif (a, b) not in zero:
                B[i, j] = ((3 * a + 5 * b) % 7 + 1) / 8.0 * (-1) ** (a + b)
    return B


def sparse(c, name, n, dens, seed, sym, order=None):
    """A larger matrix: fixed coefficients at a share `dens` of the entries (of those that agree with `order`, if given)
    and symbolic ones at `sym`."""
    B = zeros(c, n, n)
    pos = None if order is None else {v: k for k, v in enumerate(order)}
    for i in range(n):
        for j in range(n):
            u, v = dice(seed, (i, j))
            if i != j and u < dens and (pos is None or pos[j] < pos[i]):
                B[i, j] = round((1 + 3 * v) * 8) / 8.0 * (1 if u < dens / 2 else -1)
    for i, j in sym:
        B[i, j] = c.real(f"{name}{i}_{j}")
    return B


def dice(seed, k):
    """Two fixed pseudo-random numbers in [0, 1) for a key."""
    h = hashlib.md5(f"{seed}/{k}".encode()).digest()
    return h[0] / 256, h[1] / 256
