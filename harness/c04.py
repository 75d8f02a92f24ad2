"""C04: directed paths and total effects of an adjacency matrix."""
import math

import lingam
from lingam.utils import calculate_total_effect, find_all_paths
from symx.run import harness

from .lib import *  # noqa: F401,F403
from .lib import same, all_simple_paths, arr, dag, isnan, mat_total, perms, raises, zeros

META = {
    "bounds": "n_features 3 (every causal order, every from/to pair) and 4 (six orders; thorough: all 24, and 5 "
              "with two orders), and sparse patterns over 6, 7 and 12 variables with 4-5 symbolic coefficients; all real coefficients, thresholds >= 0, up to one unknown-direction (NaN) pair",
    "outside": "more variables; cyclic matrices",
}


def cfgs(tier):
    out = []
    for p in perms(3):
        out.append(dict(n=3, order=p, nan=None))
    for p in [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2], [2, 0, 3, 1]] + (perms(4) if tier == "thorough" else []):
        out.append(dict(n=4, order=p, nan=None))
    out.append(dict(n=4, order=[1, 0, 3, 2], nan=(0, 1)))
    out.append(dict(n=4, order=[2, 3, 1, 0], nan=(3, 1)))
    if tier == "thorough":
        out.append(dict(n=5, order=[3, 0, 4, 1, 2], nan=None))
    return out


CFG = {"quick": cfgs("quick"), "thorough": cfgs("thorough")}


@harness("C04", CFG)
def paths(c, cfg):
    n, order = cfg["n"], cfg["order"]
    B = dag(c, "b", n, order)
    if cfg["nan"]:
        i, j = cfg["nan"]
        B[i, j] = math.nan
        B[j, i] = math.nan
    m = c.real("min", lo=0)
    snap = [[B[i, j] for j in range(n)] for i in range(n)]
    for a in range(n):
        for b in range(n):
            if a == b:
                continue
            got, eff = find_all_paths(B, a, b, m)

            def has(i, j):
                v = snap[i][j]
                return not isnan(v) and bool(abs(v) > m)
            exp = all_simple_paths(has, n, a, b)
            gl = [[int(x) for x in p] for p in got]
            c.check(sorted(gl) == sorted(exp), f"paths {a}->{b}: got {gl}, expected {exp}")
            c.check(len(eff) == len(gl), "one effect per path")
            for p, e in zip(gl, eff):
                prod = 1.0
                for u, v in zip(p, p[1:]):
                    prod = prod * snap[v][u]
                c.check_eq(e, prod, f"effect of path {p}")
            # default threshold 0: exactly the nonzero coefficients
    a, b = order[0], order[-1]
    got, _ = find_all_paths(B, a, b)
    exp = all_simple_paths(lambda i, j: not isnan(snap[i][j]) and bool(snap[i][j] != 0), n, a, b)
    c.check(sorted([[int(x) for x in p] for p in got]) == sorted(exp), "paths with the default threshold")
    for i in range(n):
        for j in range(n):
            c.check(same(B[i, j], snap[i][j]), "the matrix is not modified")


@harness("C04", CFG)
def total(c, cfg):
    n, order = cfg["n"], cfg["order"]
    B = dag(c, "b", n, order)
    Bz = B.copy()
    if cfg["nan"]:
        i, j = cfg["nan"]
        Bz[i, j] = Bz[j, i] = 0.0
        B[i, j] = B[j, i] = math.nan
    T = mat_total(c, Bz, n)
    for a in range(n):
        for b in range(n):
            if a != b:
                c.check_eq(calculate_total_effect(B, a, b), T[b][a], f"total effect {a}->{b}")
    r, e = raises(lambda: calculate_total_effect(B, 0, 0))
    c.check(isinstance(e, ValueError), "from == to is rejected")


# larger graphs: a fixed sparse pattern, some coefficients symbolic, the others fixed
BIG = [dict(n=12, edges=[(10, 0), (11, 10), (1, 11), (2, 1), (2, 10), (9, 11), (2, 9), (3, 4), (5, 3), (2, 5), (10, 4)],
            sym=[(10, 0), (11, 10), (2, 10), (1, 11), (2, 9)], ends=[(0, 2), (4, 2), (10, 2), (2, 0), (0, 11)]),
       dict(n=6, edges=[(i, j) for i in range(6) for j in range(i)], sym=[(5, 0), (3, 1), (4, 2), (5, 4)],
            ends=[(0, 5), (1, 4), (0, 3), (3, 1)]),
       dict(n=7, edges=[(j, i) for i in range(7) for j in range(i) if (i + j) % 3 < 2], sym=[(0, 3), (1, 5), (0, 6), (2, 6)],
            ends=[(6, 0), (5, 0), (6, 1), (3, 0)])]


@harness("C04", BIG)
def larger(c, cfg):
    n = cfg["n"]
    B = zeros(c, n, n)
    for i, j in cfg["edges"]:
        B[i, j] = c.real(f"b{i}_{j}") if (i, j) in cfg["sym"] else ((3 * i + 5 * j) % 7 + 1) / 4.0 * (-1) ** (i + j)
    T = mat_total(c, B, n)
    m = c.real("min", lo=0)
    for a, b in cfg["ends"]:
        for thr in (0, m):
            got, eff = find_all_paths(B, a, b, thr)
            gl = [[int(x) for x in p] for p in got]
            exp = all_simple_paths(lambda i, j: bool(abs(B[i, j]) > thr) if (i, j) in cfg["edges"] else False, n, a, b)
            c.check(sorted(gl) == sorted(exp), f"paths {a}->{b}: got {gl}, expected {exp}")
            for p, e in zip(gl, eff):
                prod = 1.0
                for u, v in zip(p, p[1:]):
                    prod = prod * B[v, u]
                c.check_eq(e, prod, f"effect of path {p}")
        c.check_eq(calculate_total_effect(B, a, b), T[b][a], f"total effect {a}->{b}")


@harness("C04", {"quick": [dict(n=3, order=[1, 2, 0]), dict(n=4, order=[2, 0, 3, 1])],
                 "thorough": [dict(n=3, order=p) for p in perms(3)] + [dict(n=4, order=[2, 0, 3, 1])]})
def discrete(c, cfg):
    """A discrete variable on a path (other than its start) is rejected."""
    n, order = cfg["n"], cfg["order"]
    B = dag(c, "b", n, order)
    cont = [bool(c.choose(f"cont{i}", 2)) for i in range(n)]
    T = mat_total(c, B, n)
    a, b = order[0], order[-1]
    for a, b in ((order[0], order[-1]), (order[1], order[-1])):
        r, e = raises(lambda: calculate_total_effect(B, a, b, is_continuous=cont))
        exp = all_simple_paths(lambda i, j: bool(B[i, j] != 0), n, a, b)
        bad = any(not cont[v] for p in exp for v in p[1:])
        c.check((e is not None) == bad, f"rejection iff a discrete variable is on a path ({exp}, {cont})")
        if not bad:
            c.check_eq(r, T[b][a], "total effect with continuity flags")
