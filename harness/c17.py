"""C17: descriptions derived from an adjacency matrix (fit model, roots, sinks, distances)."""
import math
import types

import networkx as nx
import numpy as np
import pandas as pd
import semopy

from lingam.utils import (calculate_distance_from_root_nodes, evaluate_model_fit, get_exo_variables,
                          get_sink_variables)
from symx.run import harness

from .lib import arr, bor, check_unmutated, dag, gap, isnan, matrix, raises, snapshot, topo_ok, zeros, sparse

META = {
    "bounds": "3 variables with every entry symbolic (diagonal included for sink/exogenous), 4 variables with symbolic "
              "DAG patterns, 6-12 variables with 2-5 symbolic coefficients; up to two unknown-direction pairs; every ordinal flag pattern; every max_distance",
    "outside": "more variables; the numerical fit itself (semopy is a recorder)",
    "assumptions": ["coefficients are 0 or above 1e-6 in absolute value where the code applies a tolerance",
                    "semopy receives the model description and the data; its own statistics are not modelled"],
}


class Proxy(types.ModuleType):
    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__.update(_real=real, **over)

    def __getattr__(self, k):
        return getattr(self._real, k)


def from_numpy_array(A, *args, **kw):
    if getattr(A, "dtype", None) == object:
        m = np.array([[bool(v != 0) for v in r] for r in A.tolist()], dtype=float)
        G = nx.from_numpy_array(m, *args, **kw)
        for u, v, d in G.edges(data=True):
            d["weight"] = A[u, v]
        return G
    return nx.from_numpy_array(A, *args, **kw)


def nxenv(c, cfg):
    return [(nx, Proxy(nx, from_numpy_array=from_numpy_array)),
            (nx.from_numpy_array, from_numpy_array)] if c.symbolic else []


BIG = [dict(n=6, dens=0.2, seed=1, sym=[(1, 0), (5, 2), (3, 4)]), dict(n=12, dens=0.12, seed=2, sym=[(10, 1), (0, 11), (4, 4)]),
       dict(n=12, dens=0.04, seed=3, sym=[(11, 10), (2, 11), (10, 0)]), dict(n=7, dens=0, seed=4, sym=[(0, 6), (6, 3), (5, 0)])]


def whole(c, cfg):
    if "dens" in cfg:
        B = sparse(c, "b", cfg["n"], cfg["dens"], cfg["seed"], cfg["sym"], cfg.get("order"))
    else:
        B = matrix(c, "b", cfg["n"], cfg["n"], zero=cfg.get("zero", ()))
    return B


@harness("C17", [dict(n=2), dict(n=3)] + BIG)
def sink_exo(c, cfg):
    n = cfg["n"]
    B = whole(c, cfg)
    snap = snapshot(B)
    s, e = get_sink_variables(B), get_exo_variables(B)
    check_unmutated(c, B, snap, "the matrix is not modified")
    zero = lambda v: bool(v == 0)  # noqa: E731
    es = [j for j in range(n) if all(zero(B[i, j]) for i in range(n) if i != j)]
    ee = [i for i in range(n) if all(zero(B[i, j]) for j in range(n) if i != j)]
    c.check([int(x) for x in s] == es, f"sinks {s}, expected {es}")
    c.check([int(x) for x in e] == ee, f"exogenous {e}, expected {ee}")


DZ = [dict(n=3, order=[0, 1, 2], nan=[], cyc=[]), dict(n=3, order=[2, 0, 1], nan=[(1, 0)], cyc=[]),
      dict(n=3, order=[1, 2, 0], nan=[], cyc=[(1, 0)]),
      dict(n=4, order=[3, 1, 0, 2], nan=[], cyc=[]), dict(n=4, order=[1, 0, 3, 2], nan=[(3, 0)], cyc=[])]


O12 = [7, 11, 3, 0, 10, 5, 8, 1, 6, 2, 9, 4]
DZ += [dict(n=6, dens=0.25, seed=5, order=[5, 2, 0, 4, 1, 3], sym=[(0, 5), (4, 0), (3, 1)], nan=[], cyc=[]),
       dict(n=6, dens=0, seed=5, order=[5, 2, 0, 4, 1, 3], sym=[(2, 5), (0, 2), (4, 0), (1, 4), (3, 1)], nan=[], cyc=[]),
       dict(n=12, dens=0.15, seed=6, order=O12, sym=[(11, 7), (10, 11), (2, 10)], nan=[(9, 4)], cyc=[]),
       dict(n=12, dens=0.08, seed=7, order=O12, sym=[(3, 11), (1, 10), (4, 9)], nan=[(10, 2), (11, 7)], cyc=[(7, 4)])]


@harness("C17", DZ, env=nxenv)
def distance(c, cfg):
    n = cfg["n"]
    B = whole(c, cfg) if "dens" in cfg else dag(c, "b", n, cfg["order"])
    for i, j in cfg["cyc"]:
        B[i, j] = c.real(f"b{i}_{j}")
    for i in range(n):
        for j in range(n):
            gap(c, B[i, j])
    for i, j in cfg["nan"]:
        B[i, j] = B[j, i] = math.nan
    md = [None, 1, 2, 3, 4][c.choose("max", 3 if n < 5 else 5)]
    snap = snapshot(B)
    r, ex = raises(lambda: calculate_distance_from_root_nodes(B, md))
    check_unmutated(c, B, snap, "the matrix is not modified")
    E = {(j, i) for i in range(n) for j in range(n) if not isnan(B[i, j]) and bool(B[i, j] != 0)}
    roots = [i for i in range(n) if not any(t == i for _, t in E)]
    c.check((ex is not None) == (not roots), f"fails iff there is no root: {ex!r} {sorted(E)}")
    if ex is not None:
        return
    dist = {i: 0 for i in roots}
    st = list(roots)
    while st:
        u = st.pop(0)
        for f, t in sorted(E):
            if f == u and t not in dist:
                dist[t] = dist[u] + 1
                st.append(t)
    exp = {}
    for v, d in dist.items():
        if md is None or d <= md:
            exp.setdefault(d, []).append(v)
    got = {int(k): sorted(int(x) for x in v) for k, v in r.items()}
    c.check(got == {k: sorted(v) for k, v in exp.items()}, f"distances {got}, expected {exp} for edges {sorted(E)}")


CAP = {}


def semenv(c, cfg):
    CAP.clear()

    class Model:
        def __init__(self, desc, *a, **k):
            CAP.update(desc=desc, fits=[])

        def fit(self, data, *a, **k):
            CAP["fits"].append(data)

        def load_dataset(self, data, *a, **k):
            CAP["fits"].append(data)

    def calc_stats(m, *a, **k):
        CAP["stats_model"] = m
        return "STATS"
    return [(semopy, Proxy(semopy, Model=Model, calc_stats=calc_stats))]


def parse_desc(d):
    eqs, defs = {}, {}
    for line in d.splitlines():
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        if line.startswith("DEFINE("):
            k = line[7:line.index(")")]
            defs.setdefault(k, []).extend(line[line.index(")") + 1:].split())
        else:
            lhs, rhs = line.split("~", 1)
            eqs.setdefault(lhs.strip(), []).extend(
                tuple(p.strip() for p in t.split("*")) for t in rhs.split("+"))
    return eqs, defs


F = [dict(n=3, zero=[(0, 0), (1, 1), (2, 2)], nan=[]), dict(n=3, zero=[(0, 0), (1, 1), (2, 2)], nan=[(0, 2)]),
     dict(n=3, zero=[(0, 0), (1, 1), (2, 2)], nan=[(0, 1), (1, 2)]),
     dict(n=4, zero=[(i, j) for i in range(4) for j in range(4) if i <= j], nan=[(3, 0)])]


F += [dict(n=12, dens=0.1, seed=8, sym=[(10, 1), (1, 11), (11, 2)], nan=[(10, 2), (11, 0), (11, 10)], ord=[1, 10]),
      dict(n=6, dens=0.3, seed=9, order=[3, 5, 0, 2, 1, 4], sym=[(4, 5), (0, 3)], nan=[], ord=[0, 5]),
      dict(n=6, dens=0.1, seed=9, order=[3, 5, 0, 2, 1, 4], sym=[(4, 5), (0, 3)], nan=[(5, 0), (5, 3), (2, 3), (1, 4)], ord=[])]


@harness("C17", F, env=semenv)
def fit_model(c, cfg):
    n = cfg["n"]
    B = whole(c, cfg)
    for i in range(n):
        for j in range(n):
            gap(c, B[i, j])
            # the description prints six decimals
            c.assume(bor(B[i, j] == 0, bor(B[i, j] > 1e-3, B[i, j] < -1e-3)))
    for i, j in cfg["nan"]:
        B[i, j] = B[j, i] = math.nan
    ordn = [c.choose(f"ord{i}", 2) for i in range(n)] if n == 3 else [int(i in cfg.get("ord", (1, 3))) for i in range(n)]
    X = np.arange(5.0 * n).reshape(5, n) + 0.5
    snap = snapshot(B)
    io = ordn if any(ordn) else None
    r = evaluate_model_fit(B, X, is_ordinal=io)
    check_unmutated(c, B, snap, "the matrix is not modified")
    eqs, defs = parse_desc(CAP["desc"])
    exp, lat = {}, set()
    for i in range(n):
        t = []
        for j in range(n):
            v = B[i, j]
            if isnan(v):
                e = "eta_%d_%d" % (min(i, j), max(i, j))
                lat.add(e)
                t.append((e,))
            elif bool(v != 0):
                t.append((format(v, "f"), f"x{j}"))
        if t:
            exp[f"x{i}"] = t
    c.check({k: sorted(v) for k, v in eqs.items()} == {k: sorted(v) for k, v in exp.items()},
            f"equations {eqs}, expected {exp}")
    c.check(sorted(defs.get("latent", [])) == sorted(lat), f"latent variables {defs}, expected {sorted(lat)}")
    c.check(sorted(defs.get("ordinal", [])) == [f"x{i}" for i in range(n) if ordn[i]],
            f"ordinal variables {defs}, expected {ordn}")
    c.check(len(CAP["fits"]) >= 1, "the model is fitted")
    d = CAP["fits"][-1]
    c.check(list(d.columns) == [f"x{i}" for i in range(n)] and np.array_equal(np.asarray(d, dtype=float), X),
            "the model is fitted to the given data")
    c.check(isinstance(r, str) and r == "STATS" and CAP.get("stats_model") is not None,
            "the statistics of the fitted model are returned")


@harness("C17", [dict()], env=semenv)
def fit_rejects(c, cfg):
    B = matrix(c, "b", 3, 3)
    X = np.arange(12.0).reshape(4, 3)
    for a, k in ((lambda: evaluate_model_fit(B[:, :2], X[:, :2]), "non-square matrix"),
                 (lambda: evaluate_model_fit(B, X[:, :2]), "data with another number of variables"),
                 (lambda: evaluate_model_fit(B, X, is_ordinal=[0, 1]), "wrong number of ordinal flags")):
        _, e = raises(a)
        c.check(isinstance(e, ValueError), k + " is rejected")
