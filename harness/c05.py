"""C05: summaries of bootstrap results."""
import math

import numpy as np

import lingam
from lingam.bootstrap import BootstrapResult
from lingam.longitudinal_lingam import LongitudinalBootstrapResult
from lingam.var_lingam import VARBootstrapResult
from lingam.varma_lingam import VARMABootstrapResult
from symx.run import harness

from .lib import all_simple_paths, arr, isnan, raises, same, snapshot, zeros

META = {
    "bounds": "2-4 bootstrap samples, 2-3 variables, 0-2 lags, up to 9 symbolic coefficients per run (all reals, "
              "including 0 and NaN where allowed); also 5-11 samples and 5-13 variables with fixed coefficients except 2-4 "
              "symbolic ones; symbolic thresholds > 0, every top-n truncation",
    "outside": "more samples/variables at once; order among ties",
}

# positions of symbolic coefficients per sample (others are 0); None = NaN
P1 = [[(0, 1), (1, 0), (2, 0)], [(0, 1), (1, 2), (2, 0)]]
P2 = [[(0, 1), (1, 0)], [(0, 1), (1, 0)], [(0, 1), (1, 0)]]
P3 = [[(1, 0), (2, 1)], [(1, 0), (0, 2)], [(1, 0), (2, 1)], [(2, 1)]]


def build(c, pos, shape, nan=(), name="a"):
    mats = []
    for k, pp in enumerate(pos):
        m = zeros(c, *shape)
        for p in pp:
            m[p] = c.real(f"{name}{k}_" + "_".join(map(str, p)))
        for p in nan:
            if p[0] == k:
                m[p[1:]] = math.nan
        mats.append(m)
    return arr(c, [m.tolist() for m in mats])


def filled(c, cfg, name="a"):
    """Larger results: K samples over n variables, fixed coefficients except for a few symbolic ones."""
    K, n, w = cfg["K"], cfg["n"], cfg.get("w", cfg["n"])
    r = np.random.RandomState(cfg.get("seed", 5))
    mats = []
    for k in range(K):
        m = zeros(c, n, w)
        for i in range(n):
            for j in range(w):
                v = round(r.uniform(-2, 2), 2)
                if (j < i or j >= n) and r.rand() < cfg.get("dens", 0.4):
                    m[i, j] = v
                for q, p in enumerate(cfg["sym"]):
                    if p == (k, i, j):
                        m[i, j] = c.real(f"{name}{q}")
        mats.append(m)
    return arr(c, [m.tolist() for m in mats])


def sgn(v):
    return 1 if v > 0 else (-1 if v < 0 else 0)


def over(v, m):
    return (not isnan(v)) and bool(abs(v) > m)


def check_dirs(c, cdc, per_sample, n, sign, what):
    """per_sample: list of {(to, from): value} of the detected directions."""
    exp = {}
    for d in per_sample:
        for (i, j), v in d.items():
            k = (j, i) + ((sgn(v),) if sign else ())
            exp[k] = exp.get(k, 0) + 1
    cols = [cdc["from"], cdc["to"]] + ([cdc["sign"]] if sign else [])
    got = [tuple(int(x) for x in t) for t in zip(*cols)]
    cnt = [int(x) for x in cdc["count"]]
    c.check(all(len(x) == len(cnt) for x in cols), what + ": columns have equal length")
    c.check(len(set(got)) == len(got), what + f": a direction is listed twice {got}")
    for k, v in zip(got, cnt):
        c.check(exp.get(k, 0) == v, what + f": count of {k} is {v}, expected {exp.get(k, 0)}")
    want = len(exp) if n is None else min(n, len(exp))
    c.check(len(got) == want, what + f": {len(got)} directions, expected {want} of {exp}")
    c.check(cnt == sorted(exp.values(), reverse=True)[:want], what + f": most frequent first {cnt} of {exp}")


def check_dags(c, dagc, per_sample, n, sign, what):
    exp = {}
    for d in per_sample:
        k = frozenset((j, i) + ((sgn(v),) if sign else ()) for (i, j), v in d.items())
        exp[k] = exp.get(k, 0) + 1
    got = []
    for d in dagc["dag"]:
        cols = [d["from"], d["to"]] + ([d["sign"]] if sign else [])
        e = [tuple(int(x) for x in t) for t in zip(*cols)]
        c.check(len(set(e)) == len(e), what + ": an edge is listed twice in a graph")
        got.append(frozenset(e))
    cnt = [int(x) for x in dagc["count"]]
    c.check(len(cnt) == len(got) and len(set(got)) == len(got), what + ": graphs are distinct")
    for g, v in zip(got, cnt):
        c.check(exp.get(g, 0) == v, what + f": count of graph {sorted(g)}: {v}, expected {exp.get(g, 0)}")
    want = len(exp) if n is None else min(n, len(exp))
    c.check(len(got) == want and cnt == sorted(exp.values(), reverse=True)[:want],
            what + f": most frequent graphs first {cnt} of {list(exp.values())}")


def median(c, vals):
    vals = list(vals)
    out = []
    for v in vals:
        k = 0
        while k < len(out) and bool(out[k] <= v):
            k += 1
        out.insert(k, v)
    n = len(out)
    return out[n // 2] if n % 2 else (out[n // 2 - 1] + out[n // 2]) / 2.0


def threshold(c, cfg):
    return c.real("m", lo=0.001) if cfg["thr"] else None


def detected(A, m):
    m = 0.0 if m is None else m
    out = []
    for a in A:
        d = {}
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                if over(a[i, j], m):
                    d[(i, j)] = a[i, j]
        out.append(d)
    return out


DCFG = [dict(pos=p, thr=t, sign=s, top=k, nan=nan)
        for p, nan in ((P1, ()), (P2, ()), (P3, ((0, 0, 1), (0, 1, 0))))
        for t, s in ((False, False), (True, False), (False, True), (True, True))
        for k in ((None, 1) if p is P1 else (2,) if p is P2 else (None,))]


def shape_of(pos):
    return (3, 3) if pos is not P2 else (2, 2)


@harness("C05", DCFG)
def directions(c, cfg):
    A = build(c, cfg["pos"], shape_of(cfg["pos"]), cfg["nan"])
    m = threshold(c, cfg)
    r = BootstrapResult(A, A)
    snap = snapshot(A)
    cdc = r.get_causal_direction_counts(n_directions=cfg["top"], min_causal_effect=m,
                                        split_by_causal_effect_sign=cfg["sign"])
    check_dirs(c, cdc, detected(A, m), cfg["top"], cfg["sign"], "directions")
    c.check(("sign" in cdc) == cfg["sign"], "signs are reported iff requested")
    c.check(all(same(x, y) for x, y in zip(snapshot(A), snap)), "result matrices unchanged")


@harness("C05", DCFG)
def graphs(c, cfg):
    A = build(c, cfg["pos"], shape_of(cfg["pos"]), cfg["nan"])
    m = threshold(c, cfg)
    r = BootstrapResult(A, A)
    dagc = r.get_directed_acyclic_graph_counts(n_dags=cfg["top"], min_causal_effect=m,
                                               split_by_causal_effect_sign=cfg["sign"])
    check_dags(c, dagc, detected(A, m), cfg["top"], cfg["sign"], "graphs")


@harness("C05", [dict(K=6, n=12, dens=0.05, thr=t, sign=s, top=k, nan=[], sym=[(0, 10, 1), (1, 11, 10), (2, 1, 11), (3, 10, 1)])
                 for t, s, k in ((True, False, 3), (False, True, None))]
         + [dict(K=11, n=5, dens=0.2, thr=t, sign=s, top=k, nan=[], sym=[(0, 4, 1), (1, 4, 1), (9, 4, 1), (10, 3, 2)])
            for t, s, k in ((False, False, None), (True, True, 12))])
def larger(c, cfg):
    A = filled(c, cfg)
    m = threshold(c, cfg)
    r = BootstrapResult(A, A)
    kw = dict(min_causal_effect=m, split_by_causal_effect_sign=cfg["sign"])
    det = detected(A, m)
    check_dirs(c, r.get_causal_direction_counts(n_directions=cfg["top"], **kw), det, cfg["top"], cfg["sign"], "directions")
    check_dags(c, r.get_directed_acyclic_graph_counts(n_dags=cfg["top"], **kw), det, cfg["top"], cfg["sign"], "graphs")
    P = r.get_probabilities(min_causal_effect=m)
    for i in range(cfg["n"]):
        for j in range(cfg["n"]):
            c.check_eq(P[i, j], sum(1 for d in det if (i, j) in d) / cfg["K"], f"probability of {j}->{i}")


# blocks: [B0, B1, ...] side by side (time-series results)
W1 = [[(0, 1), (1, 2), (0, 3)], [(1, 0), (1, 3), (0, 2)]]


@harness("C05", [dict(pos=P1, shape=(3, 3), thr=False, nan=((0, 1, 2),)),
                 dict(pos=P3, shape=(3, 3), thr=True, nan=()),
                 dict(pos=W1, shape=(2, 4), thr=True, nan=()),
                 dict(pos=W1, shape=(2, 6), thr=False, nan=())])
def probabilities(c, cfg):
    A = build(c, cfg["pos"], cfg["shape"], cfg["nan"])
    m = threshold(c, cfg)
    K, n, w = len(A), cfg["shape"][0], cfg["shape"][1]
    cls = BootstrapResult if n == w else VARBootstrapResult
    objs = [cls(A, A)]
    if n != w:
        objs.append(VARMABootstrapResult(A, A, (w // n - 1, 0)))
    for r in objs:
        P = r.get_probabilities(min_causal_effect=m)
        blocks = [P] if n == w else P
        c.check(len(blocks) == w // n, "one probability matrix per lag")
        det = detected(A, m)
        for i in range(n):
            for j in range(w):
                e = sum(1 for d in det if (i, j) in d)
                c.check_eq(blocks[j // n][i, j % n], e / K, f"probability of {j}->{i}")


TE2 = [[(0, 1), (1, 0)]] * 3


@harness("C05", [dict(pos=TE2, shape=(2, 2), thr=t, cls="base") for t in (False, True)]
         + [dict(pos=[[(2, 0), (1, 0)], [(2, 0), (1, 2)], [(2, 0)], [(2, 0)]], shape=(3, 3), thr=True, cls="base"),
            dict(pos=TE2, shape=(2, 4), thr=True, cls="var"),
            dict(pos=TE2, shape=(2, 4), thr=False, cls="varma"),
            dict(pos=[[(2, 0), (3, 1)], [(2, 0), (3, 1)], [(2, 0), (1, 0)]], shape=(4, 4), thr=True, cls="long"),
            dict(pos=[[(2, 0)], [(2, 0), (3, 1)], [(2, 0), (1, 0)]], shape=(4, 4), thr=False, cls="long"),
            dict(K=7, n=6, shape=(6, 6), dens=0.5, thr=False, cls="base", sym=[(0, 3, 1), (1, 3, 1), (5, 5, 0)]),
            dict(K=6, n=12, shape=(12, 12), dens=0.1, thr=True, cls="base", sym=[(0, 10, 1), (1, 11, 10)]),
            dict(K=7, n=3, w=9, shape=(3, 9), dens=0.5, thr=False, cls="var", sym=[(0, 2, 7), (1, 1, 5)]),
            dict(K=7, n=3, w=9, shape=(3, 9), dens=0.5, thr=True, cls="varma", sym=[(0, 2, 7), (1, 1, 5)]),
            dict(K=7, n=9, shape=(9, 9), dens=0.3, thr=False, cls="long", sym=[(0, 8, 2), (1, 4, 3)])])
def total_effects(c, cfg):
    E = build(c, cfg["pos"], cfg["shape"]) if "pos" in cfg else filled(c, cfg)
    m = threshold(c, cfg)
    K = len(E)
    r = {"base": lambda: BootstrapResult(E, E), "var": lambda: VARBootstrapResult(E, E),
         "varma": lambda: VARMABootstrapResult(E, E, (cfg["shape"][1] // cfg["shape"][0] - 1, 0)),
         "long": lambda: LongitudinalBootstrapResult(2, E, E)}[cfg["cls"]]()
    ce = r.get_total_causal_effects(min_causal_effect=m)
    det = detected(E, m)
    exp = {}
    for i in range(cfg["shape"][0]):
        for j in range(cfg["shape"][1]):
            k = sum(1 for d in det if (i, j) in d)
            if k:
                vals = [e[i, j] for e in E if bool(e[i, j] != 0)]
                exp[(j, i)] = (k / K, median(c, vals))
    got = list(zip([int(x) for x in ce["from"]], [int(x) for x in ce["to"]]))
    c.check(sorted(got) == sorted(exp), f"total effects listed for {sorted(got)}, expected {sorted(exp)}")
    c.check(len(ce["effect"]) == len(got) and len(ce["probability"]) == len(got), "columns have equal length")
    for k, e, p in zip(got, ce["effect"], ce["probability"]):
        c.check_eq(p, exp[k][0], f"probability of {k}")
        c.check_eq(e, exp[k][1], f"median nonzero total effect of {k}")
    ps = [float(x) for x in ce["probability"]]
    c.check(ps == sorted(ps, reverse=True), "most probable first")


def check_paths(c, res, per_sample, K, what):
    """per_sample: list of {tuple(path): effect}."""
    exp = {}
    for d in per_sample:
        for p, e in d.items():
            exp.setdefault(p, []).append(e)
    got = [tuple(int(x) for x in p) for p in res["path"]]
    c.check(sorted(got) == sorted(exp), what + f": paths {sorted(got)}, expected {sorted(exp)}")
    c.check(len(res["effect"]) == len(got) and len(res["probability"]) == len(got), what + ": equal length")
    for p, e, pr in zip(got, res["effect"], res["probability"]):
        c.check_eq(pr, len(exp[p]) / K, what + f": probability of {p}")
        c.check_eq(e, median(c, exp[p]), what + f": median effect of {p}")
    ps = [float(x) for x in res["probability"]]
    c.check(ps == sorted(ps, reverse=True), what + ": most probable first")


def path_effects(coef, n, src, dst, m):
    """{path: effect} for the graph coef(i, j) = effect of j on i."""
    out = {}
    for p in all_simple_paths(lambda i, j: over(coef(i, j), m), n, src, dst):
        e = 1.0
        for u, v in zip(p, p[1:]):
            e = e * coef(v, u)
        out[tuple(p)] = e
    return out


DP = [[(1, 0), (2, 1), (2, 0)], [(1, 0), (2, 1), (2, 0)]]
DP3 = [[(1, 0), (2, 1)], [(1, 0), (2, 0)], [(1, 0), (2, 1)]]
DP4 = [[(3, 0), (1, 3), (1, 2), (2, 3)], [(3, 0), (1, 3), (2, 0)]]


@harness("C05", [dict(pos=DP, n=3, ends=((0, 2),), thr=True, nan=()),
                 dict(pos=DP3, n=3, ends=((0, 2), (0, 1)), thr=False, nan=((1, 2, 1), (1, 1, 2))),
                 dict(pos=DP4, n=4, ends=((0, 1), (1, 0)), thr=False, nan=()),
                 dict(K=5, n=13, dens=0.25, ends=((1, 12), (0, 11), (11, 2)), thr=False, sym=[(0, 11, 1), (2, 12, 11), (3, 12, 1)]),
                 dict(K=8, n=5, dens=0.7, ends=((0, 4), (1, 3)), thr=True, sym=[(0, 4, 1), (5, 3, 1)])])
def paths(c, cfg):
    n = cfg["n"]
    A = build(c, cfg["pos"], (n, n), cfg["nan"]) if "pos" in cfg else filled(c, cfg)
    m = threshold(c, cfg)
    m0 = 0.0 if m is None else m
    r = BootstrapResult(A, A)
    for a, b in cfg["ends"]:
        res = r.get_paths(a, b, min_causal_effect=m)
        check_paths(c, res, [path_effects(lambda i, j: M[i, j], n, a, b, m0) for M in A], len(A),
                    f"paths {a}->{b}")


# (row, col) positions within [B0 | B1 | B2] of 2 variables
TS1 = [[(1, 0), (0, 2), (1, 3)], [(1, 0), (0, 2), (0, 3)]]
TS2 = [[(1, 0), (0, 3), (1, 4)], [(1, 2), (0, 5), (1, 0)]]
# 12 nodes: two-digit node numbers
TS4 = [[(3, 7), (2, 3), (2, 11), (1, 10), (2, 1)], [(1, 10), (2, 5), (2, 3), (2, 8)]]
TS3 = [[(1, 0), (0, 2), (1, 4), (0, 4)]]


@harness("C05", [dict(pos=TS1, lags=1, ends=((0, 1, 1, 0), (1, 1, 1, 0), (0, 1, 0, 0)), cls=k, thr=False)
                 for k in ("var", "varma")]
         + [dict(pos=TS2, lags=2, ends=((0, 1, 2, 0), (1, 0, 2, 0), (1, 1, 2, 1)), cls=k, thr=k == "varma")
            for k in ("var", "varma")]
         + [dict(pos=TS4, n=4, lags=2, ends=((3, 2, 2, 0), (2, 2, 2, 0), (0, 2, 1, 0)), cls=k, thr=False) for k in ("var", "varma")]
         + [dict(pos=TS3, lags=2, ends=((0, 1, 2, 0), (0, 0, 2, 0)), cls=k, thr=False) for k in ("var", "varma")])
def lagged_paths(c, cfg):
    n, L = cfg.get("n", 2), cfg["lags"]
    extra = 1 if cfg["cls"] == "varma" else 0        # one moving-average block, never on a path
    pos = cfg["pos"]
    A = build(c, pos, (n, n * (1 + L + extra)))
    if extra:
        for M in A:
            M[0, n * (1 + L)] = 0.7
            M[1, n * (1 + L)] = 0.9
    m = threshold(c, cfg)
    m0 = 0.0 if m is None else m
    r = VARBootstrapResult(A, A) if not extra else VARMABootstrapResult(A, A, (L, 1))
    for a, b, fl, tl in cfg["ends"]:
        res = r.get_paths(a, b, from_lag=fl, to_lag=tl, min_causal_effect=m)

        def coef_of(M):
            def coef(u, w):
                lu, lw = u // n, w // n
                if lw < lu:
                    return 0.0
                return M[u % n, (lw - lu) * n + w % n]
            return coef
        check_paths(c, res, [path_effects(coef_of(M), n * (1 + L), fl * n + a, tl * n + b, m0) for M in A], len(A),
                    f"paths {a}(t-{fl})->{b}(t-{tl})")
    _, e = raises(lambda: r.get_paths(0, 1, from_lag=0, to_lag=1))
    c.check(isinstance(e, ValueError), "a path backwards in time is rejected")
    _, e = raises(lambda: r.get_paths(1, 1, from_lag=1, to_lag=1))
    c.check(isinstance(e, ValueError), "a path from a variable to itself is rejected")


# longitudinal: positions (t, tau, i, j)
def long_mats(c, pos, T, L, n):
    mats = []
    for k, pp in enumerate(pos):
        M = zeros(c, T, 1 + L, n, n)
        for t in range(L):
            M[t] = math.nan
        for p in pp:
            M[p] = c.real(f"a{k}_" + "_".join(map(str, p)))
        mats.append(M)
    return arr(c, [m.tolist() for m in mats])


LG1 = [[(1, 0, 1, 0), (2, 1, 0, 1), (2, 0, 1, 0)], [(1, 0, 1, 0), (2, 1, 0, 1), (2, 1, 1, 1)]]
LG2 = [[(2, 0, 1, 0), (2, 2, 1, 0), (3, 1, 0, 1)], [(2, 0, 0, 1), (3, 2, 1, 0), (3, 1, 0, 1)]]
LCFG = [dict(pos=LG1, T=3, L=1, thr=t, sign=s, top=k) for t, s, k in
        ((False, False, None), (True, True, None), (True, False, 1), (False, True, 2))] + \
       [dict(pos=LG2, T=4, L=2, thr=True, sign=False, top=None), dict(pos=LG2, T=4, L=2, thr=False, sign=True, top=1)]


def long_detected(A, t, m):
    m = 0.0 if m is None else m
    out = []
    for M in A:
        d = {}
        L, n = M.shape[1], M.shape[2]
        for tau in range(L):
            for i in range(n):
                for j in range(n):
                    if over(M[t, tau, i, j], m):
                        d[(i, tau * n + j)] = M[t, tau, i, j]
        out.append(d)
    return out


@harness("C05", LCFG)
def longitudinal(c, cfg):
    A = long_mats(c, cfg["pos"], cfg["T"], cfg["L"], 2)
    m = threshold(c, cfg)
    T = cfg["T"]
    r = LongitudinalBootstrapResult(T, A, A)
    kw = dict(min_causal_effect=m, split_by_causal_effect_sign=cfg["sign"])
    cdc = r.get_causal_direction_counts(n_directions=cfg["top"], **kw)
    dag = r.get_directed_acyclic_graph_counts(n_dags=cfg["top"], **kw)
    P = r.get_probabilities(min_causal_effect=m)
    c.check(len(cdc) == T and len(dag) == T and len(P) == T, "one summary per time point")
    for t in range(T):
        det = long_detected(A, t, m)
        check_dirs(c, cdc[t], det, cfg["top"], cfg["sign"], f"directions at t={t}")
        check_dags(c, dag[t], det, cfg["top"], cfg["sign"], f"graphs at t={t}")
        for tau in range(cfg["L"] + 1):
            for i in range(2):
                for j in range(2):
                    e = sum(1 for d in det if (i, tau * 2 + j) in d)
                    c.check_eq(P[t][tau][i, j], e / len(A), f"probability at t={t} lag={tau} {j}->{i}")


# 16 nodes; the last one is reached over several time points
LG3 = [[(1, 1, 3, 0), (1, 0, 2, 3), (2, 1, 3, 2), (3, 1, 2, 3)], [(1, 1, 2, 0), (2, 1, 2, 2), (3, 1, 2, 2), (3, 1, 3, 3)]]


@harness("C05", [dict(pos=LG3, n=4, T=4, L=1, thr=False, ends=((0, 2, 0, 3), (0, 3, 0, 2), (2, 2, 1, 3))),
                 dict(pos=LG1, T=3, L=1, thr=False, ends=((0, 1, 1, 2), (0, 0, 1, 2), (0, 1, 1, 1), (1, 1, 1, 2))),
                 dict(pos=LG2, T=4, L=2, thr=True, ends=((0, 0, 2, 3), (0, 1, 2, 3))),
                 dict(pos=LG2, T=4, L=2, thr=False, ends=((0, 0, 2, 3), (0, 1, 2, 3), (0, 1, 2, 2)))])
def longitudinal_paths(c, cfg):
    n = cfg.get("n", 2)
    A = long_mats(c, cfg["pos"], cfg["T"], cfg["L"], n)
    m = threshold(c, cfg)
    m0 = 0.0 if m is None else m
    r = LongitudinalBootstrapResult(cfg["T"], A, A)
    for a, b, ft, tt in cfg["ends"]:
        res = r.get_paths(a, b, ft, tt, min_causal_effect=m)

        def coef_of(M):
            def coef(u, w):
                tu, tw = ft + u // n, ft + w // n
                if tw > tu or tu - tw > cfg["L"]:
                    return 0.0
                return M[tu, tu - tw, u % n, w % n]
            return coef
        check_paths(c, res, [path_effects(coef_of(M), n * (tt - ft + 1), a, (tt - ft) * n + b, m0) for M in A],
                    len(A), f"paths {a}(t={ft})->{b}(t={tt})")
    _, e = raises(lambda: r.get_paths(0, 1, 2, 1))
    c.check(isinstance(e, ValueError), "a path backwards in time is rejected")


@harness("C05", [dict(cls=k) for k in ("base", "var", "varma", "long")])
def arguments(c, cfg):
    """Thresholds must be positive and truncations positive integers."""
    A = arr(c, np.full((3, 2, 2, 2), 0.5) if cfg["cls"] == "long" else [[[0.0, 0.0], [0.5, 0.0]]] * 2)
    if cfg["cls"] == "long":
        A = arr(c, [A.tolist()])
        A[0, :, 0, 0, :] = 0.0
        A[0, :, 0, 1, 1] = 0.0
    E = arr(c, np.full((1, 6, 6), 0.25)) if cfg["cls"] == "long" else A
    r = {"base": lambda: BootstrapResult(A, A), "var": lambda: VARBootstrapResult(A, A),
         "varma": lambda: VARMABootstrapResult(A, A, (0, 0)),
         "long": lambda: LongitudinalBootstrapResult(3, A, E)}[cfg["cls"]]()
    m = c.real("m", hi=0)
    args = {"base": (0, 1), "var": (0, 1), "varma": (0, 1), "long": (0, 1, 1, 2)}[cfg["cls"]]
    fs = (lambda: r.get_causal_direction_counts(min_causal_effect=m),
          lambda: r.get_directed_acyclic_graph_counts(min_causal_effect=m),
          lambda: r.get_probabilities(min_causal_effect=m),
          lambda: r.get_total_causal_effects(min_causal_effect=m),
          lambda: r.get_paths(*args, min_causal_effect=m))
    for f in fs:
        _, e = raises(f)
        c.check(isinstance(e, ValueError), "a non-positive threshold is rejected")
    m = c.real("mp", lo=0)
    c.assume(m > 0)
    for f in fs:
        _, e = raises(f)
        c.check(e is None, f"a positive threshold is accepted ({e})")
    for bad in (0, -1, 1.5, "2"):
        for f in (lambda: r.get_causal_direction_counts(n_directions=bad),
                  lambda: r.get_directed_acyclic_graph_counts(n_dags=bad)):
            _, e = raises(f)
            c.check(isinstance(e, ValueError), "a truncation that is not a positive integer is rejected")
