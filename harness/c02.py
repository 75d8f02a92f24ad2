"""C02: prior knowledge is honoured."""
import numpy as np

import lingam
import lingam.hsic
import lingam.utils
from symx.run import harness

from .fakes import (any_data, chi2_env, data_models, opaque_regressions, opaque_scale, pvalue_models, sem_data)
from .lib import dice, isnan, raises, topo_ok

META = {
    "bounds": "3 variables with every prior-knowledge matrix over {-1, 0, 1}; 4 variables with three statements at any "
              "position; 4-12 variables with a consistent set of statements, two further symbolic ones and fixed data of three kinds; "
              "arbitrary data (products, divisions and elementary functions of the data are uninterpreted "
              "values) and arbitrary test results; every regression coefficient nonzero",
    "outside": "more variables; values other than -1, 0, 1",
    "assumptions": ["least squares / lasso fits return arbitrary nonzero coefficients",
                    "independence tests return arbitrary values"],
}


def env(c, cfg):
    return opaque_regressions(c, ones=True) + opaque_scale(c)


def knowledge(c, cfg):
    """Symbolic choice of the prior-knowledge matrix."""
    n = cfg["n"]
    pk = np.full((n, n), -1)
    if cfg.get("k") is None:
        for i in range(n):
            for j in range(n):
                if i != j:
                    pk[i, j] = [-1, 0, 1][c.choose(f"pk{i}_{j}", 3)]
    else:
        pos = [(i, j) for i in range(n) for j in range(n) if i != j]
        for e in range(cfg["k"]):
            i, j = pos[c.choose(f"at{e}", len(pos))]
            pk[i, j] = c.choose(f"val{e}", 2)
    return pk


def required_before(pk, n):
    """(a, b): a must precede b."""
    R = set()
    for i in range(n):
        for j in range(n):
            if i != j:
                if pk[i, j] == 1:
                    R.add((j, i))
                elif pk[i, j] == 0 and pk[j, i] != 0:
                    R.add((i, j))
    return R


def honoured(c, pk, n, soft, order, mats, exc, what):
    R = required_before(pk, n)
    twice = any(pk[i, j] == 1 and pk[j, i] == 1 for i in range(n) for j in range(i))
    if exc is not None:
        if not soft:
            c.check(twice or not topo_ok(list(R), n),
                    f"{what}: consistent prior knowledge {pk.tolist()} is rejected ({exc!r})")
            if twice:
                c.check(isinstance(exc, ValueError), f"{what}: contradiction is reported as a ValueError")
        else:
            c.check(twice or not topo_ok(list(R), n),
                    f"{what} (soft): consistent prior knowledge {pk.tolist()} fails ({exc!r})")
        return
    if not soft:
        c.check(not twice, f"{what}: contradictory prior knowledge {pk.tolist()} is accepted")
        pos = {}
        for k, v in enumerate(order):
            for x in (v if hasattr(v, "__iter__") else [v]):
                pos[int(x)] = k
        c.check(sorted(pos) == list(range(n)), f"{what}: causal order {order}")
        for a, b in sorted(R):
            c.check(pos[a] <= pos[b] if what == "BottomUpParceLiNGAM" else pos[a] < pos[b],
                    f"{what}: x{a} must precede x{b} by prior knowledge {pk.tolist()} but order is {order}")
    for B in mats:
        for i in range(n):
            for j in range(n):
                if i != j and pk[i, j] == 0:
                    c.check(isnan(B[i, j]) or B[i, j] == 0,
                            f"{what}: forbidden edge x{j} -> x{i} has a coefficient, prior knowledge {pk.tolist()}")


D = [dict(n=3, soft=False, m="pwling"), dict(n=3, soft=True, m="pwling"), dict(n=4, k=2, soft=False, m="pwling"),
     dict(n=3, k=2, soft=False, m="kernel"), dict(n=3, k=2, soft=True, m="kernel")]
DT = D + [dict(n=4, k=3, soft=False, m="pwling"), dict(n=4, k=3, soft=True, m="pwling")]


@harness("C02", {"quick": D, "thorough": DT}, havoc="free", env=env, retry=data_models(None, 1))
def direct(c, cfg):
    n = cfg["n"]
    pk = knowledge(c, cfg)
    keep = pk.copy()
    X = any_data(c, n, 2)
    m, e = raises(lambda: lingam.DirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=cfg["soft"],
                                              measure=cfg["m"]).fit(X))
    c.check(np.array_equal(pk, keep), "the prior knowledge is not modified")
    honoured(c, pk, n, cfg["soft"], None if e else m.causal_order_, [] if e else [m.adjacency_matrix_], e,
             "DirectLiNGAM")


@harness("C02", {"quick": [dict(n=3, k=2, soft=False), dict(n=3, k=2, soft=True)],
                 "thorough": [dict(n=3, soft=False), dict(n=3, soft=True), dict(n=4, k=2, soft=False)]},
         havoc="free", env=env, retry=data_models(None, 1))
def multigroup(c, cfg):
    n = cfg["n"]
    pk = knowledge(c, cfg)
    Xs = [any_data(c, n, 2, "x", 0), any_data(c, n, 2, "y", 1)]
    m, e = raises(lambda: lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk,
                                                        apply_prior_knowledge_softly=cfg["soft"]).fit(Xs))
    honoured(c, pk, n, cfg["soft"], None if e else m.causal_order_, [] if e else m.adjacency_matrices_, e,
             "MultiGroupDirectLiNGAM")


def env_parce(c, cfg):
    k = [0]

    def hsic(X, Y, *a, **kw):
        k[0] += 1
        return c.real(f"stat{k[0]}", lo=0), c.real(f"p{k[0]}", lo=0, hi=1)

    def fcorr(x, y, *a, **kw):
        k[0] += 1
        return c.real(f"p{k[0]}", lo=0, hi=1)
    return (opaque_regressions(c, ones=True) + chi2_env(c) + [(lingam.hsic.hsic_test_gamma, hsic),
                                                              (lingam.utils.f_correlation, fcorr)])


def fixed_data(n, rows=8):
    rng = np.random.RandomState(3)
    return rng.uniform(-1, 1, (rows, n)) ** 3


@harness("C02", {"quick": [dict(n=3, ind="fcorr"), dict(n=3, k=2, ind="hsic")],
                 "thorough": [dict(n=3, ind="fcorr"), dict(n=3, ind="hsic"), dict(n=4, k=2, ind="fcorr")]},
         havoc=True, env=env_parce, retry=pvalue_models())
def bottom_up(c, cfg):
    n = cfg["n"]
    pk = knowledge(c, cfg)
    X = fixed_data(n)
    m, e = raises(lambda: lingam.BottomUpParceLiNGAM(prior_knowledge=pk, independence=cfg["ind"]).fit(X))
    honoured(c, pk, n, False, None if e else m.causal_order_, [] if e else [m.adjacency_matrix_], e,
             "BottomUpParceLiNGAM")


@harness("C02", [dict(n=3)], env=env)
def wrong_shape(c, cfg):
    n = cfg["n"]
    X = fixed_data(n)
    for k in (2, 4):
        pk = np.full((k, k), -1)
        for mk, arg in ((lingam.DirectLiNGAM, X), (lingam.MultiGroupDirectLiNGAM, [X, X]),
                        (lingam.BottomUpParceLiNGAM, X)):
            _, e = raises(lambda: mk(prior_knowledge=pk).fit(arg))
            c.check(isinstance(e, ValueError), "prior knowledge of the wrong shape is rejected")


# ------------------------------------------------------------------- more variables
def larger_knowledge(c, cfg):
    """Statements that agree with one order of the variables, `sym` further ones symbolic."""
    n = cfg["n"]
    rng = np.random.RandomState(cfg["seed"])
    order = list(rng.permutation(n))
    pk = np.full((n, n), -1)
    for a in range(n):
        for b in range(a):
            i, j = order[a], order[b]
            u = rng.rand() / cfg.get("dens", 0.5)
            if u < 0.4:
                pk[i, j] = 1
            elif u < 0.7:
                pk[j, i] = 0
            elif u < 1:
                pk[i, j] = pk[j, i] = 0
    pos = [(i, j) for i in range(n) for j in range(n) if i != j]
    for e in range(cfg.get("sym", 2)):
        i, j = pos[rng.randint(len(pos))]
        pk[i, j] = [-1, 0, 1][c.choose(f"pk{i}_{j}", 3)]
    return pk


def larger_data(c, n, seed=0, rows=40):
    k = c.choose("data", 3)
    return sem_data(n, list(np.random.RandomState(71 * k + seed).permutation(n)), k + seed, rows)


def larger_env(c, cfg):
    out = opaque_regressions(c, ones=True)
    if cfg["cls"] != "parce":
        return out
    k = [0]

    def open_or_fixed(lo, hi):
        k[0] += 1
        u, v = dice(cfg["seed"], k[0])
        return c.real(f"p{k[0]}", lo=lo, hi=hi) if u < 0.02 else np.float64(lo + v * (hi - lo))

    def hsic(X, Y, *a, **kw):
        return open_or_fixed(0, 2), open_or_fixed(0, 1)

    def fcorr(x, y, *a, **kw):
        return open_or_fixed(0, 0.6)
    return out + chi2_env(c) + [(lingam.hsic.hsic_test_gamma, hsic), (lingam.utils.f_correlation, fcorr)]


LQ = [dict(cls=k, n=n, seed=s, soft=soft) for k in ("direct", "group") for n, s, soft in (
    (5, 1, False), (5, 2, False), (6, 3, False), (5, 4, True), (6, 5, True), (12, 6, False))]
LQ += [dict(cls="parce", n=n, seed=s, soft=False, ind=i) for n, s, i in (
    (4, 1, "fcorr"), (5, 2, "fcorr"), (5, 3, "hsic"), (5, 4, "fcorr"), (6, 5, "fcorr"), (11, 6, "fcorr"))]
LT = LQ + [dict(cls=k, n=n, seed=s, soft=soft, sym=3) for k in ("direct", "group") for n in (5, 7) for s in range(20, 26)
           for soft in (False, True)]
LT += [dict(cls="parce", n=n, seed=s, soft=False, ind="fcorr") for n in (5, 6) for s in range(20, 26)]


@harness("C02", {"quick": LQ, "thorough": LT}, havoc=True, env=larger_env, retry=pvalue_models())
def larger(c, cfg):
    n, soft = cfg["n"], cfg["soft"]
    pk = larger_knowledge(c, cfg)
    keep = pk.copy()
    X = larger_data(c, n)
    if cfg["cls"] == "direct":
        m, e = raises(lambda: lingam.DirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=soft).fit(X))
    elif cfg["cls"] == "group":
        m, e = raises(lambda: lingam.MultiGroupDirectLiNGAM(
            prior_knowledge=pk, apply_prior_knowledge_softly=soft).fit([X, larger_data(c, n, 5)]))
    else:
        m, e = raises(lambda: lingam.BottomUpParceLiNGAM(prior_knowledge=pk, independence=cfg["ind"]).fit(X))
    c.check(np.array_equal(pk, keep), "the prior knowledge is not modified")
    what = {"direct": "DirectLiNGAM", "group": "MultiGroupDirectLiNGAM", "parce": "BottomUpParceLiNGAM"}[cfg["cls"]]
    mats = [] if e else m.adjacency_matrices_ if cfg["cls"] == "group" else [m.adjacency_matrix_]
    honoured(c, pk, n, soft, None if e else m.causal_order_, mats, e, what)
