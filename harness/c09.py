"""C09: total effects of a fitted model."""
import warnings

import numpy as np

from symx.run import harness

from .fitted import generic, model, ols, prepare
from .lib import all_simple_paths, arr, dag, isnan, mat_total, part, perms, zeros

META = {
    "bounds": "3 variables, every causal order, every (from, to) pair, all real coefficients; 1-2 lags and from_lag up to "
              "2 for VAR/VARMA; 3-4 time points and 1-2 lags for longitudinal models; two groups; up to one "
              "unknown-direction pair; also 5-6 variables (3 lags, 5 time points) with fixed coefficients except 2-4 symbolic "
              "ones; one fixed data set in general position for the regression based estimates",
    "outside": "more variables; other data sets (the data only reach the result through one least-squares fit)",
    "assumptions": ["the estimates of a really fitted model are replaced by symbolic ones"],
}

prepare([("direct", 3, None), ("mgdirect", 3, None), ("bottomup", 3, None), ("rcd", 3, None), ("mgrcd", 3, None)]
        + [("var", 2, 1), ("var", 2, 2), ("varma", 2, (1, 1)), ("varma", 2, (2, 1)), ("varma", 2, (1, 2)),
           ("long", 2, (3, 1)), ("long", 2, (4, 2)), ("var", 3, 1)]
        + [("direct", 6, None), ("mgdirect", 5, None), ("bottomup", 6, None), ("rcd", 6, None), ("mgrcd", 5, None),
           ("var", 3, 3), ("varma", 3, (3, 1)), ("long", 3, (5, 3))])


def warned(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = fn()
    return r, any(issubclass(x.category, UserWarning) for x in w)


def nz(v):
    return not isnan(v) and bool(v != 0)


def pairs(c, n):
    k = c.choose("pair", n * (n - 1))
    f, t = divmod(k, n - 1)
    return f, t if t < f else t + 1


def path_sum(c, B, n, src, dst):
    """Sum over directed paths of products, B[i][j] the effect of j on i; unknown entries are no edges."""
    tot = 0.0
    for p in all_simple_paths(lambda i, j: nz(B[i][j]), n, src, dst):
        e = 1.0
        for a, b in zip(p, p[1:]):
            e = e * B[b][a]
        tot = tot + e
    return tot


ORD3 = perms(3)


@harness("C09", {"quick": [dict(k="direct", order=o) for o in ORD3], "thorough": [dict(k="direct", order=o) for o in ORD3]})
def regression(c, cfg):
    n = 3
    B = dag(c, "b", n, cfg["order"])
    m = model(cfg["k"], n, order=list(cfg["order"]), matrix=B)
    X = generic(37, n, 5)
    f, t = pairs(c, n)
    (e, w) = warned(lambda: m.estimate_total_effect(X, f, t))
    late = cfg["order"].index(f) > cfg["order"].index(t)
    c.check(w == late, "a warning is given exactly when the destination comes first")
    par = [j for j in range(n) if nz(B[f, j])]
    if t not in par:
        c.check_eq(e, float(ols(X, [f] + par, X[:, t])[0]), f"effect {f}->{t} adjusted for {par}")


@harness("C09", [dict(order=o) for o in ORD3])
def groups(c, cfg):
    n = 3
    Bs = [dag(c, "b", n, cfg["order"], zero=((cfg["order"][1], cfg["order"][0]),)), dag(c, "d", n, cfg["order"])]
    m = model("mgdirect", n, order=list(cfg["order"]), matrix=Bs)
    Xs = [generic(37, n, 5), generic(29, n, 6)]
    f, t = pairs(c, n)
    (e, w) = warned(lambda: m.estimate_total_effect(Xs, f, t))
    late = cfg["order"].index(f) > cfg["order"].index(t)
    c.check(w == late, "a warning is given exactly when the destination comes first")
    c.check(len(e) == 2, "one effect per group")
    for g in range(2):
        par = [j for j in range(n) if nz(Bs[g][f, j])]
        if t not in par:
            c.check_eq(e[g], float(ols(Xs[g], [f] + par, Xs[g][:, t])[0]), f"group {g}: effect {f}->{t}")
    (e2, w) = warned(lambda: m.estimate_total_effect2(f, t))
    c.check(w == late, "a warning is given exactly when the destination comes first (from coefficients)")
    if not late:
        c.check(len(e2) == 2, "one effect per group")
        for g in range(2):
            c.check_eq(e2[g], mat_total(c, Bs[g], n)[t][f], f"group {g}: effect {f}->{t} from coefficients")


O6, O5 = [3, 0, 5, 1, 4, 2], [2, 4, 0, 3, 1]
S6, Z6 = ((2, 1), (3, 0), (4, 2), (5, 3)), ((1, 0), (4, 1), (5, 2), (3, 2))
S5, Z5 = ((2, 1), (4, 2), (3, 0)), ((1, 0), (4, 1))


@harness("C09", [dict(k="direct", order=O6), dict(k="direct", order=O6[::-1])])
def larger(c, cfg):
    n = 6
    B = part(c, "b", n, cfg["order"], S6, Z6)
    m = model(cfg["k"], n, order=list(cfg["order"]), matrix=B)
    X = generic(37, n, 5)
    f, t = pairs(c, n)
    (e, w) = warned(lambda: m.estimate_total_effect(X, f, t))
    c.check(w == (cfg["order"].index(f) > cfg["order"].index(t)), "a warning is given exactly when the destination comes first")
    par = [j for j in range(n) if nz(B[f, j])]
    if t not in par:
        c.check_eq(e, float(ols(X, [f] + par, X[:, t])[0]), f"effect {f}->{t} adjusted for {par}")


@harness("C09", [dict(order=O5)])
def larger_groups(c, cfg):
    n, o = 5, cfg["order"]
    Bs = [part(c, "b", n, o, S5[:2], Z5), part(c, "d", n, o, S5[2:], Z5[1:])]
    m = model("mgdirect", n, order=list(o), matrix=Bs)
    Xs = [generic(37, n, 5), generic(29, n, 6)]
    f, t = pairs(c, n)
    (e, w) = warned(lambda: m.estimate_total_effect(Xs, f, t))
    late = o.index(f) > o.index(t)
    (e2, w) = warned(lambda: m.estimate_total_effect2(f, t))
    c.check(len(e) == 2 and len(e2) == 2, "one effect per group")
    for g in range(2):
        par = [j for j in range(n) if nz(Bs[g][f, j])]
        if t not in par:
            c.check_eq(e[g], float(ols(Xs[g], [f] + par, Xs[g][:, t])[0]), f"group {g}: effect {f}->{t}")
        if not late:
            c.check_eq(e2[g], mat_total(c, Bs[g], n)[t][f], f"group {g}: effect {f}->{t} from coefficients")


@harness("C09", [dict(k="bottomup", u=(3, 0, 5)), dict(k="rcd", u=(1, 4)), dict(k="rcd", u=(0, 2)), dict(k="rcd", u=())])
def larger_unknown(c, cfg):
    n, o, u = 6, O6, cfg["u"]
    B = part(c, "b", n, o, S6, Z6)
    for i in u:
        for j in u:
            if i != j:
                B[i, j] = np.nan

    def conf(f):
        return any(isnan(B[f, j]) for j in range(n))
    if cfg["k"] == "bottomup":
        m = model("bottomup", n, order=[sorted(u)] + o[len(u):], matrix=B)
        unknown(c, m, B, n, lambda f, t: (0 if f in u else o.index(f)) > (0 if t in u else o.index(t)), conf)
        return
    anc = [set(o[:o.index(i)]) - (set(u) if i in u else set()) for i in range(n)]
    m = model("rcd", n, matrix=B, ancestors=anc)
    unknown(c, m, B, n, lambda f, t: t in anc[f], conf)


@harness("C09", [dict(n=3, L=3, order=[1, 2, 0], lag=k) for k in (0, 2, 3)])
def larger_var(c, cfg):
    n, L = cfg["n"], cfg["L"]
    var_check(c, cfg, part_mats(c, n, L, cfg["order"]))


@harness("C09", [dict(n=3, L=(3, 1), order=[1, 2, 0], lag=k) for k in (1, 3)])
def larger_varma(c, cfg):
    n, (p, q) = cfg["n"], cfg["L"]
    Om = zeros(c, n, n)
    Om[0, 2], Om[1, 1] = c.real("w"), 0.25
    varma_check(c, cfg, part_mats(c, n, p, cfg["order"]), [Om])


def part_mats(c, n, L, order):
    Bs = [part(c, "b", n, order, ((2, 0),))]
    for lag in range(1, L + 1):
        M = zeros(c, n, n)
        for i in range(n):
            for j in range(n):
                if (i + 2 * j + lag) % 3 == 0:
                    M[i, j] = (1 + (i + j * lag) % 4) / 8.0 * (-1) ** j
        if lag in (1, L):
            M[lag % n, (lag + 1) % n] = c.real(f"m{lag}")
        Bs.append(M)
    return Bs


def unknown_cases():
    out = []
    for o in ([0, 1, 2], [2, 0, 1], [1, 2, 0]):
        out.append(dict(order=o, block=1))          # no unknown pair
        out.append(dict(order=o, block=2))          # the first two have unknown order
        out.append(dict(order=o, block=3))
    return out


@harness("C09", unknown_cases())
def bottom_up(c, cfg):
    n, o, k = 3, cfg["order"], cfg["block"]
    B = dag(c, "b", n, o)
    for a in o[:k]:
        for b in o[:k]:
            if a != b:
                B[a, b] = np.nan
    order = ([sorted(o[:k])] if k > 1 else []) + [x for x in (o[k:] if k > 1 else o)]
    pos = {x: (0 if x in o[:k] else 1 + o.index(x)) if k > 1 else o.index(x) for x in range(n)}
    m = model("bottomup", n, order=order, matrix=B)
    unknown(c, m, B, n, lambda f, t: pos[f] > pos[t], lambda f: any(isnan(B[f, j]) for j in range(n)))


def unknown(c, m, B, n, late, conf):
    X = generic(37, n, 5)
    f, t = pairs(c, n)
    (e, w) = warned(lambda: m.estimate_total_effect(X, f, t))
    c.check(w == (late(f, t) or conf(f)), "a warning is given exactly when the effect may be incorrect")
    par = [j for j in range(n) if nz(B[f, j])]
    if conf(f):
        c.check(isnan(e), "no effect of a variable with unknown causes")
    elif t not in par:
        c.check_eq(e, float(ols(X, [f] + par, X[:, t])[0]), f"effect {f}->{t} adjusted for {par}")
    (e, w) = warned(lambda: m.estimate_total_effect2(f, t))
    c.check(w == (late(f, t) or conf(f)), "a warning is given exactly when the effect may be incorrect")
    if conf(f):
        c.check(isnan(e), "no effect of a variable with unknown causes")
    elif not late(f, t):
        c.check_eq(e, path_sum(c, B, n, f, t), f"effect {f}->{t} from coefficients")


RC = [dict(order=o, conf=cf) for o in ([0, 1, 2], [2, 0, 1], [1, 0, 2]) for cf in (None, (0, 1), (1, 2), (0, 2))]


@harness("C09", RC)
def rcd(c, cfg):
    n, o = 3, cfg["order"]
    B = dag(c, "b", n, o)
    if cfg["conf"]:
        i, j = cfg["conf"]
        B[i, j] = B[j, i] = np.nan
    anc = [set(o[:o.index(i)]) for i in range(n)]
    if cfg["conf"]:
        anc[i].discard(j)
        anc[j].discard(i)
    m = model("rcd", n, matrix=B, ancestors=anc)
    unknown(c, m, B, n, lambda f, t: t in anc[f], lambda f: any(isnan(B[f, k]) for k in range(n)))


@harness("C09", [dict(order=o, conf=cf) for o in ([0, 1, 2], [2, 1, 0]) for cf in (None, (1, 2))])
def group_rcd(c, cfg):
    n, o = 3, cfg["order"]
    Bs = [dag(c, "b", n, o, zero=((o[1], o[0]),)), dag(c, "d", n, o)]
    anc = [set(o[:o.index(i)]) for i in range(n)]
    if cfg["conf"]:
        i, j = cfg["conf"]
        for B in Bs:
            B[i, j] = B[j, i] = np.nan
        anc[i].discard(j)
        anc[j].discard(i)
    m = model("mgrcd", n, matrix=Bs, ancestors=anc)
    Xs = [generic(37, n, 5), generic(29, n, 6)]
    f, t = pairs(c, n)
    (e, w) = warned(lambda: m.estimate_total_effect(Xs, f, t))
    conf = cfg["conf"] is not None and f in cfg["conf"]
    c.check(w == (conf or t in anc[f]), "a warning is given exactly when the effect may be incorrect")
    (e2, w) = warned(lambda: m.estimate_total_effect2(f, t))
    c.check(w == (conf or t in anc[f]), "a warning is given exactly when the effect may be incorrect (from coefficients)")
    if conf:
        c.check(all(isnan(v) for v in list(e) + list(e2)), "no effect of a variable with unknown causes")
        return
    c.check(len(e) == 2 and len(e2) == 2, "one effect per group")
    for g in range(2):
        par = [k for k in range(n) if nz(Bs[g][f, k])]
        if t not in par:
            c.check_eq(e[g], float(ols(Xs[g], [f] + par, Xs[g][:, t])[0]), f"group {g}: effect {f}->{t}")
        if t not in anc[f]:
            c.check_eq(e2[g], path_sum(c, Bs[g], n, f, t), f"group {g}: effect {f}->{t} from coefficients")


def lagged(X, k):
    return np.roll(X, k, axis=0)


def one_of(c, e, vals, what):
    """The first rows of lagged data may be wrapped around or dropped."""
    c.check(any(abs(float(e) - v) <= 1e-7 * max(1, abs(v)) for v in vals), f"{what}: {float(e)!r} not in {vals}")


def var_mats(c, n, L, order, free):
    Bs = [dag(c, "b", n, order)]
    k = 0
    for lag in range(1, L + 1):
        M = zeros(c, n, n)
        for i in range(n):
            for j in range(n):
                if free is None or (lag, i, j) in free:
                    M[i, j] = c.real(f"m{lag}_{i}_{j}")
        Bs.append(M)
    return Bs


def unrolled(Bs, n, steps):
    """effects[s*n+i][u*n+j]: effect of variable j at lag u on variable i at lag s, for lags 0..steps"""
    N = n * (steps + 1)
    A = [[0.0] * N for _ in range(N)]
    for s in range(steps + 1):
        for lag, M in enumerate(Bs):
            if s + lag <= steps:
                for i in range(n):
                    for j in range(n):
                        A[s * n + i][(s + lag) * n + j] = M[i, j]
    return A


V = [dict(n=2, L=1, order=o, lag=k) for o in ([0, 1], [1, 0]) for k in (0, 1, 2)] + [
    dict(n=2, L=2, order=[1, 0], lag=k) for k in (0, 1, 2)]
V3 = [dict(n=3, L=1, order=[1, 2, 0], lag=1)]


def fut(c, cfg):
    """(from, to) at from_lag = cfg['lag']"""
    n = cfg["n"]
    if cfg["lag"] == 0:
        return pairs(c, n)
    return divmod(c.choose("pair", n * n), n)


@harness("C09", {"quick": V, "thorough": V + V3})
def var(c, cfg):
    n, L, lag = cfg["n"], cfg["L"], cfg["lag"]
    Bs = var_mats(c, n, L, cfg["order"], None if L == 1 else {(1, 0, 0), (1, 1, 0), (2, 0, 1), (2, 1, 1)})
    var_check(c, cfg, Bs)


def var_check(c, cfg, Bs):
    n, L, lag = cfg["n"], cfg["L"], cfg["lag"]
    m = model("var", n, L, order=list(cfg["order"]), matrix=arr(c, np.array(Bs)))
    X = generic(41, n, 7)
    f, t = fut(c, cfg)
    (e, w) = warned(lambda: m.estimate_total_effect(X, f, t, from_lag=lag))
    late = lag == 0 and cfg["order"].index(f) > cfg["order"].index(t)
    c.check(w == late, "a warning is given exactly when the destination comes first")
    par = [(s, j) for s in range(L + 1) for j in range(n) if nz(Bs[s][f, j])]
    if not (lag == 0 and (0, t) in par):
        cols = [lagged(X, lag)[:, f]] + [lagged(X, lag + s)[:, j] for s, j in par]
        A = np.column_stack(cols)
        cut = L + lag
        one_of(c, e, [float(ols(A, range(A.shape[1]), X[:, t])[0]),
                      float(ols(A[cut:], range(A.shape[1]), X[cut:, t])[0])], f"effect {f}(t-{lag})->{t}")
    (e2, w) = warned(lambda: m.estimate_total_effect2(n, f, t, from_lag=lag))
    c.check(w == late, "a warning is given exactly when the destination comes first (from coefficients)")
    if not late:
        A = unrolled(Bs, n, lag)
        c.check_eq(e2, path_sum(c, A, n * (lag + 1), lag * n + f, t), f"effect {f}(t-{lag})->{t} from coefficients")


W = [dict(n=2, L=(1, 1), order=o, lag=k) for o in ([0, 1], [1, 0]) for k in (0, 1)] + [
    dict(n=2, L=(1, 1), order=[0, 1], lag=2), dict(n=2, L=(2, 1), order=[0, 1], lag=1),
    dict(n=2, L=(1, 2), order=[1, 0], lag=1), dict(n=2, L=(2, 1), order=[0, 1], lag=2)]


@harness("C09", W)
def varma(c, cfg):
    n, (p, q), lag = cfg["n"], cfg["L"], cfg["lag"]
    big = p + q > 2
    Bs = var_mats(c, n, p, cfg["order"], {(1, 0, 0), (1, 1, 0), (2, 0, 1), (2, 1, 1)} if big else
                  {(1, 0, 0), (1, 1, 0), (1, 0, 1)})
    Om = []
    for k in range(1, q + 1):
        M = zeros(c, n, n)
        for i, j in ([(0, 1)] if k == 1 else [(1, 0)]) + ([] if big else [(1, 0)]):
            M[i, j] = c.real(f"w{k}_{i}_{j}")
        Om.append(M)
    varma_check(c, cfg, Bs, Om)


def varma_check(c, cfg, Bs, Om):
    n, (p, q), lag = cfg["n"], cfg["L"], cfg["lag"]
    m = model("varma", n, (p, q), order=list(cfg["order"]), matrix=(arr(c, np.array(Bs)), arr(c, np.array(Om))))
    X, E = generic(41, n, 7), generic(41, n, 11)
    f, t = fut(c, cfg)
    (e, w) = warned(lambda: m.estimate_total_effect(X, E, f, t, from_lag=lag))
    late = lag == 0 and cfg["order"].index(f) > cfg["order"].index(t)
    c.check(w == late, "a warning is given exactly when the destination comes first")
    par = [(s, j) for s in range(p + 1) for j in range(n) if nz(Bs[s][f, j])]
    epar = [(s, j) for s in range(1, q + 1) for j in range(n) if nz(Om[s - 1][f, j])]
    if not (lag == 0 and (0, t) in par):
        cols = ([lagged(X, lag)[:, f]] + [lagged(X, lag + s)[:, j] for s, j in par]
                + [lagged(E, lag + s)[:, j] for s, j in epar])
        A = np.column_stack(cols)
        cut = max(p, q) + lag
        one_of(c, e, [float(ols(A, range(A.shape[1]), X[:, t])[0]),
                      float(ols(A[cut:], range(A.shape[1]), X[cut:, t])[0])], f"effect {f}(t-{lag})->{t}")
    (e2, w) = warned(lambda: m.estimate_total_effect2(n, f, t, from_lag=lag))
    c.check(w == late, "a warning is given exactly when the destination comes first (from coefficients)")
    if not late:
        A = unrolled(Bs, n, lag)
        c.check_eq(e2, path_sum(c, A, n * (lag + 1), lag * n + f, t), f"effect {f}(t-{lag})->{t} from coefficients")


LG = [dict(n=2, L=(3, 1), ft=1, tt=1), dict(n=2, L=(3, 1), ft=1, tt=2), dict(n=2, L=(4, 2), ft=2, tt=3),
      dict(n=2, L=(4, 2), ft=3, tt=3), dict(n=2, L=(4, 2), ft=2, tt=2), dict(n=3, L=(5, 3), ft=3, tt=4)]


@harness("C09", LG)
def longitudinal(c, cfg):
    n, (T, L), ft, tt = cfg["n"], cfg["L"], cfg["ft"], cfg["tt"]
    orders = [[np.nan] * n if t < L else (list(range(n)) if t % 2 else list(range(n))[::-1]) for t in range(T)]
    A = zeros(c, T, L + 1, n, n)
    for t in range(T):
        for lag in range(L + 1):
            if t < L:
                A[t, lag] = np.nan
            else:
                for i in range(n):
                    for j in range(n):
                        if lag == 0 and orders[t].index(j) >= orders[t].index(i):
                            continue
                        if t in (ft, tt) and (L == 1 or (i + j + lag) % 2) and (n == 2 or (lag, i, j) in ((0, 1, 0), (3, 2, 2), (1, 0, 2))):
                            A[t, lag, i, j] = c.real(f"a{t}_{lag}_{i}_{j}")
                        else:
                            A[t, lag, i, j] = 0.5 + 0.25 * i - 0.125 * j
    m = model("long", n, (T, L), order=orders, matrix=A)
    Xt = [generic(40, n, 20 + t) for t in range(T)]
    if ft == tt:
        f, t = pairs(c, n)
    else:
        f, t = divmod(c.choose("pair", n * n), n)
    (e, w) = warned(lambda: m.estimate_total_effect(Xt, ft, f, tt, t))
    late = ft == tt and orders[ft].index(f) > orders[ft].index(t)
    c.check(w == late, "a warning is given exactly when the destination comes first")
    par = [(s, j) for s in range(L + 1) for j in range(n) if nz(A[ft, s, f, j])]
    if not (ft == tt and (0, t) in par):
        M = np.column_stack([Xt[ft][:, f]] + [Xt[ft - s][:, j] for s, j in par])
        c.check_eq(e, float(ols(M, range(M.shape[1]), Xt[tt][:, t])[0]), f"effect {f}({ft})->{t}({tt})")
    (e2, w) = warned(lambda: m.estimate_total_effect2(ft, f, tt, t))
    c.check(w == late, "a warning is given exactly when the destination comes first (from coefficients)")
    if not late:
        k = tt - ft
        U = [[0.0] * (n * (k + 1)) for _ in range(n * (k + 1))]
        for a in range(k + 1):
            for b in range(max(0, a - L), a + 1):
                for i in range(n):
                    for j in range(n):
                        U[a * n + i][b * n + j] = A[ft + a, a - b, i, j]
        c.check_eq(e2, path_sum(c, U, n * (k + 1), f, k * n + t), f"effect {f}({ft})->{t}({tt}) from coefficients")
