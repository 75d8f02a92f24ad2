"""C11: ancestors, direct causes and confounded pairs found by the RCD family."""
import itertools
import re

import numpy as np
import scipy.optimize
import scipy.stats

import lingam
import lingam.hsic
import lingam.utils
from symx.core import PathCut
from symx.run import harness

from .fakes import Chi2, chi2_env, module_env
from .lib import dice, isnan

META = {
    "bounds": "3 variables, up to 2 explanatory variables, every outcome of every non-Gaussianity, correlation and "
              "independence test (all p-values in [0, 1], all F-correlations); two groups; also 4-5 variables "
              "with up to 3 explanatory variables where 5-12 % of the test outcomes are open and the others fixed; fixed "
              "data in general position; the three significance levels fixed and distinct",
    "outside": "more variables; the numerical value of the tests",
    "assumptions": ["each test returns an arbitrary value determined by the residuals it is given; the chi-squared "
                    "distribution function is strictly increasing"],
}
HSIC, FCORR = lingam.hsic.hsic_test_gamma, lingam.utils.f_correlation
SHAPIRO, PEARSON, CHI2, BFGS = (scipy.stats.shapiro, scipy.stats.pearsonr, scipy.stats.chi2,
                                scipy.optimize.fmin_l_bfgs_b)
ML = [0.3, -0.2]
CUR = {}


def data(n, g, seed=None):
    if seed is None:
        return np.random.RandomState(30 + g).uniform(-1, 1, (12, n)) ** 3 + np.arange(n)
    rng = np.random.RandomState(seed)
    order = list(rng.permutation(n))
    rng = np.random.RandomState(1000 + seed + 50 * g)
    X = np.zeros((200 + 20 * g, n))
    for a, i in enumerate(order):
        X[:, i] = rng.exponential(size=len(X))
        for b in order[:a]:
            X[:, i] += (0.9 if (seed + a + b) % 3 else 0.0) * X[:, b]
    if seed % 3 == 0:
        h = rng.exponential(size=len(X)) * 2
        X[:, order[0]] += h
        X[:, order[min(n - 1, (seed % 2) + 1)]] += h
    return X


def resid(X, j, S):
    y = X[:, j]
    if not S:
        return y - y.mean()
    A = np.column_stack([np.ones(len(y))] + [X[:, s] for s in S])
    return y - A @ np.linalg.lstsq(A, y, rcond=None)[0]


_SETUP = {}


def setup(Xs):
    n = Xs[0].shape[1]
    tag = tuple(X.tobytes() for X in Xs)
    if tag in _SETUP:
        CUR["r"] = _SETUP[tag]
        return
    CUR["r"] = []
    for g, X in enumerate(Xs):
        R = {}
        for j in range(n):
            others = [i for i in range(n) if i != j]
            for k in range(n):
                for S in itertools.combinations(others, k):
                    R[(j, S)] = resid(X, j, list(S))
        # the residuals of the second kind of regression
        for H in [()] + [(h,) for h in range(n)]:
            for j in range(n):
                J = [i for i in range(n) if i != j and i not in H]
                if j not in H and len(J) >= 2:
                    for J2 in itertools.combinations(J, 2):
                        v = R[(j, H)] - ML[0] * R[(J2[0], H)] - ML[1] * R[(J2[1], H)]
                        R[("ml", j, J2, H)] = v - v.mean()
        CUR["r"].append(R)
    _SETUP.clear()
    _SETUP[tag] = CUR["r"]
    _INDEX.clear()


_INDEX = {}


def index(g, R):
    """Standardised residuals of a group as one matrix."""
    if g not in _INDEX or _INDEX[g][0] is not R:
        ks = [k for k, w in R.items() if w.std() > 1e-12]
        _INDEX[g] = R, ks, np.array([R[k] / R[k].std() for k in ks])
    return _INDEX[g][1:]


def find(v):
    v = np.asarray(v, dtype=float).ravel()
    v = v - v.mean()
    if v.std() < 1e-9:
        return "zero"
    v = v / v.std()
    for g, R in enumerate(CUR["r"]):
        ks, W = index(g, R)
        if len(v) == W.shape[1]:
            d = np.abs(W - v).max(axis=1)
            k = int(d.argmin())
            if d[k] < 1e-6:
                return g, ks[k]
    return None


def key(kind, *vs):
    ks = [find(v) for v in vs]
    if "zero" in ks:
        return kind + "zero"
    if any(k is None for k in ks):
        if not CUR["c"].symbolic:
            raise PathCut("a test of something else")
        CUR["k"] = CUR.get("k", 0) + 1
        return f"{kind}?{CUR['k']}"
    return name(kind, *ks)


def name(kind, *ks):
    return kind + "~".join(sorted(repr(k).replace(" ", "").replace("'", "") for k in ks))


def env(c, cfg):
    CUR.clear()
    CUR["c"] = c
    if not c.symbolic and "real" in c.model:
        return []

    def shapiro(v, *a, **k):
        return 0.0, value(c, cfg, key("s", v))

    def pearson(a, b, *r, **k):
        return 0.0, value(c, cfg, key("c", a, b))

    def hsic(X, Y, bw_method="mdbs", **k):
        if bw_method != BW:
            # not the test that was asked for
            if not c.symbolic:
                return HSIC(X, Y, bw_method=bw_method)
            CUR["k"] = CUR.get("k", 0) + 1
            return 0.0, c.real(f"p?{CUR['k']}", lo=0, hi=1)
        return 0.0, value(c, cfg, key("p", X, Y))

    def fcorr(X, Y, *a, **k):
        return value(c, cfg, key("f", X, Y))

    def bfgs(*a, **k):
        x0 = k.get("x0", a[1] if len(a) > 1 else None)
        return np.array(ML[:len(x0)]), 0.0, {}
    return (module_env(scipy.stats, shapiro=shapiro, pearsonr=pearson, chi2=Chi2)
            + module_env(scipy.optimize, fmin_l_bfgs_b=bfgs) + [(HSIC, hsic), (FCORR, fcorr)])


ALPHA = dict(cor_alpha=0.02, ind_alpha=0.05, shapiro_alpha=0.1, ind_corr=0.4)
BW = "scott"


def value(c, cfg, k):
    """Test results; those the configuration does not vary are significant."""
    if k[1:] == "zero":
        return np.nan
    if "seed" in cfg and "?" not in k:
        # a fixed arbitrary outcome for most tests, the others open
        u, v = dice(cfg["seed"], k)
        if u < cfg["frac"]:
            return c.real(k, lo=0, hi=1)
        if k[0] == "s":
            return 1.0 if v < 0.05 else 0.0
        if k[0] == "c":
            return 1.0 if v < 0.15 else 0.0
        return 1.0 if v < 0.35 else 0.0
    if k[0] == "s" and not cfg.get("shapiro"):
        return 0.0
    if k[0] == "c" and cfg.get("corr") is False:
        return 0.0
    if k[0] == "p" and cfg.get("chain"):
        # the later variable of a pair is a sink
        m = re.search(r"\(\d,\((\d),\(\d", k)
        o = re.search(r"\(\d,\((\d),\(\)", k)
        return 1.0 if m and o and int(m.group(1)) > int(o.group(1)) else 0.0
    if k[0] == "c" and cfg.get("one") and k[1:].startswith("(1,"):
        return 1.0
    if k[0] in "pf" and cfg.get("one") and k[1:].startswith("(1,"):
        return 1.0 if k[0] == "p" else 0.3
    if k[0] == "p" and cfg.get("ml") and "ml" not in k and not re.search(r"\(\d,\d\)\)", k):
        return 0.0
    return c.real(k, lo=0, hi=1)


class Ref:
    """The documented procedure, with the tests as an oracle over (variable, regressors) residuals."""

    def __init__(self, c, cfg, n, k, real, Xs):
        self.c, self.cfg, self.n, self.k, self.real, self.Xs = c, cfg, n, k, real, Xs

    def test(self, kind, *vs):
        """Combined p-value over the groups (Fisher); for F-correlation the largest value."""
        c, vals = self.c, []
        for g in range(self.k):
            if self.real:
                r = [CUR["r"][g][v] for v in vs]
                if kind == "s":
                    p = SHAPIRO(r[0])[1]
                elif kind == "c":
                    p = PEARSON(*r)[1]
                elif kind == "p":
                    p = HSIC(r[0].reshape(-1, 1), r[1].reshape(-1, 1), bw_method=BW)[1]
                else:
                    p = FCORR(r[0].reshape(-1, 1), r[1].reshape(-1, 1))
            else:
                p = value(c, self.cfg, name(kind, *[(g, v) for v in vs]))
            vals.append(p)
        if kind == "f":
            v = vals[0]
            for w in vals[1:]:
                v = w if bool(w > v) else v
            return v
        if self.k == 1:
            return vals[0]
        stat = 0.0
        for p in vals:
            if bool(p == 0):
                stat = np.inf
                break
            stat = stat + -2 * (p.log() if hasattr(p, "log") and c.symbolic else np.log(float(p)))
        return CHI2.sf(stat, 2 * self.k) if self.real else Chi2.sf(stat, 2 * self.k)

    def correlated(self, a, b):
        return bool(self.test("c", a, b) < ALPHA["cor_alpha"])

    def independent(self, a, b):
        if self.cfg.get("ind") == "fcorr":
            return bool(self.test("f", a, b) < ALPHA["ind_corr"])
        return bool(self.test("p", a, b) > ALPHA["ind_alpha"])

    def indep_of_resid(self, i, J, H):
        S = tuple(sorted(set(J) | set(H)))
        if all(self.independent((i, S), (j, H)) for j in J):
            return True
        if len(J) == 1 or not self.cfg.get("ml"):
            return False
        return all(self.independent(("ml", i, tuple(sorted(J)), H), (j, H)) for j in J)

    def ancestors(self):
        n, M, seen, size = self.n, [set() for _ in range(self.n)], {}, 2
        while True:
            changed = False
            for U in itertools.combinations(range(n), size):
                H = tuple(sorted(set.intersection(*[M[u] for u in U])))
                if seen.get(U) == H:
                    continue
                if any(bool(self.test("s", (u, H)) > ALPHA["shapiro_alpha"]) for u in U):
                    continue
                if not all(self.correlated((a, H), (b, H)) for a, b in itertools.combinations(U, 2)):
                    continue
                sinks = []
                for i in U:
                    J = [j for j in U if j != i]
                    if any(i in M[j] for j in J) or set(J) <= M[i]:
                        continue
                    if self.indep_of_resid(i, J, H):
                        sinks.append(i)
                if len(sinks) == 1:
                    new = set(U) - set(sinks)
                    if not new <= M[sinks[0]]:
                        M[sinks[0]] |= new
                        changed = True
                seen[U] = H
            if changed:
                size = 2
            elif size <= self.cfg["m"]:
                size += 1
            else:
                return M

    def parents(self, M):
        return [{j for j in M[i] if self.correlated((i, tuple(sorted(M[i] - {j}))), (j, tuple(sorted(M[i] & M[j]))))}
                for i in range(self.n)]

    def confounded(self, P):
        return {(i, j) for i, j in itertools.combinations(range(self.n), 2) if i not in P[j] and j not in P[i]
                and self.correlated((i, tuple(sorted(P[i]))), (j, tuple(sorted(P[j]))))}


def models(cfg, model):
    rng = np.random.RandomState(7)
    out = []
    for r in range(30):
        m = dict(model)
        for k in m:
            if k[0] in "scpf":
                m[k] = float(rng.choice([1e-4, 0.015, 0.03, 0.07, 0.3, 0.39, 0.41, rng.rand()]))
        out.append(m)
    for s in range(40):
        out.append(dict(model, real=1, seed=s))
    return out


Q = [dict(n=3, m=2, cls="rcd"), dict(n=3, m=2, cls="rcd", ind="fcorr"), dict(n=3, m=1, cls="rcd", shapiro=True, corr=False),
     dict(n=3, m=2, cls="rcd", ml=True, corr=False), dict(n=3, m=2, cls="util"), dict(n=3, m=2, cls="util", ml=True, corr=False),
     dict(n=3, m=1, cls="util", shapiro=True, corr=False),
     dict(n=3, m=1, cls="group", corr=False, one=True), dict(n=2, m=1, cls="group", ind="fcorr"), dict(n=3, m=1, cls="group", chain=True, one=True), dict(n=2, m=1, cls="group", shapiro=True),
]
Q += [dict(n=n, m=m, cls=cls, ind=ind, seed=s, frac=f) for n, m, cls, ind, s, f in (
    (4, 2, "rcd", "hsic", 1, 0.2), (4, 3, "rcd", "hsic", 2, 0.3), (4, 3, "rcd", "hsic", 3, 0.2), (5, 2, "rcd", "hsic", 4, 0.12),
    (4, 2, "rcd", "fcorr", 5, 0.2), (4, 2, "util", "hsic", 6, 0.2), (5, 3, "util", "hsic", 7, 0.1), (6, 2, "rcd", "hsic", 12, 0.05),
    (4, 2, "group", "hsic", 8, 0.1), (4, 2, "group", "hsic", 9, 0.05), (4, 3, "group", "fcorr", 10, 0.08),
    (3, 2, "group", "fcorr", 11, 0.25), (3, 2, "group", "fcorr", 13, 0.25), (5, 2, "group", "hsic", 14, 0.03))]


@harness("C11", {"quick": Q, "thorough": Q + [dict(n=3, m=2, cls="group", ml=True, corr=False), dict(n=3, m=1, cls="group", corr=False),
                                          dict(n=3, m=1, cls="group", corr=False, ind="fcorr", one=True)]
                 + [dict(n=4, m=3, cls=k, ind=i, seed=100 + q, frac=0.2 if k == "rcd" else 0.1) for q in range(12)
                    for k in ("rcd", "group") for i in ("hsic", "fcorr")]}, env=env, retry=models,
         max_decisions=6000)
def rcd(c, cfg):
    n, cls = cfg["n"], cfg["cls"]
    real = not c.symbolic and "real" in c.model
    k = 2 if cls == "group" else 1
    Xs = [data(n, g, int(c.model["seed"]) if real else None) for g in range(k)]
    setup(Xs)
    ref = Ref(c, cfg, n, k, real, Xs)
    kw = dict(max_explanatory_num=cfg["m"], MLHSICR=bool(cfg.get("ml")), bw_method=BW, **ALPHA)
    if real and cfg.get("ml"):
        raise PathCut("numerical optimisation")
    if cls == "util":
        kw.pop("ind_corr")
        M = lingam.utils.extract_ancestors(Xs[0], **kw)
    else:
        kw["independence"] = cfg.get("ind", "hsic")
        m = (lingam.MultiGroupRCD if k == 2 else lingam.RCD)(**kw)
        c.check(m.fit(Xs if k == 2 else Xs[0]) is m, "fit returns the model")
        M = m.ancestors_list_
    M = [set(int(v) for v in a) for a in M]
    for i in range(n):
        c.check(i not in M[i], f"{i} is not its own ancestor")
        for j in M[i]:
            c.check(i not in M[j], f"{i} and {j} are not ancestors of each other")
    want = ref.ancestors()
    c.check(M == want, f"ancestors {M}, expected {want}")
    if cls == "util":
        return
    P = ref.parents(want)
    C = ref.confounded(P)
    Bs = m.adjacency_matrices_ if k == 2 else [m.adjacency_matrix_]
    c.check(len(Bs) == k, "one matrix per group")
    for X, B in zip(Xs, Bs):
        c.check(np.shape(B) == (n, n), "shape")
        for i in range(n):
            pa = sorted(P[i])
            co = {}
            if pa:
                A = np.column_stack([np.ones(len(X))] + [X[:, p] for p in pa])
                co = dict(zip(pa, np.linalg.lstsq(A, X[:, i], rcond=None)[0][1:]))
            for j in range(n):
                if (i, j) in C or (j, i) in C:
                    c.check(isnan(float(B[i, j])), f"{i}, {j} share a confounder: NaN")
                else:
                    c.check(abs(float(B[i, j]) - co.get(j, 0.0)) <= 1e-6 * (1 + abs(co.get(j, 0.0))),
                            f"coefficient {j}->{i}: {float(B[i, j])}, expected {co.get(j, 0.0)}")
