"""C26: DirectLiNGAM takes the most independent variable at every step."""
import itertools
from fractions import Fraction

import numpy as np

import lingam
from symx import arr as symarr
from symx.core import ONE, S
from symx.run import harness

from .lib import dice
from .fakes import sem_data, vec

META = {
    "bounds": "2-3 variables (4-5 with most averages settled), one or two groups; every value of the two averages the "
              "entropy approximation is made of, and of the determinants the kernel measure is made of, per variable and "
              "set of removed variables",
    "outside": "more variables; the GPU variant (pwling_fast); the numerical value of cosh, exp and the singular values",
    "assumptions": ["the average of log cosh and of u exp(-u^2/2) are arbitrary per standardised residual; the product "
                    "of the singular values of a kernel matrix is arbitrary per pair"],
}
CUR = {}
K1, K2, GAMMA = 79.047, 7.4129, 0.37457


def data(n, seed=None, rows=6, g=0):
    if seed is None:
        return np.random.RandomState(11 + g).uniform(-1, 1, (rows, n)) ** 3
    X = sem_data(n, list(np.random.RandomState(seed).permutation(n)), seed + 101 * g, 60 + 37 * g)
    rng = np.random.RandomState(seed + 5)
    if seed % 3 == 1:
        X = X + rng.laplace(size=X.shape) * (1 + seed % 4)
    if seed % 3 == 2:
        X[:, seed % n] += 2 * rng.uniform(-1, 1, len(X)) ** 3
    return X * rng.uniform(0.2, 9, n) + rng.uniform(-5, 5, n)


def resid(X, i, T):
    Z = X - X.mean(0)
    T = sorted(T)
    return Z[:, i] - (Z[:, T] @ np.linalg.lstsq(Z[:, T], Z[:, i], rcond=None)[0] if T else 0)


def setup(Xs):
    n = Xs[0].shape[1]
    CUR["v"] = {}
    for g, X in enumerate(Xs):
        for i in range(n):
            for k in range(n):
                for T in itertools.combinations([q for q in range(n) if q != i], k):
                    r = resid(X, i, T)
                    CUR["v"][(g, i, T)] = r / r.std()


def name(k):
    return f"{k[0]}.{k[1]}|{''.join(map(str, sorted(k[2])))}"


def lookup(w, f):
    for k, v in CUR["v"].items():
        if len(v) == len(w) and any(np.allclose(f(s * v), w, atol=1e-8) for s in (1, -1)):
            return k, v
    CUR["k"] = CUR.get("k", 0) + 1
    return None, None


def flt(a):
    return np.array(np.asarray(a).tolist(), dtype=float)


def snap(v):
    """Remove rounding errors of the concrete data from the coefficients."""
    if not isinstance(v, S) or not v.q == ONE:
        return v
    return S(type(v.n)({m: Fraction(GAMMA) if abs(float(f) - GAMMA) < 1e-9 else Fraction(round(float(f), 9)).limit_denominator(10 ** 9)
                        for m, f in v.n.d.items()}))


def level(c, kind, nm):
    """The arbitrary part of an entropy: H = const - K1 * L - K2 * E."""
    if kind == "E" and not CUR["both"]:
        return np.float64(0.0)
    return c.real(kind + nm, lo=0)


def root(v):
    return v.sqrt() if isinstance(v, S) else np.float64(np.sqrt(v))


def facade(c):
    base = symarr.make_facade()

    def cosh(x, *a, **kw):
        if np.ndim(x) != 1:
            raise NotImplementedError("cosh")
        x = flt(x)
        k, v = lookup(x, lambda u: u)
        nm = name(k) if k else f"?{CUR['k']}"
        C = c.real("C" + nm, lo=1)
        CUR["log"][(C.n, C.q)] = GAMMA + root(level(c, "L", nm))
        return vec(c, [C] * len(x))

    def log(x, *a, **kw):
        if isinstance(x, np.ndarray) and x.size and all(isinstance(e, S) and (e.n, e.q) in CUR["log"] for e in x.flat):
            return vec(c, [CUR["log"][(e.n, e.q)] for e in x.flat])
        return base.log(x, *a, **kw)

    def exp(x, *a, **kw):
        if np.ndim(x) != 1:
            return np.exp(flt(x))
        x = flt(x)
        k, v = lookup(x, lambda u: -u ** 2 / 2)
        e = root(level(c, "E", name(k) if k else f"?{CUR['k']}"))
        return vec(c, [e * (float(u) if k else 1.0) for u in (v if k else x)])

    def mean(x, *a, **kw):
        r = base.mean(x, *a, **kw)
        return snap(r)

    def svd(A, *a, **kw):
        if kw.get("compute_uv", True):
            raise NotImplementedError("svd with vectors")
        A = flt(A)
        for k, M in CUR.get("mat", {}).items():
            if M.shape == A.shape and np.allclose(M, A, atol=1e-8):
                nm = k
                break
        else:
            CUR["k"] = CUR.get("k", 0) + 1
            nm = f"D?{CUR['k']}"
        return vec(c, [c.real(nm, lo=0.001)] + [np.float64(1.0)] * (len(A) - 1))
    lin = symarr.Facade(np.linalg, {"svd": svd})
    return symarr.Facade(np, dict(base._over, cosh=cosh, exp=exp, log=log, mean=mean, linalg=lin))


def env(c, cfg):
    CUR.clear()
    CUR.update(both=cfg.get('both', False), log={})
    return [(np, facade(c))] if c.symbolic else []


def models(cfg, model):
    return [dict(model, seed=s) for s in range(150)]


def H(c, k):
    """Entropy of a standardised residual by the maximum-entropy approximation."""
    if c.symbolic:
        l, e = level(c, "L", name(k)), level(c, "E", name(k))
    else:
        u = CUR["v"][k]
        l, e = (np.mean(np.log(np.cosh(u))) - GAMMA) ** 2, np.mean(u * np.exp(-u ** 2 / 2)) ** 2
    return (1 + np.log(2 * np.pi)) / 2 - K1 * l - K2 * e


def cost(c, g, i, left, gone):
    """Evidence against i coming first among `left`, given that the effects of `gone` are removed."""
    m = 0.0
    for j in left:
        if j != i:
            key = lambda a, extra=(): (g, a, tuple(sorted(list(gone) + list(extra))))  # noqa: E731
            d = (H(c, key(j)) + H(c, key(i, [j]))) - (H(c, key(i)) + H(c, key(j, [i])))
            if bool(d < 0):
                m = m + d * d
    return m


@harness("C26", {"quick": [dict(n=2, both=True), dict(n=3, few=True), dict(n=2, groups=2), dict(n=3, groups=2, few=True),
                           dict(n=3, few=True, before=[[0, 1]]), dict(n=3, few=True, before=[[2, 0]], no=[[1, 2]]),
                           dict(n=3, few=True, before=[[0, 1]], groups=2),
                           dict(n=4, seed=5, frac=0.1), dict(n=5, seed=2, frac=0.03), dict(n=4, seed=6, frac=0.04, groups=2),
                           dict(n=4, last=True), dict(n=4, groups=2, last=True), dict(n=3, seed=8, frac=0.1, groups=3)],
                 "thorough": [dict(n=2), dict(n=3), dict(n=2, groups=2), dict(n=3, groups=2)]},
         env=env, retry=models, max_decisions=4000)
def pairwise(c, cfg):
    n, G = cfg["n"], cfg.get("groups", 1)
    seed = None if c.symbolic else int(c.model.get("seed", 0))
    Xs = [data(n, seed, 6 + 2 * g, g) for g in range(G)]
    setup(Xs)
    for (g, i, T) in CUR["v"]:
        # free where it decides a comparison of its own, settled elsewhere
        if "seed" in cfg:
            u, v = dice(cfg["seed"], name((g, i, T)))
            if u >= cfg["frac"] and c.symbolic:
                c.assume(c.real("L" + name((g, i, T)), lo=0) == round(1 + 3 * v, 3))
            continue
        if (cfg.get("last") and len(T) < n - 1) or cfg.get("few") and not (len(T) and i < T[-1] and (g == 0 or (i, T) == (0, (2,)))):
            if c.symbolic:
                c.assume(c.real("L" + name((g, i, T)), lo=0) ==
                         round(1 + (3 * i + 1) * (len(T) + 2) / 7 + sum(T) / 5 + g / 3, 2))
    keep = [X.copy() for X in Xs]
    pk = None
    first = [tuple(p) for p in cfg.get("before", [])]
    if "before" in cfg or "no" in cfg:
        # an absent path one way only means: if anything, the other way round
        pk = -np.ones((n, n), dtype=int)
        for a, b in cfg.get("before", []):
            pk[b, a] = 1
        for a, b in cfg.get("no", []):
            pk[b, a] = 0
            if [b, a] not in cfg["no"]:
                first.append((b, a))
    m = (lingam.DirectLiNGAM(prior_knowledge=pk).fit(Xs[0]) if G == 1 else
         lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk).fit(Xs))
    for X, k in zip(Xs, keep):
        c.check(np.array_equal(X, k), "the data are not modified")
    order = [int(v) for v in m.causal_order_]
    c.check(sorted(order) == list(range(n)), "every variable occurs once")
    left, gone = list(range(n)), []
    total = sum(len(X) for X in Xs)
    for i in order[:-1]:
        M = {}
        allowed = [k for k in left if not any(b == k and a in left for a, b in first)]
        c.check(i in allowed, f"{i} may come next")
        for k in allowed:
            M[k] = sum((cost(c, g, k, left, gone) * (len(Xs[g]) / total) for g in range(1, G)),
                       cost(c, 0, k, left, gone) * (len(Xs[0]) / total))
        for k in allowed:
            c.check(M[i] <= (M[k] if c.symbolic else M[k] + 1e-9),
                    f"{i} is the most independent of {allowed} among {left} ({k})")
        left.remove(i)
        gone.append(i)


def kernel_mats(x, y, kappa, sigma):
    n = len(x)
    K = [np.exp(-(u[:, None] - u[None, :]) ** 2 / (2 * sigma ** 2)) for u in (x, y)]
    t = [k + n * kappa * np.identity(n) / 2 for k in K]
    return (np.block([[t[0] @ t[0], K[0] @ K[1]], [K[1] @ K[0], t[1] @ t[1]]]),
            np.block([[t[0] @ t[0], np.zeros((n, n))], [np.zeros((n, n)), t[1] @ t[1]]]))


@harness("C26", {"quick": [dict(n=2), dict(n=3), dict(n=4)], "thorough": [dict(n=2), dict(n=3), dict(n=4)]},
         env=env, retry=models, max_decisions=4000)
def kernel(c, cfg):
    n = cfg["n"]
    X = data(n, None if c.symbolic else int(c.model.get("seed", 0)), 5)
    CUR["mat"] = {}
    mi = {}
    Z = (X - X.mean(0)) / X.std(0)
    for j in range(n):
        for k in range(n - 1):
            for T in itertools.combinations([q for q in range(n) if q != j], k):
                for i in range(n):
                    if i == j or i in T:
                        continue
                    a, b = kernel_mats(resid(Z, j, T), resid(Z, i, tuple(T) + (j,)), 2e-2, 1.0)
                    key = f"{i}<{j}|{''.join(map(str, T))}"
                    CUR["mat"]["K" + key], CUR["mat"]["D" + key] = a, b
                    if c.symbolic:
                        mi[(i, j, T)] = -0.5 * (c.real("K" + key, lo=0.001).log() - c.real("D" + key, lo=0.001).log())
                    else:
                        mi[(i, j, T)] = -0.5 * (np.linalg.slogdet(a)[1] - np.linalg.slogdet(b)[1])
    order = [int(v) for v in lingam.DirectLiNGAM(measure="kernel").fit(X).causal_order_]
    c.check(sorted(order) == list(range(n)), "every variable occurs once")
    left, gone = list(range(n)), []
    for j in order[:-1]:
        T = tuple(sorted(gone))
        cst = {k: sum((mi[(i, k, T)] for i in left if i != k), 0.0) for k in left}
        for k in left:
            c.check(cst[j] <= (cst[k] if c.symbolic else cst[k] + 1e-9), f"{j} is the most independent of {left} ({k})")
        left.remove(j)
        gone.append(j)
