"""C14: interventional effects follow the structural equations."""
import numpy as np

import lingam
from lingam.base import _BaseLiNGAM
from symx.arr import make_facade
from symx.run import harness

from .lib import arr, check_unmutated, dag, gap, gapdag, part, sparse, mat_total, perms, raises, same, snapshot, bor, topo_ok, zeros

META = {
    "bounds": "3 variables (5, 6 and 12 with 2-3 symbolic coefficients), every causal order, every position of target and intervention, all real coefficients, all "
              "real data means and spreads (two symbolic observations per variable), linear / probability / product "
              "predictors with symbolic weights; up to two wasted draws of the random visiting order",
    "outside": "more variables; rounding; predictors other than the three forms",
    "assumptions": ["coefficients are 0 or above 1e-6 in absolute value where the code applies a tolerance"],
}


class Fitted(_BaseLiNGAM):
    """A fitted model with given order and coefficients."""

    def __init__(self, order, B):
        super().__init__()
        self._order, self._Bm = order, B

    def fit(self, X):
        raise AssertionError

    @property
    def causal_order_(self):
        return self._order

    @property
    def adjacency_matrix_(self):
        return self._Bm


def env(c, cfg):
    if not c.symbolic:
        return []
    n = [0]

    class R:
        @staticmethod
        def choice(a, *args, **kw):
            n[0] += 1
            a = list(a)
            if n[0] > cfg.get("draws", 4) and len(a) > 1:
                # remaining draws are fair: visit everything round robin
                return a[n[0] % len(a)]
            return a[c.choose(f"draw{n[0]}", len(a))]

        def __getattr__(self, k):
            return getattr(np.random, k)
    fac = make_facade(random=R())
    return [(np, fac), (np.random, R())]


class Lin:
    def __init__(self, w, b):
        self.coef_, self.intercept_ = w, b

    def predict(self, X):
        return arr_like(X, [sum((wi * xi for wi, xi in zip(self.coef_, row)), 0.0) + self.intercept_
                            for row in rows(X)])


def rows(X):
    return [list(r) for r in X]


def arr_like(X, v):
    a = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        a[i] = x
    return a


class Proba:
    def __init__(self, w, b):
        self.w, self.b = w, b

    def predict_proba(self, X):
        out = []
        for r in rows(X):
            p = sum((wi * xi for wi, xi in zip(self.w, r)), 0.0) + self.b
            out.append((1.0 - p, p))
        return out


class Prod:
    def __init__(self, w, b):
        self.w, self.b = w, b

    def predict(self, X):
        return arr_like(X, [self.w[0] * r[0] * r[1] + self.b for r in rows(X)])


def data(c, n):
    """Two observations per variable: mean m_i, standard deviation s_i > 0."""
    m = [c.real(f"m{i}") for i in range(n)]
    s = [c.real(f"s{i}", lo=0.25) for i in range(n)]
    X = zeros(c, 2, n)
    for i in range(n):
        X[0, i], X[1, i] = m[i] - s[i], m[i] + s[i]
    return X, m, s


C1 = [dict(order=p, target=t, form=f, given="model") for p, t, f in
      [([0, 1, 2], 2, "lin"), ([2, 0, 1], 0, "lin"), ([1, 2, 0], 2, "proba"), ([2, 1, 0], 1, "prod")]] + \
     [dict(order=[1, 0, 2], target=0, form="lin", given="matrix")]
C1T = [dict(order=p, target=t, form=f, given=g) for p in perms(3) for t in range(3) for f in ("lin", "proba", "prod")
       for g in ("model", "matrix")]


O5, O6 = [3, 1, 4, 0, 2], [5, 2, 0, 4, 1, 3]
C1L = [dict(n=5, order=O5, target=1, form="lin", given="model", sym=[(2, 1), (4, 2), (3, 0)], draws=1),
       dict(n=6, order=O6, target=4, form="proba", given="model", sym=[(1, 0), (5, 4), (3, 1)], draws=1),
       dict(n=5, order=O5, target=2, form="lin", given="matrix", sym=[(2, 1), (4, 2)], draws=1),
       dict(n=12, order=[7, 11, 3, 0, 10, 5, 8, 1, 6, 2, 9, 4], target=10, form="lin", given="model", sym=[(1, 0), (11, 4)],
            dens=0.2, draws=0)]


def equations(c, cfg, n, order):
    if "dens" in cfg:
        return sparse(c, "b", n, cfg["dens"], 3, [(order[a], order[b]) for a, b in cfg["sym"]], order)
    if "sym" in cfg:
        B = part(c, "b", n, order, [tuple(p) for p in cfg["sym"]], [(4, 0), (3, 2)])
        if cfg["given"] == "matrix":
            for a, b in cfg["sym"]:
                gap(c, B[order[a], order[b]])
        return B
    return gapdag(c, "b", n, order) if cfg["given"] == "matrix" else dag(c, "b", n, order)


@harness("C14", {"quick": C1 + C1L, "thorough": C1T + C1L}, env=env)
def on_prediction(c, cfg):
    n, order, t = cfg.get("n", 3), cfg["order"], cfg["target"]
    B = equations(c, cfg, n, order)
    X, m, s = data(c, n)
    w = [c.real(f"w{i}") if i < 3 else 0.5 * i - 1.75 for i in range(n - 1)]
    b0 = c.real("w_")
    pm = {"lin": Lin, "proba": Proba, "prod": Prod}[cfg["form"]](w, b0)
    ce = lingam.CausalEffect(Fitted(order, B) if cfg["given"] == "model" else B.tolist())
    snap = snapshot(X)
    E = ce.estimate_effects_on_prediction(X, t, pm)
    check_unmutated(c, X, snap, "the data are not modified")
    T = mat_total(c, B, n)

    def f(x):
        x = [x[i] for i in range(n) if i != t]
        if cfg["form"] == "prod":
            return w[0] * x[0] * x[1] + b0
        p = sum((u * v for u, v in zip(w, x)), b0)
        return 1.0 - 2.0 * p if cfg["form"] == "proba" else p
    c.check(tuple(np.shape(E)) == (n, 2), "one row per variable, two columns")
    for i in range(n):
        base = f(m)
        for k, sg in ((0, 1.0), (1, -1.0)):
            x = [m[q] + T[q][i] * sg * s[i] for q in range(n)]
            d = base - f(x)
            e = E[i, k]
            # |d| is the only nonnegative number whose square is d^2
            c.check_eq(e * e, d * d, f"effect of do(x{i} = mean {'+-'[k]} std)")
            c.check(e >= 0, "effects are absolute values")


C2 = [dict(order=p, target=t, inter=i, given="model") for p in ([0, 1, 2], [2, 0, 1], [1, 2, 0]) for t in range(3)
      for i in range(3) if i != t] + [dict(order=[2, 1, 0], target=0, inter=2, given="matrix"),
                                      dict(order=[0, 2, 1], target=2, inter=0, given="matrix")]
C2T = [dict(order=p, target=t, inter=i, given=g) for p in perms(3) for t in range(3) for i in range(3) if i != t
       for g in ("model", "matrix")]


C2L = [dict(n=5, order=O5, target=1, inter=3, given="model", sym=[(2, 1), (4, 2)], draws=1),
       dict(n=6, order=O6, target=3, inter=2, given="model", sym=[(1, 0), (5, 4), (4, 1)], draws=1),
       dict(n=5, order=O5, target=0, inter=4, given="matrix", sym=[(2, 1), (4, 2)], draws=1),
       dict(n=12, order=[7, 11, 3, 0, 10, 5, 8, 1, 6, 2, 9, 4], target=10, inter=11, given="model", sym=[(1, 0), (11, 4)],
            dens=0.2, draws=0)]


@harness("C14", {"quick": C2 + C2L, "thorough": C2T + C2L}, env=env, tol=1e-5)
def optimal(c, cfg):
    n, order, t, i = cfg.get("n", 3), cfg["order"], cfg["target"], cfg["inter"]
    B = equations(c, cfg, n, order)
    X, m, s = data(c, n)
    w = [c.real(f"w{k}") if k < 3 else 0.5 * k - 1.75 for k in range(n - 1)]
    b0, want = c.real("w_"), c.real("want")
    T = mat_total(c, B, n)
    wf = list(w)
    wf.insert(t, 0.0)
    gain = sum((wf[q] * T[q][i] for q in range(n)), 0.0)
    c.assume(gain != 0)
    if not c.symbolic:
        c.assume(abs(gain) > 1e-3)
    ce = lingam.CausalEffect(Fitted(order, B) if cfg["given"] == "model" else B.tolist())
    snap = snapshot(X)
    v = ce.estimate_optimal_intervention(X, t, Lin(arr(c, w), b0), i, want)
    check_unmutated(c, X, snap, "the data are not modified")
    y = sum((wf[q] * (m[q] + T[q][i] * (v - m[i])) for q in range(n)), b0)
    c.check_eq(y, want, f"prediction after do(x{i} = optimum)")


@harness("C14", [dict()], env=env)
def order_of_matrix(c, cfg):
    """A matrix given instead of a model: cyclic graphs are rejected, any acyclic one accepted."""
    n = 3
    B = zeros(c, n, n)
    edges = []
    for i in range(n):
        for j in range(n):
            if i != j and c.choose(f"z{i}_{j}", 2):
                v = c.real(f"b{i}_{j}")
                c.assume(bor(v > 1e-6, v < -1e-6))
                B[i, j] = v
                edges.append((j, i))
    ce = lingam.CausalEffect(B.tolist())
    X, m, s = data(c, n)
    pm = Lin([c.real("w0"), c.real("w1")], 0.0)
    r, e = raises(lambda: ce.estimate_effects_on_prediction(X, 0, pm))
    c.check((e is None) == topo_ok(edges, n), f"rejected iff cyclic: {edges}, {e!r}")
    c.check(e is None or isinstance(e, ValueError), "rejection is a ValueError")
