"""C15: CausalBasedSimulator computes what the (changed) structural equations say."""
import itertools

import numpy as np
import pandas as pd
import sklearn.base
import sklearn.linear_model
import sklearn.utils

import lingam
from symx.core import S
from symx.run import harness

from .fakes import module_env, vec
from .lib import arr, bor, dice, gap, raises, sparse, topo_ok, zeros

META = {
    "bounds": "3 variables (6 and 12 with 2-6 symbolic values and several changes at once), 4 data rows (time series: 2 variables, 1-2 lags, 5-6 rows); every graph over the variables, "
              "every coefficient of the fitted and of the replaced models, every replacement value, every permutation of "
              "the residuals out of 6",
    "outside": "more variables; coefficients between 0 and 1e-6 in absolute value; discrete decisions within 1e-6 of their boundary; the quality of the fitted models",
    "assumptions": ["a regression fitted on (parents, variable) is linear with arbitrary coefficients; a classifier "
                    "returns an arbitrary one of two classes per row"],
}
LR, LOG = sklearn.linear_model.LinearRegression, sklearn.linear_model.LogisticRegression
CUR = {}
N = 3


def data(n, rows=4, seed=3):
    return np.round(np.random.RandomState(seed).uniform(-2, 2, (rows, n)), 2)


def column(v):
    v = np.array(np.asarray(v).ravel().tolist(), dtype=float)
    for k, w in CUR["cols"].items():
        if len(v) == len(w) and np.array_equal(v, w):
            return k
    return None


def weight(c, name):
    """A coefficient of a fitted model: arbitrary; in larger models most are fixed."""
    if CUR.get("open") is not None and name not in CUR["open"]:
        u, v = dice(1, name)
        return np.float64(round((0.5 + 2 * v) * 8) / 8 * (1 if u < 0.5 else -1))
    return c.real(name)


def env(c, cfg):
    CUR.clear()
    CUR.update(c=c, cols={}, open=cfg.get("open"))

    class Linear(sklearn.base.RegressorMixin, sklearn.base.BaseEstimator):
        pre = "w"

        def fit(self, X, y):
            t, P = column(y), [column(X[:, k]) for k in range(X.shape[1])]
            if t is None or None in P:
                CUR["n"] = CUR.get("n", 0) + 1
            self.coef = [weight(c, f"{self.pre}{t}<{p}") if p is not None and t is not None else c.real(f"?{CUR['n']}_{k}")
                         for k, p in enumerate(P)]
            self.b = weight(c, f"{self.pre}{t}") if t is not None else 0.0
            return self

        def predict(self, X):
            if np.shape(X)[1] != len(self.coef):
                raise ValueError("number of features")
            return vec(c, [sum((self.coef[k] * X[r, k] for k in range(len(self.coef))), self.b)
                           for r in range(np.shape(X)[0])])

    class Logistic(sklearn.base.ClassifierMixin, sklearn.base.BaseEstimator):
        def fit(self, X, y):
            self.t = column(y)
            self.P = [column(X[:, k]) for k in range(X.shape[1])]
            return self

        def predict(self, X):
            # the class is decided by the sign of an arbitrary linear form
            co = [c.real(f"l{self.t}<{p}") for p in self.P]
            if np.shape(X)[1] != len(co):
                raise ValueError("number of features")
            return vec(c, [1.0 if bool(sum((co[k] * X[r, k] for k in range(len(co))), c.real(f"l{self.t}")) >= 0)
                           else 0.0 for r in range(np.shape(X)[0])])

        def predict_proba(self, X):
            raise NotImplementedError
    CUR["Linear"] = Linear
    out = module_env(sklearn.linear_model, LinearRegression=Linear, LogisticRegression=Logistic)

    def expit(x):
        if not any(isinstance(v, S) for v in np.ravel(np.asarray(x, dtype=object))):
            return 1 / (1 + np.exp(-np.asarray(x, dtype=float)))
        # increasing with value 1/2 at 0
        return vec(c, [0.5 + v / 4.0 for v in np.asarray(x, dtype=object)])
    import scipy.special
    if c.symbolic:
        out += module_env(scipy.special, expit=expit)

    class RS:
        def choice(self, a, size=None, replace=True, p=None):
            a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
            CUR["asked"] = (len(a), size, replace)
            if size is None:
                return a[CUR["perm"][0]]
            return np.array([a[k] for k in CUR["perm"]])

        def permutation(self, a):
            a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
            return np.array([a[k] for k in CUR["perm"]])

        def shuffle(self, a):
            a[:] = [a[k] for k in CUR["perm"]]
    if "perm" in cfg:
        out += [(sklearn.utils.check_random_state, lambda seed=None: RS())]
    return out


def names(c, n, frame):
    return ["bacigdhfejlkm"[i] for i in range(n)] if frame else [str(i) for i in range(n)]


def graph(c, cfg, n):
    """Edges (to, from) allowed by the configuration; presence and value are symbolic."""
    B = zeros(c, n, n)
    for i, j in cfg["edges"]:
        B[i, j] = gap(c, c.real(f"g{i}_{j}"))
    return B


def present(B, n):
    return {i: [j for j in range(n) if not (not isinstance(B[i, j], S) and B[i, j] != B[i, j]) and bool(B[i, j] != 0)]
            for i in range(n)}


def positive(c, v):
    """The class chosen by a linear form; forms within 1e-6 of the boundary are left out (rounding)."""
    c.assume(bor(v > 1e-6, v < -1e-6))
    return bool(v > 0)


def reference(c, X, par, disc, exog, changed, perm, own=()):
    """Simulated columns. changed: {var: (parents, coefficients or None)}."""
    n, rows = X.shape[1], X.shape[0]
    par2 = {**par, **{k: v[0] for k, v in changed.items()}}
    out = {}

    def lin(pre, i, ps, vals, r):
        pre = "u" if i in own else pre
        return sum((weight(c, f"{pre}{i}<{p}") * vals[p][r] for p in ps), weight(c, f"{pre}{i}"))

    def get(i):
        if i in out:
            return out[i]
        ps = par2[i]
        vals = {p: get(p) for p in ps}
        if i in exog:
            err = list(exog[i])
        elif i in disc:
            err = None
        elif not par[i]:
            err = [X[r, i] for r in range(rows)]
        else:
            cols = {p: X[:, p] for p in par[i]}
            err = [X[r, i] - lin("w", i, par[i], cols, r) for r in range(rows)]
        if perm is not None and err is not None:
            err = [err[k] for k in perm]
        if not ps:
            col = err if i not in disc else [X[r, i] for r in range(rows)]
        elif i in changed:
            co = changed[i][1]
            f = [sum((co[k] * vals[p][r] for k, p in enumerate(ps)), 0.0) for r in range(rows)]
            col = [f[r] + err[r] for r in range(rows)] if i not in disc else [1.0 if positive(c, v) else 0.0 for v in f]
        elif i in disc:
            col = [1.0 if positive(c, lin("l", i, ps, vals, r)) else 0.0 for r in range(rows)]
        else:
            col = [lin("w", i, ps, vals, r) + err[r] for r in range(rows)]
        out[i] = col
        return col
    return {i: get(i) for i in range(n)}


def compare(c, got, ref, nm, rows, what):
    c.check(list(got.columns) == nm, f"{what}: columns {list(got.columns)}")
    c.check(got.shape[0] == rows, f"{what}: {got.shape[0]} rows")
    for i, v in ref.items():
        col = got[nm[i]].values
        for r in range(rows):
            c.check_eq(col[r], v[r], f"{what}: {nm[i]}[{r}]")


LOW = [(1, 0), (2, 0), (2, 1)]
UP = [(0, 1), (0, 2), (1, 2)]
MIX = [(0, 2), (1, 0), (1, 2)]


@harness("C15", [dict(edges=e, frame=f) for e, f in ((LOW, False), (UP, True), (MIX, True))]
         + [dict(edges=MIX, frame=False, perm=True)], env=env)
def plain(c, cfg):
    n = N
    X = data(n)
    nm = names(c, n, cfg["frame"])
    CUR["cols"] = {i: X[:, i] for i in range(n)}
    B = graph(c, cfg, n)
    perm = None
    if "perm" in cfg:
        perm = [[1, 0, 3, 2], [2, 3, 1, 0], [0, 2, 1, 3]][c.choose("perm", 3)]
        CUR["perm"] = perm
    D = pd.DataFrame(X, columns=nm) if cfg["frame"] else X
    keep = X.copy()
    s = lingam.CausalBasedSimulator().train(D, B)
    par = present(B, n)
    tr = s.train_result_
    c.check(sorted(tr) == sorted(nm), "one result per variable")
    for i in range(n):
        t = tr[nm[i]]
        c.check(sorted(t["parent_names"]) == sorted(nm[j] for j in par[i]), f"parents of {nm[i]}")
        if not par[i]:
            c.check(t["model"] is None, "no model for a variable without causes")
        f = [sum((c.real(f"w{i}<{p}") * X[r, p] for p in par[i]), c.real(f"w{i}")) if par[i] else 0.0 for r in range(len(X))]
        for r in range(len(X)):
            c.check_eq(t["residual"][r], X[r, i] - f[r], f"residual of {nm[i]}[{r}]")
    kw = dict(shuffle_residual=True, random_state=0) if perm else {}
    base = reference(c, X, par, [], {}, {}, perm)
    compare(c, s.run(**kw), base, nm, len(X), "unchanged")
    if not perm:
        compare(c, s.run(), {i: X[:, i] for i in range(n)}, nm, len(X), "an unchanged model reproduces the data")
    # replaced errors
    k = c.choose("exog", n)
    ev = [c.real(f"e{r}") for r in range(len(X))]
    form = c.choose("form", 3)
    val = [arr(c, ev), arr(c, [[v] for v in ev]), ev][form]
    if form == 2 and not c.symbolic:
        val = [float(v) for v in ev]
    got = s.run(changing_exog={nm[k]: val}, **kw)
    compare(c, got, reference(c, X, par, [], {k: ev}, {}, perm), nm, len(X), f"exogenous part of {nm[k]} replaced")
    compare(c, s.run(**kw), base, nm, len(X), "a later run is not affected by an earlier one")
    c.check(np.array_equal(X, keep), "the data are not modified")


CH = [dict(edges=LOW, frame=False, t=2, pa=[0]), dict(edges=LOW, frame=True, t=1, pa=[]),
      dict(edges=LOW, frame=True, t=0, pa=[2]), dict(edges=MIX, frame=True, t=1, pa=[0, 2]),
      dict(edges=UP, frame=False, t=2, pa=[0, 1]), dict(edges=UP, frame=False, t=0, pa=[2, 1]),
      dict(edges=LOW, frame=True, t=2, pa=[1, 0], exog=1), dict(edges=LOW, frame=False, t=1, pa=[0], exog=1),
      dict(edges=UP, frame=True, t=1, pa=[], exog=1), dict(edges=LOW, frame=False, t=2, pa=[0], model=True),
      dict(edges=MIX, frame=False, t=1, pa=[2, 0], perm=[2, 0, 3, 1])]


@harness("C15", CH, env=env)
def replaced(c, cfg):
    n = N
    X = data(n)
    nm = names(c, n, cfg["frame"])
    CUR["cols"] = {i: X[:, i] for i in range(n)}
    CUR["perm"] = cfg.get("perm")
    B = graph(c, cfg, n)
    s = lingam.CausalBasedSimulator().train(pd.DataFrame(X, columns=nm) if cfg["frame"] else X, B)
    par = present(B, n)
    t, pa = cfg["t"], cfg["pa"]
    co = [c.real(f"k{j}") for j in range(len(pa))]
    edges = [(j, i) for i in range(n) for j in (pa if i == t else par[i])]
    spec = {"parent_names": [nm[j] for j in pa]}
    if pa and cfg.get("model"):
        m = CUR["Linear"]()
        m.coef, m.b = co, 0.0
        spec["model"] = m
    elif pa:
        spec["coef"] = arr(c, co)
    exog = {cfg["exog"]: [c.real(f"e{r}") for r in range(len(X))]} if "exog" in cfg else {}
    kw = dict(changing_models={nm[t]: spec})
    if exog:
        kw["changing_exog"] = {nm[k]: arr(c, v) for k, v in exog.items()}
    if cfg.get("perm"):
        kw.update(shuffle_residual=True, random_state=0)
    got, e = raises(lambda: s.run(**kw), ValueError)
    if not topo_ok(edges, n):
        c.check(isinstance(e, ValueError), "a change that makes the graph cyclic is rejected")
        return
    c.check(e is None, f"an acyclic change is accepted ({e})")
    ref = reference(c, X, par, [], exog, {t: (pa, co)}, cfg.get("perm"))
    compare(c, got, ref, nm, len(X), f"model of {nm[t]} replaced")
    compare(c, s.run(), {i: X[:, i] for i in range(n)}, nm, len(X), "an unchanged model reproduces the data")


O6, O12 = [5, 2, 0, 4, 1, 3], [7, 11, 3, 0, 10, 5, 8, 1, 6, 2, 9, 4]
LG = [dict(n=6, dens=0.45, order=O6, sym=[(4, 2), (1, 0)], open=["w1<4", "w2<5"], exog=[2, 4], frame=True),
      dict(n=6, dens=0.45, order=O6[::-1], sym=[(4, 1)], open=["w4<1", "w0"], exog=[1, 5], ch={0: [3, 4], 5: [2, 1]}, frame=False),
      dict(n=6, dens=0.3, order=O6, sym=[(4, 2), (1, 0)], open=["w1<4"], exog=[], ch={3: [], 1: [5], 2: [5]}, frame=True),
      dict(n=6, dens=0.45, order=O6, sym=[(4, 2)], open=["w3<1"], exog=[5, 0, 1], ch={1: [0, 2, 5]}, frame=False),
      dict(n=12, dens=0.25, order=O12, sym=[(10, 0), (1, 10)], open=["w1<10"], exog=[11, 2], ch={9: [1, 10], 10: [3]}, frame=False),
      dict(n=12, dens=0.2, order=O12, sym=[(2, 11)], open=["w2<11"], exog=[10], frame=False),
      dict(n=12, dens=0.2, order=O12, sym=[(2, 11)], open=["w2<11"], exog=[1, 10], ch={4: [9, 10]}, frame=True, perm=[2, 0, 3, 1])]


@harness("C15", LG, env=env)
def larger(c, cfg):
    """Several changes at once in larger graphs."""
    n = cfg["n"]
    X = np.round(data(n) * 16) / 16
    nm = names(c, n, cfg["frame"])
    CUR["cols"] = {i: X[:, i] for i in range(n)}
    B = sparse(c, "g", n, cfg["dens"], 4, cfg["sym"], cfg["order"])
    for i, j in cfg["sym"]:
        gap(c, B[i, j])
    D = pd.DataFrame(X, columns=nm) if cfg["frame"] else X
    s = lingam.CausalBasedSimulator().train(D, B)
    par = present(B, n)
    CUR["perm"] = cfg.get("perm")
    perm = {}
    if cfg.get("perm"):
        perm = dict(shuffle_residual=True, random_state=0)
    for i in range(n):
        c.check(sorted(s.train_result_[nm[i]]["parent_names"]) == sorted(nm[j] for j in par[i]), f"parents of {nm[i]}")
    if not perm:
        compare(c, s.run(), {i: X[:, i] for i in range(n)}, nm, len(X), "an unchanged model reproduces the data")
    ev = {k: [c.real(f"e{k}") if r == 1 else np.float64(r - k * 0.5) for r in range(len(X))] for k in cfg["exog"]}
    ch = {int(t): (list(pa), [c.real(f"k{t}_{j}") if q == 0 else np.float64(1.5 - q) for q, j in enumerate(pa)])
          for t, pa in cfg.get("ch", {}).items()}
    kw = dict(perm)
    if ev:
        kw["changing_exog"] = {nm[k]: arr(c, v) for k, v in ev.items()}
    if ch:
        kw["changing_models"] = {nm[t]: dict(parent_names=[nm[j] for j in pa], **(dict(coef=arr(c, co)) if pa else {}))
                                 for t, (pa, co) in ch.items()}
    edges = [(j, i) for i in range(n) for j in (ch[i][0] if i in ch else par[i])]
    got, e = raises(lambda: s.run(**kw), ValueError)
    if not topo_ok(edges, n):
        c.check(isinstance(e, ValueError), "a change that makes the graph cyclic is rejected")
        return
    c.check(e is None, f"an acyclic change is accepted ({e})")
    compare(c, got, reference(c, X, par, [], ev, ch, cfg.get("perm")), nm, len(X), "several changes")
    if not perm:
        compare(c, s.run(), {i: X[:, i] for i in range(n)}, nm, len(X), "an unchanged model reproduces the data")


@harness("C15", [dict(edges=LOW), dict(edges=UP), dict(edges=MIX)], env=env)
def any_change(c, cfg):
    """Any combination of new parent sets: edges removed, added and reversed at once."""
    n = N
    X = data(n, 3)
    nm = names(c, n, False)
    CUR["cols"] = {i: X[:, i] for i in range(n)}
    CUR["perm"] = None
    B = zeros(c, n, n)
    for i, j in cfg["edges"]:
        B[i, j] = np.float64(1.5 - i)  if i != 1 else np.float64(0.75)
    s = lingam.CausalBasedSimulator().train(X, B)
    par = present(B, n)
    ch = {}
    for t in range(n):
        others = [j for j in range(n) if j != t]
        k = c.choose(f"new{t}", 5)
        if k:
            pa = [[], others[:1], others[1:], others][k - 1]
            ch[t] = (pa, [c.real(f"k{t}_{j}") if q == 0 else np.float64(1.5 - q) for q, j in enumerate(pa)])
    edges = [(j, i) for i in range(n) for j in (ch[i][0] if i in ch else par[i])]
    kw = dict(changing_models={nm[t]: dict(parent_names=[nm[j] for j in pa], **(dict(coef=arr(c, co)) if pa else {}))
                               for t, (pa, co) in ch.items()})
    got, e = raises(lambda: s.run(**kw), ValueError)
    if not topo_ok(edges, n):
        c.check(isinstance(e, ValueError), "a change that makes the graph cyclic is rejected")
        return
    c.check(e is None, f"an acyclic change is accepted ({e})")
    if e is None:
        compare(c, got, reference(c, X, par, [], {}, ch, None), nm, len(X), f"models of {sorted(ch)} replaced")


@harness("C15", [dict(edges=LOW, own=[1, 2]), dict(edges=LOW, own=[2]), dict(edges=UP, own=[0, 1])], env=env)
def given(c, cfg):
    """Models passed to train are cloned per variable and used for the variables they are given for."""
    n = N
    X = data(n)
    nm = names(c, n, True)
    CUR["cols"] = {i: X[:, i] for i in range(n)}
    B = graph(c, cfg, n)

    class Own(CUR["Linear"]):
        pre = "u"
    m = Own()
    s = lingam.CausalBasedSimulator().train(pd.DataFrame(X, columns=nm), B, models={nm[i]: m for i in cfg["own"]})
    par = present(B, n)
    c.check(not hasattr(m, "coef"), "the given model itself is not fitted")
    k = c.choose("exog", n)
    ev = [c.real(f"e{r}") for r in range(len(X))]
    got = s.run(changing_exog={nm[k]: arr(c, ev)})
    compare(c, got, reference(c, X, par, [], {k: ev}, {}, None, cfg["own"]), nm, len(X), "models given to train")
    compare(c, s.run(), {i: X[:, i] for i in range(n)}, nm, len(X), "an unchanged model reproduces the data")


@harness("C15", [dict(edges=LOW, disc=[2], ch=None), dict(edges=LOW, disc=[1], ch=None), dict(edges=LOW, disc=[1, 2], ch=2),
                 dict(edges=LOW, disc=[0, 2], ch=2), dict(edges=LOW, disc=[0, 1], ch=1)], env=env)
def discrete(c, cfg):
    n, rows = N, 3
    X = data(n, rows)
    for i in cfg["disc"]:
        X[:, i] = [[1, 2, 2], [0, 1, 0], [0, 0, 1]][i]
    CUR["cols"] = {i: X[:, i] for i in range(n)}
    B = graph(c, cfg, n)
    nm = names(c, n, False)
    flags = [i in cfg["disc"] for i in range(n)]
    s = lingam.CausalBasedSimulator().train(X, B, is_discrete=flags)
    par = present(B, n)
    changed, kw = {}, {}
    if cfg["ch"] is not None:
        pa = [0, 1][: cfg["ch"]]
        changed = {cfg["ch"]: (pa, [c.real(f"k{j}") for j in range(len(pa))])}
        kw = dict(changing_models={nm[cfg["ch"]]: {"parent_names": [nm[p] for p in pa], "coef": arr(c, changed[cfg["ch"]][1])}})
    got = s.run(**kw)
    compare(c, got, reference(c, X, par, cfg["disc"], {}, changed, None), nm, rows, "discrete variables")
    _, e = raises(lambda: s.run(changing_exog={nm[cfg["disc"][0]]: np.zeros(rows)}))
    c.check(isinstance(e, RuntimeError), "the exogenous part of a discrete variable cannot be replaced")


@harness("C15", [dict(order=o) for o in itertools.permutations(range(3))], env=env)
def unknown(c, cfg):
    """Pairs of unknown direction count as no edge."""
    n, o = N, cfg["order"]
    X = data(n)
    CUR["cols"] = {i: X[:, i] for i in range(n)}
    B = zeros(c, n, n)
    B[o[0], o[1]] = B[o[1], o[0]] = np.nan
    for p in o[:2]:
        B[o[2], p] = gap(c, c.real(f"g{o[2]}_{p}"))
    keep = np.array(B)
    s = lingam.CausalBasedSimulator().train(X, B, cd_algo_name="BottomUpParceLiNGAM")
    c.check(B[o[0], o[1]] != B[o[0], o[1]] and np.shape(keep) == (n, n), "the graph is not modified")
    par = present(B, n)
    nm = names(c, n, False)
    for i in range(n):
        c.check(sorted(s.train_result_[nm[i]]["parent_names"]) == [nm[j] for j in par[i]], f"parents of {i}")
    ev = [c.real(f"e{r}") for r in range(len(X))]
    k = c.choose("exog", n)
    compare(c, s.run(changing_exog={nm[k]: arr(c, ev)}), reference(c, X, par, [], {k: ev}, {}, None), nm, len(X),
            f"exogenous part of {k} replaced")


@harness("C15", [dict(L=1, pos=[(0, 1, 0), (1, 0, 0), (1, 0, 1)], frame=f) for f in (None, "str", "int")]
         + [dict(L=2, pos=[(0, 0, 1), (1, 1, 1), (2, 0, 0), (2, 1, 0)], frame=None),
            dict(L=2, pos=[(0, 1, 0), (2, 1, 1), (1, 0, 0)], frame="str", t=1, pa=[4, 3])], env=env)
def series(c, cfg):
    n, L = 2, cfg["L"]
    rows = 3 + L
    X = data(n, rows)
    A = zeros(c, L + 1, n, n)
    for lag, i, j in cfg["pos"]:
        A[lag, i, j] = gap(c, c.real(f"g{lag}_{i}_{j}"))
    base = {None: ["0", "1"], "str": ["b", "a"], "int": ["7", "3"]}[cfg["frame"]]
    nm = [f"{v}[t]" if lag == 0 else f"{v}[t-{lag}]" for lag in range(L + 1) for v in base]
    Z = np.column_stack([X[L - lag:rows - lag, i] for lag in range(L + 1) for i in range(n)])
    CUR["cols"] = {k: Z[:, k] for k in range(n * (L + 1))}
    D = X if cfg["frame"] is None else pd.DataFrame(X, columns=base if cfg["frame"] == "str" else [7, 3])
    s = lingam.CausalBasedSimulator().train(D, A, cd_algo_name="VARLiNGAM")
    par = {k: [lag * n + j for lag in range(L + 1) for j in range(n) if k < n and bool(A[lag, k, j] != 0)]
           for k in range(n * (L + 1))}
    for k in range(n * (L + 1)):
        c.check(sorted(s.train_result_[nm[k]]["parent_names"]) == sorted(nm[j] for j in par[k]), f"parents of {nm[k]}")
    k = c.choose("exog", n * (L + 1))
    ev = [c.real(f"e{r}") for r in range(len(Z))]
    kw, changed = {}, {}
    if "t" in cfg:
        changed = {cfg["t"]: (cfg["pa"], [c.real("k0"), c.real("k1")])}
        kw = dict(changing_models={nm[cfg["t"]]: {"parent_names": [nm[p] for p in cfg["pa"]], "coef": arr(c, changed[cfg["t"]][1])}})
    got = s.run(changing_exog={nm[k]: arr(c, ev)}, **kw)
    compare(c, got, reference(c, Z, par, [], {k: ev}, changed, None), nm, len(Z), f"exogenous part of {nm[k]} replaced")
    compare(c, s.run(), {i: Z[:, i] for i in range(n * (L + 1))}, nm, len(Z), "an unchanged model reproduces the data")


@harness("C15", [dict()], env=env)
def arguments(c, cfg):
    X = data(3)
    CUR["cols"] = {i: X[:, i] for i in range(3)}
    C = lingam.CausalBasedSimulator
    G = np.array([[0, 0, 0], [1.0, 0, 0], [0, 1.0, 0]])
    _, e = raises(lambda: C().run())
    c.check(isinstance(e, RuntimeError), "run before train")
    for bad in (G[:2], G[:2, :2], np.ones((3, 3)), np.array([[0, 1.0, 0], [1.0, 0, 0], [0, 0, 0]]),
                np.array([[0, 0, 0], [np.nan, 0, 0], [0, 0, 0]])):
        _, e = raises(lambda: C().train(X, bad))
        c.check(isinstance(e, ValueError), "a graph of the wrong shape, cyclic or not finite is rejected")
    _, e = raises(lambda: C().train(X, G, cd_algo_name="Foo"))
    c.check(isinstance(e, ValueError), "an unknown algorithm is rejected")
    _, e = raises(lambda: C().train(X, G, models={"9": 1}))
    c.check(e is not None, "a model of an unknown variable is rejected")
    s = C().train(X, G)
    for kw in (dict(changing_exog={"9": X[:, 0]}), dict(changing_exog={"0": X[:2, 0]}), dict(changing_exog=[1]),
               dict(changing_models={"9": {"parent_names": []}}), dict(changing_models={"1": {}}),
               dict(changing_models={"1": {"parent_names": ["9"], "coef": [1.0]}}),
               dict(changing_models={"2": {"parent_names": ["0"], "coef": [1.0, 2.0]}}),
               dict(changing_models={"1": {"parent_names": ["0"]}})):
        _, e = raises(lambda: s.run(**kw))
        c.check(e is not None, f"malformed arguments are rejected: {sorted(kw)}")
