"""C19: bootstrap_with_imputation."""
import numpy as np
import sklearn.impute

import lingam
import lingam.tools as T
from symx.core import PathCut
from symx.run import harness

from .fakes import module_env
from .lib import arr, check_unmutated, dice, isnan, matrix, raises, same, snapshot, zeros

META = {
    "bounds": "2-4 rows and 2-3 variables with every pattern of missing values, all real data, imputed values and "
              "coefficients, 1-3 resamples, 1-3 imputations each, every causal order; also 12 rows, 6 variables, 4 resamples "
              "and 3 imputations with fixed patterns of missing values",
    "outside": "larger data; the random draws themselves (three fixed seeds); the quality of scikit-learn's imputer",
    "assumptions": ["the imputer returns arbitrary numbers, the causal model an arbitrary order and arbitrary matrices"],
}


class Imp(T.BaseMultipleImputation):
    """Any imputation; keeps what it was given and what it returned."""

    def __init__(self, c, m, log, form):
        self.c, self.m, self.log, self.form, self.k = c, m, log, form, 0

    def fit_transform(self, X):
        k, self.k = self.k, self.k + 1
        self.log.append(("imp", X.copy()))
        out = []
        for a in range(self.m):
            Y = zeros(self.c, *np.shape(X))
            for i in range(len(Y)):
                for j in range(np.shape(Y)[1]):
                    # an imputer may also smooth the observed values
                    Y[i, j] = self.c.real(f"v{k}_{a}_{i}_{j}")
            out.append(Y)
        self.log.append(("out", [Y.copy() for Y in out]))
        return out if self.form == "list" else arr(self.c, np.array(out))


class CD(T.BaseMultiGroupCDModel):
    def __init__(self, c, n, log, single=False):
        self.c, self.n, self.log, self.k, self.single = c, n, log, 0, single

    def before_imputation(self, X):
        self.log.append(("before", X.copy()))

    def fit(self, X_list):
        k, self.k = self.k, self.k + 1
        self.log.append(("fit", [X.copy() for X in X_list]))
        order = rotate(self.n, self.c.choose(f"order{k}", self.n) if k == 0 else k)
        Bs = [matrix(self.c, f"b{k}_{a}_", self.n, self.n) for a in range(1 if self.single else len(X_list))]
        self.log.append(("model", (order, [B.copy() for B in Bs])))
        return list(order), (Bs[0] if self.single else Bs)


def rotate(n, k):
    o = list(range(n))[::-1]
    return o[k % n:] + o[:k % n]


def equal(c, A, B, what):
    c.check(tuple(np.shape(A)) == tuple(np.shape(B)), what + ": shape")
    if tuple(np.shape(A)) != tuple(np.shape(B)):
        return
    for i in np.ndindex(*np.shape(B)):
        u, v = A[i], B[i]
        if isnan(u) or isnan(v):
            c.check(isnan(u) and isnan(v), f"{what} at {i}: missing")
        elif not same(u, v):
            c.check_eq(u, v, f"{what} at {i}")


def data(c, cfg):
    rows, n = cfg["rows"], cfg["n"]
    X = zeros(c, rows, n)
    for i in range(rows):
        for j in range(n):
            if "pattern" in cfg:
                miss = dice(cfg["pattern"], (i, j))[0] < 0.3
            elif (i, j) in cfg["open"]:
                miss = c.choose(f"miss{i}_{j}", 2) == 1
            else:
                miss = False
            X[i, j] = np.nan if miss else c.real(f"x{i}_{j}")
    return X


def verify(c, res, X, log, seeds, n_sampling, m, single=False):
    rows, n = np.shape(X)
    c.check(len(res) == 4, "four results")
    orders, mats, idx, imp = res
    c.check(len(log) == 5 * n_sampling, "one imputation and one fit per resample")
    if len(log) != 5 * n_sampling:
        return
    c.check(tuple(np.shape(idx)) == (n_sampling, rows), "one index per row and resample")
    c.check(tuple(np.shape(orders)) == (n_sampling, n), "one order per resample")
    c.check(tuple(np.shape(imp)) == (n_sampling, m, rows, n), "imputed values: one array per resample and repetition")
    c.check(tuple(np.shape(mats)) == ((n_sampling, n, n) if single else (n_sampling, m, n, n)), "one matrix per imputation")
    for k in range(n_sampling):
        kinds = [e[0] for e in log[5 * k:5 * k + 5]]
        c.check(kinds == ["before", "imp", "out", "fit", "model"], "before_imputation, then imputation, then the fit")
        _, before = log[5 * k]
        _, given = log[5 * k + 1]
        _, out = log[5 * k + 2]
        _, fitted = log[5 * k + 3]
        _, (order, Bs) = log[5 * k + 4]
        ix = [int(v) for v in idx[k]]
        c.check(all(0 <= v < rows for v in ix), "indices of rows")
        boot = np.array([[X[r, j] for j in range(n)] for r in ix], dtype=object)
        equal(c, before, boot, f"resample {k}: before_imputation gets the rows drawn")
        equal(c, given, boot, f"resample {k}: the imputer gets the rows drawn")
        c.check(len(fitted) == len(out), "every imputation is fitted")
        for a, (F, O) in enumerate(zip(fitted, out)):
            equal(c, F, O, f"resample {k}, imputation {a}: what was imputed is fitted")
            for i in range(rows):
                for j in range(n):
                    v = imp[k][a][i, j]
                    if isnan(boot[i, j]):
                        c.check_eq(v, O[i, j], f"resample {k}, imputation {a}: value filled in at {i, j}")
                    else:
                        c.check(isnan(v), f"resample {k}, imputation {a}: nothing reported for the observed {i, j}")
        c.check([int(v) for v in orders[k]] == list(order), f"resample {k}: order")
        for a, B in enumerate(Bs):
            equal(c, mats[k] if single else mats[k][a], B, f"resample {k}: matrix {a}")


def cells(rows, n):
    return tuple((i, j) for i in range(rows) for j in range(n))


CUSTOM = [dict(rows=3, n=2, open=cells(3, 2), ns=1, m=2, form="list", seed=0),
          dict(rows=2, n=3, open=cells(2, 3), ns=1, m=1, form="array", seed=1),
          dict(rows=4, n=2, open=((0, 0), (1, 1), (3, 0), (3, 1)), ns=2, m=3, form="array", seed=2),
          dict(rows=3, n=3, open=((0, 0), (1, 1), (2, 1), (2, 2)), ns=3, m=2, form="list", seed=0),
          dict(rows=3, n=2, open=((0, 0), (1, 1)), ns=2, m=2, form="list", seed=3, single=True),
          dict(rows=12, n=6, pattern=4, ns=4, m=3, form="list", seed=0)]


@harness("C19", {"quick": CUSTOM, "thorough": CUSTOM + [
    dict(rows=4, n=2, open=cells(4, 2), ns=2, m=2, form="array", seed=1),
    dict(rows=3, n=3, open=cells(3, 3), ns=1, m=2, form="list", seed=1),
    dict(rows=20, n=8, pattern=5, ns=6, m=4, form="array", seed=2)]})
def custom(c, cfg):
    log = []
    X = data(c, cfg)
    snap = snapshot(X)
    cd = CD(c, cfg["n"], log, cfg.get("single", False))
    res = T.bootstrap_with_imputation(X, cfg["ns"], imp=Imp(c, cfg["m"], log, cfg["form"]), cd_model=cd,
                                      n_repeats=7, random_state=cfg["seed"])
    check_unmutated(c, X, snap, "the data are not modified")
    verify(c, res, X, log, cfg["seed"], cfg["ns"], cfg["m"], cfg.get("single", False))


@harness("C19", [dict(rs=0), dict(rs="state")])
def repeatable(c, cfg):
    X = data(c, dict(rows=9, n=2, pattern=2))

    def run(rs):
        log = []
        return T.bootstrap_with_imputation(X, 3, imp=Imp(c, 1, log, "list"), cd_model=CD(c, 2, log), random_state=rs), log
    a, la = run(0 if cfg["rs"] == 0 else np.random.RandomState(3))
    b, lb = run(0 if cfg["rs"] == 0 else np.random.RandomState(3))
    c.check([list(map(int, r)) for r in a[2]] == [list(map(int, r)) for r in b[2]], "the same seed draws the same rows")
    c.check(len({tuple(map(int, r)) for r in a[2]}) > 1, "the resamples are drawn anew")
    equal(c, a[3], b[3], "the same imputed values")
    c.check(any(len(set(map(int, r))) < 9 for r in a[2]), "rows are drawn with replacement")
    c.check(len({int(v) for r in a[2] for v in r}) > 5, "from all rows")


# ----------------------------------------------------------- default parts
CUR = {}


def default_env(c, cfg):
    CUR.clear()
    CUR.update(log=[], models=[], imps=0, draws=[])

    class Imputer:
        def __init__(self, *a, sample_posterior=False, random_state=None, **kw):
            self.post, self.rs = sample_posterior, random_state

        def fit_transform(self, X, y=None):
            # draws of a posterior: the value is determined by the data and, when sampling, by the state of the generator
            t = 0
            if self.post:
                t = (np.random.RandomState(self.rs) if isinstance(self.rs, (int, np.integer)) else
                     self.rs if self.rs is not None else np.random.RandomState(CUR["imps"])).randint(1 << 30)
            CUR["imps"] += 1
            CUR["draws"].append(t)
            CUR["log"].append(("imp", X.copy()))
            Y = X.copy()
            for i in range(len(Y)):
                for j in range(np.shape(Y)[1]):
                    if isnan(Y[i, j]):
                        Y[i, j] = c.real(f"v{t}_{i}_{j}")
            CUR["log"].append(("out", Y.copy()))
            return Y

    class Model:
        def __init__(self, random_state=None, prior_knowledge=None, apply_prior_knowledge_softly=False):
            CUR["models"].append((prior_knowledge, apply_prior_knowledge_softly))
            self.k = 0

        def fit(self, X_list):
            k, self.k = self.k, self.k + 1
            CUR["log"].append(("fit", [X.copy() for X in X_list]))
            n = np.shape(X_list[0])[1]
            self.causal_order_ = rotate(n, k)
            self.adjacency_matrices_ = [matrix(c, f"b{k}_{a}_", n, n) for a in range(len(X_list))]
            CUR["log"].append(("model", (list(self.causal_order_), [B.copy() for B in self.adjacency_matrices_])))
            return self
    return (module_env(sklearn.impute, IterativeImputer=Imputer)
            + [(lingam.MultiGroupDirectLiNGAM, Model)])


@harness("C19", [dict(rows=3, n=2, open=((0, 0), (1, 1), (2, 1)), ns=2, m=2, seed=0, pk=None, soft=False),
                 dict(rows=3, n=2, open=((0, 0), (1, 1)), ns=2, m=3, seed=1, pk=((-1, 0), (1, -1)), soft=True),
                 dict(rows=3, n=2, open=((0, 0), (1, 1)), ns=2, m=1, seed=0, pk=None, soft=True),
                 dict(rows=8, n=3, pattern=9, ns=3, m=4, seed=5, pk=((-1, 0, -1), (-1, -1, -1), (1, -1, -1)), soft=False)],
         env=default_env)
def defaults(c, cfg):
    X = data(c, cfg)
    snap = snapshot(X)
    pk = None if cfg["pk"] is None else np.array(cfg["pk"])
    res = T.bootstrap_with_imputation(X, cfg["ns"], cfg["m"], prior_knowledge=pk,
                                      apply_prior_knowledge_softly=cfg["soft"], random_state=cfg["seed"])
    check_unmutated(c, X, snap, "the data are not modified")
    c.check(len(res) == 4 and tuple(np.shape(res[3]))[:2] == (cfg["ns"], cfg["m"]),
            "n_sampling resamples are imputed n_repeats times each")
    if not CUR["models"] or CUR["imps"] != cfg["ns"] * cfg["m"]:
        raise PathCut("the default parts are made of something else")
    for p, soft in CUR["models"]:
        c.check((p is None) == (pk is None) and (pk is None or np.array_equal(np.asarray(p), pk)),
                "the prior knowledge reaches the causal model")
        c.check(bool(soft) == cfg["soft"], "and whether it is soft")
    log, grouped = [], []
    step = 2 * cfg["m"] + 2
    for k in range(cfg["ns"]):
        L = CUR["log"][step * k:step * (k + 1)]
        ims = [e[1] for e in L if e[0] == "imp"]
        outs = [e[1] for e in L if e[0] == "out"]
        c.check(len(ims) == cfg["m"], "one imputation per repetition")
        log += [("before", ims[0]), ("imp", ims[0]), ("out", outs), ("fit", next(e[1] for e in L if e[0] == "fit")),
                ("model", next(e[1] for e in L if e[0] == "model"))]
        for i in ims[1:]:
            equal(c, i, ims[0], "every repetition imputes the same resample")
        grouped += outs
    verify(c, res, X, log, cfg["seed"], cfg["ns"], cfg["m"])
    if np.any([[isnan(v) for v in r] for r in X]):
        c.check(len(set(CUR["draws"])) == len(CUR["draws"]), "every imputation is drawn anew")


# --------------------------------------------------------------- refusals
class Bad(T.BaseMultipleImputation):
    def __init__(self, out):
        self.out = out

    def fit_transform(self, X):
        return self.out


class BadCD(T.BaseMultiGroupCDModel):
    def __init__(self, out):
        self.out = out

    def before_imputation(self, X):
        pass

    def fit(self, X_list):
        return self.out


@harness("C19", [dict(k=k) for k in ("args", "imp", "cd")])
def refused(c, cfg):
    n, rows, m = 3, 4, 2
    X = zeros(c, rows, n)
    for i in range(rows):
        for j in range(n):
            X[i, j] = c.real(f"x{i}_{j}")
    X[1, 2] = np.nan
    v = c.real("v")
    good = [zeros(c, rows, n) + v for _ in range(m)]
    B = [zeros(c, n, n) + c.real("b") for _ in range(m)]

    def rej(what, imp=None, cd=None, x=X, ns=1, **kw):
        _, e = raises(lambda: T.bootstrap_with_imputation(x, ns, imp=imp or Bad(good), cd_model=cd or BadCD(([0, 1, 2], B)), **kw))
        c.check(isinstance(e, ValueError) or (isinstance(e, TypeError) and cfg["k"] == "args"), f"{what} is rejected")
    r, e = raises(lambda: T.bootstrap_with_imputation(X, 1, imp=Bad(good), cd_model=BadCD(([2, 0, 1], B))))
    c.check(e is None, "well-formed parts are accepted")
    if cfg["k"] == "args":
        for ns in (0, -1, 1.5, "3", None):
            rej(f"n_sampling={ns!r}", ns=ns)
        for k in (0, -2, 0.5):
            rej(f"n_repeats={k!r}", n_repeats=k)
        rej("one-dimensional data", x=X[:, 0])
        rej("prior knowledge of another size", prior_knowledge=np.full((n - 1, n - 1), -1))
        rej("prior knowledge that is not square", prior_knowledge=np.full((n, n + 1), -1))

        class Plain:
            def fit_transform(self, X):
                return good

            def before_imputation(self, X):
                pass

            def fit(self, X_list):
                return [0, 1, 2], B
        rej("an imputer of another class", imp=Plain())
        rej("a causal model of another class", cd=Plain())
    elif cfg["k"] == "imp":
        nan = [g.copy() for g in good]
        nan[1][3, 0] = np.nan
        rej("an imputation that leaves values missing", imp=Bad(nan))
        rej("too few rows", imp=Bad([g[:-1] for g in good]))
        rej("too many columns", imp=Bad([arr(c, [list(r) + [v] for r in g]) for g in good]))
        rej("a single data set", imp=Bad(good[0]))
        rej("transposed data sets", imp=Bad([arr(c, [[g[i, j] for i in range(rows)] for j in range(n)]) for g in good]))
    else:
        rej("a list instead of a pair", cd=BadCD([[0, 1, 2], B]))
        rej("three results", cd=BadCD(([0, 1, 2], B, 0)))
        for o in ([0, 1], [0, 1, 2, 3], [0, 1, 1], [1, 2, 3], [0, 2, -1], [0, 2, 2]):
            rej(f"order {o}", cd=BadCD((o, B)))
        rej("matrices of another size", cd=BadCD(([0, 1, 2], [b[:, :-1] for b in B])))
        rej("matrices of another size", cd=BadCD(([0, 1, 2], [b[:-1, :-1] for b in B])))
        nan = [b.copy() for b in B]
        nan[1][0, 2] = np.nan
        rej("a matrix with missing values", cd=BadCD(([0, 1, 2], nan)))
