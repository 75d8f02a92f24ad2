"""C18: OutOfSampleCausalTuning."""
import numpy as np
import sklearn.ensemble

from lingam.experimental import OutOfSampleCausalTuning
from symx.run import harness

from .fakes import module_env
from .lib import bor, raises, zeros

META = {
    "bounds": "3-4 variables, every zero pattern and all values of up to 5 coefficients of the estimated graphs, 1-3 "
              "configurations, 2-4 folds, one data set; the sparsity penalty for three fixed permutations",
    "outside": "more variables; coefficients between 1e-9 and 1e-7 (numpy's isclose); the regression forest; the random "
               "permutations themselves",
    "assumptions": ["a forest fitted on predictors X predicts a fixed function of them", "the causal discovery algorithm "
                    "returns an arbitrary matrix", "the permutation is one of three fixed ones"],
}
CUR = {}


def g(X):
    X = np.asarray(X, dtype=float)
    return (X + 0.3 * X ** 2 - 0.2 * X ** 3).sum(axis=1)


def env(c, cfg):
    CUR.clear()
    CUR["fits"] = []

    class Forest:
        def __init__(self, *a, random_state=None, **k):
            c.check(random_state is not None, "a given random state makes the forests reproducible")

        def fit(self, X, y):
            X, y = np.asarray(X, dtype=float), np.asarray(y, dtype=float)
            if X.ndim != 2 or X.shape[1] == 0 or y.shape != (len(X),):
                raise ValueError("bad shapes")
            self.k, self.m = X.shape[1], y.mean()
            CUR["fits"].append((X.copy(), y.copy()))
            return self

        def predict(self, X):
            if X.shape[1] != self.k:
                raise ValueError("number of features")
            return g(X) + self.m
    return module_env(sklearn.ensemble, RandomForestRegressor=Forest)


def data(rows, n):
    return np.round(np.random.RandomState(rows + n).uniform(-1, 1, (rows, n)) * 64) / 64


def blanket(has, n, i):
    """Parents, children and other parents of children (has(i, j): j -> i)."""
    ch = [k for k in range(n) if has(k, i)]
    return sorted({j for j in range(n) if has(i, j)} | set(ch) | {j for k in ch for j in range(n) if has(k, j)} - {i})


def mi(x, y):
    return -0.5 * np.log(1 - np.corrcoef(x, y)[0, 1] ** 2)


def model_class(c, log, entries, n, tag):
    """A causal discovery algorithm; its matrix has symbolic entries."""
    class Model:
        def __init__(self, **kw):
            self.kw = kw

        def fit(self, X, **kw):
            log.append((np.array(X, dtype=float), self.kw, kw))
            B = zeros(c, n, n)
            for i, j in entries:
                v = c.real(f"{tag}{i}_{j}")
                c.assume(bor(v == 0, bor(v > 1e-6, v < -1e-6)))
                B[i, j] = v
            self.adjacency_matrix_ = B
            return self
    return Model


PERMS = [lambda k: list(range(k))[::-1], lambda k: [(3 * i + 1) % k if k % 3 else (i + 2) % k for i in range(k)],
         lambda k: list(range(k))]


class Fixed(np.random.RandomState):
    """Every permutation drawn is the same one (or one of two, in turn, trial by trial)."""
    which, per, calls = 0, 0, 0

    def permutation(self, x):
        x = np.arange(x) if np.ndim(x) == 0 else np.asarray(x)
        k = self.which + (self.per and self.calls // self.per % 2)
        self.calls += 1
        return x[PERMS[k](len(x))]

    def shuffle(self, x):
        x[:] = self.permutation(np.array(x))


A3 = ((1, 0), (2, 0), (2, 1))
CONF = [dict(n=3, rows=8, folds=2, configs=(A3,)), dict(n=3, rows=9, folds=3, configs=(((0, 2), (1, 2)), ((1, 0),))),
        dict(n=4, rows=12, folds=4, configs=(((1, 0), (2, 0), (3, 1), (3, 2), (0, 3)),)),
        dict(n=4, rows=12, folds=3, configs=(((3, 0), (3, 1)), "all", ((1, 0), (2, 1))))]
PEN = [dict(n=3, rows=9, folds=3, configs=(((2, 0), (2, 1)), "all", ((1, 2),)), perm=k) for k in range(2)] + [
    dict(n=3, rows=8, folds=2, configs=(((1, 0),), ((1, 0), (0, 2))), perm=k) for k in range(2)] + [
    dict(n=3, rows=10, folds=2, configs=(((0, 1), (1, 2)), "all"), perm=0, thr=t, mix=True) for t in (0.5, 0.25, 0.75)]


@harness("C18", {"quick": CONF + PEN, "thorough": CONF + PEN + [
    dict(n=4, rows=12, folds=3, configs=(((1, 0), (2, 0), (3, 1), (3, 2), (3, 0)), "all", ((2, 3), (1, 3)))),
    dict(n=4, rows=12, folds=3, configs=(((3, 0), (3, 1), (2, 1)), "all"), perm=1)]}, env=env)
def selection(c, cfg):
    n, X = cfg["n"], data(cfg["rows"], cfg["n"])
    logs, configs = [[] for _ in cfg["configs"]], []
    for k, e in enumerate(cfg["configs"]):
        if e == "all":
            configs.append({"all_others": True})
        else:
            configs.append({"model": model_class(c, logs[k], e, n, f"b{k}_"), "init_kwargs": {"a": k},
                            "fit_kwargs": {"b": -k}})
    rs = Fixed(0)
    rs.which, rs.per = cfg.get("perm", 0), 2 * n if cfg.get("mix") else 0
    o = OutOfSampleCausalTuning(cv=cfg["folds"], sparsity_penalty="perm" in cfg, random_state=rs,
                                **({"thr": float(cfg["thr"])} if "thr" in cfg else {}))
    snap = X.copy()
    with np.errstate(all="ignore"):
        r = o.fit(X, configs)
    c.check(r is o, "fit returns the tuner")
    c.check(np.array_equal(X, snap), "the data are not modified")
    # folds: contiguous blocks
    edges = [0]
    for f in range(cfg["folds"]):
        edges.append(edges[-1] + (cfg["rows"] - edges[-1] + cfg["folds"] - f - 1) // (cfg["folds"] - f))
    folds = [(sorted(set(range(cfg["rows"])) - set(range(a, b))), list(range(a, b))) for a, b in zip(edges, edges[1:])]
    scores, sizes, predictions = [], [], []
    fits = list(CUR["fits"])
    for k, e in enumerate(cfg["configs"]):
        if e == "all":
            mbs = [[j for j in range(n) if j != i] for i in range(n)]
        else:
            B = {ij: bool(c.real(f"b{k}_{ij[0]}_{ij[1]}") != 0) for ij in e}
            mbs = [blanket(lambda a, b: B.get((a, b), False), n, i) for i in range(n)]
            c.check(len(logs[k]) == len(folds), "one graph per fold")
            for (tr, te), (D, ikw, fkw) in zip(folds, logs[k]):
                c.check(np.array_equal(D, X[tr]), "the graph is estimated from the training rows")
                c.check(ikw == {"a": k} and fkw == {"b": -k}, "with the given arguments")
        pred = []
        for i in range(n):
            p = []
            for tr, te in folds:
                p.append(np.full(len(te), X[tr, i].mean()) if not mbs[i] else g(X[te][:, mbs[i]]) + X[tr, i].mean())
            pred.append(np.concatenate(p))
        for tr, te in folds:
            for i in range(n):
                if mbs[i]:
                    want = (X[tr][:, mbs[i]], X[tr, i])
                    hit = [q for q, f in enumerate(fits) if f[0].shape == want[0].shape and np.allclose(f[1], want[1]) and
                           sorted(map(tuple, f[0].T)) == sorted(map(tuple, want[0].T))]
                    c.check(len(hit) > 0, f"configuration {k}: variable {i} is predicted from its Markov blanket {mbs[i]}")
                    if hit:
                        fits.pop(hit[0])
        truth = np.concatenate([te for _, te in folds])
        with np.errstate(all="ignore"):
            scores.append(np.mean([mi(X[truth, i], pred[i]) for i in range(n)]))
        sizes.append(np.mean([len(m) for m in mbs]))
        predictions.append(pred)
    c.check(len(fits) == 0, "and nothing else is fitted")
    info = o.scores_
    for k in range(len(configs)):
        c.check(abs(info["performance"][k] - scores[k]) < 1e-8, f"performance of configuration {k}")
        c.check(abs(info["mb_size"][k] - sizes[k]) < 1e-9, f"mean number of predictors of configuration {k}")
    top = sorted(scores)[::-1]
    if "perm" not in cfg:
        c.check(info["sp_score"] is None, "no penalty requested")
        c.check(any(o.best_config_index_ == k and abs(scores[k] - top[0]) < 1e-9 for k in range(len(scores))),
                "the configuration that predicts best is chosen")
        return
    sigs = [PERMS[cfg["perm"] + k](cfg["rows"]) for k in range(2 if cfg.get("mix") else 1)]
    truth = np.concatenate([te for _, te in folds])
    rest = [k for k in range(len(configs)) if k not in info["sp_score"]]
    c.check(len(rest) == 1 and abs(scores[rest[0]] - top[0]) < 1e-9, "all others are compared with the best predictor")
    best = rest[0]
    near = [best]
    for k in range(len(configs)):
        if k == best:
            continue
        ds = [np.mean([mi(X[truth, i], predictions[best][i][sig]) for i in range(n)])
              - np.mean([mi(X[truth, i], predictions[k][i][sig]) for i in range(n)]) - (scores[best] - scores[k]) for sig in sigs]
        if any(abs(d) < 1e-9 for d in ds):       # a tie, settled by rounding
            if info["sp_score"][k] > cfg.get("thr", 0.05):
                near.append(k)
            continue
        p = np.mean([float(d > 0) for d in ds])
        c.check(abs(info["sp_score"][k] - p) < 1e-9, f"p-value of configuration {k}")
        if p > cfg.get("thr", 0.05):
            near.append(k)
    small = min(sizes[k] for k in near)
    c.check(o.best_config_index_ in near and abs(sizes[o.best_config_index_] - small) < 1e-9,
            "the sparsest of the configurations that predict as well as the best is chosen")


@harness("C18", [dict()], env=env)
def refused(c, cfg):
    X = data(8, 3)
    M = model_class(c, [], ((1, 0),), 3, "b")
    good = [{"model": M}]

    def rej(f, exc, what):
        _, e = raises(f)
        c.check(isinstance(e, exc), f"{what} is rejected")

    def new(**kw):
        return OutOfSampleCausalTuning(cv=2, **dict(dict(sparsity_penalty=False), **kw))
    rej(lambda: new().fit(X, {"model": M}), TypeError, "a dictionary instead of a list")
    rej(lambda: new().fit(X, []), ValueError, "an empty list")
    rej(lambda: new().fit(X, [M]), TypeError, "a configuration that is not a dictionary")
    rej(lambda: new().fit(X, [{}]), ValueError, "a configuration without a model")
    rej(lambda: new().fit(X, [{"all_others": False, "init_kwargs": {}}]), ValueError, "a configuration without a model")
    rej(lambda: new().fit(X, [{"model": 3}]), TypeError, "a model that is not callable")
    rej(lambda: new().fit(X, [{"model": M, "depth": 1}]), ValueError, "an unknown key")
    rej(lambda: new().fit(X, [{"model": M, "init_kwargs": [1]}]), TypeError, "arguments that are not a dictionary")
    rej(lambda: new().fit(X, [{"model": M, "fit_kwargs": 1}]), TypeError, "arguments that are not a dictionary")
    rej(lambda: new().fit(X, [{"model": M, "all_others": 1}]), TypeError, "all_others that is not a truth value")
    rej(lambda: new().fit(X[:, :1], good), ValueError, "a single variable")
    for t in (0.0, 1.0, -0.1):
        rej(lambda: new(thr=t).fit(X, good), ValueError, f"thr={t}")
    rej(lambda: new(sparsity_penalty=1).fit(X, good), TypeError, "a penalty that is not a truth value")
    rej(lambda: new().best_config_index_, Exception, "reading the result before fit")
    _, e = raises(lambda: new().fit(X, good))
    c.check(e is None, "a valid configuration is accepted")
