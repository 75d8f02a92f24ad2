"""Stand-ins for external estimators, used identically in symbolic runs and in replays."""
import types

import numpy as np
import scipy.optimize
import sklearn.decomposition
import sklearn.linear_model
import sklearn.preprocessing
import sklearn.utils

from symx.arr import SymArray


class Proxy(types.ModuleType):
    """A module with some attributes replaced."""

    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__.update(_real=real, **over)

    def __getattr__(self, k):
        return getattr(self._real, k)


def vec(c, vals):
    if c.symbolic:
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        return a.view(SymArray)
    return np.array(vals, dtype=float)


def module_env(mod, **over):
    """Replace a module's attributes for code that imported the module or the attributes."""
    return [(mod, Proxy(mod, **over))] + [(getattr(mod, k), v) for k, v in over.items()]


class Tag:
    """Per-run naming of opaque results."""

    def __init__(self, c):
        self.c, self.n = c, {}

    def __call__(self, kind):
        self.n[kind] = self.n.get(kind, 0) + 1
        return f"{kind}{self.n[kind]}"


def opaque_regressions(c, nonzero=False, ones=False):
    """Least squares and lasso fits return arbitrary coefficients."""
    tag = Tag(c)

    def make(kind):
        class Reg:
            intercept_ = 0.0

            def __init__(self, *a, **k):
                pass

            def fit(self, X, y, sample_weight=None):
                if np.shape(X)[0] != np.shape(y)[0]:
                    raise ValueError("inconsistent numbers of samples")
                if np.shape(X)[1] == 0:
                    raise ValueError("0 features")
                t = tag(kind)
                self._X = X
                if ones:
                    self.coef_ = vec(c, [np.float64(1.0)] * np.shape(X)[1])
                    return self
                self.coef_ = vec(c, [c.real(f"{t}_{k}", nonzero=nonzero) for k in range(np.shape(X)[1])])
                return self

            def predict(self, X):
                t = tag(kind + "p")
                return vec(c, [c.real(f"{t}_{k}") for k in range(np.shape(X)[0])])
        return Reg

    class Scaler:
        def __init__(self, *a, **k):
            pass

        def fit(self, X, y=None):
            return self

        def transform(self, X):
            return X.copy()

        def fit_transform(self, X, y=None):
            return X.copy()
    LR, IC, CV = make("ols"), make("lasso"), make("lassocv")
    return (module_env(sklearn.linear_model, LinearRegression=LR, LassoLarsIC=IC, LassoLarsCV=CV)
            + module_env(sklearn.preprocessing, StandardScaler=Scaler))


def opaque_scale(c):
    if not c.symbolic:
        return []

    def scale(X, axis=0, **kw):
        return (X - X.mean(axis=0)) / X.std(axis=0)
    return [(sklearn.preprocessing.scale, scale)]


def sem_data(n, order, seed, rows=60):
    """Non-Gaussian linear data whose true causal order is `order` (used only to replay counterexamples)."""
    rng = np.random.RandomState(1000 + seed)
    X = np.zeros((rows, n))
    for a, i in enumerate(order):
        e = rng.uniform(-1, 1, rows) ** 3 + rng.uniform(-0.2, 0.2, rows)
        X[:, i] = e / e.std()
        for j in order[:a]:
            X[:, i] += (1.2 + 0.3 * j) * (1 if (i + j) % 2 else -1) * X[:, j]
    return X


def data_models(n, k=2):
    """retry(): replay a counterexample on data with every true causal order."""
    import itertools

    def retry(cfg, model):
        out = []
        for s in range(k):
            for o in itertools.permutations(range(n if isinstance(n, int) else cfg["n"])):
                m = dict(model)
                m["data"] = [list(o), s]
                out.append(m)
        return out
    return retry


def any_data(c, n, rows, name="x", seed=0):
    """Arbitrary data (symbolic), or the replay data set selected by the model."""
    if c.symbolic:
        a = np.empty((rows, n), dtype=object)
        for r in range(rows):
            for i in range(n):
                a[r, i] = c.real(f"{name}{r}_{i}")
        return a.view(SymArray)
    o, s = c.model.get("data", [list(range(n)), 0])
    return sem_data(n, list(o), s + 17 * seed)


class Chi2:
    """A strictly increasing stand-in for the chi-squared distribution function."""

    @staticmethod
    def cdf(x, df=1, *a, **k):
        if not hasattr(x, "n") and x == np.inf:
            return 1.0
        return x / (x + float(df))

    @staticmethod
    def sf(x, df=1, *a, **k):
        return 1.0 - Chi2.cdf(x, df)


def chi2_env(c):
    import scipy.stats
    return module_env(scipy.stats, chi2=Chi2)


def pvalue_models(prefixes=("p",), k=60):
    """retry(): vary the symbolic test results of a counterexample."""
    def retry(cfg, model):
        rng = np.random.RandomState(5)
        out = []
        for _ in range(k):
            m = dict(model)
            for key in m:
                if any(key.startswith(q) for q in prefixes):
                    m[key] = float(rng.choice([0.0, 1e-3, 0.04, 0.2, 0.5, 0.9, rng.rand()]))
            out.append(m)
        return out
    return retry
