"""C25: visualize_nonlinear_causal_effect."""
import numpy as np
import pandas as pd
import sklearn.base
from matplotlib.figure import Figure

from lingam.bootstrap import BootstrapResult
from lingam.utils import visualize_nonlinear_causal_effect
from symx.core import PathCut, S
from symx.run import harness

from .lib import gap, raises, same, zeros

META = {
    "bounds": "3-4 variables, 4 rows (default, shifted, reversed and text index), 1-10 positions, one matrix or a bootstrap "
              "result with up to 3 matrices with or without row numbers; every coefficient of the matrices that decides "
              "about a covariate, every prediction of the fitted models; numeric and categorical effects and covariates; "
              "every percentile",
    "outside": "more variables and rows; colours, labels and layout of the figure",
    "assumptions": ["a model fitted on (predictors, target) is linear in the predictors with arbitrary coefficients; a "
                    "classifier returns arbitrary probabilities that are linear in the predictors"],
}
CUR = {}


def key(X, y):
    """Name of the function learnt from this training set."""
    cols = sorted(map(str, X.columns))
    order = [list(map(str, X.columns)).index(k) for k in cols]
    t = (cols, [[float(X.iloc[r, k]) for k in order] for r in range(len(X))], [str(v) for v in y])
    for k, w in enumerate(CUR["reg"]):
        if w == t:
            return k
    CUR["reg"].append(t)
    return len(CUR["reg"]) - 1


def linear(c, name, X):
    out = []
    for r in range(len(X)):
        v = c.real(name)
        for k, col in enumerate(map(str, X.columns)):
            x = X.iloc[r, k]
            v = v + c.real(f"{name}_{col}") * np.float64(float(x))
        out.append(v)
    return out


class Model(sklearn.base.RegressorMixin, sklearn.base.BaseEstimator):
    def fit(self, X, y):
        if not isinstance(X, pd.DataFrame) or len(X) != len(y):
            raise PathCut("fit")
        self.cols_ = list(map(str, X.columns))
        self.k_ = key(X, y)
        return self

    def predict(self, X):
        if sorted(self.cols_) != sorted(map(str, X.columns)):
            raise ValueError("feature names")
        c = CUR["c"]
        v = linear(c, f"w{self.k_}", X)
        return arr1(c, v)


class Classifier(sklearn.base.ClassifierMixin, sklearn.base.BaseEstimator):
    def fit(self, X, y):
        self.cols_ = list(map(str, X.columns))
        self.k_ = key(X, y)
        self.classes_ = np.unique(np.asarray(y))
        return self

    def predict(self, X):
        raise PathCut("classes")

    def predict_proba(self, X):
        if sorted(self.cols_) != sorted(map(str, X.columns)):
            raise ValueError("feature names")
        c = CUR["c"]
        out = zeros(c, len(X), len(self.classes_))
        for k, cl in enumerate(self.classes_):
            for r, v in enumerate(linear(c, f"w{self.k_}{cl}", X)):
                out[r, k] = v
        return out


def arr1(c, v):
    out = zeros(c, len(v))
    for k, x in enumerate(v):
        out[k] = x
    return out


class Axes:
    """Records what is drawn."""

    def __init__(self):
        self.points, self.lines = [], []
        self.title = None

    def scatter(self, x, y, *a, **k):
        x = list(x) if np.ndim(x) else [x] * len(list(y))
        self.points += list(zip(x, list(y)))

    def boxplot(self, values, positions=None, **k):
        values = list(values)
        if np.ndim(positions) != 1 or len(positions) != 1:
            raise PathCut("boxplot")
        self.points += [(positions[0], v) for v in values]

    def plot(self, x, y, *a, label=None, **k):
        self.lines.append((label, list(x), list(y)))

    def set_title(self, t, *a, **k):
        self.title = t

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: None


class Fig(Figure):
    def __init__(self):
        self.rec = []
        super().__init__()
        self.rec = []

    def add_subplot(self, *a, **k):
        self.rec.append(Axes())
        return self.rec[-1]

    def subplots(self, nrows=1, ncols=1, *a, **k):
        out = np.array([[self.add_subplot() for _ in range(ncols)] for _ in range(nrows)], dtype=object)
        return out if not k.get("squeeze", True) else (out[0, 0] if out.size == 1 else out.squeeze())

    def get_axes(self):
        return self.rec

    @property
    def axes(self):
        return self.rec


def env(c, cfg):
    CUR.clear()
    CUR.update(c=c, reg=[])
    return []


def frame(cfg):
    n, rows = cfg.get("n", 3), 4
    names = ["a", "b", "c", "d"][:n]
    V = np.array([[1.0, 2.5, -1.0, 0.5], [0.0, -2.0, 3.0, 1.5], [2.0, 1.0, 0.5, -3.0], [-1.5, 4.0, 2.0, 0.25]])[:, :n]
    X = pd.DataFrame(V, columns=names)
    if "cat" in cfg:
        X[cfg["cat"]] = pd.Categorical(["u", "v", "u", "v"])
    if cfg.get("disc"):
        X[cfg["effect"]] = pd.Categorical([0, 1, 1, 2])
    ix = {"shift": [1, 2, 3, 4], "rev": [3, 2, 1, 0], "text": list("wxyz")}.get(cfg.get("index"))
    if ix is not None:
        X.index = ix
    assert len(X) == rows
    return X


def percentile(vals, q):
    """Linear interpolation between the ordered values."""
    v = []
    for x in vals:
        k = 0
        while k < len(v) and bool(v[k] <= x):
            k += 1
        v.insert(k, x)
    h = (len(v) - 1) * q / 100
    lo = int(np.floor(h))
    hi = min(lo + 1, len(v) - 1)
    return v[lo] + (v[hi] - v[lo]) * np.float64(h - lo)


def listed(c, got, want, what):
    c.check(len(got) == len(want), f"{what}: {len(got)} points, {len(want)} expected")
    for (x, y), (u, v) in zip(got, want):
        c.check(same(x, u) or abs(float(x) - float(u)) < 1e-9, f"{what}: position {x}, {u} expected")
        c.check_close(y, v, f"{what}: value at {u}")


PCT = [80, 50, 25]
CF = [dict(cause="b", effect="c"), dict(cause="a", effect="b", n=4), dict(cause="c", effect="a", index="shift"),
      dict(cause="b", effect="a", index="text"), dict(cause="b", effect="c", index="rev"),
      dict(cause="b", effect="c", cat="a"), dict(cause="a", effect="c", disc=True),
      dict(cause="b", effect="c", bs=2, idx=True), dict(cause="b", effect="c", bs=2, idx=False),
      dict(cause="c", effect="b", n=4, bs=3, idx=True, index="shift"), dict(cause="b", effect="c", bs=3, idx=False, box=True),
      dict(cause="a", effect="c", bs=2, idx=True, disc=True), dict(cause="b", effect="c", box=True),
      dict(cause="b", effect="c", bs=3, idx=True, pct=PCT), dict(cause="b", effect="a", bs=2, idx=False, pct=[100, 0, 60]),
      dict(cause="b", effect="c", bs=2, idx=True, cat="a", index="rev"), dict(cause="b", effect="c", default=True),
      dict(cause="b", effect="c", aslist=True),
      dict(cause="a", effect="c", bs=2, idx=True, disc=True, rows=[[1, 2, 3, 3], [0, 0, 3, 0]])]


@harness("C25", CF, env=env)
def nonlinear(c, cfg):
    X = frame(cfg)
    keep = X.copy()
    n, names = X.shape[1], list(X.columns)
    ci, ei = names.index(cfg["cause"]), names.index(cfg["effect"])
    M = cfg.get("bs", 1)
    mats = zeros(c, M, n, n)
    for m in range(M):
        for j in range(n):
            for i in range(n):
                if i == j:
                    continue
                if i == ci:
                    # any coefficient, not only 1
                    mats[m, i, j] = gap(c, c.real(f"m{m}_{j}")) if m < 2 else np.float64(-0.5)
                elif (i + j + m) % 2:
                    mats[m, i, j] = np.float64(1.0 if j > i else 0.5)
    rows = cfg["rows"] if "rows" in cfg else [[0, 2, 2, 3], [1, 1, 0, 3], [3, 2, 1, 0]][:M] if cfg.get("idx") else [[0, 1, 2, 3]] * M
    if "bs" in cfg:
        res = BootstrapResult(mats, zeros(c, M, n, n), resampled_indices=np.array(rows) if cfg["idx"] else None)
    else:
        res = mats[0].tolist() if cfg.get("aslist") else mats[0]
    pos = [-1.0, 0.5, 2.0] if M == 1 else [2.0, -0.5] if M == 2 else [0.5]
    kw = {} if cfg.get("default") else dict(cause_positions=list(pos))
    if cfg.get("default"):
        lo, hi = float(X[cfg["cause"]].min()), float(X[cfg["cause"]].max())
        pos = [lo + (hi - lo) * k / 9 for k in range(10)]
    if "pct" in cfg:
        kw["percentile"] = list(cfg["pct"])
    fig = Fig()
    est = Classifier() if cfg.get("disc") else Model()
    out = visualize_nonlinear_causal_effect(X, res, est, cfg["cause"], cfg["effect"], fig=fig, boxplot=bool(cfg.get("box")), **kw)
    c.check(out is fig, "the given figure is returned")
    c.check(X.equals(keep) and list(X.index) == list(keep.index), "the data are not modified")

    # what has to be shown
    classes = [None] if not cfg.get("disc") else [0, 1, 2]
    want = {k: {p: [] for p in range(len(pos))} for k in classes}
    for m in range(M):
        cov = [j for j in range(n) if j not in (ci, ei) and bool(mats[m, ci, j] != 0)]
        exp = sorted([ci] + cov)
        Z = X.iloc[rows[m]]
        t = key(pd.get_dummies(Z.iloc[:, exp]), Z.iloc[:, ei])
        present = [None] if not cfg.get("disc") else sorted(set(Z.iloc[:, ei].tolist()))
        for p, x in enumerate(pos):
            D = Z.copy()
            D[cfg["cause"]] = x
            D = pd.get_dummies(D.iloc[:, exp])
            for k in present:
                v = linear(c, f"w{t}{k if k is not None else ''}", D)
                s = v[0]
                for u in v[1:]:
                    s = s + u
                want[k][p].append(s / np.float64(len(v)))
    c.check(len(fig.rec) == len(classes), "one plot per class")
    pct = ([50] if "bs" not in cfg else cfg.get("pct", [95, 50, 5]))
    for ax, k in zip(fig.rec, classes):
        what = "effect" if k is None else f"class {k}"
        if k is not None:
            c.check(str(k) in str(ax.title), f"the plot of class {k} has its name")
        listed(c, ax.points, [(x, v) for p, x in enumerate(pos) for v in want[k][p]], what)
        c.check(len(ax.lines) == len(pct), f"{what}: one line per percentile")
        for (label, xs, ys), q in zip(ax.lines, pct):
            if "bs" in cfg:
                c.check(label is not None and str(q) in str(label), f"{what}: the line of {q} % is labelled so")
            listed(c, list(zip(xs, ys)), [(x, percentile(want[k][p], q)) for p, x in enumerate(pos)], f"{what}, {q} %")


@harness("C25", [dict(cause="b", effect="c")], env=env)
def arguments(c, cfg):
    X = frame(cfg)
    B = np.zeros((3, 3))

    class NoProba(sklearn.base.ClassifierMixin, sklearn.base.BaseEstimator):
        pass
    D = frame(dict(cfg, disc=True))
    for what, args, kw in (
            ("data that are not a frame", (X.values, B, Model(), "b", "c"), {}),
            ("a matrix of the wrong shape", (X, np.zeros((2, 2)), Model(), "b", "c"), {}),
            ("an unknown cause", (X, B, Model(), "q", "c"), {}), ("an unknown effect", (X, B, Model(), "b", "q"), {}),
            ("a categorical cause", (D, B, Model(), "c", "a"), {}),
            ("a classifier for numbers", (X, B, Classifier(), "b", "c"), {}),
            ("a regressor for classes", (D, B, Model(), "b", "c"), {}),
            ("a classifier without probabilities", (D, B, NoProba(), "b", "c"), {}),
            ("two percentiles", (X, B, Model(), "b", "c"), dict(percentile=[95, 5])),
            ("a percentile above 100", (X, B, Model(), "b", "c"), dict(percentile=[101, 50, 5])),
            ("a figure that is none", (X, B, Model(), "b", "c"), dict(fig=3))):
        _, e = raises(lambda: visualize_nonlinear_causal_effect(*args, **kw))
        c.check(isinstance(e, (TypeError, ValueError, RuntimeError)), f"{what} is rejected ({e!r})")
