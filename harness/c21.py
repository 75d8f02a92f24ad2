"""C21: CausalDataGenerator."""
import numpy as np
import pandas as pd
import sklearn.base
import sklearn.linear_model

from lingam.experimental import CausalDataGenerator
from symx.core import PathCut
from symx.run import harness

from .fakes import module_env, vec
from .lib import raises, same

META = {
    "bounds": "3-5 data rows, cause, effect and 0-3 adjustments in several column orders, with and without further columns; "
              "every coefficient of the fitted models and of the replacing functions, every replacement value, every subset "
              "of intervened variables; discrete causes and effects with every outcome of the draws and all probabilities",
    "outside": "more variables; the quality of the fitted models; pandas' own alignment of replacement values given as a "
               "Series with another index",
    "assumptions": ["a model fitted on (predictors, target) is linear with arbitrary coefficients; a classifier returns "
                    "arbitrary probabilities per row"],
}
CUR = {}
CODE = {"lo": -1.0, "hi": 0.5, "p": 0.25, "q": 2.0, "r": -0.75}


def num(v):
    return CODE[v] if isinstance(v, str) else v


def name_of(col):
    """The data column with these values."""
    v = list(col)
    for k, w in CUR["cols"].items():
        if len(v) == len(w) and all(same(num(a), num(b)) for a, b in zip(v, w)):
            return k
    return None


def columns(X):
    if isinstance(X, pd.DataFrame):
        return [list(X.iloc[:, k]) for k in range(X.shape[1])]
    return [[X[r, k] for r in range(len(X))] for k in range(X.shape[1])]


def env(c, cfg):
    CUR.clear()
    CUR.update(c=c, unknown=0, asked=[], draws=[])

    class Linear(sklearn.base.RegressorMixin, sklearn.base.BaseEstimator):
        pre = "w"

        def fit(self, X, y):
            t, P = name_of(y), [name_of(v) for v in columns(X)]
            if len(P) == 0:
                raise ValueError("no features")
            if t is None or None in P:
                CUR["unknown"] += 1
                self.coef = [c.real(f"?{CUR['unknown']}_{k}") for k in range(len(P))]
                self.b = c.real(f"?{CUR['unknown']}")
            else:
                self.coef = [c.real(f"{self.pre}{t}<{p}") for p in P]
                self.b = c.real(f"{self.pre}{t}")
            return self

        def predict(self, X):
            cols = columns(X)
            if len(cols) != len(self.coef):
                raise ValueError("number of features")
            return vec(c, [sum((w * num(v[r]) for w, v in zip(self.coef, cols)), self.b) for r in range(len(cols[0]))])

    class User(Linear):
        pre = "u"

    class Logistic(sklearn.base.ClassifierMixin, sklearn.base.BaseEstimator):
        def fit(self, X, y):
            self.t = name_of(y)
            self.P = [name_of(v) for v in columns(X)]
            self.classes_ = np.array(sorted(set(y)))
            return self

        def predict(self, X):
            return np.array([self.classes_[0]] * len(columns(X)[0]))

        def predict_proba(self, X):
            CUR["asked"].append((self.t, list(self.P), columns(X)))
            out = []
            for r in range(len(columns(X)[0])):
                p = c.real(f"p{self.t}_{r}", 0, 1)
                out.append([p, 1 - p])
            return np.array(out, dtype=object if c.symbolic else float)
    CUR.update(Linear=Linear, User=User, Logistic=Logistic)
    return module_env(sklearn.linear_model, LinearRegression=Linear, LogisticRegression=Logistic)


class Draw(np.random.RandomState):
    """Draws of classes: every outcome."""

    def choice(self, a, size=None, replace=True, p=None):
        if size is not None or p is None:
            raise PathCut("drawn in another way")
        k = len(CUR["draws"])
        a = list(a)
        v = a[CUR["c"].choose(f"draw{k}", len(a))]
        CUR["draws"].append((a, list(p), v))
        return v


INDEX = [7, 2, 9, 4, 11, 5]


def frame(cfg):
    rng = np.random.RandomState(3)
    rows = cfg.get("rows", 4)
    d = {}
    for k, n in enumerate(cfg["columns"]):
        if n in cfg.get("cat", ()):
            v = ["lo", "hi"] if n in (cfg["cause"], cfg["effect"]) else ["p", "q", "r"][: 2 + rows % 2]
            d[n] = pd.Categorical([v[(r + k + (r == 3) + (r > k > 0)) % len(v)] for r in range(rows)])
        else:
            d[n] = np.round(rng.uniform(-2, 2, rows) * 8) / 8 + k
    X = pd.DataFrame(d, index=INDEX[:rows])
    CUR["cols"] = {n: list(X[n]) for n in X.columns}
    return X


def expected(c, cfg, X, endog, exog, custom):
    """The structural equations with the interventions."""
    rows, adj = len(X), list(cfg["adj"] or ())
    out = {}
    for a in adj:
        out[a] = list(endog.get(a, exog.get(a, list(X[a]))))

    def equation(t, parents):
        pre = "u" if cfg.get("user") else "w"
        # residual of the observed data, unless replaced
        err = exog.get(t)
        if err is None:
            err = list(X[t]) if not parents else [
                X[t].iloc[r] - (sum((c.real(f"{pre}{t}<{p}") * num(X[p].iloc[r]) for p in parents), c.real(f"{pre}{t}")))
                for r in range(rows)]
        if t in custom:
            return [custom[t]([num(out[p][r]) for p in parents], err[r]) for r in range(rows)]
        if not parents:
            return err
        return [sum((c.real(f"{pre}{t}<{p}") * num(out[p][r]) for p in parents), c.real(f"{pre}{t}")) + err[r]
                for r in range(rows)]
    x, y = cfg["cause"], cfg["effect"]
    for t, parents in ((x, adj), (y, [x] + adj)):
        if t in endog:
            out[t] = list(endog[t])
        elif t in cfg.get("cat", ()) and parents and t not in custom:
            out[t] = None
        elif any(out[p] is None for p in parents):
            out[t] = None       # follows once the draws are known
        else:
            out[t] = equation(t, parents)
    return out


def compare(c, G, X, exp, what=""):
    c.check(isinstance(G, pd.DataFrame) and list(G.index) == list(X.index), "one generated row per data row")
    c.check(list(G.columns) == [n for n in X.columns if n in exp], "the variables of the model, in the order of the data")
    for n, v in exp.items():
        c.check(str(X[n].dtype) == "category" or str(G[n].dtype) != "category", f"{what}{n} stays a number")
        for r in range(len(X)):
            g = G[n].iloc[r]
            if isinstance(v[r], str):
                c.check(g == v[r], f"{what}{n} in row {r}")
            else:
                c.check_eq(g, v[r], f"{what}{n} in row {r}")


def values(c, n, rows, kind):
    v = [c.real(f"{kind}_{n}_{r}") for r in range(rows)]
    return v if n != "y" else vec(c, v)


def make(c, cfg, X):
    kw = {}
    if cfg.get("user"):
        kw = dict(model_cause=CUR["User"](), model_effect=CUR["User"]())
        if cfg["user"] == "effect":
            kw.pop("model_cause")
    before = X.copy(deep=True)
    g = CausalDataGenerator(random_state=Draw(0))
    r = g.fit(X, cfg["cause"], cfg["effect"], None if cfg["adj"] is None else list(cfg["adj"]), **kw)
    c.check(r is g, "fit returns the generator")
    c.check(X.equals(before), "the data are not modified")
    return g


LAYOUTS = [dict(columns="xy", cause="x", effect="y", adj=None), dict(columns="yx", cause="x", effect="y", adj=()),
           dict(columns="axy", cause="x", effect="y", adj=("a",)),
           dict(columns="ybxa", cause="x", effect="y", adj=("a", "b")),
           dict(columns="zyxwa", cause="x", effect="y", adj=("a",)),
           dict(columns="caxby", cause="x", effect="y", adj=("c", "a", "b"), rows=3)]


@harness("C21", [dict(d, user=u) for d in LAYOUTS for u in (False, True)], env=env)
def interventions(c, cfg):
    X = frame(cfg)
    rows = len(X)
    g = make(c, cfg, X)
    names = [cfg["cause"], cfg["effect"]] + list(cfg["adj"] or ())
    base = expected(c, cfg, X, {}, {}, {})
    pre = "u" if cfg["user"] else "w"
    for t, e, P in ((cfg["cause"], g.error_cause_, list(cfg["adj"] or ())),
                    (cfg["effect"], g.error_effect_, [cfg["cause"]] + list(cfg["adj"] or ()))):
        c.check(len(e) == rows, "one error per row")
        for r in range(rows):
            v = X[t].iloc[r]
            if P:
                v = v - sum((c.real(f"{pre}{t}<{p}") * X[p].iloc[r] for p in P), c.real(f"{pre}{t}"))
            c.check_eq(e.iloc[r], v, f"error of {t} in row {r}")
    compare(c, g.generate(), X, base, "unchanged ")
    for n, v in base.items():
        for r in range(rows):
            c.check_eq(v[r], X[n].iloc[r], "the reference reproduces the data")
    endog, exog = {}, {}
    for n in names:
        k = c.choose("do_" + n, 4 if len(names) < 4 else 3)
        if k in (1, 3):
            endog[n] = values(c, n, rows, "endog")
        if k in (2, 3):
            exog[n] = values(c, n, rows, "exog")
    exp = expected(c, cfg, X, endog, exog, {})
    compare(c, g.generate(interv_endog=endog or None, interv_exog=exog or None), X, exp)
    compare(c, g.generate(), X, base, "unchanged afterwards ")


@harness("C21", [dict(d, which=w, user=u) for d in (LAYOUTS[0], LAYOUTS[3], LAYOUTS[4]) for w in ("xy", "x", "y")
                 for u in (False, True) if not (u and w == "xy")], env=env)
def replaced(c, cfg):
    X = frame(cfg)
    rows, adj = len(X), list(cfg["adj"] or ())
    g = make(c, cfg, X)
    seen = {}
    marker = object()

    def fun(t, parents):
        def f(df, error, args):
            c.check(args is marker, f"the function for {t} gets its own arguments")
            c.check(list(df.columns) == parents, f"the function for {t} gets its predictors")
            seen[t] = True
            r = error
            for p in parents:
                r = r + c.real(f"f{t}<{p}") * df[p]
            return r
        return f

    def ref(t, parents):
        return lambda v, e: sum((c.real(f"f{t}<{p}") * x for p, x in zip(parents, v)), e)
    P = {"x": adj, "y": ["x"] + adj}
    kw, custom = {}, {}
    if "x" in cfg["which"]:
        kw.update(cause_model=fun("x", P["x"]), cause_model_args=marker)
        custom["x"] = ref("x", P["x"])
    if "y" in cfg["which"]:
        kw.update(effect_model=fun("y", P["y"]), effect_model_args=marker)
        custom["y"] = ref("y", P["y"])
    exog, endog = {}, {}
    k = c.choose("also", 4)
    if k == 1:
        exog["x"] = values(c, "x", rows, "exog")
    elif k == 2:
        exog["y"] = values(c, "y", rows, "exog")
        if adj:
            endog[adj[0]] = values(c, adj[0], rows, "endog")
    elif k == 3:
        endog["x"] = values(c, "x", rows, "endog")
    exp = expected(c, cfg, X, endog, exog, custom)
    compare(c, g.generate(interv_endog=endog, interv_exog=exog, **kw), X, exp)
    for t in cfg["which"]:
        c.check((t in seen) == (t not in endog), f"the function for {t} is used unless {t} is set")


# ---------------------------------------------------------------- discrete
@harness("C21", [dict(columns="axy", cause="x", effect="y", adj=("a",), cat="x", rows=3),
                 dict(columns="bxya", cause="x", effect="y", adj=("a", "b"), cat="y", rows=3),
                 dict(columns="bxya", cause="x", effect="y", adj=("b",), cat="xy", rows=2),
                 dict(columns="xy", cause="x", effect="y", adj=None, cat="y", rows=3)], env=env)
def discrete(c, cfg):
    X = frame(cfg)
    rows, adj = len(X), list(cfg["adj"] or ())
    before = X.copy(deep=True)
    g = CausalDataGenerator(random_state=Draw(0))
    kw = {}
    for t, k in (("x", "model_cause"), ("y", "model_effect")):
        if not (t == "x" and not adj):
            kw[k] = CUR["Logistic"]() if t in cfg["cat"] else CUR["User"]()
    g.fit(X, "x", "y", cfg["adj"], **kw)
    c.check(X.equals(before), "the data are not modified")
    endog, exog = {}, {}
    k = c.choose("do", 3)
    if k == 1 and adj:
        exog[adj[0]] = values(c, adj[0], rows, "exog")
    elif k == 2:
        endog["x"] = ["hi", "lo", "hi", "hi"][:rows] if "x" in cfg["cat"] else values(c, "x", rows, "endog")
    G = g.generate(interv_endog=endog, interv_exog=exog)
    exp = expected(c, dict(cfg, user=True), X, endog, exog, {})
    asked, draws = list(CUR["asked"]), list(CUR["draws"])
    for t, P in (("x", adj), ("y", ["x"] + adj)):
        if exp[t] is None and t in cfg["cat"]:
            c.check(len(asked) > 0 and asked[0][0] == t, f"{t} is drawn from the probabilities of its model")
            if not asked or len(draws) < rows:
                raise PathCut("drawn in another way")
            _, fitted, cols = asked.pop(0)
            c.check(sorted(map(str, fitted)) == sorted(P), f"the model of {t} is fitted on its predictors")
            now = {p: (exp[p] if exp[p] is not None else list(G[p])) for p in P}
            for p, col in zip(fitted, cols):
                for r in range(rows):
                    if isinstance(now[p][r], str):
                        c.check(col[r] == now[p][r], f"{t}, row {r}: probabilities at the generated {p}")
                    else:
                        c.check_eq(col[r], now[p][r], f"{t}, row {r}: probabilities at the generated {p}")
            out = []
            for r in range(rows):
                classes, pr, v = draws.pop(0)
                c.check(list(classes) == ["hi", "lo"], "drawn among the classes of the model")
                c.check_eq(pr[0], c.real(f"p{t}_{r}", 0, 1), f"{t}, row {r}: with the probability of that class")
                out.append(v)
            exp[t] = out
            if t == "x":
                # the effect is computed from the drawn cause
                full = expected(c, dict(cfg, user=True), X, dict(endog, x=out), exog, {})
                exp["y"] = full["y"]
    compare(c, G, X, exp)
    for t in cfg["cat"]:
        if t not in endog:
            c.check(str(G[t].dtype) == "category", f"{t} stays categorical")


@harness("C21", [dict(columns="axby", cause="x", effect="y", adj=("a", "b"))], env=env)
def refused(c, cfg):
    X = frame(cfg)
    rows = len(X)
    v = [c.real(f"v{r}") for r in range(rows)]

    def rej(f, exc, what):
        _, e = raises(f)
        c.check(isinstance(e, exc), f"{what} is rejected")
    new = lambda: CausalDataGenerator()  # noqa: E731
    rej(lambda: new().fit(X.to_numpy(), "x", "y"), TypeError, "data that are not a DataFrame")
    rej(lambda: new().fit(X, "k", "y"), ValueError, "an unknown cause")
    rej(lambda: new().fit(X, "x", "k"), ValueError, "an unknown effect")
    Z = X.copy()
    Z["x"] = pd.Categorical(["u", "v", "u", "v"])
    rej(lambda: new().fit(Z, "x", "y", ["a"], model_cause=CUR["Linear"]()), TypeError, "a regressor for a discrete cause")
    rej(lambda: new().fit(X, "x", "y", ["a"], model_effect=CUR["Logistic"]()), TypeError, "a classifier for a number")
    g = new().fit(X, "x", "y", ["a"])
    rej(lambda: g.generate(interv_endog=[v]), TypeError, "interventions that are not a dictionary")
    rej(lambda: g.generate(interv_exog=[v]), TypeError, "interventions that are not a dictionary")
    rej(lambda: g.generate(interv_endog={"b": v}), ValueError, "a variable outside the model")
    rej(lambda: g.generate(interv_exog={"b": v}), ValueError, "a variable outside the model")
    rej(lambda: g.generate(interv_endog={"a": v[:-1]}), ValueError, "too few values")
    rej(lambda: g.generate(interv_exog={"x": v + v}), ValueError, "too many values")
    rej(lambda: g.generate(interv_endog={3: v}), TypeError, "a key that is not a name")
    rej(lambda: g.generate(cause_model=3), TypeError, "a model that is not callable")
    rej(lambda: g.generate(effect_model="f"), TypeError, "a model that is not callable")

    def bad(X, e, a):
        raise KeyError("nope")
    rej(lambda: g.generate(cause_model=bad), RuntimeError, "a failing model")
    rej(lambda: g.generate(effect_model=bad), RuntimeError, "a failing model")


# ---------------------------------------------------------------- discrete predictors and the default models
@harness("C21", [dict(columns="axy", cause="x", effect="y", adj=("a",), cat="a", rows=5),
                 dict(columns="bxya", cause="x", effect="y", adj=("a", "b"), cat="b", rows=4),
                 dict(columns="ybxa", cause="x", effect="y", adj=("a", "b"), cat="ab", rows=5),
                 dict(columns="yx", cause="x", effect="y", adj=None, cat="x", rows=4)], env=env)
def encoded(c, cfg):
    """The default models see one indicator per category, and every number as it is."""
    X = frame(cfg)
    rows, adj = len(X), list(cfg["adj"] or ())
    cats = {n: sorted(set(X[n])) for n in cfg["cat"]}
    for n, vs in cats.items():
        for v in vs:
            CUR["cols"][f"{n}={v}"] = [float(w == v) for w in X[n]]
    g = make(c, cfg, X)

    def pred(t, parents, vals, r):
        s = c.real(f"w{t}")
        for p in parents:
            s = s + (c.real(f"w{t}<{p}={vals[p][r]}") if p in cats else c.real(f"w{t}<{p}") * vals[p][r])
        return s
    data = {n: list(X[n]) for n in X.columns}
    P = {"x": adj, "y": ["x"] + adj}
    endog, exog = {}, {}
    k = c.choose("do", 4)
    for n in adj[:k]:
        endog[n] = [cats[n][(r * r + 1) % len(cats[n])] for r in range(rows)] if n in cats else values(c, n, rows, "endog")
    if k == 3:
        endog["x"] = [cats["x"][r % 3 == 0] for r in range(rows)] if "x" in cats else values(c, "x", rows, "endog")
    if k == 1 and "x" not in cats:
        exog["x"] = values(c, "x", rows, "exog")
    out = {n: endog.get(n, data[n]) for n in adj}
    for t in "xy":
        if t in endog:
            out[t] = endog[t]
        elif not P[t]:
            out[t] = exog.get(t, data[t])
        else:
            err = exog.get(t, [data[t][r] - pred(t, P[t], data, r) for r in range(rows)])
            out[t] = [pred(t, P[t], out, r) + err[r] for r in range(rows)]
    compare(c, g.generate(), X, {n: data[n] for n in ["x", "y"] + adj}, "unchanged ")
    compare(c, g.generate(interv_endog=endog, interv_exog=exog), X, out)


@harness("C21", [dict(columns="axy", cause="x", effect="y", adj=("a",), cat="xy", rows=4)], env=env)
def drawn_by_the_user(c, cfg):
    """Replacing functions for discrete variables."""
    X = frame(cfg)
    rows = len(X)
    g = CausalDataGenerator(random_state=Draw(0))
    g.fit(X, "x", "y", ["a"], model_cause=CUR["Logistic"](), model_effect=CUR["Logistic"]())
    k = c.choose("values", 4)
    vx = [("lo", "hi")[(r + k) % 2] for r in range(rows)]
    vy = [("lo", "hi")[(r * k) % 3 == 1] for r in range(rows)]

    def fx(D, e, a):
        c.check(list(D.columns) == ["a"] and a == 1, "the cause is computed from the adjustments")
        return vx

    def fy(D, e, a):
        c.check(list(D.columns) == ["x", "a"] and list(D["x"]) == vx and a == 2, "the effect is computed from the new cause")
        return np.array(vy)
    G = g.generate(cause_model=fx, cause_model_args=1, effect_model=fy, effect_model_args=2)
    compare(c, G, X, {"a": list(X["a"]), "x": vx, "y": vy})
    for t in "xy":
        c.check(str(G[t].dtype) == "category", f"{t} stays categorical")
