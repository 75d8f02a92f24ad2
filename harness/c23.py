"""C23: the HSIC test."""
import itertools

import numpy as np
import scipy.stats
import statsmodels.nonparametric
from statsmodels.nonparametric import bandwidths

import lingam.hsic as hsic
from symx import arr as symarr
from symx.run import harness

from .fakes import Proxy, module_env
from .lib import arr, dice, matrix

META = {
    "bounds": "statistic, gamma parameters and symmetry: 6-8 points, one or two features, 3-8 of the kernel values of each side "
              "open in (0, 1]; kernel width: every data set of 3-4 points in one dimension and 3 points in two, and data sets of "
              "more than 100 points whose surplus points are arbitrary",
    "outside": "more points (the formulas are the same sums); the numerical accuracy of exp and of the gamma distribution",
    "assumptions": ["the kernel values of distinct pairs of points are independent numbers in (0, 1]",
                    "the tail of the gamma distribution is an arbitrary function of statistic, shape and scale"],
}
CUR = {}
SF = scipy.stats.gamma.sf


def env(c, cfg):
    CUR.clear()
    CUR.update(sf=[], exp=[], bw=[])

    class Gamma:
        @staticmethod
        def sf(x, a, loc=0, scale=1):
            CUR["sf"].append((x, a, loc, scale))
            return 0.25 if c.symbolic else SF(x, a, loc=loc, scale=scale)

        @staticmethod
        def cdf(x, a, loc=0, scale=1):
            return 1 - Gamma.sf(x, a, loc, scale)
    out = module_env(scipy.stats, gamma=Gamma)

    def rule(name):
        def f(x, *a, **k):
            x = np.asarray(x, dtype=float)
            CUR["bw"].append((name, x))
            return np.float64(0.75 + abs(dice(name, str(x.ravel().tolist()))[0]))
        return f
    if cfg.get("bw"):
        scott, silverman = rule("scott"), rule("silverman")
        out += [(bandwidths, Proxy(bandwidths, bw_scott=scott, bw_silverman=silverman)), (bandwidths.bw_scott, scott),
                (bandwidths.bw_silverman, silverman)]
    if c.symbolic and cfg.get("open"):
        base = symarr.make_facade()

        def exp(x, *a, **k):
            # the kernel values of the open pairs
            x = np.asarray(x)
            r = np.empty(x.shape, dtype=object)
            side = next((k for k in (0, 1) if x.shape == CUR["args"][k].shape
                         and np.allclose(x.astype(float), CUR["args"][k], atol=1e-9)), None)
            for i, v in np.ndenumerate(x):
                r[i] = np.float64(np.exp(float(v)))
                if side is not None and tuple(sorted(i)) in CUR["open"][side]:
                    r[i] = kernel(c, side, tuple(sorted(i)))
            return r.view(symarr.SymArray)
        out.append((np, symarr.Facade(np, dict(base._over, exp=exp))))
    return out


def kernel(c, side, pair):
    return c.real(f"{'KL'[side]}{pair[0]}_{pair[1]}", lo=0, hi=1, nonzero=True)


def width(X):
    d = [float(np.sum((X[i] - X[j]) ** 2)) for i, j in itertools.combinations(range(len(X)), 2)]
    return np.sqrt(0.5 * np.median([v for v in d if v > 0]))


def points(n, f, seed):
    rng = np.random.RandomState(seed)
    return np.round(rng.uniform(-3, 3, (n, f)) * 2.0 ** 20) / 2.0 ** 20 + 5


def gram(c, X, w, side, opened):
    n = len(X)
    K = [[1.0] * n for _ in range(n)]
    for i, j in itertools.combinations(range(n), 2):
        v = kernel(c, side, (i, j)) if c.symbolic and (i, j) in opened else \
            float(np.exp(-np.sum((X[i] - X[j]) ** 2) / (2 * w ** 2)))
        K[i][j] = K[j][i] = v
    return K


def centred(K):
    """H K H with the centring matrix H."""
    n = len(K)
    col = [sum(K[i][j] for i in range(n)) / n for j in range(n)]
    row = [sum(K[i][j] for j in range(n)) / n for i in range(n)]
    tot = sum(row) / n
    return [[K[i][j] - row[i] - col[j] + tot for j in range(n)] for i in range(n)]


def reference(K, L):
    """Statistic, mean and variance under independence (Gretton et al. 2007)."""
    n = len(K)
    A, B = centred(K), centred(L)
    stat = sum(A[i][j] * B[i][j] for i in range(n) for j in range(n)) / n
    var = sum((A[i][j] * B[i][j] / 6) ** 2 for i in range(n) for j in range(n) if i != j) / n / (n - 1)
    var = var * 72 * (n - 4) * (n - 5) / n / (n - 1) / (n - 2) / (n - 3)
    mx = sum(K[i][j] for i in range(n) for j in range(n) if i != j) / n / (n - 1)
    my = sum(L[i][j] for i in range(n) for j in range(n) if i != j) / n / (n - 1)
    return stat, (1 + mx * my - mx - my) / n, var


def other(c, cfg, model):
    return [model] + [dict(model, seed=s) for s in range(1, 5)]


FORMS = [dict(n=6, fx=1, fy=1, open=2, seed=1, flat=True), dict(n=6, fx=1, fy=1, open=2, seed=2), dict(n=7, fx=2, fy=1, open=2, seed=3),
         dict(n=8, fx=1, fy=3, open=2, seed=4), dict(n=6, fx=2, fy=2, open=2, seed=5, bw="scott"),
         dict(n=6, fx=1, fy=1, open=2, seed=6, bw="silverman"), dict(n=6, fx=1, fy=1, open=2, seed=7, bw="mdbs")]
DEEP = FORMS + [dict(n=6, fx=1, fy=1, open=8, seed=8), dict(n=9, fx=1, fy=1, open=4, seed=9), dict(n=12, fx=1, fy=2, open=3, seed=9)]


@harness("C23", {"quick": FORMS, "thorough": DEEP}, env=env, tol=1e-6)
def gamma_test(c, cfg):
    n, s = cfg["n"], 0 if c.symbolic else 10 * int(c.model.get("seed", 0))
    X, Y = points(n, cfg["fx"], cfg["seed"] + s), points(n, cfg["fy"], cfg["seed"] + s + 100)
    bw = cfg.get("bw")
    if bw in ("scott", "silverman"):
        ws = [0.75 + abs(dice(bw, str(Z.ravel().tolist()))[0]) for Z in (X, Y)]
    else:
        ws = [width(X), width(Y)]
    pairs = sorted(itertools.combinations(range(n), 2), key=lambda p: dice(cfg["seed"], str(p))[0])
    opened = [pairs[:cfg["open"]], pairs[cfg["open"] // 2:cfg["open"] // 2 + cfg["open"]]]
    CUR["open"] = opened
    CUR["args"] = [-np.sum((Z[:, None] - Z[None]) ** 2, axis=2) / (2 * w ** 2) for Z, w in zip((X, Y), ws)]
    stat, mean, var = reference(gram(c, X, ws[0], 0, opened[0]), gram(c, Y, ws[1], 1, opened[1]))
    A, B = (X[:, 0], Y[:, 0]) if cfg.get("flat") else (X, Y)
    kw = {"bw_method": bw} if bw else {}
    before = X.copy(), Y.copy()

    def judge(t, p, what):
        c.check_close(t, stat, f"{what}: the HSIC statistic")
        c.check(len(CUR["sf"]) == 1, f"{what}: one tail probability")
        x, shape, loc, scale = CUR["sf"][0]
        c.check_close(x, stat, f"{what}: the tail beyond the statistic")
        c.check_close(shape * var, mean * mean, f"{what}: the shape of the gamma distribution")
        c.check_close(scale * mean, var * n, f"{what}: the scale of the gamma distribution")
        c.check_close(loc, 0.0, f"{what}: the location of the gamma distribution")
        c.check_close(p, 0.25 if c.symbolic else SF(float(x), float(shape), scale=float(scale)), f"{what}: the p-value")
        CUR["sf"].clear()
    judge(*hsic.hsic_test_gamma(A, B, **kw), "test")
    if bw in ("scott", "silverman"):
        c.check(len(CUR["bw"]) == 2 and {b for b, _ in CUR["bw"]} == {bw}, "the rule asked for")
    c.check(np.array_equal(X, before[0]) and np.array_equal(Y, before[1]), "the data are not modified")
    if not c.symbolic:
        judge(*hsic.hsic_test_gamma(B, A, **kw), "exchanged")


@harness("C23", [dict(n=3, open=3), dict(n=4, open=6), dict(n=5, open=10), dict(n=6, open=15)], env=env)
def statistic(c, cfg):
    """Every kernel value open: the centred matrices and the statistic."""
    n = cfg["n"]
    X, Y, ws = points(n, 1, 40), points(n, 2, 41), (1.5, 0.75)
    pairs = list(itertools.combinations(range(n), 2))
    CUR["open"] = [pairs, pairs]
    CUR["args"] = [-np.sum((Z[:, None] - Z[None]) ** 2, axis=2) / (2 * w ** 2) for Z, w in zip((X, Y), ws)]
    Ks = [gram(c, Z, w, k, pairs) for k, (Z, w) in enumerate(zip((X, Y), ws))]
    Cs = [centred(K) for K in Ks]
    got = [hsic.get_gram_matrix(Z, w) for Z, w in zip((X, Y), ws)]
    for k in (0, 1):
        for i in range(n):
            for j in range(n):
                c.check_close(got[k][0][i, j], Ks[k][i][j], "the kernel matrix")
                c.check_close(got[k][1][i, j], Cs[k][i][j], "the centred kernel matrix")
    want = sum(Cs[0][i][j] * Cs[1][i][j] for i in range(n) for j in range(n)) / n
    c.check_close(hsic.hsic_teststat(got[0][1], got[1][1], n), want, "the statistic")


@harness("C23", [dict(n=3, f=1), dict(n=4, f=1), dict(n=3, f=2), dict(n=3, f=1, open=0)], env=env, max_decisions=3000)
def median_distance(c, cfg):
    """The kernel width from the median of the distances that are not zero."""
    X = matrix(c, "x", cfg["n"], cfg["f"])
    if cfg["f"] == 2:
        X[0, 0], X[0, 1], X[1, 1] = 0.0, 0.0, 0.5
    pairs = itertools.combinations(range(cfg["n"]), 2)
    d = [sum((X[i, k] - X[j, k]) * (X[i, k] - X[j, k]) for k in range(cfg["f"])) for i, j in pairs]
    pos = sorted_values([v for v in d if v > 0])
    c.assume(len(pos) > 0)
    if not pos:
        return
    m = pos[len(pos) // 2] if len(pos) % 2 else (pos[len(pos) // 2 - 1] + pos[len(pos) // 2]) / 2
    w = hsic.get_kernel_width(X)
    c.check(w > 0, "a positive width")
    c.check_eq(w * w, m / 2, "half the median squared distance")


def sorted_values(v):
    out = []
    for x in v:
        k = 0
        while k < len(out) and out[k] <= x:
            k += 1
        out.insert(k, x)
    return out


@harness("C23", [dict(n=100, more=0), dict(n=100, more=2), dict(n=100, more=1, f=2)], env=env)
def many(c, cfg):
    """At most 100 points, the first ones, decide the width."""
    f = cfg.get("f", 1)
    P = points(100, f, 77)
    X = arr(c, np.vstack([P, np.zeros((cfg["more"], f))]))
    for i in range(cfg["more"]):
        for k in range(f):
            X[100 + i, k] = c.real(f"x{i}_{k}")
    c.check_eq(hsic.get_kernel_width(X), np.float64(width(P)), "the width of the first 100 points")
