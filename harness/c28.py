"""C28: LiNA and MD-LiNA."""
import contextlib
import io
import types

import numpy as np
import psy
import scipy.optimize
import scipy.special

import lingam
from symx.core import S
from symx.run import harness

from .fakes import module_env
from .lagr import CUR, expit, flat, logaddexp, minimize, restart, result, sols, total
from .lib import same, zeros

META = {
    "bounds": "2-4 latent factors with 2 measurements each (also overlapping loadings), 2-3 samples, every loss; all data, "
              "scales, the penalty and the point at which the objective is evaluated symbolic for 2-3 factors; up to 4 rounds of the augmented "
              "Lagrangian with symbolic or fixed solutions; every threshold and all weights of acyclic solutions; MD-LiNA "
              "with two domains and 2-3 shared factors, fixed transformation, every weight between the shared factors",
    "outside": "the optimiser and the factor analysis themselves; the objective of MD-LiNA's transformation between the "
               "domains; MD-LiNA with more than two domains; more factors",
    "assumptions": ["confirmatory factor analysis returns arbitrary loadings", "the optimiser returns an arbitrary point that "
                    "satisfies the bounds it was given", "exp, log, cosh and tanh are uninterpreted in the symbolic run"],
}
def env(c, cfg):
    CUR.clear()
    CUR["c"] = c

    def cfa(data, lam, *a, **k):
        CUR["asked"] = (data, lam)
        return CUR["loadings"], None, None
    out = module_env(psy, cfa=cfa) + module_env(scipy.optimize, minimize=minimize)
    if c.symbolic:
        from symx import arr as symarr
        base = symarr.make_facade()
        rnd = types.SimpleNamespace(rand=lambda *s: np.linspace(0.1, 0.9, int(np.prod(s))).reshape(s), seed=lambda *a: None)
        out += module_env(scipy.special, expit=expit) + [(np, symarr.Facade(np, dict(base._over, logaddexp=logaddexp, random=rnd)))]
    return out


LOAD = {2: [[1, 0], [1, 1]], 3: [[2, 0, 0], [0, 1, 0], [0, 1, 0], [0, 0, -1], [0, 0, 1]],
        4: [[1, 0, 0, 0], [-1, 0, 0, 0], [0, 2, 0, 0], [0, 0, 1, 0], [0, 0, 0, -2]]}


def start(c, cfg):
    d = cfg["d"]
    L = np.array(LOAD[d], dtype=float)
    n = cfg.get("n", 2)
    restart()
    CUR.update(d=d, loadings=L, rho_max=cfg.get("rho_max", 1e16), h_tol=cfg.get("h_tol", 1e-8),
               max_iter=cfg.get("max_iter", 100), loss=cfg.get("loss", "laplace"))
    X = zeros(c, n, len(L))
    for a in range(n):
        for k in range(len(L)):
            X[a, k] = c.real(f"x{a}_{k}") if cfg.get("data") else np.float64(((a + 2) * (k + 3) * 5 % 11 - 5) / 4)
    sc = zeros(c, 1, d)
    for j in range(d):
        sc[0, j] = c.real(f"s{j}", lo=0) if cfg.get("data") else np.float64([1.5, 0.5, 2.0, 1.0][j])
    P = np.linalg.inv(L.T @ L) @ L.T
    CUR["f"] = [[total([np.float64(P[j, k]) * X[a, k] for k in range(len(L))]) * sc[0, j] for j in range(d)] for a in range(n)]
    CUR["lam1"] = c.real("lambda1", lo=0) if cfg.get("data") else np.float64(0.125)
    if "pt" in cfg:
        w = zeros(c, 2 * d * d)
        for i in range(d):
            for j in range(d):
                if i == j:
                    continue
                for s in (0, 1):
                    if [i, j, s] in [list(p) for p in cfg["pt"]]:
                        w[s * d * d + i * d + j] = c.real(f"w{s}_{i}{j}", lo=0)
                    elif cfg.get("fixed"):
                        w[s * d * d + i * d + j] = np.float64(((i + 2 * j + s) % 4) / 4)
        CUR["point"] = w
    return X, sc


def fit(c, cfg, m, X, sc, G):
    x, s = X.copy(), sc.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        m.fit(X, G, sc)
    c.check(all(same(u, v) for u, v in zip(flat(X) + flat(sc), flat(x) + flat(s))), "data and scales are not modified")
    a, b = CUR["asked"]
    c.check(np.shape(a) == np.shape(X) and all(same(u, v) for u, v in zip(flat(a), flat(X))) and np.array_equal(b, G),
            "the factor analysis of the data with the given structure")
    c.check(np.array_equal(np.asarray(m.measurement_matrix_, dtype=float), CUR["loadings"]), "the loadings are measurement_matrix_")
    return m.adjacency_matrix_


A2, B2 = [[0, 1, None]], [[1, 0, None]]
C2 = [[0, 1, 0.75], [1, 0, -0.5]]
PT2 = [(0, 1, 0), (0, 1, 1), (1, 0, 0), (1, 0, 1)]
OBJ = [dict(d=2, loss=ls, data=1, pt=PT2, sol=[A2]) for ls in ("laplace", "l2", "logistic", "poisson")]
OBJ += [dict(d=3, loss=ls, data=dt, pt=[(0, 1, 0), (1, 2, 1), (2, 0, 0)], fixed=1, n=2, sol=[[[2, 1, 0.5]]])
        for ls, dt in (("laplace", 1), ("l2", 1), ("poisson", 0), ("logistic", 0))]
OBJ += [dict(d=4, loss=ls, pt=[(0, 1, 0), (1, 0, 1), (3, 2, 0)], fixed=1, n=3, sol=[[[2, 1, 0.5], [3, 0, -2.0]]])
        for ls in ("laplace", "l2")]
# later rounds
OBJ += [dict(d=2, loss="laplace", data=1, pt=PT2, sol=[C2, A2]), dict(d=2, loss="l2", pt=PT2, sol=[C2, [[0, 1, 0.75], [1, 0, 0.25]], A2]),
        dict(d=2, loss="laplace", pt=PT2, sol=[C2, C2, A2]), dict(d=2, loss="l2", pt=PT2, sol=[[[0, 1, None], [1, 0, 0.5]], [[0, 1, 0.75], [1, 0, None]], A2]),
        dict(d=2, loss="laplace", pt=PT2[:2], sol=[C2, [[0, 1, 0.375], [1, 0, -0.5]], [[0, 1, 0.375], [1, 0, -0.5]], B2]),
        dict(d=2, loss="laplace", pt=PT2, sol=[C2, C2, [[0, 1, 0.25], [1, 0, -0.5]], A2]),
        dict(d=2, loss="laplace", pt=PT2[:2], rho_max=100, sol=[C2, C2, C2, B2]),
        dict(d=2, loss="l2", pt=PT2[:2], max_iter=2, sol=[C2, [[0, 1, 0.25], [1, 0, -0.5]], B2]),
        dict(d=2, loss="laplace", pt=PT2[:2], max_iter=1, sol=[C2, A2]),
        dict(d=2, loss="laplace", h_tol=0.25, pt=PT2[:2], sol=[[[0, 1, None], [1, 0, 0.75]], [[0, 1, 0.25], [1, 0, None]], B2]),
        dict(d=3, loss="laplace", pt=[(1, 2, 1), (2, 0, 0)], fixed=1, sol=[[[0, 1, 0.75], [1, 2, 0.5], [2, 0, -1.0]], [[0, 1, 0.5], [1, 2, None]]])]


@harness("C28", OBJ, env=env)
def optimisation(c, cfg):
    X, sc = start(c, cfg)
    CUR["sol"] = sols(c, cfg)
    t = 0.25
    m = lingam.LiNA(w_threshold=t, lambda1=CUR["lam1"], loss_type=cfg["loss"], max_iter=CUR["max_iter"], h_tol=CUR["h_tol"],
                    rho_max=CUR["rho_max"])
    R = fit(c, cfg, m, X, sc, np.sign(CUR["loadings"]))
    c.check(not CUR["oracle"]["more"], "the optimisation goes on until the graph is acyclic enough")
    result(c, R, CUR["oracle"]["W"], t)


@harness("C28", [dict(d=2, sol=[A2]), dict(d=2, sol=[B2]), dict(d=3, sol=[[[0, 1, None], [2, 1, None], [2, 0, None]]]),
                 dict(d=3, sol=[[[1, 2, None], [1, 0, None]]]), dict(d=4, sol=[[[3, 1, None], [0, 2, None], [0, 3, -0.25]]])], env=env)
def threshold(c, cfg):
    X, sc = start(c, cfg)
    CUR["sol"] = sols(c, cfg)
    t = c.real("threshold", lo=0)
    R = fit(c, cfg, lingam.LiNA(w_threshold=t), X, sc, np.sign(CUR["loadings"]))
    result(c, R, CUR["sol"][-1], t)


@harness("C28", [dict()], env=env)
def unknown(c, cfg):
    X, sc = start(c, dict(d=2))
    CUR["sol"] = sols(c, dict(d=2, sol=[A2]))
    CUR["point"] = zeros(c, 8)
    for m in (lingam.LiNA(loss_type="other"),):
        try:
            fit(c, cfg, m, X, sc, np.sign(CUR["loadings"]))
        except ValueError:
            continue
        c.check(False, "an unknown loss is rejected")


MD = [dict(d=2, H=[[2, 0], [0, 1], [2, 0], [0, 1]], sol=[[0, 1, None]]), dict(d=2, H=[[0, 2], [1, 0], [0, 2], [1, 0]], sol=[[0, 1, None]]),
      dict(d=2, H=[[0, 2], [1, 0], [0, -2], [-1, 0]], sol=[[1, 0, None]]),
      # the second domain decides
      dict(d=2, H=[[1, 0], [0, 1], [0, 4], [4, 0]], sol=[[1, 0, None]], obj=False),
      dict(d=3, H=[[0, 2, 0], [0, 0, 1], [4, 0, 0]] * 2, sol=[[0, 1, None], [1, 2, None]]),
      dict(d=3, H=[[0, 0, 2], [-1, 0, 0], [0, 1, 0], [0, 0, -2], [1, 0, 0], [0, 1, 0]], sol=[[2, 0, None], [1, 0, None]]),
      dict(d=3, H=[[4, 0, 0], [0, 0, 1], [0, 1, 0]] * 2, sol=[[2, 0, None], [2, 1, 0.75]]),
      # greedy: the largest weight first
      dict(d=2, H=[[3, 4], [1, 3], [3, 4], [1, 3]], sol=[[0, 1, None]], obj=False),
      dict(d=2, H=[[1, 0], [0, 1], [1, 0], [0, 1]], sol=[[0, 1, 0.75]], pt=PT2, loss="l2"),
      dict(d=2, H=[[0, 1], [2, 0], [0, 1], [2, 0]], sol=[[0, 1, 0.75]], pt=PT2, loss="laplace"),
      dict(d=2, H=[[0, 1], [2, 0], [0, 1], [2, 0]], sol=[[0, 1, 0.75]], pt=PT2, loss="laplace",
           before=[C2, C2, [[0, 1, 0.25], [1, 0, -0.5]]]),
      dict(d=2, H=[[1, 0], [0, 2], [1, 0], [0, 2]], sol=[[1, 0, -0.75]], pt=PT2, loss="l2", before=[C2, C2]),
      dict(d=2, H=[[1, 0], [0, 2], [1, 0], [0, 2]], sol=[[1, 0, -0.75]], pt=PT2[:2], loss="poisson"),
      dict(d=2, H=[[0, 1], [2, 0], [0, 1], [2, 0]], sol=[[1, 0, -0.75]], pt=PT2[:2], loss="logistic")]


@harness("C28", MD, env=env)
def domains(c, cfg):
    d = cfg["d"]
    start(c, dict(d=d, loss=cfg.get("loss", "laplace"), **({"pt": cfg["pt"]} if "pt" in cfg else {})))
    L = np.zeros((4 * d, 2 * d))
    for k in range(2 * d):
        L[2 * k, k], L[2 * k + 1, k] = (2, -2) if k % 2 else (1, 1)
    CUR["loadings"] = L
    n = 3
    X = zeros(c, n, 4 * d)
    for a in range(n):
        for k in range(4 * d):
            X[a, k] = np.float64(((a + 2) * (k + 3) * 5 % 11 - 5) / 4)
    sc = zeros(c, 2, 2 * d)
    for k in range(2 * d):
        sc[k // d, k] = np.float64([1.5, 0.5, 2.0, 1.0, 0.25, 3.0][k])
    H = np.array(cfg["H"], dtype=float)
    F = [[(X[a, 2 * k] * L[2 * k, k] + X[a, 2 * k + 1] * L[2 * k + 1, k]) / np.float64(8 if k % 2 else 2) * sc[k // d, k] for k in range(2 * d)]
         for a in range(n)]
    P = np.linalg.inv(H.T @ H) @ H.T
    CUR["f"] = [[total([np.float64(P[j, k]) * F[a][k] for k in range(2 * d)]) for j in range(d)] for a in range(n)]
    CUR["H"] = H.size
    h = np.zeros(2 * H.size)
    h[:H.size] = np.maximum(H, 0).ravel()
    h[H.size:] = np.maximum(-H, 0).ravel()
    CUR["h"] = h
    CUR["sol"] = sols(c, dict(d=d, sol=cfg.get("before", []) + [cfg["sol"]]))
    t = 0.25
    for v in flat(np.array(CUR["sol"][-1], dtype=object)):
        if isinstance(v, S):
            c.assume(v > 0.25)
    m = lingam.MDLiNA(w_threshold=t, loss_type=cfg.get("loss", "laplace"), lambda1=CUR["lam1"], no_of_latent_1domain=d)
    R = fit(c, cfg, m, X, sc, np.sign(L))
    # shared factor of every factor of a domain
    A = np.abs(H[:d]) + np.abs(H[d:])
    col = {}
    for _ in range(d):
        r, k = np.unravel_index(np.argmax(A), A.shape)
        col[r] = k
        A[r, :] = A[:, k] = -1
    W = CUR["sol"][-1]
    result(c, R, [[W[col[i]][col[j]] for j in range(d)] for i in range(d)], t)
