"""C29: the global phase of LiM."""
import contextlib
import io
import math
import types

import numpy as np
import scipy.optimize
import scipy.special

import lingam
from symx.run import harness

from .fakes import module_env
from .lagr import CUR, expit, flat, lift, logaddexp, minimize, restart, result, sols, total
from .lib import same, zeros

META = {
    "bounds": "2-4 variables (continuous and binary ones in every mixture for 2-3), 2-3 samples, losses mixed, laplace, "
              "logistic and poisson; all data (poisson: fixed counts), the penalty and the point at which the objective is evaluated symbolic "
              "for 2-3 variables; up to 4 rounds of the augmented Lagrangian with symbolic or fixed solutions",
    "outside": "the optimiser itself; loss_type='mixed_dag'; more variables",
    "assumptions": ["the optimiser returns an arbitrary point that satisfies the bounds it was given", "exp, log, cosh and "
                    "tanh are uninterpreted in the symbolic run"],
}


def env(c, cfg):
    CUR.clear()
    CUR["c"] = c
    out = module_env(scipy.optimize, minimize=minimize)
    if c.symbolic:
        from symx import arr as symarr
        base = symarr.make_facade()

        def random(*s):
            return np.linspace(0.1, 0.9, int(np.prod(s)))
        rnd = types.SimpleNamespace(random=random, rand=random, random_sample=random, seed=lambda *a: None)
        out += module_env(scipy.special, expit=expit) + [(np, symarr.Facade(np, dict(base._over, logaddexp=logaddexp, random=rnd)))]
    return out


def pieces(f, M, R):
    """The negative log-likelihood per sample (up to constants) and its derivatives by the predictions."""
    n, d = len(f), len(f[0])
    N, one = np.float64(n), np.float64(1)
    val, T = [], [[None] * d for _ in range(n)]
    for a in range(n):
        for j in range(d):
            kind = CUR["loss"] if CUR["loss"] != "mixed" else "logistic" if j in CUR["binary"] else "laplace"
            x, m, r = f[a][j], M[a][j], R[a][j]
            if kind == "laplace":
                val.append(lift("log", lift("cosh", r)))
                T[a][j] = -lift("tanh", r) / N
            elif kind == "logistic":
                val.append(lift("log", one + lift("exp", m)) - x * m)
                T[a][j] = (1 / (1 + one / lift("exp", m)) - x) / N
            else:
                val.append(lift("exp", m) - x * m + np.float64(math.lgamma(float(x) + 1)))
                T[a][j] = (lift("exp", m) - x) / N
    return total(val) / N, T


def start(c, cfg):
    d, n = cfg["d"], cfg.get("n", 2)
    restart()
    CUR.update(d=d, rho_max=cfg.get("rho_max", 1e16), h_tol=cfg.get("h_tol", 1e-8), max_iter=cfg.get("max_iter", 150),
               loss=cfg.get("loss", "mixed"), pieces=pieces, lim=True, binary=list(cfg.get("binary", [])))
    X = zeros(c, n, d)
    for a in range(n):
        for k in range(d):
            if CUR["loss"] == "poisson":
                X[a, k] = np.float64((2 * a + 3 * k + a * k) % 5)
            elif k in CUR["binary"] and not cfg.get("data"):
                X[a, k] = np.float64((a + k) % 2)
            else:
                X[a, k] = c.real(f"x{a}_{k}") if cfg.get("data") else np.float64(((a + 2) * (k + 3) * 5 % 11 - 5) / 4)
    CUR["f"] = [[X[a, j] for j in range(d)] for a in range(n)]
    CUR["lam1"] = c.real("lambda1", lo=0) if cfg.get("data") else np.float64(0.125)
    w = zeros(c, 2 * d * d)
    for i in range(d):
        for j in range(d):
            for s in (0, 1):
                if i != j and [i, j, s] in [list(p) for p in cfg["pt"]]:
                    w[s * d * d + i * d + j] = c.real(f"w{s}_{i}{j}", lo=0)
                elif i != j and cfg.get("fixed"):
                    w[s * d * d + i * d + j] = np.float64(((i + 2 * j + s) % 4) / 4)
    CUR["point"] = w
    return X


A2, B2 = [[0, 1, None]], [[1, 0, None]]
C2 = [[0, 1, 0.75], [1, 0, -0.5]]
PT2 = [(0, 1, 0), (0, 1, 1), (1, 0, 0), (1, 0, 1)]
PT3 = [(0, 1, 0), (1, 2, 1), (2, 0, 0)]
G = [dict(d=2, loss=ls, data=1, pt=PT2, sol=[A2]) for ls in ("laplace", "logistic", "poisson")]
G += [dict(d=2, binary=b, data=1, pt=PT2, sol=[A2]) for b in ([], [0], [1], [0, 1])]
G += [dict(d=3, loss=ls, pt=PT3, fixed=1, sol=[[[2, 1, 0.5]]]) for ls in ("laplace", "logistic", "poisson")]
G += [dict(d=3, binary=b, pt=PT3, fixed=1, data=dt, n=2, sol=[[[2, 1, 0.5], [0, 1, -0.75]]])
      for b, dt in (([0], 1), ([1], 0), ([2], 1), ([0, 1], 0), ([0, 2], 1), ([1, 2], 0), ([], 0), ([0, 1, 2], 0))]
G += [dict(d=4, binary=b, pt=[(0, 1, 0), (1, 0, 1), (3, 2, 0)], fixed=1, n=3, sol=[[[2, 1, 0.5], [3, 0, -2.0]]]) for b in ([1], [0, 3])]
G += [dict(d=2, binary=[1], data=1, pt=PT2, sol=[C2, A2]), dict(d=2, binary=[0], pt=PT2, sol=[C2, [[0, 1, 0.75], [1, 0, 0.25]], A2]),
      dict(d=2, binary=[0], pt=PT2, sol=[C2, C2, [[0, 1, 0.25], [1, 0, -0.5]], A2]),
      dict(d=2, binary=[1], pt=PT2, sol=[[[0, 1, None], [1, 0, 0.5]], [[0, 1, 0.75], [1, 0, None]], A2]),
      dict(d=2, loss="laplace", pt=PT2[:2], rho_max=100, sol=[C2, C2, C2, B2]),
      dict(d=2, binary=[0], pt=PT2[:2], max_iter=2, sol=[C2, [[0, 1, 0.25], [1, 0, -0.5]], B2]),
      dict(d=2, binary=[1], pt=PT2[:2], max_iter=1, sol=[C2, A2]),
      dict(d=2, loss="laplace", h_tol=0.25, pt=PT2[:2], sol=[[[0, 1, None], [1, 0, 0.75]], [[0, 1, 0.25], [1, 0, None]], B2]),
      dict(d=3, binary=[2], pt=[(1, 2, 1), (2, 0, 0)], fixed=1, sol=[[[0, 1, 0.75], [1, 2, 0.5], [2, 0, -1.0]], [[0, 1, 0.5], [1, 2, None]]])]


@harness("C29", G, env=env)
def optimisation(c, cfg):
    d = cfg["d"]
    X = start(c, cfg)
    CUR["sol"] = sols(c, cfg)
    t = 0.25
    dis = np.ones((1, d))
    dis[0, CUR["binary"]] = 0
    m = lingam.LiM(w_threshold=t, lambda1=CUR["lam1"], loss_type=CUR["loss"], max_iter=CUR["max_iter"], h_tol=CUR["h_tol"],
                   rho_max=CUR["rho_max"])
    x = X.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        m.fit(X, dis, only_global=True)
    c.check(all(same(u, v) for u, v in zip(flat(X), flat(x))), "the data are not modified")
    c.check(not CUR["oracle"]["more"], "the optimisation goes on until the graph is acyclic enough")
    result(c, m.adjacency_matrix_, CUR["oracle"]["W"], t)


@harness("C29", [dict()], env=env)
def unknown(c, cfg):
    X = start(c, dict(d=2, pt=[]))
    CUR["sol"] = sols(c, dict(d=2, sol=[A2]))
    CUR["pieces"] = lambda *a: (np.float64(0), [[np.float64(0)] * 2] * 2)
    try:
        lingam.LiM(loss_type="other").fit(X, np.ones((1, 2)), only_global=True)
    except ValueError:
        return
    c.check(False, "an unknown loss is rejected")
