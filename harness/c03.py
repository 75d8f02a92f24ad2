"""C03: the prior-knowledge matrix says exactly what the user declared."""
import numpy as np

from lingam.utils import make_prior_knowledge
from symx.arr import SymArray, make_facade
from symx.run import harness

from .lib import ball, band, bany, bnot, bor

META = {
    "bounds": "3 to 12 variables; up to four path, four no-path, four exogenous and three sink statements whose variable "
              "indices are all symbolic (one query per matrix entry covers every combination); declarations given as "
              "list, tuple or numpy array, or omitted",
    "outside": "more variables, more statements of one kind at once, indices out of range",
    "assumptions": ["writes through a symbolic index are merged as if-then-else terms"],
}


def env(c, cfg):
    if not c.symbolic:
        return []
    fac = make_facade()

    def full(shape, fill_value, dtype=None, **kw):
        r = np.empty(shape, dtype=object)
        r.fill(np.float64(fill_value))
        return r.view(SymArray)
    fac._over["full"] = full
    fac._over["zeros"] = lambda shape, *a, **k: full(shape, 0.0)
    fac._over["ones"] = lambda shape, *a, **k: full(shape, 1.0)
    fac._over["empty"] = lambda shape, *a, **k: full(shape, 0.0)
    return [(np, fac), (np.full, full)]


Q = [dict(n=3, p=2, q=2, e=1, s=1, kind="list"), dict(n=4, p=2, q=2, e=2, s=2, kind="list"),
     dict(n=3, p=3, q=1, e=2, s=1, kind="tuple"), dict(n=5, p=1, q=1, e=1, s=1, kind="list"),
     dict(n=3, p=0, q=1, e=0, s=0, kind="list"), dict(n=3, p=1, q=0, e=0, s=0, kind="list"),
     dict(n=3, p=0, q=0, e=1, s=0, kind="list"), dict(n=3, p=0, q=0, e=0, s=1, kind="list"),
     dict(n=3, p=0, q=0, e=0, s=0, kind="list"), dict(n=12, p=2, q=2, e=1, s=1, kind="list"),
     dict(n=6, p=4, q=1, e=1, s=1, kind="list"), dict(n=5, p=1, q=4, e=1, s=0, kind="tuple"),
     dict(n=5, p=1, q=1, e=4, s=3, kind="list")]
QA = [dict(n=3, p=1, q=1, e=1, s=1, kind="array"), dict(n=3, p=0, q=0, e=2, s=1, kind="array"),
      dict(n=3, p=1, q=1, e=0, s=0, kind="array"), dict(n=3, p=0, q=0, e=0, s=0, kind="array")]
T = [dict(n=5, p=3, q=3, e=2, s=2, kind="list"), dict(n=6, p=2, q=2, e=2, s=2, kind="tuple")]
TA = [dict(n=4, p=1, q=1, e=1, s=1, kind="array")]


def declare(c, cfg, array=False):
    n = cfg["n"]

    def idx(name):
        return c.choose(name, n) if array else c.index(name, n)
    P = [(idx(f"pf{k}"), idx(f"pt{k}")) for k in range(cfg["p"])]
    N = [(idx(f"nf{k}"), idx(f"nt{k}")) for k in range(cfg["q"])]
    E = [idx(f"e{k}") for k in range(cfg["e"])]
    K = [idx(f"s{k}") for k in range(cfg["s"])]
    for f, t in P + N:
        c.assume(f != t)
    return P, N, E, K


def run(c, cfg, array):
    n = cfg["n"]
    P, N, E, K = declare(c, cfg, array)

    def form(x):
        if array:
            return np.array(x)
        if not x:
            return None
        return tuple(x) if cfg["kind"] == "tuple" else list(x)
    args = dict(paths=form(P), no_paths=form(N), exogenous_variables=form(E), sink_variables=form(K))
    M = make_prior_knowledge(n, **args)
    c.check(tuple(M.shape) == (n, n), "the matrix is square")
    for i in range(n):
        for j in range(n):
            v = M[j, i]
            if i == j:
                c.check(v == -1, f"diagonal entry {i} is not -1")
                continue
            blocked = bany([e == j for e in E] + [s == i for s in K])
            path = bany([band(f == i, t == j) for f, t in P])
            nopath = bany([band(f == i, t == j) for f, t in N])
            a = bor(bnot(blocked), v == 0)
            b = bor(bor(blocked, bnot(path)), v == 1)
            d = bor(bor(blocked, bor(path, bnot(nopath))), v == 0)
            e = bor(bor(blocked, bor(path, nopath)), v == -1)
            c.check(a, f"x{i} -> x{j} must be forbidden: x{i} is a sink or x{j} is exogenous")
            c.check(b, f"x{i} -> x{j} must be required")
            c.check(d, f"x{i} -> x{j} must be forbidden: declared as no path")
            c.check(e, f"x{i} -> x{j} must be unknown: nothing is declared about it")
    if not array:
        for k, orig in (("paths", P), ("no_paths", N), ("exogenous_variables", E), ("sink_variables", K)):
            c.check(args[k] is None or len(args[k]) == len(orig), "declarations are not modified")


@harness("C03", {"quick": Q, "thorough": Q + T}, env=env)
def declared(c, cfg):
    run(c, cfg, False)


@harness("C03", {"quick": QA, "thorough": QA + TA})
def declared_array(c, cfg):
    run(c, cfg, True)
