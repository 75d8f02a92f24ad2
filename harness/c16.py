"""C16: drawings and printed summaries show exactly the given graph."""
import contextlib
import io
import math
import re

import numpy as np

from lingam.utils import make_dot, make_dot_highlight, print_causal_directions, print_dagc
from symx.run import harness

from .lib import all_simple_paths, arr, check_unmutated, isnan, matrix, raises, snapshot, zeros, sparse

META = {
    "bounds": "3 variables with every off-diagonal (and one diagonal) coefficient symbolic, 4 variables with a fixed "
              "symbolic pattern, 6-12 variables with three symbolic coefficients; symbolic drawing threshold; unknown-direction pairs, path and cycle highlighting, "
              "prediction edges with symbolic coefficients, labels as list / array; 2-decimal labels compared as "
              "opaque tokens of the coefficient",
    "outside": "more variables, colour maps, node positions, the textual layout of the DOT source beyond nodes, edges "
               "and attributes",
}

TOK = r'(?:"(?:[^"\\]|\\.)*"|[^\s\[\]=]+)'


def unq(s):
    return s[1:-1] if s.startswith('"') else s


def parse(d):
    """(nodes {id: attrs} in order, edges [(from, to, attrs)], clusters {name: [ids]})"""
    nodes, edges, clusters = [], [], {}
    cur = None
    for line in d.source.splitlines():
        line = line.strip()
        m = re.match(r"^subgraph\s+(%s)?\s*\{$" % TOK, line)
        if m:
            cur = unq(m.group(1)) if m.group(1) else "{}"
            clusters.setdefault(cur, [])
            continue
        if line == "{":
            cur = "{}"
            clusters.setdefault(cur, [])
            continue
        if line == "}":
            cur = None
            continue
        m = re.match(r"^(%s)\s*->\s*(%s)\s*(\[.*\])?$" % (TOK, TOK), line)
        if m:
            edges.append((unq(m.group(1)), unq(m.group(2)), attrs(m.group(3))))
            continue
        if line.startswith(("digraph", "graph", "//", "rank", "style", "label", "color", "node ", "edge ")) and "->" not in line:
            continue
        m = re.match(r"^(%s)\s*(\[.*\])?$" % TOK, line)
        if m and line:
            if cur is not None:
                clusters[cur].append(unq(m.group(1)))
            if cur != "{}":
                nodes.append((unq(m.group(1)), attrs(m.group(2))))
    return nodes, edges, clusters


def attrs(t):
    if not t:
        return {}
    return {unq(k): unq(v) for k, v in re.findall(r"(%s)=(%s)" % (TOK, TOK), t[1:-1])}


def fm(v):
    return format(v, ".2f")


def reach(E, n, a):
    seen, st = {a: 0}, [a]
    while st:
        u = st.pop(0)
        for f, t in sorted(E):
            if f == u and t not in seen:
                seen[t] = seen[u] + 1
                st.append(t)
    return seen


D3 = [dict(n=3, zero=[(0, 0), (1, 1), (2, 2)], nan=[], labels=None),
      dict(n=3, zero=[(0, 0), (2, 2), (2, 0)], nan=[], labels="list"),
      dict(n=3, zero=[(0, 0), (1, 1), (2, 2)], nan=[(1, 0)], labels="array"),
      dict(n=3, zero=[(0, 0), (1, 1), (2, 2)], nan=[(2, 0), (2, 1)], labels=None),
      dict(n=4, zero=[(0, 0), (1, 1), (2, 2), (3, 3), (0, 1), (0, 2), (0, 3), (1, 2), (1, 3)], nan=[],
           labels="array")]


D12 = [dict(n=12, dens=0.12, seed=2, sym=[(10, 1), (0, 11), (2, 5)], nan=[(3, 11), (10, 7)], labels="list"),
       dict(n=12, dens=0.08, seed=3, sym=[(11, 10), (2, 11), (10, 0)], nan=[], labels=None),
       dict(n=6, dens=0.3, seed=4, sym=[(1, 0), (5, 2), (3, 4)], nan=[(4, 0)], labels="array")]
P12 = [dict(n=12, dens=0.1, seed=5, sym=[(10, 0), (11, 10), (0, 11)], nan=[], labels=None),
       dict(n=6, dens=0.25, seed=6, sym=[(1, 0), (5, 2), (2, 1)], nan=[], labels="array"),
       dict(n=7, dens=0.3, seed=7, order=[0, 3, 1, 5, 2, 4, 6], sym=[(3, 0), (6, 4), (4, 2)], nan=[], labels="list")]


def build(c, cfg):
    n = cfg["n"]
    if "dens" in cfg:
        B = sparse(c, "b", n, cfg["dens"], cfg["seed"], cfg["sym"], cfg.get("order"))
    else:
        B = matrix(c, "b", n, n, zero=[tuple(z) for z in cfg["zero"]])
    for i, j in cfg["nan"]:
        B[i, j] = math.nan
        B[j, i] = math.nan
    lab = None
    names = [f"x{i}" for i in range(n)]
    if cfg["labels"]:
        names = ["v_%s" % "abcdefghijklm"[(i * 2 + 1) % 6 if n < 4 else (7 * i + 3) % 13] for i in range(n)]
        lab = list(names) if cfg["labels"] == "list" else np.array(names)
    return B, lab, names


def above(v, m):
    return not isnan(v) and bool(abs(v) > m)


@harness("C16", D3 + D12)
def dot(c, cfg):
    n = cfg["n"]
    B, lab, names = build(c, cfg)
    m = c.real("limit", lo=0)
    snap = snapshot(B)
    d = make_dot(B, labels=lab, lower_limit=m)
    check_unmutated(c, B, snap, "the matrix is not modified")
    nodes, edges, cl = parse(d)
    c.check([x for x, _ in nodes] == names, f"nodes are {[x for x, _ in nodes]}, expected {names}")
    got = sorted((f, t, a.get("label")) for f, t, a in edges if a.get("dir") != "both")
    exp = sorted((names[j], names[i], fm(B[i, j])) for i in range(n) for j in range(n) if above(B[i, j], m))
    c.check(got == exp, f"edges drawn {got}, expected {exp}")
    both = sorted(tuple(sorted((f, t))) for f, t, a in edges if a.get("dir") == "both")
    eb = sorted(tuple(sorted((names[i], names[j]))) for i, j in cfg["nan"])
    c.check(both == eb, f"double-headed edges {both}, expected {eb}")


@harness("C16", {"quick": [D3[0], D3[3]] + D12, "thorough": D3 + D12})
def dot_default_limit(c, cfg):
    n = cfg["n"]
    B, lab, names = build(c, cfg)
    d = make_dot(B, labels=lab)
    _, edges, _ = parse(d)
    got = sorted((f, t, a.get("label")) for f, t, a in edges if a.get("dir") != "both")
    exp = sorted((names[j], names[i], fm(B[i, j])) for i in range(n) for j in range(n) if above(B[i, j], 0.01))
    c.check(got == exp, f"edges with the default threshold {got}, expected {exp}")


@harness("C16", {"quick": [D3[0], D3[4]] + P12, "thorough": D3 + P12})
def dot_path_cycle(c, cfg):
    n = cfg["n"]
    B, lab, names = build(c, cfg)
    m = c.real("limit", lo=0)
    s, e = [(0, n - 1), (n - 1, 0)][c.choose("ends", 2)]
    d = make_dot(B, labels=lab, lower_limit=m, path=(s, e), path_color="blue", detect_cycle=True)
    E = {(j, i) for i in range(n) for j in range(n) if above(B[i, j], m)}
    sp = all_simple_paths(lambda i, j: (j, i) in E, n, s, e)
    onpath = {(u, v) for p in sp for u, v in zip(p, p[1:])}
    pn = {x for p in onpath for x in p}
    oncycle = {(u, v) for u, v in E if u in reach(E, n, v)}
    nodes, edges, _ = parse(d)
    byname = {x: i for i, x in enumerate(names)}
    for f, t, a in edges:
        k = (byname[f], byname[t])
        c.check((a.get("color") == "blue") == (k in onpath), f"edge {k} highlighted, paths {sp}")
        c.check((a.get("penwidth") == "2") == (k in onpath), f"edge {k} thick, paths {sp}")
        c.check((a.get("style") == "dashed") == (k in oncycle), f"edge {k} dashed, edges {sorted(E)}")
        c.check(a.get("label") == fm(B[k[1], k[0]]), "edge label")
    c.check(len(edges) == len(E), "every edge drawn once")
    for x, a in nodes:
        i = byname[x]
        c.check((a.get("color") == "blue") == (i in pn), f"node {i} highlighted, paths {sp}")
        c.check((a.get("peripheries") == "2") == (i in (s, e)), f"node {i} marked as path end")


@harness("C16", [dict(k="coef"), dict(k="imp"), dict(k="none")])
def dot_prediction(c, cfg):
    n = 3
    B = matrix(c, "b", n, n, zero=[(i, j) for i in range(n) for j in range(n) if i <= j])
    m = c.real("limit", lo=0)
    idx = [[2, 0], [0, 1], [1, 2]][c.choose("features", 3)]
    co = [c.real("p0"), c.real("p1")]
    kw = {"coef": dict(prediction_coefs=co), "imp": dict(prediction_feature_importance=[3, 5]), "none": {}}[cfg["k"]]
    d = make_dot(B, lower_limit=m, prediction_feature_indices=idx, prediction_target_label="T", **kw)
    nodes, edges, _ = parse(d)
    c.check([x for x, _ in nodes] == ["x0", "x1", "x2", "T"], "nodes")
    got = sorted((f, t, a.get("label")) for f, t, a in edges)
    exp = [(f"x{j}", f"x{i}", fm(B[i, j])) for i in range(n) for j in range(n) if above(B[i, j], m)]
    for i, f in enumerate(idx):
        if cfg["k"] == "coef":
            if above(co[i], m):
                exp.append((f"x{f}", "T", fm(co[i])))
        elif cfg["k"] == "imp":
            exp.append((f"x{f}", "T", f"({[3, 5][i]})"))
        else:
            exp.append((f"x{f}", "T", None))
    key = lambda t: tuple(str(x) for x in t)  # noqa: E731
    c.check(sorted(got, key=key) == sorted(exp, key=key), f"edges {got}, expected {exp}")
    for a, b in ((dict(prediction_coefs=[1.0]), "coefs"), (dict(prediction_feature_importance=[1]), "importance")):
        _, ex = raises(lambda: make_dot(B, prediction_feature_indices=idx, **a))
        c.check(isinstance(ex, ValueError), f"mismatched number of prediction {b} is rejected")


@harness("C16", [dict()])
def dot_rejects(c, cfg):
    B = matrix(c, "b", 2, 3)
    _, e = raises(lambda: make_dot(B))
    c.check(isinstance(e, ValueError), "a non-square matrix is rejected")
    B = matrix(c, "d", 2, 2, zero=[(0, 0), (1, 1)])
    for k in (1, 3):
        _, e = raises(lambda: make_dot(B, labels=["a", "b", "c"][:k]))
        c.check(isinstance(e, ValueError), "a wrong number of labels is rejected")


H = [dict(n=3, zero=[(0, 0), (1, 1), (2, 2)], others=True, maxd=None),
     dict(n=3, zero=[(0, 0), (1, 1), (2, 2)], others=False, maxd=1),
     dict(n=4, zero=[(0, 0), (1, 1), (2, 2), (3, 3), (0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)], others=True,
          maxd=1),
     dict(n=6, dens=0.2, seed=8, order=[3, 5, 0, 2, 1, 4], sym=[(5, 3), (0, 5)], others=True, maxd=None, node=0, ends=(3, 4)),
     dict(n=7, dens=0.2, seed=9, order=[3, 5, 0, 6, 2, 1, 4], sym=[(5, 3), (4, 1)], others=True, maxd=2, node=6, ends=(5, 4)),
     dict(n=11, dens=0.08, seed=10, order=[10, 3, 5, 0, 6, 9, 2, 7, 1, 8, 4], sym=[(3, 10), (4, 1)], others=False, maxd=3,
          node=0, ends=(10, 4))]


@harness("C16", H)
def highlight(c, cfg):
    """One copy of a node per level (target, k-th descendant, k-th ancestor, others); every edge above the limit."""
    n = cfg["n"]
    big = "dens" in cfg
    B = (sparse(c, "b", n, cfg["dens"], cfg["seed"], cfg["sym"], cfg.get("order")) if big else
         matrix(c, "b", n, n, zero=cfg["zero"]))
    m = c.real("limit", lo=0.001)
    node = cfg["node"] if big else c.choose("node", n)
    snap = snapshot(B)
    if big:
        s, e = cfg["ends"]
    elif n == 3:
        s, e = [(0, 2), (2, 1)][c.choose("ends", 2)]
    else:
        s, e = 0, 3
    names = ["%s_" % "pqrsabcdefghijk"[i] for i in range(n)]
    d = make_dot_highlight(B, node, labels=names, lower_limit=m,
                           max_dsc=cfg["maxd"], max_anc=cfg["maxd"], draw_others=cfg["others"], path=(s, e),
                           path_color="blue", detect_cycle=True)
    check_unmutated(c, B, snap, "the matrix is not modified")
    E = {(j, i) for i in range(n) for j in range(n) if i != j and not isnan(B[i, j]) and not bool(abs(B[i, j]) < m)}
    E = {(j, i) for j, i in E if bool(abs(B[i, j]) > 1e-8)}
    dsc = {k: v for k, v in reach(E, n, node).items() if k != node and v <= (cfg["maxd"] or n)}
    anc = {k: v for k, v in reach({(t, f) for f, t in E}, n, node).items() if k != node and v <= (cfg["maxd"] or n)}
    iso = {k for k in range(n) if not any(k in p for p in E)}
    place = {k: set() for k in range(n)}
    place[node].add("cluster0")
    for k, v in dsc.items():
        place[k].add(f"cluster{v}")
    for k, v in anc.items():
        place[k].add(f"cluster-{v}")
    oth = {k for k in range(n) if k in iso or (k != node and k not in dsc and k not in anc)}
    if cfg["others"]:
        for k in oth:
            place[k].add("clusterNone")
    nodes, edges, cl = parse(d)
    lab = {i: a.get("label") for i, a in nodes}
    for k in range(n):
        got = {q for q, ids in cl.items() for i in ids if lab.get(i) == names[k]}
        c.check(got == place[k], f"x{k} is drawn in {sorted(got)}, expected {sorted(place[k])} for edges {sorted(E)}")
    idname = {i: a.get("label") for i, a in nodes}
    got = {}
    for f, t, a in edges:
        k = (idname[f], idname[t])
        got.setdefault(k, []).append(a)
    for f, t in E:
        want = 0 if (not cfg["others"] and (f in oth or t in oth)) else len(place[f]) * len(place[t])
        g = got.pop((names[f], names[t]), [])
        c.check(len(g) == want, f"edge {f}->{t} drawn {len(g)} times, expected {want}")
        sp = all_simple_paths(lambda i, j: (j, i) in E, n, s, e)
        onpath = {(u, v) for p in sp for u, v in zip(p, p[1:])}
        for a in g:
            c.check(a.get("label") == fm(B[t, f]), "edge label")
            c.check((a.get("color") == "blue") == ((f, t) in onpath), "edge on the path is highlighted")
            c.check((a.get("style") == "dashed") == (f in reach(E, n, t)), "edge on a cycle is dashed")
    c.check(not got, f"edges that are not in the graph: {sorted(got)}")
    pn = {x for p in all_simple_paths(lambda i, j: (j, i) in E, n, s, e) for x in p}
    for i, a in nodes:
        if a.get("label") in names:
            k = names.index(a["label"])
            c.check((a.get("fontcolor") == "blue") == (k in pn), f"node {k} on the path {sorted(pn)} is highlighted")


@harness("C16", [dict(sign=False), dict(sign=True)])
def printed(c, cfg):
    """Printed percentages belong to the printed direction / graph."""
    n = 4
    cnt = [c.choose("c0", 3) + 1, c.choose("c1", 2) + 1]
    sg = [[1, -1][c.choose("s0", 2)], [1, -1][c.choose("s1", 2)]]
    fr = [c.choose("f0", 3), c.choose("f1", 3)]
    to = [(fr[0] + 1) % 3, (fr[1] + 2) % 3]
    lab = [None, ["A", "B", "C"], np.array(["A", "B", "C"])][c.choose("labels", 3)]
    nm = ["x0", "x1", "x2"] if lab is None else list(lab)
    cdc = {"from": fr, "to": to, "count": cnt}
    if cfg["sign"]:
        cdc["sign"] = sg
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        print_causal_directions(cdc, n, labels=lab)
    sgn = [" (b>0)" if s > 0 else " (b<0)" for s in sg] if cfg["sign"] else ["", ""]
    lines = [re.sub(r"\s+", " ", x).strip() for x in out.getvalue().splitlines()]
    exp = [f"{nm[t]} <--- {nm[f]}{s} ({100 * k / n:.1f}%)" for f, t, k, s in zip(fr, to, cnt, sgn)]
    c.check(lines == exp, f"printed {lines}, expected {exp}")
    dag = {"from": fr, "to": to}
    if cfg["sign"]:
        dag["sign"] = sg
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        print_dagc({"dag": [dag, {k: v[:1] for k, v in dag.items()}], "count": cnt}, n, labels=lab)
    lines = [re.sub(r"\s+", " ", x).strip() for x in out.getvalue().splitlines()]
    e2 = [f"{nm[t]} <--- {nm[f]}{s}" for f, t, s in zip(fr, to, sgn)]
    exp = [f"DAG[0]: {100 * cnt[0] / n:.1f}%"] + e2 + [f"DAG[1]: {100 * cnt[1] / n:.1f}%"] + e2[:1]
    c.check(lines == exp, f"printed {lines}, expected {exp}")
