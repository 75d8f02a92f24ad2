"""Path exploration, replay of counterexamples, evidence and exit codes."""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

import numpy as np

from . import arr, core, stubs
from .concrete import ConcreteCtx, ReplayViolation
from .core import PathCut, PathEnd, PathInfeasible, PathLimit, SymCtx, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESSES = {}


class Harness:
    def __init__(self, fn, prop, configs, havoc, div0, env, tol, opts, retry):
        self.fn, self.prop, self.configs = fn, prop, configs
        self.havoc, self.div0, self.env, self.tol, self.opts = havoc, div0, env, tol, opts
        self.retry = retry
        self.name = fn.__name__


def harness(prop, configs, havoc=False, div0="cut", env=None, tol=1e-6, retry=None, **opts):
    """configs: {'quick': [..], 'thorough': [..]} or a list (both tiers).
    env(c, cfg) -> {external object: replacement}, used in both modes."""
    def deco(fn):
        HARNESSES.setdefault(prop, []).append(
            Harness(fn, prop, configs, havoc, div0, env, tol, opts, retry))
        return fn
    return deco


def _cfgs(h, tier):
    c = h.configs
    if isinstance(c, dict):
        c = c.get(tier) or c["quick"]
    return list(c)


# ------------------------------------------------------------------ patching
def lingam_modules():
    return [m for n, m in list(sys.modules.items())
            if m is not None and (n == "lingam" or n.startswith("lingam."))]


@contextlib.contextmanager
def patched(mapping):
    """Replace, by identity, external objects in the globals of every lingam
    module (numpy, scikit-learn estimators, ...)."""
    byid = {id(k): v for k, v in mapping}
    undo = []
    for m in lingam_modules():
        d = m.__dict__
        for name, val in list(d.items()):
            if name.startswith("__"):
                continue
            r = byid.get(id(val))
            if r is not None:
                undo.append((d, name, val))
                d[name] = r
    try:
        yield
    finally:
        for d, name, val in undo:
            d[name] = val


class _Quiet:
    def __enter__(self):
        self.cm = warnings.catch_warnings()
        self.cm.__enter__()
        warnings.simplefilter("ignore")
        self.out, self.err = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout = self.out
        self.cm.__exit__(*a)


def run_symbolic(h, cfg, prefix):
    """Run one path. Returns (ctx, outcome, detail)."""
    o = dict(h.opts)
    c = SymCtx(prefix, havoc=h.havoc, div0=h.div0, timeout_ms=o.get("timeout_ms", 3000),
               max_decisions=o.get("max_decisions", 3000),
               assert_timeout_ms=o.get("assert_timeout_ms", 15000))
    core._CTX[0] = c
    np.random.seed(20)
    mapping = stubs.base_mapping(c)
    if h.env is not None:
        mapping = [(k, v) for k, v in h.env(c, cfg)] + mapping
    try:
        with _Quiet(), patched(_dedup(mapping)), np.errstate(all="ignore"):
            h.fn(c, cfg)
        return c, "done", None
    except Violation as v:
        return c, "violation", (v.what, v.model)
    except PathInfeasible:
        return c, "infeasible", None
    except PathCut as e:
        return c, "cut", str(e)
    except PathLimit as e:
        return c, "limit", str(e)
    except RecursionError as e:
        return c, "exception", (f"RecursionError: {e}", traceback.format_exc())
    except Exception as e:  # noqa: BLE001 - a crash of the code or of the engine
        return c, "exception", (f"{type(e).__name__}: {e}", traceback.format_exc())
    finally:
        core._CTX[0] = None


def _dedup(mapping):
    seen, out = set(), []
    for k, v in mapping:
        if id(k) not in seen:
            seen.add(id(k))
            out.append((k, v))
    return out


def run_concrete(h, cfg, model):
    """Replay an assignment on the real code. Returns (outcome, detail)."""
    c = ConcreteCtx(model, tol=h.tol)
    core._CTX[0] = None
    np.random.seed(20)
    mapping = []
    if h.env is not None:
        mapping = [(k, v) for k, v in h.env(c, cfg)]
    try:
        with _Quiet(), patched(_dedup(mapping)), np.errstate(all="ignore"):
            h.fn(c, cfg)
        return "done", c
    except ReplayViolation as v:
        return "violation", v.what
    except PathEnd as e:
        return "infeasible", str(e)
    except Exception as e:  # noqa: BLE001
        return "exception", f"{type(e).__name__}: {e}"


def perturbed(model, k=6):
    """Variants of a counterexample in general position: the solver prefers zeros and equal values, which can hide
    the difference on the real code."""
    rng = np.random.RandomState(11)
    out = []
    for r in range(2 * k):
        m = {}
        for key, v in model.items():
            if isinstance(v, float) and not key.startswith("choice:") and (r % 2 or v == 0.0):
                m[key] = float(np.round(rng.choice([-1.0, 1.0]) * rng.uniform(0.3, 2.0), 3))
            else:
                m[key] = v
        out.append(m)
    return out


def replay_any(h, cfg, model, what, is_exc):
    """Try to reproduce a counterexample. Returns a description or None."""
    tries = [model]
    if h.retry is not None:
        tries = tries + list(h.retry(cfg, model))
    tries += perturbed(model)
    for m in tries:
        out, det = run_concrete(h, cfg, m)
        if out == "violation" or out == "exception":
            return f"{out}: {det}", m
    return None


# ------------------------------------------------------------------- worker
_G = {}


def _worker(task):
    hi, ci, prefixes, budget_s, max_paths, nsample = task
    h, cfg = _G["jobs"][hi][0], _G["jobs"][hi][1][ci]
    t_end = time.time() + budget_s
    st = core.Stats()
    res = {"hi": hi, "ci": ci, "paths": 0, "infeasible": 0, "cut": 0, "limit": 0, "exc_unrep": 0,
           "decisions": 0, "reached": 0, "validated": 0, "mismatch": [], "notes": [], "samples": [],
           "violations": [], "unrep": [], "left": [], "functions": []}
    stack = [list(p) for p in prefixes]
    n = 0
    while stack and n < max_paths and time.time() < t_end:
        prefix = stack.pop()
        n += 1
        c, out, det = run_symbolic(h, cfg, prefix)
        stack.extend(c.siblings)
        st.add(c.stats.dict())
        res["decisions"] += len(c.trace)
        res["reached"] += c.reached
        res["notes"] += c.notes[:3]
        if out == "infeasible":
            res["infeasible"] += 1
            continue
        res["paths"] += 1
        if out == "done":
            if res["validated"] + len(res["mismatch"]) < nsample:
                try:
                    m = c.sample_model()
                except PathEnd:
                    m = None
                if m is not None:
                    o2, d2 = run_concrete(h, cfg, m)
                    if o2 == "done":
                        res["validated"] += 1
                        if len(res["samples"]) < 2:
                            res["samples"].append({"harness": h.name, "config": cfg, "inputs": m,
                                                   "decisions": len(c.trace)})
                    elif o2 in ("violation", "exception"):
                        res["mismatch"].append((h.name, repr(cfg), m, f"{o2}: {d2}"))
                st.queries += 1
        elif out == "cut":
            res["cut"] += 1
            res["notes"].append("cut: " + str(det))
        elif out == "limit":
            res["limit"] += 1
            res["notes"].append("limit: " + str(det))
        elif out == "violation":
            what, model = det
            rep = replay_any(h, cfg, model, what, False)
            if rep is not None:
                res["violations"].append((h.name, cfg, what, rep[1], rep[0]))
                break
            res["unrep"].append((h.name, repr(cfg), what, model))
            if len(res["unrep"]) > 6:
                break
        elif out == "exception":
            what, tb = det
            core._CTX[0] = c
            try:
                model = c.path_model()
            except (Exception, PathEnd):
                model = None
            finally:
                core._CTX[0] = None
            rep = replay_any(h, cfg, model or {}, what, True)
            if rep is not None:
                res["violations"].append((h.name, cfg, "the call fails: " + what, rep[1], rep[0]))
                break
            res["exc_unrep"] += 1
            res["notes"].append("engine: " + what + " | " + tb.strip().splitlines()[-3].strip()[:160])
    res["left"] = stack
    res["stats"] = st.dict()
    return res


def traced_functions(h, cfg):
    """Names of the lingam functions executed on one symbolic path."""
    seen = set()

    def prof(frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if "/lingam/" in f:
                seen.add(f.split("/lingam/", 1)[1] + ":" + frame.f_code.co_qualname)
    sys.setprofile(prof)
    try:
        run_symbolic(h, cfg, [])
    finally:
        sys.setprofile(None)
    return seen


# --------------------------------------------------------------------- main
def _load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("known", [])


def known_match(known, prop, hname, cfg, what):
    for k in known:
        if k["property"] == prop and k["harness"] == hname and k["match"] in what and (
                k.get("config") in (None, repr(cfg))):
            return k
    return None


def run_check(prop, tier, only=None, seed=1, procs=None, verbose=False, meta=None):
    t0 = time.time()
    hs = HARNESSES.get(prop, [])
    if only:
        hs = [h for h in hs if only in h.name]
    jobs = [(h, _cfgs(h, tier)) for h in hs]
    _G["jobs"] = jobs
    known = _load_known()
    budget = float(os.environ.get("VERIF_BUDGET_S", "420" if tier == "quick" else "3000"))
    funcs = set()
    for h, cfgs in jobs:
        for cfg in cfgs[:1]:
            funcs |= traced_functions(h, cfg)
    queue = []
    for hi, (h, cfgs) in enumerate(jobs):
        for ci, cfg in enumerate(cfgs):
            queue.append((hi, ci, [[]], 2.0, 4, 2))
    agg = core.Stats()
    tot = {k: 0 for k in ("paths", "infeasible", "cut", "limit", "exc_unrep", "decisions", "reached",
                          "validated")}
    per = {}
    notes, samples, violations, unrep, mismatch = {}, [], [], [], []
    truncated = False
    procs = procs or min(8, os.cpu_count() or 4)
    stop_cfg = set()
    knownhits = {}
    with mp.get_context("fork").Pool(procs, maxtasksperchild=400) as pool:
        pending = []
        for t in queue:
            pending.append(pool.apply_async(_worker, (t,)))
        while pending:
            done, rest = [], []
            for p in pending:
                (done if p.ready() else rest).append(p)
            if not done:
                if time.time() - t0 > budget:
                    truncated = True
                    pool.terminate()
                    break
                time.sleep(0.005)
                continue
            pending = rest
            for p in done:
                r = p.get()
                agg.add(r["stats"])
                for k in tot:
                    tot[k] += r[k]
                key = (r["hi"], r["ci"])
                d = per.setdefault(key, {"paths": 0, "asserts": 0})
                d["paths"] += r["paths"]
                d["asserts"] += r["reached"]
                for nt in r["notes"]:
                    notes[nt] = notes.get(nt, 0) + 1
                if len(samples) < 12:
                    samples += r["samples"]
                mismatch += r["mismatch"]
                unrep += r["unrep"]
                for v in r["violations"]:
                    k = known_match(known, prop, v[0], v[1], v[2])
                    if k is not None:
                        knownhits[k["id"]] = k
                        stop_cfg.add(key)
                    else:
                        violations.append(v)
                if sum(1 for u in unrep if u[0] == jobs[r["hi"]][0].name) > 12:
                    stop_cfg.add(key)
                left = [] if key in stop_cfg else r["left"]
                if left:
                    if time.time() - t0 > budget:
                        truncated = True
                    else:
                        # shallow prefixes are the biggest subtrees: spread them
                        k = max(1, min(len(left), procs))
                        for i in range(k):
                            chunk = left[i::k]
                            if chunk:
                                pending.append(pool.apply_async(
                                    _worker, ((r["hi"], r["ci"], chunk, 1.5, 400, 1),)))
            if violations:
                pool.terminate()
                break
    wall = time.time() - t0
    vac = [jobs[hi][0].name + repr(jobs[hi][1][ci]) for hi, (h, cfgs) in enumerate(jobs)
           for ci in range(len(cfgs)) if per.get((hi, ci), {}).get("asserts", 0) == 0
           and (hi, ci) not in stop_cfg]
    meta = meta or {}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["decisions"],
            "traces_validated_against_impl": tot["validated"],
            "samples": samples[:6],
            "exhaustive": not truncated and tot["limit"] == 0 and tot["exc_unrep"] == 0 and agg.concretised == 0
            and agg.unknown == 0 and not unrep,
            "explanation": "Every feasible path of the encoded functions within the bounds is executed "
                           "symbolically (states = complete paths, transitions = branch decisions); the negated "
                           "assertion is discharged by normalisation or Z3 on each path.",
            "functions_encoded": sorted(funcs),
            "harness_configurations": {f"{jobs[k[0]][0].name}{jobs[k[0]][1][k[1]]!r}": v for k, v in
                                       sorted(per.items())},
            "bounds": meta.get("bounds", ""),
            "outside_bounds": meta.get("outside", ""),
            "solver": "z3 " + core.z3.get_version_string(),
            "solver_queries": agg.queries, "solver_sat": agg.sat, "solver_unsat": agg.unsat,
            "solver_unknown": agg.unknown, "solver_time_s": round(agg.solver_s, 2),
            "assertions_evaluated": agg.asserts, "assertions_discharged_by_normalisation": agg.norm_asserts,
            "forks": agg.forks, "infeasible_prefixes": tot["infeasible"],
            "paths_cut_outside_claim": tot["cut"], "paths_over_limit": tot["limit"],
            "paths_engine_unsupported": tot["exc_unrep"], "values_concretised": agg.concretised,
            "truncated_by_time": truncated,
            "unreproduced_counterexamples": len(unrep),
            "validation_mismatches": [m[:2] + (m[3],) for m in mismatch[:5]],
            "notes": dict(sorted(notes.items(), key=lambda kv: -kv[1])[:20]),
            "assertion_never_reached": vac,
        },
        "assumptions": ["floating point is modelled by exact real arithmetic; replays use float64 with a tolerance"]
        + list(meta.get("assumptions", [])),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"[{prop}] paths={tot['paths']} decisions={tot['decisions']} queries={agg.queries} "
          f"unknown={agg.unknown} solver={agg.solver_s:.1f}s wall={wall:.1f}s cut={tot['cut']} "
          f"limit={tot['limit']} engine={tot['exc_unrep']} concretised={agg.concretised} "
          f"validated={tot['validated']} mismatch={len(mismatch)} unrep={len(unrep)}"
          + (" TRUNCATED" if truncated else ""))
    if verbose:
        for k, v in sorted(per.items()):
            print("   ", jobs[k[0]][0].name, jobs[k[0]][1][k[1]], v)
        for nt, k in list(ev["coverage"]["notes"].items())[:12]:
            print("    note", k, nt)
        for m in mismatch[:5]:
            print("    mismatch", m)
        for u in unrep[:5]:
            print("    unreproduced", u)
    for k in knownhits.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violations:
        v = violations[0]
        path = write_replay(prop, v)
        print(f"{v[0]} {v[1]!r}: {v[2]}")
        print(f"  replayed on the real code: {v[4]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for u in unrep[:3]:
        # the stand-ins over-approximate: what does not happen on the real code is not a violation
        print(f"UNCONFIRMED (recorded in the evidence, not a violation): {u}")
    if vac:
        print(f"INCOMPLETE: assertion never reached in {vac}")
        if len(vac) == sum(len(cf) for _, cf in jobs):
            return 3
    return 0


def write_replay(prop, v):
    hname, cfg, what, model, rep = v
    body = {"property": prop, "harness": hname, "config": cfg, "what": what, "inputs": model,
            "observed": rep,
            "how": f"python3 /verif/check.py {prop} --replay <this file>"}
    txt = json.dumps(body, indent=1, default=str)
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{hashlib.sha1(txt.encode()).hexdigest()[:10]}.json")
    with open(p, "w") as f:
        f.write(txt)
    return p


def replay_file(prop, path):
    with open(path) as f:
        b = json.load(f)
    for h in HARNESSES.get(prop, []):
        if h.name == b["harness"]:
            for tier in ("quick", "thorough"):
                for cfg in _cfgs(h, tier):
                    if json.loads(json.dumps(cfg, default=str)) == b["config"]:
                        out, det = run_concrete(h, cfg, b["inputs"])
                        print(out, det if out != "done" else "")
                        return 1 if out in ("violation", "exception") else 0
    print("no such harness configuration")
    return 2
