#!/usr/bin/env python3
"""selftest.py [PROPERTY...]: replays every variant a counterexample would be replayed with, on the current tree.
On a tree where the properties hold nothing may be reported (guards the checks against false alarms)."""
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("SYMX_BOOT") != "1":
    os.execve(PY, [PY] + sys.argv, dict(os.environ, SYMX_BOOT="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                                        OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONWARNINGS="ignore"))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ["/repo", ROOT]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import importlib  # noqa: E402
import multiprocessing  # noqa: E402
import pkgutil  # noqa: E402
import random  # noqa: E402


def job(a):
    prop, name, cfg = a
    from symx import run
    h = [x for x in run.HARNESSES[prop] if x.name == name][0]
    rnd = random.Random(1)
    stack, models, bad, n = [[]], [], [], 0
    while stack and len(models) < 6 and n < 40:
        n += 1
        c, out, det = run.run_symbolic(h, cfg, stack.pop(rnd.randrange(len(stack))))
        stack.extend(c.siblings)
        if out == "done":
            try:
                models.append(c.sample_model())
            except Exception:  # noqa: BLE001
                pass
    k = 0
    seen = {}
    for m in [x for x in models if x is not None] + [{}]:
        tries = [m] + (list(h.retry(cfg, m)) if h.retry else []) + run.perturbed(m)
        for t in tries:
            k += 1
            out, det = run.run_concrete(h, cfg, t)
            seen[out] = seen.get(out, 0) + 1
            if out in ("violation", "exception"):
                bad.append((out, str(det)[:300], {q: t[q] for q in list(t)[:12]}))
                if len(bad) > 3:
                    return a, k, bad, seen
    return a, k, bad, seen


def main():
    import lingam
    for m in pkgutil.walk_packages(lingam.__path__, "lingam."):
        importlib.import_module(m.name)
    from symx import run
    props = sys.argv[1:] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "harness"))
                                   if f.startswith("c") and f[1:3].isdigit())
    jobs = []
    for p in props:
        importlib.import_module("harness." + p.lower())
    for h in [x for p in props for x in run.HARNESSES[p]]:
        if True:
            jobs += [(h.prop, h.name, cfg) for cfg in run._cfgs(h, "quick")]
    rc = 0
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for a, k, bad, seen in pool.imap_unordered(job, jobs):
            if bad:
                rc = 1
                print("BAD", a, k)
                for b in bad:
                    print("   ", b)
            elif "-v" in os.environ.get("ST", "") or not seen.get("done"):
                print("ok", a, k, seen)
    print("selftest", props, "jobs", len(jobs), "rc", rc)
    return rc


if __name__ == "__main__":
    sys.exit(main())
