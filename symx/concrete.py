"""Concrete counterpart of the symbolic context: replays one assignment of the
inputs against the unmodified code with the real numpy."""
import math

import numpy as np

from .core import PathInfeasible, PathEnd


class ReplayViolation(PathEnd):
    def __init__(self, what):
        super().__init__(what)
        self.what = what


class ConcreteCtx:
    symbolic = False
    havoc = False

    def __init__(self, model, tol=1e-6):
        self.model, self.tol = model, tol
        self.reached = 0
        self.missing = []

    def real(self, name, lo=None, hi=None, nonzero=False):
        if name not in self.model:
            self.missing.append(name)
        v = float(self.model.get(name, 0.5))
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        if nonzero and v == 0:
            raise PathInfeasible()
        return v

    def fresh(self, hint="f"):
        return 0.5

    def choose(self, name, n):
        k = int(self.model.get("choice:" + name, 0))
        return min(k, n - 1)

    def index(self, name, n):
        return max(0, min(n - 1, int(round(float(self.model.get(name, 0))))))

    def assume(self, b):
        if not bool(b):
            raise PathInfeasible()

    def sign(self, x):
        return int(np.sign(x))

    def check(self, cond, what):
        self.reached += 1
        if not bool(cond):
            raise ReplayViolation(what)

    def check_close(self, a, b, what):
        self.check_eq(a, b, what)

    def check_eq(self, a, b, what):
        self.reached += 1
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            ok = math.isnan(a) and math.isnan(b)
        else:
            ok = a == b or abs(a - b) <= self.tol * max(1.0, abs(a), abs(b))
        if not ok:
            raise ReplayViolation(f"{what} ({a!r} != {b!r})")
