"""Contract language.  A scenario is one function  f(S, **grid)  that builds inputs, calls the code under contract and
states its postconditions.  It is interpreted twice:

* symbolically (dv.symrun, python3-vt): inputs are unconstrained symbolic values of symbolic length, the real source is
  executed by the verifier and every S.eq / S.check / S.raises is a proof obligation for all inputs;
* concretely (dv.concrun, /opt/venv, the installed infomeasure): inputs are drawn at random, the same statements are
  evaluated with floats.  This is the labelled-bounded layer; it cross-checks the trusted numpy/scipy contracts and
  produces failing inputs for obligations that are not discharged.
"""
from __future__ import annotations
import itertools

REG: list = []


class Scenario:
    def __init__(self, prop, name, f, grid, sym, conc, budget, tol):
        self.prop, self.name, self.f, self.grid, self.sym, self.conc, self.budget, self.tol = prop, name, f, grid, sym, conc, budget, tol

    def instances(self):
        keys = list(self.grid)
        out = []
        for combo in itertools.product(*[self.grid[k] for k in keys]):
            kw = dict(zip(keys, combo))
            tag = ",".join(f"{k}={v}" for k, v in kw.items())
            out.append((f"{self.name}[{tag}]" if tag else self.name, kw))
        return out

    def is_sym(self, kw):
        return self.sym(**kw) if callable(self.sym) else bool(self.sym)


def scenario(prop, name=None, grid=None, sym=True, conc=40, budget=240, tol=1e-9):
    """sym: prove it (bool or predicate on the grid point); conc: number of random cases per grid point (0: none)"""
    def deco(f):
        for p in ([prop] if isinstance(prop, str) else prop):
            REG.append(Scenario(p, name or f.__name__, f, grid or {}, sym, conc, budget, tol))
        return f
    return deco


class Skip(Exception):
    """precondition not met by the drawn input"""


class Violated(Exception):
    def __init__(self, name, detail):
        Exception.__init__(self, f"{name}: {detail}")
        self.name, self.detail = name, detail
