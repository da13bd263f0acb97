"""Concrete interpretation of scenarios: the installed infomeasure, random inputs, float oracle (bounded layer)."""
from __future__ import annotations
import json
import math
import os
import sys
import time
import zlib
import io
import logging
import warnings
from fractions import Fraction
import numpy as np
from .dsl import Skip, Violated


class Draw:
    """source of inputs: random, or the recorded values of a replay"""

    def __init__(self, seed, size=0, recorded=None):
        self.r = np.random.default_rng(seed)
        self.size = size
        self.rec = {} if recorded is None else recorded
        self.replay = recorded is not None

    def get(self, name, gen):
        if self.replay and name in self.rec:
            return dec(self.rec[name])
        v = gen()
        self.rec[name] = enc(v)
        return v


def enc(v):
    if isinstance(v, np.ndarray):
        return {"nd": v.tolist(), "dtype": str(v.dtype), "shape": list(v.shape)}
    if isinstance(v, np.generic):
        return v.item()
    return v


def dec(v):
    if isinstance(v, dict) and "nd" in v:
        return np.array(v["nd"], dtype=v["dtype"]).reshape(v["shape"])
    return v


class Conc:
    mode = "conc"
    sym = False
    conc = True
    variants = True
    huge = None

    def __init__(self, draw, kw, tol=1e-9):
        import infomeasure
        self.im = infomeasure
        self.np = np
        self.d = draw
        self.kw = kw
        self.tol = tol
        self.checks = 0
        self.undo = []

    def mod(self, name):
        import importlib
        return importlib.import_module("infomeasure." + name if not name.startswith("infomeasure") else name)

    def fresh(self):
        """a newly loaded package, as in a new interpreter"""
        import contextlib
        import importlib

        def drop():
            return {k: sys.modules.pop(k) for k in list(sys.modules) if k == "infomeasure" or k.startswith("infomeasure.")}

        @contextlib.contextmanager
        def cm():
            old, im = drop(), self.im
            lv = logging.root.manager.disable
            try:
                self.im = importlib.import_module("infomeasure")
                yield
            finally:
                drop()
                sys.modules.update(old)
                self.im = im
                logging.disable(lv)
        return cm()

    def stub(self, *a): pass
    def stub_method(self, *a): pass
    def len(self, a): return len(a)

    # ------------------------------------------------------------ inputs
    def int(self, name, lo=None, hi=None, typ=None):
        a, b = typ or (lo if lo is not None else -20, hi)
        if lo is not None:
            a = max(a, int(lo))
        if b is None:
            b = a + 40
        if hi is not None:
            b = min(b, int(hi))
        if b < a:
            raise Skip()

        def gen():
            u = self.d.r.random()
            if u < 0.15:
                return int(a)
            if u < 0.25:
                return int(min(b, a + 1))
            if u < 0.32:
                return int(b)
            return int(self.d.r.integers(a, b + 1))
        return int(self.d.get(name, gen))

    def real(self, name, lo=None, hi=None, typ=None, strict=True):
        a, b = typ or (lo if lo is not None else -5, hi if hi is not None else (5 if lo is None else float(lo) + 5))
        return float(self.d.get(name, lambda: float(a + (b - a) * (0.02 + 0.96 * self.d.r.random()))))

    def _labels(self, shape, card=None):
        r = self.d.r
        u = r.random()
        n = int(np.prod(shape)) if shape else 1
        if card is not None:
            k = int(card)
            x = r.integers(0, k, shape)
        elif u < 0.08:
            x = np.full(shape, r.integers(-3, 9))
        elif u < 0.16:
            x = r.permutation(n).reshape(shape)
        elif u < 0.30:
            x = (r.random(shape) < r.choice([0.05, 0.2, 0.5])).astype(int)
        elif u < 0.42:
            x = np.minimum(r.geometric(0.35, shape), 12)
        elif u < 0.50:
            x = (np.arange(n) % int(r.integers(1, 6))).reshape(shape)
        elif u < 0.58:
            x = r.integers(0, 3, shape) * int(r.choice([1000, 10 ** 6, 7]))
        elif u < 0.66:
            x = np.sort(r.integers(0, 5, n)).reshape(shape)
        else:
            x = r.integers(0, int(r.choice([2, 3, 4, 6, max(2, n // 2)])), shape)
        if r.random() < 0.3:
            x = x - int(r.integers(0, 6))
        if self.huge is None:
            self.huge = r.random() < 0.04
        if card is None and self.variants:
            # (labels beyond 2**53 only together with labels of the same type: numpy's own promotion of mixed types is lossy there)
            if self.huge:
                return x.astype(np.int64) + 2 ** 60
            if r.random() < 0.12:
                t = np.dtype(["int8", "uint8", "int16", "int32", "uint32", "uint64", "float64", "float32"][int(r.integers(8))])
                if t.kind == "f" or x.size and np.iinfo(t).min <= x.min() and x.max() <= np.iinfo(t).max:
                    return x.astype(t)
        return x.astype(np.int64)

    def labels(self, name, n, card=None, lo=None):
        x = self.d.get(name, lambda: self._labels((int(n),), card) if lo is None else np.abs(self._labels((int(n),), card)) + lo)
        return np.array(x)

    def counts_array(self, name, n, lo=None, hi=None):
        a = -3 if lo is None else lo
        b = hi if hi is not None else a + [1, 3, 10][int(self.d.r.integers(3))]

        def gen():
            c = self.d.r.integers(a, b + 1, size=int(n))
            u = self.d.r.random()
            if self.variants and a >= 0 and u < 0.5:
                # counts of a narrow integer type, whose total can leave it
                t = np.dtype(["uint8", "int8", "uint16", "int32"][int(self.d.r.integers(4))])
                if hi is None and u < 0.25:
                    c = self.d.r.integers(a, min(np.iinfo(t).max, 250) + 1, size=int(n))
                c = c.astype(t)
            return c
        return np.array(self.d.get(name, gen))

    def label_rows(self, name, n, d, card=None):
        return np.array(self.d.get(name, lambda: self._labels((int(n), int(d)), card)))

    def _series(self, shape, ties=False, kind=None):
        r = self.d.r
        u = r.random()
        n = int(np.prod(shape))
        if ties and u < 0.3:
            return r.integers(0, max(2, n // 3), shape).astype(float)
        if ties and u < 0.35:
            return np.full(shape, 1.5)
        if ties and u < 0.45:
            return np.round(r.normal(size=shape), 1)
        if u < 0.5:
            return r.normal(size=shape)
        if u < 0.65:
            return r.random(shape) * 3 - 1
        if u < 0.75:
            return r.exponential(size=shape)
        if u < 0.85:
            return np.cumsum(r.normal(size=shape), axis=0)
        if u < 0.92:
            return r.normal(size=shape) * 1e3 + 50
        return np.sort(r.normal(size=shape), axis=0)

    def series(self, name, n, ties=False, **k):
        return np.array(self.d.get(name, lambda: self._series((int(n),), ties)))

    def points(self, name, n, d, ties=False, **k):
        return np.array(self.d.get(name, lambda: self._series((int(n), int(d)), ties)))

    def base(self, name="base", e=True, inline=False):
        opts = [2, 10, 3, 2.5, 1.5, math.e, 16]
        if e:
            opts = ["e", "e", "e"] + opts
        return self.d.get(name, lambda: opts[int(self.d.r.integers(0, len(opts)))])

    def choice(self, name, opts):
        i = self.d.get(name, lambda: int(self.d.r.integers(0, len(opts))))
        return opts[int(i)]

    def rng(self, seed): return np.random.default_rng(seed)

    # ------------------------------------------------------------ terms
    def num(self, x): return x
    def frac(self, a, b=1): return a / b

    def div(self, a, b):
        try:
            return float(a) / float(b)
        except ZeroDivisionError:
            return math.nan if a == 0 else math.copysign(math.inf, a)

    def at(self, a, *idx):
        x = a
        if isinstance(a, np.ndarray):
            x = a[tuple(int(i) for i in idx)] if idx else a[()]
        else:
            for i in idx:
                x = x[int(i)]
        return x.item() if isinstance(x, np.generic) else x

    def sum(self, n, f): return math.fsum(float(f(i)) for i in range(int(n))) if True else 0

    def prod(self, n, f):
        r = 1.0
        for i in range(int(n)):
            r *= float(f(i))
        return r

    def count(self, n, f): return sum(1 for i in range(int(n)) if f(i))
    def all(self, n, f): return all(f(i) for i in range(int(n)))
    def nuniq(self, n, f): return len({tuple(k) if isinstance(k := f(i), (list, tuple)) else k for i in range(int(n))})
    def ind(self, c): return 1 if c else 0
    def ite(self, c, a, b): return a if c else b
    def eqv(self, a, b): return a == b
    def and_(self, *cs): return all(bool(c) for c in cs)
    def or_(self, *cs): return any(bool(c) for c in cs)
    def not_(self, c): return not c
    def log(self, x): return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
    def logb(self, x, base): return self.log(x) if isinstance(base, str) else self.log(x) / math.log(base)
    def unit(self, base): return 1.0 if isinstance(base, str) else math.log(base)
    def exp(self, x): return math.exp(x)
    def sqrt(self, x): return math.sqrt(x)
    def pow(self, x, y): return float(x) ** float(y)
    def abs(self, x): return abs(x)

    def digamma(self, x):
        from scipy.special import digamma
        return float(digamma(x))

    pi = math.pi

    def kde(self, n, c, q, h):
        X = np.array([c(i) for i in range(n)], dtype=float).reshape(n, -1)
        cov = np.atleast_2d(np.cov(X.T)) * h * h
        D = X - np.array(q, dtype=float)
        return float(np.exp(-0.5 * np.einsum("ik,kl,il->i", D, np.linalg.inv(cov), D)).sum() / n / math.sqrt(np.linalg.det(2 * math.pi * cov)))

    def spectrum(self, lo): pass
    def gamma(self, x): return math.gamma(x)
    def gammaln(self, x): return math.lgamma(x)
    def max(self, *xs): return max(xs)
    def min(self, *xs): return min(xs)
    def floor(self, x): return math.floor(x)
    def idiv(self, a, b): return a // b
    def modulo(self, a, b): return a % b
    def copy(self, a): return np.array(a, copy=True) if isinstance(a, np.ndarray) else a
    def arr(self, n, f, kind="f"): return np.array([f(i) for i in range(int(n))], dtype={"f": float, "i": int, "b": bool}[kind])
    def arr2(self, n, d, f, kind="f"): return np.array([[f(i, j) for j in range(int(d))] for i in range(int(n))], dtype={"f": float, "i": int}[kind]).reshape(int(n), int(d))

    def norm(self, diffs, p):
        ds = [abs(float(d)) for d in diffs]
        if p == math.inf:
            return max(ds)
        return sum(d ** p for d in ds) ** (1 / p) if p != 2 else math.sqrt(sum(d * d for d in ds))

    def kth_smallest(self, n, f, k):
        return sorted(f(i) for i in range(int(n)))[int(k)]

    # ------------------------------------------------------------ logic
    def assume(self, c):
        if not c:
            raise Skip()

    def value(self, x): return float(x)

    def drawn(self, name, n, actual, original, replace):
        self.checks += 1
        pos = {}
        for i in range(int(n)):
            pos.setdefault(original(i), []).append(i)
        if any(len(v) > 1 for v in pos.values()):
            raise Skip()
        w = []
        for k in range(int(n)):
            if actual(k) not in pos:
                self._fail(f"{name}: each entry is the original entry at the drawn position", f"entry {k} = {actual(k)!r} does not occur in the original")
            w.append(pos[actual(k)][0])
        if not replace and sorted(w) != list(range(int(n))):
            self._fail(f"{name}: a permutation of all original observations", f"positions {w}")
        if n >= 12 and w == list(range(int(n))):
            self._fail(f"{name}: " + ("drawn from the original observations with replacement" if replace else "a permutation of all original observations"), "nothing was resampled")
        return lambda i: w[int(i)]

    def lemma(self, name, fact):
        pass

    def truth(self, c): return bool(c)

    def index(self, name, n):
        return int(self.d.get("ix_" + name, lambda: int(self.d.r.integers(0, max(1, int(n))))))

    def _fail(self, name, detail):
        raise Violated(name, detail)

    def _close(self, a, b, tol):
        tol = tol or self.tol
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))

    def eq(self, name, actual, expected, tol=None):
        self.checks += 1
        if isinstance(actual, (np.ndarray, list, tuple)) and np.ndim(actual) > 0 or isinstance(expected, (np.ndarray, list, tuple)) and np.ndim(expected) > 0:
            return self.same(name, actual, expected, tol)
        if actual is None or expected is None or isinstance(actual, str) or isinstance(expected, str):
            if actual != expected:
                self._fail(name, f"{actual!r} != {expected!r}")
            return True
        try:
            ok = self._close(actual, expected, tol)
        except (TypeError, ValueError) as e:
            self._fail(name, f"not comparable: {actual!r} vs {expected!r}")
        if not ok:
            self._fail(name, f"got {float(actual)!r}, expected {float(expected)!r}")
        return True

    def check(self, name, c, detail=""):
        self.checks += 1
        if not bool(c):
            self._fail(name, detail or "condition is false")
        return True

    def same(self, name, a, b, tol=None):
        self.checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self._fail(name, f"shape {a.shape} != {b.shape}")
        if a.dtype.kind in "iub" and b.dtype.kind in "iub":
            ok = bool((a == b).all())
        else:
            ok = all(self._close(x, y, tol) for x, y in zip(a.astype(float).ravel(), b.astype(float).ravel()))
        if not ok:
            self._fail(name, f"arrays differ: {np.array2string(a, threshold=40)} vs {np.array2string(b, threshold=40)}")
        return True

    def shape(self, name, a, *dims):
        self.checks += 1
        if tuple(np.shape(a)) != tuple(int(d) for d in dims):
            self._fail(name, f"shape {np.shape(a)} expected {dims}")
        return True

    def raises(self, name, exc, thunk):
        self.checks += 1
        try:
            r = thunk()
        except exc:
            return True
        except Exception as e:
            self._fail(name, f"raised {type(e).__name__}: {e}")
        self._fail(name, f"returned {r!r} instead of raising")

    def unchanged(self, name, arr, before):
        self.checks += 1
        same = arr.dtype == before.dtype and arr.shape == before.shape and (arr == before).all() if isinstance(arr, np.ndarray) else arr == before
        if not same:
            self._fail(name, f"input modified: {before!r} -> {arr!r}")
        return True

    def is_nan(self, name, x):
        self.checks += 1
        if not math.isnan(float(x)):
            self._fail(name, f"expected nan, got {x!r}")

    def note(self, s): pass


def seed_of(prop, inst, seed, k):
    return [zlib.crc32(f"{prop}/{inst}".encode()), int(seed), k]


def run_case(sc, inst, kw, seed, k, recorded=None):
    """-> None | 'skip' | dict(violation)"""
    import infomeasure
    d = Draw(seed_of(sc.prop, inst, seed, k), recorded=recorded)
    S = Conc(d, kw, sc.tol)
    infomeasure.utils.config.Config.reset()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                sc.f(S, **kw)
    except Skip:
        return "skip", S.checks
    except Violated as e:
        return dict(obligation=e.name, detail=e.detail[:2000], inputs=d.rec), S.checks
    except Exception as e:
        import traceback
        return dict(obligation="no unexpected exception", detail=f"{type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}"[:2500], inputs=d.rec), S.checks
    finally:
        infomeasure.utils.config.Config.reset()
    if S.checks == 0:
        return "skip", 0
    return None, S.checks


def quiet():
    logging.disable(logging.CRITICAL)
