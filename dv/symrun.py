"""Symbolic interpretation of scenarios (python3-vt)."""
from __future__ import annotations
import sys
import time
import traceback
import signal
from . import terms as TM
from .terms import *
from .engine import ENG, Unsupported, PathEnd, prove_eq
from .prover import PRV, STATS
from .sym import *
from . import sym as SY
from . import loops as LP
from . import loader as LD
from .loader import Loader
from .shim_sp import make_shims, SRng, special
from .shim_np import exp_terms


def _columns(data):
    """columns (as index families) of the single observation argument of an entropy estimator"""
    from .shim_sp import expand_blocks
    if len(data) != 1:
        raise Unsupported("cross-entropy contract")
    d = data[0]
    arrs = [asarr(a) for a in d] if isinstance(d, tuple) else [asarr(d)]
    cols, n = [], None
    for a in arrs:
        if not a.axes[0].simple:
            raise Unsupported("filtered observations")
        n = a.axes[0].hi
        for w, f in expand_blocks([(b.w, b.fn) for b in blocks_of(a)]):
            if w is not ONE:
                raise Unsupported("observations of symbolic width")
            v = fresh("i", "I", n)
            cols.append(mk_fam(v, n, f(v, ZERO)))
    return cols, n


def _hterm(what, approach, key, i=None):
    ps, cols, n = key
    name, args = what + ":" + approach, []
    for k in sorted(ps):
        v = ps[k]
        if v is None or isinstance(v, (str, bool)):
            name += f",{k}={v}"
        else:
            name += f",{k}"
            args.append(t_of(v))
    cols = sorted(set(cols), key=lambda t: t.id)
    return rawapp(name, *([] if i is None else [i]), *args, n, *cols, sort="R")


def _pickn(xs, k):
    v = numval(t_of(k))
    return xs[int(v)] if v is not None else SNum(pick([t_of(x) for x in xs], t_of(k)), "f", False)


class Sym:
    mode = "sym"
    sym = True
    conc = False

    def __init__(self, loader, kw):
        self.lemmas_used = set()
        self.L = loader
        self.kw = kw
        self.im = loader.load("infomeasure")
        self.np = loader.shims["numpy"]
        self.names = {}

    # ------------------------------------------------------------ modules / contracts
    def mod(self, name):
        return self.L.load("infomeasure." + name if not name.startswith("infomeasure") else name)

    def fresh(self):
        """a newly loaded package, as in a new interpreter"""
        import contextlib

        @contextlib.contextmanager
        def cm():
            old = self.L, self.im, self.np
            self.L = Loader(make_shims())
            self.im = self.L.load("infomeasure")
            self.np = self.L.shims["numpy"]
            try:
                yield
            finally:
                self.L, self.im, self.np = old
        return cm()

    def stub(self, original, contract):
        self.L.stub(original, contract)

    def len(self, a):
        return wrap(asarr(a).axes[0].hi, "i", False)

    def stub_method(self, cls, name, contract):
        setattr(cls, name, contract)

    # ------------------------------------------------------------ opaque entropy estimators (callee contracts)
    def entropy_contract(self, approach, module, cls, locals_):
        """Replace the entropy estimator class by its contract: a function of the observations' columns and of the bound
        constructor parameters only (what it computes is another property's business)."""
        import inspect
        import io
        m = self.mod("estimators.entropy." + module)
        real = getattr(m, cls)
        sig = inspect.signature(real.__init__)
        P = inspect.Parameter
        self._hdef = getattr(self, "_hdef", {})
        self._hdef[approach] = {k: p.default for k, p in sig.parameters.items() if p.default is not P.empty}

        def init(obj, *data, **kw):
            b = sig.bind(obj, *data, **kw)
            b.apply_defaults()
            ps, cols, n = {}, None, None
            for k, v in b.arguments.items():
                kind = sig.parameters[k].kind
                if k == "self":
                    continue
                if kind is inspect.Parameter.VAR_POSITIONAL:
                    cols, n = _columns(v)
                elif kind is inspect.Parameter.VAR_KEYWORD:
                    ps.update(v)
                else:
                    ps[k] = v
            obj._key = ({**self._hdef[approach], **ps}, cols, n)
            obj.base = ps.get("base")

        def gv(obj):
            return SNum(_hterm("Hglobal", approach, obj._key), "f", False)

        def lv(obj):
            if not locals_:
                raise io.UnsupportedOperation("no local values")
            key = obj._key
            return Arr(lambda i: _hterm("Hlocal", approach, key, i), (Axis(key[2]),), "f")
        fake = type(real)(cls, (real,), {"__init__": init, "global_val": gv, "result": gv, "local_vals": lv, "__module__": real.__module__})
        self.L.stub(real, fake)

    def entropy_of(self, approach, n, key, params, i=None):
        """the value of the contract on the columns given by key"""
        v = fresh("i", "I", t_of(n))
        cols = [mk_fam(v, t_of(n), t_of(x)) for x in key(SNum(v, "i", True))]
        return SNum(_hterm("Hglobal" if i is None else "Hlocal", approach, ({**self._hdef[approach], **params}, cols, t_of(n)), None if i is None else t_of(i)), "f", False)

    # ------------------------------------------------------------ ordinal patterns as an opaque callee (contract proved by P14 windows)
    def pattern_contract(self):
        """replaces symbolize_series by its contract: window i of a series -> its pattern (dim columns) or code; the preconditions are obligations"""
        def term(lam, dim, step, stable, i, j):
            return rawapp("ordpattern", lam, dim, step, num(1 if stable else 0), i, j, sort="I")

        def symbolize_series(series, embedding_dim, step_size=1, to_int=False, stable=False):
            a = asarr(series)
            n, d, st = a.axes[0].hi, t_of(embedding_dim), t_of(step_size)
            ENG.oblige("symbolize_series: one-dimensional series", a.ndim == 1)
            m = sub(n, mul(sub(d, ONE), st))
            for nm, c in (("dimension >= 1", ge(d, ONE)), ("step >= 1", ge(st, ONE)), ("window fits", ge(m, ONE))):
                ENG.oblige("symbolize_series precondition: " + nm, PRV.decide(c) is True, "z3", str(c))
            v = fresh("i", "I", n)
            lam = mk_lam(v, n, a.reader()(v))
            if to_int:
                return Arr(lambda i: term(lam, d, st, stable, i, num(-1)), (Axis(m),), "i")
            return Arr(lambda i, j: term(lam, d, st, stable, i, j), (Axis(m), Axis(d)), "i")
        self.L.stub(self.mod("estimators.utils.ordinal").symbolize_series, symbolize_series)

        def key(x, dim, step, stable=False, to_int=False):
            a = asarr(x)
            n = a.axes[0].hi
            v = fresh("i", "I", n)
            lam = mk_lam(v, n, a.reader()(v))
            js = [num(-1)] if to_int else [num(j) for j in range(dim)]
            return lambda i: tuple(SNum(term(lam, num(dim), t_of(step), stable, t_of(i), j), "i", False) for j in js)
        return key

    # ------------------------------------------------------------ inputs
    def _var(self, name, sort):
        v = var(name, sort)
        RANGE.pop(v, None)
        return v

    def int(self, name, lo=None, hi=None, typ=None):
        v = self._var(name, "I")
        if lo is not None:
            ENG.assume(ge(v, t_of(lo)))
        if hi is not None:
            ENG.assume(le(v, t_of(hi)))
        return SNum(v, "i", False)

    def real(self, name, lo=None, hi=None, typ=None, strict=True):
        v = self._var(name, "R")
        c = gt if strict else ge
        if lo is not None:
            ENG.assume(c(v, t_of(lo)))
        if hi is not None:
            ENG.assume(c(t_of(hi), v))
        return SNum(v, "f", False)

    def labels(self, name, n, **k):
        return Arr(lambda i: rawapp(name, i, sort="I"), (Axis(t_of(n)),), "i")

    def counts_array(self, name, n, lo=None, hi=None):
        """integers, all >= lo (any lo) or all equal to lo = hi"""
        if lo is None:
            return self.labels(name, n)
        if hi is not None:
            assert lo == hi
            return Arr(lambda i: num(lo), (Axis(t_of(n)),), "i")
        return Arr(lambda i: add(num(lo), fn("abs", rawapp(name, i, sort="I"))), (Axis(t_of(n)),), "i")

    def label_rows(self, name, n, d, **k):
        return Arr(lambda i, j: rawapp(name, i, j, sort="I"), (Axis(t_of(n)), Axis(t_of(d))), "i")

    def series(self, name, n, **k):
        return Arr(lambda i: rawapp(name, i, sort="R"), (Axis(t_of(n)),), "f")

    def points(self, name, n, d, **k):
        return Arr(lambda i, j: rawapp(name, i, j, sort="R"), (Axis(t_of(n)), Axis(t_of(d))), "f")

    def base(self, name="base", e=True, inline=False):
        """a logarithm base: 'e' or an arbitrary positive number other than 1.
        Unless inline, Estimator._log_base is replaced by its contract (scenario P03 log_base proves the contract)"""
        if not inline:
            cls = self.L.load("infomeasure.estimators.base").Estimator
            if hasattr(cls, "_log_base"):
                np, S = self.np, self

                def contract(est, x):
                    return np.log(x) if isinstance(est.base, str) else np.log(x) / S.log(est.base)
                cls._log_base = contract
        if e and ENG.decide(eq(self._var(name + "_is_e", "I"), ONE)):
            return "e"
        b = self._var(name, "R")
        ENG.assume(gt(b, ONE))
        return SNum(b, "f", False)

    def choice(self, name, opts):
        v = self._var(name, "I")
        for i, o in enumerate(opts[:-1]):
            if ENG.decide(eq(v, num(i))):
                return o
        return opts[-1]

    def rng(self, seed):
        return SRng(seed)

    # ------------------------------------------------------------ terms
    def num(self, x):
        return x if isinstance(x, (SNum, SBool)) else SNum(t_of(x), "i" if isinstance(x, int) else "f", False)

    def frac(self, a, b=1):
        return SNum(div_terms(t_of(a), t_of(b)), "f", False)

    def div(self, a, b):
        return SNum(div_terms(t_of(a), t_of(b)), "f", False)

    def at(self, a, *idx):
        if isinstance(a, (SNum, SBool)) and not idx:
            return a
        if isinstance(a, Arr):
            ts = []
            for q, i in enumerate(idx):
                ts.append(i if isinstance(i, PIdx) else t_of(i))
            return wrap(a.at(*ts), a.kind, True)
        x = a
        for i in idx:
            x = x[i]
        return x

    def _over(self, n, f):
        v = fresh("i", "I", t_of(n))
        return v, f(SNum(v, "i", False))

    def sum(self, n, f):
        v, b = self._over(n, f)
        return SNum(mk_sum(v, t_of(n), t_of(b)), "f", False)

    def prod(self, n, f):
        v, b = self._over(n, f)
        return SNum(mk_prod(v, t_of(n), t_of(b)), "f", False)

    def count(self, n, f):
        v, b = self._over(n, f)
        return SNum(mk_sum(v, t_of(n), ind(b_of(b))), "i", False)

    def all(self, n, f):
        v, b = self._over(n, f)
        return sbool(mk_forall(v, t_of(n), b_of(b)))

    def nuniq(self, n, f):
        """number of distinct keys f(i)"""
        v = fresh("i", "I", t_of(n))
        ks = f(SNum(v, "i", False))
        ks = ks if isinstance(ks, (tuple, list)) else [ks]
        P = register_part(SY.Part(v, t_of(n), [t_of(k) for k in ks])) if False else None
        return SNum(nuniq(mk_part(v, t_of(n), [t_of(k) for k in ks])), "i", False)

    def ind(self, c):
        return SNum(ind(b_of(c)), "i", False)

    def ite(self, c, a, b):
        c = b_of(c)
        return SNum(ite(c, t_of(a), t_of(b)), "f", False)

    def eqv(self, a, b):
        return sbool(eq(t_of(a), t_of(b)))

    def and_(self, *cs): return sbool(and_(*[b_of(c) for c in cs]))
    def or_(self, *cs): return sbool(or_(*[b_of(c) for c in cs]))
    def not_(self, c): return sbool(not_(b_of(c)))

    def log(self, x): return SNum(log_terms(t_of(x)), "f", False)

    def logb(self, x, base):
        return self.log(x) if isinstance(base, str) else self.log(x) / self.log(base)

    def unit(self, base):
        """divide natural-log quantities by this"""
        return SNum(ONE, "f", False) if isinstance(base, str) else self.log(base)

    def exp(self, x): return SNum(exp_terms(t_of(x)), "f", False)
    def sqrt(self, x): return SNum(sqrt_terms(t_of(x)), "f", False)
    def pow(self, x, y): return SNum(power(t_of(x), t_of(y)), "f", False)
    def abs(self, x): return SNum(fn("abs", t_of(x)), "f", False)
    def digamma(self, x): return self._sp("digamma", x)
    @property
    def pi(self): return SNum(fn("const_pi"), "f", False)
    def gamma(self, x): return self._sp("gamma", x)
    def gammaln(self, x): return self._sp("loggamma", x)

    def _sp(self, name, x):
        r = special[name](self.num(x))
        return r if isinstance(r, SNum) else SNum(t_of(r), "f", False)

    def max(self, *xs):
        r = t_of(xs[0])
        for x in xs[1:]:
            r = fn("max", r, t_of(x))
        return SNum(r, "f", False)

    def min(self, *xs):
        r = t_of(xs[0])
        for x in xs[1:]:
            r = fn("min", r, t_of(x))
        return SNum(r, "f", False)

    def floor(self, x): return SNum(fn("floor", t_of(x)), "i", False)
    def idiv(self, a, b): return SNum(floordiv_t(t_of(a), t_of(b)), "i", False)
    def modulo(self, a, b): return SNum(mod_t(t_of(a), t_of(b)), "i", False)

    def copy(self, a):
        return a.copy() if isinstance(a, Arr) else a

    # spec-level arrays
    def arr(self, n, f, kind="f"):
        def g(i):
            return t_of(f(SNum(i, "i", False)))
        return Arr(g, (Axis(t_of(n)),), kind)

    def arr2(self, n, d, f, kind="f"):
        return Arr(lambda i, j: t_of(f(SNum(i, "i", False), SNum(j, "i", False))), (Axis(t_of(n)), Axis(t_of(d))), kind)

    def col(self, a, j):
        return lambda i: self.at(a, i, j)

    def norm(self, diffs, p):
        """minkowski norm of the components (list of differences)"""
        from .shim_sp import norm_term
        return SNum(norm_term(sorted([fn("abs", t_of(d)) if t_of(d) is not ZERO else ZERO for d in diffs], key=lambda t: t.id), t_of(p)), "f", False)

    def kde(self, n, c, q, h):
        """scipy's Gaussian kernel density of the points c(0..n-1) with bandwidth factor h at the point q"""
        from .shim_sp import GaussianKDE
        w = len(q)
        data = self.arr2(w, n, lambda k, j: _pickn(c(j), k))
        at = self.arr2(w, 1, lambda k, j: _pickn(q, k))
        return self.at(GaussianKDE(data, bw_method=h).evaluate(at), 0)

    def spectrum(self, lo):
        """covariance matrices have eigenvalues above lo"""
        from .shim_sp import SPECTRUM
        SPECTRUM[0] = lo

    def kth_smallest(self, n, f, k):
        """k-th smallest (0-based) of f(0..n-1)"""
        from .shim_sp import kth
        v = fresh("j", "I", t_of(n))
        return SNum(kth(mk_lam(v, t_of(n), t_of(f(SNum(v, "i", False)))), t_of(k), t_of(n)), "f", False)

    # ------------------------------------------------------------ logic
    def assume(self, c):
        ENG.assume(b_of(c))

    def value(self, x):
        """python number of a constant"""
        v = numval(t_of(x))
        if v is None:
            raise Unsupported("not a constant")
        return float(v)

    def drawn(self, name, n, actual, original, replace):
        """obligations: the values actual(0..n-1) are original(w(0..n-1)) where w is a permutation of 0..n-1 (replace=False)
        or independent uniform draws from it, made by the random generator.  Returns w."""
        k = self.index("k", n)
        names = ("rnd_index",) if replace else ("perm", "argsort")
        found, seen, st = [], set(), [t_of(actual(k))]
        while st:
            t = st.pop()
            if isinstance(t, tuple):
                st.extend(t)
            elif isinstance(t, T) and t not in seen:
                seen.add(t)
                if t.op == "app" and t.args[0] in names and t.args[-1] is k.t:
                    found.append(t)
                st.extend(t.args)
        nm = f"{name}: " + ("drawn from the original observations with replacement" if replace else "a permutation of all original observations")
        if len(found) != 1:
            self._obl(nm, False, "", f"no single random {'draw' if replace else 'permutation'} of the {n} observations found in {str(t_of(actual(k)))[:800]}")
            return lambda i: i
        w = found[0]
        ok, how, detail = prove_eq(w.args[1], t_of(n)) if w.args[0] != "argsort" else (True, "contract", "")
        self._obl(nm, ok, how, detail)
        f = lambda i: SNum(rawapp(w.args[0], *w.args[1:-1], t_of(i), sort="I"), "i", False)
        k2 = self.index("k", n)
        self.eq(f"{name}: each entry is the original entry at the drawn position", actual(k2), original(f(k2)))
        return f

    def lemma(self, name, fact):
        """a fact proved separately (lean/Lemmas.lean) for all values of its free symbols"""
        self.lemmas_used.add(name)
        ENG.assume(b_of(fact))

    def truth(self, c):
        return ENG.decide(b_of(c)) if isinstance(c, (SBool, SNum)) else bool(c)

    def index(self, name, n):
        """arbitrary index 0 <= i < n (universally quantified)"""
        v = fresh(name, "I", t_of(n))
        ENG.assume(ge(v, ZERO))
        ENG.assume(lt(v, t_of(n)))
        return SNum(v, "i", False)

    def eq(self, name, actual, expected, tol=None):
        if isinstance(actual, (Arr, SList, VList, list, tuple)) or isinstance(expected, (Arr, SList, VList, list, tuple)):
            return self.same(name, actual, expected)
        if actual is None or isinstance(actual, str) or expected is None or isinstance(expected, str):
            return self._obl(name, actual == expected, "python equality", f"{actual!r} vs {expected!r}")
        if isinstance(actual, bool) and isinstance(expected, bool):
            return self._obl(name, actual is expected, "python equality", f"{actual!r} vs {expected!r}")
        if not is_numlike(actual):
            return self._obl(name, False, "", f"not a number: {actual!r}")
        ok, how, detail = prove_eq(t_of(actual), t_of(expected))
        return self._obl(name, ok, how, detail and f"{detail}\n   actual: {str(t_of(actual))[:1500]}\n   spec:   {str(t_of(expected))[:1500]}")

    def _obl(self, name, ok, how="", detail=""):
        return ENG.oblige(name, ok, how, "" if ok else detail)

    def check(self, name, c, detail=""):
        if isinstance(c, (SBool, SNum)):
            t = b_of(c)
            d = PRV.decide(t)
            return self._obl(name, d is True, "z3", f"{detail} not proved: {str(t)[:1200]}")
        return self._obl(name, bool(c), "python", detail)

    def same(self, name, a, b, tol=None):
        a = asarr(a) if not isinstance(a, Arr) else a
        b = asarr(b) if not isinstance(b, Arr) else b
        if a.ndim != b.ndim:
            return self._obl(name + ": ndim", False, "", f"{a.ndim} vs {b.ndim}")
        idx = []
        for p, q in zip(a.axes, b.axes):
            if not (p.simple and q.simple):
                if same_axis(p, q) is True:
                    raise Unsupported("comparison of filtered arrays")
                raise Unsupported("comparison of filtered arrays")
            ok, how, detail = prove_eq(p.hi, q.hi)
            if not self._obl(name + ": length", ok, how, detail):
                return False
            idx.append(self.index("q", p.hi).t)
        ok, how, detail = prove_eq(a.at(*idx), b.at(*idx))
        return self._obl(name, ok, how, detail and f"{detail}\n   actual: {str(a.at(*idx))[:1200]}\n   spec:   {str(b.at(*idx))[:1200]}")

    def shape(self, name, a, *dims):
        if isinstance(a, Arr):
            if a.ndim != len(dims):
                return self._obl(name, False, "", f"ndim {a.ndim} expected {len(dims)}")
            for p, d in zip(a.axes, dims):
                ok, how, detail = prove_eq(p.length(), t_of(d))
                if not ok:
                    return self._obl(name, False, how, detail)
            return self._obl(name, True, "shape", "")
        return self._obl(name, False, "", f"not an array: {type(a)}")

    def raises(self, name, exc, thunk):
        try:
            r = thunk()
        except exc:
            return self._obl(name, True, "exception raised", "")
        except Exception as e:
            return self._obl(name, False, "", f"raised {type(e).__name__}: {e}")
        return self._obl(name, False, "", f"returned {str(r)[:300]} instead of raising")

    def unchanged(self, name, arr, before):
        """arr still holds what `before` (a copy) holds and no write to its storage was executed"""
        return self.same(name, arr, before)

    def is_nan(self, name, x):
        return self._obl(name, is_numlike(x) and t_of(x) is NAN, "special value", f"{x}")

    def note(self, s):
        ENG.notes.add(s)


class Timeout(Unsupported):
    pass


def _alarm(*a):
    raise Timeout("time limit of the scenario reached")


def clear_state():
    ENG.frames.clear()
    ENG.obls.clear()
    ENG.trace.clear()
    ENG.notes.clear()
    ENG.loopctx.clear()
    ENG.writes.clear()
    ENG.bounds.clear()
    ENG.overflows.clear()
    del PRV.facts[:]
    RANGE.clear()
    LP.reset_heap()


def run_instance(sc, name, kw, limit=None, verbose=False):
    """-> dict(status=proved|failed|unsupported, obligations=[...], paths, wall, ...)"""
    t0 = time.time()
    clear_state()
    for k in list(STATS):
        STATS[k] = 0
    res = {"scenario": name, "status": "proved", "paths": 0, "reason": ""}
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit or sc.budget)
    vac = False
    try:
        def run():
            LP.reset_heap()
            L = Loader(make_shims())
            S = Sym(L, kw)
            try:
                sc.f(S, **kw)
            except Exception as e:
                tb = traceback.format_exc(limit=-6)
                if verbose:
                    traceback.print_exc()
                ENG.oblige("no unexpected exception", False, "", f"{type(e).__name__}: {str(e)[:300]}\n{tb[-1500:]}")
            run.files = dict(L.files)
            if not PRV.consistent():
                return "vacuous"
            return "ok"
        for fs, r in ENG.subpaths(run):
            if r == "ok":
                vac = True
                res["paths"] += 1
            if verbose:
                print("path", res["paths"], [str(f)[:100] for f in fs])
            if len([o for o in ENG.obls if not o.ok]) > 8:
                break
    except Timeout as e:
        res["status"], res["reason"] = "unsupported", f"time limit ({limit or sc.budget}s)"
    except Unsupported as e:
        if verbose:
            traceback.print_exc()
        res["status"], res["reason"] = "unsupported", str(e)[:600]
        res["where"] = repo_line(e)
    except RecursionError as e:
        if verbose:
            traceback.print_exc()
        res["status"], res["reason"] = "unsupported", "recursion limit"
    except PathEnd:
        pass
    except Exception as e:
        if verbose:
            traceback.print_exc()
        res["status"], res["reason"] = "unsupported", f"verifier error {type(e).__name__}: {str(e)[:300]} {traceback.format_exc(limit=-3)[-600:]}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    obls = [dict(name=o.name, ok=o.ok, how=o.how, detail=o.detail, path=o.path[:600] if not o.ok else "") for o in ENG.obls]
    res["obligations"] = obls
    if any(not o["ok"] for o in obls):
        res["status"] = "failed"
    elif res["status"] == "proved" and not vac:
        res["status"], res["reason"] = "failed", "precondition is unsatisfiable (vacuous)"
    elif res["status"] == "proved" and not obls:
        res["status"], res["reason"] = "failed", "no obligation generated"
    res["notes"] = sorted(ENG.notes)
    res["wall"] = round(time.time() - t0, 3)
    res["solver"] = dict(STATS)
    return res


def repo_line(e):
    tb = e.__traceback__
    last = ""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(LD.REPO):
            last = f"{f}:{tb.tb_lineno}"
        tb = tb.tb_next
    return last
