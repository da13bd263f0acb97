"""Path exploration.  A symbolic boolean that is not decided by the facts of the current path forks
the run; runs are replayed from the start with a decision prefix (depth-first)."""
from __future__ import annotations
import time
from . import terms as TM
from .terms import *
from .prover import PRV


class Unsupported(BaseException):
    """construct outside the verified subset (undecided, reported as such)"""


class PathEnd(BaseException):
    """infeasible / finished path"""


class Obligation:
    __slots__ = ("name", "ok", "how", "detail", "path", "time")

    def __init__(self, name, ok, how, detail="", path="", t=0.0):
        self.name, self.ok, self.how, self.detail, self.path, self.time = name, ok, how, detail, path, t


class Hoist(BaseException):
    """a decision that does not depend on the index of the enclosing body is taken outside of it"""

    def __init__(self, b):
        self.b = b


class Frame:
    """one decision scope (top level, or the body of a symbolic loop / comprehension)"""

    def __init__(self, prefix, vars=(), startid=None):
        self.prefix = list(prefix)
        self.taken = []
        self.vars = frozenset(vars)
        self.startid = startid


class Engine:
    MAXPATHS = 600

    def __init__(self):
        self.frames: list[Frame] = []
        self.obls: list[Obligation] = []
        self.trace: list[str] = []
        self.notes: set = set()
        self.loopctx: list = []
        self.violations: list = []
        self.deadline = None
        self.writes: list = []
        self.bounds: dict = {}
        self.overflows: list = []

    def soft_overflow(self, t, lim):
        self.oblige("machine integers: product does not overflow", False, "", f"{str(t)[:400]} may exceed {lim}")

    # ------------------------------------------------------------ decisions
    def decide(self, b: T) -> bool:
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if not self.frames:
            raise Unsupported(f"symbolic condition outside a verification run: {b}")
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the scenario exhausted")
        d = PRV.decide(b)
        if d is not None:
            return d
        c = counted_condition(b)
        if c is not None:
            # a count of conditions (sum(x > 1 for ...)): decide the conditions one by one
            v = self.decide(c)
            return self.decide(replace(b, {ind_atom(c): ONE if v else ZERO}))
        fr = self.frames[-1]
        if fr.vars and not (b.fv & fr.vars) and all(v.id < fr.startid for v in b.fv):
            raise Hoist(b)
        i = len(fr.taken)
        if i < len(fr.prefix):
            v = fr.prefix[i]
        else:
            v = True
        fr.taken.append(v)
        self.assume(b if v else not_(b))
        if len(fr.taken) > 60:
            raise Unsupported("too many forks on one path (unbounded symbolic loop?)")
        return v

    def assume(self, b):
        if b is TRUE:
            return
        if b is FALSE:
            raise PathEnd()
        for x in (b.args if b.op == "and" else (b,)):
            if not_(x) in PRV.facts:
                raise PathEnd()
            if x.op == "ge0" and ge0(neg(x.args[0])) in PRV.facts:
                e = eq0(x.args[0])
                if e is not TRUE:
                    PRV.facts.append(e)
            PRV.facts.append(x)
            self.trace.append(str(x)[:160])
            if x.op == "eq0":
                # a variable fixed by the path: specialise the non-linear facts that mention it
                its = poly_items(x.args[0])
                lin = [(m[0][0], c) for m, c in its if len(m) == 1 and m[0][1] is ONE and m[0][0].op == "var"]
                if len(lin) == 1 and len(its) == 1 + any(not m for m, c in its):
                    v, c = lin[0]
                    val = num(-sum((k for m, k in its if not m), 0) / c)
                    for f in list(PRV.facts):
                        if f is not x and any(contains(a, v) and sum(1 for _ in m) > 1 for a in f.args if isinstance(a, T) and a.op == "poly" for m, _ in poly_items(a)):
                            g = replace(f, {v: val})
                            if g is FALSE:
                                raise PathEnd()
                            if g is not TRUE and g not in PRV.facts:
                                PRV.facts.append(g)

    # depth-first enumeration of the sub-paths of a scope
    def subpaths(self, run, vars=()):
        """run() is executed once per sub-path inside a fresh frame; yields (facts_of_subpath, result)"""
        prefix = []
        n = 0
        startid = fresh("frame", "I", ONE).id if vars else None
        while True:
            n += 1
            if n > self.MAXPATHS:
                raise Unsupported("too many paths")
            base = len(PRV.facts)
            tl = len(self.trace)
            fr = Frame(prefix, vars, startid)
            self.frames.append(fr)
            ended = False
            res = None
            try:
                res = run()
            except PathEnd:
                ended = True
            finally:
                self.frames.pop()
                facts = PRV.facts[base:]
                del PRV.facts[base:]
                del self.trace[tl:]
            if not ended:
                yield facts, res
            nxt = list(fr.taken)
            while nxt and nxt[-1] is False:
                nxt.pop()
            if not nxt:
                return
            nxt[-1] = False
            prefix = nxt

    # ------------------------------------------------------------ obligations
    def oblige(self, name, ok, how="", detail=""):
        if not ok and path_contradicts():
            raise PathEnd()
        self.obls.append(Obligation(name, bool(ok), how, detail, " & ".join(self.trace[-12:])))
        return ok


ENG = Engine()


def prove_eq(a: T, b: T):
    """-> (ok, how, detail)"""
    if a is b:
        return True, "normal form", ""
    a, b = use_equalities(a), use_equalities(b)
    if a is b:
        return True, "normal form modulo path equalities", ""
    if a.op in ("special", "ite") or b.op in ("special", "ite"):
        r = eq(a, b)
        if a.op == "special" and b.op == "special":
            return a is b, "special values", f"{a} vs {b}"
        r2 = PRV.decide(r)
        return r2 is True, "z3", f"{a}  vs  {b}"
    d = sub(a, b)
    if d is ZERO:
        return True, "normal form", ""
    d2 = clear_denominators(d)
    if d2 is ZERO:
        return True, "normal form (common denominator)", ""
    d3 = simplify_conditions(d2)
    if d3 is ZERO or clear_denominators(d3) is ZERO:
        return True, "normal form + conditions under path facts", ""
    d4 = use_uniform(d3)
    if d4 is not d3 and (d4 is ZERO or clear_denominators(use_equalities(d4)) is ZERO):
        return True, "normal form + conditions that hold for all samples on the path", ""
    d5 = substitute_equals(d3)
    if d5 is not d3 and (d5 is ZERO or clear_denominators(d5) is ZERO):
        return True, "normal form + equalities required by the summands' own conditions", ""
    if case_split_zero(d3, 0):
        return True, "normal form + case split on conditions", ""
    if PRV.decide(eq0(d3)) is True:
        return True, "z3", ""
    return False, "", f"difference does not vanish: {str(d3)[:1500]}"


def substitute_equals(t, depth=0):
    """inside every sum: where a summand carries the condition [a = b], replace a by b in its other factors"""
    m = {}
    for a in atoms(t, lambda x: x.op == "sum"):
        if _dangl(a):
            continue
        v = fresh("s", "I", a.args[1])
        b = open_(a, v)[0]
        out, ch = [], False
        for mono, c in poly_items(b):
            r = num(c)
            fs = list(mono)
            for k, (f, e) in enumerate(fs):
                if f.op != "ind" or f.args[0].op != "eq0":
                    continue
                for em, ec in poly_items(f.args[0].args[0]):
                    if len(em) == 1 and em[0][1] is ONE and abs(ec) == 1 and em[0][0].op in ("app", "var") and contains(em[0][0], v) and em[0][0] is not v:
                        A = em[0][0]
                        rest = sub(A, mul(num(1 / ec), f.args[0].args[0]))
                        if contains(rest, A):
                            continue
                        nf = [(g, h) if j == k else (replace(g, {A: rest}), replace(h, {A: rest}) if isinstance(h, T) else h) for j, (g, h) in enumerate(fs)]
                        if any(x is not y for (x, _), (y, _) in zip(nf, fs)):
                            fs, ch = nf, True
                            break
            for f, e in fs:
                r = mul(r, power(f, e))
            out.append(r)
        if ch:
            m[a] = mk_sum(v, a.args[1], add(*out) if out else ZERO)
    return replace(t, m) if m else t


def case_split_zero(d, depth):
    """split on an indicator condition occurring at the top level of d"""
    if d is ZERO:
        return True
    if depth > 5:
        return False
    conds = [a.args[0] for m, _ in poly_items(d) for a, e in m if a.op == "ind"]
    if not conds:
        conds = [a.args[0] for a in atoms(d, lambda x: x.op == "ind") if not __import__("dv.prover", fromlist=["x"])._dangling(a)]
    if not conds:
        return False
    c = conds[0]
    base = len(PRV.facts)
    for v, cc in ((ONE, c), (ZERO, not_(c))):
        PRV.facts.append(cc)
        try:
            if not PRV.consistent():
                continue
            x = replace(d, {ind_atom(c): v})
            x = use_equalities(x)
            if x is ZERO or clear_denominators(x) is ZERO:
                continue
            x = simplify_conditions(x)
            if x is ZERO or clear_denominators(x) is ZERO:
                continue
            if PRV.decide(eq0(x)) is True:
                continue
            if not case_split_zero(x, depth + 1):
                return False
        finally:
            del PRV.facts[base:]
    return True


def counted_condition(b):
    if b.op == "not":
        return counted_condition(b.args[0])
    if b.op not in ("ge0", "gt0", "eq0"):
        return None
    its = poly_items(b.args[0])
    if len(its) > 12 or any(not (len(m) == 0 or (len(m) == 1 and m[0][0].op == "ind")) for m, c in its):
        return None
    for m, c in its:
        if m:
            return m[0][0].args[0]
    return None


def ind_atom(c):
    return mk("ind", (c,), "I")


def clear_denominators(d):
    for _ in range(6):
        dens = {}
        for m, c in poly_items(d):
            for b, e in m:
                ev = numval(e)
                if ev is not None and ev < 0 and b.op == "poly":
                    dens[b] = min(dens.get(b, 0), ev)
        if not dens:
            return d
        b, e = next(iter(dens.items()))
        if not PRV.nonzero(b):
            return d
        # multiply each monomial by b^-e, cancelling explicitly
        out = []
        for m, c in poly_items(d):
            dm = dict(m)
            have = numval(dm.pop(b)) if b in dm and numval(dm[b]) is not None else 0
            k = have - e
            r = num(c)
            for x, y in dm.items():
                r = mul(r, power(x, y))
            for _i in range(int(k)):
                r = mul(r, b)
            out.append(r)
        d = add(*out)
    return d


TM.VANISH = lambda p: clear_denominators(p) is ZERO


def use_equalities(t):
    """rewrite with equalities of the path (atom = simpler term)"""
    m = {}
    for f in PRV.facts:
        if f.op == "eq0":
            for mono, c in poly_items(f.args[0]):
                if len(mono) == 1 and mono[0][1] is ONE and abs(c) == 1 and mono[0][0].op in ("var", "app", "sum"):
                    A = mono[0][0]
                    rest = sub(A, mul(num(1 / c), f.args[0]))
                    if not contains(rest, A) and contains(t, A):
                        m = {A: rest}
                        t = replace(t, m)
                        break
    # constant partitions: nuniq(S) = 1  =>  all members equal
    done = set()
    for f in list(PRV.facts):
        for a in atoms(f, lambda x: x.op == "app" and x.args[0] == "nuniq"):
            if a in done or _dangl(a):
                continue
            done.add(a)
            if PRV.decide(eq(a, ONE)) is True:
                t = replace(all_equal(t, a.args[1]), {a: ONE})
    return t


def uniform_facts(facts):
    """conditions known for every sample: [(hi, v, condition(v))]; from  forall v < hi: c  and from  sum of non-negative terms = 0"""
    out = []
    for f in facts:
        if f.op == "forall":
            v = fresh("u", "I", f.args[1])
            out.append((f.args[1], v, open_(f, v)[0]))
        elif f.op == "eq0":
            its = poly_items(f.args[0])
            sg = {c > 0 for _, c in its}
            if len(sg) != 1:
                continue
            for m, c in its:
                sums = [b for b, e in m if b.op == "sum" and e is ONE]
                if len(sums) != 1 or not all(PRV.pos(b) for b, e in m if b is not sums[0]):
                    break
                S = sums[0]
                v = fresh("u", "I", S.args[1])
                body = open_(S, v)[0]
                conds = []
                for m2, c2 in poly_items(body):
                    if c2 < 0:
                        break
                    inds = [b.args[0] for b, e in m2 if b.op == "ind"]
                    if not inds or not all(PRV.pos(b) for b, e in m2 if b.op != "ind"):
                        break
                    conds.append(or_(*[not_(c_) for c_ in inds]))
                else:
                    out.append((S.args[1], v, and_(*conds)))
                    continue
                break
    return out


def use_uniform(t, facts=None):
    """simplify conditions inside binders (and at indices of the path) with the conditions that hold for every sample"""
    U = uniform_facts(PRV.facts if facts is None else facts)
    if not U:
        return t

    def conj(b):
        return list(b.args) if b.op == "and" else [b]

    def known(v, hi):
        r = []
        for h, u, c in U:
            if h is hi or PRV.decide(le(hi, h)) is True:
                r += conj(subst(c, {u: v}))
        return r

    def go(x, fs):
        if x.op == "ind":
            c = x.args[0]
            for f in fs:
                if f is c:
                    return ONE
                if not_(f) is c:
                    return ZERO
            if fs and c.op in ("ge0", "gt0", "eq0", "not", "or", "and"):
                rel = [f for f in fs if set(atoms(f, lambda y: y.op in ("sum", "app"))) & set(atoms(c, lambda y: y.op in ("sum", "app")))]
                if rel:
                    d = PRV.decide(c, rel)
                    if d is not None:
                        return ONE if d else ZERO
            return x
        if x.op in BINDERS and x.op != "part":
            v = fresh("b", "I", x.args[1])
            bodies = open_(x, v)
            fs2 = fs + known(v, x.args[1])
            nb = [go(b, fs2) for b in bodies]
            if all(p is q for p, q in zip(bodies, nb)):
                return x
            return mk_binder(x.op, x.args[0], v, x.args[1], nb)
        if x.op in ("num", "var", "special", "part", "true", "false", "bv") or not (atoms(x, lambda y: y.op == "ind") or any(atoms(x, lambda y: y.op == b) for b in BINDERS)):
            return x
        return rebuild(x, lambda y: go(y, fs))
    top = []
    for i in t.fv:
        if i.op == "var" and i.sort == "I":
            for h, u, c in U:
                if PRV.decide(and_(ge(i, ZERO), lt(i, h))) is True:
                    top += conj(subst(c, {u: i}))
    return go(t, top)


def path_contradicts():
    """the facts of the path contradict each other once conditions that hold for every sample are used"""
    if not uniform_facts(PRV.facts):
        return False
    for k, f in enumerate(PRV.facts):
        if f.op == "forall":
            continue
        g = use_uniform(f, [h for j, h in enumerate(PRV.facts) if j != k])
        if g is FALSE or g is not f and PRV.decide(g) is False:
            return True
    return False


def _dangl(a):
    from .prover import _dangling
    return _dangling(a)


def TMsolve(p):
    from .terms import _solve_unit_atom
    return _solve_unit_atom(p)


def all_equal(t, S):
    """inside range(n) every comp of S is the same: [comp(a)=comp(b)] -> 1"""
    vv = fresh("p", "I", S.args[1])
    comps = open_(S, vv)

    def in_range(i):
        if i.op == "var" and RANGE.get(i) is S.args[1]:
            return True
        return PRV.decide(and_(ge(i, ZERO), lt(i, S.args[1]))) is True

    def is_const(c, w):
        """component c(w) of another partition over (part of) the same samples"""
        return any((ii := match_index(k, vv, c)) is not None and (ii is w and RANGE.get(w) is S.args[1] or in_range(ii)) for k in comps)

    def go(x):
        if x.op == "app" and x.args[0] == "nuniq" and x.args[1] is not S:
            P = x.args[1]
            w = fresh("p", "I", P.args[1])
            cs = open_(P, w)
            keep = [c for c in cs if not is_const(c, w)]
            if len(keep) < len(cs):
                return nuniq(mk_part(w, P.args[1], keep))
            return x
        if x.op == "eq0":
            its = poly_items(x.args[0])
            if len(its) == 2 and its[0][1] == -its[1][1] and all(len(m) == 1 and m[0][1] is ONE for m, _ in its):
                a, b = its[0][0][0][0], its[1][0][0][0]
                for c in comps:
                    ia, ib = match_index(c, vv, a), match_index(c, vv, b)
                    if ia is not None and ib is not None and in_range(ia) and in_range(ib):
                        return TRUE
            return x
        if x.op in BINDERS:
            if x.op == "part":
                return x
            v = fresh("b", "I", x.args[1])
            bodies = open_(x, v)
            nb = [go(b) for b in bodies]
            if all(p is q for p, q in zip(bodies, nb)):
                return x
            return mk_binder(x.op, x.args[0], v, x.args[1], nb)
        if x.op in ("num", "var", "special", "true", "false", "bv"):
            return x
        return rebuild(x, go)

    return go(t)


def match_index(c, vv, a):
    """a == c[vv:=i] for some index i (c an application linear in vv, unit coefficient)"""
    if c.op != "app" or a.op != "app" or c.args[0] != a.args[0]:
        return None
    return match_linear(c, a, vv)


def simplify_conditions(d):
    """decide indicator conditions of d under the path facts"""
    def go(x):
        if x.op == "ind":
            r = PRV.decide(x.args[0])
            if r is True:
                return ONE
            if r is False:
                return ZERO
            return x
        if x.op in ("num", "var", "special", "part", "true", "false", "bv") or x.op in BINDERS:
            return x
        if not atoms(x, lambda y: y.op == "ind"):
            return x
        return rebuild(x, go)

    return go(d)
