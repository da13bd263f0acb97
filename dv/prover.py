"""Decision procedures behind the verifier: syntactic sign rules, then z3 (and cvc5 as second opinion for
final goals).  Sums, counts, logs ... are uninterpreted atoms for the solver, with instance axioms listed in
`_axioms` (each of them is stated in DESIGN.md's trusted base)."""
from __future__ import annotations
import time
import z3
from . import terms as TM
from .terms import *

STATS = {"z3_queries": 0, "z3_time": 0.0, "z3_unknown": 0}


class Prover:
    def __init__(self):
        self.facts: list = []
        self.cache: dict = {}
        self.tr: dict = {}
        self.axmemo: dict = {}
        self.timeout = 1500
        self._inprog = set()
        self.ctxs: dict = {}

    # ---------------------------------------------------------------- context
    def push(self, *fs):
        self.facts.extend(f for f in fs if f is not TRUE)

    def key(self, extra):
        return frozenset(f.id for f in self.facts) | frozenset(f.id for f in extra)

    # ---------------------------------------------------------------- signs
    def pos(self, t):
        return self._sign(t) == 1 or self._q("pos", t)

    def nonneg(self, t):
        return self._sign(t) in (0, 1) or self._q("nonneg", t)

    def nonzero(self, t):
        s = self._sign(t)
        if s in (1, -1):
            return True
        return self._q("nonzero", t)

    def _q(self, what, t):
        if t.op == "num":
            v = t.args[0]
            return {"pos": v > 0, "nonneg": v >= 0, "nonzero": v != 0}[what]
        if t.op == "special" or t.op == "ite":
            return False
        its = poly_items(t)
        if len(its) == 1 and (len(its[0][0]) > 1 or (its[0][0] and its[0][0][0][1] is not ONE)):
            m, c = its[0]
            sg = 1 if c > 0 else -1
            for b, e in m:
                ev = numval(e)
                if ev is not None and ev.denominator == 1 and int(ev) % 2 == 0:
                    if what == "nonneg" and ev > 0:
                        continue
                    if self.nonzero(b):
                        continue
                    sg = None
                    break
                if what == "nonneg":
                    ok = self.nonneg(b) if ev is not None and ev > 0 else self.pos(b)
                else:
                    ok = self.pos(b)
                if ok:
                    continue
                if ev is not None and ev.denominator == 1 and self.pos(neg(b)):
                    sg = -sg
                    continue
                sg = None
                break
            if sg == 1 or (sg == -1 and what == "nonzero"):
                return True
        g = {"pos": lambda: gt(t, ZERO), "nonneg": lambda: ge(t, ZERO), "nonzero": lambda: not_(eq0(t))}[what]()
        return self.decide(g) is True

    def _sign(self, t):
        """1 strictly positive, 0 nonnegative, -1 strictly negative, None unknown (syntactic)"""
        if t.op == "num":
            v = t.args[0]
            return 1 if v > 0 else (0 if v == 0 else -1)
        if t.op == "poly":
            sg = None
            for m, c in t.args:
                s = 1 if c > 0 else -1
                for b, e in m:
                    ev = numval(e)
                    sb = self._sign(b)
                    if sb == 1:
                        continue
                    if sb == 0:
                        s = 0 if s in (0, 1) else None
                        continue
                    if ev is not None and ev.denominator == 1 and int(ev) % 2 == 0 and ev > 0:
                        s = 0 if s in (0, 1) else None
                        continue
                    s = None
                    break
                if s is None or s == -1:
                    return None
                if sg is None:
                    sg = s
                else:
                    sg = 1 if 1 in (sg, s) else 0
            return sg
        if t.op == "ind":
            return 0
        if t.op == "app":
            n = t.args[0]
            if n in ("exp", "kde", "const_pi", "const_e", "const_egamma"):
                return 1
            if n == "fact":
                return 1
            if n in ("abs", "norm"):
                return 0
            if n == "kth":
                b = t.args[1].args[2] if t.args[1].op == "lam" else None
                return 0 if b is not None and b.op == "app" and b.args[0] in ("abs", "norm") else None
            if n in ("rep",):
                return 0
            if n == "ncount":
                return 1
        if t.op == "var":
            if t in RANGE:
                return 0
        if t.op == "sum":
            v = fresh("s", "I", t.args[1])
            b = open_(t, v)[0]
            sb = self._sign(b)
            if sb in (0, 1):
                if self._witness(t) is not None:
                    return 1
                return 0
        if t.op == "prod":
            v = fresh("s", "I", t.args[1])
            sb = self._sign(open_(t, v)[0])
            if sb == 1:
                return 1
            if sb == 0:
                return 0
        return None

    def _witness(self, t):
        """an index at which the summand of a sum of indicators is provably 1"""
        mk_ = (t, self.key(()))
        if mk_ in self.axmemo:
            return self.axmemo[mk_]
        self.axmemo[mk_] = None
        v = fresh("s", "I", t.args[1])
        b = open_(t, v)[0]
        its = poly_items(b)
        res = None
        if len(its) == 1 and its[0][1] == 1 and all(x.op == "ind" for x, e in its[0][0]):
            cands = []
            # solve the first equality for v against sub-terms: try every index-like sub-term
            for a in atoms(t, lambda x: (x.op == "var" and x.sort == "I") or (x.op == "app" and x.args[0] == "rep") or (x.op == "poly" and is_int_term(x))):
                cands.append(a)
            for c in cands:
                if c is v or v in c.fv or _dangling(c):
                    continue
                bc = subst(b, {v: c})
                if bc is ONE or (bc.op == "ind" and self.decide(bc.args[0]) is True):
                    if self.decide(and_(ge(c, ZERO), lt(c, t.args[1]))) is True:
                        res = c
                        break
        self.axmemo[mk_] = res
        return res

    # ---------------------------------------------------------------- decide
    def decide(self, b, extra=()):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        extra = [e for e in extra if e is not TRUE]
        fs = set(self.facts) | set(extra)
        if b in fs:
            return True
        nb = not_(b)
        if nb in fs:
            return False
        if b.op == "and":
            rs = [self.decide(x, extra) for x in b.args]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        if b.op == "or":
            rs = [self.decide(x, extra) for x in b.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        k = (b, self.key(extra))
        if k in self.cache:
            return self.cache[k]
        if k in self._inprog or len(self._inprog) > 6:
            return None
        self._inprog.add(k)
        try:
            r = None
            # quick syntactic
            if b.op in ("ge0", "gt0"):
                s = self._sign(b.args[0])
                if s == 1 or (s == 0 and b.op == "ge0"):
                    r = True
            if r is None and b.op == "eq0":
                s = self._sign(b.args[0])
                if s in (1, -1):
                    r = False
            if r is None:
                r = self._z3_decide(b, nb, extra)
            self.cache[k] = r
            return r
        finally:
            self._inprog.discard(k)

    def _context(self, extra):
        """incremental solver holding the facts of the path and their instance axioms"""
        k = self.key(extra)
        c = self.ctxs.get(k)
        if c is None:
            s = z3.SimpleSolver()
            s.set("timeout", self.timeout)
            seen = set()
            facts = list(self.facts) + list(extra)
            for f in facts:
                s.add(self.z(f))
            for a in self._axioms(facts, seen):
                s.add(a)
            if len(self.ctxs) > 40:
                self.ctxs.pop(next(iter(self.ctxs)))
            c = self.ctxs[k] = (s, seen)
        return c

    def _light(self, b, extra):
        """drop non-linear facts that share no opaque term with the goal (weakening: only loses provability)"""
        nl = [f for f in self.facts if _nonlinear(f)]
        if not nl:
            return None
        keep = [f for f in self.facts if not _nonlinear(f)]
        syms = set()
        for f in [b, *extra]:
            syms |= _opaques(f)
        drop = set(nl)
        changed = True
        while changed and drop:
            changed = False
            for f in list(drop):
                if _opaques(f) & syms:
                    drop.discard(f)
                    syms |= _opaques(f)
                    changed = True
        if not drop:
            return None
        return [f for f in self.facts if f not in drop]

    def _z3_decide(self, b, nb, extra):
        lf = self._light(b, extra)
        if lf is not None:
            full, self.facts = self.facts, lf
            try:
                return self._z3_decide2(b, nb, extra)
            finally:
                self.facts = full
        return self._z3_decide2(b, nb, extra)

    def _z3_decide2(self, b, nb, extra):
        s, seen = self._context(extra)
        seen = set(seen)
        s.push()
        try:
            for a in self._axioms([b], seen):
                s.add(a)
            unk = False
            for want, goal in ((True, b), (False, nb)):
                t0 = time.time()
                r = s.check(z3.Not(self.z(goal))) if False else self._check(s, goal)
                STATS["z3_queries"] += 1
                STATS["z3_time"] += time.time() - t0
                if r == z3.unsat:
                    return want
                if r == z3.unknown:
                    unk = True
        finally:
            s.pop()
        if unk:
            if self._z3_valid(b, extra):
                return True
            if self._z3_valid(nb, extra):
                return False
        return None

    def _check(self, s, goal):
        s.push()
        s.add(z3.Not(self.z(goal)))
        r = s.check()
        s.pop()
        return r

    def _z3_valid(self, b, extra):
        s = z3.Solver()
        s.set("timeout", self.timeout)
        facts = list(self.facts) + list(extra)
        rel = self._relevant(facts, b)
        for f in rel:
            s.add(self.z(f))
        s.add(z3.Not(self.z(b)))
        for a in self._axioms(rel + [b]):
            s.add(a)
        t0 = time.time()
        r = s.check()
        STATS["z3_queries"] += 1
        STATS["z3_time"] += time.time() - t0
        if r == z3.unknown:
            STATS["z3_unknown"] += 1
        return r == z3.unsat

    def consistent(self, extra=()):
        s = z3.Solver()
        s.set("timeout", self.timeout)
        facts = list(self.facts) + list(extra)
        for f in facts:
            s.add(self.z(f))
        for a in self._axioms(facts):
            s.add(a)
        STATS["z3_queries"] += 1
        t0 = time.time()
        r = s.check()
        STATS["z3_time"] += time.time() - t0
        return r != z3.unsat

    def model(self, extra=()):
        s = z3.Solver()
        s.set("timeout", self.timeout)
        facts = list(self.facts) + list(extra)
        for f in facts:
            s.add(self.z(f))
        for a in self._axioms(facts):
            s.add(a)
        if s.check() == z3.sat:
            return s.model()
        return None

    def _relevant(self, facts, b):
        # keep everything: fact sets are small
        return facts

    # ---------------------------------------------------------------- translation
    def zs(self, t):
        """z3 arithmetic expr; Int when integer-valued"""
        r = self.tr.get(t)
        if r is None:
            r = self.tr[t] = self._zs(t)
        return r

    def _zs(self, t):
        op = t.op
        if op == "num":
            v = t.args[0]
            if v.denominator == 1:
                return z3.IntVal(int(v))
            return z3.Q(v.numerator, v.denominator)
        if op == "var" or op == "bv":
            nm = f"{t.args[0]}" if op == "var" else f"bv{t.args[0]}"
            return z3.Int(nm) if t.sort == "I" else z3.Real(nm)
        if op == "poly":
            acc = None
            for m, c in t.args:
                x = z3.IntVal(int(c)) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)
                for b, e in m:
                    ev = numval(e)
                    if ev is not None and ev.denominator == 1 and 0 < ev <= 4:
                        for _ in range(int(ev)):
                            x = x * self.zs(b)
                    else:
                        x = x * self.zpow(b, e)
                acc = x if acc is None else acc + x
            return acc
        if op == "ind":
            return z3.If(self.z(t.args[0]), z3.IntVal(1), z3.IntVal(0))
        if op == "app":
            n = t.args[0]
            if n == "idiv":
                pass
            args = []
            for a in t.args[1:]:
                if a.op in ("part", "fam", "lam", "special", "ite") or a.sort == "B":
                    args.append(z3.IntVal(a.id))
                else:
                    args.append(self.zs(a))
            rs = z3.IntSort() if t.sort == "I" else z3.RealSort()
            f = z3.Function(n + "".join("i" if a.sort() == z3.IntSort() else "r" for a in args) + t.sort, *[a.sort() for a in args], rs)
            return f(*args)
        if op in ("sum", "prod", "maxof", "minof", "special", "ite", "fam", "lam"):
            nm = f"{op}#{t.id}"
            return z3.Int(nm) if t.sort == "I" else z3.Real(nm)
        raise AssertionError(("zs", op, t))

    def zpow(self, b, e):
        return z3.Real(f"pow#{b.id}#{e.id}")

    def z(self, b):
        op = b.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "eq0":
            return self.zs(b.args[0]) == 0
        if op == "ge0":
            return self.zs(b.args[0]) >= 0
        if op == "gt0":
            return self.zs(b.args[0]) > 0
        if op == "not":
            return z3.Not(self.z(b.args[0]))
        if op == "and":
            return z3.And(*[self.z(x) for x in b.args])
        if op == "or":
            return z3.Or(*[self.z(x) for x in b.args])
        if op == "var":
            return z3.Bool("b!" + str(b.args[0]))
        return z3.Bool(f"{op}#{b.id}")

    # ---------------------------------------------------------------- instance axioms
    def _axioms(self, terms, seen=None):
        out = []
        seen = set() if seen is None else seen
        todo = list(terms)
        count = 0
        while todo:
            t = todo.pop()
            for a in atoms(t, lambda x: x.op in ("var", "app", "sum", "prod", "poly", "minof", "maxof")):
                if a in seen:
                    continue
                seen.add(a)
                count += 1
                if count > 400:
                    return out
                new = self._atom_axioms(a)
                for zf, more in new:
                    out.append(zf)
                    todo.extend(m for m in more if m not in seen)
        return out

    def _atom_axioms(self, a):
        out = []
        op = a.op
        if _dangling(a):
            return out
        if op == "var":
            hi = RANGE.get(a)
            if hi is not None:
                out.append((z3.And(self.zs(a) >= 0, self.zs(a) < self.zs(hi)), [hi]))
        elif op == "poly":
            for m, _c in a.args:
                for b, e in m:
                    ev = numval(e)
                    if ev is not None and ev.denominator == 1 and 0 < ev <= 4:
                        continue
                    p = self.zpow(b, e)
                    zb = self.zs(b)
                    out.append((z3.Implies(zb > 0, p > 0), []))
                    if ev == -1:
                        out.append((z3.Implies(zb != 0, p * zb == 1), []))
                        out.append((z3.Implies(zb >= 1, p <= 1), []))
                    if ev == Fraction(1, 2):
                        out.append((z3.Implies(zb >= 0, z3.And(p >= 0, p * p == zb)), []))
                    if ev is not None and ev.denominator == 1 and int(ev) % 2 == 0:
                        out.append((p >= 0, []))
        elif op == "app":
            n = a.args[0]
            z = self.zs(a)
            if n == "nuniq":
                S = a.args[1]
                nn = self.zs(S.args[1])
                out.append((z3.And(z >= 0, z <= nn, z3.Implies(nn >= 1, z >= 1)), [S.args[1]]))
            elif n == "rep":
                S, k = a.args[1], a.args[2]
                K = nuniq(S)
                out.append((z3.Implies(z3.And(self.zs(k) >= 0, self.zs(k) < self.zs(K)), z3.And(z >= 0, z < self.zs(S.args[1]))), [K, S.args[1], k]))
            elif n == "cls":
                S = a.args[1]
                K = nuniq(S)
                w = self._cls_index(a)
                if w is not None:
                    out.append((z3.Implies(z3.And(self.zs(w) >= 0, self.zs(w) < self.zs(S.args[1])), z3.And(z >= 0, z < self.zs(K))), [K, w]))
            elif n == "idiv":
                x, y = a.args[1:]
                out.append((z3.Implies(self.zs(y) > 0, z3.And(self.zs(y) * z <= self.zs(x), self.zs(x) < self.zs(y) * z + self.zs(y))), []))
                out.append((z3.Implies(z3.And(self.zs(y) > 0, self.zs(x) >= 0), z >= 0), []))
            elif n in ("max", "min"):
                x, y = self.zs(a.args[1]), self.zs(a.args[2])
                out.append((z == (z3.If(x >= y, x, y) if n == "max" else z3.If(x <= y, x, y)), []))
            elif n == "abs":
                x = self.zs(a.args[1])
                out.append((z == z3.If(x >= 0, x, -x), []))
            elif n == "floor":
                x = self.zs(a.args[1])
                out.append((z3.And(z <= x, x < z + 1), []))
            elif n == "trunc":
                x = self.zs(a.args[1])
                out.append((z3.If(x >= 0, z3.And(z <= x, x < z + 1), z3.And(z >= x, x > z - 1)), []))
            elif n == "log":
                if a.args[1].op not in ("special", "ite"):
                    x = self.zs(a.args[1])
                    out.append((z3.And(z3.Implies(x > 1, z > 0), z3.Implies(x == 1, z == 0), z3.Implies(z3.And(x > 0, x < 1), z < 0)), []))
            elif n in ("exp",):
                out.append((z > 0, []))
            elif n in ("const_pi",):
                out.append((z3.And(z > 3, z < 4), []))
            elif n in ("const_egamma",):
                out.append((z3.And(z > 0, z < 1), []))
            elif n == "gamma":
                out.append((z3.Implies(self.zs(a.args[1]) > 0, z > 0), []))
            elif n == "fact":
                out.append((z >= 1, []))
            elif n in ("perm", "perminv", "rnd_index"):
                # a permutation maps [0,n) to [0,n); a uniform draw from [0,n) exists when n >= 1
                N = a.args[1]
                zn = self.zs(N)
                if n == "rnd_index":
                    out.append((z3.Implies(zn >= 1, z3.And(z >= 0, z < zn)), [N]))
                else:
                    i = a.args[-1]
                    zi = self.zs(i)
                    out.append((z3.Implies(z3.And(zi >= 0, zi < zn), z3.And(z >= 0, z < zn)), [N, i]))
            elif n in ("argsort", "argrank", "argkth") and isinstance(a.args[1], T) and a.args[1].op == "lam":
                N, i = a.args[1].args[1], a.args[-1]
                zi, zn = self.zs(i), self.zs(N)
                out.append((z3.Implies(z3.And(zi >= 0, zi < zn), z3.And(z >= 0, z < zn)), [N, i]))
            elif n == "norm":
                out.append((z >= 0, []))
        elif op == "sum":
            v = fresh("s", "I", a.args[1])
            b = open_(a, v)[0]
            z = self.zs(a)
            its = poly_items(b)
            hi = a.args[1]
            if len(its) == 1 and its[0][1] == 1 and all(x.op == "ind" for x, e in its[0][0]):
                zh = self.zs(hi)
                out.append((z3.And(z >= 0, z3.Implies(zh >= 0, z <= zh)), [hi]))
                w = self._witness(a)
                if w is not None:
                    out.append((z >= 1, []))
            else:
                s = self._sign(b)
                if s in (0, 1):
                    out.append((z >= 0, []))
                    if s == 1:
                        out.append((z3.Implies(self.zs(hi) >= 1, z > 0), [hi]))
        elif op in ("minof", "maxof"):
            for zf in EXTREMUM_AXIOMS(self, a):
                out.append(zf)
        return out

    def _cls_index(self, a):
        if a in self.axmemo:
            return self.axmemo[a]
        S = a.args[1]
        res = None
        vals = a.args[2:]
        cands = atoms(a, lambda x: (x.op == "var" and x.sort == "I") or (x.op == "app" and x.args[0] == "rep"))
        for c in cands:
            if _dangling(c):
                continue
            if all(x is y for x, y in zip(part_comps(S, c), vals)):
                res = c
                break
        self.axmemo[a] = res
        return res

    # ---------------------------------------------------------------- contextual simplification
    def simplify_in(self, t, facts, skip=()):
        if not atoms(t, lambda x: x.op == "ind" and x not in skip and x.args[0].op in ("ge0", "gt0", "not", "eq0", "or")):
            return t
        top = set(skip)
        fvs = frozenset().union(*[f.fv for f in facts]) if facts else frozenset()

        def go(x, fs, fv):
            if x in top:
                return x
            if x.op == "ind":
                c = x.args[0]
                if (c.fv & fv) and _cheap_cond(c):
                    d = self.decide(c, fs)
                    if d is True:
                        return ONE
                    if d is False:
                        return ZERO
                return x
            if x.op in BINDERS and x.op != "part":
                if not atoms(x, lambda y: y.op == "ind"):
                    return x
                v = fresh("b", "I", x.args[1])
                bodies = open_(x, v)
                nfs = fs + [ge(v, ZERO), lt(v, x.args[1])]
                nb = [go(b, nfs, fv | {v}) for b in bodies]
                if all(p is q for p, q in zip(nb, bodies)):
                    return x
                return mk_binder(x.op, x.args[0], v, x.args[1], nb)
            if x.op in ("num", "var", "special", "part"):
                return x
            if x.op not in ("poly", "app", "ite"):
                return x
            if not atoms(x, lambda y: y.op == "ind" or y.op == "ite"):
                return x
            return rebuild(x, lambda y: go(y, fs, fv))

        return go(t, list(facts), fvs)


_nlmemo: dict = {}


def _nonlinear(f):
    r = _nlmemo.get(f)
    if r is None:
        r = False
        for p in atoms(f, lambda x: x.op == "poly"):
            for m, _c in p.args:
                if len(m) > 1 or any(e is not ONE for _b, e in m):
                    if sum(1 for b, e in m if b.op != "ind") > 1 or any(e is not ONE for _b, e in m):
                        r = True
        _nlmemo[f] = r
    return r


_opmemo: dict = {}


def _opaques(f):
    r = _opmemo.get(f)
    if r is None:
        r = _opmemo[f] = frozenset(x for x in f.fv if x.op == "var" and x.sort == "R") | frozenset(atoms(f, lambda x: x.op in ("app", "sum", "prod", "minof", "maxof") and not (x.op == "app" and x.args[0] == "idiv")))
    return r


def _cheap_cond(c):
    """conditions over indices only (no data access)"""
    return not atoms(c, lambda x: x.op == "app" and x.args[0] not in ("nuniq", "rep", "cls", "max", "min", "idiv", "floor"))  or c.op in ("ge0", "gt0")


def EXTREMUM_AXIOMS(pr, a):
    return []


def _dangling(t):
    return bool(atoms_bv(t))


_bvmemo: dict = {}


def atoms_bv(t):
    """heights of dangling bound variables"""
    r = _bvmemo.get(t)
    if r is not None:
        return r
    if t.op == "bv":
        r = frozenset([t.args[0]])
    elif t.op == "poly":
        r = frozenset()
        for m, _c in t.args:
            for b, e in m:
                r |= atoms_bv(b) | atoms_bv(e)
    else:
        r = frozenset()
        for a in t.args:
            if isinstance(a, T):
                r |= atoms_bv(a)
        if t.op in BINDERS:
            r -= {t.h}
    _bvmemo[t] = r
    return r


PRV = Prover()
TM.set_prover(PRV)
