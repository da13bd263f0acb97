"""Term language of the verifier: exact real/integer arithmetic with binders.

Every arithmetic term is kept in a polynomial normal form (monomials over atoms with
exponents that may themselves be terms); binders (sum, prod, forall, partition, family)
are kept alpha-canonical, so that two terms denote the same function when they are the
same interned object.  Nothing in here looks at the program under verification.
"""
from __future__ import annotations
import zlib
from fractions import Fraction
from math import gcd
import itertools

_intern: dict = {}
_ids = itertools.count()
_fresh = itertools.count()


class T:
    __slots__ = ("op", "args", "sort", "id", "fv", "h", "_key")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    # identity equality on purpose


def mk(op, args, sort):
    k = (op, args, sort)
    t = _intern.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_ids)
        fv = frozenset()
        h = 0
        if op == "var":
            fv = frozenset([t])
        elif op == "poly":
            for mono, _c in args:
                for b, e in mono:
                    fv |= b.fv | e.fv
                    h = max(h, b.h, e.h)
        else:
            for a in args:
                if isinstance(a, T):
                    fv |= a.fv
                    h = max(h, a.h)
        if op in BINDERS:
            h += 1
        t.fv, t.h = fv, h
        _intern[k] = t
    return t


# binders: args = (tag, hi, body...)   bound variable of the bodies is bv(h)
BINDERS = {"sum", "prod", "forall", "part", "fam", "maxof", "minof", "lam"}

TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
NAN = mk("special", ("nan",), "R")
INF = mk("special", ("inf",), "R")
NINF = mk("special", ("-inf",), "R")


def num(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x == float("inf"):
            return INF
        if x == float("-inf"):
            return NINF
        x = Fraction(repr(x))
    if not isinstance(x, Fraction):
        x = Fraction(x)
    return mk("num", (x,), "I" if x.denominator == 1 else "R")


ZERO = num(0)
ONE = num(1)
HALF = num(Fraction(1, 2))


def var(name, sort="R"):
    return mk("var", (name,), sort)


RANGE: dict = {}  # var T -> hi T  (0 <= var < hi)


def fresh(prefix="v", sort="I", hi=None):
    v = var(f"{prefix}!{next(_fresh)}", sort)
    if hi is not None:
        RANGE[v] = hi
    return v


def is_num(t):
    return t.op == "num"


def numval(t):
    return t.args[0] if t.op == "num" else None


def is_special(t):
    return t.op == "special"


def is_bool(t):
    return t.sort == "B"


# ------------------------------------------------------------------ polynomials
def poly_items(t):
    """t as list of (mono, coef)."""
    if t.op == "num":
        return [((), t.args[0])] if t.args[0] != 0 else []
    if t.op == "poly":
        return list(t.args)
    return [(((t, ONE),), Fraction(1))]


def is_int_term(t):
    if t.op == "num":
        return t.args[0].denominator == 1
    if t.op == "poly":
        for mono, c in t.args:
            if c.denominator != 1:
                return False
            for b, e in mono:
                ev = numval(e)
                if not is_int_term(b):
                    return False
                if ev is None or ev.denominator != 1 or ev < 0:
                    return False
        return True
    return t.sort == "I"


def from_items(d):
    """d: dict mono -> coef"""
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] is ONE:
            return m[0][0]
    items.sort(key=lambda mc: _mkey(mc[0]))
    args = tuple(items)
    t = mk("poly", args, "R")
    return t


def _mkey(m):
    return tuple((b.id, e.id) for b, e in m)


def _lift2(f, a, b):
    if a.op == "ite":
        c, x, y = a.args
        return ite(c, f(x, b), f(y, b))
    c, x, y = b.args
    return ite(c, f(a, x), f(a, y))


def add(*ts):
    if any(t.op == "ite" for t in ts):
        r = ts[0]
        for t in ts[1:]:
            r = _lift2(add, r, t) if (r.op == "ite" or t.op == "ite") else add(r, t)
        return r
    d: dict = {}
    sp = None
    for t in ts:
        if t.op == "special":
            if sp is None:
                sp = t
            elif sp is not t:
                sp = NAN
            continue
        if t.sort == "B":
            t = ind(t)
        for m, c in poly_items(t):
            d[m] = d.get(m, 0) + c
    if sp is not None:
        return sp
    return from_items(d)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    """product of two monos -> (coef, mono) or poly T if needs expansion"""
    d: dict = {}
    for b, e in m1:
        d[b] = e
    for b, e in m2:
        if b in d:
            d[b] = add(d[b], e)
        else:
            d[b] = e
    return _norm_mono(d)


def _norm_mono(d):
    """d: base -> exponent.  returns (coef, mono tuple, extra T or None)"""
    coef = Fraction(1)
    extra = None
    out = []
    for b, e in d.items():
        if e is ZERO:
            continue
        ev = numval(e)
        if b.op == "ind":
            if ev is not None and ev > 0:
                e = ONE
            out.append((b, e))
            continue
        if b.op == "num":
            bv_ = b.args[0]
            if ev is not None and ev.denominator == 1 and (bv_ != 0 or ev > 0):
                coef *= bv_ ** int(ev)
                continue
            if bv_ == 1:
                continue
            if bv_ == 0 and ev is not None and ev > 0:
                return Fraction(0), (), None
            out.append((b, e))
            continue
        if b.op == "poly" and ev is not None and ev.denominator == 1 and 0 < ev <= 4:
            # expand
            x = b
            for _ in range(int(ev) - 1):
                x = mul(x, b)
            extra = x if extra is None else mul(extra, x)
            continue
        out.append((b, e))
    if len(out) > 1 and any(b.op == "ind" for b, e in out):
        r = _ind_subst(out)
        if r is not None:
            extra = r if extra is None else mul(extra, r)
            out = []
    out.sort(key=lambda be: (be[0].id, be[1].id))
    return coef, tuple(out), extra


def _ind_subst(out):
    """[A == k] * g(A)  ->  [A == k] * g(k)   (A an atom, k a numeral)"""
    for b, e in out:
        if b.op != "ind":
            continue
        c = b.args[0]
        if c.op != "eq0":
            continue
        s = _solve_unit_atom(c.args[0])
        if s is None:
            continue
        A, val = s
        others = [(x, y) for x, y in out if x is not b]
        if not any(contains(x, A) or contains(y, A) for x, y in others):
            continue
        r = b
        for x, y in others:
            p = power(replace(x, {A: val}), replace(y, {A: val}))
            if _has_special(p) or p.op == "app" and p.args[0] == "pow" and (p.args[1].op == "special" or p.args[1] is ZERO):
                r = None
                break
            r = mul(r, p)
        if r is not None:
            return r
    return None


def _solve_unit_atom(p):
    """p = c*A + k  with A an atom -> (A, -k/c)"""
    its = poly_items(p)
    if len(its) > 2:
        return None
    A = None
    k = Fraction(0)
    cc = None
    for m, c in its:
        if m == ():
            k = c
        elif len(m) == 1 and m[0][1] is ONE and A is None:
            A, cc = m[0][0], c
        else:
            return None
    if A is None or A.op in ("poly", "ind"):
        return None
    return A, num(-k / cc)


def mul(*ts):
    if any(t.op == "ite" for t in ts):
        r = ts[0]
        for t in ts[1:]:
            r = _lift2(mul, r, t) if (r.op == "ite" or t.op == "ite") else mul(r, t)
        return r
    r = ts[0]
    if r.sort == "B":
        r = ind(r)
    for t in ts[1:]:
        if t.sort == "B":
            t = ind(t)
        r = _mul2(r, t)
    return r


def _mul2(a, b):
    if a.op == "special" or b.op == "special":
        if a is NAN or b is NAN:
            return NAN
        o = b if a.op == "special" else a
        s = a if a.op == "special" else b
        if o.op == "num":
            if o.args[0] > 0:
                return s
            if o.args[0] < 0:
                return NINF if s is INF else INF
            return NAN
        if o.op == "special":
            return INF if o is s else NINF
        return mk("app", ("spmul", s, o), "R")
    if a.op == "num" and b.op == "num":
        return num(a.args[0] * b.args[0])
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    d: dict = {}
    extras = []
    for m1, c1 in poly_items(a):
        for m2, c2 in poly_items(b):
            if not m1 or not m2:
                m = m1 or m2
                d[m] = d.get(m, 0) + c1 * c2
                continue
            k, m, ex = _mono_mul(m1, m2)
            if k == 0:
                continue
            if ex is None:
                d[m] = d.get(m, 0) + c1 * c2 * k
            else:
                extras.append(mul(from_items({m: c1 * c2 * k}), ex))
    r = from_items(d)
    if extras:
        r = add(r, *extras)
    return r


def content(p):
    """positive rational content of a poly"""
    its = poly_items(p)
    g = Fraction(0)
    for _m, c in its:
        c = abs(c)
        g = Fraction(gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator) if g else c
    return g


def common_mono(p):
    """largest monomial (numeric exponents) dividing all terms"""
    its = poly_items(p)
    first = dict(its[0][0])
    for m, _c in its[1:]:
        dm = dict(m)
        for b in list(first):
            e1 = numval(first[b])
            if b not in dm or e1 is None or numval(dm[b]) is None:
                del first[b]
            else:
                e2 = numval(dm[b])
                e = min(e1, e2) if (e1 > 0) == (e2 > 0) else Fraction(0)
                if e1 < 0 and e2 < 0:
                    e = max(e1, e2)
                if e == 0:
                    del first[b]
                else:
                    first[b] = num(e)
    return tuple(sorted(((b, e) for b, e in first.items() if numval(e) is not None and b.op != "ind"), key=lambda be: (be[0].id, be[1].id)))


_SH: dict = {}


def shash(t):
    """structural key that does not depend on the names of bound/fresh variables or on creation order"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return hash(tuple(shash(x) for x in t))
        return zlib.crc32(str(t).encode())
    h = _SH.get(t)
    if h is not None:
        return h
    if t.op == "var":
        h = 17 if "!" in t.args[0] else zlib.crc32(t.args[0].encode())
    elif t.op in ("bv", "bvar"):
        h = 17
    elif t.op == "num":
        h = hash((t.args[0].numerator, t.args[0].denominator))
    else:
        h = hash((zlib.crc32(t.op.encode()), tuple(sorted(shash(x) for x in t.args))))
    _SH[t] = h
    return h


_SH2: dict = {}


def shash2(t):
    """like shash, but bound variables keep their height (only free fresh variables are anonymous)"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return hash(tuple(shash2(x) for x in t))
        return zlib.crc32(str(t).encode())
    h = _SH2.get(t)
    if h is not None:
        return h
    if t.op == "var":
        h = 17 if "!" in t.args[0] else zlib.crc32(t.args[0].encode())
    elif t.op == "num":
        h = hash((t.args[0].numerator, t.args[0].denominator))
    else:
        h = hash((zlib.crc32(t.op.encode()), tuple(sorted(shash2(x) for x in t.args))))
    _SH2[t] = h
    return h


def sign_abs(p):
    """orientation of an argument whose sign is irrelevant (recomputed whenever variables are renamed)"""
    s = sum(c for _m, c in poly_items(p))
    if s:
        return 1 if s > 0 else -1
    for sh in (shash, shash2):
        ks = {}
        for m, c in poly_items(p):
            k = sh(m)
            ks[k] = ks.get(k, 0) + c
        for k in sorted(ks):
            if ks[k]:
                return 1 if ks[k] > 0 else -1
    its = sorted(poly_items(p), key=lambda mc: _mkey(mc[0]))
    return 1 if its[0][1] > 0 else -1


def sign_rule(p):
    s = sum(c for _m, c in poly_items(p))
    if s > 0:
        return 1
    if s < 0:
        return -1
    ks = {}
    for m, c in poly_items(p):
        k = shash(m)
        ks[k] = ks.get(k, 0) + c
    for k in sorted(ks):
        if ks[k]:
            return 1 if ks[k] > 0 else -1
    its = sorted(poly_items(p), key=lambda mc: _mkey(mc[0]))
    return 1 if its[0][1] > 0 else -1


def power(b, e):
    b, e = _coerce(b), _coerce(e)
    if b.op == "ite":
        c, x, y = b.args
        return ite(c, power(x, e), power(y, e))
    if e.op == "ite":
        c, x, y = e.args
        return ite(c, power(b, x), power(b, y))
    if b.op == "special" or e.op == "special":
        ev = numval(e)
        if b is INF and ev is not None:
            return INF if ev > 0 else (ONE if ev == 0 else ZERO)
        if b is NAN or e is NAN:
            return NAN
        if ev == 1:
            return b
        return mk("app", ("pow", b, e), "R")
    ev = numval(e)
    if ev is not None:
        if ev == 0:
            return ONE
        if ev == 1:
            return b
        bvv = numval(b)
        if bvv is not None:
            if ev.denominator == 1:
                if bvv == 0 and ev < 0:
                    return mk("app", ("pow", b, e), "R")
                if abs(ev) <= 64:
                    return num(bvv ** int(ev))
            elif bvv in (0, 1):
                return b
            return from_items({((b, e),): Fraction(1)})
        integer = ev.denominator == 1
    else:
        integer = is_int_term(e)
        if b is ONE:
            return ONE
        if b.op == "num" and b.args[0].numerator == 1 and b.args[0].denominator > 1:
            return power(num(b.args[0].denominator), neg(e))
        if b.op == "num":
            return from_items({((b, e),): Fraction(1)})
    if b.op == "ind" and ev is not None and ev > 0:
        return b
    its = poly_items(b)
    if len(its) == 1:
        (m, c) = its[0]
        if c == 1 and len(m) == 1 and m[0][1] is ONE:
            return from_items({((b, e),): Fraction(1)})
        # (c * prod b_i^e_i)^e ; valid for integer e (b_i^e_i with integer e_i) or all factors positive
        ok = integer and all(is_int_term(x[1]) for x in m)
        if not ok:
            ok = c > 0 and all(_is_dist(x[0]) and numval(x[1]) is not None or PR.pos(x[0]) for x in m)
        if ok:
            r = power(num(c), e) if c != 1 else ONE
            for x, ex in m:
                r = mul(r, from_items({((x, mul(ex, e)),): Fraction(1)}) if not is_num(mul(ex, e)) or numval(mul(ex, e)) != 0 else ONE)
            return r
        return from_items({((b, e),): Fraction(1)})
    # polynomial base
    if ev is not None and integer and 0 < ev <= 4:
        r = b
        for _ in range(int(ev) - 1):
            r = mul(r, b)
        return r
    if integer:
        c = content(b)
        s = sign_rule(b)
        k = c * s
        cm = common_mono(b)
        if k != 1 or cm:
            inv = ONE
            for x, ex in cm:
                inv = mul(inv, from_items({((x, num(-numval(ex))),): Fraction(1)}))
            b2 = mul(num(1 / k), inv, b) if not cm else _div_mono(b, cm, 1 / k)
            r = mul(power(num(k), e), power(b2, e))
            for x, ex in cm:
                r = mul(r, power(from_items({((x, ex),): Fraction(1)}), e))
            return r
    else:
        cm = [(x, ex) for x, ex in common_mono(b)]
        cm = tuple((x, ex) for x, ex in cm if _is_dist(x) or PR.pos(x))
        if cm:
            r = power(_div_mono(b, cm, 1), e)
            for x, ex in cm:
                r = mul(r, power(x, mul(ex, e)))
            return r
    return from_items({((b, e),): Fraction(1)})


def _div_mono(p, cm, k):
    d = {}
    dcm = dict(cm)
    for m, c in poly_items(p):
        out = []
        for b, e in m:
            if b in dcm:
                ne = add(e, neg(dcm[b]))
                if ne is not ZERO:
                    out.append((b, ne))
            else:
                out.append((b, e))
        out.sort(key=lambda be: (be[0].id, be[1].id))
        d[tuple(out)] = d.get(tuple(out), 0) + c * k
    return from_items(d)


def _coerce(t):
    if not isinstance(t, T):
        t = num(t)
    if t.sort == "B":
        t = ind(t)
    return t


def div(a, b):
    """a / b, b known nonzero (obligation is the caller's business)"""
    return mul(a, power(b, num(-1)))


# ------------------------------------------------------------------ functions
def _prime_factors(n):
    out = {}
    p = 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def rawapp(name, *args, sort="R"):
    return mk("app", (name,) + args, sort)


def log(t):
    t = _coerce(t)
    if t.op == "ite":
        c, x, y = t.args
        return ite(c, log(x), log(y))
    if t.op == "special":
        return t if t is not NINF else NAN
    v = numval(t)
    if v is not None:
        if v <= 0:
            return NINF if v == 0 else NAN
        if v == 1:
            return ZERO
        r = ZERO
        for p, k in _prime_factors(v.numerator).items():
            r = add(r, mul(num(k), rawapp("log", num(p))))
        for p, k in _prime_factors(v.denominator).items():
            r = add(r, mul(num(-k), rawapp("log", num(p))))
        return r
    if t.op == "app" and t.args[0] == "exp":
        return t.args[1]
    if t.op == "app" and t.args[0] == "const_e":
        return ONE
    its = poly_items(t)
    if len(its) == 1:
        m, c = its[0]
        if len(m) == 1 and m[0][1] is ONE and c == 1:
            return rawapp("log", t)
        pos = []
        rest = []
        sgn = c
        for b, e in m:
            if not PR.pos(b) and b.op == "poly" and numval(e) is not None and numval(e).denominator == 1 and PR.pos(neg(b)):
                pos.append((neg(b), e))
                if int(numval(e)) % 2:
                    sgn = -sgn
                continue
            (pos if PR.pos(b) else rest).append((b, e))
        if sgn > 0:
            r = log(num(sgn))
        else:
            r = log(num(-sgn))
            rest.append((num(-1), ONE))
        for b, e in pos:
            if b.op == "app" and b.args[0] in ("exp", "const_e"):
                r = add(r, mul(e, log(b)))
                continue
            r = add(r, mul(e, log(b) if b.op == "num" or b.op == "poly" else rawapp("log", b)))
        if rest:
            x = ONE
            for b, e in rest:
                x = mul(x, power(b, e))
            r = add(r, rawapp("log", x))
        return r
    c = content(t)
    cm, lg, sg = [], [], 1
    for b, e in common_mono(t):
        if PR.pos(b):
            cm.append((b, e))
            lg.append((b, e))
        elif b.op == "poly" and numval(e) is not None and numval(e).denominator == 1 and PR.pos(neg(b)):
            cm.append((b, e))
            lg.append((neg(b), e))
            sg *= -1 if int(numval(e)) % 2 else 1
    cm = tuple(cm)
    if c != 1 or cm:
        b2 = _div_mono(t, cm, sg / c)
        r = log(num(c))
        for b, e in lg:
            r = add(r, mul(e, log(b)))
        return add(r, log(b2) if b2 is not t else rawapp("log", t))
    pw = _perfect_power(t)
    if pw is not None:
        return mul(num(pw[1]), log(pw[0]))
    return rawapp("log", t)


def _perfect_power(t):
    """t = l**d for a positive linear polynomial l in one atom"""
    its = poly_items(t)
    if not 3 <= len(its) <= 6:
        return None
    b, co = None, {}
    for m, c in its:
        if not m:
            co[0] = c
            continue
        if len(m) != 1 or (b is not None and m[0][0] is not b):
            return None
        b = m[0][0]
        e = numval(m[0][1])
        if e is None or e.denominator != 1 or e < 1:
            return None
        co[int(e)] = c
    d = max(co)
    if d != len(its) - 1 or co[d] != 1 or d < 2:
        return None
    l = add(b, num(co[d - 1] / d))
    if power(l, num(d)) is not t and sub(_expand_pow(l, d), t) is not ZERO:
        return None
    return (l, d) if PR.pos(l) else None


def _expand_pow(l, d):
    r = ONE
    for _ in range(d):
        r = mul(r, l)
    return r


def fn(name, *args, sort="R"):
    """uninterpreted (or lightly interpreted) function application, lifted over ite"""
    args = tuple(_coerce(a) if a.sort == "B" else a for a in args)
    for i, a in enumerate(args):
        if a.op == "ite":
            c, x, y = a.args
            return ite(c, fn(name, *args[:i], x, *args[i + 1:], sort=sort), fn(name, *args[:i], y, *args[i + 1:], sort=sort))
    if name == "log":
        return log(args[0])
    if name in ("digamma", "gamma", "loggamma", "exp", "sin", "cos") and args[0].op == "special":
        if args[0] is NAN:
            return NAN
    if name == "exp":
        a = args[0]
        if a is ZERO:
            return ONE
        its = poly_items(a)
        # exp(log x * c) = x^c
        if len(its) == 1:
            m, c = its[0]
            if len(m) == 1 and m[0][1] is ONE and m[0][0].op == "app" and m[0][0].args[0] == "log" and PR.pos(m[0][0].args[1]):
                return power(m[0][0].args[1], num(c))
    if name == "gamma":
        v = numval(args[0])
        if v is not None and v.denominator == 1 and 1 <= v <= 30:
            from math import factorial
            return num(factorial(int(v) - 1))
        if v is not None and v.denominator == 2 and 0 < v <= 20:
            from math import factorial
            h = int(v - Fraction(1, 2))
            return mul(num(Fraction(factorial(2 * h), 4 ** h * factorial(h))), power(fn("const_pi"), num(Fraction(1, 2))))
    if name == "fact":
        v = numval(args[0])
        if v is not None and v.denominator == 1 and 0 <= v <= 40:
            from math import factorial
            return num(factorial(int(v)))
    if name == "norm":
        p, cs = args[0], [a for a in args[1:] if a is not ZERO and not (a.op == "fam" and open_(a, fresh("m"))[0] is ZERO)]
        if not cs:
            return ZERO
        if len(cs) == 1 and cs[0].op != "fam":
            return fn("abs", cs[0])
        return rawapp("norm", p, *sorted(cs, key=lambda t: t.id), sort="R")
    if name == "abs":
        if _vanishes(args[0]):
            return ZERO
        v = numval(args[0])
        if v is not None:
            return num(abs(v))
        if PR.nonneg(args[0]):
            return args[0]
        if PR.nonneg(neg(args[0])):
            return neg(args[0])
        return rawapp("abs", args[0] if sign_abs(args[0]) > 0 else neg(args[0]), sort="I" if is_int_term(args[0]) else "R")
    if name == "floor":
        if is_int_term(args[0]):
            return args[0]
        v = numval(args[0])
        if v is not None:
            return num(v.numerator // v.denominator)
        return rawapp("floor", args[0], sort="I")
    if name == "trunc":
        if is_int_term(args[0]):
            return args[0]
        v = numval(args[0])
        if v is not None:
            return num(int(v))
        return rawapp("trunc", args[0], sort="I")
    if name in ("max", "min"):
        a, b = args
        if a is b:
            return a
        if a.op == "special" or b.op == "special":
            o, s = (b, a) if a.op == "special" else (a, b)
            if s is INF:
                return INF if name == "max" else o
            if s is NINF:
                return o if name == "max" else NINF
            return NAN
        d = PR.decide(ge(a, b))
        if d is True:
            return a if name == "max" else b
        if PR.decide(ge(b, a)) is True:
            return b if name == "max" else a
        a, b = sorted((a, b), key=lambda x: x.id)
        return rawapp(name, a, b, sort="I" if is_int_term(a) and is_int_term(b) else "R")
    return rawapp(name, *args, sort=sort)


def idiv(a, b):
    if is_num(a) and is_num(b):
        return num((a.args[0] / b.args[0]).__floor__())
    if b is ONE:
        return a
    if a.op == "ite" or b.op == "ite":
        return _lift2(idiv, a, b)
    # (q*b + r) // b = q + r//b   for monomials divisible by b
    its = poly_items(a)
    bi = poly_items(b)
    if len(bi) == 1 and bi[0][0]:
        q, r = {}, {}
        bm = dict(bi[0][0])
        for m, c in its:
            dm = dict(m)
            ok = all(x in dm and numval(dm[x]) is not None and numval(dm[x]) >= numval(e) for x, e in bm.items() if numval(e) is not None) and (c / bi[0][1]).denominator == 1
            if ok and all(is_int_term(x) for x in dm):
                out = []
                for x, e in m:
                    ne = sub(e, bm[x]) if x in bm else e
                    if ne is not ZERO:
                        out.append((x, ne))
                q[tuple(out)] = q.get(tuple(out), 0) + c / bi[0][1]
            else:
                r[m] = r.get(m, 0) + c
        if q:
            qt, rt = from_items(q), from_items(r)
            return add(qt, idiv(rt, b) if rt is not ZERO else ZERO)
    if PR.decide(and_(ge(a, ZERO), lt(a, b))) is True:
        return ZERO
    if PR.decide(and_(lt(a, ZERO), ge(add(a, b), ZERO))) is True:
        return num(-1)
    return rawapp("idiv", a, b, sort="I")


def mod(a, b):
    return sub(a, mul(b, idiv(a, b)))


# ------------------------------------------------------------------ booleans
def boolconst(b):
    return TRUE if b else FALSE


def _cmp_special(a, b, op):
    order = {NINF: -1, INF: 1}
    if a is NAN or b is NAN:
        return FALSE
    va = order.get(a, 0)
    vb = order.get(b, 0)
    if op == "eq":
        return boolconst(a is b)
    if op == "ge":
        return boolconst(va >= vb)
    return boolconst(va > vb)


def eq(a, b):
    a, b = _coerce(a) if a.sort == "B" and b.sort != "B" else a, b
    if a.sort == "B" and b.sort == "B":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if b.sort == "B":
        b = ind(b)
    if a is b:
        return FALSE if a is NAN else TRUE
    if a.op == "ite" or b.op == "ite":
        return _liftb(eq, a, b)
    if a.op == "special" or b.op == "special":
        return _cmp_special(a, b, "eq")
    if a.op == "fam" and b.op == "fam":
        return forall_eq_fam(a, b)
    if a.op == "app" and b.op == "app" and a.args[0] == b.args[0] == "cls" and a.args[1] is b.args[1]:
        return and_(*[eq(x, y) for x, y in zip(a.args[2:], b.args[2:])])
    return eq0(sub(a, b))


def forall_eq_fam(a, b):
    if a.args[1] is not b.args[1]:
        return mk("bapp", ("fameq",) + tuple(sorted((a, b), key=lambda x: x.id)), "B")
    v = fresh("m", "I", a.args[1])
    return mk_forall(v, a.args[1], eq(open_(a, v)[0], open_(b, v)[0]))


def eq0(p):
    if _vanishes(p):
        return TRUE
    v = numval(p)
    if v is not None:
        return boolconst(v == 0)
    # difference of two cls of the same partition
    its = poly_items(p)
    if len(its) == 2:
        (m1, c1), (m2, c2) = its
        if c1 == -c2 and len(m1) == 1 and len(m2) == 1 and m1[0][1] is ONE and m2[0][1] is ONE:
            a, b = m1[0][0], m2[0][0]
            if a.op == "app" and b.op == "app" and a.args[0] == b.args[0] == "cls" and a.args[1] is b.args[1]:
                return and_(*[eq(x, y) for x, y in zip(a.args[2:], b.args[2:])])
    c = content(p)
    s = sign_abs(p)
    p = mul(num(s / c), p)
    its = poly_items(p)
    if len(its) == 1:
        m, c = its[0]
        if len(m) == 1 and m[0][0].op == "ind" :
            return not_(m[0][0].args[0])
        rest = [(b, e) for b, e in m if not PR.pos(b)]
        if not rest:
            return FALSE
        if len(rest) < len(m):
            return eq0(from_factors(rest))
        if len(m) > 1 and all(numval(e) is not None and numval(e) > 0 for _, e in m):
            return or_(*[eq0(b) for b, _ in m])
    if len(its) > 1:
        cm = tuple((b, e) for b, e in common_mono(p) if PR.nonzero(b))
        if cm:
            return eq0(_div_mono(p, cm, 1))
        pw = _perfect_power(p)
        if pw is not None:
            return FALSE
    # p = ind - 1
    if len(its) == 2:
        d = dict(its)
        k = d.get((), None)
        if k is not None:
            other = [m for m in d if m != ()][0]
            if len(other) == 1 and other[0][0].op == "ind" and other[0][1] is ONE:
                if d[other] == -k:
                    return other[0][0].args[0]
                return FALSE
    if is_int_term(p):
        # gcd test: integer-coefficient p with constant not divisible
        g = 0
        k = Fraction(0)
        for m, c in poly_items(p):
            if m == ():
                k = c
            else:
                g = gcd(g, int(c))
        if g and k % g != 0:
            return FALSE
    return mk("eq0", (p,), "B")


def ge(a, b):
    a, b = _coerce(a), _coerce(b)
    if a.op == "ite" or b.op == "ite":
        return _liftb(ge, a, b)
    if a.op == "special" or b.op == "special":
        return _cmp_special(a, b, "ge")
    return ge0(sub(a, b))


def gt(a, b):
    a, b = _coerce(a), _coerce(b)
    if a.op == "ite" or b.op == "ite":
        return _liftb(gt, a, b)
    if a.op == "special" or b.op == "special":
        return _cmp_special(a, b, "gt")
    return gt0(sub(a, b))


def le(a, b):
    return ge(b, a)


def lt(a, b):
    return gt(b, a)


def _liftb(f, a, b):
    if a.op == "ite":
        c, x, y = a.args
        return or_(and_(c, f(x, b)), and_(not_(c), f(y, b)))
    c, x, y = b.args
    return or_(and_(c, f(a, x)), and_(not_(c), f(a, y)))


VANISH = None


def _vanishes(p):
    """p is a rational expression whose common-denominator form is 0"""
    if p.op != "poly" or VANISH is None or len(p.args) < 2:
        return False
    if not any(b.op == "poly" and numval(e) is not None and numval(e) < 0 for m, _c in p.args for b, e in m):
        return False
    return VANISH(p)


def _nn_atom(p):
    """sign of c if p is c times a nonnegative distance-like atom, else None; and the atom"""
    its = p.args if p.op == "poly" else (poly_items(p) if p.op == "app" else ())
    if len(its) == 1 and len(its[0][0]) == 1 and its[0][0][0][1] is ONE:
        a = its[0][0][0][0]
        if _is_dist(a):
            return (1 if its[0][1] > 0 else -1), a
    return None, None


def _is_dist(a):
    return a.op == "app" and a.args[0] in ("kth", "norm") and PR._sign(a) == 0


def _factor_sign(p, strict):
    """sign condition of a sum with a common distance factor: distance * rest (> or >=) 0"""
    if p.op != "poly":
        return None
    cm = common_mono(p)
    if len(p.args) == 1 and len(p.args[0][0]) > 1:
        # drop the positive factors of a product
        m, c = p.args[0]
        rest = tuple((x, e) for x, e in m if not PR.pos(x))
        if len(rest) < len(m) and not any(_is_dist(x) for x, _ in rest):
            if not rest:
                return boolconst(c > 0)
            q = from_items({rest: Fraction(1 if c > 0 else -1)})
            return gt0(q) if strict else ge0(q)
    ds = [x for x, e in cm if _is_dist(x)]
    if not ds or len(p.args) == 1 and len(p.args[0][0]) == 1 and p.args[0][0][0][1] is ONE:
        return None
    cm = tuple((x, e) for x, e in cm if _is_dist(x) or PR.pos(x))
    rest = _div_mono(p, cm, 1)
    z = [mk("eq0", (x,), "B") for x in ds]
    return and_(gt0(rest), *[not_(c) for c in z]) if strict else or_(ge0(rest), *z)


def ge0(p):
    if _vanishes(p):
        return TRUE
    r = _factor_sign(p, False)
    if r is not None:
        return r
    sg, a = _nn_atom(p)
    if sg:
        return TRUE if sg > 0 else mk("eq0", (a,), "B")
    v = numval(p)
    if v is not None:
        return boolconst(v >= 0)
    p = mul(num(1 / content(p)), p)
    if is_int_term(p):
        # tighten:  g*q + k >= 0  ->  q + floor(k/g) >= 0
        g = 0
        k = Fraction(0)
        for m, c in poly_items(p):
            if m == ():
                k = c
            else:
                g = gcd(g, int(c))
        if g > 1:
            q = mul(num(Fraction(1, g)), sub(p, num(k)))
            return mk("ge0", (add(q, num((k / g).__floor__())),), "B")
    r = _ind_cmp(p, False)
    if r is not None:
        return r
    return mk("ge0", (p,), "B")


def _ind_cmp(p, strict):
    its = dict(poly_items(p))
    k = its.pop((), Fraction(0))
    if len(its) == 1:
        (m, c), = its.items()
        if len(m) == 1 and m[0][0].op == "ind" and m[0][1] is ONE:
            b = m[0][0].args[0]
            t1 = (k + c > 0) if strict else (k + c >= 0)
            t0 = (k > 0) if strict else (k >= 0)
            if t1 and t0:
                return TRUE
            if t1:
                return b
            if t0:
                return not_(b)
            return FALSE
    return None


def gt0(p):
    if _vanishes(p):
        return FALSE
    r = _factor_sign(p, True)
    if r is not None:
        return r
    sg, a = _nn_atom(p)
    if sg:
        return not_(mk("eq0", (a,), "B")) if sg > 0 else FALSE
    v = numval(p)
    if v is not None:
        return boolconst(v > 0)
    if is_int_term(p):
        return ge0(sub(p, ONE))
    p = mul(num(1 / content(p)), p)
    r = _ind_cmp(p, True)
    if r is not None:
        return r
    return mk("gt0", (p,), "B")


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "ge0":
        return gt0(neg(b.args[0]))
    if b.op == "gt0":
        return ge0(neg(b.args[0]))
    if b.op == "and":
        return or_(*[not_(x) for x in b.args])
    if b.op == "or":
        return and_(*[not_(x) for x in b.args])
    return mk("not", (b,), "B")


def and_(*bs):
    s = {}
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        for x in (b.args if b.op == "and" else (b,)):
            s[x] = 1
    for x in s:
        if not_(x) in s:
            return FALSE
    l = sorted(s, key=lambda x: x.id)
    if not l:
        return TRUE
    if len(l) == 1:
        return l[0]
    return mk("and", tuple(l), "B")


def or_(*bs):
    s = {}
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        for x in (b.args if b.op == "or" else (b,)):
            s[x] = 1
    for x in s:
        if not_(x) in s:
            return TRUE
    l = sorted(s, key=lambda x: x.id)
    if not l:
        return FALSE
    if len(l) == 1:
        return l[0]
    return mk("or", tuple(l), "B")


def _orient(p):
    """preferred orientation of a comparison under an indicator: distances get a negative coefficient"""
    neg_, pos_ = False, False
    for m, c in poly_items(p):
        for x, _e in m:
            if x.op == "app" and x.args[0] in ("norm", "abs"):
                if c < 0:
                    neg_ = True
                else:
                    pos_ = True
    if neg_ != pos_:
        return 1 if neg_ else -1
    return sign_rule(p)


def ind(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.op == "and":
        r = ONE
        for x in b.args:
            r = mul(r, ind(x))
        return r
    if b.op == "or":
        r = ONE
        for x in b.args:
            r = mul(r, sub(ONE, ind(x)))
        return sub(ONE, r)
    if b.op == "not":
        return sub(ONE, ind(b.args[0]))
    if b.op in ("ge0", "gt0"):
        # canonical orientation: [p>=0] = 1 - [ -p > 0 ]
        n = not_(b)
        if n.op in ("ge0", "gt0"):
            o, o2 = _orient(b.args[0]), _orient(n.args[0])
            if o < 0 and o2 > 0:
                return sub(ONE, mk("ind", (n,), "I"))
    return mk("ind", (b,), "I")


def _has_special(t):
    return t.op in ("special", "ite")


def _excl(c, z):
    """c: X >= 1 (X > 0) excludes z: X == 0"""
    if z.op != "eq0" or c.op not in ("ge0", "gt0"):
        return False
    x = z.args[0]
    return c.args[0] is (sub(x, ONE) if c.op == "ge0" else x)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B" and b.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    a, b = _coerce(a), _coerce(b)
    if _has_special(a) or _has_special(b) or a.op == "fam" or b.op == "fam":
        # flatten same-condition nesting
        if a.op == "ite" and a.args[0] is c:
            a = a.args[1]
        if b.op == "ite" and b.args[0] is c:
            b = b.args[2]
        if a.op == "ite" and _excl(c, a.args[0]):
            a = a.args[2]
        if a is b:
            return a
        if _has_special(a) or _has_special(b) or a.op == "fam" or b.op == "fam":
            return mk("ite", (c, a, b), "R")
    i = ind(c)
    return add(b, mul(i, sub(a, b)))


# ------------------------------------------------------------------ traversal
def contains(t, x):
    if t is x:
        return True
    if x.fv and not (x.fv <= t.fv):
        return False
    if t.op == "poly":
        return any(contains(b, x) or contains(e, x) for m, _ in t.args for b, e in m)
    return any(isinstance(a, T) and contains(a, x) for a in t.args)


def atoms(t, pred, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if t in seen:
        return out
    seen.add(t)
    if pred(t):
        out.append(t)
    if t.op == "poly":
        for m, _ in t.args:
            for b, e in m:
                atoms(b, pred, out, seen)
                atoms(e, pred, out, seen)
    else:
        for a in t.args:
            if isinstance(a, T):
                atoms(a, pred, out, seen)
    return out


def rebuild(t, f):
    """apply f to immediate sub-terms and rebuild with normalisation"""
    op = t.op
    if op in ("num", "var", "bv", "true", "false", "special"):
        return t
    if op == "poly":
        parts = []
        for m, c in t.args:
            r = num(c)
            for b, e in m:
                r = mul(r, power(f(b), f(e)))
            parts.append(r)
        return add(*parts)
    if op == "app":
        args = [f(a) for a in t.args[1:]]
        return mk_app(t.args[0], args, t.sort)
    if op == "bapp":
        return mk_bapp(t.args[0], [f(a) if isinstance(a, T) else a for a in t.args[1:]])
    if op == "ite":
        return ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if op == "eq0":
        return eq0(f(t.args[0]))
    if op == "ge0":
        return ge0(f(t.args[0]))
    if op == "gt0":
        return gt0(f(t.args[0]))
    if op == "and":
        return and_(*[f(a) for a in t.args])
    if op == "or":
        return or_(*[f(a) for a in t.args])
    if op == "not":
        return not_(f(t.args[0]))
    if op == "ind":
        return ind(f(t.args[0]))
    if op in BINDERS:
        hi = f(t.args[1])
        v = fresh("b", "I", hi)
        bodies = [f(x) for x in open_(t, v)]
        return mk_binder(op, t.args[0], v, hi, bodies)
    raise AssertionError(op)


def mk_app(name, args, sort="R"):
    if name == "cls":
        return mk_cls(args[0], args[1:])
    if name == "rep":
        return mk_rep(args[0], args[1])
    if name == "idiv":
        return idiv(*args)
    return APP_HOOKS[name](*args) if name in APP_HOOKS else fn(name, *args, sort=sort)


APP_HOOKS: dict = {}


def mk_bapp(name, args):
    return mk("bapp", (name,) + tuple(args), "B")


def mk_binder(op, tag, v, hi, bodies):
    if op == "sum":
        return mk_sum(v, hi, bodies[0])
    if op == "prod":
        return mk_prod(v, hi, bodies[0])
    if op == "forall":
        return mk_forall(v, hi, bodies[0])
    if op == "part":
        return mk_part(v, hi, bodies)
    if op in ("fam", "maxof", "minof", "lam"):
        return _close(op, tag, v, hi, bodies)
    raise AssertionError(op)


def subst(t, m):
    """capture-free substitution of free vars, renormalising"""
    m = {k: v for k, v in m.items() if k is not v}
    if not m:
        return t
    keys = frozenset(m)
    memo = {}

    def go(x):
        if not (x.fv & keys):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, go)
        return r

    return go(t)


def replace(t, m):
    """replace arbitrary sub-terms (not only vars)"""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            if not any(contains(x, k) for k in m):
                r = x
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


def _rename(t, a, b):
    """raw injective rename of leaf a by leaf b (no deep simplification)"""
    memo = {}

    def go(x):
        if x is a:
            return b
        if a.op == "var" and a not in x.fv:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        op = x.op
        if op in ("num", "var", "bv", "true", "false", "special"):
            r = x
        elif op == "poly":
            d = {}
            extra = []
            for m, c in x.args:
                out = []
                k = c
                for bb, e in m:
                    nb, ne = go(bb), go(e)
                    if nb.op == "poly" and numval(ne) is not None and numval(ne) < 0 and sign_rule(nb) < 0:
                        nb = neg(nb)
                        if numval(ne).denominator == 1 and int(numval(ne)) % 2:
                            k = -k
                    out.append((nb, ne))
                out.sort(key=lambda be: (be[0].id, be[1].id))
                d[tuple(out)] = d.get(tuple(out), 0) + k
            r = from_items(d)
        elif op == "eq0":
            p = go(x.args[0])
            if sign_abs(p) < 0:
                p = neg(p)
            r = mk("eq0", (p,), "B")
        elif op in ("and", "or"):
            r = mk(op, tuple(sorted((go(y) for y in x.args), key=lambda y: y.id)), "B")
        elif op == "part":
            r = mk(op, x.args[:2][:1] + (go(x.args[1]),) + tuple(sorted((go(y) for y in x.args[2:]), key=lambda y: y.id)), x.sort)
        elif op == "app" and x.args[0] in ("max", "min"):
            r = mk(op, (x.args[0],) + tuple(sorted((go(y) for y in x.args[1:]), key=lambda y: y.id)), x.sort)
        elif op == "app" and x.args[0] == "norm":
            r = mk(op, ("norm", go(x.args[1])) + tuple(sorted((go(y) for y in x.args[2:]), key=lambda y: y.id)), x.sort)
        elif op == "app" and x.args[0] == "abs":
            y = go(x.args[1])
            r = mk(op, ("abs", y if sign_abs(y) > 0 else neg(y)), x.sort)
        else:
            r = mk(op, tuple(go(y) if isinstance(y, T) else y for y in x.args), x.sort)
        memo[x] = r
        return r

    return go(t)


def _close(op, tag, v, hi, bodies, sort="R"):
    h = max([b.h for b in bodies] + [hi.h]) + 1
    bvt = mk("bv", (h,), v.sort)
    nb = [_rename(b, v, bvt) for b in bodies]
    return _mkbinder_raw(op, tag, hi, nb, sort, h)


def _mkbinder_raw(op, tag, hi, bodies, sort, h):
    t = mk(op, (tag, hi) + tuple(bodies), sort)
    if t.h != h:
        # heights of the raw-renamed bodies may have dropped: re-close with the right height
        old = mk("bv", (h,), "I")
        bvt = mk("bv", (t.h,), "I")
        if old is not bvt:
            t2 = mk(op, (tag, hi) + tuple(_rename(b, old, bvt) for b in bodies), sort)
            t2.h = t.h
            return t2
    return t


def open_(t, v):
    """bodies of binder t with bound var replaced by var v"""
    bvt = mk("bv", (t.h,), "I")
    return [_rename_bv(b, bvt, v) for b in t.args[2:]]


def _rename_bv(t, bvt, v):
    memo = {}

    def go(x):
        if x is bvt:
            return v
        if x.op in ("num", "var", "bv", "true", "false", "special"):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        op = x.op
        if op == "poly":
            d = {}
            for m, c in x.args:
                out = []
                k = c
                for bb, e in m:
                    nb, ne = go(bb), go(e)
                    if nb.op == "poly" and numval(ne) is not None and numval(ne) < 0 and sign_rule(nb) < 0:
                        nb = neg(nb)
                        if numval(ne).denominator == 1 and int(numval(ne)) % 2:
                            k = -k
                    out.append((nb, ne))
                out.sort(key=lambda be: (be[0].id, be[1].id))
                d[tuple(out)] = d.get(tuple(out), 0) + k
            r = from_items(d)
        elif op == "eq0":
            p = go(x.args[0])
            if sign_abs(p) < 0:
                p = neg(p)
            r = mk("eq0", (p,), "B")
        elif op in ("and", "or"):
            r = mk(op, tuple(sorted((go(y) for y in x.args), key=lambda y: y.id)), "B")
        elif op == "part":
            r = mk(op, (x.args[0], go(x.args[1])) + tuple(sorted((go(y) for y in x.args[2:]), key=lambda y: y.id)), x.sort)
        elif op == "app" and x.args[0] in ("max", "min"):
            r = mk(op, (x.args[0],) + tuple(sorted((go(y) for y in x.args[1:]), key=lambda y: y.id)), x.sort)
        elif op == "app" and x.args[0] == "norm":
            r = mk(op, ("norm", go(x.args[1])) + tuple(sorted((go(y) for y in x.args[2:]), key=lambda y: y.id)), x.sort)
        elif op == "app" and x.args[0] == "abs":
            y = go(x.args[1])
            r = mk(op, ("abs", y if sign_abs(y) > 0 else neg(y)), x.sort)
        else:
            r = mk(op, tuple(go(y) if isinstance(y, T) else y for y in x.args), x.sort)
        memo[x] = r
        return r

    return go(t)


# ------------------------------------------------------------------ sums
def split_on(t, v):
    """items of poly t as (coef, [factors without v], [factors with v])"""
    for m, c in poly_items(t):
        wo, wi = [], []
        for b, e in m:
            (wi if (v in b.fv or v in e.fv) else wo).append((b, e))
        yield c, wo, wi


def from_factors(fs):
    r = ONE
    for b, e in fs:
        r = mul(r, power(b, e))
    return r


def mk_sum(v, hi, body):
    """Sum_{v=0}^{hi-1} body"""
    body = _coerce(body)
    if hi is ZERO:
        return ZERO
    if hi.op == "num" and hi.args[0] <= 3 and hi.args[0] >= 0 and hi.args[0].denominator == 1:
        return add(ZERO, *[subst(body, {v: num(i)}) for i in range(int(hi.args[0]))])
    if body.op == "ite" or _has_special(body):
        if body.op == "special":
            return body
        # sum of conditional special values: keep opaque
        return _close("sum", "", v, hi, [body])
    RANGE.setdefault(v, hi)
    # special axis: classes of a partition  ->  samples
    if hi.op == "app" and hi.args[0] == "nuniq" and v in body.fv:
        r = _sum_classes(v, hi, body)
        if r is not None:
            return r
    out = []
    inner: dict = {}
    for c, wo, wi in split_on(body, v):
        k = mul(num(c), from_factors(wo)) if wo else num(c)
        if not wi:
            h = hi if PR.nonneg(hi) else fn("max", hi, ZERO)
            out.append(mul(k, h))
            continue
        w = tuple(sorted(wi, key=lambda be: (be[0].id, be[1].id)))
        inner[w] = add(inner.get(w, ZERO), k)
    for w, k in inner.items():
        if k is ZERO:
            continue
        out.append(mul(k, _sum_mono(v, hi, w)))
    return add(ZERO, *out)


def _sum_mono(v, hi, w):
    """sum of one monomial, all factors depend on v"""
    inds = [(b, e) for b, e in w if b.op == "ind"]
    if inds:
        rng = [ge(v, ZERO), lt(v, hi)]
        for b, e in inds:
            c = b.args[0]
            # delta
            if c.op == "eq0":
                s = _solve_var(c.args[0], v)
                if s is not None and v not in s.fv and is_int_term(s):
                    rest = from_factors([x for x in w if x[0] is not b])
                    return mul(ind(and_(ge(s, ZERO), lt(s, hi))), subst(rest, {v: s}))
            others = [x[0].args[0] for x in inds if x[0] is not b]
            d = PR.decide(c, rng + others)
            if d is True:
                rest = from_factors([x for x in w if x[0] is not b])
                return mk_sum(v, hi, rest)
            if d is False:
                return ZERO
            if c.op == "ge0":
                sl = _lin_coef(c.args[0], v)
                if sl is not None:
                    a, k = sl  # a*v + k >= 0
                    rest = from_factors([x for x in w if x[0] is not b])
                    if a == 1 and is_int_term(k):
                        lo = neg(k)  # v >= lo
                        if PR.decide(and_(ge(lo, ZERO), le(lo, hi))) is True:
                            v2 = fresh("b", "I", sub(hi, lo))
                            return mk_sum(v2, sub(hi, lo), subst(rest, {v: add(v2, lo)}))
                    if a == -1 and is_int_term(k):
                        m = add(k, ONE)  # v <= k  -> v < k+1
                        if PR.decide(and_(ge(m, ZERO), le(m, hi))) is True:
                            v2 = fresh("b", "I", m)
                            return mk_sum(v2, m, subst(rest, {v: v2}))
    body = from_factors(w)
    # simplify conditions nested inside, using the range and the sibling indicators
    sb = PR.simplify_in(body, [ge(v, ZERO), lt(v, hi)] + [b.args[0] for b, e in inds], skip=set(b for b, e in inds))
    if sb is not body:
        return mk_sum(v, hi, sb)
    its = poly_items(body)
    if len(its) != 1 or its[0][1] != 1:
        return mk_sum(v, hi, body)
    for q, (b, e) in enumerate(w):
        if b.op == "sum" and e is ONE:
            r = _exchange(v, hi, b, from_factors(w[:q] + w[q + 1:]))
            if r is not None:
                return r
    if len(w) == 1 and w[0][0].op == "sum" and numval(w[0][1]) == -1 and w[0][0].args[1] is hi:
        r = _inverse_class_size(v, hi, w[0][0])
        if r is not None:
            return r
    return _close("sum", "", v, hi, [body], "I" if is_int_term(body) else "R")


def _exchange(v, hi, inner, rest):
    """Sum_v rest(v) * Sum_i body(i, v) = Sum_i Sum_v ...  when every term of the body fixes v by an equation in i"""
    if v in inner.args[1].fv:
        return None
    i = fresh("i", "I", inner.args[1])
    b = open_(inner, i)[0]
    for m, c in poly_items(b):
        ok = False
        for x, e in m:
            if x.op == "ind" and x.args[0].op == "eq0" and i in x.fv:
                s = _solve_var(x.args[0].args[0], v)
                if s is not None and v not in s.fv and i in s.fv and is_int_term(s):
                    ok = True
        if not ok:
            return None
    return mk_sum(i, inner.args[1], mk_sum(v, hi, mul(rest, b)))


def _inverse_class_size(v, hi, c):
    """sum_i 1/#{j: key(j)=key(i)}  =  number of distinct keys"""
    j = fresh("j", "I", hi)
    b = open_(c, j)[0]
    its = poly_items(b)
    if len(its) != 1 or its[0][1] != 1:
        return None
    comps = []
    for x, e in its[0][0]:
        if x.op != "ind" or x.args[0].op != "eq0":
            return None
        mine, other = {}, {}
        for m, k in poly_items(x.args[0].args[0]):
            hv, hj = any(v in y.fv for y, _ in m), any(j in y.fv for y, _ in m)
            if hj and not hv:
                mine[m] = k
            elif hv and not hj:
                other[m] = k
            else:
                return None
        f, g = from_items(mine), from_items(other)
        if not f.fv or add(subst(f, {j: v}), g) is not ZERO:
            return None
        comps.append(f)
    S = mk_part(j, hi, comps)
    return nuniq(S)


def _solve_var(p, v):
    s = _lin_coef(p, v)
    if s is None:
        return None
    a, k = s
    if abs(a) != 1:
        return None
    return mul(num(-1 / a), k)


def _lin_coef(p, v):
    """p = a*v + k with numeric a"""
    a = Fraction(0)
    rest = {}
    for m, c in poly_items(p):
        if any(v in b.fv or v in e.fv for b, e in m):
            if len(m) == 1 and m[0][0] is v and m[0][1] is ONE:
                a += c
            else:
                return None
        else:
            rest[m] = c
    if a == 0:
        return None
    return a, from_items(rest)


def lin_coef_term(p, v):
    """p = a*v + k with term a not containing v"""
    a = {}
    rest = {}
    for m, c in poly_items(p):
        if any(v in b.fv or v in e.fv for b, e in m):
            d = dict(m)
            if d.get(v) is not ONE:
                return None
            del d[v]
            if any(v in b.fv or v in e.fv for b, e in d.items()):
                return None
            mm = tuple(sorted(d.items(), key=lambda be: (be[0].id, be[1].id)))
            a[mm] = a.get(mm, 0) + c
        else:
            rest[m] = c
    return from_items(a), from_items(rest)


def mk_prod(v, hi, body):
    if hi is ZERO:
        return ONE
    if hi.op == "num" and 0 <= hi.args[0] <= 3:
        r = ONE
        for i in range(int(hi.args[0])):
            r = mul(r, subst(body, {v: num(i)}))
        return r
    RANGE.setdefault(v, hi)
    if v not in body.fv:
        return power(body, hi)
    body = PR.simplify_in(body, [ge(v, ZERO), lt(v, hi)])
    if v not in body.fv:
        return power(body, hi)
    return _close("prod", "", v, hi, [body])


def mk_forall(v, hi, body):
    if body is TRUE:
        return TRUE
    if v not in body.fv:
        return or_(eq(hi, ZERO), body)
    RANGE.setdefault(v, hi)
    if PR.decide(body, [ge(v, ZERO), lt(v, hi)]) is True:
        return TRUE
    if body.op == "and":
        return and_(*[mk_forall(v, hi, b) for b in body.args])
    return _close("forall", "", v, hi, [body], "B")


def mk_fam(v, hi, body):
    return _close("fam", "", v, hi, [body])


def mk_lam(v, hi, body):
    return _close("lam", "", v, hi, [body])


# ------------------------------------------------------------------ partitions
def mk_part(v, n, comps):
    """equivalence classes of range(n) under equality of all comps(v)"""
    flat = []

    def put(c):
        if c.op == "app" and c.args[0] == "cls":
            for x in c.args[2:]:
                put(x)
        else:
            flat.append(c)

    for c in comps:
        put(c)
    seen = []
    for c in flat:
        # classes are unchanged by shifting and (non-zero) scaling of a component
        its = [(m, k) for m, k in poly_items(c) if any(v in y.fv or v in e.fv for y, e in m)] if not is_special(c) and c.op not in ("ite",) else []
        if its:
            if len(its) == 1:
                c = from_items({its[0][0]: Fraction(1)})
            elif len(its) < len(poly_items(c)):
                c = from_items(dict(its))
        if c not in seen and v in c.fv:
            seen.append(c)
    h = max([b.h for b in seen] + [n.h, 0]) + 1
    bvt = mk("bv", (h,), "I")
    nb = sorted((_rename(b, v, bvt) for b in seen), key=lambda x: x.id)
    t = mk("part", ("", n) + tuple(nb), "S")
    if t.h != h:
        b2 = mk("bv", (t.h,), "I")
        t = mk("part", ("", n) + tuple(sorted((_rename(b, bvt, b2) for b in nb), key=lambda x: x.id)), "S")
    return t


def part_comps(S, i):
    """component values of sample index term i, in partition order"""
    if i.op == "var":
        return open_(S, i)
    v = fresh("p", "I", S.args[1])
    return [subst(b, {v: i}) for b in open_(S, v)]


def mk_cls(S, vals):
    vals = list(vals)
    if len(S.args) == 2:
        return ZERO
    # cls_S(comps(rep_S(k))) = k
    reps = atoms(vals[0], lambda t: t.op == "app" and t.args[0] == "rep" and t.args[1] is S) if vals else []
    for r in reps:
        if all(a is b for a, b in zip(part_comps(S, r), vals)):
            return r.args[2]
    return mk("app", ("cls", S) + tuple(vals), "I")


def mk_rep(S, k):
    if len(S.args) == 2:
        return ZERO
    return mk("app", ("rep", S, k), "I")


def nuniq(S):
    if len(S.args) == 2:
        n = S.args[1]
        return ONE if PR.pos(n) else ind(gt(n, ZERO))
    return mk("app", ("nuniq", S), "I")


def cls_of(S, i):
    return mk_cls(S, part_comps(S, i))


def same_class(S, i, j):
    return and_(*[eq(a, b) for a, b in zip(part_comps(S, i), part_comps(S, j))])


def class_count(S, i):
    """number of samples j with the same components as sample i"""
    n = S.args[1]
    j = fresh("j", "I", n)
    return mk_sum(j, n, ind(same_class(S, j, i)))


def count_of(S, vals):
    n = S.args[1]
    j = fresh("j", "I", n)
    return mk_sum(j, n, ind(and_(*[eq(a, b) for a, b in zip(part_comps(S, j), vals)])))


def resolve_rep(t, S, R, vals):
    """rewrite occurrences of components of S at sample R to the given values.

    R is an index term (rep_S(cls_S(vals)) or a placeholder for it); vals are the component
    values.  Returns the rewritten term (R may remain when t is not S-measurable)."""
    comps = open_(S, (vv := fresh("p", "I", S.args[1])))
    pats = []
    for c, val in zip(comps, vals):
        if c.op == "fam":
            m = fresh("m", "I", c.args[1])
            pats.append(("fam", subst(open_(c, m)[0], {vv: R}), m, c.args[1], val))
        else:
            pats.append(("atom", subst(c, {vv: R}), None, None, val))

    def match(x):
        for kind, p, m, hi, val in pats:
            if kind == "atom":
                if p is x:
                    return val
            else:
                tt = match_linear(p, x, m)
                if tt is not None and PR.decide(and_(ge(tt, ZERO), lt(tt, hi))) is not False:
                    u = fresh("u", "I", hi)
                    return subst(open_(val, u)[0], {u: tt}) if val.op == "fam" else None
        return None

    memo = {}

    def go(x):
        if not contains(x, R):
            return x
        if x is R:
            return x
        r = memo.get(x)
        if r is None:
            mt = match(x) if x.op in ("app", "poly") else None
            r = mt if mt is not None else rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


def match_linear(p, x, m):
    """find t with p[m:=t] is x, for p an application linear in m"""
    if m not in p.fv:
        return ZERO if p is x else None
    if p.op != "app" or x.op != "app" or p.args[0] != x.args[0] or len(p.args) != len(x.args):
        return None
    for a, b in zip(p.args[1:], x.args[1:]):
        if m in a.fv:
            lc = lin_coef_term(a, m)
            if lc is None:
                t = _match_nested(a, b, m)
                return t if t is not None and subst(p, {m: t}) is x else None
            ca, k = lc
            d = sub(b, k)
            t = div(d, ca)
            if not is_int_term(t):
                return None
            if subst(p, {m: t}) is x:
                return t
            return None
    return None


def _match_nested(a, b, m):
    """a = c * f(.. m ..) + rest with a single application f containing m: solve f(.. m ..) = (b - rest) / c"""
    hit = None
    for mono, c in poly_items(a):
        if any(m in q.fv for q, e in mono) or any(m in e.fv for q, e in mono):
            if hit is not None or len(mono) != 1 or mono[0][1] is not ONE:
                return None
            hit = (mono[0][0], c)
    if hit is None or hit[0].op != "app":
        return None
    rest = sub(a, mul(num(hit[1]), hit[0]))
    return match_linear(hit[0], div(sub(b, rest), num(hit[1])), m)


def _sum_classes(v, hi, body):
    S = hi.args[1]
    R = mk_rep(S, v)
    # v may only occur through rep_S(v)
    R0 = fresh("R", "I", S.args[1])
    b = replace(body, {R: R0})
    if v in b.fv:
        return None
    i = fresh("i", "I", S.args[1])
    b2 = resolve_rep(b, S, R0, part_comps(S, i))
    if R0 in b2.fv:
        return None
    if i not in b2.fv:
        return mul(hi, b2)
    return mk_sum(i, S.args[1], div(b2, class_count(S, i)))


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return "…"
    s = lambda x: show(x, d + 1)
    op = t.op
    if op == "num":
        return str(t.args[0])
    if op in ("var",):
        return t.args[0]
    if op == "bv":
        return f"#{t.args[0]}"
    if op in ("true", "false"):
        return op
    if op == "special":
        return t.args[0]
    if op == "poly":
        out = []
        for m, c in t.args:
            fs = []
            for b, e in m:
                x = s(b)
                if b.op == "poly":
                    x = f"({x})"
                fs.append(x if e is ONE else f"{x}^{s(e) if e.op != 'poly' else '(' + s(e) + ')'}")
            if not fs:
                out.append(str(c))
            elif c == 1:
                out.append("*".join(fs))
            elif c == -1:
                out.append("-" + "*".join(fs))
            else:
                out.append(f"{c}*" + "*".join(fs))
        return " + ".join(out).replace("+ -", "- ")
    if op == "app" or op == "bapp":
        return f"{t.args[0]}({', '.join(s(a) for a in t.args[1:])})"
    if op == "ind":
        return f"[{s(t.args[0])}]"
    if op == "eq0":
        return f"{s(t.args[0])}=0"
    if op == "ge0":
        return f"{s(t.args[0])}>=0"
    if op == "gt0":
        return f"{s(t.args[0])}>0"
    if op == "not":
        return f"!({s(t.args[0])})"
    if op in ("and", "or"):
        return "(" + f" {'&' if op == 'and' else '|'} ".join(s(a) for a in t.args) + ")"
    if op == "ite":
        return f"ite({s(t.args[0])}, {s(t.args[1])}, {s(t.args[2])})"
    if op in BINDERS:
        nm = {"sum": "Σ", "prod": "Π", "forall": "∀", "part": "Part"}.get(op, op)
        return f"{nm}{{#{t.h}<{s(t.args[1])}: {', '.join(s(a) for a in t.args[2:])}}}"
    return f"{op}{t.args}"


class _NullProver:
    def pos(self, t):
        return is_num(t) and t.args[0] > 0

    def nonneg(self, t):
        return is_num(t) and t.args[0] >= 0

    def decide(self, b, extra=()):
        return True if b is TRUE else (False if b is FALSE else None)

    def simplify_in(self, t, facts, skip=()):
        return t


PR = _NullProver()


def set_prover(p):
    global PR
    PR = p


def has_app(t, name, _memo=None):
    """does an application of `name` occur in t?"""
    memo = _memo if _memo is not None else {}
    if t in memo:
        return memo[t]
    memo[t] = False
    if t.op == "app" and t.args[0] == name:
        memo[t] = True
        return True
    st = list(t.args)
    while st:
        a = st.pop()
        if isinstance(a, tuple):
            st.extend(a)
        elif isinstance(a, T) and has_app(a, name, memo):
            memo[t] = True
            return True
    return False
