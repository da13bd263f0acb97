"""Symbolic run-time values: what numbers, arrays, lists, dicts ... of the code under verification
become while it is executed symbolically.  Every operation either has an exact meaning as terms
(see terms.py) or raises Unsupported -- nothing is approximated."""
from __future__ import annotations
import builtins as _b
import collections
import collections.abc as _abc
import typing
from fractions import Fraction
from . import terms as TM
from .terms import *
from .prover import PRV
from .engine import ENG, Unsupported, PathEnd


# ------------------------------------------------------------------ scalars
class NP_TYPES:
    pass


class np_generic:
    """stand-ins for numpy scalar types"""
    kind = "O"

    def __new__(cls, x=0, *a, **k):
        return cast(x, cls.kind)


class np_number(np_generic):
    pass


class np_integer(np_number):
    kind = "i"


class np_signed(np_integer):
    kind = "i"


class np_int64(np_signed):
    kind = "i"


class np_int32(np_signed):
    kind, narrow = "i", "int32"


class np_int16(np_signed):
    kind, narrow = "i", "int16"


class np_int8(np_signed):
    kind, narrow = "i", "int8"


class np_uint64(np_integer):
    kind = "u"


class np_uint32(np_integer):
    kind, narrow = "u", "uint32"


class np_uint16(np_integer):
    kind, narrow = "u", "uint16"


class np_uint8(np_integer):
    kind, narrow = "u", "uint8"


class np_floating(np_number):
    kind = "f"


class np_float64(np_floating):
    kind = "f"


class np_float32(np_floating):
    kind, narrow = "f", "float32"


class np_bool(np_generic):
    kind = "b"


class np_str(np_generic):
    kind = "U"


KIND_TYPE = {"i": np_int64, "u": np_uint64, "f": np_float64, "b": np_bool, "O": np_generic, "U": np_str}
PY_TYPE = {"i": int, "f": float, "b": bool}


def t_of(x) -> T:
    if isinstance(x, T):
        return x
    if isinstance(x, SNum):
        return x.t
    if isinstance(x, SBool):
        return ind(x.t)
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    if isinstance(x, Arr) and not x.axes:
        return x.at()
    raise Unsupported(f"value of type {type(x).__name__} used as a number")


def is_numlike(x):
    return isinstance(x, (SNum, SBool, bool, int, float, Fraction)) or (isinstance(x, Arr) and not x.axes)


def kind_of(x):
    if isinstance(x, (SNum, Arr)):
        return x.kind
    if isinstance(x, (SBool, bool)):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, (float, Fraction)):
        return "f"
    if isinstance(x, str):
        return "U"
    return "O"


def is_np(x):
    return getattr(x, "np", False) or isinstance(x, Arr)


def join_kind(*ks):
    if "O" in ks:
        return "O"
    if "f" in ks:
        return "f"
    if "u" in ks and "i" in ks:
        return "i"
    if "u" in ks:
        return "u"
    if "i" in ks:
        return "i"
    return "b"


def wrap(t: T, kind="f", np=True):
    """T -> run-time number; integer numerals become plain ints when the kind is integral and not numpy"""
    if t.sort == "B":
        return SBool(t)
    if kind in ("i",) and not np and t.op == "num" and t.args[0].denominator == 1:
        return int(t.args[0])
    return SNum(t, kind, np)


class SNum:
    __slots__ = ("t", "kind", "np")
    ndim = 0
    shape = ()
    __array_priority__ = 1

    def __init__(self, t, kind="f", np=True):
        self.t, self.kind, self.np = t, kind, np

    # arithmetic --------------------------------------------------------
    def _bin(self, o, f, kind=None, swap=False):
        if isinstance(o, (Arr, SList, VList, SDict)):
            return NotImplemented
        if not is_numlike(o):
            return NotImplemented
        a, b = self.t, t_of(o)
        if swap:
            a, b = b, a
        k = kind or join_kind(self.kind, kind_of(o))
        if k == "b":
            k = "i"
        return wrap(f(a, b), k, self.np or is_np(o))

    def __add__(self, o): return self._bin(o, add)
    def __radd__(self, o): return self._bin(o, add, swap=True)
    def __sub__(self, o): return self._bin(o, sub)
    def __rsub__(self, o): return self._bin(o, sub, swap=True)
    def __mul__(self, o): return self._bin(o, mul)
    def __rmul__(self, o): return self._bin(o, mul, swap=True)

    def __truediv__(self, o):
        return div_values(self, o) if is_numlike(o) else NotImplemented

    def __rtruediv__(self, o):
        return div_values(o, self) if is_numlike(o) else NotImplemented

    def __floordiv__(self, o): return self._bin(o, floordiv_t)
    def __rfloordiv__(self, o): return self._bin(o, floordiv_t, swap=True)
    def __mod__(self, o): return self._bin(o, mod_t)
    def __rmod__(self, o): return self._bin(o, mod_t, swap=True)
    def __pow__(self, o): return pow_values(self, o) if is_numlike(o) else NotImplemented
    def __rpow__(self, o): return pow_values(o, self) if is_numlike(o) else NotImplemented
    def __neg__(self): return wrap(neg(self.t), self.kind, self.np)
    def __pos__(self): return self
    def __abs__(self): return wrap(fn("abs", self.t), self.kind, self.np)

    # comparisons -------------------------------------------------------
    def _cmp(self, o, f, swap=False):
        if isinstance(o, (Arr, SList, VList)):
            return NotImplemented
        if not is_numlike(o):
            return NotImplemented
        a, b = self.t, t_of(o)
        return sbool(f(b, a) if swap else f(a, b))

    def __lt__(self, o): return self._cmp(o, lt)
    def __le__(self, o): return self._cmp(o, le)
    def __gt__(self, o): return self._cmp(o, gt)
    def __ge__(self, o): return self._cmp(o, ge)

    def __eq__(self, o):
        if isinstance(o, (Arr, SList, VList)):
            return NotImplemented
        if not is_numlike(o):
            return False
        return sbool(eq(self.t, t_of(o)))

    def __ne__(self, o):
        if isinstance(o, (Arr, SList, VList)):
            return NotImplemented
        if not is_numlike(o):
            return True
        return sbool(not_(eq(self.t, t_of(o))))

    def __hash__(self):
        return hash(("SNum", self.t.id))

    def __bool__(self):
        return ENG.decide(not_(eq(self.t, ZERO)))

    def __int__(self):
        v = numval(self.t)
        if v is not None and v.denominator == 1:
            return int(v)
        raise Unsupported("int() of a symbolic number in concrete context")

    def __index__(self):
        v = numval(self.t)
        if v is not None and v.denominator == 1:
            return int(v)
        raise Unsupported(f"symbolic number used as a concrete index: {self.t}")

    def __float__(self):
        raise Unsupported("float() of a symbolic number in concrete context")

    def __and__(self, o): return sbool(and_(not_(eq(self.t, ZERO)), b_of(o)))

    def __iter__(self):
        raise TypeError(f"'{type_name(self)}' object is not iterable")

    def __len__(self):
        raise TypeError(f"object of type '{type_name(self)}' has no len()")

    # numpy-scalar methods ------------------------------------------------
    @property
    def dtype(self): return DType(self.kind)
    @property
    def size(self): return 1
    def sum(self, *a, **k): return self
    def min(self): return self
    def max(self): return self
    def mean(self): return self
    def item(self): return wrap(self.t, self.kind, False)
    def astype(self, d, **k):
        r = cast(self, kind_from_dtype(d), np=True)
        return fits(r, narrow_of(d)) if narrow_of(d) else r
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, m): return self
    def all(self): return sbool(not_(eq(self.t, ZERO)))
    def any(self): return sbool(not_(eq(self.t, ZERO)))
    def is_integer(self): return sbool(eq(self.t, fn("floor", self.t)))
    def ravel(self): return asarr([self])
    def squeeze(self): return self
    def take(self, i, **k): return Arr0(self).take(i, **k)

    def __getitem__(self, i):
        raise TypeError(f"'{type_name(self)}' object is not subscriptable")

    def __format__(self, spec):
        return f"<{self.t}>"[:200]

    def __repr__(self):
        return f"S({str(self.t)[:300]})"

    __str__ = __repr__


def type_name(x):
    k = kind_of(x)
    return {"i": "numpy.int64" if is_np(x) else "int", "f": "numpy.float64" if is_np(x) else "float", "b": "numpy.bool", "u": "numpy.uint64"}.get(k, "object")


class SBool:
    __slots__ = ("t",)
    np = True
    ndim = 0
    shape = ()
    kind = "b"

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENG.decide(self.t)

    def __and__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return sbool(and_(self.t, b_of(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return sbool(or_(self.t, b_of(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return sbool(not_(eq(self.t, b_of(o))))

    def __invert__(self): return sbool(not_(self.t))

    def _n(self): return SNum(ind(self.t), "i", True)
    def __add__(self, o): return self._n() + o
    def __radd__(self, o): return o + self._n()
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    def __rmul__(self, o): return o * self._n()
    def __truediv__(self, o): return self._n() / o
    def __lt__(self, o): return self._n() < o
    def __gt__(self, o): return self._n() > o
    def __le__(self, o): return self._n() <= o
    def __ge__(self, o): return self._n() >= o
    def __neg__(self): return -self._n()

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return sbool(eq(self.t, b_of(o)))
        if is_numlike(o):
            return self._n() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self): return hash(("SBool", self.t.id))
    def sum(self, *a, **k): return self._n()
    def any(self): return self
    def all(self): return self
    def astype(self, d, **k):
        r = cast(self, kind_from_dtype(d), np=True)
        return fits(r, narrow_of(d)) if narrow_of(d) else r
    def item(self): return self
    @property
    def dtype(self): return DType("b")
    def __format__(self, spec): return f"<{self.t}>"[:200]
    def __repr__(self): return f"SB({str(self.t)[:300]})"
    def __index__(self):
        v = PRV.decide(self.t)
        if v is None:
            raise Unsupported("symbolic bool as index")
        return int(v)


def sbool(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return SBool(t)


def b_of(x) -> T:
    if isinstance(x, T):
        return x if x.sort == "B" else not_(eq(x, ZERO))
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, SNum):
        return not_(eq(x.t, ZERO))
    if isinstance(x, Arr) and not x.axes:
        return b_of(x.at())
    return TRUE if x else FALSE


def cast(x, kind, np=False):
    if isinstance(x, Arr):
        return x.astype(kind)
    t = t_of(x)
    if kind in ("i", "u"):
        if t.op == "special":
            raise (OverflowError if t is not NAN else ValueError)("cannot convert float to integer")
        t = fn("trunc", t)
    if kind == "b":
        return sbool(not_(eq(t, ZERO)))
    return wrap(t, kind, np)


def floordiv_t(a, b):
    if is_int_term(a) and is_int_term(b):
        if not PRV.pos(b):
            raise Unsupported("floor division by a possibly non-positive number")
        return idiv(a, b)
    return fn("floor", div(a, b))


def mod_t(a, b):
    return sub(a, mul(b, floordiv_t(a, b)))


def div_terms(a, b):
    """IEEE/numpy division of two element terms (exact reals; x/0 -> signed infinity or nan)"""
    if a.op == "ite" or b.op == "ite":
        return TM._lift2(div_terms, a, b)
    if a is NAN or b is NAN:
        return NAN
    if b.op == "special":
        if a.op == "special":
            return NAN
        return ZERO
    if b.op == "num":
        if b.args[0] == 0:
            return _divzero(a)
        return mul(a, num(1 / b.args[0]))
    if PRV.nonzero(b):
        if a.op == "special":
            if PRV.pos(b):
                return a
            if PRV.pos(neg(b)):
                return {INF: NINF, NINF: INF}[a]
            return ite(gt(b, ZERO), a, {INF: NINF, NINF: INF}[a])
        return mul(a, power(b, num(-1)))
    z = eq(b, ZERO)
    d = PRV.decide(z)
    if d is True:
        return _divzero(a)
    if a.op == "special":
        raise Unsupported("infinity divided by a possibly zero number")
    return ite(z, _divzero(a), mul(a, power(b, num(-1))))


def _divzero(a):
    if a.op == "special":
        return a
    if a is ZERO:
        return NAN
    if PRV.pos(a):
        return INF
    if PRV.pos(neg(a)):
        return NINF
    return ite(gt(a, ZERO), INF, ite(lt(a, ZERO), NINF, NAN))


def div_values(a, b):
    """a / b for scalars"""
    if isinstance(a, (Arr, SList)) or isinstance(b, (Arr, SList)):
        return Arr.__truediv__(asarr(a), b)
    ta, tb = t_of(a), t_of(b)
    np_ = is_np(a) or is_np(b)
    if not np_:
        if tb.op != "special":
            z = eq(tb, ZERO)
            if ENG.decide(z):
                raise ZeroDivisionError("division by zero")
    return wrap(div_terms(ta, tb), "f", np_)


def pow_terms(a, b):
    if a.op == "ite" or b.op == "ite":
        return TM._lift2(pow_terms, a, b)
    ev = numval(b)
    if a.op == "special" or b.op == "special":
        return power(a, b)
    if ev is not None and ev > 0:
        return power(a, b)
    if ev is not None and ev == 0:
        return ONE
    if ev is not None:
        if PRV.nonzero(a):
            return power(a, b)
        z = eq(a, ZERO)
        d = PRV.decide(z)
        if d is True:
            return INF
        return ite(z, INF, power(a, b))
    if is_int_term(b) and PRV.nonneg(b):
        return power(a, b)
    if PRV.pos(a):
        return power(a, b)
    if is_int_term(b) and PRV.nonzero(a):
        return power(a, b)
    return rawapp("powx", a, b)


def pow_values(a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        return ew(pow_terms, a, b, kind=_powkind(a, b))
    ta, tb = t_of(a), t_of(b)
    np_ = is_np(a) or is_np(b)
    k = _powkind(a, b)
    ev = numval(tb)
    if not np_ and ev is not None and ev < 0:
        if ENG.decide(eq(ta, ZERO)):
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        k = "f"
    return wrap(pow_terms(ta, tb), k, np_)


def _powkind(a, b):
    k = join_kind(kind_of(a), kind_of(b))
    if k == "b":
        k = "i"
    return k


def log_terms(t):
    if t.op == "ite":
        c, a, b = t.args
        return ite(c, log_terms(a), log_terms(b))
    if t.op == "special":
        return t if t is not NINF else NAN
    if PRV.pos(t):
        return log(t)
    if t is ZERO:
        return NINF
    z = PRV.decide(eq(t, ZERO))
    if z is True:
        return NINF
    if PRV.nonneg(t):
        return ite(eq(t, ZERO), NINF, log(t))
    return ite(gt(t, ZERO), log(t), ite(eq(t, ZERO), NINF, NAN))


# ------------------------------------------------------------------ dtypes
NARROW = {**{f"int{b}": (-(2 ** (b - 1)), 2 ** (b - 1) - 1) for b in (8, 16, 32)}, **{f"uint{b}": (0, 2 ** b - 1) for b in (8, 16, 32)}}


def narrow_of(d):
    """the range of an integer type narrower than 64 bits, else None"""
    n = d if isinstance(d, str) else getattr(d, "narrow", None)
    if n in NARROW:
        return (n,) + NARROW[n]
    if n in ("float32", "float16"):
        return (n, None, None)
    return None


def fits(x, w):
    """obligation: every value of x lies in the range of the narrow type w; -> x marked as being of this type"""
    nm, lo, hi = w
    if isinstance(x, Arr):
        if lo is None:
            r = x.reader()
            return Arr(lambda *i: fn("round_" + nm, r(*i)), x.axes, "f")
        x.meta = dict(x.meta, w=w)
        legs = [a.legs()[0] for a in x.axes]
        with facts(*[l[3] for l in legs]):
            _fit_term(x.at(*[l[0] for l in legs]), w)
        return x
    if lo is None:
        return wrap(fn("round_" + nm, t_of(x)), "f", True)
    _fit_term(t_of(x), w)
    return x


def _fit_term(t, w):
    nm, lo, hi = w
    if is_num(t):
        ok = lo <= t.args[0] <= hi
    elif t.op == "ite":
        return ([_fit_term(x, w) for x in t.args[1:]] and None) if PRV.decide(and_(ge(t, num(lo)), le(t, num(hi)))) is not True else None
    else:
        u = None if lo else upper(t)
        ok = (u is not None and u <= hi and PRV.nonneg(t)) or PRV.decide(and_(ge(t, num(lo)), le(t, num(hi)))) is True
    ENG.oblige(f"machine integers: value fits {nm}", ok, "range", "" if ok else str(t)[:300])


class DType:
    def __init__(self, kind, narrow=None):
        self.kind = kind
        self.narrow = narrow

    @property
    def type(self): return KIND_TYPE[self.kind]

    @property
    def name(self): return {"i": "int64", "f": "float64", "u": "uint64", "b": "bool", "U": "<U1", "O": "object"}[self.kind]

    @property
    def itemsize(self): return 8

    def __eq__(self, o):
        return kind_from_dtype(o) == self.kind

    def __ne__(self, o):
        return not self == o

    def __hash__(self): return hash(self.kind)
    def __repr__(self): return self.name
    __str__ = __repr__


def kind_from_dtype(d):
    if isinstance(d, DType):
        return d.kind
    if isinstance(d, str):
        if d in ("i", "u", "f", "b", "O", "U"):
            return d
        return "u" if d.startswith("uint") else "i" if d.startswith("int") else "f" if d.startswith("float") else "b" if d.startswith("bool") else "O"
    if isinstance(d, type):
        if issubclass(d, np_generic):
            return d.kind
        if issubclass(d, bool):
            return "b"
        if issubclass(d, int):
            return "i"
        if issubclass(d, float):
            return "f"
        if issubclass(d, str):
            return "U"
        return "O"
    if d is None:
        return "f"
    if isinstance(d, TypeProxy):
        return kind_from_dtype(d.pytype)
    return "O"


class TypeProxy:
    """what type(x) yields for a builtin type name rebound in the private builtins"""
    pytype: type = object


# ------------------------------------------------------------------ axes
class PIdx:
    """index into piece p of a concatenated axis"""
    __slots__ = ("p", "t")

    def __init__(self, p, t):
        self.p, self.t = p, t

    def __repr__(self): return f"P{self.p}[{self.t}]"


class Axis:
    """index set {0 <= i < hi, guard(i)}, or a concatenation of such sets"""
    __slots__ = ("hi", "guard", "pieces", "part", "key")

    def __init__(self, hi=None, guard=None, pieces=None):
        self.hi, self.guard, self.pieces = hi, guard, pieces
        self.part = None
        self.key = None

    @property
    def simple(self): return self.guard is None and self.pieces is None

    def length(self) -> T:
        if self.pieces:
            return add(ZERO, *[p.length() for p in self.pieces])
        if self.guard is None:
            return self.hi
        v = fresh("i", "I", self.hi)
        return mk_sum(v, self.hi, ind(self.guard(v)))

    def legs(self):
        """[(index object, var, hi, guard-term)] with fresh variables"""
        if self.pieces:
            out = []
            for p, a in enumerate(self.pieces):
                for idx, v, hi, g in a.legs():
                    out.append((PIdx(p, idx), v, hi, g))
            return out
        v = fresh("i", "I", self.hi)
        g = TRUE if self.guard is None else self.guard(v)
        return [(v, v, self.hi, g)]

    def concrete(self):
        if self.simple and self.hi.op == "num":
            return int(self.hi.args[0])
        return None

    def indices(self):
        n = self.concrete()
        return [num(i) for i in range(n)]


def ax(n):
    return n if isinstance(n, Axis) else Axis(t_of(n))


def same_axis(a: Axis, b: Axis):
    """True/False/None(unknown)"""
    if a is b:
        return True
    if a.key is not None and a.key == b.key:
        return True
    if a.simple and b.simple:
        if a.hi is b.hi:
            return True
        return PRV.decide(eq(a.hi, b.hi))
    if a.pieces and b.pieces and len(a.pieces) == len(b.pieces):
        return True if all(same_axis(x, y) for x, y in zip(a.pieces, b.pieces)) else None
    if a.guard is not None and b.guard is not None and a.hi is b.hi:
        v = fresh("i", "I", a.hi)
        if a.guard(v) is b.guard(v):
            return True
    if a.pieces is None and b.pieces is None and a.hi is b.hi:
        v = fresh("i", "I", a.hi)
        ga = TRUE if a.guard is None else a.guard(v)
        gb = TRUE if b.guard is None else b.guard(v)
        if PRV.decide(eq(ga, gb)) is True:
            return True
    return None


class facts:
    """temporarily assume facts (guard of the element being evaluated)"""
    def __init__(self, *fs):
        self.fs = fs

    def __enter__(self):
        self.n = len(PRV.facts)
        for f in self.fs:
            if f is not TRUE:
                for x in (f.args if f.op == "and" else (f,)):
                    PRV.facts.append(x)

    def __exit__(self, *a):
        del PRV.facts[self.n:]


# ------------------------------------------------------------------ arrays
class Buf:
    __slots__ = ("fn", "ndim", "owner", "loopdepth", "id")
    _n = 0

    def __init__(self, fn_, ndim, owner=None):
        self.fn, self.ndim, self.owner = fn_, ndim, owner
        self.loopdepth = len(ENG.loopctx)
        Buf._n += 1
        self.id = Buf._n


def ident(*i):
    return i


class Arr:
    """n-dimensional array.  Element idx -> term."""
    __slots__ = ("buf", "axes", "vmap", "inv", "kind", "meta")
    __hash__ = None
    np = True

    def __class_getitem__(cls, k):
        return cls

    def __init__(self, fn_=None, axes=(), kind="f", buf=None, vmap=None, inv=None, meta=None, owner=None):
        self.axes = tuple(ax(a) for a in axes)
        self.buf = buf if buf is not None else Buf(fn_, len(self.axes), owner)
        self.vmap = vmap
        self.inv = inv  # buffer index -> (cond, own index) or None when not invertible
        self.kind = kind
        self.meta = meta or {}

    # ---- reading
    def reader(self):
        f = self.buf.fn
        m = self.vmap
        if m is None:
            return f
        return lambda *i: f(*m(*i))

    def at(self, *idx) -> T:
        return self.reader()(*idx)

    @property
    def ndim(self): return len(self.axes)

    @property
    def shape(self):
        return tuple(wrap(a.length(), "i", False) for a in self.axes)

    @property
    def size(self):
        r = ONE
        for a in self.axes:
            r = mul(r, a.length())
        return wrap(r, "i", False)

    @property
    def dtype(self): return DType(self.kind, self.meta["w"][0] if "w" in self.meta else None)

    @property
    def strides(self):
        # in units of the owning 1-D buffer; only 1-D unit-stride views carry exact strides
        if self.ndim == 1:
            st = self.meta.get("stride", ONE)
            return (wrap(mul(num(8), st), "i", False),)
        raise Unsupported("strides of an n-d array")

    @property
    def itemsize(self): return 8

    @property
    def T(self):
        if self.ndim < 2:
            return self
        inv = None
        if self.inv_ok():
            i0 = self.get_inv()
            def inv(*b):
                c, idx = i0(*b)
                return c, tuple(reversed(idx))
        m = self.vmap
        return Arr(buf=self.buf, axes=tuple(reversed(self.axes)), kind=self.kind,
                   vmap=(lambda *i: (m(*reversed(i)) if m else tuple(reversed(i)))), inv=inv or NOINV, meta={"Tof": self})

    def transpose(self, *a): return self.T

    def inv_ok(self): return self.inv is not NOINV
    def get_inv(self):
        if self.inv is None:
            return lambda *b: (TRUE, b)
        return self.inv

    # ---- element-wise
    def __add__(self, o): return ew(add, self, o, arith=True)
    def __radd__(self, o): return ew(add, o, self, arith=True)
    def __sub__(self, o): return ew(sub, self, o, arith=True)
    def __rsub__(self, o): return ew(sub, o, self, arith=True)

    def __mul__(self, o):
        r = ew(mul, self, o, arith=True)
        overflow_check(r)
        return r

    def __rmul__(self, o):
        r = ew(mul, o, self, arith=True)
        overflow_check(r)
        return r

    def __truediv__(self, o): return ew(div_terms, self, o, kind="f")
    def __rtruediv__(self, o): return ew(div_terms, o, self, kind="f")
    def __floordiv__(self, o): return ew(floordiv_t, self, o, arith=True)
    def __mod__(self, o): return ew(mod_t, self, o, arith=True)
    def __pow__(self, o): return pow_values(self, o)
    def __rpow__(self, o): return pow_values(o, self)
    def __neg__(self): return ew(neg, self)
    def __pos__(self): return self
    def __abs__(self): return ew(lambda a: fn("abs", a), self)
    def __lt__(self, o): return ew(lt, self, o, kind="b")
    def __le__(self, o): return ew(le, self, o, kind="b")
    def __gt__(self, o): return ew(gt, self, o, kind="b")
    def __ge__(self, o): return ew(ge, self, o, kind="b")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return ew(lambda a: FALSE, self, kind="b")
        return ew(eq, self, o, kind="b")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return ew(lambda a: TRUE, self, kind="b")
        return ew(lambda a, b: not_(eq(a, b)), self, o, kind="b")

    def __and__(self, o): return ew(lambda a, b: and_(b_of(a), b_of(b)), self, o, kind="b")
    __rand__ = __and__
    def __or__(self, o): return ew(lambda a, b: or_(b_of(a), b_of(b)), self, o, kind="b")
    __ror__ = __or__
    def __xor__(self, o): return ew(lambda a, b: not_(eq(b_of(a), b_of(b))), self, o, kind="b")
    def __invert__(self):
        if self.kind != "b":
            raise Unsupported("bitwise inversion of integers")
        return ew(lambda a: not_(b_of(a)), self, kind="b")

    def __matmul__(self, o):
        return np_dot(self, o)

    # ---- in-place
    def _inplace(self, r):
        if r.ndim > self.ndim:
            raise ValueError("non-broadcastable output operand")
        if self.kind in ("i", "u") and r.kind == "f":
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        f = r.reader() if isinstance(r, Arr) else None
        self.write_all(lambda *i: f(*i))
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o):
        return self._inplace(self / o)
    def __ipow__(self, o): return self._inplace(self ** o)

    def write_all(self, f, cond=None):
        """self[i] = f(i) wherever cond(i)"""
        note_write(self)
        b = self.buf
        old = b.fn
        if self.vmap is None and self.inv is None:
            def new(*i):
                c = TRUE if cond is None else cond(*i)
                if c is TRUE:
                    return f(*i)
                if c is FALSE:
                    return old(*i)
                return ite_b(c, f(*i), old(*i))
        else:
            if not self.inv_ok():
                raise Unsupported("write through a non-invertible view")
            inv = self.get_inv()

            def new(*bi):
                c, i = inv(*bi)
                if c is FALSE:
                    return old(*bi)
                if cond is not None:
                    c = and_(c, cond(*i))
                c = simp_cond(c)
                if c is TRUE:
                    return f(*i)
                if c is FALSE:
                    return old(*bi)
                return ite_b(c, f(*i), old(*bi))
        for c in ENG.loopctx[b.loopdepth:]:
            c.log_write(b)
        b.fn = new
        self.meta.pop("uniq", None)

    # ---- indexing
    def __len__(self):
        raise Unsupported("len() outside the private builtins")

    def __iter__(self):
        n = self.axes[0].concrete() if self.axes else None
        if not self.axes:
            raise TypeError("iteration over a 0-d array")
        if n is None:
            raise Unsupported("iteration over an array of symbolic length outside a rewritten loop")
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        if not self.axes:
            return ENG.decide(b_of(self.at()))
        s = t_of(self.size)
        if numval(s) == 1:
            return ENG.decide(b_of(self.at(*[ZERO] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __index__(self):
        return wrap(self.at(), "i", False).__index__() if not self.axes else _b.int.__index__("x")

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        if "w" in self.meta:
            fits(val.copy() if isinstance(val, Arr) else val, self.meta["w"])
        setitem(self, key, val)

    # ---- methods
    def copy(self, *a, **k):
        m = {x: self.meta[x] for x in ("uniq", "labels", "cols", "counts", "w") if x in self.meta}
        return Arr(self.reader(), self.axes, self.kind, meta=m)

    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    def astype(self, d, copy=True, **kw):
        k = kind_from_dtype(d)
        w = narrow_of(d)
        if k == self.kind and copy is False and not w and "w" not in self.meta:
            return self
        if w:
            return fits(self.astype(k), w)
        if k in ("i", "u") and self.kind == "f":
            r = self.reader()
            return Arr(lambda *i: fn("trunc", r(*i)), self.axes, k)
        if k == "b" and self.kind != "b":
            return self != 0
        a = self.copy()
        if self.kind == "b" and k != "b":
            r = self.reader()
            a = Arr(lambda *i: ind(b_of(r(*i))), self.axes, k)
        a.kind = k
        return a

    def sum(self, axis=None, dtype=None, keepdims=False, **k): return reduce_(self, axis, "sum", dtype, keepdims)
    def prod(self, axis=None, dtype=None, keepdims=False, **k): return reduce_(self, axis, "prod", dtype, keepdims)
    def mean(self, axis=None, keepdims=False, **k): return np_mean(self, axis, keepdims=keepdims)
    def min(self, axis=None, keepdims=False, **k): return reduce_(self, axis, "min", None, keepdims)
    def max(self, axis=None, keepdims=False, **k): return reduce_(self, axis, "max", None, keepdims)
    def any(self, axis=None, **k): return reduce_(self, axis, "any")
    def all(self, axis=None, **k): return reduce_(self, axis, "all")
    def cumprod(self, axis=None, **k): return np_cum(self, axis, "prod")
    def cumsum(self, axis=None, **k): return np_cum(self, axis, "sum")
    def take(self, idx, axis=None, **k): return np_take(self, idx, axis)
    def ravel(self, *a): return np_ravel(self)
    def flatten(self, *a): return np_ravel(self).copy()
    def squeeze(self, axis=None): return np_squeeze(self, axis)
    def reshape(self, *s, **k): return np_reshape(self, s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s)
    def argsort(self, axis=-1, kind=None, stable=None, **k): return np_argsort(self, kind=kind, stable=stable)
    def tolist(self): return mklist(self)
    def item(self):
        return wrap(self.at(*[ZERO] * self.ndim), self.kind, False)
    def nonzero(self): return np_nonzero(self)
    def dot(self, o): return np_dot(self, o)
    def std(self, axis=None, ddof=0, **k): return np_std(self, axis, ddof=ddof)
    def var(self, axis=None, ddof=0, **k): return np_var(self, axis, ddof=ddof)
    def fill(self, v): self[...] = v
    def clip(self, lo=None, hi=None, **k): return np_clip(self, lo, hi)
    def sort(self, *a, **k): raise Unsupported("in-place sort")
    def __format__(self, s): return "<array>"
    def __repr__(self): return f"Arr{tuple(str(a.hi) for a in self.axes)}:{self.kind}"


def NOINV(*a):
    raise Unsupported("write through this view")


def ite_b(c, a, b):
    if a.sort == "B" or b.sort == "B":
        a = b_of(a)
        b = b_of(b)
        return or_(and_(c, a), and_(not_(c), b))
    return ite(c, a, b)


def simp_cond(c):
    d = PRV.decide(c)
    if d is True:
        return TRUE
    if d is False:
        return FALSE
    return c


def Arr0(x):
    t = t_of(x)
    return Arr(lambda: t, (), kind_of(x))


def note_write(a: Arr):
    if a.buf.owner:
        ENG.writes.append(a.buf.owner)


def overflow_check(r):
    if isinstance(r, Arr) and r.kind in ("i", "u"):
        lim = 2**64 - 1 if r.kind == "u" else 2**63 - 1
        legs = [a.legs()[0] for a in r.axes]
        with facts(*[l[3] for l in legs]):
            t = r.at(*[l[0] for l in legs])
            if is_num(t) or t.op in ("special", "ite"):
                return
            u = upper(t)
            if u is not None and u <= lim:
                ENG.oblige("machine integers: product does not overflow", True, "interval bound")
            else:
                ENG.soft_overflow(t, lim)


def upper(t):
    u = _upper(t)
    if u is None and (t.op == "var" or (t.op == "poly" and not atoms(t, lambda x: x.op not in ("var", "poly", "num")))) and PRV.decide(le(t, num(2 ** 32 - 1))) is True:
        return Fraction(2 ** 32 - 1)
    return u


def _upper(t):
    """syntactic numeric upper bound of a term under the declared bounds of the scenario"""
    if t.op == "num":
        return t.args[0]
    if t in ENG.bounds:
        return ENG.bounds[t]
    if t.op == "poly":
        s = Fraction(0)
        for m, c in t.args:
            if not m:
                s += c
                continue
            if not PRV.nonneg(from_items({m: Fraction(1)})):
                return None
            if c < 0:
                continue
            u = Fraction(c)
            for b, e in m:
                ev = numval(e)
                if ev is None or ev < 0:
                    return None
                ub = upper(b)
                if ub is None:
                    return None
                u *= ub ** int(ev) if ev.denominator == 1 else 0
                if ev.denominator != 1:
                    return None
            s += u
        return s
    if t.op == "ind":
        return Fraction(1)
    if t.op == "sum":
        v = fresh("s", "I", t.args[1])
        b = upper(open_(t, v)[0])
        h = upper(t.args[1])
        return b * h if b is not None and h is not None else None
    if t.op == "app":
        if t.args[0] == "nuniq":
            return upper(t.args[1].args[1])
        if t.args[0] == "max":
            a, b = upper(t.args[1]), upper(t.args[2])
            return max(a, b) if a is not None and b is not None else None
        if t.args[0] == "min":
            xs = [x for x in (upper(t.args[1]), upper(t.args[2])) if x is not None]
            return min(xs) if xs else None
        if t.args[0] == "idiv":
            return upper(t.args[1])
    if t.op == "var" and t in RANGE:
        return upper(RANGE[t])
    return None


def bcast(*xs):
    """common axes of operands (numpy broadcasting)"""
    nd = max([len(x.axes) for x in xs if isinstance(x, Arr)] + [0])
    out = []
    for d in range(nd):
        cur = None
        for x in xs:
            if not isinstance(x, Arr):
                continue
            k = d - (nd - len(x.axes))
            if k < 0:
                continue
            a = x.axes[k]
            if cur is None:
                cur = a
                continue
            if a.concrete() == 1:
                continue
            if cur.concrete() == 1:
                cur = a
                continue
            s = same_axis(cur, a)
            if s is None:
                if a.simple and cur.simple:
                    # lengths may differ: decide (fork)
                    s = ENG.decide(eq(cur.hi, a.hi))
                else:
                    raise Unsupported("cannot relate the lengths of two arrays")
            if s is False:
                raise ValueError("operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def bidx(x, axes, idx):
    k = len(axes) - len(x.axes)
    out = []
    for a, full, i in zip(x.axes, axes[k:], idx[k:]):
        out.append(ZERO if (a.concrete() == 1 and full.concrete() != 1) else i)
    return out


def ew(f, *args, kind=None, arith=False):
    args = [asarr(a) if isinstance(a, (SList, VList, list, tuple)) else a for a in args]
    args = [Arr0(a) if not isinstance(a, Arr) else a for a in args]
    axes = bcast(*args)
    rs = [(a, a.reader()) for a in args]

    def g(*idx):
        return f(*[r(*bidx(a, axes, idx)) for a, r in rs])

    if kind is None:
        kind = join_kind(*[a.kind for a in args])
        if arith and kind == "b":
            kind = "i"
    w = None
    if kind in ("i", "u") and any("w" in a.meta for a in args) and all("w" in a.meta or not a.axes for a in args):
        w = max((a.meta["w"] for a in args if "w" in a.meta), key=lambda w: w[2])
    if not axes:
        r = wrap(g(), kind, True)
    else:
        r = Arr(g, axes, kind)
    return fits(r, w) if w else r


# ------------------------------------------------------------------ indexing
def norm_index(t, a: Axis):
    """scalar index term -> nonnegative index, with IndexError fork"""
    if not a.simple:
        raise Unsupported("positional index into a filtered or concatenated axis")
    v = numval(t)
    n = a.hi
    if v is not None and v < 0:
        t = add(n, t)
    elif v is None and not PRV.nonneg(t):
        if ENG.decide(lt(t, ZERO)):
            t = add(n, t)
    ok = and_(ge(t, ZERO), lt(t, n))
    if not ENG.decide(ok):
        raise IndexError(f"index out of bounds")
    return t


def slice_bounds(s: slice, n: T):
    step = 1 if s.step is None else s.step
    sv = numval(t_of(step))
    if sv is None:
        step_t = t_of(step)
        if not PRV.pos(step_t):
            raise Unsupported("slice with symbolic step of unknown sign")
        sv = None
    if sv == -1:
        if s.start is None and s.stop is None:
            return sub(n, ONE), num(-1), n
        raise Unsupported("reversed slice with bounds")
    if sv is not None and sv < 1:
        raise Unsupported("slice step")

    def clampi(x, default):
        if x is None:
            return default
        t = t_of(x)
        if not PRV.nonneg(t):
            d = PRV.decide(lt(t, ZERO))
            if d is None:
                d = ENG.decide(lt(t, ZERO))
            if d:
                t = add(n, t)
                return fn("max", t, ZERO)
        return fn("min", t, n)

    lo = clampi(s.start, ZERO)
    hi = clampi(s.stop, n)
    if sv == 1:
        ln = fn("max", sub(hi, lo), ZERO)
        return lo, ONE, ln
    st = t_of(step)
    ln = fn("max", idiv(add(sub(hi, lo), st, num(-1)), st), ZERO)
    return lo, st, ln


def getitem(a: Arr, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    # unwrap lists to arrays
    for i, k in enumerate(key):
        if isinstance(k, (VList, list, SList)):
            if isinstance(k, VList) and k.sym is None and all(isinstance(x, slice) for x in k):
                continue
            key[i] = asarr(k)
    # boolean mask
    if len(key) == 1 and isinstance(key[0], Arr) and key[0].kind == "b" and key[0].ndim >= 1:
        return mask_index(a, key[0])
    if len(key) == 1 and isinstance(key[0], (bool, SBool)):
        raise Unsupported("scalar boolean index")
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        used = sum(1 for k in key if k is not None and k is not Ellipsis)
        key[i:i + 1] = [slice(None)] * (a.ndim - used)
    n_used = sum(1 for k in key if k is not None)
    if n_used > a.ndim:
        raise IndexError(f"too many indices for array: array is {a.ndim}-dimensional, but {n_used} were indexed")
    key += [slice(None)] * (a.ndim - n_used)
    fancy = [k for k in key if isinstance(k, Arr) and k.ndim > 0]
    if fancy:
        return fancy_index(a, key)
    # basic indexing: a view
    out_axes = []
    plan = []  # per source axis: ('i', term) | ('s', lo, step, outdim) ; new axes occupy out dims
    src = 0
    for k in key:
        if k is None:
            out_axes.append(Axis(ONE))
            continue
        axis = a.axes[src]
        if isinstance(k, slice):
            if k.start is None and k.stop is None and (k.step is None):
                plan.append(("s", None, None, len(out_axes)))
                out_axes.append(axis)
            elif not axis.simple:
                if k.start is None and k.stop is None and numval(t_of(k.step)) == -1:
                    raise Unsupported("reversing a filtered axis")
                n = axis.concrete()
                raise Unsupported("slicing a filtered axis")
            else:
                lo, st, ln = slice_bounds(k, axis.hi)
                plan.append(("s", lo, st, len(out_axes)))
                na = Axis(ln) if ln is not axis.hi else axis
                out_axes.append(Axis(ln))
        elif is_numlike(k):
            plan.append(("i", norm_index(t_of(k), axis)))
        else:
            raise IndexError(f"only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        src += 1
    m0 = a.vmap
    inv0 = a.get_inv() if a.inv_ok() else None

    def vmap(*idx):
        out = []
        for p in plan:
            if p[0] == "i":
                out.append(p[1])
            else:
                i = idx[p[3]]
                if p[1] is None:
                    out.append(i)
                else:
                    out.append(add(p[1], mul(p[2], i)))
        return tuple(m0(*out)) if m0 else tuple(out)

    nout = len(out_axes)

    def inv(*b):
        c, i = inv0(*b)
        idx = [ZERO] * nout
        for p, x in zip(plan, i):
            if p[0] == "i":
                c = and_(c, eq(x, p[1]))
            elif p[1] is None:
                idx[p[3]] = x
            else:
                if p[2] is ONE:
                    j = sub(x, p[1])
                elif p[2] is num(-1):
                    j = sub(p[1], x)
                else:
                    raise Unsupported("write through a strided view")
                c = and_(c, ge(j, ZERO), lt(j, out_axes[p[3]].hi))
                idx[p[3]] = j
        return c, tuple(idx)

    if not out_axes:
        return wrap(a.at(*[p[1] for p in plan]), a.kind, True)
    meta = {}
    if a.ndim == 1 and nout == 1 and plan[0][1] is not None:
        meta["stride"] = mul(a.meta.get("stride", ONE), plan[0][2])
    if a.ndim == 1 and nout == 1 and plan[0][1] is None:
        meta = dict(a.meta)
    return Arr(buf=a.buf, axes=out_axes, kind=a.kind, vmap=vmap, inv=inv if inv0 else NOINV, meta=meta)


def mask_index(a: Arr, m: Arr):
    if m.ndim != 1:
        if m.ndim == a.ndim:
            # only the multiset of selected elements is representable
            r, rm = a.reader(), m.reader()
            raise Unsupported("n-d boolean mask")
        raise Unsupported("boolean mask rank")
    s = same_axis(a.axes[0], m.axes[0])
    if s is not True:
        if s is None and a.axes[0].simple and m.axes[0].simple:
            s = ENG.decide(eq(a.axes[0].hi, m.axes[0].hi))
        if s is False:
            raise IndexError("boolean index did not match indexed array")
        if s is None:
            raise Unsupported("mask over an unrelated axis")
    rm = m.reader()
    r = a.reader()
    if a.axes[0].concrete() is not None:
        # concrete length: decide each
        keep = [i for i in a.axes[0].indices() if ENG.decide(b_of(rm(i)))]
        return Arr(lambda i, *rest: pick([r(k, *rest) for k in keep], i), (Axis(num(len(keep))),) + a.axes[1:], a.kind)
    na = filter_axis(a.axes[0], lambda i: b_of(rm(i)))
    meta = {x: a.meta[x] for x in ("uniq", "labels", "counts") if x in a.meta}
    return Arr(r, (na,) + a.axes[1:], a.kind, meta=meta)


_filter_cache: dict = {}


def filter_axis(a: Axis, pred):
    if a.pieces:
        # pred receives PIdx
        ps = []
        for p, sub_ in enumerate(a.pieces):
            ps.append(filter_axis(sub_, lambda i, p=p: pred(PIdx(p, i))))
        return Axis(pieces=ps)
    g0 = a.guard

    def g(i):
        if g0 is None:
            return pred(i)
        with facts(g0(i)):
            x = pred(i)
        return and_(g0(i), x)

    na = Axis(a.hi, g)
    na.part = a.part
    v = mk("var", ("filter!probe",), "I")
    return na


def pick(elems, i):
    """elems[i] for concrete list of terms and index term"""
    if isinstance(i, PIdx):
        raise Unsupported("piece index into a concrete list")
    v = numval(i)
    if v is not None:
        return elems[int(v)]
    if len(elems) == 1:
        return elems[0]
    if not elems:
        return ZERO
    r = elems[-1]
    for k in range(len(elems) - 2, -1, -1):
        r = ite_b(eq(i, num(k)), elems[k], r)
    return r


def fancy_index(a: Arr, key):
    # integer arrays possibly mixed with scalars and full slices
    if any(k is None for k in key):
        raise Unsupported("newaxis combined with integer arrays")
    arrs = [(i, k) for i, k in enumerate(key) if isinstance(k, Arr) or is_numlike(k)]
    if any(isinstance(k, Arr) and k.kind == "b" for _, k in arrs):
        if len([k for k in key if not (isinstance(k, slice) and k == slice(None))]) == 1:
            (i, m), = [(i, k) for i, k in enumerate(key) if isinstance(k, Arr)]
            if i == 0:
                return mask_index(a, m)
            if m.axes[0].concrete() is not None and a.axes[i].concrete() is not None:
                keep = [j for j in m.axes[0].indices() if ENG.decide(b_of(m.at(j)))]
                r = a.reader()
                axes = list(a.axes)
                axes[i] = Axis(num(len(keep)))
                return Arr(lambda *ix: r(*ix[:i], pick(keep, ix[i]), *ix[i + 1:]), axes, a.kind)
        raise Unsupported("boolean mask mixed with other indices")
    slices = [i for i, k in enumerate(key) if isinstance(k, slice)]
    pos = [i for i, _ in arrs]
    if pos != list(range(pos[0], pos[0] + len(pos))):
        raise Unsupported("integer arrays separated by slices")
    ia = [Arr0(k) if not isinstance(k, Arr) else k for _, k in arrs]
    if any(x.kind == "f" for x in ia):
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    baxes = bcast(*ia)
    readers = [x.reader() for x in ia]
    nb = len(baxes)
    # bounds obligations: every index must be inside (negative wrap not supported)
    wraps = []
    for (p, k), x, r in zip(arrs, ia, readers):
        legs = [ax_.legs()[0] for ax_ in x.axes]
        with facts(*[l[3] for l in legs]):
            t = r(*[l[0] for l in legs])
            if not a.axes[p].simple:
                raise Unsupported("index into a filtered axis")
            ok = and_(ge(t, ZERO), lt(t, a.axes[p].hi))
            w = False
            if PRV.decide(ok) is not True:
                empty = or_(*[eq(ax_.hi, ZERO) for ax_ in x.axes if ax_.simple])
                nv = numval(t)
                if nv is not None and nv < 0 and PRV.decide(and_(lt(t, ZERO), ge(add(t, a.axes[p].hi), ZERO))) is True:
                    w = True
                elif nv is None and PRV.decide(and_(lt(t, ZERO), ge(add(t, a.axes[p].hi), ZERO))) is True:
                    w = True
                elif not x.axes:
                    if not ENG.decide(ok):
                        raise IndexError("index out of bounds")
                elif x.axes[0].concrete() is not None and len(x.axes) == 1:
                    # element-wise wrap of concrete lists
                    el = []
                    for q in x.axes[0].indices():
                        tq = r(q)
                        el.append(norm_index(tq, a.axes[p]))
                    w = el
                else:
                    ENG.oblige("array index in bounds", False, "", f"index {t} not provably within [0,{a.axes[p].hi})")
            wraps.append(w)
    ra = a.reader()
    out_axes = []
    first = pos[0]
    dims = []
    for i, k in enumerate(key):
        if isinstance(k, slice):
            if i < first:
                out_axes.append(a.axes[i] if k == slice(None) else None)
        elif i == first:
            out_axes.extend(baxes)
    pre = len([i for i in slices if i < first])
    for i in slices:
        if i > first:
            out_axes.append(a.axes[i])
    # arbitrary slices: apply first by basic indexing
    if any(isinstance(k, slice) and k != slice(None) for k in key):
        b = getitem(a, tuple(k if isinstance(k, slice) else slice(None) for k in key))
        return fancy_index(b, [slice(None) if isinstance(k, slice) else k for k in key])
    hi_of = {p: a.axes[p].hi for p in pos}

    def g(*idx):
        bi = idx[pre:pre + nb]
        vals = []
        for (p, _), x, r, w in zip(arrs, ia, readers, wraps):
            if isinstance(w, list):
                t = pick(w, bidx(x, baxes, bi)[0])
            else:
                t = r(*bidx(x, baxes, bi))
                if w:
                    t = add(t, hi_of[p])
            vals.append(t)
        full = []
        ls = list(idx[:pre]) + list(idx[pre + nb:])
        vi = iter(vals)
        li = iter(ls)
        for i, k in enumerate(key):
            full.append(next(li) if isinstance(k, slice) else next(vi))
        return lift_index(ra, full)

    if not out_axes:
        return wrap(g(), a.kind, True)
    return Arr(g, out_axes, a.kind)


def lift_index(r, idx):
    """apply reader to index terms, lifting conditional indices"""
    for k, t in enumerate(idx):
        if isinstance(t, T) and t.op == "ite":
            c, x, y = t.args
            i1 = list(idx); i1[k] = x
            i2 = list(idx); i2[k] = y
            return ite_b(c, lift_index(r, i1), lift_index(r, i2))
    return r(*idx)


def setitem(a: Arr, key, val):
    if isinstance(val, (VList, list, tuple, SList)):
        val = asarr(val)
    if isinstance(key, Arr) and key.kind == "b" and key.ndim == a.ndim:
        if isinstance(val, Arr) and val.axes:
            raise Unsupported("masked assignment of an array")
        rm = key.reader()
        t = t_of(val) if not isinstance(val, Arr) else val.at()
        if a.kind in ("i", "u") and (t.op == "special"):
            raise ValueError("cannot convert float NaN to integer")
        s = all(same_axis(x, y) is True for x, y in zip(a.axes, key.axes))
        if not s:
            raise Unsupported("mask over an unrelated axis")
        a.write_all(lambda *i: t, cond=lambda *i: b_of(rm(*i)))
        return
    if isinstance(key, Arr) and key.kind != "b" and key.ndim == 1 and a.ndim == 1:
        scatter(a, key, val)
        return
    v = getitem(a, key) if not _scalar_key(a, key) else None
    if v is None:
        idx = []
        ks = key if isinstance(key, tuple) else (key,)
        for k, axx in zip(ks, a.axes):
            idx.append(norm_index(t_of(k), axx))
        t = t_of(val) if not isinstance(val, Arr) else (val.at(*[ZERO] * val.ndim))
        if a.kind in ("i", "u") and kind_of(val) == "f":
            t = fn("trunc", t)
        if a.kind != "b" and t.sort == "B":
            t = ind(t)
        a.write_all(lambda *i: t, cond=lambda *i: simp_cond(and_(*[eq(x, y) for x, y in zip(i, idx)])))
        return
    if v.buf is not a.buf:
        raise Unsupported("assignment through integer-array index")
    if isinstance(val, Arr):
        axes = bcast(v, val)
        if len(axes) > v.ndim:
            raise ValueError("could not broadcast input array")
        r = val.reader()
        if v.kind in ("i", "u") and val.kind == "f":
            v.write_all(lambda *i: fn("trunc", r(*bidx(val, v.axes, i))))
        else:
            v.write_all(lambda *i: r(*bidx(val, v.axes, i)))
    else:
        t = t_of(val)
        v.write_all(lambda *i: t)


def _scalar_key(a, key):
    ks = key if isinstance(key, tuple) else (key,)
    return len(ks) == a.ndim and all(is_numlike(k) and not isinstance(k, (bool, SBool)) for k in ks)


def scatter(a: Arr, key: Arr, val):
    """a[key] = val with key a permutation of the axis (argsort / rng permutation)"""
    p = key.meta.get("perm")
    if p is None:
        raise Unsupported("scatter assignment with an index array that is not a known permutation")
    rv = val.reader() if isinstance(val, Arr) else (lambda i, t=t_of(val): t)
    inv = p  # inverse reader: position -> index
    a.write_all(lambda i: rv(inv(i)))


# ------------------------------------------------------------------ conversion
def asarr(x, dtype=None):
    a = _asarr(x)
    if dtype is not None:
        k = kind_from_dtype(dtype)
        if k != a.kind or narrow_of(dtype):
            a = a.astype(dtype)
    return a


def _asarr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, SList):
        return x.to_arr()
    if isinstance(x, VList) and x.sym is not None:
        return x.sym.to_arr()
    if isinstance(x, SArrayLike):
        return x.to_arr()
    if is_numlike(x):
        return Arr0(x)
    if isinstance(x, (list, tuple, _abc.ValuesView, _abc.KeysView)):
        xs = list(x)
        if not xs:
            return Arr(lambda i: ZERO, (Axis(ZERO),), "f")
        if all(is_numlike(e) for e in xs):
            ts = [e.t if isinstance(e, SBool) else (b_of(e) if isinstance(e, bool) else t_of(e)) for e in xs]
            kinds = [kind_of(e) for e in xs]
            k = join_kind(*kinds)
            if k != "b":
                ts = [ind(t) if t.sort == "B" else t for t in ts]
            return Arr(lambda i, ts=ts: pick(ts, i), (Axis(num(len(ts))),), k, meta={"elems": ts})
        if all(isinstance(e, str) for e in xs):
            ts = [strterm(e) for e in xs]
            return Arr(lambda i, ts=ts: pick(ts, i), (Axis(num(len(ts))),), "U")
        arrs = [_asarr(e) for e in xs]
        nd = {a.ndim for a in arrs}
        if len(nd) != 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        axes = bcast(*arrs) if nd != {0} else ()
        for a in arrs:
            for p, q in zip(a.axes, axes):
                if same_axis(p, q) is not True:
                    raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        rs = [a.reader() for a in arrs]
        return Arr(lambda i, *j: pick_lazy(rs, i, j), (Axis(num(len(arrs))),) + tuple(axes), join_kind(*[a.kind for a in arrs]), meta={"stack": arrs})
    if isinstance(x, str):
        return Arr(lambda: strterm(x), (), "U")
    if x is None:
        return Arr(lambda: rawapp("None"), (), "O")
    raise Unsupported(f"asarray of {type(x).__name__}")


_strs: dict = {}


def strterm(s):
    if s not in _strs:
        _strs[s] = num(10**6 + len(_strs))
    return _strs[s]


def pick_lazy(rs, i, j):
    v = numval(i)
    if v is not None:
        return rs[int(v)](*j)
    return pick([r(*j) for r in rs], i)


class SArrayLike:
    pass


# ------------------------------------------------------------------ reductions
def _leg_product(axes):
    """all combinations of legs of the given axes"""
    import itertools
    return list(itertools.product(*[a.legs() for a in axes]))


def sum_over(axes, body):
    """sum of body(*idx) (a term) over the axes"""
    tot = []
    for combo in _leg_product(axes):
        guards = [l[3] for l in combo if l[3] is not TRUE]
        with facts(*guards):
            b = body(*[l[0] for l in combo])
            if b.sort == "B":
                b = ind(b)
        for l in reversed(combo):
            if l[3] is not TRUE:
                if b.op == "ite" or b.op == "special":
                    b = ite(l[3], b, ZERO)
                else:
                    b = mul(ind(l[3]), b)
            b = mk_sum(l[1], l[2], b)
        tot.append(b)
    return add(ZERO, *tot)


def prod_over(axes, body):
    r = ONE
    for combo in _leg_product(axes):
        guards = [l[3] for l in combo if l[3] is not TRUE]
        with facts(*guards):
            b = body(*[l[0] for l in combo])
        for l in reversed(combo):
            if l[3] is not TRUE:
                b = ite(l[3], b, ONE)
            b = mk_prod(l[1], l[2], b)
        r = mul(r, b)
    return r


def forall_over(axes, body):
    r = TRUE
    for combo in _leg_product(axes):
        guards = [l[3] for l in combo if l[3] is not TRUE]
        with facts(*guards):
            b = b_of(body(*[l[0] for l in combo]))
        for l in reversed(combo):
            if l[3] is not TRUE:
                b = or_(not_(l[3]), b)
            b = mk_forall(l[1], l[2], b)
        r = and_(r, b)
    return r


def extremum_over(axes, body, which):
    combos = _leg_product(axes)
    if len(combos) != 1 or len(axes) != 1:
        if len(combos) == 1 and len(axes) == 2:
            # flatten: inner extremum then outer
            (l1, l2), = combos
            inner = extremum_leg(l2, body(l1[0], l2[0]), which)
            return extremum_leg(l1, inner, which)
        raise Unsupported("min/max over a concatenated axis")
    (l,), = combos
    with facts(l[3]):
        b = body(l[0])
    return extremum_leg(l, b, which)


def extremum_leg(l, b, which):
    if l[1] not in b.fv:
        return b
    return TM._close("minof" if which == "min" else "maxof", "", l[1], l[2], [b, ind(l[3])], "I" if is_int_term(b) else "R")


def reduce_(a, axis, what, dtype=None, keepdims=False):
    a = asarr(a)
    if isinstance(axis, (tuple, list)):
        axs = sorted(int(x) % a.ndim for x in axis)
    elif axis is None:
        axs = list(range(a.ndim))
    else:
        k = int(axis)
        if not -a.ndim <= k < a.ndim:
            raise ValueError(f"axis {k} is out of bounds for array of dimension {a.ndim}")
        axs = [k % a.ndim]
    if not a.axes:
        t = a.at()
        if what in ("any", "all"):
            return sbool(b_of(t))
        return wrap(ind(t) if t.sort == "B" else t, "i" if a.kind == "b" else a.kind, True)
    r = a.reader()
    rest = [i for i in range(a.ndim) if i not in axs]
    red_axes = [a.axes[i] for i in axs]

    def at(*ridx):
        def body(*sidx):
            full = [None] * a.ndim
            for i, x in zip(rest, ridx):
                full[i] = x
            for i, x in zip(axs, sidx):
                full[i] = x
            return r(*full)
        # concrete expansion
        if all(x.concrete() is not None and x.concrete() <= 64 for x in red_axes):
            import itertools
            elems = [body(*ii) for ii in itertools.product(*[x.indices() for x in red_axes])]
            if what == "sum":
                return add(ZERO, *[ind(e) if e.sort == "B" else e for e in elems])
            if what == "prod":
                return mul(ONE, *elems)
            if what == "all":
                return and_(*[b_of(e) for e in elems])
            if what == "any":
                return or_(*[b_of(e) for e in elems])
            if not elems:
                raise ValueError("zero-size array to reduction operation which has no identity")
            m = elems[0]
            for e in elems[1:]:
                m = fn(what, m, e)
            return m
        if what == "sum":
            return sum_over(red_axes, body)
        if what == "prod":
            return prod_over(red_axes, body)
        if what == "all":
            return forall_over(red_axes, body)
        if what == "any":
            return not_(forall_over(red_axes, lambda *i: not_(b_of(body(*i)))))
        return extremum_over(red_axes, body, what)

    if what in ("min", "max"):
        for x in red_axes:
            if ENG.decide(eq(x.length(), ZERO)):
                raise ValueError("zero-size array to reduction operation which has no identity")
    kind = {"any": "b", "all": "b"}.get(what, a.kind if a.kind != "b" or what in ("min", "max") else "i")
    if dtype is not None:
        kind = kind_from_dtype(dtype)
        if narrow_of(dtype):
            return fits(reduce_(a, axis, what, None, keepdims), narrow_of(dtype))
    if keepdims:
        out = Arr(lambda *i: at(*[i[k] for k in rest]), [Axis(ONE) if k in axs else a.axes[k] for k in range(a.ndim)], kind)
        return out
    if not rest:
        t = at()
        if what in ("sum",) and kind in ("i", "u"):
            pass
        return wrap(t, kind, True) if t.sort != "B" else sbool(t)
    if a.meta.get("matrix"):
        return Arr(lambda *i: at(*[i[k] for k in rest]), [Axis(ONE) if k in axs else a.axes[k] for k in range(a.ndim)], kind, meta={"matrix": True})
    return Arr(at, [a.axes[i] for i in rest], kind)


def np_mean(a, axis=None, dtype=None, keepdims=False, **k):
    a = asarr(a)
    s = reduce_(a, axis, "sum", None, keepdims)
    if axis is None:
        n = t_of(a.size)
    else:
        n = a.axes[int(axis) % a.ndim].length()
    return div_np(s, wrap(n, "i", True))


def div_np(a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        return ew(div_terms, a, b, kind="f")
    return wrap(div_terms(t_of(a), t_of(b)), "f", True)


def np_var(a, axis=None, ddof=0, **k):
    a = asarr(a)
    if axis is not None and a.ndim != 1:
        raise Unsupported("var over an axis")
    m = np_mean(a)
    d = (a - m)
    n = wrap(t_of(a.size), "i", True)
    sq = ew(lambda x: power(x, num(2)), d, kind="f")
    return div_np(reduce_(sq, None, "sum"), n - ddof)


def np_std(a, axis=None, ddof=0, **k):
    v = np_var(a, axis, ddof)
    return wrap(sqrt_terms(v.t), "f", True)


def sqrt_terms(t):
    if t.op == "ite":
        return ite(t.args[0], sqrt_terms(t.args[1]), sqrt_terms(t.args[2]))
    if t.op == "special":
        return t if t is not NINF else NAN
    v = numval(t)
    if v is not None and v >= 0:
        from math import isqrt
        a, b = isqrt(v.numerator), isqrt(v.denominator)
        if a * a == v.numerator and b * b == v.denominator:
            return num(Fraction(a, b))
    if PRV.nonneg(t):
        return power(t, HALF)
    return ite(ge(t, ZERO), power(t, HALF), NAN)


def np_cum(a, axis, what):
    a = asarr(a)
    if axis is None:
        if a.ndim != 1:
            a = np_ravel(a)
        axis = 0
    d = int(axis) % a.ndim
    if not a.axes[d].simple:
        raise Unsupported("cumulative reduction over a filtered axis")
    r = a.reader()

    def g(*idx):
        hi = add(idx[d], ONE)
        v = fresh("c", "I", hi)
        full = list(idx)
        full[d] = v
        with facts(*([lt(v, a.axes[d].hi)])):
            b = r(*full)
        return (mk_sum if what == "sum" else mk_prod)(v, hi, b)

    return Arr(g, a.axes, a.kind if a.kind != "b" else "i")


def np_take(a, idx, axis=None, **k):
    a = asarr(a)
    if axis is None and a.ndim != 1:
        a = np_ravel(a)
    if axis not in (None, 0) and a.ndim > 1:
        raise Unsupported("take axis")
    return getitem(a, idx if not isinstance(idx, (list, VList, SList)) else asarr(idx))


def np_ravel(a):
    a = asarr(a)
    if a.ndim == 1:
        if a.meta.get("matrix"):
            pass
        return a
    if a.ndim == 0:
        return Arr(lambda i: a.at(), (Axis(ONE),), a.kind)
    if a.ndim == 2:
        c0, c1 = a.axes[0].concrete(), a.axes[1].concrete()
        r = a.reader()
        if c1 == 1:
            return Arr(lambda i: r(i, ZERO), (a.axes[0],), a.kind)
        if c0 == 1:
            return Arr(lambda i: r(ZERO, i), (a.axes[1],), a.kind)
        if c0 is not None and c1 is not None:
            el = [r(i, j) for i in a.axes[0].indices() for j in a.axes[1].indices()]
            return Arr(lambda i: pick(el, i), (Axis(num(len(el))),), a.kind)
        if a.axes[0].simple and a.axes[1].simple:
            w = a.axes[1].hi
            if PRV.pos(w):
                return Arr(lambda i: r(idiv(i, w), TM.mod(i, w)), (Axis(mul(a.axes[0].hi, w)),), a.kind)
    raise Unsupported("ravel of an n-d array")


def np_squeeze(a, axis=None):
    a = asarr(a)
    keep = []
    for i, x in enumerate(a.axes):
        if axis is not None:
            if i != int(axis) % a.ndim:
                keep.append(i)
            continue
        if x.concrete() == 1:
            continue
        if x.concrete() is None and x.simple:
            if ENG.decide(eq(x.hi, ONE)):
                continue
        elif not x.simple:
            raise Unsupported("squeeze of a filtered axis")
        keep.append(i)
    if len(keep) == a.ndim:
        return a
    m = a.vmap

    def vm(*idx):
        full = [ZERO] * a.ndim
        for i, x in zip(keep, idx):
            full[i] = x
        return m(*full) if m else tuple(full)
    inv = NOINV
    if a.inv_ok():
        i0 = a.get_inv()
        inv = lambda *b: (i0(*b)[0], tuple(i0(*b)[1][k] for k in keep))
    return Arr(buf=a.buf, axes=[a.axes[i] for i in keep], kind=a.kind, vmap=vm, inv=inv)


def np_reshape(a, shape):
    a = asarr(a)
    shape = list(shape)
    if a.ndim == 1 and len(shape) == 2:
        if numval(t_of(shape[1])) == 1 or (numval(t_of(shape[0])) == -1 and numval(t_of(shape[1])) == 1):
            return a[:, None]
        if numval(t_of(shape[0])) == 1:
            return a[None, :]
    if len(shape) == 1:
        return np_ravel(a)
    if a.ndim == 2 and len(shape) == 2:
        s0, s1 = t_of(shape[0]), t_of(shape[1])
        if PRV.decide(eq(s0, a.axes[0].hi)) is True:
            return a
    if a.ndim == 3 and len(shape) == 2:
        s0 = t_of(shape[0])
        if numval(t_of(shape[1])) == -1 and PRV.decide(eq(s0, a.axes[0].hi)) is True:
            r = a.reader()
            c1, c2 = a.axes[1], a.axes[2]
            w2 = c2.hi
            n2 = c2.concrete()
            if n2 is not None and c1.concrete() is not None:
                w = n2 * c1.concrete()
                return Arr(lambda i, j: (r(i, num(int(numval(j)) // n2), num(int(numval(j)) % n2)) if numval(j) is not None else pick([r(i, num(q // n2), num(q % n2)) for q in range(w)], j)), (a.axes[0], Axis(num(w))), a.kind)
            # symbolic history length, concrete inner width: keep as column blocks
            if n2 is not None:
                blocks = [Block(c1.hi, (lambda i, m, q=q: r(i, m, num(q)))) for q in range(n2)]
                return block_array(a.axes[0], blocks, a.kind)
    raise Unsupported("reshape")


# ------------------------------------------------------------------ column blocks
class Block:
    """w columns: fn(i, m), 0 <= m < w"""
    __slots__ = ("w", "fn")

    def __init__(self, w, f):
        self.w, self.fn = w, f


def blocks_of(a: Arr):
    """column blocks of a 1-D / 2-D array (order is irrelevant for every consumer we support)"""
    if a.ndim == 1:
        r = a.reader()
        return [Block(ONE, lambda i, m: r(i))]
    if "cols" in a.meta:
        return a.meta["cols"]
    if a.ndim == 2:
        r = a.reader()
        w = a.axes[1]
        if not w.simple:
            raise Unsupported("filtered columns")
        n = w.concrete()
        if n is not None:
            return [Block(ONE, lambda i, m, k=k: r(i, num(k))) for k in range(n)]
        return [Block(w.hi, lambda i, m: r(i, m))]
    raise Unsupported("blocks of an n-d array")


def block_array(axis0, blocks, kind):
    tot = add(ZERO, *[b.w for b in blocks])

    def g(i, j):
        off = ZERO
        v = numval(j)
        # locate the block
        cands = []
        for b in blocks:
            lo = off
            off = add(off, b.w)
            d = PRV.decide(and_(ge(j, lo), lt(j, off)))
            if d is True:
                return b.fn(i, sub(j, lo))
            if d is None:
                cands.append((lo, off, b))
        if not cands:
            raise Unsupported("column index outside all blocks")
        r = cands[-1][2].fn(i, sub(j, cands[-1][0]))
        for lo, hi, b in reversed(cands[:-1]):
            r = ite_b(lt(j, hi), b.fn(i, sub(j, lo)), r)
        return r

    return Arr(g, (axis0, Axis(tot)), kind, meta={"cols": list(blocks)})


def row_comps(a: Arr):
    """list of functions i -> component term (fam for symbolic width)"""
    out = []
    for b in blocks_of(a):
        if b.w is ONE:
            out.append(lambda i, b=b: b.fn(i, ZERO))
        elif b.w.op == "num":
            for k in range(int(b.w.args[0])):
                out.append(lambda i, b=b, k=k: b.fn(i, num(k)))
        else:
            def f(i, b=b):
                m = fresh("m", "I", b.w)
                return mk_fam(m, b.w, b.fn(i, m))
            out.append(f)
    return out


# ------------------------------------------------------------------ partitions
class Part:
    """equivalence classes of the samples of an axis under equality of components"""

    def __init__(self, axis: Axis, comps):
        """comps: list of functions index -> term"""
        if not axis.simple:
            raise Unsupported("classes of a filtered axis")
        self.axis = axis
        self.n = axis.hi
        self.comps = comps
        v = fresh("p", "I", self.n)
        raw = [c(v) for c in comps]
        if any(c.op == "ite" or c.op == "special" for c in raw):
            raise Unsupported("conditional values used as discrete labels")
        self.S = mk_part(v, self.n, raw)
        flat = []

        def put(c, path):
            if c.op == "app" and c.args[0] == "cls":
                for k, x in enumerate(c.args[2:]):
                    put(x, path + (k,))
            else:
                flat.append((c, path))
        for q, c in enumerate(raw):
            put(c, (q,))
        order = open_(self.S, v)
        self.order = []
        for c in order:
            for f, path in flat:
                if f is c:
                    self.order.append(path)
                    break
            else:
                raise Unsupported("partition component lost")
        self.heads = [c.args[1] if (c.op == "app" and c.args[0] == "cls") else None for c in raw]

    @property
    def K(self): return nuniq(self.S)

    def vals(self, comps):
        """values of the original components -> values in partition order"""
        out = []
        for path in self.order:
            x = comps[path[0]]
            for k in path[1:]:
                if not (x.op == "app" and x.args[0] == "cls"):
                    # label of another partition: [label = k] for symbolic k -> representative components
                    raise Unsupported("label value of unknown provenance")
                x = x.args[2 + k]
            out.append(x)
        return out

    def cls(self, i):
        return cls_of(self.S, i)

    def rep(self, k): return mk_rep(self.S, k)

    def comp_at_class(self, q, k):
        """component q of class k"""
        if k.op == "app" and k.args[0] == "cls" and k.args[1] is self.S:
            vals = k.args[2:]
            r = self._recover(q, vals)
            if r is not None:
                return r
        return self.comps[q](self.rep(k))

    def _recover(self, q, vals):
        hs = [(p, v) for p, v in zip(self.order, vals) if p[0] == q]
        if len(hs) == 1 and len(hs[0][0]) == 1:
            return hs[0][1]
        if self.heads[q] is not None:
            S0 = self.heads[q]
            v = fresh("p", "I", self.n)
            n0 = len(open_(S0, v))
            args = [None] * n0
            for p, x in hs:
                if len(p) == 2:
                    args[p[1]] = x
                else:
                    return None
            if all(a is not None for a in args):
                return mk_cls(S0, args)
        return None

    def count_class(self, k):
        """size of class k"""
        if k.op == "app" and k.args[0] == "cls" and k.args[1] is self.S:
            return count_of(self.S, k.args[2:])
        return class_count(self.S, self.rep(k))

    def resolve(self, t, k):
        """rewrite representatives of class label k = cls(vals) to vals"""
        if k.op == "app" and k.args[0] == "cls" and k.args[1] is self.S:
            return resolve_rep(t, self.S, self.rep(k), k.args[2:])
        return t


def resolve_value(x, P, k):
    return map_terms(x, lambda t: P.resolve(t, k))


# ------------------------------------------------------------------ value trees
def map_terms(x, f):
    if isinstance(x, SNum):
        t = f(x.t)
        return x if t is x.t else wrap(t, x.kind, x.np)
    if isinstance(x, SBool):
        return sbool(f(x.t))
    if isinstance(x, STuple):
        return x.map(f)
    if isinstance(x, tuple):
        return tuple(map_terms(e, f) for e in x)
    if isinstance(x, VList):
        if x.sym is None:
            return VList([map_terms(e, f) for e in x])
        return x.sym.map(f)
    if isinstance(x, list):
        return [map_terms(e, f) for e in x]
    if isinstance(x, Arr):
        r = x.reader()
        axes = [map_axis(a, f) for a in x.axes]
        meta = {}
        if "cols" in x.meta:
            meta["cols"] = [Block(b.w, lambda i, m, b=b: f(b.fn(i, m))) for b in x.meta["cols"]]
        return Arr(lambda *i: f(r(*i)), axes, x.kind, meta=meta)
    if isinstance(x, SList):
        return x.map(f)
    if isinstance(x, (int, float, str, bool, type(None), Fraction)):
        return x
    if isinstance(x, (SDict, SSet)):
        raise Unsupported("symbolic dict inside a symbolic sequence")
    return x


def map_axis(a, f):
    if a.pieces:
        return Axis(pieces=[map_axis(p, f) for p in a.pieces])
    hi = f(a.hi)
    g = a.guard
    if g is None:
        return a if hi is a.hi else Axis(hi)
    return Axis(hi, lambda i: f(g(i)))


def subst_value(x, m):
    return map_terms(x, lambda t: subst(t, m))


def flatten_key(k):
    """hashable key (tuple tree) -> list of terms"""
    if is_numlike(k):
        return [t_of(k)]
    if isinstance(k, str):
        return [strterm(k)]
    if isinstance(k, STuple):
        return [k.fam()]
    if isinstance(k, tuple):
        return [t for e in k for t in flatten_key(e)]
    if isinstance(k, Arr) and not k.axes:
        return [k.at()]
    if isinstance(k, Arr):
        raise TypeError("unhashable type: 'numpy.ndarray'")
    if isinstance(k, (list, VList)):
        raise TypeError("unhashable type: 'list'")
    raise Unsupported(f"dictionary key of type {type(k).__name__}")


# ------------------------------------------------------------------ symbolic sequences
class SList:
    """sequence over an axis: leg-wise templates.  legs: [(index obj, var, hi, guard, value)]"""
    __slots__ = ("axis", "legs", "pytype", "src")
    np = False

    def __init__(self, axis, legs, pytype=list, src=None):
        self.axis, self.legs, self.pytype, self.src = axis, legs, pytype, src

    def map(self, f):
        legs = []
        for idx, v, hi, g, val in self.legs:
            legs.append((idx, v, f(hi), f(g), map_terms(val, f)))
        return SList(map_axis(self.axis, f), legs, self.pytype)

    def elem(self, i):
        """value at index object i"""
        for idx, v, hi, g, val in self.legs:
            j = i
            k = idx
            ok = True
            while isinstance(k, PIdx):
                if not isinstance(j, PIdx) or j.p != k.p:
                    ok = False
                    break
                k, j = k.t, j.t
            if ok and isinstance(j, T):
                return subst_value(val, {v: j})
        raise Unsupported("index of symbolic sequence")

    def to_arr(self):
        vals = [l[4] for l in self.legs]
        if all(is_numlike(x) for x in vals):
            kind = join_kind(*[kind_of(x) for x in vals])
            def g(i):
                x = self.elem(i)
                return x.t if isinstance(x, SBool) and kind == "b" else t_of(x)
            meta = {}
            return Arr(g, (self.axis,), kind, meta=meta)
        if all(isinstance(x, (tuple, list)) and not isinstance(x, STuple) for x in vals):
            w = len(vals[0])
            kind = join_kind(*[kind_of(e) for x in vals for e in x])
            def g(i, j):
                x = self.elem(i)
                return pick([t_of(e) for e in x], j)
            return Arr(g, (self.axis, Axis(num(w))), kind)
        if all(isinstance(x, Arr) for x in vals):
            if len(vals) == 1:
                v0 = self.legs[0][1]
                axes = vals[0].axes
                for a in axes:
                    if v0 in a.hi.fv:
                        raise Unsupported("ragged rows")
                def g(i, *j):
                    return self.elem(i).at(*j)
                return Arr(g, (self.axis,) + axes, vals[0].kind)
        raise Unsupported("array of such elements")

    def length(self): return self.axis.length()

    def __len__(self):
        raise Unsupported("len() outside the private builtins")

    def __iter__(self):
        n = self.axis.concrete()
        if n is not None:
            return iter([self.elem(num(i)) for i in range(n)])
        raise Unsupported("iteration over a sequence of symbolic length outside a rewritten loop")

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i == slice(None):
                return self
            if not self.axis.simple:
                raise Unsupported("slice of a filtered sequence")
            lo, st, ln = slice_bounds(i, self.axis.hi)
            v = fresh("i", "I", ln)
            return SList(Axis(ln), [(v, v, ln, TRUE, self.elem(add(lo, mul(st, v))))], self.pytype)
        if not is_numlike(i):
            raise TypeError("list indices must be integers or slices")
        return self.elem(norm_index(t_of(i), self.axis))

    def __truediv__(self, o): return self.to_arr() / o
    def __mul__(self, o):
        if isinstance(o, (int,)) and not isinstance(o, bool):
            raise Unsupported("repetition of a symbolic list")
        return self.to_arr() * o
    def __rmul__(self, o): return asarr(o) * self.to_arr() if isinstance(o, Arr) else self.to_arr() * o
    def __add__(self, o): return cat_lists([self, o])

    def __eq__(self, o): raise Unsupported("comparison of symbolic sequences")
    __hash__ = None


class STuple(SList):
    """hashable tuple of symbolic length"""
    __slots__ = ()

    def fam(self):
        (idx, v, hi, g, val), = self.legs
        if g is not TRUE:
            raise Unsupported("filtered tuple key")
        return mk_fam(v, hi, t_of(val))


def cat_lists(xs):
    parts = []
    for x in xs:
        if isinstance(x, (list, tuple)) and not isinstance(x, SList):
            if isinstance(x, VList) and x.sym is not None:
                parts.append(x.sym)
            elif len(x):
                raise Unsupported("mixing concrete and symbolic lists")
        else:
            parts.append(x)
    ax_ = Axis(pieces=[p.axis for p in parts])
    legs = []
    for k, p in enumerate(parts):
        for idx, v, hi, g, val in p.legs:
            legs.append((PIdx(k, idx), v, hi, g, val))
    return SList(ax_, legs)


class SRange:
    def __init__(self, lo, hi, step=ONE):
        self.lo, self.hi, self.step = lo, hi, step
        if step is ONE:
            self.n = sub(hi, lo) if PRV.nonneg(sub(hi, lo)) else fn("max", sub(hi, lo), ZERO)
        else:
            raise Unsupported("symbolic range with a step")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range outside a rewritten loop")

    def __len__(self):
        raise Unsupported("len of symbolic range")


class VList(list):
    """a list display of the code under verification; may become symbolic through append in a loop"""
    __slots__ = ("sym", "depth", "pending")

    def __init__(self, it=(), sym=None):
        if isinstance(it, (SList,)):
            sym, it = it, ()
        super().__init__(it)
        self.sym = sym
        self.depth = len(ENG.loopctx)
        self.pending = None

    def append(self, x):
        if len(ENG.loopctx) > self.depth:
            ENG.loopctx[-1].log_append(self, x)
            return
        if self.sym is not None:
            raise Unsupported("append to a symbolic list")
        super().append(x)

    def extend(self, xs):
        if len(ENG.loopctx) > self.depth or self.sym is not None:
            raise Unsupported("extend in a symbolic loop")
        if is_symseq(xs):
            if super().__len__():
                raise Unsupported("extend with a symbolic sequence")
            self.sym = to_slist(xs)
            return
        super().extend(xs)

    def insert(self, *a): raise Unsupported("list.insert") if self.sym is not None else super().insert(*a)

    def __iter__(self):
        if self.sym is not None:
            return iter(self.sym)
        return super().__iter__()

    def __getitem__(self, i):
        if self.sym is not None:
            return self.sym[i]
        if isinstance(i, slice):
            return VList(super().__getitem__(conc_slice(i)))
        if isinstance(i, (SNum, SBool)) and numval(t_of(i)) is None:
            return pick_value(list(super().__iter__()), t_of(i))
        return super().__getitem__(i.__index__() if not isinstance(i, int) else i)

    def __setitem__(self, i, v):
        if self.sym is not None:
            raise Unsupported("assignment into a symbolic list")
        if len(ENG.loopctx) > self.depth:
            raise Unsupported("list element assignment in a symbolic loop")
        super().__setitem__(i.__index__() if not isinstance(i, slice) else i, v)

    def __mul__(self, o):
        if self.sym is not None:
            return self.sym * o
        if isinstance(o, SNum):
            if len(self) != 1:
                if numval(o.t) is not None:
                    return VList(list(self) * int(o))
                if isinstance(o.t, T) and o.kind == "f" or o.np:
                    return asarr(self) * o
                raise Unsupported("repetition of a list a symbolic number of times")
            v = fresh("i", "I", o.t)
            n = fn("max", o.t, ZERO)
            return VList(sym=SList(Axis(n), [(v, v, n, TRUE, self[0])]))
        if isinstance(o, Arr):
            return asarr(self) * o
        return VList(super().__mul__(o))

    def __rmul__(self, o):
        return self.__mul__(o)

    def __add__(self, o):
        if self.sym is not None or is_symseq(o):
            return VList(sym=cat_lists([self, o]))
        return VList(super().__add__(list(o)))

    def __truediv__(self, o): return asarr(self) / o
    def __hash__(self): raise TypeError("unhashable type: 'list'")

    def __eq__(self, o):
        if self.sym is not None:
            raise Unsupported("comparison of symbolic lists")
        return super().__eq__(o)

    def __bool__(self):
        if self.sym is not None:
            return ENG.decide(gt(self.sym.length(), ZERO))
        return super().__len__() > 0


def conc_slice(s):
    f = lambda x: None if x is None else int(x)
    return slice(f(s.start), f(s.stop), f(s.step))


def pick_value(xs, i):
    if all(is_numlike(x) for x in xs):
        return wrap(pick([t_of(x) for x in xs], i), join_kind(*[kind_of(x) for x in xs]), False)
    for k, x in enumerate(xs[:-1]):
        if ENG.decide(eq(i, num(k))):
            return x
    return xs[-1]


def is_symseq(x):
    if isinstance(x, SList):
        return x.axis.concrete() is None or x.axis.concrete() > 64
    if isinstance(x, VList):
        return x.sym is not None
    if isinstance(x, Arr):
        return bool(x.axes) and x.axes[0].concrete() is None
    return isinstance(x, (SRange, SDict, SSet, SGen, SZip, SEnum, SDictView)) and (not isinstance(x, SGen) or x.symbolic())


def to_slist(x) -> SList:
    """any symbolic iterable -> SList"""
    if isinstance(x, SList):
        return x
    if isinstance(x, VList):
        return x.sym
    if isinstance(x, Arr):
        r = x
        legs = []
        for idx, v, hi, g in x.axes[0].legs():
            if x.ndim == 1:
                with facts(g):
                    val = wrap(x.at(idx), x.kind, True)
            else:
                rd = x.reader()
                meta = {}
                if "cols" in x.meta and x.ndim == 2:
                    meta["rowcols"] = [(b.w, (lambda m, b=b, idx=idx: b.fn(idx, m))) for b in x.meta["cols"]]
                val = Arr((lambda *j, idx=idx: rd(idx, *j)), x.axes[1:], x.kind, meta=meta)
                if x.inv_ok():
                    # row view: keep writability
                    val = row_view(x, idx) if isinstance(idx, T) else val
                    val.meta.update(meta)
            legs.append((idx, v, hi, g, val))
        return SList(x.axes[0], legs)
    if isinstance(x, SRange):
        v = fresh("i", "I", x.n)
        return SList(Axis(x.n), [(v, v, x.n, TRUE, wrap(add(x.lo, v), "i", False))])
    if isinstance(x, SDictView):
        return x.to_slist()
    if isinstance(x, SDict):
        return x.keys().to_slist()
    if isinstance(x, SSet):
        return x.to_slist()
    if isinstance(x, (SGen, SZip, SEnum)):
        return x.to_slist()
    raise Unsupported(f"iteration over {type(x).__name__}")


def row_view(a: Arr, i: T):
    """a[i] without bounds decision (i is an index variable of the axis)"""
    m0 = a.vmap
    inv0 = a.get_inv()

    def vm(*j):
        return tuple(m0(i, *j)) if m0 else (i,) + j

    def inv(*b):
        c, idx = inv0(*b)
        return and_(c, eq(idx[0], i)), idx[1:]

    return Arr(buf=a.buf, axes=a.axes[1:], kind=a.kind, vmap=vm, inv=inv)


class SGen:
    """generator object (lazily evaluated symbolic comprehension or mapped iterable)"""
    def __init__(self, thunk):
        self.thunk = thunk
        self.val = None

    def force(self):
        if self.val is None:
            self.val = self.thunk()
        return self.val

    def symbolic(self): return is_symseq(self.force())
    def to_slist(self): return to_slist(self.force())
    def __iter__(self): return iter(self.force())

    def __next__(self):
        raise Unsupported("next() on a symbolic generator")


class SZip:
    def __init__(self, xs):
        self.xs = xs

    def to_slist(self):
        sl = []
        for x in self.xs:
            if is_symseq(x):
                sl.append(to_slist(x))
            else:
                xs = list(x)
                raise Unsupported("zip of symbolic and concrete sequences")
        return zip_slists(sl)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic zip outside a rewritten loop")


def zip_slists(sl):
    a0 = sl[0].axis
    for s in sl[1:]:
        r = same_axis(a0, s.axis)
        if r is not True:
            if a0.simple and s.axis.simple:
                # zip truncates to the shorter one
                n = fn("min", a0.hi, s.axis.hi)
                v = fresh("i", "I", n)
                na = Axis(n)
                out = [(v, v, n, TRUE, tuple(x.elem(v) for x in sl))]
                if len(sl) > 2:
                    for x in sl[2:]:
                        if same_axis(a0, x.axis) is not True:
                            raise Unsupported("zip of sequences of unrelated lengths")
                return SList(na, out)
            raise Unsupported("zip of sequences with unrelated filters")
    legs = []
    for idx, v, hi, g in a0.legs():
        with facts(g):
            legs.append((idx, v, hi, g, tuple(x.elem(idx) for x in sl)))
    return SList(a0, legs, src=tuple(s for s in sl))


class SEnum:
    def __init__(self, x, start=0):
        self.x, self.start = x, start

    def to_slist(self):
        s = to_slist(self.x)
        legs = []
        for idx, v, hi, g in s.axis.legs():
            if isinstance(idx, T) and g is TRUE:
                c = wrap(add(t_of(self.start), idx), "i", False)
            else:
                c = OPAQUE_INDEX
            legs.append((idx, v, hi, g, (c, s.elem(idx))))
        return SList(s.axis, legs)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic enumerate outside a rewritten loop")


class _OpaqueIndex:
    """position in a filtered sequence (its value is not representable; any use is unsupported)"""
    def __getattr__(self, n): raise Unsupported("position index in a filtered sequence")


OPAQUE_INDEX = _OpaqueIndex()


# ------------------------------------------------------------------ dictionaries / sets
class SDict:
    """mapping whose keys are the classes of one or more partitions.
    entries: list of (Part, Axis over classes, key fn(k)->key value, value fn(k)->value)"""
    np = False

    def __init__(self, entries, default=None):
        self.entries = entries
        self.default = default  # Counter: 0
        self.overrides = []
        self.depth = len(ENG.loopctx)

    # lookup: sequentially, the last matching entry wins
    def _find(self, key):
        out = []
        comps = flatten_key(key)
        for E in reversed(self.entries):
            P, axis, keyf, valf = E[:4]
            try:
                vals = P.vals(comps)
            except IndexError:
                continue
            k = mk_cls(P.S, vals)
            present = gt(count_of(P.S, vals), ZERO)
            g = axis.guard
            out.append((P, k, present, g, valf))
        return out

    def lookup(self, key, default=KeyError):
        if self.overrides:
            raise Unsupported("lookup after symbolic stores")
        for P, k, present, g, valf in self._find(key):
            p = present
            d = PRV.decide(p)
            if d is None:
                # membership of the key: fork
                if not ENG.decide(p):
                    continue
            elif d is False:
                continue
            if g is not None:
                gk = P.resolve(g(k), k)
                if not ENG.decide(gk):
                    continue
            return resolve_value(valf(k), P, k)
        if default is KeyError:
            if self.default is not None:
                return self.default
            raise KeyError(key)
        return default

    def get_term(self, key, default=0):
        """total lookup as a conditional value (no fork)"""
        r = default
        for P, k, present, g, valf in reversed(self._find(key)):
            c = present
            if g is not None:
                c = and_(c, P.resolve(g(k), k))
            d = PRV.decide(c)
            if d is False:
                continue
            with facts(c):
                v = resolve_value(valf(k), P, k)
            if d is True:
                r = v
                continue
            if not (is_numlike(v) and is_numlike(r)):
                raise Unsupported("dict.get of a non-numeric value")
            r = wrap(ite(c, t_of(v), t_of(r)), "f", is_np(v))
        return r

    def __getitem__(self, key):
        return self.lookup(key)

    def get(self, key, default=None):
        if is_numlike(default):
            return self.get_term(key, default)
        return self.lookup(key, default)

    def contains(self, key):
        c = FALSE
        for P, k, present, g, valf in self._find(key):
            x = present
            if g is not None:
                x = and_(x, P.resolve(g(k), k))
            c = or_(c, x)
        return sbool(c)

    def keys(self): return SDictView(self, "k")
    def values(self): return SDictView(self, "v")
    def items(self): return SDictView(self, "i")
    def copy(self): return SDict(list(self.entries), self.default)

    def most_common(self, *a): raise Unsupported("most_common")

    def __setitem__(self, k, v): raise Unsupported("store into a symbolic dict")

    def length(self):
        if len(self.entries) == 1:
            return self.entries[0][1].length()
        return self.keyset().length()

    def keyset(self):
        s = None
        for P, axis, keyf, valf in self.entries:
            x = SSet([(P, axis, keyf)])
            s = x if s is None else s.union(x)
        return s

    def __iter__(self):
        raise Unsupported("iteration over a symbolic dict outside a rewritten loop")

    def total(self):
        return b_sum(self.values())

    def update(self, *a): raise Unsupported("dict.update")
    __hash__ = None


class SDictView:
    np = False

    def __init__(self, d, what):
        self.d, self.what = d, what

    def to_slist(self):
        d = self.d
        if len(d.entries) > 1:
            # disjoint key ranges required
            if not getattr(d, "disjoint", False):
                raise Unsupported("iteration over a dict built from overlapping sources")
        parts = []
        for P, axis, keyf, valf in d.entries:
            legs = []
            for idx, v, hi, g in axis.legs():
                with facts(g):
                    key, val = keyf(idx), valf(idx)
                x = key if self.what == "k" else val if self.what == "v" else (key, val)
                legs.append((idx, v, hi, g, x))
            sl = SList(axis, legs)
            sl.src = ("dict", P)
            parts.append(sl)
        return parts[0] if len(parts) == 1 else cat_lists(parts)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic dict outside a rewritten loop")


class SSet:
    """set of keys: pieces (Part, Axis over its classes, keyfn); pieces are disjoint"""
    np = False

    def __init__(self, pieces):
        self.pieces = pieces

    def member(self, key) -> T:
        comps = flatten_key(key)
        c = FALSE
        for P, axis, keyf in self.pieces:
            vals = P.vals(comps)
            k = mk_cls(P.S, vals)
            x = gt(count_of(P.S, vals), ZERO)
            if axis.guard is not None:
                x = and_(x, P.resolve(axis.guard(k), k))
            c = or_(c, x)
        return c

    def contains(self, key): return sbool(self.member(key))

    def _filter(self, pred):
        out = []
        for P, axis, keyf in self.pieces:
            na = filter_axis(axis, lambda k, keyf=keyf: pred(keyf(k)))
            out.append((P, na, keyf))
        return SSet(out)

    def intersection(self, *os):
        s = self
        for o in os:
            o = to_set(o)
            s = s._filter(o.member)
        return s

    def __and__(self, o): return self.intersection(o)

    def difference(self, *os):
        s = self
        for o in os:
            o = to_set(o)
            s = s._filter(lambda k, o=o: not_(o.member(k)))
        return s

    def __sub__(self, o): return self.difference(o)

    def union(self, *os):
        s = self
        for o in os:
            o = to_set(o)
            if not isinstance(o, SSet):
                if not o:
                    continue
                raise Unsupported("union with a concrete set")
            s = SSet(s.pieces + o.difference(s).pieces)
        return s

    def __or__(self, o): return self.union(o)

    def length(self):
        return add(ZERO, *[a.length() for _, a, _ in self.pieces])

    def to_slist(self):
        parts = []
        for P, axis, keyf in self.pieces:
            legs = []
            for idx, v, hi, g in axis.legs():
                with facts(g):
                    legs.append((idx, v, hi, g, keyf(idx)))
            parts.append(SList(axis, legs))
        return parts[0] if len(parts) == 1 else cat_lists(parts)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic set outside a rewritten loop")

    def issubset(self, o):
        return sbool(eq(self.difference(o).length(), ZERO))

    def isdisjoint(self, o):
        return sbool(eq(self.intersection(o).length(), ZERO))

    def __bool__(self): return ENG.decide(gt(self.length(), ZERO))
    __hash__ = None


def to_set(x):
    if isinstance(x, (SSet, set, frozenset)):
        return x
    if isinstance(x, SDict):
        return x.keyset()
    if isinstance(x, SDictView):
        if x.what != "k":
            raise Unsupported("set of dict values")
        return x.d.keyset()
    if isinstance(x, Arr):
        u = x.meta.get("uniq")
        if u is not None and x.axes[0].pieces is None:
            P, q = u
            rd = x.reader()
            kd = x.kind
            return SSet([(P, x.axes[0], lambda k: wrap(P.resolve(rd(k), k), kd, True))])
        if x.axes and x.axes[0].concrete() is None and x.ndim == 1:
            P = Part(x.axes[0], [x.reader()])
            kd = x.kind
            return SSet([(P, Axis(P.K), lambda k: wrap(P.comp_at_class(0, k), kd, True))])
    if is_symseq(x):
        sl = to_slist(x)
        if len(sl.legs) == 1 and sl.axis.simple:
            idx, v, hi, g, val = sl.legs[0]
            keys = flatten_key(val)
            P = Part(sl.axis, [(lambda i, t=t: subst(t, {v: i})) for t in keys])
            if isinstance(val, tuple):
                raise Unsupported("set of tuples")
            kd = kind_of(val)
            return SSet([(P, Axis(P.K), lambda k: wrap(P.comp_at_class(0, k), kd, True))])
        if sl.axis.guard is not None or sl.axis.pieces:
            raise Unsupported("set of a filtered sequence")
    return set(x)


def dict_from_pairs(keys, vals):
    """dict(zip(keys, vals)) with keys the values of unique()"""
    raise Unsupported("dict_from_pairs")


def make_dict(sl: SList):
    """dict built from a symbolic sequence of (key, value) pairs; keys must be pairwise distinct
    (values of unique(), keys of another dict) or later entries would overwrite earlier ones"""
    src = sl.src
    entries = []
    legs = sl.legs
    part = find_part(sl)
    if part is None:
        if __import__("os").environ.get("DVD"): print([(str(l[4][0]), str(l[2])) for l in legs])
        raise Unsupported("dict with keys that are not known to be distinct")
    ents = []
    for (idx, v, hi, g, val), P in zip(legs, part):
        key, value = val
        ents.append(mk_entry(P, hi, v, g, key, value))
    d = SDict(ents)
    d.disjoint = True
    return d


def mk_entry(P, hi, v, g, key, value):
    guard = None if g is TRUE else (lambda i: subst(g, {v: i}))
    axis = Axis(hi, guard)
    axis.part = P
    return (P, axis,
            (lambda k: resolve_value(subst_value(key, {v: k}), P, k)),
            (lambda k: resolve_value(subst_value(value, {v: k}), P, k)))


def find_part(sl):
    """partition whose classes index each leg, deduced from the leg's key template: the key must be the
    component tuple of representative rep_S(v)"""
    out = []
    for idx, v, hi, g, val in sl.legs:
        key = val[0]
        P = part_of_key(key, v, hi)
        if P is None:
            return None
        out.append(P)
    return out


PARTS: dict = {}  # S term -> Part


def register_part(P):
    PARTS.setdefault(P.S, P)
    return P  # same classes may be described by different components (rows, or labels of rows)


def part_of_key(key, v, hi):
    if not (hi.op == "app" and hi.args[0] == "nuniq"):
        return None
    S = hi.args[1]
    P = PARTS.get(S)
    try:
        terms = flatten_key(key)
    except Unsupported:
        return None
    # key must determine the class: as partition component values at rep_S(v)
    want = part_comps(S, mk_rep(S, v))
    if len(terms) == 1 and terms[0] is v:
        # integer class labels used as keys
        return KeyPart(S, None)
    have = []
    for t in terms:
        if t.op == "app" and t.args[0] == "cls":
            have.extend(t.args[2:])
        else:
            have.append(t)
    if set(have) == set(want) or set(want) <= set(have):
        # comps as functions in key order
        R = mk_rep(S, v)
        fs = [(lambda i, t=t: replace(t, {R: i})) for t in terms]
        return Part(Axis(S.args[1]), fs)
    return None


class KeyPart:
    """keys are class labels themselves"""
    def __init__(self, S, _):
        self.S = S
        self.n = S.args[1]

    @property
    def K(self): return nuniq(self.S)

    def vals(self, comps):
        k, = comps
        if k.op == "app" and k.args[0] == "cls" and k.args[1] is self.S:
            return list(k.args[2:])
        return part_comps(self.S, mk_rep(self.S, k))

    def resolve(self, t, k):
        if k.op == "app" and k.args[0] == "cls" and k.args[1] is self.S:
            return resolve_rep(t, self.S, mk_rep(self.S, k), k.args[2:])
        return t


def counter_of(x):
    if isinstance(x, SList) or is_symseq(x):
        sl = to_slist(x)
        if not sl.axis.simple:
            raise Unsupported("Counter over a filtered sequence")
        (idx, v, hi, g, val), = sl.legs
        keys = flatten_key(val)
        P = register_part(Part(sl.axis, [(lambda i, t=t: subst(t, {v: i})) for t in keys]))
        axis = Axis(P.K)
        axis.part = P
        d = SDict([(P, axis,
                    (lambda k: resolve_value(subst_value(val, {v: P.rep(k)}), P, k)),
                    (lambda k: wrap(P.count_class(k), "i", False)))], default=0)
        d.disjoint = True
        d.counter = True
        return d
    return None


class VDict(dict):
    """dict display / empty dict of the code under verification, tolerant of symbolic keys"""
    def __init__(self, *a, **k):
        self.sym = None
        self.depth = len(ENG.loopctx)
        super().__init__(*a, **k)

    def _symkey(self, key):
        try:
            return any(numval(t) is None for t in flatten_key(key))
        except (Unsupported, TypeError):
            return False

    def _norm(self, key):
        if isinstance(key, SNum) and numval(key.t) is not None and numval(key.t).denominator == 1:
            return int(numval(key.t))
        if isinstance(key, SBool):
            return key
        if isinstance(key, tuple) and not isinstance(key, STuple):
            return tuple(self._norm(k) for k in key)
        return key

    def __getitem__(self, key):
        if self.sym is not None:
            return self.sym[key]
        if self._symkey(key):
            r = self._total(key, None)
            if r is None:
                raise KeyError(key)
            return r
        key = self._norm(key)
        return super().__getitem__(key)

    def _total(self, key, default):
        """value of a symbolic key: conditional over the concrete keys"""
        want = flatten_key(key)
        items = []
        for k, v in super().items():
            have = flatten_key(k)
            if len(have) != len(want):
                continue
            items.append((and_(*[eq(a, b) for a, b in zip(have, want)]), v))
        anyc = or_(*[c for c, _ in items])
        d = PRV.decide(anyc)
        if d is not True:
            if not ENG.decide(anyc):
                return default
        if not items:
            return default
        live = [(c, v) for c, v in items if PRV.decide(c) is not False]
        if all(is_numlike(v) for _, v in live):
            r = t_of(live[-1][1])
            for c, v in reversed(live[:-1]):
                r = ite(c, t_of(v), r)
            return wrap(r, join_kind(*[kind_of(v) for _, v in live]), any(is_np(v) for _, v in live))
        if all(isinstance(v, tuple) for _, v in live) and len({len(v) for _, v in live}) == 1:
            out = []
            for q in range(len(live[0][1])):
                r = t_of(live[-1][1][q])
                for c, v in reversed(live[:-1]):
                    r = ite(c, t_of(v[q]), r)
                out.append(wrap(r, "i", False))
            return tuple(out)
        for c, v in live[:-1]:
            if ENG.decide(c):
                return v
        return live[-1][1]

    def get(self, key, default=None):
        if self.sym is not None:
            return self.sym.get(key, default)
        if self._symkey(key):
            r = self._total(key, _MISSING)
            return default if r is _MISSING else r
        return super().get(self._norm(key), default)

    def __setitem__(self, key, v):
        if len(ENG.loopctx) > self.depth:
            ENG.loopctx[-1].log_store(self, key, v)
            return
        if self.sym is not None:
            raise Unsupported("store into a symbolic dict")
        if self._symkey(key):
            raise Unsupported("store under a symbolic key")
        super().__setitem__(self._norm(key), v)

    def contains(self, key):
        if self.sym is not None:
            return self.sym.contains(key)
        if self._symkey(key):
            want = flatten_key(key)
            c = FALSE
            for k in super().keys():
                have = flatten_key(k)
                if len(have) == len(want):
                    c = or_(c, and_(*[eq(a, b) for a, b in zip(have, want)]))
            return sbool(c)
        return super().__contains__(self._norm(key))

    def __contains__(self, key):
        r = self.contains(key)
        return r if isinstance(r, bool) else bool(r)

    def keys(self): return self.sym.keys() if self.sym is not None else super().keys()
    def values(self): return self.sym.values() if self.sym is not None else super().values()
    def items(self): return self.sym.items() if self.sym is not None else super().items()

    def __iter__(self):
        if self.sym is not None:
            return iter(self.sym)
        return super().__iter__()

    def copy(self):
        r = VDict(super().copy())
        r.sym = self.sym
        return r

    def setdefault(self, key, default=None):
        if self.sym is not None or self._symkey(key) or len(ENG.loopctx) > self.depth:
            raise Unsupported("setdefault")
        return super().setdefault(self._norm(key), default)


_MISSING = object()


# ------------------------------------------------------------------ list from iterables
def mklist(x):
    if isinstance(x, SGen):
        x = x.force()
    if is_symseq(x):
        return VList(sym=to_slist(x))
    if isinstance(x, Arr):
        return VList([x[i] for i in range(x.axes[0].concrete())])
    return VList(x)


def b_sum(x, start=0):
    if isinstance(x, SGen):
        x = x.force()
    if is_symseq(x):
        sl = to_slist(x)
        tot = []
        kinds = []
        npf = False
        for idx, v, hi, g, val in sl.legs:
            if isinstance(val, Arr):
                if len(sl.legs) != 1:
                    raise Unsupported("sum of array pieces")
                arr = asarr(sl)
                r = reduce_(arr, 0, "sum")
                return r + start if not (is_numlike(start) and t_of(start) is ZERO) else r
            b = t_of(val)
            kinds.append(kind_of(val))
            npf = npf or is_np(val)
            if g is not TRUE:
                b = ite(g, b, ZERO) if b.op in ("ite", "special") else mul(ind(g), b)
            tot.append(mk_sum(v, hi, b))
        k = join_kind(*kinds)
        r = wrap(add(ZERO, *tot), "i" if k == "b" else k, npf)
        if is_numlike(start) and t_of(start) is ZERO:
            return r
        return r + start
    r = start
    for e in x:
        r = r + e
    return r
