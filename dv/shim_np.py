"""Trusted contracts of the numpy functions the code under verification uses (and common relatives)."""
from __future__ import annotations
import types
import math as _math
from fractions import Fraction
from . import terms as TM
from .terms import *
from .engine import ENG, Unsupported
from .prover import PRV
from .sym import *
from .sym import _b, _asarr
from . import sym as SY
from . import loader as LD
from .loader import b_len

ns: dict = {}


def reg(*names):
    def d(f):
        for n in names or (f.__name__,):
            ns[n] = f
        return f
    return d


def elementwise(f, kind="f"):
    def g(x, *a, out=None, where=None, **k):
        if isinstance(x, (list, tuple, SList)):
            x = asarr(x)
        if isinstance(x, Arr):
            r = ew(f, x, kind=kind)
            if where is not None and where is not True:
                if out is None:
                    raise Unsupported("ufunc where= without out=")
                m = asarr(where)
                rr = r.reader()
                rm = m.reader()
                out.write_all(lambda *i: rr(*i), cond=lambda *i: b_of(rm(*i)))
                return out
            if out is not None:
                return out._inplace(r)
            return r
        return wrap(f(t_of(x)), kind, True)
    return g


log = ns["log"] = elementwise(log_terms)
LN2, LN10 = TM.log(num(2)), TM.log(num(10))
ns["log2"] = elementwise(lambda t: div_terms(log_terms(t), LN2))
ns["log10"] = elementwise(lambda t: div_terms(log_terms(t), LN10))
ns["log1p"] = elementwise(lambda t: log_terms(add(ONE, t)))


def exp_terms(t):
    if t.op == "ite":
        return ite(t.args[0], exp_terms(t.args[1]), exp_terms(t.args[2]))
    if t is NINF:
        return ZERO
    if t.op == "special":
        return t
    return fn("exp", t)


ns["exp"] = elementwise(exp_terms)
ns["sqrt"] = elementwise(sqrt_terms)


def abs_terms(t):
    if t.op == "ite":
        return ite(t.args[0], abs_terms(t.args[1]), abs_terms(t.args[2]))
    if t is NINF:
        return INF
    if t.op == "special":
        return t
    if PRV.nonneg(t):
        return t
    if PRV.nonneg(neg(t)):
        return neg(t)
    return fn("abs", t)


@reg("abs", "absolute", "fabs")
def np_abs(x, **k):
    if isinstance(x, (list, tuple, SList)):
        x = asarr(x)
    if isinstance(x, Arr):
        return ew(abs_terms, x)
    return wrap(abs_terms(t_of(x)), kind_of(x), True)


ns["floor"] = elementwise(lambda t: fn("floor", t))
ns["ceil"] = elementwise(lambda t: neg(fn("floor", neg(t))))
ns["square"] = lambda x: asarr(x) * asarr(x) if isinstance(x, (Arr, list, tuple, SList)) else x * x


def isnan_t(t):
    if t.op == "ite":
        return or_(and_(t.args[0], isnan_t(t.args[1])), and_(not_(t.args[0]), isnan_t(t.args[2])))
    return TRUE if t is NAN else FALSE


def isinf_t(t):
    if t.op == "ite":
        return or_(and_(t.args[0], isinf_t(t.args[1])), and_(not_(t.args[0]), isinf_t(t.args[2])))
    return TRUE if t in (INF, NINF) else FALSE


def isfin_t(t):
    if t.op == "ite":
        return or_(and_(t.args[0], isfin_t(t.args[1])), and_(not_(t.args[0]), isfin_t(t.args[2])))
    return FALSE if t.op == "special" else TRUE


def _boolfn(f):
    def g(x, **k):
        if isinstance(x, (list, tuple, SList)):
            x = asarr(x)
        if isinstance(x, Arr) and x.axes:
            return ew(f, x, kind="b")
        return sbool(f(t_of(x)))
    return g


ns["isnan"], ns["isinf"], ns["isfinite"] = _boolfn(isnan_t), _boolfn(isinf_t), _boolfn(isfin_t)
ns["signbit"] = _boolfn(lambda t: lt(t, ZERO))


def bin_(f, kind=None, arith=False):
    def g(a, b, **k):
        if k.get("out") is not None or k.get("where") is not None:
            raise Unsupported("ufunc keyword")
        if not isinstance(a, (Arr, list, tuple, SList)) and not isinstance(b, (Arr, list, tuple, SList)):
            r = f(t_of(a), t_of(b))
            kd = kind or join_kind(kind_of(a), kind_of(b))
            return wrap(r, kd, True) if r.sort != "B" else sbool(r)
        return ew(f, a, b, kind=kind, arith=arith)
    return g


ns["maximum"] = bin_(lambda a, b: fn("max", a, b))
ns["minimum"] = bin_(lambda a, b: fn("min", a, b))
ns["add"] = lambda a, b, **k: asarr(a) + b if isinstance(a, (Arr, list)) else a + b
ns["subtract"] = lambda a, b, **k: asarr(a) - b if isinstance(a, (Arr, list)) else a - b
ns["multiply"] = lambda a, b, **k: (asarr(a) if isinstance(a, (list, SList)) else a) * b


@reg("divide", "true_divide")
def np_divide(a, b, out=None, where=None, **k):
    r = ew(div_terms, a, b, kind="f")
    if where is not None and where is not True:
        if out is None:
            raise Unsupported("divide where= without out=")
        rr, rm = asarr(r).reader(), asarr(where).reader()
        a_, b_ = asarr(a), asarr(b)
        ra, rb = a_.reader(), b_.reader()
        axes = r.axes

        def g(*i):
            c = b_of(rm(*i))
            with facts(c):
                return div_terms(ra(*bidx(a_, axes, i)), rb(*bidx(b_, axes, i)))
        out.write_all(g, cond=lambda *i: b_of(rm(*i)))
        return out
    return r


ns["power"] = lambda a, b, **k: LD.RT.pow(a, b)
ns["logical_and"] = bin_(lambda a, b: and_(b_of(a), b_of(b)), "b")
ns["logical_or"] = bin_(lambda a, b: or_(b_of(a), b_of(b)), "b")
ns["logical_not"] = lambda a: LD.RT.not_(a) if not isinstance(a, Arr) else ~(a if a.kind == "b" else a != 0)
ns["equal"] = bin_(eq, "b")
ns["not_equal"] = bin_(lambda a, b: not_(eq(a, b)), "b")
ns["greater"] = bin_(gt, "b")
ns["less"] = bin_(lt, "b")
ns["greater_equal"] = bin_(ge, "b")
ns["less_equal"] = bin_(le, "b")


# ---- construction
@reg("asarray", "asanyarray", "ascontiguousarray")
def np_asarray(x, dtype=None, **k):
    return asarr(conv(x), dtype)


def conv(x):
    if isinstance(x, SGen):
        x = x.force()
    if isinstance(x, (SZip, SEnum)):
        x = to_slist(x)
    if isinstance(x, SDictView):
        raise Unsupported("array of a dict view")
    return x


@reg("array")
def np_array(x, dtype=None, copy=True, **k):
    a = asarr(conv(x), dtype)
    return a.copy() if a is x or isinstance(x, Arr) else a


@reg("copy")
def np_copy(x): return asarr(x).copy()


def _shape(s):
    if is_numlike(s):
        s = (s,)
    out = []
    for x in s:
        t = t_of(x)
        if isinstance(x, SNum) and x.kind == "f":
            raise TypeError("'float' object cannot be interpreted as an integer")
        if not PRV.nonneg(t):
            if ENG.decide(lt(t, ZERO)):
                raise ValueError("negative dimensions are not allowed")
        out.append(Axis(t))
    return out


def full_(shape, t, kind): return Arr(lambda *i: t, _shape(shape), kind)


@reg("zeros")
def np_zeros(shape, dtype=float, **k):
    kd = kind_from_dtype(dtype)
    r = full_(shape, FALSE if kd == "b" else ZERO, kd)
    return fits(r, narrow_of(dtype)) if narrow_of(dtype) else r


@reg("empty")
def np_empty(shape, dtype=float, **k):
    kd = kind_from_dtype(dtype)
    nm = fresh("uninit", "R")
    return Arr(lambda *i: rawapp("uninit", nm, *i, sort="R"), _shape(shape), kd)


@reg("ones")
def np_ones(shape, dtype=float, **k):
    kd = kind_from_dtype(dtype)
    r = full_(shape, TRUE if kd == "b" else ONE, kd)
    return fits(r, narrow_of(dtype)) if narrow_of(dtype) else r


@reg("full")
def np_full(shape, v, dtype=None, **k): return full_(shape, t_of(v), kind_from_dtype(dtype) if dtype is not None else kind_of(v))


def _like(f):
    def g(a, dtype=None, **k):
        a = asarr(a)
        kd = kind_from_dtype(dtype) if dtype is not None else a.kind
        t = f(kd)
        return Arr(lambda *i: t, a.axes, kd)
    return g


ns["zeros_like"] = _like(lambda k: FALSE if k == "b" else ZERO)
ns["ones_like"] = _like(lambda k: TRUE if k == "b" else ONE)


@reg("full_like")
def np_full_like(a, v, dtype=None, **k):
    a = asarr(a)
    t = t_of(v)
    return Arr(lambda *i: t, a.axes, kind_from_dtype(dtype) if dtype is not None else a.kind)


ns["empty_like"] = lambda a, dtype=None, **k: np_empty(asarr(a).shape, dtype or asarr(a).dtype)


@reg("arange")
def np_arange(*a, dtype=None, **k):
    if len(a) == 1:
        lo, hi, st = ZERO, t_of(a[0]), ONE
    elif len(a) == 2:
        lo, hi, st = t_of(a[0]), t_of(a[1]), ONE
    else:
        lo, hi, st = t_of(a[0]), t_of(a[1]), t_of(a[2])
    kd = join_kind(*[kind_of(x) for x in a])
    if kd != "i":
        raise Unsupported("arange of floats")
    sv = numval(st)
    if sv is not None and sv == -1:
        n = fn("max", sub(lo, hi), ZERO)
    elif st is ONE:
        n = sub(hi, lo) if PRV.nonneg(sub(hi, lo)) else fn("max", sub(hi, lo), ZERO)
    else:
        if not PRV.pos(st):
            raise Unsupported("arange step")
        n = fn("max", idiv(add(sub(hi, lo), st, num(-1)), st), ZERO)
    kd = kind_from_dtype(dtype) if dtype is not None else "i"
    return Arr(lambda i: add(lo, mul(st, i)), (Axis(n),), kd)


@reg("concatenate")
def np_concatenate(xs, axis=0, **k):
    xs = conv(xs)
    if is_symseq(xs):
        raise Unsupported("concatenate of a symbolic list")
    arrs = [asarr(conv(x)) for x in xs]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    if any(a.ndim == 0 for a in arrs):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if len({a.ndim for a in arrs}) != 1:
        raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    if len(arrs) == 1:
        return arrs[0].copy()
    nd = arrs[0].ndim
    axis = int(axis) % nd
    kind = join_kind(*[a.kind for a in arrs])
    for a in arrs[1:]:
        for d in range(nd):
            if d != axis and same_axis(a.axes[d], arrs[0].axes[d]) is not True:
                if a.axes[d].simple and arrs[0].axes[d].simple and ENG.decide(eq(a.axes[d].hi, arrs[0].axes[d].hi)):
                    continue
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    if axis == 1 and nd == 2:
        blocks = []
        for a in arrs:
            blocks += blocks_of(a)
        return block_array(arrs[0].axes[0], blocks, kind)
    if axis == 2 and nd == 3:
        rs = [a.reader() for a in arrs]
        offs = []
        o = ZERO
        for a in arrs:
            offs.append(o)
            o = add(o, a.axes[2].length())
        if numval(o) is None:
            raise Unsupported("concatenate 3-d arrays of symbolic depth")

        def g(i, j, q):
            v = numval(q)
            r = None
            for rr, off, a in reversed(list(zip(rs, offs, arrs))):
                w = int(numval(a.axes[2].hi))
                if v is not None:
                    if numval(off) <= v < numval(off) + w:
                        return rr(i, j, num(v - numval(off)))
                    continue
                t = rr(i, j, sub(q, off))
                r = t if r is None else ite_b(lt(q, add(off, num(w))), t, r)
            return r
        return Arr(g, (arrs[0].axes[0], arrs[0].axes[1], Axis(o)), kind)
    if axis != 0:
        raise Unsupported("concatenate axis")
    if all(a.axes[0].concrete() is not None for a in arrs):
        rs = [(a.reader(), int(a.axes[0].concrete())) for a in arrs]
        tot = sum(n for _, n in rs)

        def rd(q, *rest):
            for r, n in rs:
                if q < n:
                    return r(num(q), *rest)
                q -= n

        return Arr(lambda i, *rest: pick([rd(q, *rest) for q in range(tot)], i) if numval(i) is None else rd(int(numval(i)), *rest), (Axis(num(tot)),) + arrs[0].axes[1:], kind)
    rs = [a.reader() for a in arrs]
    if all(a.axes[0].simple for a in arrs):
        # positional concatenation
        offs = [ZERO]
        for a in arrs:
            offs.append(add(offs[-1], a.axes[0].hi))

        def g(i, *rest):
            cands = []
            for r, lo, hi in zip(rs, offs, offs[1:]):
                d = PRV.decide(and_(ge(i, lo), lt(i, hi)))
                if d is True:
                    return r(sub(i, lo), *rest)
                if d is None:
                    cands.append((r, lo, hi))
            out = cands[-1][0](sub(i, cands[-1][1]), *rest)
            for r, lo, hi in reversed(cands[:-1]):
                out = ite_b(lt(i, hi), r(sub(i, lo), *rest), out)
            return out
        return Arr(g, (Axis(offs[-1]),) + arrs[0].axes[1:], kind)
    ax_ = Axis(pieces=[a.axes[0] for a in arrs])

    def g(i, *rest):
        if isinstance(i, PIdx):
            return rs[i.p](i.t, *rest)
        raise Unsupported("positional index into a concatenation of filtered arrays")
    meta = {}
    return Arr(g, (ax_,) + arrs[0].axes[1:], kind, meta=meta)


@reg("column_stack")
def np_column_stack(xs):
    xs = conv(xs)
    if is_symseq(xs):
        raise Unsupported("column_stack of a symbolic list")
    arrs = [asarr(conv(x)) for x in xs]
    a0 = arrs[0].axes[0]
    for a in arrs[1:]:
        if same_axis(a.axes[0], a0) is not True:
            if a.axes[0].simple and a0.simple and ENG.decide(eq(a.axes[0].hi, a0.hi)):
                continue
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    blocks = []
    for a in arrs:
        blocks += blocks_of(a)
    return block_array(a0, blocks, join_kind(*[a.kind for a in arrs]))


@reg("hstack")
def np_hstack(xs, **k):
    arrs = [asarr(x) for x in conv(xs)]
    return np_concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1)


@reg("vstack", "row_stack")
def np_vstack(xs, **k):
    xs = [asarr(x) for x in conv(xs)]
    if all(a.ndim == 1 for a in xs):
        return asarr(xs)
    return np_concatenate(xs, axis=0)


@reg("stack")
def np_stack(xs, axis=0):
    a = asarr([asarr(x) for x in conv(xs)])
    if axis == 0:
        return a
    if axis in (1, -1) and a.ndim == 2:
        return np_column_stack(list(conv(xs)))
    raise Unsupported("stack axis")


@reg("expand_dims")
def np_expand_dims(a, axis):
    a = asarr(a)
    if axis == -1 or axis == a.ndim:
        return a[(Ellipsis, None)]
    if axis == 0:
        return a[None]
    if a.ndim == 2 and axis == 1:
        return a[:, None, :]
    raise Unsupported("expand_dims")


@reg("atleast_2d")
def np_atleast_2d(a):
    a = asarr(a)
    return a if a.ndim >= 2 else a[None, :] if a.ndim == 1 else a[None, None]


@reg("atleast_1d")
def np_atleast_1d(a):
    a = asarr(a)
    return a if a.ndim >= 1 else a[None]


ns["ravel"] = np_ravel
ns["squeeze"] = np_squeeze
ns["reshape"] = lambda a, s, **k: np_reshape(a, s if isinstance(s, (tuple, list)) else (s,))
ns["transpose"] = lambda a: asarr(a).T
ns["take"] = np_take


# ---- reductions
def red(what):
    def f(a, axis=None, dtype=None, keepdims=False, out=None, where=None, **k):
        a = conv(a)
        if where is not None:
            raise Unsupported("reduction where=")
        if isinstance(a, LD.SNest):
            return LD.b_sum(a)
        if is_symseq(a) and not isinstance(a, Arr):
            sl = to_slist(a)
            if what == "sum" and all(is_numlike(l[4]) for l in sl.legs):
                r = SY.b_sum(sl)
                return wrap(t_of(r), kind_of(r), True)
            a = sl.to_arr()
        if what == "sum" and isinstance(a, (VList, list, tuple)) and len(a) and not all(is_numlike(e) for e in a):
            pass
        return reduce_(asarr(a), axis, what, dtype, keepdims)
    return f


for _n, _w in (("sum", "sum"), ("prod", "prod"), ("min", "min"), ("max", "max"), ("amin", "min"), ("amax", "max"), ("any", "any"), ("all", "all"), ("product", "prod")):
    ns[_n] = red(_w)


@reg("nansum")
def np_nansum(a, axis=None, **k):
    a = asarr(conv(a))

    def clean(t):
        if t.op == "ite":
            return ite(t.args[0], clean(t.args[1]), clean(t.args[2]))
        return ZERO if t is NAN else t
    return reduce_(ew(clean, a), axis, "sum")


@reg("mean", "average")
def mean(a, axis=None, **k):
    a = asarr(conv(a))
    if k.get("weights") is not None:
        raise Unsupported("weighted average")
    return np_mean(a, axis)


ns["std"] = lambda a, axis=None, ddof=0, **k: np_std(conv(a), axis, ddof)
ns["var"] = lambda a, axis=None, ddof=0, **k: np_var(conv(a), axis, ddof)
ns["cumsum"] = lambda a, axis=None, **k: np_cum(a, axis, "sum")
ns["cumprod"] = lambda a, axis=None, **k: np_cum(a, axis, "prod")


@reg("count_nonzero")
def np_count_nonzero(a, axis=None, **k):
    a = asarr(a)
    b = a if a.kind == "b" else a != 0
    return reduce_(b, axis, "sum")


@reg("dot")
def np_dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return reduce_(a * b, None, "sum")
    ra, rb = a.reader(), b.reader()
    if a.ndim == 2 and b.ndim == 1:
        return Arr(lambda i: _contract(a.axes[1], lambda k: mul(ra(i, k), rb(k))), (a.axes[0],), join_kind(a.kind, b.kind))
    if a.ndim == 1 and b.ndim == 2:
        return Arr(lambda j: _contract(a.axes[0], lambda k: mul(ra(k), rb(k, j))), (b.axes[1],), join_kind(a.kind, b.kind))
    if a.ndim == 2 and b.ndim == 2:
        return Arr(lambda i, j: _contract(a.axes[1], lambda k: mul(ra(i, k), rb(k, j))), (a.axes[0], b.axes[1]), join_kind(a.kind, b.kind))
    raise Unsupported("dot")


def _contract(axis, body):
    n = axis.concrete()
    if n is not None:
        return add(ZERO, *[body(i) for i in axis.indices()])
    return sum_over([axis], body)


ns["matmul"] = np_dot
SY.np_dot = np_dot


@reg("clip")
def np_clip(a, lo=None, hi=None, **k):
    lo = k.get("a_min", lo)
    hi = k.get("a_max", hi)

    def f(t):
        if lo is not None:
            t = fn("max", t, t_of(lo))
        if hi is not None:
            t = fn("min", t, t_of(hi))
        return t
    if isinstance(a, Arr) or isinstance(a, (list, tuple, SList)):
        return ew(f, asarr(a))
    return wrap(f(t_of(a)), kind_of(a), True)


SY.np_clip = np_clip


def ite_arr(c, x, y):
    return ew(lambda c_, a, b: ite_b(b_of(c_), a, b), c, x, y, kind=join_kind(kind_of(asarr(x)), kind_of(asarr(y))))


@reg("where")
def np_where(c, x=None, y=None):
    c = asarr(c)
    if x is None:
        return np_nonzero(c)
    xa, ya = asarr(x), asarr(y)
    axes = bcast(c, xa, ya)
    rc, rx, ry = c.reader(), xa.reader(), ya.reader()
    kind = join_kind(xa.kind, ya.kind)

    def g(*i):
        cc = b_of(rc(*bidx(c, axes, i)))
        d = PRV.decide(cc)
        if d is True:
            return rx(*bidx(xa, axes, i))
        if d is False:
            return ry(*bidx(ya, axes, i))
        with facts(cc):
            a = rx(*bidx(xa, axes, i))
        with facts(not_(cc)):
            b = ry(*bidx(ya, axes, i))
        return ite_b(cc, a, b)
    if not axes:
        return wrap(g(), kind, True)
    return Arr(g, axes, kind)


@reg("nonzero")
def np_nonzero(a):
    a = asarr(a)
    if a.ndim == 1:
        r = a.reader()
        na = filter_axis(a.axes[0], lambda i: b_of(r(i)))
        return (Arr(lambda i: i, (na,), "i"),)
    raise Unsupported("nonzero of an n-d array")


SY.np_nonzero = np_nonzero
ns["flatnonzero"] = lambda a: np_nonzero(np_ravel(a))[0]


# ---- discrete structure
@reg("unique")
def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = asarr(conv(a))
    if a.ndim == 2 and axis is None:
        a = np_ravel(a)
    if a.ndim == 0:
        a = np_ravel(a)
    if not a.axes[0].simple:
        raise Unsupported("unique of a filtered array")
    if a.ndim == 1:
        comps = [a.reader()]
    elif a.ndim == 2 and axis in (0,):
        comps = row_comps(a)
    else:
        raise Unsupported("unique axis")
    P = register_part(Part(a.axes[0], comps))
    kax = Axis(P.K)
    kax.part = P
    kax.key = ("classes", P.S)
    if a.ndim == 1:
        vals = Arr(lambda k_: P.comp_at_class(0, k_), (kax,), a.kind, meta={"uniq": (P, 0)})
    else:
        r = a.reader()
        vals = Arr(lambda k_, j: r(P.rep(k_), j), (kax, a.axes[1]), a.kind, meta={"uniq": (P, None)})
    out = [vals]
    if return_index:
        out.append(Arr(lambda k_: P.rep(k_), (kax,), "i"))
    if return_inverse:
        out.append(Arr(lambda i: P.cls(i), a.axes[:1], "i", meta={"labels": P}))
    if return_counts:
        out.append(Arr(lambda k_: P.count_class(k_), (kax,), "i", meta={"counts": P}))
    return tuple(out) if len(out) > 1 else vals


@reg("unique_values")
def np_unique_values(a): return np_unique(a)


@reg("bincount")
def np_bincount(a, weights=None, minlength=0):
    a = asarr(a)
    P = a.meta.get("labels")
    if P is None or weights is not None:
        raise Unsupported("bincount of non-label integers")
    kax = Axis(P.K)
    kax.part = P
    kax.key = ("classes", P.S)
    return Arr(lambda k_: P.count_class(k_), (kax,), "i", meta={"counts": P})


@reg("array_equal")
def np_array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.axes, b.axes):
        if same_axis(x, y) is not True:
            if not (x.simple and y.simple and ENG.decide(eq(x.hi, y.hi))):
                return False
    return (a == b).all()


@reg("argsort")
def np_argsort(a, axis=-1, kind=None, stable=None, **k):
    """rank structure: perm(S, pos) over the rows; only its defining property (a sorting permutation) is used"""
    a = asarr(a)
    if a.ndim == 1:
        n = a.axes[0].hi
        nn = a.axes[0].concrete()
        r = a.reader()
        st = 1 if (stable or kind in ("stable", "mergesort")) else 0
        if nn is not None and (nn <= 4 or nn <= 20 and all(is_num(r(num(i))) for i in range(nn))):
            return _argsort_conc([r(num(i)) for i in range(nn)], st)
        v = fresh("i", "I", n)
        lam = mk_lam(v, n, r(v))
        return Arr(lambda p: rawapp("argsort", lam, num(st), p, sort="I"), (a.axes[0],), "i",
                   meta={"perm": lambda p: rawapp("argrank", lam, num(st), p, sort="I")})
    if a.ndim == 2 and axis in (-1, 1):
        r = a.reader()
        w = a.axes[1]
        st = 1 if (stable or kind in ("stable", "mergesort")) else 0

        def g(i, p):
            if w.concrete() is not None and w.concrete() <= 6:
                return pick_rank([r(i, num(q)) for q in range(w.concrete())], p)
            v = fresh("i", "I", w.hi)
            return rawapp("argsort", mk_lam(v, w.hi, r(i, v)), num(st), p, sort="I")
        return Arr(g, a.axes, "i")
    raise Unsupported("argsort axis")


def ranks(ts):
    """stable rank of each element (number of elements that sort before it)"""
    out = []
    for i, x in enumerate(ts):
        c = []
        for j, y in enumerate(ts):
            if j == i:
                continue
            c.append(ind(le(y, x)) if j < i else ind(lt(y, x)))
        out.append(add(ZERO, *c))
    return out


def pick_rank(ts, p):
    """index of the element with stable rank p"""
    rk = ranks(ts)
    r = num(len(ts) - 1)
    return add(ZERO, *[mul(num(i), ind(eq(rk[i], p))) for i in range(len(ts))])


def _argsort_conc(ts, st):
    return Arr(lambda p: pick_rank(ts, p), (Axis(num(len(ts))),), "i", meta={"sorted_of": ts})


SY.np_argsort = np_argsort


@reg("sort")
def np_sort(a, axis=-1, **k):
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("sort of an n-d array")
    n = a.axes[0]
    r = a.reader()
    if not n.simple:
        raise Unsupported("sort of a filtered array")
    v = fresh("i", "I", n.hi)
    lam = mk_lam(v, n.hi, r(v))
    return Arr(lambda p: rawapp("kth", lam, p, sort="R" if a.kind == "f" else "I"), (n,), a.kind)


@reg("percentile")
def np_percentile(a, q, axis=None, **k):
    a = asarr(a)
    extra = sorted((kk, str(vv)) for kk, vv in k.items())
    n = a.axes[0]
    v = fresh("i", "I", n.hi)
    lam = mk_lam(v, n.hi, a.at(v))
    tag = "percentile" + "".join(f"_{x}_{y}" for x, y in extra)
    if isinstance(q, (list, tuple, Arr, SList)):
        qa = asarr(q)
        rq = qa.reader()
        return Arr(lambda i: rawapp(tag, lam, rq(i), sort="R"), qa.axes, "f")
    return wrap(rawapp(tag, lam, t_of(q), sort="R"), "f", True)


ns["quantile"] = lambda a, q, **k: np_percentile(a, (asarr(q) * 100) if isinstance(q, (list, tuple, Arr)) else q * 100, **k)
ns["median"] = lambda a, **k: np_percentile(a, 50)


# ---- distances / matrices
@reg("nextafter")
def np_nextafter(x, y):
    """the neighbouring float: strictly between x and every other number on that side"""
    if isinstance(x, (list, tuple, SList)):
        x = asarr(x)
    ty = t_of(y)
    d = "up" if ty is INF else "down" if ty is NINF else None
    if d is None:
        v = numval(ty)
        if v == 0:
            d = "down"
        else:
            raise Unsupported("nextafter direction")
    f = lambda t: rawapp("next_" + d, t, sort="R")
    if isinstance(x, Arr):
        return ew(f, x, kind="f")
    return wrap(f(t_of(x)), "f", True)


@reg("cov")
def np_cov(m, *a, rowvar=True, bias=False, ddof=None, **k):
    m = asarr(m)
    if not rowvar:
        m = m.T if m.ndim == 2 else m
    if m.ndim == 1:
        mm = np_var(m, ddof=0 if bias else 1)
        return Arr0(mm)
    r = m.reader()
    n = m.axes[1].length()
    ax1 = m.axes[1]

    def g(i, j):
        f = lambda q: sum_over([ax1], lambda t: r(q, t))
        mi = mul(f(i), power(n, num(-1)))
        mj = mul(f(j), power(n, num(-1)))
        s = sum_over([ax1], lambda t: mul(sub(r(i, t), mi), sub(r(j, t), mj)))
        return mul(s, power(n if bias else sub(n, ONE), num(-1)))
    return Arr(g, (m.axes[0], m.axes[0]), "f", meta={"cov": True})


@reg("apply_along_axis")
def np_apply_along_axis(f, axis, arr, *a, **k):
    arr = asarr(arr)
    if axis not in (1, -1) or arr.ndim != 2:
        raise Unsupported("apply_along_axis")
    sl = to_slist(arr)
    r = LD.RT.comp("list", sl, None, lambda row: f(row, *a, **k))
    return asarr(r)


@reg("array_split")
def np_array_split(a, n, axis=0):
    """contiguous pieces, the first len % n of them one longer"""
    a = asarr(a)
    axis = int(axis) % a.ndim
    nt = t_of(n)
    k = numval(nt)
    if k is None:
        for c in range(1, 17):
            if ENG.decide(eq(nt, num(c))):
                k = c
                break
        else:
            raise Unsupported("array_split into an unbounded number of pieces")
    k = int(k)
    if k <= 0:
        raise ValueError("number sections must be larger than 0.")
    N = a.axes[axis].hi
    if not a.axes[axis].simple:
        raise Unsupported("array_split of a filtered array")
    q, r = floordiv_t(N, num(k)), mod_t(N, num(k))
    rv = numval(r)
    if rv is None:
        rv = next((c for c in range(k - 1) if ENG.decide(eq(r, num(c)))), k - 1)
    cut = lambda i: N if i == k else add(mul(num(i), q), num(min(i, int(rv))))
    rd = a.reader()
    out = []
    for i in range(k):
        lo, hi = cut(i), cut(i + 1)
        axes = tuple(Axis(sub(hi, lo)) if d == axis else x for d, x in enumerate(a.axes))
        out.append(Arr((lambda lo: lambda *ix: rd(*[add(lo, t) if d == axis else t for d, t in enumerate(ix)]))(lo), axes, a.kind))
    return VList(out)


@reg("isclose")
def np_isclose(a, b, rtol=None, atol=None, **k):
    rt = t_of(rtol) if rtol is not None else num(Fraction(1, 10**5))
    at = t_of(atol) if atol is not None else num(Fraction(1, 10**8))

    def f(x, y):
        if x.op == "special" or y.op == "special":
            return TRUE if x is y and x is not NAN else FALSE
        return le(abs_terms(sub(x, y)), add(at, mul(rt, abs_terms(y))))
    return bin_(f, "b")(a, b)


@reg("allclose")
def np_allclose(a, b, **k):
    r = np_isclose(a, b, **k)
    return r.all() if isinstance(r, Arr) else r


@reg("issubdtype")
def np_issubdtype(d, t):
    d = d if isinstance(d, type) else KIND_TYPE[kind_from_dtype(d)]
    if t in (int, float, bool, str):
        t = {int: np_integer, float: np_floating, bool: np_bool, str: np_str}[t]
    if isinstance(t, str):
        t = KIND_TYPE[kind_from_dtype(t)]
    if d in (int, float, bool):
        d = {int: np_int64, float: np_float64, bool: np_bool}[d]
    return issubclass(d, t)


@reg("iinfo")
def np_iinfo(d):
    k = kind_from_dtype(d)
    w = narrow_of(d)
    if w:
        return types.SimpleNamespace(max=w[2], min=w[1])
    return types.SimpleNamespace(max=2**63 - 1 if k == "i" else 2**64 - 1, min=-(2**63) if k == "i" else 0)


@reg("finfo")
def np_finfo(d):
    return types.SimpleNamespace(eps=LD.RT.fl("2.220446049250313e-16"), max=SNum(fresh("fmax", "R"), "f", True))


ns["ndim"] = lambda a: asarr(a).ndim
ns["shape"] = lambda a: asarr(a).shape
ns["size"] = lambda a: asarr(a).size
ns["isscalar"] = lambda a: is_numlike(a) and not isinstance(a, Arr)


@reg("diff")
def np_diff(a, n=1, axis=-1):
    a = asarr(a)
    return a[1:] - a[:-1]


@reg("linspace")
def np_linspace(*a, **k): raise Unsupported("linspace")


class errstate:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


ns["errstate"] = errstate
ns["seterr"] = lambda **k: {}
ns.update(inf=SNum(INF, "f", False), nan=SNum(NAN, "f", False), pi=SNum(fn("const_pi"), "f", False), e=SNum(fn("const_e"), "f", False),
          euler_gamma=SNum(fn("const_egamma"), "f", False), newaxis=None, True_=True, False_=False)
ns["inf"] = SNum(INF, "f", False)
ns.update(ndarray=Arr, generic=np_generic, number=np_number, integer=np_integer, signedinteger=np_signed, floating=np_floating,
          int64=np_int64, int32=np_int32, int16=np_int16, int8=np_int8, uint8=np_uint8, uint16=np_uint16, intc=np_int32, int_=np_int64, intp=np_int64, uint64=np_uint64, uint32=np_uint32, float64=np_float64, float32=np_float32, float16=np_float32, bool_=np_bool, str_=np_str, dtype=DType)


def as_strided(x, shape=None, strides=None, **k):
    """sliding windows of a 1-D buffer.  Obligation: every addressed element lies inside the buffer"""
    a = asarr(x)
    if a.ndim != 1:
        raise Unsupported("as_strided of an n-d array")
    sh = [t_of(s) for s in shape]
    st = [t_of(s) for s in strides]
    steps = []
    base = mul(num(8), a.meta.get("stride", ONE)) if "stride" in a.meta else num(8)
    own = a.meta.get("stride", ONE)
    for s in st:
        q = mul(s, power(num(8), num(-1)))
        if own is not ONE:
            q2 = mul(q, power(own, num(-1))) if PRV.nonzero(own) else None
            if q2 is None:
                raise Unsupported("stride")
            q = q2
        steps.append(q)
    axes = _shape(shape)
    vs = [fresh("w", "I", s) for s in sh]
    pos = add(ZERO, *[mul(p, v) for p, v in zip(steps, vs)])
    last = add(ZERO, *[mul(p, sub(s, ONE)) for p, s in zip(steps, sh)])
    ok = PRV.decide(and_(ge(pos, ZERO), lt(pos, a.axes[0].hi)))
    if ok is not True:
        # monotone: the extreme corner bounds all positions
        if all(PRV.nonneg(p) for p in steps):
            empty = or_(*[le(s, ZERO) for s in sh])
            ok = PRV.decide(or_(empty, lt(last, a.axes[0].hi)))
    ENG.oblige("as_strided stays inside the buffer", ok is True, "z3", f"last element {last} vs length {a.axes[0].hi}")
    m0 = a.vmap

    def vm(*i):
        p = add(ZERO, *[mul(s, x_) for s, x_ in zip(steps, i)])
        return m0(p) if m0 else (p,)
    return Arr(buf=a.buf, axes=axes, kind=a.kind, vmap=vm, inv=NOINV)


def sliding_window_view(x, window_shape, axis=None, **k):
    a = asarr(x)
    if a.ndim != 1 or not is_numlike(window_shape):
        raise Unsupported("sliding_window_view")
    w = t_of(window_shape)
    n = sub(a.axes[0].hi, sub(w, ONE))
    if not ENG.decide(ge(n, ONE)):
        raise ValueError("window shape cannot be larger than input array shape")
    return as_strided(a, (wrap(n, "i", False), wrap(w, "i", False)), (8, 8))


def make():
    m = types.ModuleType("numpy")
    m.__dict__.update(ns)
    return m
