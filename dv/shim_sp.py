"""Trusted contracts of scipy / sparse / multiprocessing / random generators / collections.Counter / math."""
from __future__ import annotations
import types
import math as _math
import collections
from . import terms as TM
from .terms import *
from .engine import ENG, Unsupported
from .prover import PRV
from .sym import *
from . import sym as SY
from . import loader as LD
from . import shim_np as NP
from .shim_np import elementwise, conv

special: dict = {}


def fapp(name, t, *pre):
    if t.op == "ite":
        return ite(t.args[0], fapp(name, t.args[1], *pre), fapp(name, t.args[2], *pre))
    if t.op == "special":
        raise Unsupported(f"{name} of a special value")
    return fn(name, *pre, t)


special["digamma"] = elementwise(lambda t: fapp("digamma", t))
special["psi"] = special["digamma"]
special["gamma"] = elementwise(lambda t: fapp("gamma", t))
special["loggamma"] = elementwise(lambda t: fapp("loggamma", t))
special["gammaln"] = special["loggamma"]


def polygamma(n, x):
    tn = t_of(n)
    return elementwise(lambda t: fapp("polygamma", t, tn))(x)


special["polygamma"] = polygamma


def xlogy_t(x, y):
    if x is ZERO:
        return ZERO
    d = PRV.decide(eq(x, ZERO))
    if d is True:
        return ZERO
    if d is False:
        return mul(x, log_terms(y))
    return ite(eq(x, ZERO), ZERO, mul(x, log_terms(y)))


special["xlogy"] = NP.bin_(xlogy_t, "f")
special["entr"] = elementwise(lambda t: neg(xlogy_t(t, t)))


def factorial(n, exact=True, **k):
    if isinstance(n, Arr):
        return ew(fact_t, n)
    if isinstance(n, int):
        if n < 0:
            raise ValueError("factorial() not defined for negative values")
        return _math.factorial(n)
    if is_numlike(n):
        if isinstance(n, SNum) and n.kind == "f":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return wrap(fact_t(t_of(n)), "i", False)
    return _math.factorial(n)


def fact_t(t):
    v = numval(t)
    if v is not None and v.denominator == 1 and v >= 0:
        return num(_math.factorial(int(v)))
    return fn("fact", t)


special["factorial"] = factorial


# ------------------------------------------------------------------ contingency tables
class Table:
    """counts of the value combinations of several label arrays (cells of absent combinations are 0)"""

    def __init__(self, parts, axis, kind="i", keep=None):
        self.parts = parts            # Part per dimension
        self.axis0 = axis             # samples
        self.keep = keep if keep is not None else list(range(len(parts)))
        self.kind = kind
        self.J = self.joint(self.keep)

    def joint(self, dims):
        return register_part(Part(self.axis0, [c for d in dims for c in self.parts[d].comps]))

    @property
    def n(self): return self.axis0.hi
    @property
    def ndim(self): return len(self.keep)
    @property
    def shape(self): return tuple(wrap(self.parts[d].K, "i", False) for d in self.keep)
    @property
    def nnz(self): return wrap(self.J.K, "i", False)
    @property
    def size(self): return self._dense().size

    def _jaxis(self):
        a = Axis(self.J.K)
        a.part = self.J
        a.key = ("classes", self.J.S)
        return a

    def label(self, d):
        P, J = self.parts[d], self.J
        return Arr(lambda k: P.cls(J.rep(k)), (self._jaxis(),), "i")

    def nonzero(self): return tuple(self.label(d) for d in self.keep)

    @property
    def coords(self): return [self.label(d) for d in self.keep]

    @property
    def row(self): return self.label(self.keep[0])

    @property
    def col(self): return self.label(self.keep[1])

    @property
    def data(self):
        J = self.J
        return Arr(lambda k: J.count_class(k), (self._jaxis(),), self.kind, meta={"counts": J})

    def sum(self, axis=None, dtype=None, **k):
        if axis is None:
            return wrap(self.n, self.kind, True)
        ax_ = (axis,) if is_numlike(axis) else tuple(axis)
        drop = {int(a) % self.ndim for a in ax_}
        keep = [d for q, d in enumerate(self.keep) if q not in drop]
        if not keep:
            return wrap(self.n, self.kind, True)
        t = Table(self.parts, self.axis0, self.kind, keep)
        return t

    def _dense(self):
        parts = [self.parts[d] for d in self.keep]
        axes = []
        for P in parts:
            a = Axis(P.K)
            a.part = P
            a.key = ("classes", P.S)
            axes.append(a)
        n = self.n
        if len(parts) == 1:
            P = parts[0]
            return Arr(lambda k: P.count_class(k), axes, self.kind, meta={"counts": P})

        def g(*ks):
            v = fresh("s", "I", n)
            return mk_sum(v, n, ind(and_(*[P_eq(P, v, k) for P, k in zip(parts, ks)])))
        return Arr(g, axes, self.kind, meta={"joint": self.J})

    def toarray(self, *a): return self._dense()
    todense = toarray

    def ravel(self): return NP.np_ravel(self._dense())

    def tocoo(self): return self
    def tocsr(self): return self

    def __getitem__(self, key):
        # table[labels] : the counts of the combinations of each sample
        if isinstance(key, tuple) and len(key) == self.ndim and all(isinstance(k, Arr) for k in key):
            dense = self._dense()
            v = dense[key]
            return Taken(v)
        return self._dense()[key]

    # dense behaviour for 1-d marginals
    def __array_like__(self): return self._dense()


def P_eq(P, v, k):
    """sample v belongs to class k of P"""
    return eq(P.cls(v), k)


class Taken:
    def __init__(self, v):
        self.v = v

    @property
    def data(self):
        t = self.v.at(*[a.legs()[0][1] for a in self.v.axes])
        if not PRV.pos(t):
            ENG.oblige("sparse .data holds every sample's count (none is zero)", False, "", str(t)[:300])
        return self.v

    def todense(self): return self.v
    toarray = todense


def np_table(t): return t._dense() if isinstance(t, Table) else t.v if isinstance(t, Taken) else t


def _labels_part(a, axis):
    a = asarr(a)
    return register_part(Part(axis, [a.reader()]))


def COO(coords, data=None, shape=None, fill_value=None, **k):
    if isinstance(coords, Arr):
        coords = [coords[i] for i in range(coords.axes[0].concrete())]
    arrs = [asarr(c) for c in coords]
    axis = arrs[0].axes[0]
    parts = []
    for d, a in enumerate(arrs):
        if same_axis(a.axes[0], axis) is not True:
            raise ValueError("coords / data length mismatch")
        P = a.meta.get("labels")
        if P is None:
            raise Unsupported("COO coordinates that are not labels of unique()")
        if shape is not None:
            s = t_of(shape[d])
            ENG.oblige("contingency table large enough for its labels", PRV.decide(ge(s, P.K)) is True, "z3", f"{s} >= {P.K}")
            if PRV.decide(eq(s, P.K)) is not True:
                raise Unsupported("contingency table with spare cells")
        parts.append(P)
    kind = "i"
    if data is not None:
        w = asarr(data)
        v = fresh("s", "I", w.axes[0].hi)
        if same_axis(w.axes[0], axis) is not True:
            raise ValueError("The data length does not match the coordinates given.")
        if w.at(v) is not ONE:
            raise Unsupported("weighted contingency table")
        kind = w.kind
    if fill_value not in (None, 0):
        raise Unsupported("fill value")
    return Table(parts, axis, kind)


def asnumpy(t, **k): return np_table(t) if not is_numlike(t) else t


class CrosstabResult:
    def __init__(self, elements, count):
        self.elements, self.count = elements, count

    def __iter__(self): return iter((self.elements, self.count))
    def __getitem__(self, i): return (self.elements, self.count)[i]


def crosstab(*args, levels=None, sparse=False):
    arrs = [asarr(a) for a in args]
    a0 = arrs[0].axes[0]
    for a in arrs:
        if a.ndim != 1:
            raise ValueError("The arguments must be 1-d")
    for a in arrs[1:]:
        if same_axis(a.axes[0], a0) is not True:
            if a.axes[0].simple and a0.simple and ENG.decide(eq(a.axes[0].hi, a0.hi)):
                continue
            raise ValueError("All input sequences must have the same length.")
    parts = [register_part(Part(a0, [a.reader()])) for a in arrs]
    if levels is not None:
        raise Unsupported("crosstab levels")
    t = Table(parts, a0)
    els = tuple(NP.np_unique(a) for a in arrs)
    return CrosstabResult(els, t if sparse else t._dense())


def sp_find(t):
    if not isinstance(t, Table):
        raise Unsupported("find")
    return t.label(t.keep[0]), t.label(t.keep[1]), t.data


# numpy functions applied to tables
for _n in ("ravel", "asarray", "array", "squeeze", "count_nonzero", "sum", "prod", "any", "all", "max", "min"):
    def _mk(f, nm):
        def g(a, *r, **k):
            if isinstance(a, (Table, Taken)):
                a = np_table(a)
            if nm == "count_nonzero" and isinstance(a, Arr) and "joint" in a.meta and not r and not k.get("axis"):
                return wrap(a.meta["joint"].K, "i", True)
            return f(a, *r, **k)
        return g
    NP.ns[_n] = _mk(NP.ns[_n], _n)


# marginal vectors returned by scipy tables behave like arrays
def _table_attr(name):
    def f(self, *a, **k):
        return getattr(self._dense(), name)(*a, **k)
    return f


for _n in ("take", "astype", "__truediv__", "__mul__", "__rmul__", "__add__", "flatten", "squeeze", "max", "min"):
    setattr(Table, _n, _table_attr(_n))


# ------------------------------------------------------------------ random generators
class SRng:
    _ids = 0

    def __init__(self, seed=None):
        if isinstance(seed, SRng):
            raise Unsupported("generator from generator")
        if seed is None:
            SRng._ids += 1
            self.key = rawapp("entropy_seed", num(SRng._ids), sort="R")
        else:
            self.key = rawapp("seed", t_of(seed), sort="R")
        self.ctr = 0

    def _draw(self, kind, *idx, sort="R", k=None):
        return rawapp("rnd_" + kind, *k, *idx, sort=sort)

    def _next(self):
        for c in ENG.loopctx:
            c.rng.append((self, self.ctr))
        k = (self.key, num(self.ctr)) + tuple(c.var for c in ENG.loopctx if c.var is not None)
        self.ctr += 1
        return k

    def _arr(self, size, f, kind="f"):
        if size is None:
            return wrap(f(), kind, True)
        return Arr(f, NP._shape(size), kind)

    def normal(self, loc=0.0, scale=1.0, size=None):
        k = self._next()
        l, s = t_of(loc), t_of(scale)
        if s.op != "num" or s.args[0] < 0:
            if ENG.decide(gt(ZERO, s)):
                raise ValueError("scale < 0")
        ENG.notes.add("rng.normal")
        return self._arr(size, lambda *i: add(l, mul(s, rawapp("rnd_normal", *k, *i, sort="R"))))

    def standard_normal(self, size=None): return self.normal(0, 1, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        k = self._next()
        l, h = t_of(low), t_of(high)
        return self._arr(size, lambda *i: add(l, mul(sub(h, l), rawapp("rnd_uniform", *k, *i, sort="R"))))

    def random(self, size=None): return self.uniform(0, 1, size)

    def _perm(self, n):
        k = self._next()
        return (lambda i: rawapp("perm", n, *k, i, sort="I")), (lambda i: rawapp("perminv", n, *k, i, sort="I"))

    def permutation(self, x, axis=0):
        if is_numlike(x):
            n = t_of(x)
            p, q = self._perm(n)
            return Arr(p, (Axis(n),), "i", meta={"perm": q})
        a = asarr(x)
        if axis != 0 or not a.axes[0].simple:
            raise Unsupported("permutation axis")
        n = a.axes[0].hi
        p, q = self._perm(n)
        r = a.reader()
        return Arr(lambda i, *j: r(p(i), *j), a.axes, a.kind)

    def shuffle(self, x, axis=0):
        if not isinstance(x, Arr) or axis != 0 or not x.axes[0].simple:
            raise Unsupported("shuffle")
        p, q = self._perm(x.axes[0].hi)
        r = x.reader()
        x.write_all(lambda i, *j: r(p(i), *j))

    def integers(self, low, high=None, size=None, **k_):
        if high is None:
            low, high = 0, low
        k = self._next()
        l, h = t_of(low), t_of(high)
        w = sub(h, l)
        return self._arr(size, lambda *i: add(l, rawapp("rnd_index", w, *k, *i, sort="I")), "i")

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if p is not None:
            raise Unsupported("weighted choice")
        src = None
        if is_numlike(a):
            n = t_of(a)
        else:
            src = asarr(a)
            n = src.axes[0].hi
        if replace is False:
            ns = t_of(size[0] if isinstance(size, tuple) else size) if size is not None else None
            if ns is None or PRV.decide(eq(ns, n)) is not True:
                raise Unsupported("choice without replacement of a subset")
            p_, q_ = self._perm(n)
            idx = Arr(p_, (Axis(n),), "i", meta={"perm": q_})
        else:
            k = self._next()
            idx = self._arr(size, lambda *i: rawapp("rnd_index", n, *k, *i, sort="I"), "i")
        return idx if src is None else src[idx]


def default_rng(seed=None):
    if isinstance(seed, SRng):
        return seed
    return SRng(seed)


# ------------------------------------------------------------------ nearest neighbours
def norm_term(ds, p):
    """minkowski norm of difference components: canonical application"""
    return fn("norm", p, *ds)


class KDTree:
    """points = rows of an array.  Contract: exact (brute force) neighbour queries under the minkowski p-norm"""

    def __init__(self, data, leafsize=10, **k):
        a = asarr(data)
        if a.ndim != 2:
            raise ValueError("data must be 2 dimensions")
        if not a.axes[0].simple:
            raise Unsupported("KDTree of a filtered array")
        self.a = a
        self.n_ = a.axes[0].hi
        self.blocks = [(b.w, b.fn) for b in blocks_of(a)]

    @property
    def n(self): return wrap(self.n_, "i", False)
    @property
    def m(self): return wrap(self.a.axes[1].hi, "i", False)
    @property
    def data(self): return self.a

    def _p(self, p): return t_of(p)

    def dist(self, qblocks, i, j, p):
        """distance between query row i and tree row j"""
        return dist_blocks(qblocks, i, self.blocks, j, p)

    def query(self, x, k=1, eps=0, p=2, distance_upper_bound=None, workers=1):
        xa = asarr(x)
        if xa.ndim != 2:
            raise Unsupported("KDTree.query of a single point")
        if distance_upper_bound is not None:
            raise Unsupported("distance_upper_bound")
        xb = [(b.w, b.fn) for b in blocks_of(xa)]
        pt = self._p(p)
        n = self.n_
        rd = xa.axes[0]

        def order(i, kk):
            v = fresh("j", "I", n)
            return mk_lam(v, n, self.dist(xb, i, v, pt))

        if isinstance(k, (list, tuple, VList, Arr)):
            ks = [t_of(e) for e in (k if not isinstance(k, Arr) else [k[i] for i in range(k.axes[0].concrete())])]
            D = Arr(lambda i, c: pick([kth(order(i, kk), sub(kk, ONE), n) for kk in ks], c), (rd, Axis(num(len(ks)))), "f")
            I = Arr(lambda i, c: rawapp("argkth", order(i, c), c, sort="I"), (rd, Axis(num(len(ks)))), "i")
            return D, I
        kt = t_of(k)
        one = PRV.decide(eq(kt, ONE))
        if one is None:
            one = ENG.decide(eq(kt, ONE))
        if one:
            return (Arr(lambda i: kth(order(i, None), ZERO, n), (rd,), "f"), Arr(lambda i: rawapp("argkth", order(i, None), ZERO, sort="I"), (rd,), "i"))
        return (Arr(lambda i, c: kth(order(i, None), c, n), (rd, Axis(kt)), "f"),
                Arr(lambda i, c: rawapp("argkth", order(i, None), c, sort="I"), (rd, Axis(kt)), "i"))

    def query_ball_point(self, x, r, p=2.0, eps=0, workers=1, return_sorted=None, return_length=False):
        xa = asarr(x)
        if xa.ndim != 2:
            raise Unsupported("ball query of a single point")
        xb = [(b.w, b.fn) for b in blocks_of(xa)]
        pt = self._p(p)
        n = self.n_
        if isinstance(r, (Arr, list, tuple, VList, SList)):
            ra = asarr(r)
            rr = ra.reader()
        else:
            ra = None
            rt = t_of(r)
        f = lambda i: rr(i) if ra is not None else rt

        def cnt(i):
            v = fresh("j", "I", n)
            return mk_sum(v, n, ind(within(self.dist(xb, i, v, pt), f(i))))
        if return_length:
            return Arr(cnt, (xa.axes[0],), "i")
        # lists of indices: only their lengths and membership are available
        v = fresh("i", "I", xa.axes[0].hi)

        def rows():
            j = fresh("j", "I", n)
            c = within(self.dist(xb, v, j, pt), f(v))
            ax_ = Axis(n, lambda t: subst(c, {j: t}))
            return SList(ax_, [(j, j, n, c, wrap(j, "i", True))])
        return BallLists(xa.axes[0], v, rows())

    def query_ball_tree(self, *a, **k): raise Unsupported("query_ball_tree")
    def count_neighbors(self, *a, **k): raise Unsupported("count_neighbors")


class BallLists(SList):
    """array of lists"""
    __slots__ = ()

    def __init__(self, axis, v, row):
        SList.__init__(self, axis, [(v, v, axis.hi, TRUE, row)], list)


def within(d, r):
    """d <= r where r may be nextafter(r', -inf): then d < r'"""
    if r.op == "app" and r.args[0] == "next_down":
        return lt(d, r.args[1])
    if r.op == "app" and r.args[0] == "next_up":
        raise Unsupported("ball radius rounded up")
    if r.op == "ite":
        return or_(and_(r.args[0], within(d, r.args[1])), and_(not_(r.args[0]), within(d, r.args[2])))
    if r is INF:
        return TRUE
    return le(d, r)


def kth(lam, k, n):
    return rawapp("kth", lam, k, sort="R")


def dist_blocks(xb, i, yb, j, p):
    comps = []
    xs, ys = expand_blocks(xb), expand_blocks(yb)
    if len(xs) != len(ys):
        # try positional matching of block structure
        raise Unsupported("distance between rows of different block structure")
    for (w, f), (w2, g) in zip(xs, ys):
        if w is not w2:
            raise Unsupported("distance between blocks of different width")
        if w is ONE:
            comps.append(canon_diff(f(i, ZERO), g(j, ZERO)))
        else:
            m = fresh("m", "I", w)
            comps.append(mk_fam(m, w, canon_diff(f(i, m), g(j, m))))
    comps.sort(key=lambda t: t.id)
    return norm_term(comps, p)


def expand_blocks(bs):
    out = []
    for w, f in bs:
        if w.op == "num" and w is not ONE:
            for q in range(int(w.args[0])):
                out.append((ONE, (lambda i, m, f=f, q=q: f(i, num(q)))))
        else:
            out.append((w, f))
    return out


def canon_diff(a, b):
    """|a - b| with a canonical orientation (norms only depend on absolute component differences)"""
    d = sub(a, b)
    if d is ZERO:
        return ZERO
    return fn("abs", d)


# ------------------------------------------------------------------ misc
class Counter(VDict):
    def __new__(cls, x=None, **k):
        if x is not None:
            if isinstance(x, SGen):
                x = x.force()
            if is_symseq(x):
                r = counter_of(x)
                if r is not None:
                    return r
            d = dict.__new__(cls)
            return d
        return dict.__new__(cls)

    def __init__(self, x=None, **k):
        VDict.__init__(self)
        if x is not None and not is_symseq(x):
            if isinstance(x, dict):
                for kk, v in x.items():
                    self[kk] = v
            else:
                for e in x:
                    self[e] = self.get(e, 0) + 1

    def __missing__(self, k): return 0
    def total(self): return LD.b_sum(self.values())


def quad(f, a, b, **k):
    """definite integral: opaque function of the integrand"""
    v = fresh("x", "R")
    body = t_of(f(SNum(v, "f", False)))
    lam = TM._close("lam", "", v, ZERO, [body], "R")
    r = rawapp("integral", lam, t_of(a), t_of(b), sort="R")
    return SNum(r, "f", False), SNum(fresh("quaderr", "R"), "f", False)


class GaussianKDE:
    """scipy.stats.gaussian_kde: opaque density estimate"""
    def __init__(self, dataset, bw_method=None, weights=None):
        a = asarr(dataset)
        if a.ndim == 1:
            a = a[None, :]
        self.a, self.bw = a, bw_method
        if weights is not None:
            raise Unsupported("kde weights")

    def evaluate(self, pts):
        q = asarr(pts)
        if q.ndim == 1:
            q = q[None, :]
        bw = t_of(self.bw) if is_numlike(self.bw) else strterm(str(self.bw))
        da, qa = self.a.reader(), q.reader()
        n = self.a.axes[1].hi
        dims = self.a.axes[0].concrete()
        if dims is None:
            raise Unsupported("kde of symbolic dimension")
        v = fresh("j", "I", n)

        def g(i):
            cs = sorted([mk_fam(v, n, sub(qa(num(d), i), da(num(d), v))) for d in range(dims)], key=lambda t: t.id)
            return rawapp("kde", bw, *cs, sort="R")
        return Arr(g, (q.axes[1],), "f")

    __call__ = evaluate
    pdf = evaluate


def _unsup(name):
    def f(*a, **k):
        raise Unsupported(f"{name} has no contract")
    return f


class Pool:
    """multiprocessing.Pool: map-like calls return the results in the order of the arguments"""

    def __init__(self, processes=None, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
    def join(self): pass
    def terminate(self): pass

    def _items(self, it):
        it = conv(it)
        if is_symseq(it):
            raise Unsupported("pool over a symbolic list")
        return list(it)

    def map(self, f, it, chunksize=None): return VList([f(x) for x in self._items(it)])
    imap = map
    def starmap(self, f, it, chunksize=None): return VList([f(*x) for x in self._items(it)])


SPECTRUM = [None]


def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    """sample covariance matrix: uninterpreted in the rows"""
    a = asarr(m)
    if a.ndim == 1:
        a = a[None, :]
    if y is not None or not rowvar or a.axes[0].concrete() is None:
        raise Unsupported("cov")
    rd, n, d = a.reader(), a.axes[1].hi, a.axes[0]
    tag = num(1 if bias else 0) if ddof is None else t_of(ddof)
    v = fresh("j", "I", n)
    row = lambda i: mk_fam(v, n, rd(i, v))
    if d.concrete() == 1:
        return Arr(lambda: rawapp("cov", tag, row(ZERO), row(ZERO), sort="R"), (), "f")
    return Arr(lambda i, j: rawapp("cov", tag, *sorted([row(i), row(j)], key=lambda t: t.id), sort="R"), (d, d), "f")


def eig(a):
    """eigenvalues and vectors of a square matrix: unknown reals; contracts may bound the spectrum from below"""
    a = asarr(a)
    d = a.axes[0].concrete()
    if a.ndim != 2 or d is None or a.axes[1].concrete() != d:
        raise Unsupported("eig")
    vals = [fresh("eigval", "R") for _ in range(d)]
    vecs = [[fresh("eigvec", "R") for _ in range(d)] for _ in range(d)]
    if SPECTRUM[0] is not None:
        for v in vals:
            ENG.assume(gt(v, t_of(SPECTRUM[0])))
    return (Arr(lambda i: pick(vals, i), (Axis(num(d)),), "f"), Arr(lambda i, j: pick([pick(r, j) for r in vecs], i), (Axis(num(d)), Axis(num(d))), "f"))


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


def make_math():
    d = dict(vars(_math))

    def lift(name, f):
        def g(x, *a):
            if isinstance(x, (SNum, SBool)):
                r = f(t_of(x))
                return wrap(r, "f", False)
            if isinstance(x, (int,)) and not isinstance(x, bool):
                return wrap(f(num(x)), "f", False)
            return f_native(name, x, *a)
        return g

    def f_native(name, x, *a):
        return wrap({"log": log_terms, "exp": NP.exp_terms, "sqrt": sqrt_terms}.get(name, lambda t: (_ for _ in ()).throw(Unsupported(name)))(t_of(x)), "f", False)

    def mlog(x, base=None):
        t = t_of(x)
        if ENG.decide(le(t, ZERO)):
            raise ValueError("math domain error")
        r = log_terms(t)
        if base is not None:
            r = div_terms(r, log_terms(t_of(base)))
        return wrap(r, "f", False)
    d["log"] = mlog
    d["log2"] = lambda x: mlog(x, 2)
    d["log10"] = lambda x: mlog(x, 10)
    d["exp"] = lift("exp", NP.exp_terms)
    d["sqrt"] = lift("sqrt", sqrt_terms)
    d["gamma"] = lambda x: special["gamma"](x)
    d["lgamma"] = lambda x: special["loggamma"](x)
    d["factorial"] = factorial
    d["pi"] = NP.ns["pi"]
    d["e"] = NP.ns["e"]
    d["inf"] = NP.ns["inf"]
    d["nan"] = NP.ns["nan"]
    d["isnan"] = NP.ns["isnan"]
    d["isinf"] = NP.ns["isinf"]
    d["floor"] = lambda x: wrap(fn("floor", t_of(x)), "i", False)
    d["ceil"] = lambda x: wrap(neg(fn("floor", neg(t_of(x)))), "i", False)
    d["isclose"] = NP.ns["isclose"]
    d["prod"] = NP.ns["prod"]
    d["fsum"] = LD.b_sum
    d["comb"] = lambda n, k: wrap(div_terms(fact_t(t_of(n)), mul(fact_t(t_of(k)), fact_t(sub(t_of(n), t_of(k))))), "i", False)
    return module("math", **{k: v for k, v in d.items() if not k.startswith("__")})


def make_shims():
    np_ = NP.make()
    rnd = module("numpy.random", default_rng=default_rng, Generator=SRng)
    lin = module("numpy.linalg", eig=eig, norm=_unsup("norm"), det=_unsup("det"), inv=_unsup("inv"), slogdet=_unsup("slogdet"), cholesky=_unsup("cholesky"), eigh=eig, LinAlgError=type("LinAlgError", (ValueError,), {}))
    st = module("numpy.lib.stride_tricks", as_strided=NP.as_strided, sliding_window_view=NP.sliding_window_view)
    lib = module("numpy.lib", stride_tricks=st)
    SPECTRUM[0] = None
    np_.cov = cov
    np_.random, np_.linalg, np_.lib = rnd, lin, lib
    sps = module("scipy.special", **special)
    spatial = module("scipy.spatial", KDTree=KDTree, cKDTree=KDTree)
    cont = module("scipy.stats.contingency", crosstab=crosstab)
    stats = module("scipy.stats", contingency=cont, gaussian_kde=GaussianKDE)
    spsp = module("scipy.sparse", find=sp_find)
    integ = module("scipy.integrate", quad=quad)
    opt = module("scipy.optimize", minimize_scalar=_unsup("minimize_scalar"), root_scalar=_unsup("root_scalar"), brentq=_unsup("brentq"))
    sp = module("scipy", special=sps, spatial=spatial, stats=stats, sparse=spsp, integrate=integ, optimize=opt)
    sparse = module("sparse", COO=COO, asnumpy=asnumpy)
    mp = module("multiprocessing", Pool=Pool, cpu_count=lambda: 1)
    coll = types.ModuleType("collections")
    coll.__dict__.update({k: v for k, v in vars(collections).items() if not k.startswith("__")})
    coll.Counter = Counter
    coll.abc = collections.abc
    return {"numpy": np_, "numpy.random": rnd, "numpy.linalg": lin, "numpy.lib": lib, "numpy.lib.stride_tricks": st,
            "scipy": sp, "scipy.special": sps, "scipy.spatial": spatial, "scipy.stats": stats, "scipy.stats.contingency": cont,
            "scipy.sparse": spsp, "scipy.integrate": integ, "scipy.optimize": opt, "sparse": sparse, "multiprocessing": mp,
            "collections": coll, "math": make_math()}
