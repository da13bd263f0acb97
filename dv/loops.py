"""Symbolic execution of loops and comprehensions: the body is executed once (per sub-path) with a fresh index;
the effect of all iterations is inferred from it (sum / product / prefix / map / append / store), each inference is
an exact consequence of the loop body (induction on the number of iterations), otherwise Unsupported is raised."""
from __future__ import annotations
import os
DEBUG = bool(os.environ.get("DVDEBUG"))
from . import terms as TM
from .terms import *
from .prover import PRV
from .engine import ENG, Unsupported, PathEnd, Hoist
from .sym import *
from .sym import _b


class UNBOUND:
    pass


class Poison:
    """value that must not be read (carried over iterations in a way that is not understood)"""
    __slots__ = ("why",)

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def _no(self, *a, **k):
        raise Unsupported(f"use of a loop-carried value: {object.__getattribute__(self, 'why')}")

    def __getattribute__(self, n):
        if n in ("__class__",):
            return Poison
        object.__getattribute__(self, "_no")()

    __call__ = __bool__ = __iter__ = __len__ = __getitem__ = __setitem__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = \
        __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __abs__ = __float__ = __int__ = __index__ = \
        __mod__ = __floordiv__ = __and__ = __or__ = __contains__ = __setattr__ = __eq__ = __ne__ = __format__ = __str__ = lambda self, *a, **k: Poison._no(self)
    __hash__ = object.__hash__


class LoopCtx:
    def __init__(self, var=None):
        self.var = var
        self.bufs = {}
        self.attrs = {}
        self.appends = []
        self.stores = []
        self.rng = []

    def log_write(self, b):
        self.bufs.setdefault(b, b.fn)

    def log_append(self, vl, x):
        self.appends.append((vl, x))

    def log_store(self, d, k, v):
        self.stores.append((d, k, v))


# ---------------------------------------------------------------- attribute stores
_born: dict = {}


def _register(obj):
    i = id(obj)
    if i not in _born or _born[i][0] is not obj:
        fresh_ = not getattr(obj, "__dict__", None)
        _born[i] = (obj, list(ENG.loopctx) if fresh_ else [])
    return _born[i][1]


def setattr_(obj, name, val):
    if isinstance(obj, Poison):
        obj._no()
    ctxs = _register(obj)
    for c in ENG.loopctx:
        if c not in ctxs:
            c.attrs.setdefault((id(obj), name), (obj, name, obj.__dict__.get(name, UNBOUND)))
    setattr(obj, name, val)


def reset_heap():
    _born.clear()


# ---------------------------------------------------------------- merging of sub-path results
def conj(fs, drop=()):
    return and_(*[f for f in fs if f not in drop])


def merge_vals(items):
    """items: [(cond, value)] mutually exclusive -> one value"""
    if len(items) == 1:
        return items[0][1]
    vals = [v for _, v in items]
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if all(isinstance(v, SBool) or isinstance(v, bool) for v in vals):
        r = FALSE
        for c, v in items:
            r = or_(r, and_(c, b_of(v)))
        return sbool(r)
    if all(is_numlike(v) for v in vals):
        r = t_of(vals[-1])
        for c, v in reversed(items[:-1]):
            r = ite(c, t_of(v), r)
        return wrap(r, join_kind(*[kind_of(v) for v in vals]), any(is_np(v) for v in vals))
    if all(isinstance(v, tuple) and len(v) == len(v0) for v in vals):
        return tuple(merge_vals([(c, v[q]) for c, v in items]) for q in range(len(v0)))
    if all(isinstance(v, Arr) and v.ndim == v0.ndim for v in vals):
        for v in vals[1:]:
            for p, q in zip(v.axes, v0.axes):
                if same_axis(p, q) is not True:
                    raise Unsupported("arrays of different shapes on different paths of a body")
        rs = [(c, v.reader()) for c, v in items]

        def g(*i):
            r = rs[-1][1](*i)
            for c, f in reversed(rs[:-1]):
                r = ite_b(c, f(*i), r)
            return r
        return Arr(g, v0.axes, join_kind(*[v.kind for v in vals]))
    raise Unsupported("different kinds of values on different paths of a body")


def _exceptions(excs, v, hi):
    """a body that raises under condition F(v): the loop raises iff some index satisfies it"""
    for F, e in excs:
        if F is TRUE:
            none = eq(hi, ZERO) if PRV.decide(gt(hi, ZERO)) is not True else FALSE
            if PRV.nonneg(hi) is False:
                none = le(hi, ZERO)
        else:
            none = mk_forall(v, hi, not_(F)) if v in F.fv else or_(le(hi, ZERO), not_(F))
        if not ENG.decide(none):
            raise e


SKIP = object()


def run_body(v, g, thunk):
    """-> list of (F, kind, payload)"""
    tries = 0
    while True:
        tries += 1
        if tries > 30:
            raise Unsupported("too many hoisted decisions")
        out = []

        def once():
            if g is not TRUE:
                if PRV.decide(g) is False:
                    raise PathEnd()
                ENG.assume(g)
            try:
                return ("ok", thunk())
            except Exception as e:  # a Python exception of the code under verification
                return ("exc", e)
        try:
            for fs, res in ENG.subpaths(once, vars={v}):
                out.append((conj(fs), res[0], res[1]))
            return out
        except Hoist as h:
            ENG.decide(h.b)


def comp_leg(leg, fn_, conds, unpack):
    idx, v, hi, g, val = leg

    def thunk():
        ctx = LoopCtx(v)
        ENG.loopctx.append(ctx)
        try:
            args = unpack(val)
            for c in conds:
                r = c(*args)
                if isinstance(r, SBool):
                    if PRV.decide(r.t) is False:
                        return SKIP
                    ENG.assume(r.t)
                elif isinstance(r, SNum):
                    if not r:
                        return SKIP
                elif not r:
                    return SKIP
            x = fn_(*args)
        finally:
            ENG.loopctx.pop()
        check_pure(ctx)
        return x

    res = run_body(v, g, thunk)
    excs = [(F, x) for F, k, x in res if k == "exc"]
    _exceptions(excs, v, hi)
    ok = [(F, x) for F, k, x in res if k == "ok" and x is not SKIP]
    if not ok:
        return None
    G = or_(*[F for F, _ in ok]) if len(ok) > 1 else ok[0][0]
    skipped = any(x is SKIP for _, k, x in res if k == "ok") or (conds and True)
    if len(ok) > 1 and not skipped:
        G = g
    return (idx, v, hi, G, merge_vals(ok))


def check_pure(ctx):
    if ctx.bufs or ctx.appends or ctx.stores:
        raise Unsupported("side effect inside a comprehension over a symbolic sequence")
    for obj, name, pre in ctx.attrs.values():
        post = obj.__dict__.get(name, UNBOUND)
        if post is not pre:
            raise Unsupported(f"attribute {name} assigned inside a comprehension over a symbolic sequence")
    if ctx.rng:
        raise Unsupported("random draw inside a comprehension over a symbolic sequence")


def axis_of_legs(axis, legs):
    """axis with the (possibly narrowed) guards of legs"""
    if axis.pieces:
        ps = []
        k = 0
        for p in axis.pieces:
            n = len(p.legs())
            ps.append(axis_of_legs(p, legs[k:k + n]))
            k += n
        a = Axis(pieces=ps)
        return a
    leg = legs[0]
    if leg is None:
        return Axis(ZERO)
    idx, v, hi, g, val = leg
    if g is TRUE:
        return axis if axis.guard is None else Axis(hi)
    a = Axis(hi, lambda i: subst(g, {v: i}))
    a.part = axis.part
    return a


def comp_sym(sl, fn_, conds, unpack):
    """symbolic comprehension over SList sl -> SList"""
    legs = [comp_leg(l, fn_, conds, unpack) for l in sl.legs]
    axis = axis_of_legs(sl.axis, legs)
    if all(l is None for l in legs):
        return []
    same = all(l is not None and l[3] is o[3] for l, o in zip(legs, sl.legs))
    if same:
        axis = sl.axis
    out = []
    for l, o in zip(legs, sl.legs):
        if l is None:
            continue
        out.append(l)
    if any(l is None for l in legs) and axis.pieces:
        axis = Axis(pieces=[p for p, l in zip(axis.pieces, legs) if l is not None])
        # re-number pieces
        out = [(PIdx(k, l[0].t) if isinstance(l[0], PIdx) else l[0],) + l[1:] for k, l in enumerate(out)]
    return SList(axis, out)


# ---------------------------------------------------------------- for loops
_cells = 0


class _Acc:
    """placeholder of a carried name"""
    def __init__(self, name, pre):
        global _cells
        _cells += 1
        self.name, self.pre = name, pre
        self.arr = isinstance(pre, Arr) and pre.axes
        if self.arr:
            self.cell = f"acc${_cells}"
            sort = "R" if pre.kind == "f" else "I"
            if pre.kind == "b":
                raise Unsupported("boolean array carried over loop iterations")
            # in-place updates go to the buffer of the array; the rebound value is a copy with placeholder contents
            self.value = pre
        else:
            self.var = fresh("acc", "R" if kind_of(pre) == "f" else "I")
            self.value = SNum(self.var, kind_of(pre) if kind_of(pre) != "b" else "i", is_np(pre))


def _is_num(x):
    return is_numlike(x) and not isinstance(x, (bool, SBool)) and not isinstance(x, Arr)


def symloop(sl, body, get, set_):
    for leg in sl.legs:
        _symleg(leg, body, get, set_, sl)


def _symleg(leg, body, get, set_, sl):
    idx, v, hi, g, val = leg
    bufs: dict = {}      # Buf -> (pre fn, cell name)
    attrs: dict = {}     # (id,name) -> (obj, name, pre)
    names0 = get()
    for rounds in range(8):
        accs = {}
        start = {}
        for n, x in names0.items():
            if x is UNBOUND:
                continue
            if _is_num(x):
                accs[n] = _Acc(n, x)
                start[n] = accs[n].value
            elif isinstance(x, (VList, VDict, Arr)):
                start[n] = x
            elif isinstance(x, Poison):
                start[n] = x
            else:
                start[n] = Poison(n)
        new = [False]

        def thunk():
            ctx = LoopCtx(v)
            saved = {b: b.fn for b in bufs}
            for b, (f0, cell, sort) in bufs.items():
                b.fn = (lambda *i, cell=cell, sort=sort: rawapp(cell, *i, sort=sort))
            for key, (obj, name, pre) in attrs.items():
                setattr(obj, name, attr_acc[key].value if key in attr_acc else Poison(f"attribute {name}"))
            set_({n: (start[n] if n in start else None) for n in names0 if n in start})
            ENG.loopctx.append(ctx)
            try:
                body(val)
                post = get()
                fns = {b: b.fn for b in ctx.bufs}
                at = {k: a[0].__dict__.get(a[1], UNBOUND) for k, a in ctx.attrs.items()}
                return post, fns, at, list(ctx.appends), list(ctx.stores), list(ctx.rng)
            finally:
                ENG.loopctx.pop()
                for b, f in ctx.bufs.items():
                    b.fn = f
                    if b not in bufs:
                        new[0] = True
                        newb[b] = f
                for k, a in ctx.attrs.items():
                    if k not in attrs:
                        new[0] = True
                        newa[k] = a
                    obj, name, pre = attrs.get(k, a)
                    if pre is UNBOUND:
                        obj.__dict__.pop(name, None)
                    else:
                        setattr(obj, name, pre)
                for b, f in saved.items():
                    b.fn = f
                for key, (obj, name, pre) in attrs.items():
                    if pre is UNBOUND:
                        obj.__dict__.pop(name, None)
                    else:
                        setattr(obj, name, pre)
                set_({n: x for n, x in names0.items() if x is not UNBOUND})

        newb, newa = {}, {}
        attr_acc = {k: _Acc(a[1], a[2]) for k, a in attrs.items() if _is_num(a[2])}
        try:
            res = run_body(v, g, thunk)
        except Unsupported:
            if not (newb or newa):
                raise
            res = None
        if new[0] or res is None:
            for b, f in newb.items():
                global _cells
                _cells += 1
                bufs[b] = (f, f"cell${_cells}", None)
            # sorts of cells
            for b in newb:
                f0 = bufs[b][0]
                probe = [fresh("b", "I") for _ in range(b.ndim)]
                try:
                    t = f0(*probe)
                    sort = "B" if t.sort == "B" else ("I" if is_int_term(t) and getattr(b, "kind", None) in ("i", "u") else "R")
                except (Unsupported, AssertionError):
                    sort = "R"
                bufs[b] = (f0, bufs[b][1], sort)
            attrs.update(newa)
            continue
        break
    else:
        raise Unsupported("loop effects do not stabilise")

    excs = [(F, x) for F, k, x in res if k == "exc"]
    ok = [(F, x) for F, k, x in res if k == "ok"]
    all_accs = dict(accs)
    for k, a in attr_acc.items():
        all_accs[k] = a
    _exceptions(excs, v, hi)
    if not ok:
        if PRV.decide(le(hi, ZERO)) is True or all(F is not None for F, _ in excs):
            return
    # ---- carried numbers
    posts = {}
    for n in names0:
        posts[n] = [(F, x[0][n]) for F, x in ok]
    for k in attrs:
        posts[k] = [(F, x[2].get(k, _MISSING)) for F, x in ok]
        posts[k] = [(F, (attr_acc[k].value if k in attr_acc else UNCHANGED) if y is _MISSING else y) for F, y in posts[k]]
    final = {}
    prefix = {}  # acc var -> prefix term at iteration v
    todo = [n for n in posts if n in all_accs]
    accvars = {all_accs[n].var for n in todo if not all_accs[n].arr}
    guard1 = g

    def red(t):
        return subst(t, prefix) if prefix else t

    progress = True
    pending = list(todo)
    while pending and progress:
        progress = False
        for n in list(pending):
            a = all_accs[n]
            open_vars = accvars - set(prefix) - {a.var}
            try:
                form = _form(a, [(red(F), map_terms(x, red) if not isinstance(x, Poison) else x) for F, x in posts[n]], open_vars)
            except _NotYet:
                continue
            pending.remove(n)
            progress = True
            kind, payload = form
            if kind == "same":
                final[n] = a.pre
                prefix[a.var] = t_of(a.pre)
            elif kind == "add":
                D, shape, knd = payload
                if shape is None:
                    tot = add(t_of(a.pre), _sumv(v, hi, D))
                    final[n] = wrap(tot, join_kind(kind_of(a.pre), knd), a.value.np or is_np(a.pre) or knd == "f")
                    u = fresh("u", "I", v)
                    prefix[a.var] = add(t_of(a.pre), mk_sum(u, v, subst(D, {v: u})))
                else:
                    axes, iv = shape
                    pre = a.pre
                    final[n] = Arr((lambda *i, D=D, iv=iv, pre=pre: add(t_of(pre), _sumv(v, hi, subst(D, dict(zip(iv, i)))))), axes, join_kind(kind_of(a.pre), knd))
            elif kind == "mul":
                M, knd = payload
                final[n] = wrap(mul(t_of(a.pre), mk_prod(v, hi, M)), join_kind(kind_of(a.pre), knd), a.value.np or knd == "f")
                u = fresh("u", "I", v)
                prefix[a.var] = mul(t_of(a.pre), mk_prod(u, v, subst(M, {v: u})))
            elif kind == "last":
                final[n] = _last(payload, v, hi, g, n)
    if pending:
        raise Unsupported(f"loop-carried value {pending[0]} is not a sum or a product of per-iteration terms")

    # ---- other names
    for n, ps in posts.items():
        if n in final:
            continue
        if n in all_accs:
            continue
        pre = names0.get(n, UNBOUND) if n in names0 else attrs[n][2]
        vals = [x for _, x in ps]
        if all(x is UNBOUND for x in vals) or (n in attrs and all(x is UNCHANGED for x in vals)):
            continue
        if all(isinstance(x, Poison) for x in vals) and n in start and isinstance(start[n], Poison):
            final[n] = pre
            continue
        if isinstance(pre, (VList, VDict, Arr)) and all(x is pre for x in vals):
            continue
        if isinstance(pre, Arr) and pre.axes and all(isinstance(x, Arr) for x in vals):
            raise Unsupported(f"array {n} rebound inside a symbolic loop")
        if any(isinstance(x, (Poison,)) or x is UNCHANGED or x is UNBOUND for x in vals):
            final[n] = Poison(f"{n} conditionally assigned in a loop")
            continue
        final[n] = _last([(red(F), x) for F, x in ps], v, hi, g, n, red)

    # ---- appends
    lists = []
    for F, x in ok:
        for vl, e in x[3]:
            if not any(vl is l for l in lists):
                lists.append(vl)
    for vl in lists:
        items = []
        for F, x in ok:
            mine = [e for l, e in x[3] if l is vl]
            if len(mine) > 1:
                raise Unsupported("several appends to one list per iteration")
            if mine:
                items.append((red(F), map_terms(mine[0], red)))
        full = len(items) == len(ok)
        G = g if full else (or_(*[F for F, _ in items]) if len(items) > 1 else items[0][0])
        leg_ = (idx, v, hi, G, merge_vals(items))
        if isinstance(idx, PIdx):
            raise Unsupported("append while iterating over a concatenated sequence")
        axis = axis_of_legs(Axis(hi), [leg_]) if G is not TRUE else (sl.axis if sl.axis.simple else Axis(hi))
        new_sl = SList(axis, [leg_])
        if list.__len__(vl) or vl.sym is not None:
            raise Unsupported("append to a non-empty list in a symbolic loop")
        if len(ENG.loopctx) > vl.depth:
            raise Unsupported("append to an outer list from nested symbolic loops")
        vl.sym = new_sl
    # ---- dict stores
    dicts = []
    for F, x in ok:
        for d, k, e in x[4]:
            if not any(d is l for l in dicts):
                dicts.append(d)
    for d in dicts:
        items = []
        for F, x in ok:
            mine = [(k, e) for l, k, e in x[4] if l is d]
            if len(mine) > 1:
                raise Unsupported("several stores to one dict per iteration")
            if mine:
                items.append((red(F), tuple(map_terms(y, red) for y in mine[0])))
        full = len(items) == len(ok)
        G = g if full else or_(*[F for F, _ in items])
        leg_ = (idx, v, hi, G, merge_vals(items))
        if dict.__len__(d) or d.sym is not None:
            raise Unsupported("store into a non-empty dict in a symbolic loop")
        if len(ENG.loopctx) > d.depth:
            raise Unsupported("store to an outer dict from nested symbolic loops")
        d.sym = make_dict(SList(sl.axis if G is g else Axis(hi, lambda i: subst(G, {v: i})), [leg_]))
    # ---- buffers
    for b, (f0, cell, sort) in bufs.items():
        per = []
        for F, x in ok:
            f = x[1].get(b)
            per.append((red(F), f))
        newf = _buffer_effect(b, f0, cell, sort, per, v, hi, g, red)
        for c in ENG.loopctx[b.loopdepth:]:
            c.log_write(b)
        b.fn = newf
    # ---- write back
    out = {}
    for n, x in final.items():
        if n in attrs:
            obj, name, pre = attrs[n]
            setattr_(obj, name, x)
        else:
            out[n] = x
    for n in names0:
        if n not in out and names0[n] is not UNBOUND:
            out[n] = names0[n]
    set_(out)


UNCHANGED = object()
_MISSING = object()


class _NotYet(Exception):
    pass


def _sumv(v, hi, D):
    return mk_sum(v, hi, D)


def _form(a, ps, open_vars):
    """classify the update of one carried number"""
    acc = a.var
    ds, ms, same, lastv = [], [], True, []
    shape = None
    knd = "b"
    for F, x in ps:
        if isinstance(x, Poison):
            raise Unsupported("poisoned accumulator")
        if F.fv & open_vars or acc in F.fv:
            if F.fv & open_vars:
                raise _NotYet()
            raise Unsupported(f"control flow depends on the running value of {a.name}")
        if isinstance(x, Arr) and x.axes:
            iv = [fresh("e", "I", ax_.hi) for ax_ in x.axes]
            if any(not ax_.simple for ax_ in x.axes):
                raise Unsupported("filtered array accumulated")
            t = x.at(*iv)
            if shape is not None:
                raise Unsupported("array accumulated on several paths")
            shape = (x.axes, iv)
            knd = join_kind(knd, x.kind)
        elif is_numlike(x):
            t = t_of(x)
            knd = join_kind(knd, kind_of(x))
        else:
            # rebound to something non-numeric
            lastv.append((F, x))
            same = False
            ds.append(None)
            ms.append(None)
            continue
        if t.fv & open_vars:
            raise _NotYet()
        if t is not acc:
            same = False
        lastv.append((F, x) if acc not in t.fv else None)
        d = sub(t, acc) if t.op not in ("ite", "special") else _lift_sub(t, acc)
        ds.append((F, d) if d is not None and acc not in d.fv else None)
        m = None
        if t.op == "poly":
            its = poly_items(t)
            if all(dict(mm).get(acc) is ONE for mm, c in its):
                m = mul(t, power(acc, num(-1)))
        elif t is acc:
            m = ONE
        ms.append((F, m) if m is not None and acc not in m.fv else None)
    if same:
        return "same", None
    if all(x is not None for x in ds) and any(acc in (t_of(x).fv if is_numlike(x) else {acc}) for _, x in ps):
        if len(ds) == 1:
            F, d = ds[0]
            D = d if F is TRUE else (mul(ind(F), d) if d.op not in ("ite", "special") else ite(F, d, ZERO))
        else:
            D = ZERO
            if any(d.op in ("ite", "special") for _, d in ds):
                for F, d in ds:
                    D = ite(F, d, D)
            else:
                D = add(ZERO, *[mul(ind(F), d) for F, d in ds])
        return "add", (D, shape, knd)
    if all(x is not None for x in ms):
        if len(ms) == 1:
            F, m = ms[0]
            M = m if F is TRUE else ite(F, m, ONE)
        else:
            M = ONE
            for F, m in ms:
                M = ite(F, m, M)
        return "mul", (M, knd)
    if all(x is not None for x in lastv):
        return "last", lastv
    raise Unsupported(f"update of {a.name} is neither additive nor multiplicative")


def _lift_sub(t, acc):
    if t.op == "ite":
        x, y = _lift_sub(t.args[1], acc), _lift_sub(t.args[2], acc)
        return None if x is None or y is None else ite(t.args[0], x, y)
    if t.op == "special":
        return t
    return sub(t, acc)


def _last(ps, v, hi, g, n, red=None):
    """value assigned in the last iteration"""
    if len(ps) == 1 and g is TRUE and ps[0][0] is TRUE and PRV.pos(hi):
        try:
            x = ps[0][1]
            if red:
                x = map_terms(x, red)
            return subst_value(x, {v: sub(hi, ONE)})
        except Unsupported:
            pass
    return Poison(f"{n} after the loop")


def _leaves(t, conds):
    if t.op == "ite":
        c = t.args[0]
        return _leaves(t.args[1], conds + [c]) + _leaves(t.args[2], conds + [not_(c)])
    return [(and_(*conds), t)]


def _is_cell(t, cell, b):
    return t.op == "app" and t.args[0] == cell and all(x is y for x, y in zip(t.args[1:], b))


def _use_index_eq(x, v):
    """in every monomial guarded by [v = t] replace the iteration variable by t"""
    if x.op != "poly":
        return x
    out = []
    for mono, c in poly_items(x):
        t = None
        for b, e in mono:
            if b.op == "ind" and b.args[0].op == "eq0" and v in b.fv:
                p = b.args[0].args[0]
                lc = TM.lin_coef_term(p, v)
                if lc is not None and lc[0] in (ONE, num(-1)):
                    t = div(neg(lc[1]), lc[0])
                    g = b
                    break
        if t is None:
            out.append(TM.from_items({mono: c}))
            continue
        rest = TM.from_items({tuple((b, e) for b, e in mono if b is not g): c})
        out.append(mul(g, subst(rest, {v: t})))
    return add(ZERO, *out)


def _buffer_effect(buf, f0, cell, sort, per, v, hi, g, red):
    if sort == "B":
        return _bool_buffer(buf, f0, cell, per, v, hi, g, red)
    bv = [fresh("b", "I") for _ in range(buf.ndim)]
    leaves = []
    for F, f in per:
        t = red(f(*bv)) if f is not None else rawapp(cell, *bv, sort=sort)
        for c, x in _leaves(t, []):
            leaves.append((and_(F, c), x))
    written = [(c, x) for c, x in leaves if not _is_cell(x, cell, bv)]
    if not written:
        return f0
    cells_in = lambda x: atoms(x, lambda y: y.op == "app" and y.args[0] == cell)
    written = [(c, _use_index_eq(x, v)) for c, x in written]
    # additive / histogram
    me = rawapp(cell, *bv, sort=sort)
    ds = []
    for c, x in written:
        if x.op == "special" or cells_in(c):
            ds = None
            break
        d = sub(x, me)
        if cells_in(d) or not contains(x, me):
            ds = None
            break
        ds.append((c, d))
    if ds is not None:
        D = add(ZERO, *[mul(ind(c), d) for c, d in ds])
        return lambda *i: add(f0(*i), mk_sum(v, hi, subst(D, dict(zip(bv, i)))))
    # multiplicative
    ms = []
    for c, x in written:
        its = poly_items(x) if x.op == "poly" else None
        if cells_in(c) or its is None or not all(dict(mm).get(me) is ONE for mm, _ in its):
            ms = None
            break
        m = mul(x, power(me, num(-1)))
        if cells_in(m):
            ms = None
            break
        ms.append((c, m))
    if ms is not None:
        M = ONE
        for c, m in ms:
            M = ite(c, m, M) if c is not TRUE else m
        return lambda *i: mul(f0(*i), mk_prod(v, hi, subst(M, dict(zip(bv, i)))))
    # map: every write determines the iteration from the cell
    sols = set()
    for c, x in written:
        s = _solve_iter(c, v)
        if s is None:
            raise Unsupported("array written in a loop at positions that do not determine the iteration" + (str([(str(c), str(x)) for c, x in written])[:600] if DEBUG else ""))
        sols.add(s)
    if len(sols) != 1:
        raise Unsupported("array written at several positions per iteration")
    vs = sols.pop()
    outw = []
    for c, x in written:
        c2 = subst(c, {v: vs})
        x2 = subst(x, {v: vs})
        # reads of the buffer inside the body
        for q in (c2, x2):
            for y in cells_in(q):
                its = y.args[1:]
                vr = subst(vs, dict(zip(bv, its)))
                okr = PRV.decide(ge(vr, vs)) is True or PRV.decide(lt(vr, ZERO)) is True
                if not okr:
                    raise Unsupported("array element read after it was written by an earlier iteration")
        outw.append((c2, x2))

    def newf(*i):
        m = dict(zip(bv, i))
        vi = subst(vs, m)
        inr = and_(ge(vi, ZERO), lt(vi, hi))
        r = f0(*i)
        for c2, x2 in outw:
            c = simp_cond(and_(inr, subst(c2, m)))
            if c is FALSE:
                continue
            x = subst(x2, m)
            x = _uncell(x, cell, f0)
            c = _uncell(c, cell, f0)
            r = x if c is TRUE else ite_b(c, x, r)
        return r
    return newf


def _uncell(x, cell, f0):
    cs = atoms(x, lambda y: y.op == "app" and y.args[0] == cell)
    if not cs:
        return x
    return replace(x, {y: f0(*y.args[1:]) for y in cs})


def _solve_iter(c, v):
    """unique v determined by the condition c (linear equation with unit coefficient), as a term"""
    for x in (c.args if c.op == "and" else (c,)):
        if x.op == "eq0" and v in x.fv:
            p = x.args[0]
            k = None
            rest = []
            good = True
            for m, co in poly_items(p):
                if len(m) == 1 and m[0][0] is v and m[0][1] is ONE and abs(co) == 1:
                    k = co
                elif any(v in b.fv or v in e.fv for b, e in m):
                    good = False
            if k is not None and good:
                s = sub(v, mul(num(1 / k), p))
                if v not in s.fv:
                    return s
    return None


def _bool_buffer(buf, f0, cell, per, v, hi, g, red):
    bv = [fresh("b", "I") for _ in range(buf.ndim)]
    me = rawapp(cell, *bv, sort="B")
    # only "set to a constant under a condition independent of the array" is supported:  r = me|C  or  me&C
    T1, T0 = FALSE, TRUE
    for F, f in per:
        t = red(f(*bv)) if f is not None else me
        t1 = replace(t, {me: FALSE})
        t0 = replace(t, {me: TRUE})
        T1 = or_(T1, and_(F, t1))
        T0 = and_(T0, or_(not_(F), t0))
    if atoms(T1, lambda y: y.op == "app" and y.args[0] == cell) or atoms(T0, lambda y: y.op == "app" and y.args[0] == cell):
        raise Unsupported("boolean array carried through a loop")
    if T0 is TRUE:
        return lambda *i: or_(f0(*i), not_(mk_forall(v, hi, not_(subst(T1, dict(zip(bv, i)))))))
    if T1 is FALSE:
        return lambda *i: and_(f0(*i), mk_forall(v, hi, subst(T0, dict(zip(bv, i)))))
    s = None
    raise Unsupported("boolean array updated in a loop")
