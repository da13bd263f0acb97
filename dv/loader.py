"""Mechanical extraction: the modules of /repo are parsed on every run, rewritten as listed below and executed
symbolically.  Nothing else is changed; the text that is verified is the text that runs.

Rewrites (all of them):
  a / b, a ** b            -> exact (rational / real) division and power
  0.5                      -> the exact decimal number
  [..] {..}                -> list / dict objects that can hold symbolic contents
  comprehensions           -> body evaluated once with a symbolic index when the iterable has symbolic length
  for x in E: B            -> native loop when E has concrete length, otherwise B executed once with a symbolic
                              index and the effect of all iterations inferred by induction (loops.py)
  x in c, not x            -> symbolic truth values kept as terms
  o.a = v                  -> same store, logged
  int(..) float(..) ...    -> symbolic versions of builtins
  logger.xxx(...)          -> dropped (statement position only)
"""
from __future__ import annotations
import ast
import builtins as _pb
import importlib
import os
import sys
import types
from fractions import Fraction
from . import sym as SY
from . import loops as LP
from . import terms as TM
from .engine import ENG, Unsupported
from .sym import *

REPO = os.environ.get("DV_REPO", "/repo")

CALLS = {"int", "float", "bool", "str", "list", "tuple", "dict", "set", "frozenset", "range", "zip", "enumerate", "map", "type", "filter", "reversed", "slice"}


class Rewriter(ast.NodeTransformer):
    def __init__(self, shadowed):
        self.shadowed = shadowed
        self.n = 0
        self.depth = 0
        self.loop_kind = []

    def fresh(self, p):
        self.n += 1
        return f"__dv_{p}{self.n}"

    @staticmethod
    def dv(name):
        return ast.Attribute(ast.Name("__dv__", ast.Load()), name, ast.Load())

    def call(self, name, *args):
        return ast.Call(self.dv(name), list(args), [])

    # ---- expressions
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(self.call("div", n.left, n.right), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(self.call("pow", n.left, n.right), n)
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(self.call("fl", ast.Constant(repr(n.value))), n)
        return n

    def visit_JoinedStr(self, n):
        return n  # error messages / log texts: left alone

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(self.call("vlist", n), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if self.depth == 0:
            return n
        return ast.copy_location(self.call("vdict", n), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = self.call("contains", n.comparators[0], n.left)
            if isinstance(n.ops[0], ast.NotIn):
                c = self.call("not_", c)
            return ast.copy_location(c, n)
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(self.call("not_", n.operand), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in CALLS and n.func.id not in self.shadowed:
            n.func = ast.copy_location(self.dv("b_" + n.func.id), n.func)
        return n

    # comprehensions
    def _names(self, t):
        """flatten a target -> (arg names, spec)"""
        if isinstance(t, ast.Name):
            return [t.id], None
        if isinstance(t, ast.Starred) and isinstance(t.value, ast.Name):
            return [t.value.id], "*"
        if isinstance(t, (ast.Tuple, ast.List)) and sum(isinstance(e, ast.Starred) for e in t.elts) <= 1:
            ns, sp = [], []
            for e in t.elts:
                a, s = self._names(e)
                ns += a
                sp.append(s)
            return ns, tuple(sp)
        raise Unsupported("comprehension target")

    def _spec(self, s):
        if s is None or s == "*":
            return ast.Constant(s)
        return ast.Tuple([self._spec(x) for x in s], ast.Load())

    def _lam(self, names, body):
        names = [x if x != "_" or names.count("_") == 1 else f"_{i}" for i, x in enumerate(names)]
        return ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), body)

    def _comp(self, n, kind, elt):
        gens = n.generators
        try:
            body = elt
            for k in range(len(gens) - 1, -1, -1):
                gcomp = gens[k]
                names, spec = self._names(gcomp.target)
                inner = k == len(gens) - 1
                knd = kind if len(gens) == 1 else ("nestin" if inner else ("nest" if k else kind + "*"))
                body = self.call("comp", ast.Constant(knd), gcomp.iter, self._spec(spec),
                                 self._lam(names, body), *[self._lam(names, c) for c in gcomp.ifs])
            return ast.copy_location(body, n)
        except Unsupported:
            return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return self._comp(n, "list", n.elt)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self._comp(n, "set", n.elt)

    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        return self._comp(n, "gen", n.elt)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return self._comp(n, "dict", ast.Tuple([n.key, n.value], ast.Load()))

    # ---- statements
    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == "logger":
            return ast.copy_location(ast.Pass(), n)
        self.generic_visit(n)
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is not None and isinstance(n.target, ast.Attribute):
            return self._store(ast.copy_location(ast.Assign([n.target], n.value), n))
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        return self._store(n)

    def _attr_targets(self, t):
        if isinstance(t, ast.Attribute):
            return True
        if isinstance(t, (ast.Tuple, ast.List)):
            return any(self._attr_targets(e) for e in t.elts)
        if isinstance(t, ast.Starred):
            return self._attr_targets(t.value)
        return False

    def _store(self, n):
        if not any(self._attr_targets(t) for t in n.targets):
            return n
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(self.call("setattr_", t.value, ast.Constant(t.attr), n.value)), n)
        tmp = self.fresh("t")
        out = [ast.Assign([ast.Name(tmp, ast.Store())], n.value)]
        for t in n.targets:
            out += self._assign_from(t, ast.Name(tmp, ast.Load()))
        return [ast.fix_missing_locations(ast.copy_location(x, n)) for x in out]

    def _assign_from(self, t, val):
        if isinstance(t, ast.Attribute):
            return [ast.Expr(self.call("setattr_", t.value, ast.Constant(t.attr), val))]
        if isinstance(t, (ast.Tuple, ast.List)) and self._attr_targets(t):
            names = []
            post = []
            elts = []
            for e in t.elts:
                if self._attr_targets(e):
                    nm = self.fresh("u")
                    elts.append(ast.Name(nm, ast.Store()))
                    post += self._assign_from(e, ast.Name(nm, ast.Load()))
                else:
                    elts.append(e)
            return [ast.Assign([ast.Tuple(elts, ast.Store())], val)] + post
        return [ast.Assign([t], val)]

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        t = n.target
        if isinstance(t, ast.Attribute):
            load = ast.Attribute(t.value, t.attr, ast.Load())
            return ast.copy_location(ast.Expr(self.call("setattr_", t.value, ast.Constant(t.attr), self.call("aug", ast.Constant(type(n.op).__name__), load, n.value))), n)
        if isinstance(n.op, (ast.Div, ast.Pow)):
            load = ast.parse(ast.unparse(t), mode="eval").body
            load = Rewriter(self.shadowed).visit(load) if not isinstance(t, ast.Name) else load
            return ast.copy_location(ast.Assign([t], self.call("aug", ast.Constant(type(n.op).__name__), load, n.value)), n)
        return n

    def _function(self, n):
        self.depth += 1
        # defaults / decorators / annotations stay outside
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        body = []
        for s in n.body:
            r = self.visit(s)
            if r is None:
                continue
            body += r if isinstance(r, list) else [r]
        n.body = body or [ast.Pass()]
        self.depth -= 1
        return n

    def visit_FunctionDef(self, n):
        self.loop_kind.append("fn")
        r = self._function(n)
        self.loop_kind.pop()
        return r

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    def visit_arg(self, n):
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        return n

    def visit_For(self, n):
        if self.depth == 0:
            self.generic_visit(n)
            return n
        names = _assigned(n)
        import copy
        symbody_src = copy.deepcopy(n.body)
        target_src = copy.deepcopy(n.target)
        self.generic_visit(n)
        it = self.fresh("it")
        bodyf, getf, setf, item = self.fresh("body"), self.fresh("get"), self.fresh("set"), self.fresh("item")
        # symbolic version of the body
        cont = _LoopExits()
        sb = [cont.visit(s) for s in symbody_src]
        stm = [ast.Assign([target_src], ast.Name(item, ast.Load()))] + sb
        # visit (rewrite) the body
        rb = []
        for s in stm:
            r = self.visit(s)
            rb += r if isinstance(r, list) else [r]
        # scoping: names assigned in the body are the variables of the enclosing function unless declared global
        nl = sorted(names)
        noarg = ast.arguments([], [], None, [], [], None, [])
        decl = [ast.Nonlocal(list(nl))] if nl else []
        fdef = ast.FunctionDef(bodyf, ast.arguments([], [ast.arg(item)], None, [], [], None, []), decl + rb, [], None, type_params=[])
        get = ast.FunctionDef(getf, noarg, [ast.Return(ast.Dict([ast.Constant(x) for x in nl], [self.call("getvar", self._lam([], ast.Name(x, ast.Load()))) for x in nl]))], [], None, type_params=[])
        setb = []
        for x in nl:
            setb.append(ast.If(ast.Compare(ast.Constant(x), [ast.In()], [ast.Name("__d", ast.Load())]),
                               [ast.Assign([ast.Name(x, ast.Store())], ast.Subscript(ast.Name("__d", ast.Load()), ast.Constant(x), ast.Load()))], []))
        sett = ast.FunctionDef(setf, ast.arguments([], [ast.arg("__d")], None, [], [], None, []), decl + (setb or [ast.Pass()]), [], None, type_params=[])
        native = ast.For(n.target, ast.Name(it, ast.Load()), n.body, n.orelse)
        symb = [fdef, get, sett, ast.Expr(self.call("symloop", ast.Name(it, ast.Load()), ast.Name(bodyf, ast.Load()), ast.Name(getf, ast.Load()), ast.Name(setf, ast.Load())))]
        out = [ast.Assign([ast.Name(it, ast.Store())], self.call("iter_", n.iter)),
               ast.If(self.call("is_sym", ast.Name(it, ast.Load())), symb + [x for x in []], [native])]
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out


class _LoopExits(ast.NodeTransformer):
    """continue -> return; break / return inside a symbolic loop -> unsupported"""

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(None), n)

    def visit_Break(self, n):
        return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(ast.Name("__dv__", ast.Load()), "unsup", ast.Load()), [ast.Constant("break in a symbolic loop")], [])), n)

    def visit_Return(self, n):
        return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(ast.Name("__dv__", ast.Load()), "unsup", ast.Load()), [ast.Constant("return in a symbolic loop")], [])), n)

    def visit_For(self, n):
        # inner loops keep their own continue / break, but return leaves both
        n.body = [_OnlyReturn().visit(s) for s in n.body]
        n.orelse = [self.visit(s) for s in n.orelse]
        return n

    visit_While = visit_For

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_FunctionDef


class _OnlyReturn(_LoopExits):
    def visit_Continue(self, n):
        return n

    def visit_Break(self, n):
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        return n

    visit_While = visit_For


def _assigned(loop):
    names = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, x):
            if isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.id)

        def visit_FunctionDef(self, x):
            names.add(x.name)

        def visit_Lambda(self, x):
            pass

        def visit_ListComp(self, x):
            for g in x.generators:
                self.visit(g.iter)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_NamedExpr(self, x):
            self.generic_visit(x)

        def visit_ExceptHandler(self, x):
            self.generic_visit(x)
    V().visit(loop.target)
    for s in loop.body:
        V().visit(s)
    return names


def shadowed_names(tree):
    out = set()
    for x in ast.walk(tree):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in CALLS:
            out.add(x.id)
        if isinstance(x, ast.arg) and x.arg in CALLS:
            out.add(x.arg)
    return out


# ------------------------------------------------------------------ runtime (__dv__)
class Runtime:
    pass


RT = Runtime()


def _reg(f):
    setattr(RT, f.__name__, f)
    return f


setattr(RT, "setattr_", LP.setattr_)


@_reg
def unsup(msg):
    raise Unsupported(msg)


@_reg
def fl(s):
    if s in ("inf",):
        return SNum(INF, "f", False)
    if s == "nan":
        return SNum(NAN, "f", False)
    return SNum(num(Fraction(s)), "f", False)


@_reg
def div(a, b):
    if isinstance(a, (Arr, SArrayLike)) or isinstance(b, (Arr, SArrayLike)):
        return a / b
    if is_numlike(a) and is_numlike(b):
        return div_values(a, b)
    if isinstance(a, LP.Poison) or isinstance(b, LP.Poison):
        LP.Poison._no(a)
    return a / b


@_reg
def pow(a, b):
    if is_numlike(a) and is_numlike(b) and not (isinstance(a, int) and isinstance(b, int) and b >= 0):
        return pow_values(a, b)
    if isinstance(a, (SList, VList)) or isinstance(b, (SList, VList)):
        a = asarr(a) if isinstance(a, (SList, VList)) else a
        b = asarr(b) if isinstance(b, (SList, VList)) else b
        return pow_values(a, b)
    return a ** b


@_reg
def aug(op, a, b):
    if op == "Div":
        if isinstance(a, Arr) and a.axes:
            a /= b
            return a
        return div(a, b)
    if op == "Pow":
        if isinstance(a, Arr) and a.axes:
            a **= b
            return a
        return pow(a, b)
    if op == "Add":
        a += b
    elif op == "Sub":
        a -= b
    elif op == "Mult":
        a *= b
    elif op == "FloorDiv":
        a //= b
    elif op == "Mod":
        a %= b
    elif op == "BitOr":
        a |= b
    elif op == "BitAnd":
        a &= b
    else:
        raise Unsupported(op)
    return a


@_reg
def vlist(x):
    return VList(x)


@_reg
def vdict(x):
    return VDict(x)


@_reg
def not_(x):
    if isinstance(x, SBool):
        return ~x
    if isinstance(x, (SDict, SDictView)):
        x = b_len(x)
        return x == 0
    return not x


@_reg
def contains(c, x):
    if isinstance(c, SDict):
        return c.contains(x)
    if isinstance(c, SDictView) and c.what == "k":
        return c.d.contains(x)
    if isinstance(c, (SSet, VDict)):
        return c.contains(x)
    if isinstance(c, Arr):
        return (c == x).any()
    if is_symseq(c):
        return b_any(comp("list", c, None, lambda e: e == x))
    if isinstance(c, (tuple, list, set, frozenset)) and (isinstance(x, (SNum, SBool)) or any(isinstance(e, (SNum, SBool)) for e in c)):
        r = FALSE
        for e in c:
            if e is None or isinstance(e, str) or x is None or isinstance(x, str):
                if e is x or (isinstance(e, str) and isinstance(x, str) and e == x):
                    return True
                continue
            q = x == e
            r = or_(r, b_of(q))
        return sbool(r)
    if isinstance(c, (dict, str)) or c is None:
        return x in c
    if isinstance(c, (collections.abc.KeysView,)) and isinstance(x, SNum):
        return contains(tuple(c), x)
    return x in c


@_reg
def iter_(x):
    if isinstance(x, SGen):
        x = x.force()
    if isinstance(x, SDict) or isinstance(x, SNum):
        pass
    if isinstance(x, VDict) and x.sym is not None:
        return x.sym
    if isinstance(x, (SZip, SEnum)):
        return x
    return x


@_reg
def is_sym(x):
    return is_symseq(x)


@_reg
def getvar(f):
    try:
        return f()
    except NameError:
        return LP.UNBOUND


@_reg
def symloop(it, body, get, set_):
    LP.symloop(to_slist(it), body, get, set_)


def unpack(spec):
    def u(x, s):
        if s is None:
            return [x]
        if isinstance(x, (SNum, SBool)):
            raise TypeError("cannot unpack non-iterable number")
        if isinstance(x, Arr):
            n = x.axes[0].concrete()
            if n is None:
                if x.axes[0].simple:
                    n = len(s) if ENG.decide(eq(x.axes[0].hi, num(len(s)))) else -1
                else:
                    raise Unsupported("unpacking a filtered array")
            xs = [x[i] for i in range(n)] if n >= 0 else []
        elif is_symseq(x):
            raise Unsupported("unpacking a sequence of symbolic length")
        else:
            xs = list(x)
        if "*" in s:
            k = s.index("*")
            m = len(xs) - len(s) + 1
            if m < 0:
                raise ValueError("not enough values to unpack")
            xs = xs[:k] + [VList(xs[k:k + m])] + xs[k + m:]
            s = tuple(None if t == "*" else t for t in s)
        if "*" in s:
            k = s.index("*")
            m = len(xs) - len(s) + 1
            if m < 0:
                raise ValueError("not enough values to unpack")
            xs = xs[:k] + [VList(xs[k:k + m])] + xs[k + m:]
            s = tuple(None if t == "*" else t for t in s)
        if len(xs) != len(s):
            raise ValueError("not enough / too many values to unpack")
        return [y for e, t in zip(xs, s) for y in u(e, t)]
    return lambda x: u(x, spec)


class SNest(SArrayLike):
    """concatenation over a symbolic index of symbolic sequences (only reducible)"""

    def __init__(self, sl):
        self.sl = sl

    def __iter__(self):
        raise Unsupported("iteration over a nested symbolic comprehension")

    def to_arr(self):
        raise Unsupported("array of a nested comprehension")


@_reg
def comp(kind, it, spec, fn_, *conds):
    it = iter_(it)
    if kind in ("gen",):
        if not is_symseq(it) and not isinstance(it, (SGen,)):
            return _conc_gen(it, spec, fn_, conds)
        return SGen(lambda: comp("list", it, spec, fn_, *conds))
    un = unpack(spec)
    if kind in ("nestin",):
        return comp("list", it, spec, fn_, *conds)
    if kind.endswith("*") or kind == "nest":
        base = kind[:-1] if kind.endswith("*") else "list"
        r = comp("list", it, spec, fn_, *conds)
        if is_symseq(r):
            if base not in ("gen", "list"):
                raise Unsupported("nested symbolic comprehension")
            return SNest(to_slist(r))
        flat = []
        if any(is_symseq(x) or isinstance(x, SNest) for x in r):
            return SNest(list(r))
        for x in r:
            flat.extend(x)
        if base == "dict":
            return VDict(flat)
        if base == "set":
            return b_set(flat)
        return VList(flat)
    if not is_symseq(it):
        items = []
        for x in it:
            a = un(x)
            if all(c(*a) for c in conds):
                items.append(fn_(*a))
        if kind == "list":
            return VList(items)
        if kind == "set":
            return b_set(items)
        if kind == "dict":
            d = VDict()
            for k, v in items:
                d[k] = v
            return d
    r = LP.comp_sym(to_slist(it), fn_, conds, un)
    if kind == "dict":
        if isinstance(r, list):
            return VDict()
        sl0 = to_slist(it)
        return dict_of(r)
    if kind == "set":
        return to_set(r)
    return VList(sym=r) if isinstance(r, SList) else VList(r)


def _conc_gen(it, spec, fn_, conds):
    un = unpack(spec)
    for x in it:
        a = un(x)
        if all(c(*a) for c in conds):
            yield fn_(*a)


def dict_of(sl):
    return make_dict(sl)


# ---- builtins
@_reg
def b_int(x=0, *a):
    if isinstance(x, (SNum, SBool)) or (isinstance(x, Arr) and not x.axes):
        return cast(x, "i", False)
    if isinstance(x, Arr):
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    return _pb.int(x, *a)


@_reg
def b_float(x=0):
    if isinstance(x, str):
        return fl(x.lower().lstrip("+")) if x.lower() in ("inf", "nan") else SNum(NINF, "f", False) if x.lower() == "-inf" else fl(x)
    if is_numlike(x):
        return SNum(t_of(x), "f", False)
    if isinstance(x, Arr):
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    return fl(repr(_pb.float(x)))


@_reg
def b_bool(x=False):
    if isinstance(x, (SNum, SBool)):
        return sbool(b_of(x))
    return _pb.bool(x)


@_reg
def b_str(x="", *a):
    return _pb.str(x, *a)


@_reg
def b_list(x=()):
    return mklist(x)


@_reg
def b_tuple(x=()):
    if isinstance(x, SGen):
        x = x.force()
    if is_symseq(x):
        sl = to_slist(x)
        return STuple(sl.axis, sl.legs, tuple)
    if isinstance(x, Arr):
        n = x.axes[0].concrete()
        if "rowcols" in x.meta or n is None:
            sl = to_slist(x)
            return STuple(sl.axis, sl.legs, tuple)
        return tuple(x[i] for i in _pb.range(n))
    return _pb.tuple(x)


@_reg
def b_dict(*a, **k):
    if a and (is_symseq(a[0]) or isinstance(a[0], SGen)):
        x = a[0]
        if isinstance(x, SDict):
            return x.copy()
        return dict_of(to_slist(x))
    if a and isinstance(a[0], VDict):
        return a[0].copy()
    return VDict(*a, **k)


@_reg
def b_set(x=()):
    if isinstance(x, SGen):
        x = x.force()
    if isinstance(x, (SSet, SDict, SDictView)) or is_symseq(x):
        return to_set(x)
    xs = list(x)
    if any(isinstance(e, SNum) and numval(e.t) is None for e in xs):
        return VSet(xs)
    return _pb.set(e if not isinstance(e, SNum) else (int(e) if numval(e.t).denominator == 1 else e) for e in xs)


RT.b_frozenset = b_set


class VSet(_pb.set):
    """set of finitely many symbolic numbers (elements may coincide): forks on equality"""
    def __new__(cls, xs=()):
        return _pb.set.__new__(cls)

    def __init__(self, xs=()):
        out = []
        for x in xs:
            if not any(ENG.decide(eq(t_of(x), t_of(y))) for y in out):
                out.append(x)
        _pb.set.__init__(self, out)

    def add(self, x):
        if not any(ENG.decide(eq(t_of(x), t_of(y))) for y in self):
            _pb.set.add(self, x)


@_reg
def b_range(*a):
    if all(isinstance(x, int) or (isinstance(x, SNum) and numval(x.t) is not None) for x in a):
        return _pb.range(*[int(x) for x in a])
    for x in a:
        if isinstance(x, SNum) and x.kind == "f":
            raise TypeError("'float' object cannot be interpreted as an integer")
        if not is_numlike(x):
            raise TypeError("object cannot be interpreted as an integer")
    ts = [t_of(x) for x in a]
    if len(ts) == 1:
        return SRange(ZERO, ts[0])
    if len(ts) == 2:
        return SRange(ts[0], ts[1])
    if ts[2] is ONE:
        return SRange(ts[0], ts[1])
    if not PRV.pos(ts[2]):
        raise Unsupported("range with a step that is not positive")
    r = SRange(ZERO, fn("max", idiv(add(sub(ts[1], ts[0]), ts[2], num(-1)), ts[2]), ZERO))
    return comp("list", r, None, lambda i: wrap(add(ts[0], mul(ts[2], t_of(i))), "i", False))


@_reg
def b_zip(*xs, strict=False):
    xs = [x.force() if isinstance(x, SGen) else x for x in xs]
    if any(is_symseq(x) or isinstance(x, (SZip, SEnum)) for x in xs):
        for x in xs:
            if not is_symseq(x) and isinstance(x, Arr):
                pass
        return SZip(xs)
    return _pb.zip(*xs)


@_reg
def b_enumerate(x, start=0):
    if isinstance(x, SGen):
        x = x.force()
    if is_symseq(x):
        return SEnum(x, start)
    return _pb.enumerate(x, start)


REAL = {}


@_reg
def b_map(f, *xs):
    f = REAL.get(f, f) if f.__hash__ else f
    if any(is_symseq(x) or isinstance(x, (SGen, SZip, SEnum)) for x in xs):
        it = xs[0] if len(xs) == 1 else SZip(xs)
        if len(xs) == 1:
            return SGen(lambda: comp("list", it, None, f))
        return SGen(lambda: comp("list", it, (None,) * len(xs), f))
    return _pb.map(f, *xs)


@_reg
def b_filter(f, x):
    if is_symseq(x):
        return comp("list", x, None, lambda e: e, f if f is not None else (lambda e: e))
    return _pb.filter(f, x)


@_reg
def b_reversed(x):
    if is_symseq(x):
        raise Unsupported("reversed symbolic sequence")
    return _pb.reversed(list(x))


@_reg
def b_slice(*a):
    return _pb.slice(*a)


@_reg
def b_type(x, *a):
    if a:
        return _pb.type(x, *a)
    if isinstance(x, SNum):
        return KIND_TYPE[x.kind] if x.np else PY_TYPE[x.kind]
    if isinstance(x, SBool):
        return np_bool
    if isinstance(x, (VList, SList)):
        return x.pytype if isinstance(x, SList) else list
    if isinstance(x, (VDict, SDict)):
        return dict
    if isinstance(x, SSet):
        return set
    return _pb.type(x)


def b_len(x):
    if isinstance(x, Arr):
        if not x.axes:
            raise TypeError("len() of unsized object")
        return wrap(x.axes[0].length(), "i", False)
    if isinstance(x, SGen):
        raise TypeError("object of type 'generator' has no len()")
    if isinstance(x, SList):
        return wrap(x.length(), "i", False)
    if isinstance(x, VList) and x.sym is not None:
        return wrap(x.sym.length(), "i", False)
    if isinstance(x, VDict) and x.sym is not None:
        return wrap(x.sym.length(), "i", False)
    if isinstance(x, (SDict, SSet)):
        return wrap(x.length(), "i", False)
    if isinstance(x, SDictView):
        return wrap(x.d.length(), "i", False)
    if isinstance(x, SRange):
        return wrap(x.n, "i", False)
    if isinstance(x, (SNum, SBool)):
        raise TypeError(f"object of type '{type_name(x)}' has no len()")
    return _pb.len(x)


def b_sum(x, start=0):
    if isinstance(x, SGen):
        x = x.force()
    if isinstance(x, SNest):
        if isinstance(x.sl, list):
            r = start
            for e in x.sl:
                r = r + b_sum(e)
            return r
        return b_sum(comp("list", x.sl, None, lambda e: b_sum(e)), start)
    if isinstance(x, Arr) and x.axes and x.axes[0].concrete() is not None:
        r = start
        for i in _pb.range(x.axes[0].concrete()):
            r = r + x[i]
        return r
    return SY.b_sum(x, start)


def _quant(x, what):
    if isinstance(x, SGen):
        x = x.force()
    if isinstance(x, SNest):
        if isinstance(x.sl, list):
            return _quant([_quant(e, what) for e in x.sl], what)
        return _quant(comp("list", x.sl, None, lambda e: _quant(e, what)), what)
    if is_symseq(x):
        r = TRUE
        for idx, v, hi, g, val in to_slist(x).legs:
            with facts(g):
                b = b_of(val)
            if what == "any":
                b = TM.not_(b)
            r = and_(r, mk_forall(v, hi, or_(TM.not_(g), b)))
        return sbool(r if what == "all" else TM.not_(r))
    terms = []
    for e in x:
        if isinstance(e, (SBool, SNum)):
            terms.append(b_of(e))
        elif bool(e) == (what == "any"):
            # short circuit on concrete outcome
            if what == "any":
                return True if not terms else sbool(TRUE)
            return False if not terms else sbool(FALSE)
    return sbool(or_(*terms) if what == "any" else and_(*terms))


def _quant_all(x):
    if isinstance(x, SGen) or isinstance(x, SNest) or is_symseq(x):
        return _quant(x, "all")
    terms = []
    for e in x:
        if isinstance(e, (SBool, SNum)):
            terms.append(b_of(e))
        elif not e:
            return False
        # a decided symbolic False stops evaluation like the real all()
        if terms and PRV.decide(terms[-1]) is False:
            return False
    return sbool(and_(*terms))


def _quant_any(x):
    if isinstance(x, SGen) or isinstance(x, SNest) or is_symseq(x):
        return _quant(x, "any")
    terms = []
    for e in x:
        if isinstance(e, (SBool, SNum)):
            terms.append(b_of(e))
        elif e:
            return True
        if terms and PRV.decide(terms[-1]) is True:
            return True
    return sbool(or_(*terms))


def _shortcircuit(x, what):
    """concrete sequences: evaluate lazily, fork on undecided elements exactly like CPython"""


def b_any(x):
    return _quant_any(x)


def b_all(x):
    return _quant_all(x)


def _extreme(which, args, key, default):
    if len(args) == 1:
        x = args[0]
        if isinstance(x, SGen):
            x = x.force()
        if is_symseq(x):
            a = asarr(to_slist(x)) if key is None else None
            if a is None:
                raise Unsupported("max/min with key over a symbolic sequence")
            r = reduce_(a, None, which)
            return r
        xs = list(x)
    else:
        xs = list(args)
    if not xs:
        if default is not _NODEF:
            return default
        raise ValueError(f"{which}() arg is an empty sequence")
    if key is not None:
        best = xs[0]
        for e in xs[1:]:
            a, b = key(e), key(best)
            if (a > b) if which == "max" else (a < b):
                best = e
        return best
    if all(is_numlike(e) for e in xs):
        if all(isinstance(e, int) for e in xs):
            return (_pb.max if which == "max" else _pb.min)(xs)
        r = t_of(xs[0])
        for e in xs[1:]:
            r = fn(which, r, t_of(e))
        return wrap(r, join_kind(*[kind_of(e) for e in xs]), any(is_np(e) for e in xs))
    return (_pb.max if which == "max" else _pb.min)(xs)


_NODEF = object()


def b_max(*a, key=None, default=_NODEF): return _extreme("max", a, key, default)
def b_min(*a, key=None, default=_NODEF): return _extreme("min", a, key, default)


def b_abs(x): return abs(x)


def b_sorted(x, key=None, reverse=False):
    if isinstance(x, SGen):
        x = x.force()
    if is_symseq(x):
        raise Unsupported("sorted() of a symbolic sequence")
    xs = list(x)
    if len(xs) > 1 and key is None and any(isinstance(e, SNum) and numval(e.t) is None for e in xs):
        raise Unsupported("sorted() of symbolic numbers")
    return VList(_pb.sorted(xs, key=key, reverse=reverse))


def b_round(x, nd=None):
    if isinstance(x, SNum):
        v = numval(x.t)
        if v is not None and nd is None:
            return _pb.round(v)
        return wrap(fn("round", x.t) if nd is None else rawapp("round", x.t, num(nd)), "i" if nd is None else x.kind, False)
    return _pb.round(x, nd) if nd is not None else _pb.round(x)


_ABSTRACT = None


def b_isinstance(x, T_):
    if isinstance(T_, _pb.tuple):
        return any(b_isinstance(x, t) for t in T_)
    if isinstance(T_, types.UnionType) or getattr(T_, "__origin__", None) is typing.Union:
        return any(b_isinstance(x, t) for t in T_.__args__)
    if getattr(T_, "__origin__", None) is not None:
        T_ = T_.__origin__
    if isinstance(x, SNum):
        if T_ is object:
            return True
        if isinstance(T_, _pb.type) and issubclass(T_, np_generic):
            return x.np and issubclass(KIND_TYPE[x.kind], T_)
        if T_ is _pb.float:
            return x.kind == "f"
        if T_ is _pb.int:
            return x.kind == "i" and not x.np
        if T_ is numbers.Number or T_ is numbers.Real:
            return True
        if T_ is numbers.Integral:
            return x.kind in ("i", "u")
        return False
    if isinstance(x, SBool):
        return T_ is np_bool or T_ is np_generic or T_ is object
    if isinstance(x, Arr):
        return T_ is Arr or T_ is object or T_ in (collections.abc.Iterable, collections.abc.Sized, collections.abc.Container)
    if isinstance(x, SList):
        return issubclass(x.pytype, T_) if isinstance(T_, _pb.type) else False
    if isinstance(x, VList):
        return isinstance([], T_) if isinstance(T_, _pb.type) else False
    if isinstance(x, SDict):
        if T_ is collections.Counter:
            return bool(getattr(x, "counter", False))
        return issubclass(dict, T_)
    if isinstance(x, VDict):
        return issubclass(dict, T_) if isinstance(T_, _pb.type) else False
    if isinstance(x, SSet):
        return issubclass(set, T_)
    if isinstance(x, SGen):
        return T_ in (types.GeneratorType, collections.abc.Iterable, collections.abc.Iterator, collections.abc.Generator)
    if isinstance(x, LP.Poison):
        LP.Poison._no(x)
    if T_ is Arr:
        return False
    return _pb.isinstance(x, T_)


def b_hasattr(x, n):
    if isinstance(x, (SNum, SBool)) and n in ("__len__", "__iter__", "__getitem__", "shape") and not (n == "shape" and is_np(x)):
        return False
    return _pb.hasattr(x, n)


def b_callable(x):
    return _pb.callable(x)


def b_setattr(o, n, v):
    LP.setattr_(o, n, v)


def b_iter(x):
    if is_symseq(x):
        raise Unsupported("iter() of a symbolic sequence")
    return _pb.iter(x)


def b_divmod(a, b):
    return a // b, a % b


def b_id(x):
    return _pb.id(x)


def b_pow(a, b, *c):
    return pow(a, b)


import collections
import numbers

REAL.update({int: RT.b_int, float: RT.b_float, bool: RT.b_bool, str: RT.b_str, list: RT.b_list, tuple: RT.b_tuple, set: RT.b_set, dict: RT.b_dict,
             _pb.range: RT.b_range, _pb.zip: RT.b_zip})


def make_builtins(loader):
    d = dict(vars(_pb))
    d.update(len=b_len, sum=b_sum, any=b_any, all=b_all, max=b_max, min=b_min, abs=b_abs, sorted=b_sorted, round=b_round,
             isinstance=b_isinstance, hasattr=b_hasattr, setattr=b_setattr, iter=b_iter, divmod=b_divmod, pow=b_pow, callable=b_callable)
    d["__import__"] = loader.import_
    return d


# ------------------------------------------------------------------ module loader
class Loader:
    """private import system: infomeasure is loaded from /repo's source, numeric libraries are the contract shims"""

    def __init__(self, shims, repo=None):
        self.repo = repo or REPO
        self.modules: dict = {}
        self.shims = shims
        self.builtins = make_builtins(self)
        self.files: dict = {}
        self.funcs = 0

    def path_of(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, pkg = self.path_of(name)
        if path is None:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__dv__"] = RT
        self.modules[name] = m
        try:
            code = self.compile(path)
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if "." in name:
            par, _, leaf = name.rpartition(".")
            setattr(self.modules[par], leaf, m)
        return m

    _code: dict = {}

    def compile(self, path):
        key = (path, os.stat(path).st_mtime_ns)
        if key in Loader._code:
            return Loader._code[key]
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        self.files[path] = src
        rw = Rewriter(shadowed_names(tree))
        tree = rw.visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec", dont_inherit=True)
        Loader._code[key] = code
        return code

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = f"{pkg}.{name}" if name else pkg
        top = name.split(".")[0]
        if top == "infomeasure":
            m = self.load(name)
            if not fromlist:
                return self.modules[top]
            for f in fromlist:
                if f != "*" and not hasattr(m, f):
                    sub_ = f"{name}.{f}"
                    if self.path_of(sub_)[0]:
                        self.load(sub_)
            return m
        if top in ("numpy", "scipy", "sparse", "multiprocessing", "tqdm", "pandas", "matplotlib"):
            if name not in self.shims:
                raise ModuleNotFoundError(name)
            if fromlist:
                return self.shims[name]
            return self.shims[top]
        if name in self.shims:
            return self.shims[name]
        return _pb.__import__(name, None, None, fromlist, 0)

    def stub(self, original, replacement):
        """replace a function by its contract in every module of the code under verification"""
        for m in self.modules.values():
            for k, v in list(vars(m).items()):
                if v is original:
                    setattr(m, k, replacement)
