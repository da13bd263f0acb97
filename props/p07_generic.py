from dv.dsl import scenario
from ._spec import *
import io

# approach -> (module, class)
APPR = {
    "ansb": ("ansb", "AnsbEntropyEstimator"),
    "bayes": ("bayes", "BayesEntropyEstimator"),
    "bonachela": ("bonachela", "BonachelaEntropyEstimator"),
    "chao_shen": ("chao_shen", "ChaoShenEntropyEstimator"),
    "chao_wang_jost": ("chao_wang_jost", "ChaoWangJostEntropyEstimator"),
    "grassberger": ("grassberger", "GrassbergerEntropyEstimator"),
    "nsb": ("nsb", "NsbEntropyEstimator"),
    "shrink": ("shrink", "ShrinkEntropyEstimator"),
    "zhang": ("zhang", "ZhangEntropyEstimator"),
    "renyi": ("renyi", "RenyiEntropyEstimator"),
    "tsallis": ("tsallis", "TsallisEntropyEstimator"),
}
ALL = sorted(APPR)
NONSB = [a for a in ALL if a != "nsb"]


def is_disc(approach):
    return approach not in ("renyi", "tsallis")


def params(S, approach):
    if approach == "ansb":
        return dict(undersampled=S.real("u", 0, typ=(0.05, 2)))
    if approach == "bayes":
        return dict(alpha=S.choice("alpha", [0.5, 1.0, 2, "jeffrey", "laplace"]) if S.conc else 0.5, K=S.int("K", 60, typ=(60, 90)))
    if approach in ("renyi", "tsallis"):
        return {"k": 3, ("alpha" if approach == "renyi" else "q"): S.choice("order", [0.7, 1, 1.5, 2]) if S.conc else 1.5}
    return {}


def variable(S, approach, name, n, d=0):
    disc = is_disc(approach)
    if d == 0:
        x = S.labels(name, n) if disc else S.series(name, n)
        return x, one(S, x)
    x = S.label_rows(name, n, d) if disc else S.points(name, n, d)
    return x, (lambda i: tuple(S.at(x, i, j) for j in range(d)))


def combo(S, approach, n, terms, ps, base):
    """(global, local or None) of sum of c * H(key), taken from the package's own entropy estimator"""
    disc = is_disc(approach)
    ps = dict(ps, base=base)
    if S.sym:
        l = lambda i: sum_(c * S.entropy_of(approach, n, key, ps, i) for c, key in terms)
        if S.has_locals:
            return S.div(S.sum(n, l), n), l
        return sum_(c * S.entropy_of(approach, n, key, ps) for c, key in terms), None
    if not disc:
        ps = dict(ps, noise_level=0) if approach == "kl" else ps
    es = []
    for c, key in terms:
        w = len(key(0))
        a = S.arr2(n, w, lambda i, j: key(i)[j], "i" if disc else "f")
        es.append((c, S.im.estimator(a if w > 1 else a[:, 0], measure="h", approach=approach, **ps)))
    try:
        ls = sum_(c * S.np.asarray(e.local_vals(), dtype=float) for c, e in es)
        if S.np.ndim(ls) == 0:
            return sum_(c * e.global_val() for c, e in es), None
        return float(S.np.mean(ls)), lambda i: ls[int(i)]
    except Exception as e:
        if type(e).__name__ not in ("UnsupportedOperation", "TheoreticalInconsistencyError"):
            raise
        return sum_(c * e.global_val() for c, e in es), None


def sum_(it):
    r = None
    for x in it:
        r = x if r is None else r + x
    return r


def contract(S, approach):
    if S.sym:
        # the contract leaves open whether the estimator offers local values: both cases are verified
        S.has_locals = S.choice("has_locals", [True, False])
        S.entropy_contract(approach, *APPR[approach], S.has_locals)


def verify(S, est, n, spec):
    g, l = spec
    S.eq("global value is the documented combination of entropies", est.global_val(), g)
    if l is not None:
        v = est.local_vals()
        S.shape("one local value per sample", v, n)
        q = S.index("q", n)
        S.eq("local value is the same combination of local entropies", S.at(v, q), l(q))


def kwargs(approach, ps):
    return dict(ps, noise_level=0) if approach in ("renyi", "tsallis") else ps


@scenario("P07", grid=dict(approach=NONSB, dims=[(0, 0), (0, 0, 0), (2, 0)]), conc=12, tol=1e-8)
def mi(S, approach, dims):
    """I(X1;..;Xm) = sum H(Xi) - H(X1,..,Xm)"""
    n = S.int("n", 8, 2**31 - 1, typ=(8, 28))
    contract(S, approach)
    base, ps = S.base(), params(S, approach)
    vs = [variable(S, approach, f"x{j}", n, d) for j, d in enumerate(dims)]
    cs = [v[1] for v in vs]
    est = S.im.estimator(*[v[0] for v in vs], measure="mi", approach=approach, base=base, **kwargs(approach, ps))
    verify(S, est, n, combo(S, approach, n, [(1, c) for c in cs] + [(-1, cat(*cs))], ps, base))


@scenario("P07", grid=dict(approach=NONSB), conc=12, tol=1e-8)
def mi_offset(S, approach):
    """the offset pairs x[i] with y[i + offset] (negative: x[i - offset] with y[i])"""
    n = S.int("n", 12, 2**31 - 1, typ=(14, 28))
    contract(S, approach)
    base, ps = S.base(), params(S, approach)
    o = S.choice("offset", [-3, 0, 2]) if S.conc else 2
    (x, cx), (y, cy) = variable(S, approach, "x", n), variable(S, approach, "y", n)
    est = S.im.estimator(x, y, measure="mi", approach=approach, base=base, offset=o, **kwargs(approach, ps))
    m, a, b = n - abs(o), max(-o, 0), max(o, 0)
    kx, ky = (lambda i: cx(i + a)), (lambda i: cy(i + b))
    verify(S, est, m, combo(S, approach, m, [(1, kx), (1, ky), (-1, cat(kx, ky))], ps, base))


@scenario("P07", grid=dict(approach=NONSB, dims=[(0, 0, 0), (0, 2, 0), (0, 0, 2), (0, 0, 0, 0)]), conc=12, tol=1e-8)
def cmi(S, approach, dims):
    """I(X1;..;Xm|Z) = sum H(Xi,Z) - H(X1,..,Xm,Z) - H(Z)"""
    disc = is_disc(approach)
    n = S.int("n", 8, 2**31 - 1, typ=(8, 28))
    contract(S, approach)
    base, ps = S.base(), params(S, approach)
    vs = [variable(S, approach, f"x{j}", n, d) for j, d in enumerate(dims)]
    cs, z = [v[1] for v in vs[:-1]], vs[-1][1]
    est = S.im.estimator(*[v[0] for v in vs[:-1]], cond=vs[-1][0], measure="cmi", approach=approach, base=base, **kwargs(approach, ps))
    verify(S, est, n, combo(S, approach, n, [(1, cat(c, z)) for c in cs] + [(-1, cat(*cs, z)), (-1, z)], ps, base))


@scenario("P07", grid=dict(approach=NONSB, hl=[(1, 1), (2, 1), (1, 2)], step=[1, 2]), conc=8, tol=1e-8)
def te(S, approach, hl, step):
    """TE = H(Y+,Y-) + H(X-,Y-) - H(X-,Y-,Y+) - H(Y-) over the documented slices"""
    sh, dh = hl
    lo = step * (max(hl) + 7)
    n = S.int("n", lo, 2**31 - 1, typ=(lo, lo + 24))
    contract(S, approach)
    base, ps = S.base(), params(S, approach)
    (x, _), (y, _) = variable(S, approach, "x", n), variable(S, approach, "y", n)
    sl = Slices(S, x, y, n, sh, dh, step)
    est = S.im.estimator(x, y, measure="te", approach=approach, base=base, src_hist_len=sh, dest_hist_len=dh, step_size=step, **kwargs(approach, ps))
    ts = [(1, cat(sl.dst, sl.fut)), (1, cat(sl.src, sl.dst)), (-1, cat(sl.src, sl.dst, sl.fut)), (-1, sl.dst)]
    verify(S, est, sl.m, combo(S, approach, sl.m, ts, ps, base))


@scenario("P07", grid=dict(approach=NONSB, p=[-2, 3]), conc=8, tol=1e-8)
def te_prop_time(S, approach, p):
    n = S.int("n", 18, 2**31 - 1, typ=(18, 34))
    contract(S, approach)
    base, ps = S.base(), params(S, approach)
    (x, _), (y, _) = variable(S, approach, "x", n), variable(S, approach, "y", n)
    sl = Slices(S, x, y, n, 1, 1, 1, prop=p)
    est = S.im.estimator(x, y, measure="te", approach=approach, base=base, prop_time=p, **kwargs(approach, ps))
    ts = [(1, cat(sl.dst, sl.fut)), (1, cat(sl.src, sl.dst)), (-1, cat(sl.src, sl.dst, sl.fut)), (-1, sl.dst)]
    verify(S, est, sl.m, combo(S, approach, sl.m, ts, ps, base))


@scenario("P07", grid=dict(approach=NONSB, hl=[(1, 1, 1), (2, 1, 2), (1, 2, 1)], step=[1, 2]), conc=8, tol=1e-8)
def cte(S, approach, hl, step):
    """CTE: the same combination with the condition's history joined to Y-"""
    sh, dh, zh = hl
    lo = step * (max(hl) + 7)
    n = S.int("n", lo, 2**31 - 1, typ=(lo, lo + 24))
    contract(S, approach)
    base, ps = S.base(), params(S, approach)
    (x, _), (y, _), (z, _) = (variable(S, approach, k, n) for k in "xyz")
    sl = Slices(S, x, y, n, sh, dh, step, z, zh)
    est = S.im.estimator(x, y, measure="cte", cond=z, approach=approach, base=base, src_hist_len=sh, dest_hist_len=dh, cond_hist_len=zh, step_size=step, **kwargs(approach, ps))
    w = cat(sl.dst, sl.cnd)
    ts = [(1, cat(w, sl.fut)), (1, cat(sl.src, w)), (-1, cat(sl.src, w, sl.fut)), (-1, w)]
    verify(S, est, sl.m, combo(S, approach, sl.m, ts, ps, base))


@scenario("P07", grid=dict(measure=["mi", "cmi", "te", "cte"]), conc=3, tol=1e-6)
def nsb(S, measure):
    """the NSB estimators (small inputs: the quadrature is slow)"""
    n = S.int("n", 12, 2**31 - 1, typ=(12, 16))
    contract(S, "nsb")
    base = S.base()
    x, y, z = S.labels("x", n, card=2), S.labels("y", n, card=3), S.labels("z", n, card=2)
    cx, cy, cz = one(S, x), one(S, y), one(S, z)
    if measure in ("mi", "cmi"):
        ts = [(1, cx), (1, cy), (-1, cat(cx, cy))] if measure == "mi" else [(1, cat(cx, cz)), (1, cat(cy, cz)), (-1, cat(cx, cy, cz)), (-1, cz)]
        m = n
    else:
        sl = Slices(S, x, y, n, 1, 1, 1) if measure == "te" else Slices(S, x, y, n, 1, 1, 1, z, 1)
        w = sl.dst if measure == "te" else cat(sl.dst, sl.cnd)
        ts = [(1, cat(w, sl.fut)), (1, cat(sl.src, w)), (-1, cat(sl.src, w, sl.fut)), (-1, w)]
        m = sl.m
    kw = dict(cond=z) if measure in ("cmi", "cte") else {}
    spec = combo(S, "nsb", m, ts, {}, base)
    est = S.im.estimator(x, y, measure=measure, approach="nsb", base=base, **kw)
    verify(S, est, m, spec)
