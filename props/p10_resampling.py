from dv.dsl import scenario
from ._spec import *
from ._all import *
from . import p07_generic as g7, p19_ksg as k19, p21_kernel as k21
from .p08_slicing import step_n

METHODS = ["permutation_test", "bootstrap"]
INF = float("inf")


def embed(S, h, step, which):
    n = S.int("n", step * (max(h) + 4), 2**31 - 1, typ=(step * (max(h) + 14), 50))
    x, y = S.series("x", n), S.series("y", n)
    if which == "te":
        return n, x, y, None, Slices(S, x, y, n, h[0], h[1], step)
    z = S.series("z", n)
    return n, x, y, z, Slices(S, x, y, n, h[0], h[1], step, z, h[2])


@scenario("P10", grid=dict(which=["te", "cte"], h=[(1, 1, 1), (2, 1, 2), (1, 2, 1)], step=[1, 2], how=["permute", "resample", "permute own", "resample own"]), conc=12)
def slices(S, which, h, step, how):
    """resampling replaces whole source histories by (permuted / drawn) other source histories; everything else stays in place"""
    n, x, y, z, sl = embed(S, h, step, which)
    m = sl.m
    te = S.mod("estimators.utils.te_slicing")
    g = lambda: S.rng(7) if "own" not in how else True
    kw = dict(src_hist_len=h[0], dest_hist_len=h[1], step_size=step)
    if which == "cte":
        kw["cond_hist_len"] = h[2]
    opt = "permute_src" if "permute" in how else "resample_src"
    f = te.te_observations if which == "te" else te.cte_observations
    vs = (x, y) if which == "te" else (x, y, z)
    before = [S.copy(v) for v in vs]
    r = f(*vs, **kw, construct_joint_spaces=False, **{opt: g()})
    w = S.drawn("source histories", m, lambda k: S.at(r[0], k, 0), lambda i: sl.src(i)[0], opt == "resample_src")
    k = S.index("k", m)
    names = ["source", "destination history", "destination future", "condition history"]
    rows = [sl.src(w(k)), sl.dst(k), sl.fut(k)] + ([sl.cnd(k)] if which == "cte" else [])
    S.check("number of arrays", len(r) == len(rows))
    for nm, a, row in zip(names, r, rows):
        S.shape(f"{nm}: shape", a, m, len(row))
        for c, e in enumerate(row):
            S.eq(f"{nm}: entry", S.at(a, k, c), e)
    if "own" not in how:
        # the joint arrays use one and the same draw
        j = f(*vs, **kw, **{opt: g()})
        c_ = rows[3] if which == "cte" else ()
        s, d, fu = rows[:3]
        want = [s + d + fu + c_, d + c_, s + d + c_, d + fu + c_]
        for nm, a, row in zip(["joint", "conditioning", "marginal with source", "marginal with future"], j, want):
            S.shape(f"{nm}: shape", a, m, len(row))
            for c, e in enumerate(row):
                S.eq(f"{nm}: entry", S.at(a, k, c), e)
    for v, b in zip(vs, before):
        S.unchanged("the series themselves are not modified", v, b)


@scenario("P10", grid=dict(which=["te", "cte"]), conc=8)
def both_flags(S, which):
    """permuting and drawing at once is refused"""
    n, x, y, z, sl = embed(S, (1, 1, 1), 1, which)
    te = S.mod("estimators.utils.te_slicing")
    f = te.te_observations if which == "te" else te.cte_observations
    S.raises("ValueError", ValueError, lambda: f(*((x, y) if which == "te" else (x, y, z)), permute_src=S.rng(1), resample_src=S.rng(2)))


@scenario("P10", grid=dict(measure=["mi", "cmi"], kinds=[("1d", "1d"), ("rows2", "1d"), ("1d", "rows2")], method=METHODS), conc=15)
def mi_test_data(S, measure, kinds, method):
    """each evaluation of the test sees (resampled first variable, untouched second variable, untouched condition)"""
    n = S.int("n", 3, 2**31 - 1, typ=(12, 40))
    mk = lambda nm, kd: S.series(nm, n) if kd == "1d" else S.points(nm, n, 2)
    x, y, z = mk("x", kinds[0]), mk("y", kinds[1]), S.series("z", n)
    kw = dict(cond=z) if measure == "cmi" else {}
    est = S.im.estimator(x, y, measure=measure, approach="ksg", noise_level=0, k=1, **kw)
    d0, d1 = est.data
    seen = []

    def calc():
        seen.append((est.data, getattr(est, "cond", None)))
        return 0.25 * len(seen)
    est._calculate = calc
    est.rng = S.rng(11)
    t = est.statistical_test(n_tests=2, method=method)
    S.eq("number of evaluations", len(seen), 3)     # two tests and the observed value
    first = [S.at(t.test_values, i) for i in range(2)]
    S.check("the evaluations are the test values", sorted([S.value(v) for v in first] + [S.value(t.observed_value)]) == [0.25, 0.5, 0.75])
    ids = [int(round(S.value(v) * 4)) - 1 for v in first]
    el = lambda a, i, c: S.at(a, i) if len(a.shape) == 1 else S.at(a, i, c)
    one_ = tw = el
    for j in ids:
        (a, b), c = seen[j]
        w = S.drawn("first variable", n, lambda k: one_(a, k, 0), lambda i: one_(x, i, 0), method == "bootstrap")
        k = S.index("k", n)
        for q in range(1 if kinds[0] == "1d" else 2):
            S.eq("rows stay together", one_(a, k, q), one_(x, w(k), q))
        for q in range(1 if kinds[1] == "1d" else 2):
            S.eq("second variable is not touched", tw(b, k, q), tw(y, k, q))
        S.eq("second variable keeps its length", S.len(b), n)
        if measure == "cmi":
            S.eq("condition is not touched", el(c, k, 0), S.at(z, k))
    S.check("the observed value uses the original data", seen[({0, 1, 2} - set(ids)).pop()][0] is est.data)
    k = S.index("k", n)
    S.eq("the estimator's data is restored", one_(est.data[0], k, 0), one_(x, k, 0))
    S.eq("the estimator's data is restored (second)", tw(est.data[1], k, 0), tw(y, k, 0))


def draw_of(S, method, n, m=None, sl=None, h=None, step=None, r=None):
    """the permutation / draw made from a fresh generator with the same seed, for te slices or plain data"""
    ramp = S.arr(n, lambda i: i, "i")
    if sl is None:
        r = r or S.rng(5)
        v = r.permutation(ramp) if method == "permutation_test" else r.choice(ramp, size=n, replace=True)
        return lambda k: S.at(v, k)
    te = S.mod("estimators.utils.te_slicing")
    o = te.te_observations(ramp, ramp, src_hist_len=h[0], dest_hist_len=h[1], step_size=step, construct_joint_spaces=False,
                           **{"permute_src" if method == "permutation_test" else "resample_src": S.rng(5)})
    t0 = sl.t(0) - sl.sh * step
    return lambda k: S.idiv(S.at(o[0], k, 0) - t0, step)


@scenario("P10", grid=dict(approach=["discrete", "miller_madow"], h=[(1, 1), (2, 1)], method=METHODS), conc=15)
def te_value(S, approach, h, method):
    """the resampled transfer entropy is I(future; resampled source history | destination history)"""
    step, n = step_n(S, max(h), step=1)
    x, y = S.labels("x", n), S.labels("y", n)
    sl = Slices(S, x, y, n, h[0], h[1], step)
    w = draw_of(S, method, n, sl=sl, h=h, step=step)
    est = S.im.estimator(x, y, measure="te", approach=approach, base="e", src_hist_len=h[0], dest_hist_len=h[1], step_size=step)
    est.rng = S.rng(5)
    v = est.effective_val(method=method)
    corr = lambda ks: mm_cmi_corr(S, sl.m, ks, sl.dst) if approach == "miller_madow" else S.num(0)
    k0, k1 = [sl.fut, sl.src], [sl.fut, lambda k: sl.src(w(k))]
    S.eq("effective value = observed - resampled", v, CMI(S, sl.m, k0, sl.dst) + corr(k0) - CMI(S, sl.m, k1, sl.dst) - corr(k1), tol=1e-8)
    g = est.global_val()
    S.eq("the observed value is that of the data", g, CMI(S, sl.m, k0, sl.dst) + corr(k0), tol=1e-8)


@scenario("P10", grid=dict(approach=g7.NONSB, method=METHODS), conc=8, tol=1e-8)
def te_value_generic(S, approach, method):
    n = S.int("n", 12, 2**31 - 1, typ=(12, 30))
    g7.contract(S, approach)
    base, ps = S.base(), g7.params(S, approach)
    x, y = g7.variable(S, approach, "x", n)[0], g7.variable(S, approach, "y", n)[0]
    sl = Slices(S, x, y, n, 1, 1, 1)
    w = draw_of(S, method, n, sl=sl, h=(1, 1), step=1)
    est = S.im.estimator(x, y, measure="te", approach=approach, base=base, **g7.kwargs(approach, ps))
    est.rng = S.rng(5)
    v = est.effective_val(method=method)
    terms = lambda s: [(1, cat(sl.dst, sl.fut)), (1, cat(s, sl.dst)), (-1, cat(s, sl.dst, sl.fut)), (-1, sl.dst)]
    a = g7.combo(S, approach, sl.m, terms(sl.src), ps, base)[0]
    b = g7.combo(S, approach, sl.m, terms(lambda k: sl.src(w(k))), ps, base)[0]
    S.eq("effective value = observed - resampled", v, a - b)


@scenario("P10", grid=dict(approach=["ksg", "kernel"], h=[(1, 1), (2, 1)], method=METHODS), conc=8)
def te_value_metric(S, approach, h, method):
    n = S.int("n", 12, 2**31 - 1, typ=(12, 30))
    base = S.base()
    x, y = S.series("x", n), S.series("y", n)
    sl = Slices(S, x, y, n, h[0], h[1], 1)
    w = draw_of(S, method, n, sl=sl, h=h, step=1)
    src = lambda k: sl.src(w(k))
    if approach == "ksg":
        kw = dict(k=2, ksg_id=1, noise_level=0)
        loc = lambda s: k19.ksg_cmi(S, sl.m, [s, sl.fut], sl.dst, 2, INF, 1)
    else:
        hb = S.real("h", 0, typ=(0.3, 2))
        kw = dict(kernel="box", bandwidth=hb)
        loc = lambda s: k21.info(S, sl.m, [cat(s, sl.dst, sl.fut), sl.dst], [cat(s, sl.dst), cat(sl.dst, sl.fut)], hb, 0, 0, base)
    u = S.unit(base) if approach == "ksg" else 1
    mean = lambda f: S.div(S.sum(sl.m, f), sl.m) / u
    est = S.im.estimator(x, y, measure="te", approach=approach, base=base, src_hist_len=h[0], dest_hist_len=h[1], **kw)
    est.rng = S.rng(5)
    v = est.effective_val(method=method)
    S.eq("effective value = observed - resampled", v, mean(loc(sl.src)) - mean(loc(src)), tol=1e-7)


@scenario("P10", grid=dict(a=I_APP, measure=["mi", "cmi"], method=METHODS), conc=lambda a, **_: 2 if slow(a) else 10, tol=1e-8, sym=lambda a, **_: a in ("discrete", "miller_madow", "ksg", "kernel_box"))
def mi_value(S, a, measure, method):
    """the resampled (conditional) mutual information is the estimate on the resampled first variable"""
    n = size(S, a, measure)
    vs, ps = data(S, a, measure, n), params(S, a, measure)
    est = construct(S, a, measure, vs, "e", ps)
    kind = "i" if a in DISC else "f"
    gibbs(S, a, measure, n, vs)
    est.rng = S.rng(5)
    if S.sym:
        obs = S.real("observed")        # the observed value is verified elsewhere
        est.global_val = lambda: obs
    t = est.statistical_test(n_tests=2, method=method)
    r = S.rng(5)
    for j in range(1 if S.sym else 2):
        w = draw_of(S, method, n, r=r)
        xr = S.arr(n, lambda i: S.at(vs[0], w(i)), kind)
        gibbs(S, a, measure, n, [xr, vs[1]])
        S.eq("test value is the estimate on the resampled data", S.at(t.test_values, j), plain_value(S, a, measure, n, [xr] + vs[1:], ps))
    if not S.sym:
        S.eq("the observed value is the estimate on the data", t.observed_value, plain_value(S, a, measure, n, vs, ps))


def plain_value(S, a, measure, n, vs, ps):
    if not S.sym:
        return construct(S, a, measure, vs, "e", ps).global_val()
    ks = [lambda i, v=v: (S.at(v, i),) for v in vs]
    mean = lambda f: S.div(S.sum(n, f), n)
    if a in ("discrete", "miller_madow"):
        if measure == "mi":
            return MI(S, n, ks) + (mm_mi_corr(S, n, ks) if a == "miller_madow" else 0)
        return CMI(S, n, ks[:2], ks[2]) + (mm_cmi_corr(S, n, ks[:2], ks[2]) if a == "miller_madow" else 0)
    if a == "ksg":
        return mean(k19.ksg_mi(S, n, ks, ps["k"], INF, 1) if measure == "mi" else k19.ksg_cmi(S, n, ks[:2], ks[2], ps["k"], INF, 1))
    h = ps["bandwidth"]
    if measure == "mi":
        return mean(k21.info(S, n, [cat(*ks)], ks, h, 2, 2, "e"))
    return mean(k21.info(S, n, [cat(*ks), ks[2]], [cat(ks[0], ks[2]), cat(ks[1], ks[2])], h, 4, 4, "e"))


@scenario("P10", grid=dict(a=["discrete", "miller_madow", "ksg", "kernel_box", "ordinal", "renyi"], method=METHODS), conc=1, sym=False)
def cte_resampling(S, a, method):
    """the conditional transfer entropy of a test must be computed on the resampled source (fixed input)"""
    import numpy as np
    r = np.random.default_rng(4)
    if a in DISC:
        x, z = r.integers(0, 3, 60), r.integers(0, 2, 60)
        y = np.roll(x, 1) + r.integers(0, 2, 60)
    else:
        x, z = r.normal(size=60), r.normal(size=60)
        y = np.roll(x, 1) + 0.3 * r.normal(size=60)
    kw = {"ksg": dict(noise_level=0), "kernel_box": dict(kernel="box", bandwidth=1.0), "ordinal": dict(embedding_dim=2), "renyi": dict(alpha=1.4, noise_level=0)}.get(a, {})
    est = S.im.estimator(x, y, cond=z, measure="cte", approach=name_of(a), base=2, **kw)
    est.rng = S.rng(1)
    t = est.statistical_test(n_tests=3, method=method)
    S.check("test values of CTE come from a resampled source", bool((np.abs(np.asarray(t.test_values) - t.observed_value) > 1e-12).any()), "all test values equal the observed value: the source was not resampled")
