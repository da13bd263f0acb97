from dv.dsl import scenario
from ._spec import *


def ent(S, x, approach, base, **k):
    est = S.im.estimator(x, measure="entropy", approach=approach, base=base, **k)
    v = est.global_val()
    S.eq(f"{approach}: entropy() agrees with the estimator", S.im.entropy(x, approach=approach, base=base, **k), v)
    return est, v


@scenario("P02", conc=40)
def miller_madow(S):
    n = S.int("n", 1, typ=(1, 40))
    x = S.labels("x", n)
    base = S.base()
    key = one(S, x)
    est, v = ent(S, x, "miller_madow", base)
    corr = S.div(ncls(S, n, key) - 1, 2 * n)
    S.eq("H + (K-1)/(2N)", v, (H(S, n, key) + corr) / S.unit(base))
    q = S.index("q", n)
    loc = est.local_vals()
    S.shape("one local value per sample", loc, n)
    S.eq("local: -log p + (K-1)/(2N)", S.at(loc, q), (Hloc(S, n, key)(q) + corr) / S.unit(base))


@scenario("P02", conc=40)
def grassberger(S):
    n = S.int("n", 1, typ=(1, 40))
    x = S.labels("x", n)
    base = S.base()
    c = counts(S, n, one(S, x))

    def loc_(i):
        return (S.log(n) - S.digamma(c(i)) - S.div(S.pow(-1, c(i)), c(i) + 1)) / S.unit(base)
    est, v = ent(S, x, "grassberger", base)
    S.eq("mean of log N - psi(n_i) - (-1)^n_i/(n_i+1)", v, S.div(S.sum(n, loc_), n))
    q = S.index("q", n)
    loc = est.local_vals()
    S.shape("one local value per sample", loc, n)
    S.eq("local value", S.at(loc, q), loc_(q))


@scenario("P02", sym=False, conc=80)
def shrink(S):
    n = S.int("n", 1, typ=(1, 30))
    x = S.labels("x", n)
    base = S.base()
    key = one(S, x)
    est, v = ent(S, x, "shrink", base)
    k = ncls(S, n, key)
    t = S.div(1, k)
    p = lambda c: S.div(c, n)
    if S.truth(n == 1):
        lam = S.num(1)
    else:
        msp = csum(S, n, key, lambda c: (p(c) - t) * (p(c) - t))
        if S.truth(S.eqv(msp, 0)) if S.sym else abs(msp) < 1e-15:
            lam = S.num(1)
        else:
            raw = S.div(csum(S, n, key, lambda c: S.div(p(c) * (1 - p(c)), n - 1)), msp)
            lam = S.num(1) if S.truth(raw > 1) else (S.num(0) if S.truth(raw < 0) else raw)
    ps = lambda c: lam * t + (1 - lam) * p(c)
    lg = lambda c: S.log(ps(c)) / S.unit(base)
    S.eq("-sum p log p of the shrunken distribution", v, -csum(S, n, key, lambda c: ps(c) * lg(c)))
    q = S.index("q", n)
    loc = est.local_vals()
    S.shape("one local value per sample", loc, n)
    S.eq("local value is -log of the shrunken probability", S.at(loc, q), -lg(counts(S, n, key)(q)))


@scenario("P02", sym=False, conc=80)
def chao_shen(S):
    n = S.int("n", 1, typ=(1, 40))
    x = S.labels("x", n)
    base = S.base()
    key = one(S, x)
    est, v = ent(S, x, "chao_shen", base)
    c = counts(S, n, key)
    f1 = S.count(n, lambda i: S.eqv(c(i), 1))
    f1 = S.ite(S.eqv(f1, n), f1 - 1, f1)
    C = 1 - S.div(f1, n)
    pa = lambda c: C * S.div(c, n)
    S.eq("Horvitz-Thompson adjusted coverage formula", v, -csum(S, n, key, lambda c: S.div(pa(c) * S.log(pa(c)), 1 - S.pow(1 - pa(c), n))) / S.unit(base))


@scenario("P02", conc=60)
def chao_wang_jost(S):
    n = S.int("n", 2, typ=(2, 40))
    x = S.labels("x", n)
    base = S.base()
    key = one(S, x)
    est, v = ent(S, x, "cwj", base)
    c = counts(S, n, key)
    f1 = S.count(n, lambda i: S.eqv(c(i), 1))
    f2 = S.div(S.count(n, lambda i: S.eqv(c(i), 2)), 2)
    if S.truth(f2 > 0):
        A = S.div(2 * f2, (n - 1) * f1 + 2 * f2)
    elif S.truth(f1 > 0):
        A = S.div(2, (n - 1) * (f1 - 1) + 2)
    else:
        A = S.num(1)
    h = S.div(S.sum(n, lambda i: S.digamma(n) - S.digamma(c(i))), n)
    if S.truth(S.and_(S.not_(S.eqv(A, 1)), f1 > 0)):
        s = S.sum(n - 1, lambda r: S.div(S.pow(1 - A, r + 1), r + 1))
        h = h + S.div(f1, n) * S.pow(1 - A, 1 - n) * (-S.log(A) - s)
    S.eq("coverage-corrected formula", v, h / S.unit(base), tol=1e-6)


@scenario("P02", conc=40)
def bonachela(S):
    n = S.int("n", 1, typ=(1, 40))
    x = S.labels("x", n)
    base = S.base()
    key = one(S, x)
    est, v = ent(S, x, "bonachela", base)
    f = lambda c: (c + 1) * S.sum(n - c + 1, lambda j: S.div(1, c + 2 + j))
    S.eq("1/(N+2) sum (n_i+1) sum_{j=n_i+2}^{N+2} 1/j", v, S.div(csum(S, n, key, f), n + 2) / S.unit(base))


@scenario("P02", sym=False, conc=80)
def zhang(S):
    n = S.int("n", 1, typ=(1, 30))
    x = S.labels("x", n)
    base = S.base()
    key = one(S, x)
    est, v = ent(S, x, "zhang", base)
    inner = lambda c: S.sum(n - c, lambda w: S.div(S.prod(w + 1, lambda j: 1 + S.div(1 - c, n - 1 - j)), w + 1))
    S.eq("sum p_i sum_v 1/v prod(1 + (1-n_i)/(N-1-j))", v, csum(S, n, key, lambda c: S.div(c, n) * inner(c)) / S.unit(base))
    loc = est.local_vals()
    S.shape("one local value per sample", loc, n)
    q = S.index("q", n)
    S.eq("local value", S.at(loc, q), inner(counts(S, n, key)(q)) / S.unit(base))


@scenario("P02", grid=dict(alpha=["jeffrey", "laplace", "sch-grass", "min-max", "number"], given_K=[False, True]), conc=15)
def bayes(S, alpha, given_K):
    n = S.int("n", 1, typ=(1, 40))
    x = S.labels("x", n)
    base = S.base()
    key = one(S, x)
    k = ncls(S, n, key)
    kw = {}
    if given_K:
        kk = S.int("K", 1, typ=(1, 60))
        S.assume(kk >= k)
        kw["K"] = kk
    else:
        kk = k
    if alpha == "number":
        al = S.real("alpha", 0, typ=(0.01, 3))
        arg = al
    else:
        arg = alpha
        al = {"jeffrey": lambda: S.frac(1, 2), "laplace": lambda: S.num(1), "sch-grass": lambda: S.div(1, kk), "min-max": lambda: S.div(S.sqrt(n), kk)}[alpha]()
    est, v = ent(S, x, "bayes", base, alpha=arg, **kw)
    p = lambda c: S.div(c + al, n + kk * al)
    S.eq("-sum p log p with p = (n_i + alpha)/(N + K alpha)", v, -csum(S, n, key, lambda c: p(c) * S.log(p(c))) / S.unit(base))


@scenario("P02", grid=dict(given_K=[False, True]), conc=20)
def ansb(S, given_K):
    n = S.int("n", 2, typ=(2, 40))
    x = S.labels("x", n)
    base = S.base()
    key = one(S, x)
    k = ncls(S, n, key)
    kw = {}
    if given_K:
        k = S.int("K", 1, typ=(1, 40))
        S.assume(k <= n)
        kw["K"] = k
    if S.truth(S.eqv(n - k, 0)):
        S.is_nan("undefined without coincidences", S.im.entropy(x, approach="ansb", base=base, **kw))
        return
    est, v = ent(S, x, "ansb", base, **kw)
    g = S.np.euler_gamma
    S.eq("gamma - log 2 + 2 log N - psi(N-K)", v, (g - S.log(2) + 2 * S.log(n) - S.digamma(n - k)) / S.unit(base))
