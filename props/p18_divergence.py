from dv.dsl import scenario
from ._spec import *
from ._all import params, H_APP, name_of


def counts_at(S, n, x, v):
    """number of samples of x with label v"""
    return S.count(n, lambda j: S.eqv(S.at(x, j), v))


def pair(S):
    n, m = S.int("n", 2, typ=(2, 30)), S.int("m", 2, typ=(2, 30))
    return n, m, S.labels("p", n), S.labels("q", m)


def guarded(S, c, f):
    """f() where c holds, else 0"""
    if S.conc:
        return f() if c else 0.0
    return S.ite(c, f(), 0)


def HX(S, n, m, p, q, base, wp, wq):
    """- sum over the common labels of p(v) log q(v), written over the samples of p: sum_i p(x_i)/c_p(x_i) log q(x_i)"""
    def f(i):
        cq = counts_at(S, m, q, S.at(p, i))
        return guarded(S, cq > 0, lambda: -S.div(wp(counts_at(S, n, p, S.at(p, i))), counts_at(S, n, p, S.at(p, i))) * S.log(wq(cq)))
    return S.div(S.sum(n, f), S.unit(base))


@scenario("P18", conc=30)
def cross_entropy_discrete(S):
    n, m, p, q = pair(S)
    b = S.base()
    e = S.im.estimator(p, q, measure="hx", approach="discrete", base=b)
    S.eq("cross-entropy", e.global_val(), HX(S, n, m, p, q, b, lambda c: S.div(c, n), lambda c: S.div(c, m)))


@scenario("P18", conc=30)
def cross_entropy_miller_madow(S):
    n, m, p, q = pair(S)
    b = S.base()
    S.assume(S.count(n, lambda i: counts_at(S, m, q, S.at(p, i)) > 0) > 0)
    e = S.im.estimator(p, q, measure="hx", approach="miller_madow", base=b)
    corr = S.div(S.div(K(S, n, one(S, p)) + K(S, m, one(S, q)), 2) - 1, n + m)
    S.eq("cross-entropy", e.global_val(), HX(S, n, m, p, q, b, lambda c: S.div(c, n), lambda c: S.div(c, m)) + S.div(corr, S.unit(b)))


@scenario("P18", grid=dict(prior=["number", "jeffrey", "laplace", "sch-grass", "min-max"], K_given=[False, True]), conc=15)
def cross_entropy_bayes(S, prior, K_given):
    n, m, p, q = pair(S)
    b = S.base()
    Kp, Kq = K(S, n, one(S, p)), K(S, m, one(S, q))
    kw = {}
    if K_given:
        kw["K"] = S.int("K", 2, typ=(20, 40))
        Kp = Kq = kw["K"]
    al = {"number": lambda k, nn: S.real("alpha", 0, typ=(0.1, 2.0)), "jeffrey": lambda k, nn: S.frac(1, 2), "laplace": lambda k, nn: 1,
          "sch-grass": lambda k, nn: S.div(1, k), "min-max": lambda k, nn: S.div(S.sqrt(nn), k)}[prior]
    ap, aq = (al(Kp, n), al(Kq, m)) if prior != "number" else (al(0, 0),) * 2
    e = S.im.estimator(p, q, measure="hx", approach="bayes", alpha=ap if prior == "number" else prior, base=b, **kw)
    S.eq("cross-entropy", e.global_val(), HX(S, n, m, p, q, b, lambda c: S.div(c + ap, n + Kp * ap), lambda c: S.div(c + aq, m + Kq * aq)))


@scenario("P18", grid=dict(a=["discrete", "miller_madow", "bayes"]), conc=8)
def no_common_support(S, a):
    n, m, p, q = pair(S)
    if S.conc:
        q = S.np.array(q, dtype=int) + 1000
    else:
        i = S.index("i0", n)
        S.assume(S.all(n, lambda i: counts_at(S, m, q, S.at(p, i)) <= 0))
    S.eq("no common label", S.im.hx(p, q, approach=a, **params(S, a)), 0)


@scenario("P18", conc=20)
def self_divergence(S):
    """the divergence of a sample from itself is 0"""
    n, _, p, _ = pair(S)
    b = S.base()
    S.eq("KLD(P, P)", S.im.kld(p, p, approach="discrete", base=b), 0)
    S.eq("H_P(P) = H(P)", S.im.hx(p, p, approach="discrete", base=b), S.div(H(S, n, one(S, p)), S.unit(b)))


@scenario("P18", grid=dict(a=["bayes", "discrete", "kernel_box", "kernel_gaussian", "kl", "miller_madow", "ordinal", "renyi", "renyi1", "tsallis", "tsallis1"]), conc=10,
          sym=lambda a: a in ("bayes", "discrete", "miller_madow"))
def kld(S, a):
    """cross-entropy minus entropy, of the same approach with the same options"""
    from ._all import variable
    n, m = S.int("n", 12, typ=(12, 30)), S.int("m", 12, typ=(12, 30))
    p, q = variable(S, a, "p", n), variable(S, a, "q", m)
    b = S.base()
    ps = dict(params(S, a, "hx"), base=b)
    nm = name_of(a)
    want = S.im.hx(p, q, approach=nm, **ps) - S.im.entropy(p, approach=nm, **ps)
    S.eq("divergence", S.im.kullback_leiber_divergence(p, q, approach=nm, **ps), want)


# ------------------------------------------------------------ Jensen-Shannon divergence
def JSD(S, ns, xs, base, w, ents):
    """H(mixture) - mean entropy; the mixture (1/k) sum_l w_l(v) is summed over the samples: sum_l sum_i w_l(x)/c_l(x) ..."""
    k = len(xs)

    def mix(v):
        r = 0
        for n, x, f in zip(ns, xs, w):
            c = counts_at(S, n, x, v)
            r = r + guarded(S, c > 0, lambda: f(c))
        return S.div(r, k)
    hm = 0
    for n, x, f in zip(ns, xs, w):
        def g(i, x=x, n=n, f=f):
            v = S.at(x, i)
            c = counts_at(S, n, x, v)
            return -S.div(f(c), k * c) * S.log(mix(v))
        hm = hm + S.sum(n, g)
    r = hm
    for h in ents:
        r = r - S.div(h, k)
    return S.div(r, S.unit(base))


@scenario("P18", grid=dict(k=[1, 2, 3]), conc=20, sym=False)
def jsd_discrete(S, k):
    ns = [S.int(f"n{i}", 1, typ=(1, 25)) for i in range(k)]
    xs = [S.labels(f"x{i}", n) for i, n in enumerate(ns)]
    b = S.base()
    want = JSD(S, ns, xs, b, [lambda c, n=n: S.div(c, n) for n in ns], [H(S, n, one(S, x)) for n, x in zip(ns, xs)])
    S.eq("divergence", S.im.jensen_shannon_divergence(*xs, approach="discrete", base=b), want)


@scenario("P18", grid=dict(k=[2, 3], prior=["number", "jeffrey", "laplace", "sch-grass", "min-max"]), conc=10, sym=False)
def jsd_bayes(S, k, prior):
    ns = [S.int(f"n{i}", 1, typ=(1, 25)) for i in range(k)]
    xs = [S.labels(f"x{i}", n) for i, n in enumerate(ns)]
    b = S.base()
    a0 = S.real("alpha", 0, typ=(0.1, 2.0))
    w, es = [], []
    for n, x in zip(ns, xs):
        Kx = K(S, n, one(S, x))
        a = {"number": a0, "jeffrey": S.frac(1, 2), "laplace": 1, "sch-grass": S.div(1, Kx), "min-max": S.div(S.sqrt(n), Kx)}[prior]
        f = lambda c, n=n, Kx=Kx, a=a: S.div(c + a, n + Kx * a)
        w.append(f)
        c = counts(S, n, one(S, x))
        es.append(S.sum(n, lambda i, f=f, c=c: -S.div(f(c(i)), c(i)) * S.log(f(c(i)))))
    kw = dict(alpha=a0 if prior == "number" else prior)
    S.eq("divergence", S.im.jsd(*xs, approach="bayes", base=b, **kw), JSD(S, ns, xs, b, w, es))


@scenario("P18", grid=dict(a=["discrete", "bayes", "shrink", "ordinal", "kernel_box", "kernel_gaussian"]), conc=10, sym=False)
def jsd_properties(S, a):
    """symmetric, zero for equal samples, between 0 and log k (distributions)"""
    from ._all import variable
    n = S.int("n", 12, typ=(12, 30))
    xs = [variable(S, a, f"x{i}", n) for i in range(3)]
    kw = params(S, a)
    nm = name_of(a)
    b = S.base()
    d = S.im.jsd(*xs, approach=nm, base=b, **kw)
    S.eq("order does not matter", S.im.jsd(*xs[::-1], approach=nm, base=b, **kw), d)
    if a.startswith("kernel"):
        h = lambda x: S.im.entropy(x, approach=nm, base=b, **kw)
        S.eq("entropy of the mixture minus mean entropy", d, h(S.np.concatenate(xs)) - sum(h(x) for x in xs) / 3)
    else:
        S.eq("equal samples", S.im.jsd(xs[0], xs[0], approach=nm, base=b, **kw), 0)
        S.check("not negative", d >= -1e-9)
        S.check("at most log k", d * S.unit(b) <= S.log(3) + 1e-9)


@scenario("P18", grid=dict(dim=[2, 3, 4], step=[1, 2]), conc=10, sym=False)
def jsd_ordinal(S, dim, step):
    from .p14_ordinal import okey
    ns = [S.int(f"n{i}", 10, typ=(10, 30)) for i in range(2)]
    xs = [S.series(f"x{i}", n) for i, n in enumerate(ns)]
    ks = [[tuple(okey(S, x, dim, step)(i)) for i in range(n - (dim - 1) * step)] for x, n in zip(xs, ns)]
    code = {k: j for j, k in enumerate(sorted(set(ks[0] + ks[1])))}
    cs = [S.np.array([code[k] for k in kk]) for kk in ks]
    S.eq("divergence of the pattern distributions", S.im.jsd(*xs, approach="ordinal", embedding_dim=dim, step_size=step), S.im.jsd(*cs, approach="discrete"))
    hx = S.im.hx(*xs, approach="ordinal", embedding_dim=dim, step_size=step)
    S.eq("cross-entropy of the pattern distributions", hx, S.im.hx(*cs, approach="discrete"))


@scenario("P18", grid=dict(a=[a for a in H_APP if a not in ("bayes", "discrete", "kernel_box", "kernel_gaussian", "ordinal")]), conc=3)
def unsupported(S, a):
    """approaches without the measure say so"""
    from ._all import variable, HX_APP
    n = S.int("n", 12, typ=(12, 20))
    p, q = variable(S, a, "p", n), variable(S, a, "q", n)
    kw, nm = params(S, a), name_of(a)
    if a not in HX_APP:
        for f in (S.im.hx, S.im.kld):
            S.raises("no cross-entropy", Exception, lambda: f(p, q, approach=nm, **kw))
    if a not in ("discrete", "bayes", "shrink", "ordinal", "kernel_box", "kernel_gaussian"):
        S.raises("no Jensen-Shannon divergence", ValueError, lambda: S.im.jsd(p, q, approach=nm, **kw))


@scenario("P18", conc=3)
def rejects(S):
    n = S.int("n", 3, typ=(3, 9))
    p, q = S.labels("p", n), S.labels("q", n)
    S.raises("missing approach", ValueError, lambda: S.im.jsd(p, q))
    S.raises("unknown approach", ValueError, lambda: S.im.jsd(p, q, approach="xx"))
    S.raises("missing approach", ValueError, lambda: S.im.kld(p, q))
    S.raises("missing approach", ValueError, lambda: S.im.kld(p, q, approach=None))
    S.raises("not an array", ValueError, lambda: S.im.jsd(p, (q, q), approach="discrete"))
    S.raises("not an array", ValueError, lambda: S.im.jsd(p, 3, approach="discrete"))
    S.raises("joint data", (ValueError, TypeError), lambda: S.im.hx((p, p), (q, q), approach="discrete"))


@scenario("P18", grid=dict(f=["jsd", "hx", "kld"]), conc=1, sym=False)
def rows_2d(S, f):
    """fixed two-dimensional data without a common row"""
    p, q = S.np.array([[0, 0], [0, 1], [0, 0]]), S.np.array([[5, 5], [7, 7], [7, 7]])
    got = getattr(S.im, f)(p, q, approach="discrete")
    h = S.im.entropy(p, approach="discrete")
    S.eq("rows are compared, not their codes", got, {"jsd": S.log(2), "hx": 0.0, "kld": -h}[f])
