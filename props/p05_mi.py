from dv.dsl import scenario
from ._spec import *

KINDS = [("1d", "1d"), ("1d", "1d", "1d"), ("1d", "1d", "1d", "1d"), ("rows2", "rows2"), ("rows2", "1d"), ("1d", "rows2"), ("rows2", "1d", "rows3"), ("rows1", "rows1")]


@scenario("P05", grid=dict(approach=["discrete", "miller_madow"], kinds=KINDS), conc=25)
def mi(S, approach, kinds):
    """discrete MI (any number of variables, labels or rows) is the entropy combination, globally and per sample"""
    n = S.int("n", 1, 2**31 - 1, typ=(1, 40))
    base = S.base()
    vs = [var(S, f"x{k}", kd, n) for k, kd in enumerate(kinds)]
    data, keys = [v[0] for v in vs], [v[1] for v in vs]
    if len(keys) == 2:
        mi_nonneg(S, n, *keys)      # some code paths clip the information of two variables at zero
    est = S.im.estimator(*data, measure="mi", approach=approach, base=base)
    v = est.global_val()
    corr = mm_mi_corr(S, n, keys) if approach == "miller_madow" else S.num(0)
    m = MI(S, n, keys) / S.unit(base)
    S.eq("global value is sum H(X_i) - H(X_1..X_m)", v, m + corr / S.unit(base))
    S.eq("mutual_information() agrees", S.im.mutual_information(*data, approach=approach, base=base), v)
    loc = est.local_vals()
    S.shape("one local value per sample", loc, n)
    q = S.index("q", n)
    S.eq("local value is log p(x)/prod p(x_i)", S.at(loc, q), (MIloc(S, n, keys)(q) + corr) / S.unit(base))


@scenario("P05", grid=dict(approach=["discrete", "miller_madow"], k=[2, 3]), conc=25)
def mi_order(S, approach, k):
    """MI does not depend on the order of its arguments"""
    n = S.int("n", 1, 2**31 - 1, typ=(1, 40))
    xs = [S.labels(f"x{j}", n) for j in range(k)]
    a = S.im.mutual_information(*xs, approach=approach, base=2)
    b = S.im.mutual_information(*xs[::-1], approach=approach, base=2)
    S.eq("symmetric", a, b)


@scenario("P05", grid=dict(approach=["discrete", "miller_madow"]), conc=25)
def mi_offset(S, approach):
    """offset d pairs x[i] with y[i+d]"""
    n = S.int("n", 3, 2**31 - 1, typ=(3, 30))
    d = S.int("d", typ=(-8, 8))
    S.assume(S.and_(d < n - 1, d > 1 - n))
    x, y = S.labels("x", n), S.labels("y", n)
    if S.truth(d > 0):
        m, lo, up = n - d, d, 0
    elif S.truth(d < 0):
        m, lo, up = n + d, 0, -d
    else:
        m, lo, up = n, 0, 0
    kx = lambda i: (S.at(x, i + up),)
    ky = lambda i: (S.at(y, i + lo),)
    mi_nonneg(S, m, kx, ky)
    a = S.im.mutual_information(x, y, approach=approach, offset=d, base=2)
    corr = mm_mi_corr(S, m, [kx, ky]) if approach == "miller_madow" else S.num(0)
    S.eq("value of the shifted pairs", a, MI(S, m, [kx, ky]) / S.log(2) + corr / S.log(2))


@scenario("P05", grid=dict(approach=["discrete", "miller_madow"], m=[2, 3]), sym=False, conc=1)
def mi_large(S, approach, m):
    """large samples with frequent labels (products of counts beyond 32 bits)"""
    n = 150000
    r = S.rng(S.int("seed", 0, typ=(0, 10**6)))
    xs = [(r.random(n) < 0.02).astype(int) + 2 * (r.random(n) < 0.01) for j in range(m)]
    xs[1][:400] = xs[0][:400]
    h = lambda v: S.im.entropy(v, approach=approach, base="e")
    est = S.im.estimator(*xs, measure="mi", approach=approach, base="e")
    S.eq("entropy combination", est.global_val(), sum(h(x) for x in xs) - h(tuple(xs)), tol=1e-8)
    S.eq("mean of the local values", est.local_vals().mean(), est.global_val(), tol=1e-8)
