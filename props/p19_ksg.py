from dv.dsl import scenario
from ._spec import *
import math

INF = math.inf


def pts(S, name, n, d, ties=False):
    """(data, coordinate function) of one real-valued variable"""
    if d == 0:
        x = S.series(name, n, ties=ties)
        return x, (lambda i: (S.at(x, i),))
    x = S.points(name, n, d, ties=ties)
    return x, (lambda i: tuple(S.at(x, i, j) for j in range(d)))


def dist(S, c, i, j, p):
    return S.norm([a - b for a, b in zip(c(i), c(j))], p)


def kth(S, n, c, k, p):
    """distance of sample i to its k-th nearest other sample (k+1-st smallest including itself)"""
    return cached(S, lambda i: S.kth_smallest(n, lambda j: dist(S, c, i, j, p), k))


def nbrs(S, n, c, eps, p, kind):
    """type I: other samples strictly closer than eps; type II: samples (itself included) not farther than eps"""
    if kind == 1:
        return lambda i: S.count(n, lambda j: S.and_(dist(S, c, i, j, p) < eps(i), S.not_(S.eqv(i, j))))
    return lambda i: S.count(n, lambda j: dist(S, c, i, j, p) <= eps(i))


def ksg_mi(S, n, cs, k, p, kind):
    eps = kth(S, n, cat(*cs), k, p)
    ns = [nbrs(S, n, c, eps, p, kind) for c in cs]
    if kind == 1:
        return lambda i: S.digamma(k) - sum(S.digamma(f(i) + 1) for f in ns) + (len(cs) - 1) * S.digamma(n)
    return lambda i: S.digamma(k) - S.frac(1, k) - sum(S.digamma(f(i)) for f in ns) + (len(cs) - 1) * S.digamma(n)


def ksg_cmi(S, n, cs, z, k, p, kind):
    eps = kth(S, n, cat(*cs, z), k, p)
    ns = [nbrs(S, n, cat(c, z), eps, p, kind) for c in cs]
    nz = nbrs(S, n, z, eps, p, kind)
    if kind == 1:
        return lambda i: S.digamma(k) + S.digamma(nz(i) + 1) - sum(S.digamma(f(i) + 1) for f in ns)
    return lambda i: S.digamma(k) - S.frac(1, k) + S.digamma(nz(i)) - sum(S.digamma(f(i)) for f in ns)


def check_local(S, est, n, loc, base, what):
    v = est.global_val()
    l = est.local_vals()
    S.shape("one local value per sample", l, n)
    q = S.index("q", n)
    S.eq(f"local {what}", S.at(l, q), loc(q) / S.unit(base))
    S.eq("global value is the mean of the local values", v, S.div(S.sum(n, loc), n) / S.unit(base))
    return v


@scenario("P19", grid=dict(kind=[1, 2], k=[1, 4], p=[INF, 2], dims=[(0, 0), (0, 0, 0), (2, 0)]), conc=10)
def mi(S, kind, k, p, dims):
    """KSG MI: psi(k) - sum psi(n_i + 1) + (m-1) psi(N) with the documented neighbour counts"""
    n = S.int("n", k + 1, 2**31 - 1, typ=(k + 1, 22))
    base = S.base()
    vs = [pts(S, f"x{j}", n, d, ties=p == INF) for j, d in enumerate(dims)]
    data, cs = [v[0] for v in vs], [v[1] for v in vs]
    kw = dict(approach="ksg", k=k, ksg_id=kind, minkowski_p=p, noise_level=0, base=base)
    est = S.im.estimator(*data, measure="mi", **kw)
    v = check_local(S, est, n, ksg_mi(S, n, cs, k, p, kind), base, "MI")
    S.eq("mutual_information() agrees", S.im.mutual_information(*data, **kw), v)


@scenario("P19", grid=dict(kind=[1, 2], k=[1, 4], p=[INF, 2], dims=[(0, 0, 0), (0, 2, 0), (0, 0, 0, 2)]), conc=10)
def cmi(S, kind, k, p, dims):
    n = S.int("n", k + 1, 2**31 - 1, typ=(k + 1, 20))
    base = S.base()
    vs = [pts(S, f"x{j}", n, d, ties=p == INF) for j, d in enumerate(dims)]
    data, cs = [v[0] for v in vs], [v[1] for v in vs]
    kw = dict(cond=data[-1], approach="ksg", k=k, ksg_id=kind, minkowski_p=p, noise_level=0, base=base)
    est = S.im.estimator(*data[:-1], measure="cmi", **kw)
    v = check_local(S, est, n, ksg_cmi(S, n, cs[:-1], cs[-1], k, p, kind), base, "CMI")
    S.eq("conditional_mutual_information() agrees", S.im.conditional_mutual_information(*data[:-1], **kw), v)


@scenario("P19", grid=dict(kind=[1, 2], h=[(1, 1), (2, 1), (1, 2)], step=[1, 2], p=[INF, 2]), conc=10)
def te(S, kind, h, step, p):
    sh, dh = h
    k = 2
    n = S.int("n", step * (max(h) + 3), 2**31 - 1, typ=(step * (max(h) + 3), 34))
    base = S.base()
    x, y = S.series("x", n, ties=p == INF), S.series("y", n, ties=p == INF)
    sl = Slices(S, x, y, n, sh, dh, step)
    est = S.im.estimator(x, y, measure="te", approach="ksg", k=k, ksg_id=kind, minkowski_p=p, noise_level=0, base=base, src_hist_len=sh, dest_hist_len=dh, step_size=step)
    check_local(S, est, sl.m, ksg_cmi(S, sl.m, [sl.src, sl.fut], sl.dst, k, p, kind), base, "TE")


@scenario("P19", grid=dict(kind=[1, 2], h=[(1, 1, 1), (2, 1, 2)], step=[1, 2], p=[INF, 2]), conc=10)
def cte(S, kind, h, step, p):
    sh, dh, zh = h
    k = 2
    n = S.int("n", step * (max(h) + 3), 2**31 - 1, typ=(step * (max(h) + 3), 34))
    base = S.base()
    x, y, z = (S.series(v, n, ties=p == INF) for v in "xyz")
    sl = Slices(S, x, y, n, sh, dh, step, z, zh)
    est = S.im.estimator(x, y, measure="cte", cond=z, approach="ksg", k=k, ksg_id=kind, minkowski_p=p, noise_level=0, base=base, src_hist_len=sh, dest_hist_len=dh, cond_hist_len=zh, step_size=step)
    check_local(S, est, sl.m, ksg_cmi(S, sl.m, [sl.src, sl.fut], cat(sl.dst, sl.cnd), k, p, kind), base, "CTE")


@scenario("P19", grid=dict(measure=["mi", "mi3", "cmi", "te", "cte"], p=[INF]), sym=False, conc=25)
def tiny_noise(S, measure, p):
    """the default 1e-10 noise is too small to change any neighbour count of generic data: the value is that without noise"""
    n = S.int("n", 12, typ=(12, 60))
    xs = [S.series(f"x{j}", n) for j in range(3)]
    gaps = min(min(abs(a - b) for a, b in zip(sorted(x), sorted(x)[1:])) for x in xs)
    S.assume(gaps > 1e-6)
    if measure == "mi":
        f = lambda **k: S.im.mutual_information(xs[0], xs[1], approach="ksg", minkowski_p=p, ksg_id=1, **k)
    elif measure == "mi3":
        f = lambda **k: S.im.mutual_information(*xs, approach="ksg", minkowski_p=p, **k)
    elif measure == "cmi":
        f = lambda **k: S.im.conditional_mutual_information(xs[0], xs[1], cond=xs[2], approach="ksg", minkowski_p=p, **k)
    elif measure == "te":
        f = lambda **k: S.im.transfer_entropy(xs[0], xs[1], approach="ksg", minkowski_p=p, **k)
    else:
        f = lambda **k: S.im.conditional_transfer_entropy(xs[0], xs[1], cond=xs[2], approach="ksg", minkowski_p=p, prop_time=0, **k)
    a, b = f(), f(noise_level=0)
    S.check("values agree within one neighbour flip", abs(a - b) < 3.0 / n, f"{a} vs {b}")
