from dv.dsl import scenario
from ._spec import *
from .p19_ksg import pts
import math


def boxp(S, n, c, h):
    """box density at sample i: share of samples within h/2 (max norm), over the box volume"""
    def f(i):
        ci = c(i)
        cnt_ = S.count(n, lambda j: S.norm([a - b for a, b in zip(c(j), ci)], math.inf) <= S.frac(1, 2) * h)
        return cnt_
    return f


def vol(S, h, d):
    r = S.num(1)
    for _ in range(d):
        r = r * h
    return r


def dim(dims):
    return sum(max(d, 1) for d in dims)


@scenario("P21", grid=dict(dims=[(0,), (2,), (0, 0), (0, 2)]), conc=25)
def entropy(S, dims):
    """local box-kernel entropy: -log( count / (N h^d) )"""
    n = S.int("n", 2, 2**31 - 1, typ=(2, 30))
    base, h = S.base(), S.real("h", 0, typ=(0.1, 3))
    vs = [pts(S, f"x{j}", n, d) for j, d in enumerate(dims)]
    data = vs[0][0] if len(dims) == 1 else tuple(v[0] for v in vs)
    c = cat(*[v[1] for v in vs])
    est = S.im.estimator(data, measure="entropy", approach="kernel", kernel="box", bandwidth=h, base=base)
    p = boxp(S, n, c, h)
    loc = lambda i: -S.log(S.div(p(i), n * vol(S, h, dim(dims)))) / S.unit(base)
    l = est.local_vals()
    S.shape("one local value per sample", l, n)
    q = S.index("q", n)
    S.eq("local value", S.at(l, q), loc(q))
    S.eq("global value is their mean", est.global_val(), S.div(S.sum(n, loc), n))


def info(S, n, num, den, h, dn, dd, base):
    """log of a ratio of box densities"""
    def f(i):
        a = S.num(1)
        for c in num:
            a = a * boxp(S, n, c, h)(i)
        b = S.num(1)
        for c in den:
            b = b * boxp(S, n, c, h)(i)
        v = S.log(S.div(a, b)) + (len(den) - len(num)) * S.log(n) + (dd - dn) * S.log(h)
        return v / S.unit(base)
    return f


def check(S, est, n, loc):
    l = est.local_vals()
    S.shape("one local value per sample", l, n)
    q = S.index("q", n)
    S.eq("local value", S.at(l, q), loc(q))
    S.eq("global value is their mean", est.global_val(), S.div(S.sum(n, loc), n))


@scenario("P21", grid=dict(dims=[(0, 0), (0, 0, 0), (2, 0), (0, 2)]), conc=20)
def mi(S, dims):
    n = S.int("n", 2, 2**31 - 1, typ=(2, 30))
    base, h = S.base(), S.real("h", 0, typ=(0.1, 3))
    vs = [pts(S, f"x{j}", n, d) for j, d in enumerate(dims)]
    data, cs = [v[0] for v in vs], [v[1] for v in vs]
    est = S.im.estimator(*data, measure="mi", approach="kernel", kernel="box", bandwidth=h, base=base)
    check(S, est, n, info(S, n, [cat(*cs)], cs, h, dim(dims), dim(dims), base))


@scenario("P21", grid=dict(dims=[(0, 0, 0), (0, 0, 2), (2, 0, 0), (0, 0, 0, 0)]), conc=20)
def cmi(S, dims):
    n = S.int("n", 2, 2**31 - 1, typ=(2, 30))
    base, h = S.base(), S.real("h", 0, typ=(0.1, 3))
    vs = [pts(S, f"x{j}", n, d) for j, d in enumerate(dims)]
    data, cs = [v[0] for v in vs], [v[1] for v in vs]
    z, dz, da = cs[-1], dim(dims[-1:]), dim(dims)
    est = S.im.estimator(*data[:-1], cond=data[-1], measure="cmi", approach="kernel", kernel="box", bandwidth=h, base=base)
    k = len(dims) - 1
    check(S, est, n, info(S, n, [cat(*cs), z], [cat(c, z) for c in cs[:-1]], h, da + dz, da - dz + k * dz, base))


@scenario("P21", grid=dict(hl=[(1, 1), (2, 1), (1, 2)], step=[1, 2]), conc=15)
def te(S, hl, step):
    sh, dh = hl
    n = S.int("n", step * (max(hl) + 3), 2**31 - 1, typ=(step * (max(hl) + 3), 34))
    base, h = S.base(), S.real("h", 0, typ=(0.1, 3))
    x, y = S.series("x", n), S.series("y", n)
    sl = Slices(S, x, y, n, sh, dh, step)
    est = S.im.estimator(x, y, measure="te", approach="kernel", kernel="box", bandwidth=h, base=base, src_hist_len=sh, dest_hist_len=dh, step_size=step)
    check(S, est, sl.m, info(S, sl.m, [cat(sl.src, sl.dst, sl.fut), sl.dst], [cat(sl.src, sl.dst), cat(sl.dst, sl.fut)], h, 0, 0, base))


@scenario("P21", grid=dict(hl=[(1, 1, 1), (2, 1, 2)], step=[1, 2]), conc=15)
def cte(S, hl, step):
    sh, dh, zh = hl
    n = S.int("n", step * (max(hl) + 3), 2**31 - 1, typ=(step * (max(hl) + 3), 34))
    base, h = S.base(), S.real("h", 0, typ=(0.1, 3))
    x, y, z = S.series("x", n), S.series("y", n), S.series("z", n)
    sl = Slices(S, x, y, n, sh, dh, step, z, zh)
    est = S.im.estimator(x, y, measure="cte", cond=z, approach="kernel", kernel="box", bandwidth=h, base=base, src_hist_len=sh, dest_hist_len=dh, cond_hist_len=zh, step_size=step)
    w = cat(sl.dst, sl.cnd)
    check(S, est, sl.m, info(S, sl.m, [cat(sl.src, w, sl.fut), w], [cat(sl.src, w), cat(w, sl.fut)], h, 0, 0, base))


def regular(S, n, *cs):
    """the covariance of the samples has full rank"""
    S.spectrum(1e-6)
    if S.conc:
        np = S.np
        for c in cs:
            X = np.array([c(i) for i in range(n)], dtype=float).reshape(n, -1)
            S.assume(np.linalg.eigvalsh(np.atleast_2d(np.cov(X.T)))[0] > 1e-6)


@scenario("P21", grid=dict(measure=["h", "mi", "mi3", "cmi"], d=[0, 2]), conc=12)
def gaussian(S, measure, d):
    """Gaussian kernel: the same combinations of Gaussian KDE values"""
    n = S.int("n", 8, typ=(8, 30))
    h = S.real("h", 0, typ=(0.2, 1.5))
    base = S.base()
    (x, cx), (y, cy), (z, cz) = pts(S, "x", n, d), pts(S, "y", n, 0), pts(S, "z", n, 0)
    regular(S, n, cx, cy, cz, cat(cx, cy, cz))
    kw = dict(approach="kernel", kernel="gaussian", bandwidth=h, base=base)
    p = lambda *cs: cached(S, (lambda c: lambda i: S.log(S.kde(n, c, c(i), h)))(cat(*cs)))
    if measure == "h":
        e, f = S.im.estimator(x, measure="h", **kw), p(cx)
        loc = lambda i: -f(i) / S.unit(base)
    elif measure == "mi":
        e, a, b, c = S.im.estimator(x, y, measure="mi", **kw), p(cx, cy), p(cx), p(cy)
        loc = lambda i: (a(i) - b(i) - c(i)) / S.unit(base)
    elif measure == "mi3":
        e, a, b, c, g = S.im.estimator(x, y, z, measure="mi", **kw), p(cx, cy, cz), p(cx), p(cy), p(cz)
        loc = lambda i: (a(i) - b(i) - c(i) - g(i)) / S.unit(base)
    else:
        e, a, b, c, g = S.im.estimator(x, y, cond=z, measure="cmi", **kw), p(cx, cy, cz), p(cz), p(cx, cz), p(cy, cz)
        loc = lambda i: (a(i) + b(i) - c(i) - g(i)) / S.unit(base)
    check(S, e, n, loc)


@scenario("P21", conc=12)
def gaussian_te(S):
    n = S.int("n", 12, typ=(12, 34))
    base, h = S.base(), S.real("h", 0, typ=(0.2, 1.5))
    x, y = S.series("x", n), S.series("y", n)
    sl = Slices(S, x, y, n, 1, 1, 1)
    regular(S, sl.m, cat(sl.src, sl.dst, sl.fut))
    est = S.im.estimator(x, y, measure="te", approach="kernel", kernel="gaussian", bandwidth=h, base=base)
    p = lambda *cs: cached(S, (lambda c: lambda i: S.log(S.kde(sl.m, c, c(i), h)))(cat(*cs)))
    a, b, c, g = p(sl.src, sl.dst, sl.fut), p(sl.dst), p(sl.src, sl.dst), p(sl.dst, sl.fut)
    check(S, est, sl.m, lambda i: (a(i) + b(i) - c(i) - g(i)) / S.unit(base))


@scenario("P21", grid=dict(d=[1, 2], workers=[1, 2, 3]), conc=1)
def chunks(S, d, workers):
    """the density at every query point, however many workers share the work"""
    n, m = S.int("n", 2, typ=(20000, 20001)), S.int("m", 2, typ=(16000, 25000))
    h = S.real("h", 0, typ=(0.2, 1.5))
    (x, cx), (y, cy) = pts(S, "x", n, d), pts(S, "y", m, d)
    S.spectrum(1e-6)
    if S.conc:
        if workers == 1:
            n = m = 3000
            x, y = x[:n], y[:m]
        x, y = S.np.random.default_rng(n).normal(size=(n, d)), S.np.random.default_rng(m).normal(size=(m, d))
        cx, cy = (lambda i: tuple(x[i])), (lambda i: tuple(y[i]))
    v = S.mod("estimators.utils.kde").kde_probability_density_function(x, h, at=y, kernel="gaussian", workers=workers)
    S.shape("one density per query point", v, m)
    q = S.index("q", m)
    S.eq("density", S.at(v, q), S.kde(n, cx, cy(q), h))


@scenario("P21", conc=15, sym=False)
def gaussian_degenerate(S):
    """samples on a line: the density along that line"""
    np = S.np
    n, h, base = S.int("n", 6, typ=(6, 30)), S.real("h", 0, typ=(0.2, 1.5)), S.base()
    t = S.np.cumsum(0.1 + S.np.abs(S.series("t", n)))
    t = t / np.std(t)
    w = np.array([1.0, 2.0, -0.5])[: 2 + S.choice("d", [0, 1])]
    x = t[:, None] * w[None, :]
    e = S.im.estimator(x, measure="h", approach="kernel", kernel="gaussian", bandwidth=h, base=base)
    u = t * np.linalg.norm(w)
    S.same("local values", e.local_vals(), [-S.log(S.kde(n, lambda i: (u[i],), (u[i],), h)) / S.unit(base) for i in range(n)], tol=1e-6)


@scenario("P21", grid=dict(kernel=["box", "gaussian"], d=[0, 2]), conc=20)
def cross(S, kernel, d):
    """cross-entropy: mean over the samples of P of -log q-density (0 where q vanishes)"""
    n, m = S.int("n", 2, 2**31 - 1, typ=(2, 30)), S.int("m", 5, 2**31 - 1, typ=(5, 30))
    h = S.real("h", 0, typ=(0.5, 3))
    base = S.base()
    (x, cx), (y, cy) = pts(S, "x", n, d), pts(S, "y", m, d)
    if kernel == "gaussian":
        regular(S, m, cy)
        p = cached(S, lambda i: S.kde(m, cy, cx(i), h))
        # (a density that underflows is dropped by the implementation)
        S.assume(S.all(n, lambda i: p(i) > 1e-300)) if S.conc else None
    else:
        p = lambda i: S.div(S.count(m, lambda j: S.norm([a - b for a, b in zip(cy(j), cx(i))], math.inf) <= S.frac(1, 2) * h), m * vol(S, h, max(d, 1)))
    v = S.im.cross_entropy(x, y, approach="kernel", kernel=kernel, bandwidth=h, base=base)
    loc = lambda i: (S.ite(p(i) > 0, S.log(p(i)), 0))
    S.eq("value", v, -S.div(S.sum(n, loc), n) / S.unit(base), tol=1e-6)
