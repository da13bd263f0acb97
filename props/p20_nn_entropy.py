from dv.dsl import scenario
from ._spec import *
from .p19_ksg import pts, dist, kth
import math

INF = math.inf


def ball(S, d, p, r=1):
    """volume of the p-norm ball of radius r in d dimensions"""
    if p == INF:
        return (2 * r) ** d
    return (2 * r * S.gamma(1 + S.frac(1, p))) ** d / S.gamma(1 + S.div(d, p))


def joint_or_single(S, dims, n):
    vs = [pts(S, f"x{j}", n, d, ties=True) for j, d in enumerate(dims)]
    data = vs[0][0] if len(dims) == 1 else tuple(v[0] for v in vs)
    return data, cat(*[v[1] for v in vs]), sum(max(d, 1) for d in dims)


def present(S, eps, value):
    """samples that coincide with their k-th neighbour contribute nothing"""
    if S.conc:
        return lambda i: value(i) if eps(i) > 0 else 0
    return lambda i: S.ite(eps(i) > 0, value(i), 0)


@scenario("P20", grid=dict(k=[1, 4], p=[INF, 2, 1], ksg_id=[1, 2], dims=[(0,), (2,), (0, 0), (3,), (0, 2)]), conc=10)
def kl(S, k, p, ksg_id, dims):
    """Kozachenko-Leonenko: -psi(k) + psi(N) + log c_d + d log(2 eps_i)"""
    n = S.int("n", k + 1, typ=(k + 1, 24))
    base = S.base()
    data, c, d = joint_or_single(S, dims, n)
    est = S.im.estimator(data, measure="entropy", approach="metric", k=k, minkowski_p=p, ksg_id=ksg_id, noise_level=0, base=base)
    eps = kth(S, n, c, k, p)
    psi = S.digamma(k) - (0 if ksg_id == 1 else S.frac(1, k))
    loc = present(S, eps, lambda i: (-psi + S.digamma(n) + S.log(ball(S, d, p, S.frac(1, 2))) + d * S.log(2 * eps(i))) / S.unit(base))
    l = est.local_vals()
    S.shape("one local value per sample", l, n)
    q = S.index("q", n)
    S.eq("local value", S.at(l, q), loc(q))
    S.eq("global value is their mean", est.global_val(), S.div(S.sum(n, loc), n))


@scenario("P20", grid=dict(k=[1, 4], p=[INF, 2], ksg_id=[1, 2], d=[0, 2]), conc=10)
def kl_cross(S, k, p, ksg_id, d):
    """cross-entropy: samples of P, neighbours in Q"""
    n, m = S.int("n", 1, typ=(1, 20)), S.int("m", k, typ=(k, 20))
    base = S.base()
    (x, c), (y, e) = pts(S, "x", n, d, ties=True), pts(S, "y", m, d, ties=True)
    v = S.im.cross_entropy(x, y, approach="metric", k=k, minkowski_p=p, ksg_id=ksg_id, noise_level=0, base=base)
    eps = cached(S, lambda i: S.kth_smallest(m, lambda j: S.norm([a - b for a, b in zip(c(i), e(j))], p), k - 1))
    psi = S.digamma(k) - (0 if ksg_id == 1 else S.frac(1, k))
    dd = max(d, 1)
    loc = present(S, eps, lambda i: S.log(2 * eps(i)))
    S.eq("value", v, (-psi + S.digamma(m) + S.log(ball(S, dd, p, S.frac(1, 2))) + dd * S.div(S.sum(n, loc), n)) / S.unit(base))


def lps(S, which, v, n, N, k, alpha, d, rho, base):
    """Leonenko-Pronzato-Savani estimators of order alpha from the distances rho"""
    V = S.pow(S.pi, S.frac(d, 2)) / S.gamma(S.frac(d, 2) + 1)
    if alpha == 1:
        z = present(S, rho, lambda i: S.log(N) - S.digamma(k) + S.log(V) + d * S.log(rho(i)))
        S.eq("Shannon limit", v, S.div(S.sum(n, z), n) / S.unit(base), tol=1e-7)
        return
    C = S.pow(S.gamma(k) / S.gamma(k + 1 - S.num(alpha)), 1 / (1 - S.num(alpha)))
    I = S.div(S.sum(n, present(S, rho, lambda i: S.pow(N * C * V * rho(i) ** d, 1 - S.num(alpha)))), n)
    S.assume(S.not_(S.eqv(I, 0)))  # (some sample lies apart from its neighbour)
    S.eq("value", v, S.log(I) / (1 - S.num(alpha)) / S.unit(base) if which == "renyi" else (1 - I) / (S.num(alpha) - 1), tol=1e-7)


@scenario("P20", grid=dict(which=["renyi", "tsallis"], k=[2, 4], alpha=[0.5, 1, 1.5, 2, 3.5], dims=[(0,), (2,), (0, 0), (3,)]), conc=8)
def renyi_tsallis(S, which, k, alpha, dims):
    """order 1 is the Shannon limit"""
    k = max(k, math.ceil(alpha))  # (orders from k + 1 on are outside the estimator's range)
    n = S.int("n", k + 1, typ=(k + 1, 24))
    base = S.base()
    data, c, d = joint_or_single(S, dims, n)
    rho = kth(S, n, c, k, 2)
    kw = dict(alpha=alpha) if which == "renyi" else dict(q=alpha)
    v = S.im.entropy(data, approach=which, k=k, base=base, **kw)
    lps(S, which, v, n, n - 1, k, alpha, d, rho, base)


@scenario("P20", grid=dict(which=["renyi", "tsallis"], k=[1, 3], alpha=[0.5, 1, 1.5], d=[0, 2]), conc=8)
def renyi_tsallis_cross(S, which, k, alpha, d):
    n, m = S.int("n", 1, typ=(1, 20)), S.int("m", k, typ=(k, 20))
    base = S.base()
    (x, c), (y, e) = pts(S, "x", n, d, ties=True), pts(S, "y", m, d, ties=True)
    rho = cached(S, lambda i: S.kth_smallest(m, lambda j: S.norm([a - b for a, b in zip(c(i), e(j))], 2), k - 1))
    kw = dict(alpha=alpha) if which == "renyi" else dict(q=alpha)
    v = S.im.cross_entropy(x, y, approach=which, k=k, base=base, **kw)
    lps(S, which, v, n, m, k, alpha, max(d, 1), rho, base)


@scenario("P20", grid=dict(p=[1, 1.5, 2, 3, INF], d=list(range(1, 13))), conc=4)
def unit_ball(S, p, d):
    """unit_ball_volume is the volume of the p-ball"""
    r = S.real("r", 0, typ=(0.1, 4))
    S.eq("volume", S.mod("estimators.utils.unit_ball_volume").unit_ball_volume(d, r=r, p=p), ball(S, d, p, r), tol=1e-8)


@scenario("P20", conc=20)
def unit_ball_any(S):
    d = S.int("d", 1, typ=(1, 12))
    r, p = S.real("r", 0, typ=(0.1, 4)), S.real("p", 1, typ=(1, 5))
    v = S.mod("estimators.utils.unit_ball_volume").unit_ball_volume(d, r=r, p=p)
    S.eq("volume", v, S.pow(2 * r * S.gamma(1 + 1 / p), d) / S.gamma(1 + d / p), tol=1e-8)
