from dv.dsl import scenario
from ._spec import *

KINDS = [("1d", "1d"), ("1d", "1d", "1d"), ("rows2", "1d"), ("rows2", "rows3")]


@scenario("P06", grid=dict(approach_z=[("discrete", "1d"), ("discrete", "rows2"), ("discrete", "joint"), ("miller_madow", "1d")], kinds=KINDS), conc=20)
def cmi(S, approach_z, kinds):
    """documented definition; the Miller-Madow estimator takes a one-dimensional condition"""
    approach, z = approach_z
    n = S.int("n", 1, 2**31 - 1, typ=(1, 40))
    base = S.base()
    vs = [var(S, f"x{k}", kd, n) for k, kd in enumerate(kinds)]
    data, keys = [v[0] for v in vs], [v[1] for v in vs]
    if z == "joint":
        z1, k1 = var(S, "z1", "1d", n)
        z2, k2 = var(S, "z2", "1d", n)
        cond, zk = (z1, z2), cat(k1, k2)
    else:
        cond, zk = var(S, "z", z, n)
    est = S.im.estimator(*data, cond=cond, measure="cmi", approach=approach, base=base)
    v = est.global_val()
    corr = mm_cmi_corr(S, n, keys, zk) if approach == "miller_madow" else S.num(0)
    S.eq("global value is sum H(X_i,Z) - H(X_1..X_m,Z) - H(Z)", v, (CMI(S, n, keys, zk) + corr) / S.unit(base))
    S.eq("conditional_mutual_information() agrees", S.im.conditional_mutual_information(*data, cond=cond, approach=approach, base=base), v)
    loc = est.local_vals()
    S.shape("one local value per sample", loc, n)
    q = S.index("q", n)
    S.eq("local value", S.at(loc, q), (CMIloc(S, n, keys, zk)(q) + corr) / S.unit(base))


@scenario("P06", grid=dict(approach=["discrete", "miller_madow"]), conc=25)
def cmi_constant_condition(S, approach):
    """conditioning on a constant gives the plain MI"""
    n = S.int("n", 1, 2**31 - 1, typ=(1, 40))
    x, y = S.labels("x", n), S.labels("y", n)
    z = S.arr(n, lambda i: S.num(4), kind="i")
    a = S.im.conditional_mutual_information(x, y, cond=z, approach=approach, base="e")
    kx, ky = one(S, x), one(S, y)
    corr = mm_mi_corr(S, n, [kx, ky]) if approach == "miller_madow" else S.num(0)
    S.eq("CMI given a constant is MI", a, MI(S, n, [kx, ky]) + corr)


@scenario("P06", grid=dict(approach=["discrete", "miller_madow"], m=[2, 3]), sym=False, conc=1)
def cmi_large(S, approach, m):
    """large samples with frequent labels (products of counts beyond 32 bits)"""
    n = 150000
    r = S.rng(S.int("seed", 0, typ=(0, 10**6)))
    xs = [(r.random(n) < 0.02).astype(int) + 2 * (r.random(n) < 0.01) for j in range(m)]
    z = (r.random(n) < 0.05).astype(int)
    xs[1][:400] = xs[0][:400]
    h = lambda *v: S.im.entropy(v, approach=approach, base="e")
    est = S.im.estimator(*xs, cond=z, measure="cmi", approach=approach, base="e")
    want = sum(h(x, z) for x in xs) - h(*xs, z) - S.im.entropy(z, approach=approach, base="e")
    S.eq("entropy combination", est.global_val(), want, tol=1e-8)
    S.eq("mean of the local values", est.local_vals().mean(), est.global_val(), tol=1e-8)
