from dv.dsl import scenario
from ._all import *

SYM_H = {"discrete", "grassberger", "kernel_box", "miller_madow"}
SYM_I = {"discrete", "miller_madow", "kernel_box", "ksg"}


def check(S, a, est, m):
    v, l = est.global_val(), est.local_vals()
    S.shape("one local value per observation", l, m)
    S.eq("mean of the local values is the global value", S.div(S.sum(m, lambda i: S.at(l, i)), m), v, tol=1e-7)


@scenario("P04", grid=dict(a=[x for x in H_APP if x in LOCALS], d=[0, 2]), conc=lambda a, **_: 3 if slow(a) else 25, sym=lambda a, **_: a in SYM_H)
def entropy(S, a, d):
    if a == "ordinal":
        d = 0
    n = size(S, a, "h")
    ps = params(S, a, "h")
    est = construct(S, a, "h", data(S, a, "h", n, d), S.base(), ps)
    check(S, a, est, n - ps["embedding_dim"] + 1 if a == "ordinal" else n)


@scenario("P04", grid=dict(a=[x for x in H_APP if x in LOCALS]), conc=lambda a, **_: 3 if slow(a) else 15, sym=lambda a, **_: a in SYM_H)
def joint_entropy(S, a):
    n = size(S, a, "h")
    ps = params(S, a, "h")
    est = construct(S, a, "h", [tuple(data(S, a, "mi", n))], S.base(), ps)
    check(S, a, est, n - ps["embedding_dim"] + 1 if a == "ordinal" else n)


@scenario("P04", grid=dict(a=[("ksg" if x == "kl" else x) for x in H_APP if x in LOCALS], measure=["mi", "cmi", "te", "cte"]),
          conc=lambda a, **_: 2 if slow(a) else 12, sym=lambda a, **_: a in SYM_I)
def information(S, a, measure):
    n = size(S, a, measure)
    ps = params(S, a, measure)
    vs = data(S, a, measure, n)
    gibbs(S, a, measure, n, vs)
    est = construct(S, a, measure, vs, S.base(), ps)
    m = n
    if a == "ordinal":
        m = n - ps["embedding_dim"] + 1
    if measure in ("te", "cte"):
        m = m - 1
    check(S, a, est, m)
