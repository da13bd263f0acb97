from dv.dsl import scenario
from ._all import *
import math

SYM_H = {"discrete", "miller_madow", "grassberger", "ansb", "bayes", "bonachela", "chao_wang_jost", "kernel_box"}
SYM_I = {"discrete", "miller_madow", "ksg", "kernel_box"}


def scales(a):
    """Tsallis entropies of order q != 1 are not logarithmic: their value does not depend on the base"""
    return a != "tsallis"


@scenario("P03", grid=dict(base=["e", 2, 10, "other", 0, -2, -0.5]), conc=40)
def log_base(S, base):
    """contract of Estimator._log_base: log x in the estimator's unit (callees are checked against this contract)"""
    x = S.labels("x", S.int("n", 2, 2**31 - 1, typ=(2, 10)))
    b = base if base != "other" else S.real("b", 0, typ=(0.2, 12))
    if base == "other":
        S.assume(b != 1)
    est = S.im.estimator(x, measure="h", approach="discrete", base=2)
    est.base = b
    v = S.real("v", 0, typ=(0.01, 50))
    if base == 0:
        S.eq("base 0 gives 0", est._log_base(v), 0)
    elif isinstance(base, (int, float)) and base < 0:
        S.raises("negative base is rejected", ValueError, lambda: est._log_base(v))
    else:
        u = 1 if base == "e" else (S.log(b))
        S.eq("log in the requested base", est._log_base(v), S.div(S.log(v), u))


def relation(S, a, measure, est):
    base = S.real("base", 1, typ=(1.05, 12))
    e1, e2 = est("e"), est(base)
    f = S.log(base) if scales(a) else 1
    S.eq("value(base) * log(base) = value(e)", e2.global_val() * f, e1.global_val(), tol=1e-7)
    if a in LOCALS:
        l1, l2 = e1.local_vals(), e2.local_vals()
        q = S.index("q", S.len(l1))
        S.eq("local value scales likewise", S.at(l2, q) * f, S.at(l1, q), tol=1e-6)


@scenario("P03", grid=dict(a=H_APP, measure=["h"]), conc=lambda a, **_: 3 if slow(a) else 25, sym=lambda a, **_: a in SYM_H)
def entropy(S, a, measure):
    """entropy in base b is the entropy in nats divided by log b"""
    n = size(S, a, measure)
    vs, ps = data(S, a, measure, n), params(S, a, measure)
    gibbs(S, a, measure, n, vs)
    relation(S, a, measure, lambda b: construct(S, a, measure, vs, b, ps))


@scenario("P03", grid=dict(a=I_APP, measure=["mi", "cmi", "te", "cte"]), conc=lambda a, **_: 2 if slow(a) else 10, sym=lambda a, **_: a in SYM_I)
def information(S, a, measure):
    """the same for (conditional) mutual information and (conditional) transfer entropy"""
    n = size(S, a, measure)
    vs, ps = data(S, a, measure, n), params(S, a, measure)
    gibbs(S, a, measure, n, vs)
    relation(S, a, measure, lambda b: construct(S, a, measure, vs, b, ps))


@scenario("P03", grid=dict(a=HX_APP), conc=15, sym=False)
def cross_entropy(S, a):
    n = size(S, a, "hx")
    vs, ps = data(S, a, "hx", n), params(S, a, "hx")
    base = S.real("base", 1, typ=(1.05, 12))
    f = math.log(base) if scales(a) else 1
    h = lambda b: S.im.cross_entropy(*vs, approach=name_of(a), base=b, **ps)
    v1, v2 = h("e"), h(base)
    S.eq("value(base) * log(base) = value(e)", v2 * f, v1, tol=1e-7)


@scenario("P03", grid=dict(f=["jsd", "kld"], a=["discrete", "kernel_box", "ordinal"]), conc=15, sym=False)
def divergence(S, f, a):
    n = size(S, a, "hx")
    vs, ps = data(S, a, "hx", n), params(S, a, "hx")
    if a in DISC:
        S.assume(len(set(vs[0].tolist()) & set(vs[1].tolist())) > 1)
    base = S.real("base", 1, typ=(1.05, 12))
    g = S.im.jensen_shannon_divergence if f == "jsd" else S.im.kullback_leiber_divergence
    v1, v2 = (g(*vs, approach=name_of(a), base=b, **ps) for b in ("e", base))
    S.eq("value(base) * log(base) = value(e)", v2 * math.log(base), v1, tol=1e-7)
