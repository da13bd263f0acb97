from dv.dsl import scenario
from ._all import *
from .p12_frame import NOISE
from .p13_seed import exact

SYM_H = {"discrete", "miller_madow", "grassberger", "kernel_box"}
SYM_I = {"discrete", "miller_madow", "ksg", "kernel_box"}


def run(S, a, measure, mk, other):
    """any order of accessors, interleaved with another estimator"""
    e1, e2, o = mk(), mk(), other()
    g1 = e1.global_val()
    og = o.global_val()
    if a in LOCALS:
        l2 = e2.local_vals()
        l1 = e1.local_vals()
        q = S.index("q", S.len(l1))
        exact(S, "local values do not depend on the order of the calls", S.at(l1, q), S.at(l2, q))
        S.eq("as many local values", S.len(l1), S.len(l2))
    exact(S, "global value does not depend on the order of the calls", e2.global_val(), g1)
    exact(S, "repeated global value", e1.global_val(), g1)
    exact(S, "result() is the global value", e1.result(), g1)
    exact(S, "the other estimator is not affected", o.global_val(), og)
    exact(S, "the other estimator computed the same before", other().global_val(), og)
    if a in LOCALS:
        exact(S, "repeated local values", S.at(e1.local_vals(), q), S.at(l1, q))
        exact(S, "global value after local values", e1.global_val(), g1)


@scenario("P24", grid=dict(a=H_APP), conc=lambda a, **_: 1 if slow(a) else 10, sym=lambda a, **_: a in SYM_H)
def entropy(S, a):
    n = size(S, a, "h")
    vs, ws, ps = data(S, a, "h", n), [variable(S, a, "w", n)], params(S, a)
    run(S, a, "h", lambda: construct(S, a, "h", vs, 2, ps), lambda: construct(S, a, "h", ws, 3, ps))


@scenario("P24", grid=dict(a=I_APP, measure=["mi", "cmi", "te", "cte"]), conc=lambda a, **_: 1 if slow(a) else 6, sym=lambda a, **_: a in SYM_I)
def information(S, a, measure):
    n = size(S, a, measure)
    vs, ps = data(S, a, measure, n), params(S, a, measure)
    gibbs(S, a, measure, n, vs)
    gibbs(S, a, measure, n, vs[:2][::-1])
    run(S, a, measure, lambda: construct(S, a, measure, vs, 2, ps), lambda: construct(S, a, measure, vs[:2][::-1] + vs[2:], 3, ps))


@scenario("P24", grid=dict(a=sorted(NOISE - {"kl"}), measure=["mi", "cmi", "te", "cte"]), conc=6, sym=lambda a, **_: a == "ksg")
def noisy(S, a, measure):
    """the noise is drawn once: asking again gives the same numbers"""
    n = size(S, a, measure)
    vs, ps = data(S, a, measure, n), params(S, a, measure)
    ps["noise_level"] = 0.1
    e = construct(S, a, measure, vs, 2, ps, seed=4)
    g = e.global_val()
    exact(S, "repeated global value", e.global_val(), g)
    if a in LOCALS:
        l = e.local_vals()
        S.eq("mean of the local values is the global value", S.div(S.sum(S.len(l), lambda i: S.at(l, i)), S.len(l)), g, tol=1e-9)
        exact(S, "global value after local values", e.global_val(), g)


@scenario("P24", grid=dict(a=I_APP, measure=["mi", "cmi", "te", "cte"]), conc=lambda a, **_: 1 if slow(a) else 6, sym=lambda a, measure, **_: a in ("discrete", "kernel_box") and measure != "cte")
def after_test(S, a, measure):
    """a significance test in between changes nothing"""
    n = size(S, a, measure)
    vs, ps = data(S, a, measure, n), params(S, a, measure)
    gibbs(S, a, measure, n, vs)
    mk = lambda: construct(S, a, measure, vs, 2, ps)
    e, f = mk(), mk()
    g = f.global_val()
    m = S.choice("method", ["permutation_test", "bootstrap"]) if S.conc else "permutation_test"
    e.rng = S.rng(1)
    t = e.statistical_test(n_tests=2, method=m)
    exact(S, "observed value of the test", t.observed_value, g)
    exact(S, "global value after the test", e.global_val(), g)
    e.res_global = e.res_local = None
    exact(S, "value recomputed after the test", e.global_val(), g)
    if a in LOCALS:
        q = S.index("q", S.len(f.local_vals()))
        exact(S, "local values after the test", S.at(e.local_vals(), q), S.at(f.local_vals(), q))


def others(a, ps):
    """the same approach with another valid parameter"""
    p = dict(ps)
    if a == "bayes":
        p["alpha"] = 1.0 if ps["alpha"] != 1.0 else 0.25
    if a in ("kernel_box", "kernel_gaussian"):
        p["bandwidth"] = ps["bandwidth"] * 2
    if a in ("kl", "ksg", "renyi", "renyi1", "tsallis", "tsallis1"):
        p["k"] = ps["k"] + 1
    if a == "ordinal":
        p["embedding_dim"] = 2 if ps["embedding_dim"] != 2 else 3
    return p


def isolation(S, a, measure, n, vs, ws):
    ps = params(S, a, measure)
    b, c = (3, 5) if S.sym else (S.real("b", 1, typ=(1.05, 12)), S.real("c", 1, typ=(1.05, 12)))
    if measure == "mi":
        gibbs(S, a, measure, n, vs)
        gibbs(S, a, measure, n, ws)

    def ask(data, base, p):
        e = construct(S, a, measure, data, base, p)
        return e.global_val(), (e.local_vals() if a in LOCALS else None)
    with S.fresh():
        g0, l0 = ask(vs, b, ps)
    ask(vs, c, ps)
    ask(vs, c, others(a, ps))
    ask(ws, b, ps)
    g1, l1 = ask(vs, b, ps)
    exact(S, "global value as in a new session", g1, g0)
    if a in LOCALS:
        S.eq("as many local values", S.len(l1), S.len(l0))
        q = S.index("q", S.len(l0))
        exact(S, "local value as in a new session", S.at(l1, q), S.at(l0, q))


@scenario("P24", grid=dict(a=H_APP), conc=lambda a, **_: 1 if slow(a) else 3, sym=lambda a, **_: a in SYM_H)
def isolated_entropy(S, a):
    """what other estimators were used before (other data, base or parameters) has no influence"""
    n = size(S, a, "h")
    isolation(S, a, "h", n, data(S, a, "h", n), [variable(S, a, "w", n)])


@scenario("P24", grid=dict(a=I_APP, measure=["mi", "cmi", "te", "cte"]), conc=lambda a, **_: 1 if slow(a) else 2, sym=lambda a, **_: a in SYM_I)
def isolated_information(S, a, measure):
    n = size(S, a, measure)
    vs = data(S, a, measure, n)
    isolation(S, a, measure, n, vs, vs[:2][::-1] + vs[2:])
