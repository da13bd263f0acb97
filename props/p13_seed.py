from dv.dsl import scenario
from ._all import *
from .p12_frame import NOISE, SYM_I

RANDOM = ["mi", "cmi", "te", "cte"]


def disturb(S, k):
    """other uses of random numbers in the same process"""
    if S.conc:
        import random
        S.np.random.seed(k * 7 + 1)
        S.np.random.rand(k + 1)
        random.seed(k)
    S.rng(99 + k).normal(size=3)


def exact(S, name, a, b):
    if S.sym:
        S.eq(name, a, b)
    else:
        S.check(name, a == b or (a != a and b != b), f"{a!r} vs {b!r}")


@scenario("P13", grid=dict(a=I_APP, measure=RANDOM), conc=lambda a, **_: 1 if slow(a) else 6, sym=lambda a, **_: a in SYM_I)
def same_seed(S, a, measure):
    """two estimators with the same seed agree exactly on value and local values"""
    n = size(S, a, measure)
    vs, ps = data(S, a, measure, n), params(S, a, measure)
    if a in NOISE:
        ps["noise_level"] = 0.05
    gibbs(S, a, measure, n, vs)
    seed = S.int("seed", 0, 2**31 - 1, typ=(0, 10000))
    e1 = construct(S, a, measure, vs, "e", ps, seed=seed)
    disturb(S, 1)
    e2 = construct(S, a, measure, vs, "e", ps, seed=seed)
    v1 = e1.global_val()
    disturb(S, 2)
    exact(S, "same value", e2.global_val(), v1)
    if a in LOCALS:
        l1, l2 = e1.local_vals(), e2.local_vals()
        q = S.index("q", S.len(l1))
        exact(S, "same local values", S.at(l1, q), S.at(l2, q))


@scenario("P13", grid=dict(a=I_APP, measure=RANDOM, method=["permutation_test", "bootstrap"]), conc=lambda a, **_: 1 if slow(a) else 4,
          sym=lambda a, measure, **_: a in ("discrete", "kernel_box") and measure in ("mi", "te"))
def same_seed_test(S, a, measure, method):
    """significance tests and effective values repeat with the seed"""
    n = size(S, a, measure)
    vs, ps = data(S, a, measure, n), params(S, a, measure)
    if a in NOISE:
        ps["noise_level"] = 0.05
    seed = S.int("seed", 0, 2**31 - 1, typ=(0, 10000))
    r = []
    for k in range(2):
        e = construct(S, a, measure, vs, "e", ps, seed=seed)
        if S.sym:
            obs = S.real("observed")
            e.global_val = lambda: obs
        disturb(S, k)
        t = e.statistical_test(n_tests=2, method=method)
        disturb(S, k + 5)
        r.append([S.at(t.test_values, 0), S.at(t.test_values, 1)] + ([e.effective_val(method=method)] if measure in ("te", "cte") and S.conc else []))
    for u, v in zip(*r):
        exact(S, "same test values", u, v)


@scenario("P13", grid=dict(a=I_APP, measure=RANDOM), conc=lambda a, **_: 1 if slow(a) else 5, sym=lambda a, **_: a in SYM_I)
def no_randomness(S, a, measure):
    """without noise and resampling the value does not depend on any seed"""
    n = size(S, a, measure)
    vs, ps = data(S, a, measure, n), params(S, a, measure)
    gibbs(S, a, measure, n, vs)
    e1 = construct(S, a, measure, vs, "e", ps, seed=S.int("s1", 0, typ=(0, 1000)))
    e2 = construct(S, a, measure, vs, "e", ps)
    disturb(S, 3)
    exact(S, "same value", e1.global_val(), e2.global_val())


@scenario("P13", grid=dict(a=H_APP), conc=lambda a, **_: 1 if slow(a) else 8, sym=lambda a, **_: a in ("discrete", "miller_madow", "grassberger", "kernel_box"))
def entropy(S, a):
    """entropies do not depend on the global random state; the noise of nearest-neighbour entropy comes from its own generator"""
    n = size(S, a, "h")
    vs, ps = data(S, a, "h", n), params(S, a)
    if a == "kl":
        ps["noise_level"] = 0.05
    r = []
    for k in range(2):
        e = construct(S, a, "h", vs, "e", ps)
        if a == "kl":
            e.rng = S.rng(17)
        disturb(S, k)
        r.append(e.global_val())
    exact(S, "same value", *r)


@scenario("P13", grid=dict(a=["ksg", "renyi"], measure=RANDOM), conc=5, sym=False)
def noise_is_used(S, a, measure):
    """the noise depends on the seed: with large noise two seeds give different values"""
    n = S.int("n", 20, typ=(20, 30))
    vs, ps = data(S, a, measure, n), params(S, a, measure)
    ps["noise_level"] = 1e5
    if S.sym:
        return
    a1, a2 = (construct(S, a, measure, vs, "e", ps, seed=s).local_vals() if a == "ksg" else construct(S, a, measure, vs, "e", ps, seed=s).global_val() for s in (1, 2))
    S.check("values differ", not S.np.array_equal(a1, a2))
