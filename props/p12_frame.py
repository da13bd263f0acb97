from dv.dsl import scenario
from ._all import *

SYM_H = {"discrete", "miller_madow", "grassberger", "ansb", "bayes", "bonachela", "kernel_box"}
SYM_I = {"discrete", "miller_madow", "ksg", "kernel_box"}
NOISE = {"kl", "ksg", "renyi", "renyi1", "tsallis", "tsallis1"}
NORM = {"ksg", "kernel_box", "kernel_gaussian", "renyi", "tsallis"}


def form(S, v, how):
    """the same data as array, list, or (where the estimator accepts it) integers / float32"""
    if how == "list":
        return v.tolist()
    if how == "float32":
        return v.astype("float32")
    if how == "integers":
        return (v * 100).astype(int)
    if how == "view":
        big = S.np.concatenate([v, v])
        return big[:len(v)]
    return v


def snap(S, vs):
    import copy
    return [copy.deepcopy(v) if isinstance(v, list) else S.copy(v) for v in vs]


def unchanged(S, vs, before, when):
    for k, (v, b) in enumerate(zip(vs, before)):
        if isinstance(v, list):
            S.check(f"input {k} unchanged after {when}", v == b, "list was modified")
        else:
            S.unchanged(f"input {k} unchanged after {when}", v, b)


def exercise(S, est, a, measure, vs, before, testing):
    est.global_val()
    unchanged(S, vs, before, "computing the global value")
    if a in LOCALS:
        est.local_vals()
        unchanged(S, vs, before, "computing local values")
    if testing:
        est.rng = S.rng(1)
        est.statistical_test(n_tests=2, method=S.choice("method", ["permutation_test", "bootstrap"]) if S.conc else "permutation_test")
        unchanged(S, vs, before, "a significance test")
        if measure in ("te", "cte"):
            est.effective_val(method="bootstrap")
            unchanged(S, vs, before, "an effective value")


@scenario("P12", grid=dict(a=H_APP, d=[0, 2]), conc=lambda a, **_: 2 if slow(a) else 15, sym=lambda a, **_: a in SYM_H)
def entropy(S, a, d):
    n = size(S, a, "h")
    if a == "ordinal":
        d = 0
    ps = params(S, a)
    vs = data(S, a, "h", n, d)
    if a == "kl":
        ps["noise_level"] = 0.01
    if S.conc:
        vs = [form(S, v, S.choice("form", ["array", "view", "list"] + (["float32", "integers"] if a not in DISC and a != "kernel_gaussian" else []))) for v in vs]
        if a == "ordinal" and isinstance(vs[0], list):
            vs = [S.np.asarray(v) for v in vs]
    before = snap(S, vs)
    est = construct(S, a, "h", vs, 2, ps)
    unchanged(S, vs, before, "construction")
    exercise(S, est, a, "h", vs, before, False)


@scenario("P12", grid=dict(a=H_APP), conc=lambda a, **_: 2 if slow(a) else 10, sym=lambda a, **_: a in SYM_H)
def joint_entropy(S, a):
    n = size(S, a, "h")
    vs = data(S, a, "mi", n)
    before = snap(S, vs)
    t = tuple(vs)
    est = construct(S, a, "h", [t], 2, params(S, a))
    exercise(S, est, a, "h", vs, before, False)
    S.check("the tuple still holds the same objects", len(t) == 2 and t[0] is vs[0] and t[1] is vs[1])


@scenario("P12", grid=dict(a=I_APP, measure=["mi", "cmi", "te", "cte"], norm=[False, True]), conc=lambda a, **_: 1 if slow(a) else 6, sym=lambda a, norm, **_: a in SYM_I and not norm)
def information(S, a, measure, norm):
    """including the noise and the normalisation options"""
    n = size(S, a, measure)
    ps = params(S, a, measure)
    if norm and a in NORM and measure in ("mi", "cmi"):
        ps["normalize"] = True
    if a in NOISE:
        ps["noise_level"] = 0.01
    vs = data(S, a, measure, n)
    if S.conc:
        fs = ["array", "view"] + (["list"] if a in ("discrete", "ksg", "kernel_box") else []) + (["float32", "integers"] if a not in DISC and a != "kernel_gaussian" else [])
        vs = [form(S, v, S.choice("form", fs)) for v in vs]
        S.assume(not any(isinstance(v, list) for v in vs) or all(isinstance(v, list) for v in vs))
    gibbs(S, a, measure, n, vs)
    before = snap(S, vs)
    est = construct(S, a, measure, vs, "e", ps)
    unchanged(S, vs, before, "construction")
    exercise(S, est, a, measure, vs, before, S.conc and not any(isinstance(v, list) for v in vs))


@scenario("P12", grid=dict(a=HX_APP), conc=10, sym=False)
def cross_entropy(S, a):
    n = size(S, a, "hx")
    vs = data(S, a, "hx", n)
    ps = params(S, a, "hx")
    if a == "kl":
        ps["noise_level"] = 0.01
    before = snap(S, vs)
    S.im.cross_entropy(*vs, approach=name_of(a), base=2, **ps)
    unchanged(S, vs, before, "cross-entropy")


@scenario("P12", grid=dict(f=["jsd", "kld"], a=["discrete", "kernel_box", "ordinal"]), conc=10, sym=False)
def divergence(S, f, a):
    n = size(S, a, "hx")
    vs = data(S, a, "hx", n)
    before = snap(S, vs)
    g = S.im.jensen_shannon_divergence if f == "jsd" else S.im.kullback_leiber_divergence
    g(*vs, approach=name_of(a), base=2, **params(S, a, "hx"))
    unchanged(S, vs, before, f)


@scenario("P12", grid=dict(f=["normalize", "reduce1", "reduce2", "symbolize", "from_data", "te_observations", "cte_observations", "kde", "from_counts"]), conc=12, sym=lambda f: f not in ("kde", "symbolize"))
def utilities(S, f):
    n = S.int("n", 8, 2**31 - 1, typ=(8, 25))
    x, p, l, r = S.series("x", n), S.points("p", n, 2), S.labels("l", n), S.label_rows("r", n, 2)
    y, z = S.series("y", n), S.series("z", n)
    vs = [x, p, l, r, y, z]
    if f == "normalize":
        S.assume(not S.eqv(S.at(x, 0), S.at(x, 1))) if S.conc else None
    before = snap(S, vs)
    if f == "normalize":
        S.mod("estimators.utils.normalize").normalize_data_0_1(p if S.conc else x)
    elif f == "reduce1":
        S.mod("estimators.utils.ordinal").reduce_joint_space(r)
    elif f == "reduce2":
        S.mod("estimators.utils.ordinal").reduce_joint_space((l, r))
    elif f == "symbolize":
        S.mod("estimators.utils.ordinal").symbolize_series(x, 3, to_int=True)
    elif f == "from_data":
        S.mod("utils.data").DiscreteData.from_data(l)
    elif f == "from_counts":
        u, c = S.np.unique(l, return_counts=True)
        S.mod("utils.data").DiscreteData.from_counts(u, c)
    elif f == "te_observations":
        S.mod("estimators.utils.te_slicing").te_observations(x, y, src_hist_len=2, permute_src=S.rng(1))
    elif f == "cte_observations":
        S.mod("estimators.utils.te_slicing").cte_observations(x, y, z, src_hist_len=2, resample_src=S.rng(1))
    elif f == "kde":
        S.mod("estimators.utils.kde").kde_probability_density_function(p, 0.7, kernel=S.choice("kernel", ["box", "gaussian"]))
    unchanged(S, vs, before, f)
