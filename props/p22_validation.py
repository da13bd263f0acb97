"""Every documented kind of invalid input raises, for every approach and measure that takes it."""
from dv.dsl import scenario
from ._all import *

INFO = ["mi", "cmi", "te", "cte"]
TES = ["te", "cte"]
SYM = {"discrete", "miller_madow", "ksg", "kernel_box", "bayes", "shrink", "renyi", "tsallis", "grassberger", "bonachela", "ansb", "chao_wang_jost", "chao_shen", "zhang",
       "kernel_gaussian", "ordinal", "kl", "renyi1", "tsallis1"}
FAST = [a for a in I_APP if a != "nsb"]
H_FAST = [a for a in H_APP if a != "nsb"]
ERR = (ValueError, TypeError)


def call(S, a, measure, vs, ps, base=None, **kw):
    """construction and evaluation"""
    return construct(S, a, measure, vs, base, ps, **kw).global_val()


def dims(S, lo=12):
    return S.int("n", lo, 2**31 - 1, typ=(lo, 30))


# ------------------------------------------------------------ shapes and lengths
@scenario("P22", grid=dict(a=FAST, measure=INFO, which=[0, 1, 2]), conc=4)
def unequal_lengths(S, a, measure, which):
    """one of the variables has another length"""
    if which == 2 and measure in ("mi", "te"):
        which = 0
    n = dims(S)
    m = S.int("m", 12, 2**31 - 1, typ=(12, 30))
    S.assume(S.not_(S.eqv(n, m)))
    vs = [variable(S, a, nm, m if i == which else n) for i, nm in enumerate("xyz"[:nvars(measure)])]
    S.raises("unequal lengths", ValueError, lambda: call(S, a, measure, vs, params(S, a, measure)))


@scenario("P22", grid=dict(a=H_FAST), conc=5)
def unequal_joint(S, a):
    n = dims(S)
    m = S.int("m", 12, 2**31 - 1, typ=(12, 30))
    S.assume(S.not_(S.eqv(n, m)))
    v = (variable(S, a, "x", n), variable(S, a, "y", m))
    S.raises("unequal lengths of joint data", ValueError, lambda: call(S, a, "h", [v], params(S, a)))


@scenario("P22", grid=dict(a=FAST, measure=["mi", "cmi"]), conc=4, sym=lambda a, measure: measure == "mi")
def unequal_third(S, a, measure):
    """more than two variables, the last one has another length"""
    n = dims(S)
    m = S.int("m", 12, 2**31 - 1, typ=(12, 30))
    S.assume(S.not_(S.eqv(n, m)))
    vs = [variable(S, a, nm, m if nm == "w" else n) for nm in "xyw"]
    kw = dict(cond=variable(S, a, "z", n)) if measure == "cmi" else {}
    S.raises("unequal lengths", ERR, lambda: S.im.estimator(*vs, measure=measure, approach=name_of(a), **params(S, a, measure), **kw).global_val())


@scenario("P22", grid=dict(measure=["cmi", "cte"], a=FAST), conc=3)
def missing_condition(S, a, measure):
    n = dims(S)
    vs = [variable(S, a, nm, n) for nm in "xy"]
    S.raises("a conditional measure needs a condition", ValueError, lambda: S.im.estimator(*vs, measure=measure, approach=name_of(a), **params(S, a, measure)))
    f = S.im.cmi if measure == "cmi" else S.im.cte
    S.raises("a conditional measure needs a condition", ValueError, lambda: f(*vs, approach=name_of(a), **params(S, a, measure)))


@scenario("P22", grid=dict(a=FAST), conc=3)
def number_of_variables(S, a):
    n = dims(S)
    x, y, z = (variable(S, a, nm, n) for nm in "xyz")
    nm = name_of(a)
    ps = params(S, a, "mi")
    S.raises("mutual information of one variable", ValueError, lambda: S.im.mutual_information(x, approach=nm, **ps))
    S.raises("transfer entropy of one variable", ValueError, lambda: S.im.transfer_entropy(x, approach=nm, **ps))
    S.raises("transfer entropy of three variables", ValueError, lambda: S.im.transfer_entropy(x, y, z, approach=nm, **ps))
    S.raises("estimator: transfer entropy of three variables", ValueError, lambda: S.im.estimator(x, y, z, measure="te", approach=nm, **ps))
    S.raises("estimator: conditional transfer entropy of one variable", ValueError, lambda: S.im.estimator(x, cond=z, measure="cte", approach=nm, **ps))
    S.raises("conditional mutual information of one variable", ValueError, lambda: S.im.conditional_mutual_information(x, cond=z, approach=nm, **ps))
    S.raises("offset of three variables", ValueError, lambda: S.im.mutual_information(x, y, z, approach=nm, offset=1, **ps))
    S.raises("offset with a condition", ValueError, lambda: S.im.mutual_information(x, y, cond=z, approach=nm, offset=1, **ps))


@scenario("P22", grid=dict(a=H_FAST), conc=3)
def entropy_arguments(S, a):
    n = dims(S)
    x, y, z = (variable(S, a, nm, n) for nm in "xyz")
    nm, ps = name_of(a), params(S, a)
    S.raises("no data", ValueError, lambda: S.im.estimator(measure="entropy", approach=nm, **ps))
    S.raises("three variables", ValueError, lambda: S.im.estimator(x, y, z, measure="entropy", approach=nm, **ps))
    S.raises("a condition", ValueError, lambda: S.im.estimator(x, cond=y, measure="entropy", approach=nm, **ps))
    S.raises("a number", ValueError, lambda: S.im.estimator(3, measure="entropy", approach=nm, **ps))
    S.raises("a string", ValueError, lambda: S.im.estimator("abcabcabcabc", measure="entropy", approach=nm, **ps))
    S.raises("nothing", ValueError, lambda: S.im.estimator(None, measure="entropy", approach=nm, **ps))
    S.raises("one variable of a cross-entropy", ValueError, lambda: S.im.estimator(x, measure="hx", approach=nm, **ps))
    S.raises("cross-entropy of joint data", ERR + (NotImplementedError,), lambda: S.im.estimator((x, y), (y, z), measure="hx", approach=nm, **ps))
    S.raises("cross-entropy with a number", ERR, lambda: S.im.estimator(x, 3, measure="hx", approach=nm, **ps))


@scenario("P22", grid=dict(a=sorted(DISC - {"nsb"})), conc=2)
def empty(S, a):
    S.raises("no samples", ValueError, lambda: call(S, a, "h", [S.labels("x", 0)], params(S, a)))


# ------------------------------------------------------------ options of the approaches
@scenario("P22", grid=dict(measure=["h"] + INFO, a=["kl", "renyi", "tsallis", "renyi1"]), conc=6)
def neighbours(S, a, measure):
    """k is a positive integer below the number of points"""
    if a == "kl" and measure != "h":
        a = "ksg"
    n = dims(S, 4)
    vs = data(S, a, measure, n)
    lost = 1 if measure in TES else 0
    ps = dict(params(S, a, measure), noise_level=0) if measure != "h" or a == "kl" else params(S, a, measure)
    ps.pop("k")
    k = S.int("k", 1, typ=(1, 60))
    S.assume(k >= n - lost)
    S.raises("k is not below the number of points", ValueError, lambda: call(S, a, measure, vs, ps, k=k))
    for bad in (0, -1, 1.5, 2.0, "3", None):
        S.raises(f"k = {bad!r}", ERR, lambda: call(S, a, measure, vs, ps, k=bad))
    j = S.int("j", None, 0, typ=(-9, 0))
    S.raises("k <= 0", ValueError, lambda: call(S, a, measure, vs, ps, k=j))


@scenario("P22", grid=dict(measure=["h"] + INFO), conc=4)
def ksg_options(S, measure):
    a = "kl" if measure == "h" else "ksg"
    n = dims(S)
    vs = data(S, a, measure, n)
    ps = params(S, a, measure)
    ps.pop("ksg_id", None)
    ps.pop("noise_level", None)
    for bad in (0, 3, "1", None):
        S.raises(f"type {bad!r}", ValueError, lambda: call(S, a, measure, vs, ps, ksg_id=bad, noise_level=0))
    e = S.real("noise", None, 0, typ=(-3, 0))
    S.raises("negative noise", ValueError, lambda: call(S, a, measure, vs, ps, noise_level=e))


@scenario("P22", grid=dict(measure=INFO, a=["renyi", "tsallis"]), conc=4)
def negative_noise(S, measure, a):
    n = dims(S)
    vs = data(S, a, measure, n)
    ps = params(S, a, measure)
    ps.pop("noise_level")
    e = S.real("noise", None, 0, typ=(-3, 0))
    S.raises("negative noise", ValueError, lambda: call(S, a, measure, vs, ps, noise_level=e))


@scenario("P22", grid=dict(measure=["h"] + INFO, kernel=["box", "gaussian"]), conc=4)
def kernel_options(S, measure, kernel):
    a = "kernel_" + kernel
    n = dims(S)
    vs = data(S, a, measure, n)
    h = S.real("h", None, 0, typ=(-3, 0), strict=False)
    S.raises("bandwidth <= 0", ValueError, lambda: call(S, a, measure, vs, dict(kernel=kernel), bandwidth=h))
    for bad in (0, "1", None):
        S.raises(f"bandwidth {bad!r}", ERR, lambda: call(S, a, measure, vs, dict(kernel=kernel), bandwidth=bad))
    h = S.real("h2", 0, typ=(0.5, 3))
    for bad in ("triangle", "Box", "", None, 3):
        S.raises(f"kernel {bad!r}", ValueError, lambda: call(S, a, measure, vs, dict(bandwidth=h), kernel=bad))


@scenario("P22", grid=dict(measure=["h"] + INFO, a=["renyi", "tsallis"]), conc=4)
def order_options(S, measure, a):
    n = dims(S)
    vs = data(S, a, measure, n)
    nm = "alpha" if a == "renyi" else "q"
    q = S.real("q", None, 0, typ=(-3, 0), strict=False)
    S.raises("order <= 0", ValueError, lambda: call(S, a, measure, vs, {}, **{nm: q}))
    for bad in (0, -1, "1", None):
        S.raises(f"order {bad!r}", ERR, lambda: call(S, a, measure, vs, {}, **{nm: bad}))


@scenario("P22", grid=dict(measure=["h"] + INFO), conc=4)
def ordinal_options(S, measure):
    a = "ordinal"
    n = dims(S)
    vs = data(S, a, measure, n)
    for bad in (-1, 1.5, "3", None):
        S.raises(f"embedding dimension {bad!r}", ERR, lambda: call(S, a, measure, vs, {}, embedding_dim=bad))
    for bad in (-1, 1.5, "3", None):
        S.raises(f"step {bad!r}", ERR, lambda: call(S, a, measure, vs, dict(embedding_dim=3), step_size=bad))
    if measure not in TES:
        S.raises("step 0", ValueError, lambda: call(S, a, measure, vs, dict(embedding_dim=3), step_size=0))
    k = S.int("dim", 2, typ=(2, 60))
    s = S.int("step", 1, typ=(1, 9))
    S.assume((k - 1) * s + 1 > n)
    S.raises("window longer than the series", ValueError, lambda: call(S, a, measure, vs, dict(embedding_dim=k), step_size=s))
    two = [variable(S, a, "w", n, 2)] + vs[1:]
    S.raises("two-dimensional series", TypeError, lambda: call(S, a, measure, two, dict(embedding_dim=3)))


@scenario("P22", conc=4)
def bayes_options(S):
    n = dims(S)
    x = S.labels("x", n)
    for bad in ("jeffreys", "", None, [1]):
        S.raises(f"prior {bad!r}", ValueError, lambda: S.im.entropy(x, approach="bayes", alpha=bad))


# ------------------------------------------------------------ lags
@scenario("P22", grid=dict(a=FAST, measure=TES, which=["src", "dest", "cond"]), conc=3, sym=lambda a, measure, which: True)
def too_many_lags(S, a, measure, which):
    """histories that leave no observation"""
    if which == "cond" and measure == "te":
        which = "src"
    n = S.int("n", 12, 20, typ=(12, 20)) if S.conc else 12
    vs = data(S, a, measure, n)
    l = S.choice("l", [int(n), int(n) + 1, int(n) + 7]) if S.conc else 12
    ps = params(S, a, measure)
    S.raises("history longer than the series", ValueError, lambda: call(S, a, measure, vs, ps, **{which + "_hist_len": l}))
    S.raises("steps longer than the series", ValueError, lambda: call(S, a, measure, vs, ps, step_size=l))


@scenario("P22", grid=dict(a=FAST, measure=TES), conc=3)
def bad_lags(S, a, measure):
    n = dims(S)
    vs = data(S, a, measure, n)
    ps = params(S, a, measure)
    for opt in ["src_hist_len", "dest_hist_len", "step_size"] + (["cond_hist_len"] if measure == "cte" else []):
        for bad in (0, -1, 1.5, "1", None):
            S.raises(f"{opt} = {bad!r}", ERR, lambda: call(S, a, measure, vs, ps, **{opt: bad}))


@scenario("P22", grid=dict(a=FAST), conc=3)
def bad_propagation(S, a):
    n = dims(S)
    vs = data(S, a, "te", n)
    ps = params(S, a, "te")
    for bad in (1.5, "1", [1]):
        S.raises(f"propagation time {bad!r}", ValueError, lambda: call(S, a, "te", vs, ps, prop_time=bad))
    S.raises("offset and propagation time", ValueError, lambda: S.im.transfer_entropy(*vs, approach=name_of(a), prop_time=1, offset=2, **ps))
    z = variable(S, a, "z", n)
    t = S.int("t", 1, 3, typ=(1, 3))
    S.raises("propagation time with a condition", ERR, lambda: S.im.transfer_entropy(*vs, cond=z, approach=name_of(a), prop_time=t, **ps))


@scenario("P22", grid=dict(a=FAST), conc=3)
def propagation_too_long(S, a):
    n = dims(S)
    t = S.int("t", typ=(-60, 60))
    S.assume(S.or_(t >= n - 1, t <= 1 - n))
    vs = data(S, a, "te", n)
    S.raises("no observation left", ValueError, lambda: call(S, a, "te", vs, params(S, a, "te"), prop_time=t))


# ------------------------------------------------------------ normalisation, bases, unknown options
NORM = [a for a in FAST if a not in ("ordinal", "discrete", "miller_madow")]


@scenario("P22", grid=dict(a=NORM, measure=["mi", "cmi"], which=[0, 1, 2]), conc=3)
def normalise_2d(S, a, measure, which):
    if measure == "mi" and which == 2:
        which = 0
    n = dims(S)
    vs = [variable(S, a, nm, n, 2 if i == which else 0) for i, nm in enumerate("xyz"[:nvars(measure)])]
    S.raises("only one-dimensional data can be normalised", ValueError, lambda: call(S, a, measure, vs, params(S, a, measure), normalize=True))


@scenario("P22", grid=dict(a=FAST, measure=INFO), conc=3)
def bases(S, a, measure):
    n = dims(S)
    vs = data(S, a, measure, n)
    b = S.real("b", None, 0, typ=(-5, -0.1))
    S.raises("negative base", ValueError, lambda: call(S, a, measure, vs, params(S, a, measure), base=b))
    S.raises("unknown option", TypeError, lambda: call(S, a, measure, vs, params(S, a, measure), bandwith=1))


@scenario("P22", grid=dict(a=H_FAST), conc=3)
def bases_h(S, a):
    n = dims(S)
    x = variable(S, a, "x", n)
    b = S.real("b", None, 0, typ=(-5, -0.1))
    S.raises("negative base", ValueError, lambda: call(S, a, "h", [x], params(S, a), base=b))
    S.raises("unknown option", TypeError, lambda: call(S, a, "h", [x], params(S, a), bandwith=1))


# ------------------------------------------------------------ names
@scenario("P22", grid=dict(f=["entropy", "mutual_information", "conditional_mutual_information", "transfer_entropy", "conditional_transfer_entropy"]), conc=3)
def names(S, f):
    n = dims(S)
    x, y, z = (S.labels(nm, n) for nm in "xyz")
    vs, kw = {"e": ((x,), {}), "m": ((x, y), {}), "t": ((x, y), {}), "c": ((x, y), dict(cond=z))}[f[0]]
    g = getattr(S.im, f)
    S.raises("missing approach", ValueError, lambda: g(*vs, **kw))
    for bad in ("xx", "", None, 3):
        S.raises(f"approach {bad!r}", ValueError, lambda: g(*vs, approach=bad, **kw))
        S.raises(f"estimator: approach {bad!r}", ValueError, lambda: S.im.estimator(*vs, measure=f, approach=bad, **kw))
        S.raises(f"class: approach {bad!r}", ValueError, lambda: S.im.get_estimator_class(f, bad))
    for bad in ("xx", "", None):
        S.raises(f"measure {bad!r}", ValueError, lambda: S.im.estimator(*vs, measure=bad, approach="discrete", **kw))
        S.raises(f"class: measure {bad!r}", ValueError, lambda: S.im.get_estimator_class(bad, "discrete"))


# ------------------------------------------------------------ missing data
@scenario("P22", grid=dict(a=["kl", "kernel_box", "kernel_gaussian", "renyi", "tsallis"], measure=["h"] + INFO, bad=["nan", "inf"]), conc=2, sym=False)
def missing_values(S, a, measure, bad):
    """metric estimators refuse NaN and infinite observations"""
    if a == "kl" and measure != "h":
        a = "ksg"
    n = dims(S)
    vs = [S.np.array(v) for v in data(S, a, measure, n)]
    w = S.choice("which", list(range(len(vs))))
    vs[w][S.index("at", n - 1)] = float(bad)
    S.raises("missing value", (ValueError, S.np.linalg.LinAlgError), lambda: call(S, a, measure, vs, params(S, a, measure)))


# ------------------------------------------------------------ significance tests
@scenario("P22", grid=dict(a=["discrete", "ksg", "kernel_box"], measure=INFO), conc=3)
def tests(S, a, measure):
    n = dims(S)
    vs = data(S, a, measure, n)
    gibbs(S, a, measure, n, vs)
    e = construct(S, a, measure, vs, None, params(S, a, measure))
    for bad in (0, -1, 1.5, "3"):
        S.raises(f"number of tests {bad!r}", ValueError, lambda: e.statistical_test(n_tests=bad))
    S.raises("unknown method", ValueError, lambda: e.statistical_test(n_tests=3, method="xx"))
