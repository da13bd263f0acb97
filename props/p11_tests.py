from dv.dsl import scenario
from ._spec import *
from ._all import *

METHODS = ["permutation_test", "bootstrap"]
WHICH = ["mi", "cmi", "te", "cte"]


def estimator(S, which, approach="discrete", n=None):
    n = n or S.int("n", 8, 2**31 - 1, typ=(8, 20))
    vs = data(S, approach, which, n)
    return n, vs, construct(S, approach, which, vs, "e", params(S, approach, which))


def opaque(S, est, obs, test_vals, arrays=0):
    """contract of the estimator under test: the observed value, and one arbitrary value per evaluation"""
    st = {"n": 0}

    def calc():
        v = test_vals[min(st["n"], len(test_vals) - 1)]
        st["n"] += 1
        if arrays:
            return S.arr(arrays, lambda i: v + (i - (arrays - 1) * S.frac(1, 2)))      # local values with mean v
        return v
    est._calculate = calc
    est.global_val = lambda: obs
    return st


def stats(S, obs, vals):
    m = len(vals)
    mean = vals[0]
    for v in vals[1:]:
        mean = mean + v
    mean = S.div(mean, m)
    var = S.num(0)
    for v in vals:
        var = var + (v - mean) * (v - mean)
    var = S.div(var, m - 1)
    p = S.num(0)
    for v in vals:
        p = p + S.ind(v > obs)
    return mean, S.sqrt(var), S.div(p, m), var


@scenario("P11", grid=dict(which=WHICH, method=METHODS, m=[2, 3, 5], arrays=[0, 3]), conc=15)
def definitions(S, which, method, m, arrays):
    """p, t, null mean, null standard deviation, test values and observed value of n_tests evaluations"""
    n, vs, est = estimator(S, which)
    obs = S.real("obs", typ=(-2, 2))
    vals = [S.real(f"v{j}", typ=(-2, 2)) for j in range(m)]
    if S.conc:      # a grid of exactly representable numbers, so that means of local values are exact
        obs, vals = round(obs * 64) / 64, [round(v * 64) / 64 for v in vals]
        if S.choice("tie", [0, 0, 1]):
            vals[-1] = obs
    st = opaque(S, est, obs, vals, arrays)
    mean, sd, p, var = stats(S, obs, vals)
    S.assume(var > 0)
    t = est.statistical_test(n_tests=m, method=method)
    S.eq("exactly n_tests evaluations", st["n"], m)
    S.eq("null mean", t.null_mean, mean)
    S.eq("null standard deviation (sample)", t.null_std, sd, tol=1e-7)
    S.eq("p-value is the share of test values above the observed one", t.p_value, p)
    S.eq("t-score", t.t_score, S.div(obs - mean, sd), tol=1e-6)
    S.eq("observed value", t.observed_value, obs)
    S.eq("number of tests", t.n_tests, m)
    S.eq("method", t.method, method)
    S.shape("one entry per test", t.test_values, m)
    for j in range(m):
        S.eq("test value", S.at(t.test_values, j), vals[j])


@scenario("P11", grid=dict(which=WHICH, method=METHODS), conc=10)
def constant_null(S, which, method):
    """without spread in the test values there is no t-score"""
    n, vs, est = estimator(S, which)
    obs, v = S.real("obs", typ=(-2, 2)), S.real("v", typ=(-2, 2))
    if S.conc:
        obs, v = round(obs * 8) / 8, round(v * 8) / 8     # exactly representable: the mean is exact
    opaque(S, est, obs, [v])
    t = est.statistical_test(n_tests=4, method=method)
    S.is_nan("t-score is undefined", t.t_score)
    S.eq("null standard deviation", t.null_std, 0)
    S.eq("p-value", t.p_value, S.ind(v > obs))


@scenario("P11", grid=dict(which=["te", "cte"], method=METHODS + [None], arrays=[0, 3]), conc=10)
def effective(S, which, method, arrays):
    """effective value: observed value minus one resampled value"""
    n, vs, est = estimator(S, which)
    obs, v = S.real("obs", typ=(-2, 2)), S.real("v", typ=(-2, 2))
    st = opaque(S, est, obs, [v], arrays)
    S.eq("effective value", est.effective_val(method=method) if method else est.effective_val(), obs - v)
    S.eq("one evaluation", st["n"], 1)


@scenario("P11", grid=dict(which=WHICH, n_tests=[0, -1, 1.5, "5"]), conc=3)
def bad_count(S, which, n_tests):
    n, vs, est = estimator(S, which)
    opaque(S, est, S.num(1), [S.num(2)])
    S.raises("ValueError", ValueError, lambda: est.statistical_test(n_tests=n_tests, method="bootstrap"))


@scenario("P11", grid=dict(which=WHICH), conc=3)
def bad_method(S, which):
    n, vs, est = estimator(S, which)
    opaque(S, est, S.num(1), [S.num(2)])
    S.raises("ValueError", ValueError, lambda: est.statistical_test(n_tests=3, method="jackknife"))
    if which in ("te", "cte"):
        S.raises("ValueError (effective value)", ValueError, lambda: est.effective_val(method="jackknife"))


@scenario("P11", grid=dict(which=WHICH, method=METHODS), conc=10)
def configured_defaults(S, which, method):
    """number of tests and method default to the configuration at the time of the call"""
    n, vs, est = estimator(S, which)
    vals = [S.real(f"v{j}", typ=(-2, 2)) for j in range(3)]
    opaque(S, est, S.real("obs", typ=(-2, 2)), vals)
    C = S.im.Config
    try:
        C.set("statistical_test_n_tests", 3)
        C.set("statistical_test_method", method)
        t = est.statistical_test()
        S.eq("number of tests", t.n_tests, 3)
        S.eq("method", t.method, method)
        S.shape("test values", t.test_values, 3)
    finally:
        C.reset()


@scenario("P11", grid=dict(measure=["mi", "cmi"], a=["discrete", "ksg", "kernel_box"]), conc=5)
def three_variables(S, measure, a):
    """tests are offered for two variables only"""
    import io
    n = size(S, a, measure)
    vs = [variable(S, a, nm, n) for nm in "xyw"]
    kw = dict(cond=variable(S, a, "z", n)) if measure == "cmi" else {}
    est = S.im.estimator(*vs, measure=measure, approach=name_of(a), base="e", **params(S, a, measure), **kw)
    S.raises("UnsupportedOperation", io.UnsupportedOperation, lambda: est.statistical_test(n_tests=3, method="bootstrap"))


@scenario("P11", grid=dict(a=["discrete", "kernel_box"]), conc=5)
def not_for_entropy(S, a):
    n = size(S, a, "h")
    est = construct(S, a, "h", data(S, a, "h", n), "e", params(S, a))
    S.check("entropy offers no significance test", not hasattr(est, "statistical_test"))


@scenario("P11", grid=dict(which=WHICH, method=METHODS), conc=10)
def state(S, which, method):
    """the estimator's data, results and configuration are the same after a test as before"""
    n, vs, est = estimator(S, which)
    g = est.global_val()
    l0 = est.local_vals()
    names = [k for k in ("data", "source", "dest", "cond") if hasattr(est, k)]
    before = {k: getattr(est, k) for k in names}
    copies = {k: [S.copy(v) for v in (b if isinstance(b, tuple) else (b,))] for k, b in before.items()}
    res = [S.real(f"v{j}", typ=(-2, 2)) for j in range(2)]
    it = iter(res)
    est._calculate = lambda: next(it)
    est.statistical_test(n_tests=2, method=method)
    for k in names:
        b = getattr(est, k)
        b = b if isinstance(b, tuple) else (b,)
        S.eq("same number of variables", len(b), len(copies[k]))
        for u, v in zip(b, copies[k]):
            S.unchanged(f"{k} is unchanged", u, v)
    S.eq("global value is unchanged", est.global_val(), g)
    i = S.index("i", S.len(l0))
    S.eq("local values are unchanged", S.at(est.local_vals(), i), S.at(l0, i))
    if which in ("te", "cte"):
        S.check("no resampling afterwards", not getattr(est, "permute_src", False) and not getattr(est, "resample_src", False))


@scenario("P11", grid=dict(a=I_APP, which=WHICH), conc=lambda a, **_: 1 if slow(a) else 6, sym=False)
def whole(S, a, which):
    """every approach: statistics of the recorded test values, observed value = global value, state restored"""
    import numpy as np
    n = size(S, a, which)
    vs, ps = data(S, a, which, n), params(S, a, which)
    est = construct(S, a, which, vs, 2, ps)
    est.rng = S.rng(3)
    v0 = est.global_val()
    method = S.choice("method", METHODS)
    t = est.statistical_test(n_tests=4, method=method)
    S.eq("observed value", t.observed_value, v0)
    tv = np.asarray(t.test_values, dtype=float)
    S.shape("test values", tv, 4)
    S.eq("p-value", t.p_value, float((tv > v0).mean()))
    S.eq("null mean", t.null_mean, tv.mean())
    S.eq("null standard deviation", t.null_std, tv.std(ddof=1))
    if tv.std(ddof=1) > 0:
        S.eq("t-score", t.t_score, (v0 - tv.mean()) / tv.std(ddof=1))
    else:
        S.is_nan("t-score", t.t_score)
    est.res_global = None
    S.eq("value recomputed after the test", est.global_val(), v0)


def lin_percentile(vals, q):
    s = sorted(vals)
    h = (len(s) - 1) * q / 100
    lo = int(h)
    return s[lo] + (h - lo) * (s[min(lo + 1, len(s) - 1)] - s[lo])


@scenario("P11", sym=False, conc=60)
def percentiles(S):
    """percentile q and the central confidence interval of the test values"""
    D = S.mod("utils.data")
    m = S.int("m", 2, typ=(2, 30))
    vals = [S.real(f"v{j}", typ=(-2, 2)) for j in range(m)]
    t = D.StatisticalTestResult(p_value=0.1, t_score=1.0, test_values=S.np.array(vals), observed_value=0.3, null_mean=0.0, null_std=1.0, n_tests=m, method="bootstrap")
    q, c = S.real("q", 0, typ=(0, 100)), S.real("c", 0, typ=(1, 99))
    S.eq("percentile", t.percentile(q), lin_percentile(vals, q))
    ci = t.confidence_interval(c)
    S.eq("lower end", ci[0], lin_percentile(vals, (100 - c) / 2))
    S.eq("upper end", ci[1], lin_percentile(vals, 100 - (100 - c) / 2))
    S.raises("level outside (0, 100)", ValueError, lambda: t.confidence_interval(100))
    S.raises("level outside (0, 100)", ValueError, lambda: t.confidence_interval(0))
