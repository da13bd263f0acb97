import itertools
import math
from dv.dsl import scenario
from ._spec import *

DIMS = {1: 1, 2: 2, 3: 6, 4: 24}
PERMS = [(d, k) for d, m in DIMS.items() for k in range(m)]


def lehmer(p):
    n = len(p)
    return sum(sum(1 for j in range(i + 1, n) if p[j] < p[i]) * math.factorial(n - 1 - i) for i in range(n))


def window(S, dim):
    step = S.int("step", 1, typ=(1, 3))
    n = S.int("n", 1, typ=(1, 40))
    S.assume(n >= (dim - 1) * step + 1)
    x = S.series("x", n)
    m = n - (dim - 1) * step
    q = S.index("q", m)
    return x, n, step, m, q, [S.at(x, q + j * step) for j in range(dim)]


def ordering(S, w, dim, k):
    """positions of the window in increasing order of their values: assumed to be the k-th permutation (proof), read off (bounded)"""
    if S.conc:
        return tuple(sorted(range(dim), key=lambda j: w[j]))
    pi = list(itertools.permutations(range(dim)))[k]
    for a, b in zip(pi, pi[1:]):
        S.assume(w[a] < w[b])
    return pi


@scenario("P14", grid=dict(dk=PERMS), conc=4)
def windows(S, dk):
    """for every tie-free series, every step size, every window and every possible ordering of that window (complete case split)"""
    dim, k = dk
    f = S.mod("estimators.utils.ordinal").symbolize_series
    x, n, step, m, q, w = window(S, dim)
    pi = ordering(S, w, dim, k)
    pat = f(x, dim, step)
    S.shape("one pattern per window", pat, m, dim)
    for p in range(dim):
        S.eq("pattern of the window", S.at(pat, q, p), pi[p])
    code = f(x, dim, step, to_int=True)
    S.shape("one code per window", code, m)
    S.eq("code of the window", S.at(code, q), lehmer(pi))
    st = f(x, dim, step, to_int=True, stable=True)
    S.eq("stable sorting does not matter without ties", S.at(st, q), lehmer(pi))


@scenario("P14", grid=dict(dim=[5, 6, 7, 9, 13]), conc=20, sym=False)
def windows_large(S, dim):
    f = S.mod("estimators.utils.ordinal").symbolize_series
    x, n, step, m, q, w = window(S, dim)
    pi = ordering(S, w, dim, 0)
    pat = f(x, dim, step)
    S.shape("one pattern per window", pat, m, dim)
    for p in range(dim):
        S.eq("pattern of the window", S.at(pat, q, p), pi[p])
    S.eq("code of the window", int(f(x, dim, step, to_int=True)[q]), lehmer(pi), tol=0)


@scenario("P14", grid=dict(dim=list(range(1, 21)), stable=[False, True]), conc=3)
def code_of_pattern(S, dim, stable):
    """every dimension the codes exist for: the code is the Lehmer code of the pattern, without overflow of the chosen integer type"""
    f = S.mod("estimators.utils.ordinal").symbolize_series
    x, n, step, m, q, w = window(S, dim)
    pat = f(x, dim, step, stable=stable)
    code = f(x, dim, step, to_int=True, stable=stable)
    S.shape("one code per window", code, m)
    c = sum((math.factorial(dim - 1 - i) * S.ind(S.at(pat, q, i) > S.at(pat, q, j)) for i in range(dim) for j in range(i + 1, dim)), 0)
    S.eq("code of the pattern", S.at(code, q), c, tol=1e-15)


@scenario("P14", conc=1)
def codes(S):
    """the Lehmer code numbers the orderings 0 .. dim!-1 without repetition"""
    f = S.mod("estimators.utils.ordinal").permutation_to_integer
    for dim in (1, 2, 3, 4, 5):
        seen = set()
        for p in itertools.permutations(range(dim)):
            c = int(S.value(f(S.np.array(p))))
            S.check("code is the Lehmer code", c == lehmer(p))
            S.check("code in range", 0 <= c < math.factorial(dim))
            seen.add(c)
        S.check("different orderings have different codes", len(seen) == math.factorial(dim))


@scenario("P14", conc=20, sym=False)
def codes_large(S):
    f = S.mod("estimators.utils.ordinal").permutation_to_integer
    dim = S.choice("dim", [6, 7, 8, 10, 12, 13, 15, 19, 20])
    p = S.rng(S.int("s", 0, typ=(0, 10**6))).permutation(dim)
    S.check("code is the Lehmer code", int(f(p)) == lehmer([int(v) for v in p]))
    S.check("code of the descending pattern", int(f(p[::-1] * 0 + S.np.arange(dim)[::-1])) == math.factorial(dim) - 1)


@scenario("P14", grid=dict(dim=[2, 3, 5]), conc=10, sym=False)
def stable_ties(S, dim):
    """with stable sorting equal values keep their order of appearance, in windows of any size"""
    f = S.mod("estimators.utils.ordinal").symbolize_series
    n = S.int("n", 60, typ=(60, 90))
    x = S.np.array([float(v) for v in S.labels("x", n, card=3)])
    for d in (dim, dim + 17):
        q = S.index("q", n - d + 1)
        S.same("stable order", f(x, d, 1, stable=True)[q], S.np.array(sorted(range(d), key=lambda j: x[q + j])))


@scenario("P14", conc=20)
def rejects(S):
    o = S.mod("estimators.utils.ordinal")
    n = S.int("n", 2, typ=(2, 30))
    x = S.series("x", n)
    d = S.int("d", None, 0, typ=(-3, 0))
    S.raises("dimension below one", ValueError, lambda: o.symbolize_series(x, d))
    S.raises("step below one", ValueError, lambda: o.symbolize_series(x, 2, d))
    big = S.int("big", 21, typ=(21, 30))
    S.raises("dimension too large for the codes", ValueError, lambda: o.permutation_to_integer(S.arr(big, lambda i: i, kind="i")))
    h = lambda **k: S.im.estimator(x, measure="h", approach="ordinal", **k)
    S.raises("window longer than the series", ValueError, lambda: h(embedding_dim=n + 1))
    s = S.int("s", 1, typ=(1, 30))
    S.assume(2 * s + 1 > n)
    S.raises("window longer than the series", ValueError, lambda: h(embedding_dim=3, step_size=s))
    S.raises("negative dimension", ValueError, lambda: h(embedding_dim=-1))
    S.raises("fractional dimension", ValueError, lambda: h(embedding_dim=2.5))
    S.raises("step size zero", ValueError, lambda: h(embedding_dim=2, step_size=0))
    S.raises("fractional step size", ValueError, lambda: h(embedding_dim=2, step_size=1.5))
    S.raises("two-dimensional data", TypeError, lambda: S.im.estimator(S.points("p", n, 2), measure="h", approach="ordinal", embedding_dim=2))


def lt(S, x, i, a, b, step):
    return S.ind(S.at(x, i + a * step) < S.at(x, i + b * step))


def okey(S, x, dim, step):
    """the ordering of the window starting at i, as the outcome of every pairwise comparison"""
    return lambda i: tuple(lt(S, x, i, a, b, step) for a, b in itertools.combinations(range(dim), 2))


@scenario("P14", grid=dict(dim=[2, 3, 4], unit_step=[True, False]), conc=12, sym=lambda dim, unit_step: not (unit_step and dim < 4))
def entropy(S, dim, unit_step):
    """entropy and local values of the patterns: the plug-in entropy over the orderings of the windows"""
    step = 1 if unit_step else S.int("step", 2 if dim < 4 else 1, typ=(2 if dim < 4 else 1, 3))
    n = S.int("n", 2, typ=(2, 40))
    S.assume(n > (dim - 1) * step + 1)
    x = S.series("x", n)
    m = n - (dim - 1) * step
    key = okey(S, x, dim, step)
    if S.sym and not (unit_step and dim < 4):
        key = S.pattern_contract()(x, dim, step)
    e = S.im.estimator(x, measure="h", approach="ordinal", embedding_dim=dim, step_size=step)
    S.eq("entropy", e.global_val(), H(S, m, key))
    l = e.local_vals()
    S.eq("one local value per window", S.len(l), m)
    q = S.index("q", m)
    S.eq("local value", S.at(l, q), Hloc(S, m, key)(q))


@scenario("P14", grid=dict(dim=[2, 3, 4]), conc=8, sym=False)
def boundary(S, dim):
    """a single window: no uncertainty"""
    step = S.int("step", 1, typ=(1, 3))
    n = (dim - 1) * step + 1
    x = S.series("x", n)
    e = S.im.estimator(x, measure="h", approach="ordinal", embedding_dim=dim, step_size=step)
    S.eq("entropy", e.global_val(), 0)
    S.eq("one local value", S.len(e.local_vals()), 1)
    S.eq("local value", S.at(e.local_vals(), 0), 0)


@scenario("P14", conc=8)
def dimension_one(S):
    n = S.int("n", 1, typ=(1, 30))
    x = S.series("x", n)
    e = S.im.estimator(x, measure="h", approach="ordinal", embedding_dim=1)
    S.eq("entropy", e.global_val(), 0)
    S.eq("one local value per sample", S.len(e.local_vals()), n)
    q = S.index("q", n)
    S.eq("local value", S.at(e.local_vals(), q), 0)


# ------------------------------------------------------------ joint entropy, information measures: functions of the patterns
@scenario("P14", grid=dict(dim=[2, 3, 4]), conc=8)
def joint_entropy(S, dim):
    step = S.int("step", 1, typ=(1, 3))
    n = S.int("n", 2, typ=(8, 40))
    S.assume(n > (dim - 1) * step + 1)
    x, y = S.series("x", n), S.series("y", n)
    m = n - (dim - 1) * step
    kx, ky = patkeys(S, [x, y], dim, step, to_int=True)
    e = S.im.estimator((x, y), measure="h", approach="ordinal", embedding_dim=dim, step_size=step)
    S.eq("joint entropy", e.global_val(), H(S, m, cat(kx, ky)))
    l = e.local_vals()
    S.eq("one local value per window", S.len(l), m)
    q = S.index("q", m)
    S.eq("local value", S.at(l, q), Hloc(S, m, cat(kx, ky))(q))


def patkeys(S, xs, dim, step, to_int=False):
    if S.conc:
        return [okey(S, x, dim, step) for x in xs]
    pc = S.pattern_contract()
    return [pc(x, dim, step, to_int=to_int) for x in xs]


@scenario("P14", grid=dict(dim=[2, 3, 4], m=[2, 3], unit_step=[True, False]), conc=8)
def mutual_information(S, dim, m, unit_step):
    step = 1 if unit_step else S.int("step", 2, typ=(2, 3))
    n = S.int("n", 2, 2**31 - 1, typ=(8, 40))
    S.assume(n > (dim - 1) * step + 1)
    xs = [S.series(f"x{i}", n) for i in range(m)]
    w = n - (dim - 1) * step
    ks = patkeys(S, xs, dim, step)
    e = S.im.estimator(*xs, measure="mi", approach="ordinal", embedding_dim=dim, step_size=step)
    if m == 2:
        mi_nonneg(S, w, *ks)
    S.eq("mutual information", e.global_val(), MI(S, w, ks))
    l = e.local_vals()
    S.eq("one local value per window", S.len(l), w)
    q = S.index("q", w)
    S.eq("local value", S.at(l, q), MIloc(S, w, ks)(q))


@scenario("P14", grid=dict(dim=[2, 3, 4], m=[2, 3], unit_step=[True, False]), conc=8)
def conditional_mutual_information(S, dim, m, unit_step):
    step = 1 if unit_step else S.int("step", 2, typ=(2, 3))
    n = S.int("n", 2, 2**31 - 1, typ=(8, 40))
    S.assume(n > (dim - 1) * step + 1)
    xs = [S.series(f"x{i}", n) for i in range(m)]
    z = S.series("z", n)
    w = n - (dim - 1) * step
    ks = patkeys(S, xs + [z], dim, step)
    e = S.im.estimator(*xs, cond=z, measure="cmi", approach="ordinal", embedding_dim=dim, step_size=step)
    S.eq("conditional mutual information", e.global_val(), CMI(S, w, ks[:-1], ks[-1]))
    l = e.local_vals()
    S.eq("one local value per window", S.len(l), w)
    q = S.index("q", w)
    S.eq("local value", S.at(l, q), CMIloc(S, w, ks[:-1], ks[-1])(q))


# ------------------------------------------------------------ known finding: ties
@scenario("P14", grid=dict(dim=[2, 3]), conc=1, sym=False)
def ties(S, dim):
    """fixed series with equal neighbours: entropy and patterns must treat ties alike, also for the step size 1 shortcuts"""
    x = S.np.array([1.0, 1.0, 2.0, 1.0, 1.0, 3.0, 2.0, 2.0, 1.0, 4.0, 4.0, 1.0])
    f = S.mod("estimators.utils.ordinal").symbolize_series
    pat = f(x, dim, 1, stable=True)
    key = lambda i: tuple(int(v) for v in pat[int(i)])
    e = S.im.estimator(x, measure="h", approach="ordinal", embedding_dim=dim, stable=True)
    S.eq("entropy of tied data is that of its patterns", e.global_val(), H(S, len(x) - dim + 1, key))
