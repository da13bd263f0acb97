"""Class invariant of DiscreteData and the estimators built from a count table."""
from dv.dsl import scenario
from ._spec import *


def DD(S):
    return S.mod("utils.data").DiscreteData


def table_invariant(S, d, k, N):
    """one count per label, counts sum to N, the probabilities are count/N"""
    S.shape("labels", d.uniq, k)
    S.shape("counts", d.counts, k)
    S.eq("K", d.K, k)
    S.eq("N", d.N, N)
    S.eq("the counts sum to N", S.sum(k, lambda j: S.at(d.counts, j)), N)
    p = d.probabilities
    S.shape("one probability per label", p, k)
    j = S.index("j", k)
    S.eq("probabilities are relative counts", S.at(p, j), S.div(S.at(d.counts, j), N))
    S.eq("probabilities sum to 1", S.sum(k, lambda j: S.at(p, j)), 1)


@scenario("P23", conc=30)
def from_data(S):
    n = S.int("n", 1, typ=(1, 40))
    x = S.labels("x", n)
    d = DD(S).from_data(x)
    table_invariant(S, d, K(S, n, one(S, x)), n)
    j, i = S.index("j", d.K), S.index("i", n)
    S.check("every count is positive", S.truth(S.at(d.counts, j) >= 1))
    S.eq("a label's count is the number of its occurrences", S.at(d.counts, j), S.count(n, lambda i: S.eqv(S.at(x, i), S.at(d.uniq, j))))
    S.eq("labels are distinct", S.count(d.K, lambda j2: S.eqv(S.at(d.uniq, j), S.at(d.uniq, j2))), 1)
    S.eq("every sample's label is listed once", S.count(d.K, lambda j: S.eqv(S.at(d.uniq, j), S.at(x, i))), 1)
    S.same("the data are kept", d.data, x)


@scenario("P23", conc=30)
def from_counts(S):
    k = S.int("k", 1, typ=(1, 20))
    u, c = S.labels("u", k), S.counts_array("c", k, 0)
    S.assume(S.sum(k, lambda j: S.at(c, j)) > 0)
    d = DD(S).from_counts(u, c)
    table_invariant(S, d, k, S.sum(k, lambda j: S.at(c, j)))
    S.same("labels are kept", d.uniq, u)
    S.same("counts are kept", d.counts, c)
    S.check("no data", d.data is None)


@scenario("P23", conc=20)
def rejects_negative(S):
    k = S.int("k", 1, typ=(1, 20))
    u, c = S.labels("u", k), S.counts_array("c", k)
    S.assume(S.sum(k, lambda j: S.ind(S.at(c, j) < 0)) > 0)
    S.raises("a negative count", ValueError, lambda: DD(S).from_counts(u, c))


@scenario("P23", conc=20)
def rejects_zero_sum(S):
    k = S.int("k", 0, typ=(0, 20))
    u, c = S.labels("u", k), S.counts_array("c", k, 0, 0)
    S.raises("no observations", ValueError, lambda: DD(S).from_counts(u, c))


@scenario("P23", conc=20)
def rejects_lengths(S):
    k, m = S.int("k", 1, typ=(1, 20)), S.int("m", 1, typ=(1, 20))
    S.assume(S.not_(S.eqv(k, m)))
    u, c = S.labels("u", k), S.counts_array("c", m, 1)
    S.raises("one count per label", ValueError, lambda: DD(S).from_counts(u, c))
    S.raises("one count per label", ValueError, lambda: DD(S)(uniq=u, counts=c))


@scenario("P23", conc=20)
def rejects_inconsistent_data(S):
    k, n = S.int("k", 1, typ=(1, 20)), S.int("n", 0, typ=(0, 60))
    u, c, x = S.labels("u", k), S.counts_array("c", k, 0), S.labels("x", n)
    S.assume(S.not_(S.eqv(S.sum(k, lambda j: S.at(c, j)), n)))
    S.raises("counts must sum to the number of samples", ValueError, lambda: DD(S)(uniq=u, counts=c, data=x))


@scenario("P23", conc=20)
def rejects_fractions(S):
    k = S.int("k", 1, typ=(1, 20))
    u, c = S.labels("u", k), S.series("c", k)
    S.assume(S.all(k, lambda j: S.at(c, j) > 0))
    S.raises("counts are integers", ValueError, lambda: DD(S).from_counts(u, c))


@scenario("P23", conc=3)
def rejects_empty(S):
    S.raises("no data", ValueError, lambda: DD(S).from_data(S.labels("x", 0)))
    S.raises("no data", ValueError, lambda: DD(S).from_data([]))


@scenario("P23", conc=20)
def distribution(S):
    n = S.int("n", 1, typ=(1, 40))
    x = S.labels("x", n)
    dist = DD(S).from_data(x).distribution_dict
    i = S.index("i", n)
    S.eq("relative frequency of a sample's label", dist[S.at(x, i)], S.div(counts(S, n, one(S, x))(i), n))


APP = ["discrete", "miller_madow", "grassberger", "bonachela", "ansb", "bayes", "chao_shen", "chao_wang_jost", "shrink", "zhang"]


def cls_of(S, a):
    return S.im.get_estimator_class("entropy", a)


@scenario("P23", grid=dict(a=["discrete", "miller_madow", "bayes"]), conc=15)
def estimator_of_counts(S, a):
    """an estimator built from a table is the entropy formula of its counts"""
    k = S.int("k", 1, typ=(1, 20))
    u, c = S.labels("u", k), S.counts_array("c", k, 1)
    b = S.base()
    N = S.sum(k, lambda j: S.at(c, j))
    al = S.real("alpha", 0, typ=(0.1, 2.0)) if a == "bayes" else 0
    kw = dict(alpha=al) if a == "bayes" else {}
    w = lambda j: S.div(S.at(c, j) + al, N + k * al)
    h = S.sum(k, lambda j: -w(j) * S.log(w(j)))
    if a == "miller_madow":
        h = h + S.div(k - 1, 2 * N)
    S.eq("entropy of the counts", cls_of(S, a).from_counts(u, c, base=b, **kw).global_val(), S.div(h, S.unit(b)))


@scenario("P23", grid=dict(a=[a for a in APP if a != "grassberger"]), conc=15, sym=False)
def estimator_of_counts_and_data(S, a):
    k = S.int("k", 2, typ=(2, 20))
    c = S.counts_array("c", k, 1)
    if a in ("bonachela", "ansb", "chao_shen", "chao_wang_jost", "zhang", "shrink"):
        c[0] += 2
        c[-1] = c[0]
    b = S.base()
    kw = dict(alpha=0.5) if a == "bayes" else {}
    u = S.np.arange(k)
    S.eq("the table and the data it counts have the same entropy", cls_of(S, a).from_counts(u, c, base=b, **kw).global_val(),
         S.im.entropy(S.np.repeat(u, c), approach=a, base=b, **kw))


@scenario("P23", conc=1, sym=False)
def grassberger_of_counts(S):
    u, c = S.np.array([1, 2, 3]), S.np.array([2, 1, 4])
    try:
        v = cls_of(S, "grassberger").from_counts(u, c).global_val()
    except TypeError:
        v = S.np.nan
    S.eq("Grassberger entropy of a count table", v, S.im.entropy(S.np.repeat(u, c), approach="grassberger"))


@scenario("P23", conc=1, sym=False)
def of_probabilities(S):
    try:
        v = cls_of(S, "discrete").from_probabilities(S.np.array([1, 2]), S.np.array([0.5, 0.5])).global_val()
    except AttributeError:
        v = S.np.nan
    S.eq("entropy of a probability table", v, S.log(2))
