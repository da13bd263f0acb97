from dv.dsl import scenario
from ._spec import *


def rjs(S):
    return S.mod("estimators.utils.ordinal").reduce_joint_space


def bijection(S, n, code, key):
    S.shape("one code per sample", code, n)
    i, j = S.index("i", n), S.index("j", n)
    S.check("equal codes exactly for equal rows", S.truth(S.eqv(S.at(code, i), S.at(code, j))) == S.truth(keyeq(S, key(i), key(j))))


@scenario("P15", grid=dict(d=[1, 2, 3, 4]), conc=25)
def rows(S, d):
    n = S.int("n", 1, typ=(1, 30))
    x = S.label_rows("x", n, d)
    bijection(S, n, rjs(S)(x), lambda i: tuple(S.at(x, i, j) for j in range(d)))


@scenario("P15", conc=20)
def one_dimensional(S):
    n = S.int("n", 1, typ=(1, 30))
    x = S.labels("x", n)
    c = rjs(S)(x)
    bijection(S, n, c, lambda i: (S.at(x, i),))
    S.same("labels stay as they are", c, x)


@scenario("P15", grid=dict(shape=[(0,), (0, 0), (0, 0, 0), (2,), (0, 2), (2, 0), (2, 3), (0, 1, 2), (0, 0, 0, 0)], gen=[False, True]), conc=12)
def tuples(S, shape, gen):
    """tuples and generators of 1-D (0) and 2-D (number of columns) arrays"""
    n = S.int("n", 1, typ=(1, 30))
    xs = [S.labels(f"x{k}", n) if d == 0 else S.label_rows(f"x{k}", n, d) for k, d in enumerate(shape)]
    key = lambda i: sum((((S.at(x, i),) if d == 0 else tuple(S.at(x, i, j) for j in range(d))) for x, d in zip(xs, shape)), ())
    arg = (x for x in xs) if gen else tuple(xs)
    bijection(S, n, rjs(S)(arg), key)


@scenario("P15", grid=dict(kind=["float", "str", "bool", "mixed_len_str"]), conc=15, sym=False)
def other_labels(S, kind):
    n = S.int("n", 1, typ=(1, 30))
    x = S.label_rows("x", n, 2)
    a = S.np.array(x)
    m = {"float": lambda v: float(v) / 7, "str": lambda v: f"s{v}", "bool": lambda v: int(v) % 2 == 0, "mixed_len_str": lambda v: "a" * (int(v) % 5 + 1)}[kind]
    y = S.np.array([[m(v) for v in r] for r in a])
    bijection(S, n, rjs(S)(y), lambda i: tuple(y[int(i)]))
    bijection(S, n, rjs(S)((y[:, 0], y[:, 1])), lambda i: tuple(y[int(i)]))


@scenario("P15", conc=10)
def rejects(S):
    n = S.int("n", 1, typ=(1, 10))
    x = S.labels("x", n)
    S.raises("a list", ValueError, lambda: rjs(S)([x, x]))
    S.raises("a list of numbers", ValueError, lambda: rjs(S)([1, 2, 3]))


@scenario("P15", conc=10, sym=False)
def rejects_3d(S):
    n = S.int("n", 1, typ=(1, 10))
    S.raises("three dimensions", ValueError, lambda: rjs(S)(S.np.zeros((n, 2, 2))))


@scenario("P15", grid=dict(d=[2, 3]), conc=15)
def entropy_of_codes(S, d):
    """nothing is lost: the entropy of the codes is the joint entropy of the rows"""
    n = S.int("n", 1, typ=(1, 30))
    x = S.label_rows("x", n, d)
    key = lambda i: tuple(S.at(x, i, j) for j in range(d))
    S.eq("entropy of the codes", S.im.entropy(rjs(S)(x), approach="discrete"), H(S, n, key))
    S.eq("joint entropy", S.im.entropy(tuple(x[:, j] for j in range(d)), approach="discrete"), H(S, n, key))
