from dv.dsl import scenario
from ._spec import *


@scenario("P01", grid=dict(kind=["1d", "col", "rows2", "rows3", "joint2", "joint3", "joint_mixed"]), conc=25)
def plugin_entropy(S, kind):
    """entropy(approach=discrete) is -sum p log p over the empirical distribution, for labels, rows and joint variables"""
    n = S.int("n", 1, typ=(1, 40))
    base = S.base(inline=True)
    data, key = make(S, kind, n)
    est = S.im.estimator(data, measure="entropy", approach="discrete", base=base)
    S.eq("global value is the plug-in entropy", est.global_val(), H(S, n, key) / S.unit(base))
    S.eq("entropy() agrees", S.im.entropy(data, approach="discrete", base=base), H(S, n, key) / S.unit(base))
    loc = est.local_vals()
    S.shape("one local value per sample", loc, n)
    q = S.index("q", n)
    S.eq("local value is -log p(x_i)", S.at(loc, q), Hloc(S, n, key)(q) / S.unit(base))
    S.eq("result() equals global_val()", est.result(), est.global_val())


def make(S, kind, n):
    if kind == "1d":
        x = S.labels("x", n)
        return x, lambda i: (S.at(x, i),)
    if kind == "col":
        x = S.label_rows("x", n, 1)
        return x, lambda i: (S.at(x, i, 0),)
    if kind in ("rows2", "rows3"):
        d = int(kind[-1])
        x = S.label_rows("x", n, d)
        return x, lambda i: tuple(S.at(x, i, j) for j in range(d))
    if kind in ("joint2", "joint3"):
        xs = [S.labels(f"x{k}", n) for k in range(int(kind[-1]))]
        return tuple(xs), lambda i: tuple(S.at(x, i) for x in xs)
    if kind == "joint_mixed":
        x = S.labels("x", n)
        y = S.label_rows("y", n, 2)
        return (x, y), lambda i: (S.at(x, i), S.at(y, i, 0), S.at(y, i, 1))
