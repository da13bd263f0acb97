"""Every approach of every measure, with valid inputs: used by the properties that quantify over the whole API."""
from ._spec import *

H_APP = ["ansb", "bayes", "bonachela", "chao_shen", "chao_wang_jost", "discrete", "grassberger", "kernel_box", "kernel_gaussian", "kl",
         "miller_madow", "nsb", "ordinal", "renyi", "renyi1", "shrink", "tsallis", "tsallis1", "zhang"]
I_APP = [("ksg" if a == "kl" else a) for a in H_APP]
HX_APP = ["bayes", "discrete", "kernel_box", "kernel_gaussian", "kl", "miller_madow", "ordinal", "renyi", "renyi1", "tsallis", "tsallis1"]
DISC = {"ansb", "bayes", "bonachela", "chao_shen", "chao_wang_jost", "discrete", "grassberger", "miller_madow", "nsb", "shrink", "zhang"}
MEASURES = ["h", "mi", "cmi", "te", "cte"]
LOCALS = {"discrete", "grassberger", "kernel_box", "kernel_gaussian", "kl", "ksg", "miller_madow", "ordinal", "zhang"}


def name_of(a):
    return {"kernel_box": "kernel", "kernel_gaussian": "kernel", "renyi1": "renyi", "tsallis1": "tsallis"}.get(a, a)


def params(S, a, measure="h"):
    """valid keyword arguments of the approach"""
    ch = lambda name, opts, sym: S.choice(name, opts) if S.conc else sym
    nz = {} if measure in ("h", "hx") else dict(noise_level=0)
    if a == "bayes":
        return dict(alpha=ch("alpha", [0.5, 1.0, 2, "jeffrey", "laplace", "sch-grass", "min-max"], 0.5))
    if a in ("kernel_box", "kernel_gaussian"):
        return dict(kernel=a.split("_")[1], bandwidth=S.real("h", 0, typ=(0.4, 2.0)))
    if a in ("kl", "ksg"):
        r = dict(k=ch("k", [1, 2, 4], 2), noise_level=0)
        if measure not in ("h", "hx"):
            r["ksg_id"] = ch("ksg", [1, 2], 1)
        return r
    if a in ("renyi", "renyi1"):
        return dict(alpha=1 if a == "renyi1" else ch("order", [0.6, 1.4, 2, 3], 1.4), k=4, **nz)
    if a in ("tsallis", "tsallis1"):
        return dict(q=1 if a == "tsallis1" else ch("order", [0.6, 1.4, 2, 3], 1.4), k=4, **nz)
    if a == "ordinal":
        return dict(embedding_dim=ch("dim", [2, 3, 4], 3))
    return {}


def variable(S, a, name, n, d=0, card=None):
    if a in DISC:
        if a == "nsb":
            card = 3
        kw = dict(card=card) if card else {}
        return S.labels(name, n, **kw) if d == 0 else S.label_rows(name, n, d, **kw)
    return S.series(name, n) if d == 0 else S.points(name, n, d)


def nvars(measure):
    return {"h": 1, "hx": 2, "mi": 2, "cmi": 3, "te": 2, "cte": 3}[measure]


def size(S, a, measure):
    if a == "nsb":
        return S.int("n", 10, 16, typ=(10, 16))
    return S.int("n", 12, 2**31 - 1, typ=(12, 36))


def data(S, a, measure, n, d=0):
    return [variable(S, a, nm, n, d if i == 0 and measure in ("h", "mi", "cmi") else 0) for i, nm in enumerate("xyz"[:nvars(measure)])]


def construct(S, a, measure, vs, base, ps, **kw):
    k = dict(ps, **kw)
    if measure in ("cmi", "cte"):
        k["cond"] = vs[2]
        vs = vs[:2]
    if base is not None:
        k["base"] = base
    return S.im.estimator(*vs, measure=measure, approach=name_of(a), **k)


def gibbs(S, a, measure, n, vs):
    """two-variable discrete information is clipped at zero by some code paths; the plug-in value is never negative (Gibbs)"""
    if a in ("discrete", "miller_madow") and measure == "mi":
        mi_nonneg(S, n, *[lambda i, v=v: (S.at(v, i),) for v in vs])


def slow(a):
    return a == "nsb"
