import inspect
from dv.dsl import scenario
from ._spec import *

CLS = {"ansb": ("ansb", "Ansb"), "bayes": ("bayes", "Bayes"), "bonachela": ("bonachela", "Bonachela"), "chao_shen": ("chao_shen", "ChaoShen"),
       "chao_wang_jost": ("chao_wang_jost", "ChaoWangJost"), "discrete": ("discrete", "Discrete"), "grassberger": ("grassberger", "Grassberger"),
       "kernel": ("kernel", "Kernel"), "miller_madow": ("miller_madow", "MillerMadow"), "nsb": ("nsb", "Nsb"), "ordinal": ("ordinal", "Ordinal"),
       "renyi": ("renyi", "Renyi"), "shrink": ("shrink", "Shrink"), "tsallis": ("tsallis", "Tsallis"), "zhang": ("zhang", "Zhang")}
H_NAMES = dict({k: k for k in CLS}, cs="chao_shen", cwj="chao_wang_jost", metric="kl", kl="kl", mm="miller_madow", js="shrink", symbolic="ordinal", permutation="ordinal")
I_NAMES = dict({k: k for k in CLS}, metric="ksg", ksg="ksg", mm="miller_madow", symbolic="ordinal", permutation="ordinal")
KL, KSG = ("kozachenko_leonenko", "KozachenkoLeonenko"), ("kraskov_stoegbauer_grassberger", "KSG")
PKG = {"h": "entropy", "hx": "entropy", "mi": "mutual_information", "cmi": "mutual_information", "te": "transfer_entropy", "cte": "transfer_entropy"}
SUFFIX = {"h": "EntropyEstimator", "hx": "EntropyEstimator", "mi": "MIEstimator", "cmi": "CMIEstimator", "te": "TEEstimator", "cte": "CTEEstimator"}
LONG = {"h": "entropy", "hx": "cross_entropy", "mi": "mutual_information", "cmi": "conditional_mutual_information", "te": "transfer_entropy",
        "cte": "conditional_transfer_entropy"}
ALL = [(m, a) for m in SUFFIX for a in (H_NAMES if m in ("h", "hx") else I_NAMES)]


def te_args(S, measure):
    """the values themselves do not matter here: any integers"""
    d = {k: S.int(k, typ=(-9, 9)) for k in ("prop_time", "src_hist_len", "dest_hist_len", "step_size")}
    return dict(d, base=2, **({"cond_hist_len": S.int("cond_hist_len", typ=(-9, 9))} if measure == "cte" else {}))


def cls_of(S, measure, approach):
    c = (H_NAMES if measure in ("h", "hx") else I_NAMES)[approach]
    mod, pre = {"kl": KL, "ksg": KSG}.get(c) or CLS[c]
    return getattr(S.mod(f"estimators.{PKG[measure]}.{mod}"), pre + SUFFIX[measure])


class Recorder:
    """replaces constructor and result of the selected class by a recording contract"""

    def __init__(self, cls, value):
        self.cls, self.calls, self.value, self.results = cls, [], value, []
        self.saved = [(n, cls.__dict__.get(n)) for n in ("__init__", "result", "global_val")]
        self.sig = inspect.signature(cls.__init__)
        rec = self

        def init(obj, *data, **kw):
            rec.calls.append((type(obj), data, kw))

        def result(obj):
            rec.results.append(obj)
            return rec.value
        cls.__init__, cls.result, cls.global_val = init, result, result

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for n, v in self.saved:
            if v is None:
                delattr(self.cls, n)
            else:
                setattr(self.cls, n, v)

    def expect(self, S, data, kw):
        S.eq("exactly one estimator is constructed", len(self.calls), 1)
        c, d, k = self.calls[0]
        S.check("the documented class", c is self.cls, f"{c}")
        S.eq("number of positional arguments", len(d), len(data))
        for x, y in zip(d, data):
            if isinstance(y, tuple):
                S.check("joint variables stay a tuple", isinstance(x, tuple) and len(x) == len(y))
                for u, v in zip(x, y):
                    S.same("variable passed unchanged", u, v)
            else:
                S.same("variable passed unchanged", x, y)
        if "cond" in kw:
            S.check("condition passed", k.get("cond") is not None)
            S.same("condition passed unchanged", k["cond"], kw["cond"])
            k, kw = {x: v for x, v in k.items() if x != "cond"}, {x: v for x, v in kw.items() if x != "cond"}
        df = {n: p.default for n, p in self.sig.parameters.items() if p.default is not inspect.Parameter.empty}
        if k.get("cond", 0) is None:
            k = {x: v for x, v in k.items() if x != "cond"}
        for n in sorted(set(kw) | set(k)):
            if n in kw:
                want = kw[n]
            else:
                S.check(f"no additional argument: {n}", n in df, f"{n}={k[n]}")
                want = df[n]
            if n in k:
                got = k[n]
            else:
                S.check(f"argument {n} passed", n in df)
                got = df[n]
            S.eq(f"argument {n}", got, want)


def inputs(S, measure, n):
    xs = [S.labels("x", n), S.labels("y", n)]
    z = S.labels("z", n)
    return (xs[:1] if measure == "h" else xs), z


@scenario("P17", grid=dict(ma=[f"{m}:{a}" for m, a in ALL]), conc=1)
def functional(S, ma):
    """im.<measure>(...) and its short name construct the documented class with the given arguments and return its result"""
    measure, a = ma.split(":")
    n = S.int("n", 3, typ=(3, 9))
    data, z = inputs(S, measure, n)
    v = S.real("value")
    base = S.real("b", 1, typ=(1.5, 9.0))
    for fname in (measure, LONG[measure]):
        for kw in ({}, {"base": base}, {"some_option": S.int("opt"), "other": "text", "third": None}):
            for name in (a, a.upper()):
                with Recorder(cls_of(S, measure, a), v) as rec:
                    if measure in ("cmi", "cte"):
                        kw = dict(kw, cond=z)
                    r = getattr(S.im, fname)(*data, approach=name, **kw)
                    S.eq("value of the estimator", r, v)
                    rec.expect(S, data, kw)
    if measure == "h":
        with Recorder(cls_of(S, measure, a), v) as rec:
            S.eq("value of the estimator", S.im.entropy((data[0], z), approach=a), v)
            rec.expect(S, [(data[0], z)], {})
    if measure in ("cmi", "cte"):
        # mutual_information / transfer_entropy with a condition are the conditional measures
        with Recorder(cls_of(S, measure, a), v) as rec:
            S.eq("value of the estimator", getattr(S.im, LONG[measure][12:])(*data, approach=a, cond=z, opt=1), v)
            rec.expect(S, data, dict(cond=z, opt=1))
    if measure in ("mi", "te"):
        with Recorder(cls_of(S, measure, a), v) as rec:
            S.eq("value of the estimator", getattr(S.im, measure)(*data, approach=a, cond=None), v)
            rec.expect(S, data, {})
    if measure in ("mi", "cmi"):
        more = data + [S.labels("w", n)]
        kw = dict(cond=z) if measure == "cmi" else {}
        with Recorder(cls_of(S, measure, a), v) as rec:
            getattr(S.im, measure)(*more, approach=a, **kw)
            rec.expect(S, more, kw)


@scenario("P17", grid=dict(ma=[f"{m}:{a}" for m, a in ALL]), conc=1)
def estimator(S, ma):
    """im.estimator(...) constructs the documented class with the given arguments"""
    measure, a = ma.split(":")
    n = S.int("n", 3, typ=(3, 9))
    data, z = inputs(S, measure, n)
    long = LONG[measure]
    cls = cls_of(S, measure, a)
    extra = [{}, {"some_option": S.int("opt"), "base": 3}]
    if measure in ("te", "cte"):
        extra.append(te_args(S, measure))
    if a in ("ordinal", "symbolic", "permutation"):
        extra.append(dict(step_size=S.int("step", typ=(-2, 5)), embedding_dim=3))
    for mname in (measure, measure.upper(), long, long.replace("_", " "), long.replace("_", "-").title()):
        for kw in extra:
            if measure in ("cmi", "cte"):
                kw = dict(kw, cond=z)
            with Recorder(cls, 0) as rec:
                e = S.im.estimator(*data, measure=mname, approach=a, **kw)
                S.check("an instance of the documented class", type(e) is cls, f"{type(e)}")
                rec.expect(S, data, kw)
                S.eq("nothing is computed yet", len(rec.results), 0)
    if measure in ("cmi", "cte"):
        with Recorder(cls, 0) as rec:
            e = S.im.estimator(*data, measure=measure[1:], approach=a, cond=z)
            S.check("the condition selects the conditional class", type(e) is cls, f"{type(e)}")
            rec.expect(S, data, dict(cond=z))
    if measure == "mi":
        hname = {"ksg": "kl"}.get(a, a)
        with Recorder(cls_of(S, "h", hname), 0) as rec:
            S.im.estimator(data[0], measure="mi", approach=a, opt=1)
            rec.expect(S, data[:1], dict(opt=1))
    if measure != "hx":
        S.check("get_estimator_class", S.im.get_estimator_class(measure=measure, approach=a) is cls)
        S.check("get_estimator_class by long name", S.im.get_estimator_class(measure=long, approach=a) is cls)


@scenario("P17", grid=dict(measure=list(SUFFIX)), conc=6)
def rejects(S, measure):
    n = S.int("n", 3, typ=(3, 9))
    data, z = inputs(S, measure, n)
    f = getattr(S.im, measure)
    c = dict(cond=z) if measure in ("cmi", "cte") else {}
    long = LONG[measure]
    bad = ["", "discret", "unknown", None, "kl " if measure[0] == "h" else "kl"]
    if measure not in ("h", "hx"):
        bad += ["cs", "cwj", "js"]
    for a in bad:
        S.raises(f"unknown approach {a!r}", ValueError, lambda: f(*data, approach=a, **c))
        S.raises(f"unknown approach {a!r}", ValueError, lambda: S.im.estimator(*data, measure=measure, approach=a, **c))
    S.raises("missing approach", (ValueError, TypeError), lambda: f(*data, **c))
    S.raises("missing approach", ValueError, lambda: S.im.estimator(*data, measure=measure, **c))
    S.raises("missing measure", ValueError, lambda: S.im.estimator(*data, approach="discrete", **c))
    for m in ("entrop", "", "mutual information x", "tee", "jsd"):
        S.raises("unknown measure", ValueError, lambda: S.im.estimator(*data, measure=m, approach="discrete", **c))
        S.raises("unknown measure", ValueError, lambda: S.im.get_estimator_class(measure=m, approach="discrete"))
    S.raises("missing measure", ValueError, lambda: S.im.get_estimator_class(approach="discrete"))
    if measure in ("cmi", "cte"):
        S.raises("missing condition", ValueError, lambda: f(*data, approach="discrete"))
        S.raises("missing condition", ValueError, lambda: f(*data, approach="discrete", cond=None))
        S.raises("missing condition", ValueError, lambda: S.im.estimator(*data, measure=long, approach="discrete"))
    if measure in ("h", "hx"):
        S.raises("condition for an entropy", ValueError, lambda: S.im.estimator(*data, measure=measure, approach="discrete", cond=z))
        S.raises("three distributions", ValueError, lambda: S.im.estimator(z, z, z, measure=measure, approach="discrete"))
    if measure == "hx":
        S.raises("one distribution", ValueError, lambda: f(data[0], approach="discrete"))
        S.raises("one distribution", ValueError, lambda: S.im.estimator(data[0], measure=measure, approach="discrete"))
    if measure in ("mi", "cmi", "te", "cte"):
        S.raises("one variable", ValueError, lambda: f(data[0], approach="discrete", **c))
        S.raises("no variable", ValueError, lambda: S.im.estimator(measure=measure, approach="discrete", **c))
    if measure in ("te", "cte"):
        S.raises("three variables", ValueError, lambda: f(*data, z, approach="discrete", **c))
        S.raises("three variables", ValueError, lambda: S.im.estimator(*data, z, measure=measure, approach="discrete", **c))
    if measure == "h":
        S.raises("no data", ValueError, lambda: S.im.estimator(measure="h", approach="discrete"))
