from dv.dsl import scenario
from ._spec import *

KEYS = ["base", "statistical_test_method", "statistical_test_n_tests"]
DEFAULT = {"base": "e", "statistical_test_method": "permutation_test", "statistical_test_n_tests": 200}
UNITS = {2: ["bits", "bit", "shannons", "shannon"], "e": ["nats", "nat", "nit", "nepit"], 10: ["hartleys", "hartley", "bans", "ban", "dits", "dit"]}
NAMES = {2: "bit/shannon", "e": "nat/nit/nepit", 10: "hartley/ban/dit"}


def state(S):
    """an arbitrary reachable state: every option holds an arbitrary valid value (proof: symbolic values)"""
    C = S.mod("utils.config").Config
    C.reset()
    b = S.grid_base
    vals = {"base": b, "statistical_test_method": S.grid_method, "statistical_test_n_tests": S.int("n_tests", typ=(-3, 500))}
    for k, v in vals.items():
        C.set(k, v)
    return C, vals


def bases(S, kind):
    return {"e": lambda: "e", "int": lambda: S.int("b", typ=(-2, 40)), "float": lambda: S.real("bf", typ=(0.1, 30.0))}[kind]()


def same_state(S, C, vals, but=()):
    for k in KEYS:
        if k not in but:
            S.eq(f"{k} keeps its value", C.get(k), vals[k])


def unit_of(S, b):
    for base, nm in NAMES.items():
        if not isinstance(b, str) and not isinstance(base, str):
            if S.truth(S.eqv(b, base)):
                return nm
        elif isinstance(b, str) and b == base:
            return nm
    return None


GRID = dict(bk=["e", "int", "float"], method=["permutation_test", "bootstrap"])


def run(S, bk, method, f):
    S.grid_base, S.grid_method = bases(S, bk), method
    try:
        C, vals = state(S)
        f(C, vals)
    finally:
        S.mod("utils.config").Config.reset()


@scenario("P16", grid=GRID, conc=10)
def set_and_get(S, bk, method):
    """one operation from an arbitrary state: exactly the addressed option changes"""
    def f(C, vals):
        same_state(S, C, vals)
        m2 = S.int("m2", typ=(1, 900))
        C.set("statistical_test_n_tests", m2)
        S.eq("set option is read back", C.get("statistical_test_n_tests"), m2)
        same_state(S, C, vals, ["statistical_test_n_tests"])
        vals["statistical_test_n_tests"] = m2
        for v in ("bootstrap", "permutation_test"):
            C.set("statistical_test_method", v)
            S.eq("set option is read back", C.get("statistical_test_method"), v)
            same_state(S, C, vals, ["statistical_test_method"])
        vals["statistical_test_method"] = v
        for kind in ("e", "int", "float"):
            b = bases(S, kind) if kind == "e" else (S.int("c", typ=(2, 30)) if kind == "int" else S.real("d", 0, typ=(1.5, 9.0)))
            C.set("base", b)
            S.eq("set option is read back", C.get("base"), b)
            same_state(S, C, vals, ["base"])
    run(S, bk, method, f)


@scenario("P16", grid=GRID, conc=6)
def rejected(S, bk, method):
    """invalid operations raise the documented exception and change nothing"""
    def f(C, vals):
        for key in ("bas", "", "statistical_test", "n_tests", "Base", None):
            S.raises("unknown option", KeyError, lambda: C.set(key, 2))
            S.raises("unknown option", KeyError, lambda: C.get(key))
            same_state(S, C, vals)
        bad = {"base": ["2", "E", "nats", None, [2], (2,)], "statistical_test_method": ["Bootstrap", "jackknife", "", None, 1, 2.0],
               "statistical_test_n_tests": ["200", 200.0, None, [1], 1.5]}
        for key, vs in bad.items():
            for v in vs:
                S.raises(f"invalid value for {key}", TypeError, lambda: C.set(key, v))
                same_state(S, C, vals)
        for u in ("bitt", "", "e", "2", "decibel", "nats "):
            S.raises("unknown unit", ValueError, lambda: C.set_logarithmic_unit(u))
            same_state(S, C, vals)
    run(S, bk, method, f)


@scenario("P16", grid=GRID, conc=6)
def reset(S, bk, method):
    def f(C, vals):
        C.reset()
        for k, v in DEFAULT.items():
            S.eq(f"default of {k}", C.get(k), v)
        # the defaults themselves are not touched by later settings
        C.set("statistical_test_n_tests", vals["statistical_test_n_tests"])
        C.set("base", 7)
        C.reset()
        for k, v in DEFAULT.items():
            S.eq(f"default of {k} again", C.get(k), v)
    run(S, bk, method, f)


@scenario("P16", grid=GRID, conc=6)
def units(S, bk, method):
    """unit names follow the base and the other way round"""
    def f(C, vals):
        nm = unit_of(S, vals["base"])
        if nm is None:
            S.check("unit of another base", C.get_logarithmic_unit().startswith("unknown (base"))
            S.raises("no description for another base", ValueError, C.get_logarithmic_unit_description)
        else:
            S.eq("unit of the base", C.get_logarithmic_unit(), nm)
            S.check("description of the base", len(C.get_logarithmic_unit_description()) > 10)
        same_state(S, C, vals)
        descr = set()
        for base, us in UNITS.items():
            for u in us:
                for w in (u, u.upper(), u.capitalize()):
                    C.set_logarithmic_unit(w)
                    S.eq("base of the unit", C.get("base"), base)
                    S.eq("name of the unit", C.get_logarithmic_unit(), NAMES[base])
                    same_state(S, C, vals, ["base"])
            descr.add(C.get_logarithmic_unit_description())
        S.eq("a description for every unit", len(descr), 3)
    run(S, bk, method, f)


@scenario("P16", grid=dict(method=["permutation_test", "bootstrap"], override=["none", "method", "n_tests"]), conc=8)
def used_by_tests(S, method, override):
    """a significance test without arguments uses the configured method and number of tests; explicit arguments win"""
    def f(C, vals):
        n = S.int("n", 12, 2**31 - 1, typ=(12, 30))
        x, y = S.labels("x", n), S.labels("y", n)
        mi_nonneg(S, n, one(S, x), one(S, y))
        k = 5 if S.conc else 2
        C.set("statistical_test_n_tests", k)
        e = S.im.estimator(x, y, measure="mi", approach="discrete")
        kw = {"none": {}, "method": dict(method="bootstrap"), "n_tests": dict(n_tests=3)}[override]
        t = e.statistical_test(**kw)
        S.eq("configured method", t.method, kw.get("method", method))
        S.eq("configured number of tests", t.n_tests, kw.get("n_tests", k))
        S.eq("one value per test", S.len(t.test_values), kw.get("n_tests", k))
        same_state(S, C, vals, ["statistical_test_n_tests"])
    run(S, "e", method, f)


@scenario("P16", conc=1, sym=False)
def default_base(S):
    """after set_logarithmic_unit('bits'), a call that does not name a base is in bits (fixed input)"""
    C = S.mod("utils.config").Config
    try:
        C.reset()
        C.set_logarithmic_unit("bits")
        S.eq("default base follows the configuration", S.im.entropy(S.np.array([0, 1, 0, 1]), approach="discrete"), 1.0)
    finally:
        C.reset()
