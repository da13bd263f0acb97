from dv.dsl import scenario
from ._spec import *


def step_n(S, md_units, name="n", step=None):
    if step == "any":
        step = S.int("step", 2, 2**20, typ=(2, 4))
    elif step is None:
        step = S.int("step", 1, 2**20, typ=(1, 4))
    n = S.int(name, 1, 2**31 - 1, typ=(1 + md_units * 4, 40))
    S.assume(n > md_units * step)
    return step, n


HIST = [(1, 1), (2, 1), (1, 2), (2, 3), (3, 1)]


@scenario("P08", grid=dict(h=HIST, joint=[False, True]), conc=25)
def te_observations(S, h, joint):
    """rows of the observation matrices are exactly the documented time points, aligned across variables"""
    sh, dh = h
    step, n = step_n(S, max(h))
    x, y = S.series("x", n), S.series("y", n)
    sl = Slices(S, x, y, n, sh, dh, step)
    r = S.mod("estimators.utils.te_slicing").te_observations(x, y, src_hist_len=sh, dest_hist_len=dh, step_size=step, construct_joint_spaces=joint)
    k = S.index("k", sl.m)
    S.check("at least one observation", sl.m >= 1)
    s, d, f = sl.src(k), sl.dst(k), sl.fut(k)
    if joint:
        names, rows = ["joint", "dest past", "marginal 1", "marginal 2"], [s + d + f, d, s + d, d + f]
    else:
        names, rows = ["source history", "destination history", "destination future"], [s, d, f]
    S.check("number of arrays", len(r) == len(rows))
    for nm, a, row in zip(names, r, rows):
        S.shape(f"{nm}: shape", a, sl.m, len(row))
        for c, e in enumerate(row):
            S.eq(f"{nm}: entry is the documented sample", S.at(a, k, c), e)


@scenario("P08", grid=dict(h=[(1, 1, 1), (2, 1, 1), (1, 2, 3), (3, 2, 1), (1, 3, 2)], joint=[False, True]), conc=25)
def cte_observations(S, h, joint):
    sh, dh, zh = h
    step, n = step_n(S, max(h))
    x, y, z = S.series("x", n), S.series("y", n), S.series("z", n)
    sl = Slices(S, x, y, n, sh, dh, step, z, zh)
    r = S.mod("estimators.utils.te_slicing").cte_observations(x, y, z, src_hist_len=sh, dest_hist_len=dh, cond_hist_len=zh, step_size=step, construct_joint_spaces=joint)
    k = S.index("k", sl.m)
    s, d, f, c_ = sl.src(k), sl.dst(k), sl.fut(k), sl.cnd(k)
    if joint:
        names, rows = ["joint", "dest past and condition", "marginal 1", "marginal 2"], [s + d + f + c_, d + c_, s + d + c_, d + f + c_]
    else:
        names, rows = ["source history", "destination history", "destination future", "condition history"], [s, d, f, c_]
    S.check("number of arrays", len(r) == len(rows))
    for nm, a, row in zip(names, r, rows):
        S.shape(f"{nm}: shape", a, sl.m, len(row))
        for c, e in enumerate(row):
            S.eq(f"{nm}: entry is the documented sample", S.at(a, k, c), e)


@scenario("P08", grid=dict(h=[(1, 1), (2, 1)], d=[1, 2]), conc=15)
def te_observations_rows(S, h, d):
    """multi-dimensional series keep all their columns"""
    sh, dh = h
    step, n = step_n(S, max(h))
    x, y = S.points("x", n, d), S.points("y", n, d)
    md = max(h) * step
    m = S.idiv(n - md + step - 1, step)
    sr, dr, f = S.mod("estimators.utils.te_slicing").te_observations(x, y, src_hist_len=sh, dest_hist_len=dh, step_size=step, construct_joint_spaces=False)
    k = S.index("k", m)
    t = md + k * step
    S.shape("source history", sr, m, sh * d)
    S.shape("destination history", dr, m, dh * d)
    S.shape("destination future", f, m, d)
    for c in range(d):
        S.eq("future", S.at(f, k, c), S.at(y, t, c))
        for j in range(sh):
            S.eq("source", S.at(sr, k, j * d + c), S.at(x, t - (sh - j) * step, c))
        for j in range(dh):
            S.eq("destination", S.at(dr, k, j * d + c), S.at(y, t - (dh - j) * step, c))


@scenario("P08", grid=dict(which=["te", "cte"]), conc=25)
def too_long_history(S, which):
    """a history that does not fit in the data is refused"""
    step = S.int("step", 1, 2**20, typ=(1, 6))
    n = S.int("n", 1, 2**31 - 1, typ=(1, 12))
    S.assume(n <= 2 * step)
    x, y, z = S.series("x", n), S.series("y", n), S.series("z", n)
    te = S.mod("estimators.utils.te_slicing")
    if which == "te":
        S.raises("ValueError", ValueError, lambda: te.te_observations(x, y, src_hist_len=2, dest_hist_len=1, step_size=step))
    else:
        S.raises("ValueError", ValueError, lambda: te.cte_observations(x, y, z, src_hist_len=1, dest_hist_len=1, cond_hist_len=2, step_size=step))
