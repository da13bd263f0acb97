from dv.dsl import scenario
from ._spec import *
from .p08_slicing import step_n


@scenario("P09", grid=dict(approach=["discrete", "miller_madow"], h=[(1, 1), (2, 1), (1, 2), (2, 3)], step=[1, "any"]), conc=25)
def te(S, approach, h, step):
    """TE = I(dest future; source history | dest history) over the documented slices"""
    sh, dh = h
    step, n = step_n(S, max(h), step=step)
    base = S.base()
    x, y = S.labels("x", n), S.labels("y", n)
    sl = Slices(S, x, y, n, sh, dh, step)
    est = S.im.estimator(x, y, measure="te", approach=approach, base=base, src_hist_len=sh, dest_hist_len=dh, step_size=step)
    v = est.global_val()
    keys = [sl.fut, sl.src]
    corr = mm_cmi_corr(S, sl.m, keys, sl.dst) if approach == "miller_madow" else S.num(0)
    S.eq("global value", v, (CMI(S, sl.m, keys, sl.dst) + corr) / S.unit(base))
    S.eq("transfer_entropy() agrees", S.im.transfer_entropy(x, y, approach=approach, base=base, src_hist_len=sh, dest_hist_len=dh, step_size=step), v)
    loc = est.local_vals()
    S.shape("one local value per target time", loc, sl.m)
    k = S.index("k", sl.m)
    S.eq("local value", S.at(loc, k), (CMIloc(S, sl.m, keys, sl.dst)(k) + corr) / S.unit(base))


@scenario("P09", grid=dict(approach=["discrete", "miller_madow"], h=[(1, 1, 1), (2, 1, 1), (1, 2, 2), (1, 1, 3)], step=[1, "any"]), conc=25)
def cte(S, approach, h, step):
    """CTE = I(dest future; source history | dest history, condition history)"""
    sh, dh, zh = h
    step, n = step_n(S, max(h), step=step)
    base = S.base()
    x, y, z = S.labels("x", n), S.labels("y", n), S.labels("z", n)
    sl = Slices(S, x, y, n, sh, dh, step, z, zh)
    kw = dict(cond=z, approach=approach, base=base, src_hist_len=sh, dest_hist_len=dh, cond_hist_len=zh, step_size=step)
    est = S.im.estimator(x, y, measure="cte", **kw)
    v = est.global_val()
    keys = [sl.fut, sl.src]
    zk = cat(sl.dst, sl.cnd)
    corr = mm_cmi_corr(S, sl.m, keys, zk) if approach == "miller_madow" else S.num(0)
    S.eq("global value", v, (CMI(S, sl.m, keys, zk) + corr) / S.unit(base))
    S.eq("conditional_transfer_entropy() agrees", S.im.conditional_transfer_entropy(x, y, prop_time=0, **kw), v)
    loc = est.local_vals()
    S.shape("one local value per target time", loc, sl.m)
    k = S.index("k", sl.m)
    S.eq("local value", S.at(loc, k), (CMIloc(S, sl.m, keys, zk)(k) + corr) / S.unit(base))


class RowSlices(Slices):
    """series with several columns: a state consists of all columns"""

    def __init__(self, S, n, sh, dh, step, x, dx, y, dy, z=None, zh=None, dz=1):
        Slices.__init__(self, S, x, y, n, sh, dh, step, z, zh)
        self.w = dx, dy, dz

    def _at(self, a, d, t):
        return tuple(self.S.at(a, t, c) for c in range(d)) if d > 1 else (self.S.at(a, t),)

    def src(self, k):
        return sum((self._at(self.x, self.w[0], self.t(k) - j * self.step) for j in range(self.sh, 0, -1)), ())

    def dst(self, k):
        return sum((self._at(self.y, self.w[1], self.t(k) - j * self.step) for j in range(self.dh, 0, -1)), ())

    def fut(self, k):
        return self._at(self.y, self.w[1], self.t(k))

    def cnd(self, k):
        return sum((self._at(self.z, self.w[2], self.t(k) - j * self.step) for j in range(self.zh, 0, -1)), ())


def rows(S, name, n, d):
    return S.labels(name, n) if d == 1 else S.label_rows(name, n, d)


@scenario("P09", grid=dict(approach=["discrete", "miller_madow"], d=[(2, 1), (1, 2), (2, 2), (3, 2)], h=[(1, 1), (2, 1), (1, 2)]), conc=12)
def te_rows(S, approach, d, h):
    """series with several columns: every column of the past and of the future counts"""
    (dx, dy), (sh, dh) = d, h
    step, n = step_n(S, max(h), step=1)
    x, y = rows(S, "x", n, dx), rows(S, "y", n, dy)
    sl = RowSlices(S, n, sh, dh, step, x, dx, y, dy)
    est = S.im.estimator(x, y, measure="te", approach=approach, base="e", src_hist_len=sh, dest_hist_len=dh, step_size=step)
    keys = [sl.fut, sl.src]
    corr = mm_cmi_corr(S, sl.m, keys, sl.dst) if approach == "miller_madow" else S.num(0)
    S.eq("global value", est.global_val(), CMI(S, sl.m, keys, sl.dst) + corr)
    loc = est.local_vals()
    S.shape("one local value per target time", loc, sl.m)
    k = S.index("k", sl.m)
    S.eq("local value", S.at(loc, k), CMIloc(S, sl.m, keys, sl.dst)(k) + corr)


@scenario("P09", grid=dict(approach=["discrete", "miller_madow"], d=[(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2)], h=[(1, 1, 1), (1, 1, 2)]), conc=12)
def cte_rows(S, approach, d, h):
    (dx, dy, dz), (sh, dh, zh) = d, h
    step, n = step_n(S, max(h), step=1)
    x, y, z = rows(S, "x", n, dx), rows(S, "y", n, dy), rows(S, "z", n, dz)
    sl = RowSlices(S, n, sh, dh, step, x, dx, y, dy, z, zh, dz)
    est = S.im.estimator(x, y, cond=z, measure="cte", approach=approach, base="e", src_hist_len=sh, dest_hist_len=dh, cond_hist_len=zh, step_size=step)
    keys, zk = [sl.fut, sl.src], cat(sl.dst, sl.cnd)
    corr = mm_cmi_corr(S, sl.m, keys, zk) if approach == "miller_madow" else S.num(0)
    S.eq("global value", est.global_val(), CMI(S, sl.m, keys, zk) + corr)
    loc = est.local_vals()
    S.shape("one local value per target time", loc, sl.m)
    k = S.index("k", sl.m)
    S.eq("local value", S.at(loc, k), CMIloc(S, sl.m, keys, zk)(k) + corr)


@scenario("P09", grid=dict(approach=["discrete", "miller_madow"], step=[1, 2]), conc=40)
def te_prop_time(S, approach, step):
    """prop_time shifts the source back by prop_time steps (negative: the destination)"""
    n = S.int("n", 8, 2**31 - 1, typ=(8, 40))
    p = S.int("p", typ=(-7, 7))
    S.assume(S.abs(p) * step + step < n)
    x, y = S.labels("x", n), S.labels("y", n)
    if S.sym:
        S.truth(p > 0) or S.truth(p < 0)
    sl = Slices(S, x, y, n, 1, 1, step, prop=p)
    v = S.im.transfer_entropy(x, y, approach=approach, base="e", step_size=step, prop_time=p)
    keys = [sl.fut, sl.src]
    corr = mm_cmi_corr(S, sl.m, keys, sl.dst) if approach == "miller_madow" else S.num(0)
    S.eq("value over the shifted pair", v, CMI(S, sl.m, keys, sl.dst) + corr)


@scenario("P09", grid=dict(approach=["discrete"]), conc=20)
def te_offset(S, approach):
    """offset is an alias of prop_time"""
    n = S.int("n", 8, 2**31 - 1, typ=(8, 40))
    p = S.int("p", typ=(-6, 6))
    S.assume(S.abs(p) + 1 < n)
    S.assume(S.not_(S.eqv(p, 0)))
    x, y = S.labels("x", n), S.labels("y", n)
    a = S.im.transfer_entropy(x, y, approach=approach, base=2, offset=p)
    b = S.im.transfer_entropy(x, y, approach=approach, base=2, prop_time=p)
    S.eq("same value", a, b)
    S.raises("both at once are refused", ValueError, lambda: S.im.transfer_entropy(x, y, approach=approach, base=2, offset=p, prop_time=1))
