"""Reference definitions (sample-wise, so that they need no ordering or enumeration of classes)."""


def keyeq(S, a, b):
    return S.and_(*[S.eqv(x, y) for x, y in zip(a, b)])


def cnt(S, n, key, i):
    """number of samples with the same key as sample i"""
    ki = key(i)
    return S.count(n, lambda j: keyeq(S, key(j), ki))


def wsum(S, n, f):
    return S.sum(n, f)


def cached(S, f):
    """in the concrete layer per-sample values are computed once"""
    if S.sym:
        return f
    memo = {}

    def g(i):
        if i not in memo:
            memo[i] = f(i)
        return memo[i]
    return g


def counts(S, n, key):
    if S.sym:
        return lambda i: cnt(S, n, key, i)
    from collections import Counter
    ks = [tuple(key(i)) for i in range(int(n))]
    c = Counter(ks)
    return lambda i: c[ks[int(i)]]


def H(S, n, key):
    """plug-in Shannon entropy (nats) of the empirical distribution of key(0..n-1)"""
    c = counts(S, n, key)
    return S.div(S.sum(n, lambda i: S.log(n) - S.log(c(i))), n)


def Hloc(S, n, key):
    c = counts(S, n, key)
    return lambda i: S.log(n) - S.log(c(i))


def K(S, n, key):
    """number of distinct values"""
    return S.nuniq(n, lambda i: tuple(key(i)))


def csum(S, n, key, g):
    """sum over the distinct values of g(count of the value)"""
    c = counts(S, n, key)
    return S.sum(n, lambda i: S.div(1, c(i)) * g(c(i)))


def ncls(S, n, key):
    return K(S, n, key)


def one(S, x):
    return lambda i: (S.at(x, i),)


def cat(*ks):
    """joint key"""
    return lambda i: sum((tuple(k(i)) for k in ks), ())


def var(S, name, kind, n):
    """a discrete variable of the given kind -> (data, key)"""
    if kind == "1d":
        x = S.labels(name, n)
        return x, one(S, x)
    d = int(kind[-1])
    x = S.label_rows(name, n, d)
    return x, (lambda i: tuple(S.at(x, i, j) for j in range(d)))


def MI(S, n, keys):
    """sum_i H(X_i) - H(X_1..X_m)"""
    r = H(S, n, keys[0])
    for k in keys[1:]:
        r = r + H(S, n, k)
    return r - H(S, n, cat(*keys))


def mi_nonneg(S, n, kx, ky):
    """lemma (Gibbs): the plug-in mutual information of two variables is not negative"""
    if S.sym:
        S.lemma("mi_nonneg", MI(S, n, [kx, ky]) >= 0)


def MIloc(S, n, keys):
    hs = [Hloc(S, n, k) for k in keys]
    hj = Hloc(S, n, cat(*keys))

    def f(i):
        r = hs[0](i)
        for h in hs[1:]:
            r = r + h(i)
        return r - hj(i)
    return f


def CMI(S, n, keys, z):
    """sum_i H(X_i, Z) - H(X_1..X_m, Z) - H(Z)"""
    r = H(S, n, cat(keys[0], z))
    for k in keys[1:]:
        r = r + H(S, n, cat(k, z))
    return r - H(S, n, cat(*keys, z)) - H(S, n, z)


def CMIloc(S, n, keys, z):
    hs = [Hloc(S, n, cat(k, z)) for k in keys]
    hj = Hloc(S, n, cat(*keys, z))
    hz = Hloc(S, n, z)

    def f(i):
        r = hs[0](i)
        for h in hs[1:]:
            r = r + h(i)
        return r - hj(i) - hz(i)
    return f


def mm_mi_corr(S, n, keys):
    """Miller-Madow correction of the information: (sum K_i - m - K_joint + 1)/(2N)"""
    s = K(S, n, keys[0])
    for k in keys[1:]:
        s = s + K(S, n, k)
    return S.div(s - len(keys) - K(S, n, cat(*keys)) + 1, 2 * n)


def mm_cmi_corr(S, n, keys, z):
    s = K(S, n, cat(keys[0], z))
    for k in keys[1:]:
        s = s + K(S, n, cat(k, z))
    return S.div(s - len(keys) - K(S, n, cat(*keys, z)) + 1 - (K(S, n, z) - 1), 2 * n)


class Slices:
    """documented embedding: target times t_k = max_delay + k*step, histories at t_k - j*step"""

    def __init__(self, S, x, y, n, sh, dh, step, z=None, zh=None, prop=0):
        self.S = S
        md = max([sh, dh] + ([zh] if z is not None else [])) * step
        if S.sym and not isinstance(prop, int):
            p = prop * step
            self.sx, self.sy = S.max(-p, 0), S.max(p, 0)
            n = n - S.abs(p)
        else:
            p = prop * step
            self.sx, self.sy = max(-p, 0), max(p, 0)
            n = n - abs(p)
        self.m = S.idiv(n - md + step - 1, step)
        self.md, self.step, self.sh, self.dh, self.zh = md, step, sh, dh, zh
        self.x, self.y, self.z = x, y, z

    def t(self, k):
        return self.md + k * self.step

    def src(self, k):
        return tuple(self.S.at(self.x, self.t(k) - j * self.step + self.sx) for j in range(self.sh, 0, -1))

    def dst(self, k):
        return tuple(self.S.at(self.y, self.t(k) - j * self.step + self.sy) for j in range(self.dh, 0, -1))

    def fut(self, k):
        return (self.S.at(self.y, self.t(k) + self.sy),)

    def cnd(self, k):
        return tuple(self.S.at(self.z, self.t(k) - j * self.step) for j in range(self.zh, 0, -1))
