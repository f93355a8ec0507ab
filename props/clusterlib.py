"""Contracts for the clustering obligations: points and means are names, distances between them are free."""
import math
import numpy as np
from symx.harness import Bypassed, StandIn


class World:
    """n points at fixed distinct angles; the mean direction of a set of points is a fixed angle of its own; the
    distance between two of these angles is any value (nonnegative and symmetric; for the metric "center" of either
    sign and antisymmetric), zero from an angle to itself"""
    def __init__(self, M, n, signed=False):
        self.M, self.n, self.signed, self.d, self.calls = M, n, signed, {}, []
        self.points = [0.2 + 0.31 * i for i in range(n)]; self.name = {round(v, 6): "p%d" % i for i, v in enumerate(self.points)}; self.means = {}; self.side = None

    def array(self, deg=1.0): return np.array([v * deg for v in self.points])

    def key(self, v):
        k = self.name.get(round(float(v), 6))
        if k is None: raise Bypassed("an angle that is neither a point nor a mean")
        return k

    def mean_of(self, idx):
        idx = tuple(sorted(idx))
        if idx not in self.means:
            v = self.points[idx[0]] if len(idx) == 1 else 2.5 + 0.0137 * sum(1 << i for i in idx)
            self.means[idx] = v; self.name.setdefault(round(v, 6), "m" + "".join(map(str, idx)))
        return self.means[idx]

    def dist1(self, a, b):
        p, q = self.key(a), self.key(b)
        if p == q: return 0.0
        lo, hi = min(p, q), max(p, q)
        if (lo, hi) not in self.d:
            x = self.M.real("d_%s_%s" % (lo, hi), 0.01, 3); s = 1
            if self.signed:
                if self.side is None: self.side = self.M.choice("side", [1, -1])
                s = self.side * (1 if sum(map(ord, lo + hi)) % 3 else -1)
            self.d[lo, hi] = (x, s)
        x, s = self.d[lo, hi]
        return x * s if p == lo else -x * s if self.signed else x

    def gap(self, a, b):
        p, q = sorted((self.key(a), self.key(b)))
        if p == q: return 0.0
        self.dist1(a, b); return self.d[p, q][0]

    def circ_dist(self):
        def circ_dist(x, y=None, metric="center", return_sum=False):
            self.calls.append(metric); x, y = np.asarray(x, dtype=float), np.asarray(x if y is None else y, dtype=float)
            if return_sum: raise Bypassed("sum")
            if not x.ndim and not y.ndim: return self.dist1(x, y)
            X, Y = np.broadcast_arrays(x, y); r = self.M.np.zeros(X.shape, dtype=object) if self.M.sym else np.zeros(X.shape)
            for ix in np.ndindex(*X.shape): r[ix] = self.dist1(X[ix], Y[ix])
            return r
        return circ_dist

    def circ_mean_and_r(self):
        def circ_mean_and_r(alpha, w=None):
            if w is not None: raise Bypassed("weights")
            idx = [int(self.key(v)[1:]) if self.key(v)[0] == "p" else None for v in np.asarray(alpha, dtype=float)]
            if None in idx: raise Bypassed("mean of means")
            return self.mean_of(idx), 0.5 + 0.01 * sum(1 << i for i in idx)
        return circ_mean_and_r


class Choose(StandIn):
    """a generator whose choice without replacement is given"""
    def __init__(self, pick, log): self.pick, self.log = pick, log
    def choice(self, a, size=None, replace=True, **k):
        self.log.append((a, size, replace))
        if k or not np.isscalar(a) and not isinstance(a, (int, np.integer)): raise Bypassed("choice of values")
        return np.array(self.pick)


class NpRandom(StandIn):
    """the module's numpy whose default_rng gives the stand-in"""
    def __init__(self, base, rng):
        self._base = base; self._rng = rng
        outer = self
        class Random(StandIn):
            def default_rng(self, seed=None): outer.used = True; return rng
        self.random = Random(); self.used = False
    def __getattr__(self, k): return getattr(self._base, k)
