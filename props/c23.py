"""C23 circular k-means."""
import math
from itertools import permutations
import numpy as np
from symx.harness import Bypassed, Obl, patched
from props.c14 import geo
from props.clusterlib import Choose, NpRandom, World


def K(M): return M.m.clustering


def run(M, W, k, pick, metric, max_iter, unit="radian", full=360, log=None, tol=1e-6):
    c = K(M); log = [] if log is None else log; P = NpRandom(c.np, Choose(pick, log))
    with patched(c, "np", P), patched(c, "circ_dist", W.circ_dist()), patched(c, "circ_mean_and_r", W.circ_mean_and_r()):
        o = c.CircKMeans(n_clusters=k, metric=metric, unit=unit, full_cycle=full, max_iter=max_iter, tol=tol, random_seed=3); o.fit(W.array(1.0 if unit == "radian" else full / (2 * math.pi)))
    if not P.used: raise Bypassed("initial centres")
    return o


def members(o, c): return [i for i, l in enumerate(o.labels_) if int(l) == c]


def fitted(n, k, metric, T):
    """every choice of initial centres and every distance: members' means, nearest centres on convergence, inertia"""
    def f(M):
        W = World(M, n, metric == "center"); P = list(permutations(range(n), k)); pick = M.choice("start", P if n < 4 else P[::4]); log = []; o = run(M, W, k, pick, metric, T, log=log)
        M.ok("distinct initial centres among the points", len(log) == 1 and int(log[0][0]) == n and int(np.prod(log[0][1])) == k and not log[0][2]); M.ok("metric", set(W.calls) == {metric})
        M.ok("labels", len(o.labels_) == n and all(0 <= int(l) < k for l in o.labels_)); cen = [float(v) for v in o.centers_]; M.ok("centres", len(cen) == k)
        part = [members(o, c) for c in range(k)]; full = [p for p in part if p]
        for c, p in enumerate(part):
            if p: M.eq("centre is the mean of its members", cen[c], W.mean_of(p))
        M.eq("inertia", o.inertia_, sum(W.gap(W.points[i], cen[c]) for c in range(k) for i in part[c]))
        if T > 1 and k == 2 or k == 1:
            # two runs apart by one iteration agree exactly when the first converged
            u = run(M, W, k, pick, metric, T + 1)
            if [int(a) for a in u.labels_] == [int(a) for a in o.labels_] and all(abs(float(a) - b) < 1e-9 for a, b in zip(u.centers_, cen)):
                for i in range(n):
                    for c in range(k): M.le("nearest centre", W.gap(W.points[i], cen[int(o.labels_[i])]), W.gap(W.points[i], cen[c]), tol=1e-9)
    return f


def first(n, k, metric):
    """one iteration: labels are nearest to the initial centres; units do not matter"""
    def f(M):
        W = World(M, n, metric == "center"); pick = M.choice("start", list(permutations(range(n), k))); o = run(M, W, k, pick, metric, 1)
        for i in range(n):
            for c in range(k): M.le("nearest initial centre", W.gap(W.points[i], W.points[pick[int(o.labels_[i])]]), W.gap(W.points[i], W.points[pick[c]]), tol=1e-9)
        d = run(M, W, k, pick, metric, 1, unit="degree", full=M.choice("cycle", [360, 24])); M.ok("units", [int(v) for v in d.labels_] == [int(v) for v in o.labels_]); M.eq("units", [float(v) for v in d.centers_], [float(v) for v in o.centers_])
    return f


def predict(k, n, metric):
    def f(M):
        c = K(M); W = World(M, k + n, metric == "center"); o = c.CircKMeans(n_clusters=k, metric=metric, unit="radian"); o.centers_ = np.array(W.points[:k]); X = np.array(W.points[k:])
        with patched(c, "circ_dist", W.circ_dist()): l = o.predict(X); o.unit = "degree"; g = o.predict(np.rad2deg(X)); o.full_cycle = 24; h = o.predict(X * 12 / math.pi)
        for i in range(n):
            for j in range(k): M.le("nearest centre", W.gap(X[i], W.points[int(l[i])]), W.gap(X[i], W.points[j]), tol=1e-9)
        M.ok("units", [int(v) for v in l] == [int(v) for v in g] == [int(v) for v in h]); M.ok("metric", set(W.calls) == {metric})
    return f


def inertia_step(n):
    """the mean direction minimises the total 1 - cos distance, so updating a centre never increases it"""
    def f(M):
        d = M.m.descriptive; a = M.angles("a", n); t = M.angle("t"); C, S = sum(M.np.cos(v) for v in a), sum(M.np.sin(v) for v in a); M.assume(C * C + S * S > 0.01)
        m, r = d.circ_mean_and_r(M.arr(a)); s = lambda c: sum(d.circ_dist(M.arr([v]), c, metric="angularseparation")[0] for v in a)
        R = M.np.sqrt(C * C + S * S); M.eq("least total", s(m), n - R); M.eq("total", s(t), n - (C * M.np.cos(t) + S * M.np.sin(t))); M.le("Cauchy", (C * M.np.cos(t) + S * M.np.sin(t)) ** 2 + (C * M.np.sin(t) - S * M.np.cos(t)) ** 2, R * R)
    return f


def real_data(metric):
    """the shipped distances and means: two free points and one fixed, two clusters, one iteration"""
    def f(M):
        c = K(M); a = [M.real("a0", 0, 6.28), 1.0]; pick = [0, 1]; x = M.real("x", 0, 6.28); o = c.CircKMeans(n_clusters=2, metric=metric, unit="radian"); o.centers_ = M.arr(a)
        if metric == "angularseparation": u, v = 1 - M.np.cos(x - a[0]), 1 - M.np.cos(x - a[1])
        else: u, v = geo(M, x, a[0]), geo(M, x, a[1])
        M.assume(abs(u - v) > 1e-4); l = int(o.predict(M.arr([x]))[0]); M.le("nearest", (u, v)[l], (u, v)[1 - l])
        if metric == "angularseparation": return
        w = geo(M, x, 4.0); M.assume(abs(u - w) > 1e-4); M.assume(abs(v - w) > 1e-4)
        o.centers_ = M.arr([*a, 4.0]); l = int(o.predict(M.arr([x]))[0]); all3 = (u, v, w); M.le("nearest of three", all3[l], M.np.minimum(all3[l - 1], all3[l - 2]))
    return f


def small(M):
    c = K(M); x = M.choice("x", [[0.3], [0.3, 4.0]]); k = len(x) + 1; o = c.CircKMeans(n_clusters=k, unit="radian").fit(np.array(x)); M.ok("one cluster each", [int(v) for v in o.labels_] == list(range(len(x)))); M.eq("centres", [float(v) for v in o.centers_], x); M.eq("inertia", o.inertia_, 0)
    M.ok("prediction", [int(v) for v in o.predict(np.array(x))] == list(range(len(x)))); M.raises("not fitted", ValueError, lambda: c.CircKMeans().predict(np.array(x)))


METRICS = ["center", "geodesic", "angularseparation", "chord"]


def obligations(tier):
    q = tier == "quick"; C = "clustering.CircKMeans.fit"; A = "%d points, every choice of %d initial centres, any distances, at most %d iterations"
    o = [Obl("fit/%s/%d.%d.%d" % (m, n, k, T), fitted(n, k, m, T), C, A % (n, k, T)) for m in ("geodesic", "center") for n, k, T in [(2, 1, 2), (3, 2, 3), (3, 3, 2)] + ([(4, 2, 2)] if m == "geodesic" else [])]
    o += [Obl("first/%s/%d.%d" % (m, n, k), first(n, k, m), C, A % (n, k, 1)) for m in METRICS for n, k in ((3, 2), (2, 2))] + [Obl("predict/%s/%d" % (m, k), predict(k, 2, m), "clustering.CircKMeans.predict", "%d centres, 2 points, any distances" % k) for m in METRICS for k in (2, 3)]
    o += [Obl("inertia/%d" % n, inertia_step(n), "descriptive.circ_mean_and_r, circ_dist", "%d points" % n) for n in (2,)] + [Obl("real/" + m, real_data(m), "clustering.CircKMeans.predict, descriptive.circ_dist", "a point and a centre anywhere") for m in METRICS[1:3]] + [Obl("small", small, C, "fewer points than clusters", weight=0)]
    return o
