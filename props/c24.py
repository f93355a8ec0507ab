"""C24 agglomerative clustering."""
import math
import numpy as np
from symx.harness import Bypassed, Obl, patched
from props.clusterlib import World

METRICS = ["center", "geodesic", "angularseparation", "chord"]


def K(M): return M.m.clustering


def run(M, W, k, metric, unit="radian", full=360, **kw):
    c = K(M)
    with patched(c, "circ_dist", W.circ_dist(), need=False), patched(c, "circ_mean_and_r", W.circ_mean_and_r(), need=False):
        return c.CircHAC(n_clusters=k, metric=metric, unit=unit, full_cycle=full, **kw).fit(W.array(1.0 if unit == "radian" else full / (2 * math.pi)))


def replay(M, W, o, n, k, clusters):
    """the recorded merges are a valid agglomeration of the initial clusters by least distance between means"""
    mer = [[v for v in r] for r in o.merges_]; nxt = max(clusters) + 1; M.ok("number of merges", len(mer) == max(0, len(clusters) - k))
    for ca, cb, h, size in mer:
        ca, cb = int(ca), int(cb); M.ok("merges two present clusters", ca in clusters and cb in clusters and ca != cb); mean = {q: W.mean_of(v) for q, v in clusters.items()}
        M.eq("height is the distance", h, W.gap(mean[ca], mean[cb])); ids = sorted(clusters)
        for i, p in enumerate(ids):
            for q in ids[i + 1:]: M.le("the least distance is merged", W.gap(mean[ca], mean[cb]), W.gap(mean[p], mean[q]), tol=1e-9)
        both = clusters.pop(ca) + clusters.pop(cb); M.ok("sizes add up", int(size) == len(both)); clusters[nxt] = both; nxt += 1
    lab = [int(v) for v in o.labels_]; M.ok("labels", len(lab) == n and set(lab) == set(range(len(clusters))))
    want = {frozenset(v) for v in clusters.values()}; got = {frozenset(i for i in range(n) if lab[i] == c) for c in set(lab)}; M.ok("partition", want == got)
    for c in sorted(set(lab)):
        mem = [i for i in range(n) if lab[i] == c]; M.eq("centre", o.centers_[c], W.mean_of(mem)); M.eq("resultant length", o.r_[c], 0.5 + 0.01 * sum(1 << i for i in mem))


def fit(n, k, metric):
    def f(M):
        W = World(M, n, metric == "center"); o = run(M, W, k, metric); M.ok("metric", not W.calls or set(W.calls) == {metric})
        replay(M, W, o, n, k, {i: [i] for i in range(n)})
    return f


def units(M):
    n = 3; W = World(M, n); o = run(M, W, 2, "geodesic"); d = run(M, W, 2, "geodesic", unit="degree", full=M.choice("cycle", [360, 24, 365])); M.ok("units", [int(v) for v in o.labels_] == [int(v) for v in d.labels_]); M.eq("units", [float(v) for v in o.centers_], [float(v) for v in d.centers_])


def preclustered(n, m, k):
    """starting from k-means clusters: the merges agglomerate them (the k-means labels by contract, any)"""
    def f(M):
        c = K(M); W = World(M, n); lab = [M.choice("l%d" % i, list(range(m))) for i in range(n)]; seen = []
        class Stub:
            def __init__(self, n_clusters=2, **kw): seen.append((n_clusters, kw)); self.labels_ = np.array(lab); self.n_clusters = n_clusters
            def fit(self, X): seen.append(np.asarray(X, dtype=float)); return self
            def __getattr__(self, a): raise Bypassed(a)
        with patched(c, "CircKMeans", Stub): o = run(M, W, k, "geodesic", n_init_clusters=m)
        if len(seen) != 2: raise Bypassed("k-means")
        M.ok("k-means", seen[0][0] == m and seen[0][1].get("metric") == "geodesic"); M.eq("k-means data", seen[1] * (1 if seen[0][1].get("unit") == "radian" else math.pi / 180), np.array(W.points))
        replay(M, W, o, n, k, {q: [i for i in range(n) if lab[i] == q] for q in range(m) if q in lab})
    return f


def predict(k, metric):
    def f(M):
        c = K(M); W = World(M, k + 2, metric == "center"); o = c.CircHAC(n_clusters=k, metric=metric, unit="radian"); o.centers_ = np.array(W.points[:k]); X = np.array(W.points[k:])
        with patched(c, "circ_dist", W.circ_dist()): l = o.predict(X); o.unit = "degree"; g = o.predict(np.rad2deg(X))
        for i in range(2):
            for j in range(k): M.le("nearest centre", W.gap(X[i], W.points[int(l[i])]), W.gap(X[i], W.points[j]), tol=1e-9)
        M.ok("units", [int(v) for v in l] == [int(v) for v in g])
    return f


LABELS = {2: [[0, 1]], 3: [[0, 0, 1], [1, 0, 1], [0, 1, 2]], 4: [[0, 0, 1, 1], [0, 1, 1, 1], [0, 1, 2, 0], [1, 0, 0, 1]], 5: [[0, 0, 1, 1, 2], [0, 0, 0, 1, 1]]}


class forked_max:
    """max decides its comparison on the path (symbolic runs only)"""
    def __init__(self, M, mod): self.M, self.mod = M, mod
    def __enter__(self):
        if self.M.sym: self.mod.max = lambda a, b: a if self.M.true(a >= b) else b
    def __exit__(self, *a):
        if self.M.sym: del self.mod.max


def silhouette(n):
    """mean over the points of (b-a)/max(a,b): a the mean distance to the others of its cluster, b to the nearest other cluster"""
    def f(M):
        c = K(M); W = World(M, n); lab = M.choice("labels", LABELS[n]); o = c.CircHAC(n_clusters=max(lab) + 1, metric="geodesic", unit="radian"); o.alpha, o.labels_ = W.array(), np.array(lab)
        with forked_max(M, c), patched(c, "circ_dist", W.circ_dist()): s = o.silhouette_score()
        g = lambda i, j: W.gap(W.points[i], W.points[j]); tot = 0
        for i in range(n):
            own = [j for j in range(n) if lab[j] == lab[i] and j != i]; a = sum(g(i, j) for j in own) / len(own) if own else 0.0; b = None
            for q in set(lab) - {lab[i]}:
                mem = [j for j in range(n) if lab[j] == q]; v = sum(g(i, j) for j in mem) / len(mem); b = v if b is None or M.true(v < b) else b
            tot = tot + ((b - a) / b if not own or not M.true(a >= b) else (b - a) / a)
        M.eq("silhouette", s, tot / n, tol=1e-6)
    return f


def rotation(M):
    """the shipped distances and means: rotating the data does not change the merge (3 points, two of them fixed)"""
    c = K(M); t = M.choice("t", [0.5, 2.0, 4.0, -3.0, 7.0]); metric = M.choice("metric", METRICS); x = M.choice("x", [[0.1, 1.0, 2.5], [0.2, 3.0, 6.1], [6.2, 0.3, 3.3, 2.9], [1.0, 1.5, 4.0, 5.9, 0.2], [2.0, 2.1, 2.7, 5.5, 3.9]]); k = M.choice("k", [1, 2]); n = len(x)
    o = c.CircHAC(n_clusters=k, metric=metric, unit="radian").fit(np.array(x)); p = c.CircHAC(n_clusters=k, metric=metric, unit="radian").fit((np.array(x) + t) % (2 * math.pi))
    L = lambda q: {frozenset(i for i in range(n) if int(q.labels_[i]) == v) for v in set(int(w) for w in q.labels_)}
    M.ok("partition", L(o) == L(p))
    for a, b in zip(o.merges_, p.merges_): M.eq("heights", a[2], b[2])


def forms(M):
    c = K(M).CircHAC; n = M.choice("n", [1, 2, 3]); o = c(n_clusters=3, unit="radian").fit(np.array([0.3, 1.1, 5.0][:n])); M.ok("own cluster", [int(v) for v in o.labels_] == list(range(n))); M.eq("centres", [float(v) for v in o.centers_], [0.3, 1.1, 5.0][:n]); M.eq("lengths", [float(v) for v in o.r_], [1.0] * n); M.ok("no merges", o.merges_.shape == (0, 4))
    for k in (0, -1): M.raises("clusters", ValueError, lambda: c(n_clusters=k)); M.raises("initial clusters", ValueError, lambda: c(n_init_clusters=k))
    M.raises("unit", ValueError, lambda: c(unit="turn")); M.raises("metric", ValueError, lambda: c(metric="foo")); M.raises("empty", ValueError, lambda: c().fit([])); M.raises("not fitted", ValueError, lambda: c().predict([0.1]))


def obligations(tier):
    q = tier == "quick"; C = "clustering.CircHAC.fit"; A = "%d points, %d clusters, any distances between means"
    o = [Obl("fit/%s/%d.%d" % (m, n, k), fit(n, k, m), C, A % (n, k)) for m, n, k in [("geodesic", 3, 1), ("geodesic", 3, 2), ("geodesic", 4, 2), ("geodesic", 4, 3), ("center", 3, 1), ("center", 4, 2), ("chord", 3, 1), ("angularseparation", 3, 2)] + ([("geodesic", 4, 1)] if q else [("geodesic", 4, 1), ("geodesic", 5, 3)])]
    o += [Obl("units", units, C, "3 points"), Obl("preclustered/3.2.1", preclustered(3, 2, 1), C + ", _initialize_clusters", "3 points, any k-means labels"), Obl("preclustered/4.3.2", preclustered(4, 3, 2), C + ", _initialize_clusters", "4 points, any k-means labels")]
    o += [Obl("predict/%s/%d" % (m, k), predict(k, m), "clustering.CircHAC.predict", "%d centres, 2 points, any distances" % k) for m in ("geodesic", "center") for k in (2, 3)]
    o += [Obl("silhouette/%d" % n, silhouette(n), "clustering.CircHAC.silhouette_score", "%d points, any distances, labels %s" % (n, LABELS[n])) for n in ((2, 3, 4) if q else (2, 3, 4, 5))] + [Obl("rotation", rotation, C, "fixed data", weight=0), Obl("forms", forms, C, "fixed data", weight=0)]
    return o
