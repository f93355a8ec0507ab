"""C21 circular-circular regression."""
import math
from fractions import Fraction as F
import numpy as np
from symx.harness import Obl, StandIn, patched

# covariates in quarter turns (cosines and sines are integers): one or two covariates
QUARTERS = {"a": [0, 1, 2, 2, 3], "b": [0, 1, 2, 3, 3, 1], "c": [5, 0, -1, 2], "two": [[0, 1], [1, 2], [2, 2], [3, 0], [0, 3], [1, 0]]}
FLOATS = {5: [0.1, 0.9, 2.2, 3.5, 5.1], 6: [0.4, 0.9, 1.3, 1.9, 2.6, 6.1], 8: [0.1, 0.9, 2.2, 3.5, 5.1, 5.6, 1.2, 4.0],
          "two": [[0.1, 2.0], [0.9, 0.3], [2.2, 4.1], [3.5, 1.0], [5.1, 5.7], [4.0, 3.0], [6.1, 1.9], [1.6, 5.0], [2.9, 2.4], [0.6, 0.6]]}


def fit(M, th, x, **k): return M.m.regression.CCRegression(theta=th, x=x, **k)


def quarter(M, key):
    """the covariates as the code gets them, and the documented design: intercept, cosines, then sines"""
    q = QUARTERS[key]; rows = [r if isinstance(r, list) else [r] for r in q]; o = M.np.empty((len(q), len(rows[0])), dtype=object) if M.sym else np.empty((len(q), len(rows[0])))
    for i, r in enumerate(rows):
        for j, v in enumerate(r): o[i, j] = v * M.pi / 2
    return (o if isinstance(q[0], list) else o[:, 0]), [[1] + [(1, 0, -1, 0)[v % 4] for v in r] + [(0, 1, 0, -1)[v % 4] for v in r] for r in rows]


def solve(X, P=None):
    """(X'X)^-1 X' in rational arithmetic"""
    n, p = len(X), len(X[0]); A = [[F(sum(X[q][i] * X[q][j] for q in range(n))) for j in range(p)] + [F(X[q][i]) for q in range(n)] for i in range(p)]
    for c in range(p):
        r = next(r for r in range(c, p) if A[r][c]); A[c], A[r] = A[r], A[c]; A[c] = [v / A[c][c] for v in A[c]]
        for r in range(p):
            if r != c: A[r] = [u - A[r][c] * v for u, v in zip(A[r], A[c])]
    return [r[p:] for r in A]


class Quiet:
    """fitted angles left out (their obligation is fitted/...): arctan2 and angle return zero"""
    def __init__(self, M): self.M = M
    def __enter__(self):
        m = self.M.m.regression; base = self.base = m.np
        class P:
            def arctan2(self, a, b): return base.zeros(len(a))
            def angle(self, z): return base.zeros(len(z))
            def __getattr__(self, k): return getattr(base, k)
        if self.M.sym: m.np = P()
    def __exit__(self, *a): self.M.m.regression.np = self.base


def W(M, v): return v if M.sym else float(v)


def coefficients(key):
    def f(M):
        x, X = quarter(M, key); n = len(X); th = M.reals("t", n, 0, 6.28); P = solve(X); C, S = [M.np.cos(v) for v in th], [M.np.sin(v) for v in th]
        with Quiet(M), patched(M.m.regression, "_safe_inverse", lambda m: M.np.zeros(m.shape)): r = fit(M, M.arr(th), x).result
        b, c = r["coefficients"]["cos"], r["coefficients"]["sin"]; M.ok("size", len(b) == len(c) == len(P))
        for i, row in enumerate(P): M.eq("cosine", b[i], sum(W(M, w) * v for w, v in zip(row, C))); M.eq("sine", c[i], sum(W(M, w) * v for w, v in zip(row, S)))
        for j in range(len(P)): M.eq("normal equation", sum(X[q][j] * (C[q] - sum(X[q][p] * b[p] for p in range(len(P)))) for q in range(n)), 0)
    return f


def fitted(key, free):
    """some responses symbolic, the others at quarter turns"""
    def f(M):
        x, X = quarter(M, key); n = len(X); P = solve(X); t = (0, 1, 1, 2, 0, 3); th = [M.real("t%d" % q, 0, 6.28) if q in free else t[q] * M.pi / 2 for q in range(n)]; C, S = [M.np.cos(v) for v in th], [M.np.sin(v) for v in th]
        b, c = [sum(W(M, w) * v for w, v in zip(row, C)) for row in P], [sum(W(M, w) * v for w, v in zip(row, S)) for row in P]
        fc, fs = [sum(X[q][p] * b[p] for p in range(len(b))) for q in range(n)], [sum(X[q][p] * c[p] for p in range(len(c))) for q in range(n)]
        for u, v in zip(fc, fs): M.assume(u * u + v * v > 0.01)
        with patched(M.m.regression, "_safe_inverse", lambda m: M.np.zeros(m.shape)): r = fit(M, M.arr(th), x).result
        for q in range(n):
            t = r["fitted"][q]; M.ge("range", t, 0); M.lt("range", t, 2 * M.pi); L = M.np.sqrt(fc[q] ** 2 + fs[q] ** 2)
            M.eq("direction", L * M.np.cos(t), fc[q]); M.eq("direction", L * M.np.sin(t), fs[q]); e = r["residuals"][q]; M.ge("residual range", e, -M.pi); M.le("residual range", e, M.pi); M.angle_eq("residual", e, th[q] - t)
        M.eq("rho", r["rho"] ** 2, sum(u * u + v * v for u, v in zip(fc, fs)) / n); M.ge("rho", r["rho"], 0); M.le("rho", r["rho"], 1)
    return f


def rotation(key, order):
    def f(M):
        x = np.array(FLOATS[key]); n = len(x); th = [(0.7 * q + 0.2) % 6.2 for q in range(n)]; s = M.real("s", -7, 7); g = lambda v: [float(z) for z in v]
        X = np.atleast_2d(x.T).T; K = range(1, order + 1); D = np.column_stack([np.ones(n)] + [np.cos(k * X[:, j]) for j in range(X.shape[1]) for k in K] + [np.sin(k * X[:, j]) for j in range(X.shape[1]) for k in K]); P = np.linalg.pinv(D)
        u, v = P @ np.cos(th), P @ np.sin(th); c, d = M.np.cos(s), M.np.sin(s)
        b = fit(M, M.arr([q + s for q in th]), x, order=order).result
        for j in range(len(u)): M.eq("cosine coefficients rotate", b["coefficients"]["cos"][j], float(u[j]) * c - float(v[j]) * d); M.eq("sine coefficients rotate", b["coefficients"]["sin"][j], float(u[j]) * d + float(v[j]) * c)
        ft = np.arctan2(D @ v, D @ u); M.eq("rho", b["rho"] ** 2, float(np.mean((D @ u) ** 2 + (D @ v) ** 2)))
        for q in range(n): M.angle_eq("fit rotates", b["fitted"][q], float(ft[q]) + s); M.angle_eq("residuals stay", b["residuals"][q], float(th[q] - ft[q]))
    return f


def turns(M):
    """whole turns of either variable (fixed data)"""
    n = 8; x = np.array(FLOATS[8]); k, l = M.choice("k", [-1, 0, 2]), M.choice("l", [0, 1, -1]); th = np.array([(0.7 * q + 0.2) % 6.2 for q in range(n)]); o = M.choice("order", [1, 2])
    a = fit(M, th, x, order=o).result; b = fit(M, th + 2 * math.pi * k * (np.arange(n) % 2), x + 2 * l * math.pi * (np.arange(n) % 3), order=o).result
    for key in ("fitted", "residuals"):
        for q in range(n): M.angle_eq("whole turns " + key, a[key][q], b[key][q])
    for q in range(2): M.eq("whole turns p", a["p_values"][q], b["p_values"][q])
    M.eq("rho", a["rho"], b["rho"])


OCT = [[0, 1, 2, 3, 4, 5, 6, 7], [3, 0, 6, 1, 7, 2, 5, 4]]


def higher(k, order, free):
    """the higher-harmonic test on the balanced octagon: T = adj * (squared projection on the next harmonic) / RSS, p its chi-squared tail"""
    def f(M):
        m = M.m.regression; e8 = OCT[k]; n = 8; th = [M.real("t%d" % q, 0, 6.28) if q in free else (3 * q % 4) * M.pi / 2 for q in range(n)]; x = M.arr([v * M.pi / 4 for v in e8]); seen = []; lv = M.choice("level", [0.05, 0.5]); pv = M.choice("p", [(0.6, 0.6), (0.6, 0.2), (0.2, 0.6), (0.01, 0.02)])
        class Chi(StandIn):
            def _t(self, x, df): seen.append((x, df)); return pv[(len(seen) - 1) % 2]
            def sf(self, x, df): return self._t(x, df)
            def cdf(self, x, df): return 1 - self._t(x, df)
        with Quiet(M), patched(m, "chi2", Chi()): r = fit(M, M.arr(th), x, order=order, level=lv).result
        adj = n - (2 * order + 1); co, si = (lambda h: [M.np.cos(h * v * M.pi / 4) for v in e8]), (lambda h: [M.np.sin(h * v * M.pi / 4) for v in e8]); K = order + 1; M.ok("two statistics", len(seen) == 2)
        for q, Y in enumerate(([M.np.cos(v) for v in th], [M.np.sin(v) for v in th])):
            base = [[1] * n] + [z(h) for h in range(1, K) for z in (co, si)]
            dot = lambda a, b: sum(u * v for u, v in zip(a, b))
            rss = dot(Y, Y) - sum(dot(Y, z) ** 2 * (F(1, 8) if M.sym else 1 / 8) if i == 0 else dot(Y, z) ** 2 / 4 for i, z in enumerate(base)); M.assume(rss > 0.01)
            M.eq("statistic", seen[q][0] * rss, adj * (dot(Y, co(K)) ** 2 + dot(Y, si(K)) ** 2) / 4); M.ok("degrees of freedom", seen[q][1] == 2); M.eq("p-value", r["p_values"][q], pv[q])
        M.ok("verdict", ("not significant" in r["message"]) == (pv[0] > lv and pv[1] > lv))
    return f


def formula(M):
    import pandas as pd
    x = FLOATS["two"]; th = [0.3, 1.4, 2.2, 0.9, 5.0, 4.4, 3.3, 2.0, 1.1, 6.0]; df = pd.DataFrame({"y": th, "u": [p for p, q in x], "v": [q for p, q in x]}); c = M.m.regression.CCRegression
    a = c(formula="y ~ u + v", data=df).result; b = fit(M, np.array(th), np.array(x)).result; M.eq("formula", np.array(a["coefficients"]["cos"], dtype=float), np.array(b["coefficients"]["cos"], dtype=float)); s = M.real("z", 0, 1)
    a = c(formula="y ~ v", data=df).result; b = fit(M, np.array(th), np.array([q for p, q in x])).result; M.eq("formula", np.array(a["fitted"], dtype=float), np.array(b["fitted"], dtype=float))
    for o in (0, -1): M.raises("order", ValueError, lambda: fit(M, np.array(th), np.array(x), order=o))
    for l in (0, 1, -0.1, 1.5): M.raises("level", ValueError, lambda: fit(M, np.array(th), np.array(x), level=l))
    for v in (math.nan, math.inf): M.raises("finite", ValueError, lambda: fit(M, np.array(th[:-1] + [v]), np.array(x)))
    M.raises("nothing", ValueError, lambda: c())


def obligations(tier):
    q = tier == "quick"; C = "regression.CCRegression._fit"
    o = [Obl("coefficients/" + k, coefficients(k), C, "covariates at quarter turns %s, any responses, order 1" % QUARTERS[k]) for k in QUARTERS]
    o += [Obl("fitted/%s.%s" % (k, fr[0]), fitted(k, fr), C, "covariates at quarter turns %s, response %s free, order 1" % (QUARTERS[k], fr)) for k, fr in [("a", (1,)), ("c", (0,)), ("b", (2,))] + ([] if q else [("two", (2,)), ("a", (4,))])]
    o += [Obl("rotation/%s.%d" % (i, k), rotation(i, k), C, "%s fixed pairs, any rotation, order %d" % (i, k)) for i, k in [(5, 1), (8, 2), ("two", 1)]] + [Obl("turns", turns, C, "8 fixed pairs", weight=0)]
    o += [Obl("higher/%d.%d" % (i, k), higher(i, k, fr), C, "8 equally spaced covariates, responses %s free, order %d" % (fr, k)) for i, k, fr in [(0, 1, (1, 4)), (1, 1, (0, 4)), (1, 2, (2, 5))]]
    return o + [Obl("formula", formula, "regression.CCRegression.__init__, _parse_formula, _validate_input", "fixed data", weight=0)]
