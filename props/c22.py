"""C22 circular-linear regression (Fisher and Lee)."""
import math
import numpy as np
from symx.harness import Bypassed, Obl, StandIn, patched

X1 = [0.5, -1.0, 2.0, 0.25]
X2 = [[0.5, 1.0], [-1.0, 0.5], [2.0, -0.25], [0.25, 0.0]]


def R(M): return M.m.regression


class Np(StandIn):
    """the module's numpy with arctan2 (and exp) of arrays replaced by contracts: any direction, any positive values"""
    def __init__(self, base, mu, K=None): self.base, self.mu, self.K, self.seen, self.exps = base, mu, K, [], []
    def __getattr__(self, k): return getattr(self.base, k)
    def arctan2(self, y, x):
        if self.base.ndim(y): raise Bypassed("arctan2 of arrays")
        self.seen.append((y, x)); return self.mu
    def exp(self, v):
        if self.K is None or len(v) != len(self.K): return self.base.exp(v)
        self.exps.append(v); return self.base.array(self.K) if not self.mu_sym else self.K_arr
    mu_sym = False


def build(M, model, th, x, b, al, ga, mu, K=None):
    """one pass at the given starting values; the systems solved and the arguments of arctan2 and exp are recorded"""
    m = R(M); o = object.__new__(m.CLRegression); o.verbose, o.tol, o.max_iter, o.model_type = False, 1e-8, 1, model; o.theta, o.X, o.alpha, o.beta, o.gamma = M.arr(th), np.array(x), al, np.array(b), M.arr(ga) if len(ga) else np.zeros(len(b)); seen = []
    def solve(a, c): seen.append((a, c)); return M.np.zeros(len(c))
    P = Np(m.np, mu, K); P.mu_sym = M.sym; P.K_arr = M.arr(K) if K else None
    with patched(m, "_safe_solve", solve), patched(m, "np", P): o.result = o._fit()
    if len(P.seen) != 1 or K and not P.exps: raise Bypassed("mean direction or concentration")
    return o, seen, P.seen[0], P.exps


def rows(p, n): return [[v] for v in X1[:n]] if p == 1 else [r for r in X2[:n]]


def start(M, p, n, zero=False):
    th = M.reals("t", n, 0, 6.28); b = M.choice("beta", [[0.0, 0.0], [0.75, -0.5], [-2.0, 0.25]])[:p] if not zero else [0.0] * p
    return th, rows(p, n), b


def lin(x, b): return [sum(p * q for p, q in zip(r, b)) for r in x]
def dev(M, th, x, b): return [t - 2 * math.atan(e) if e else t for t, e in zip(th, lin(x, b))]
def G(x, b): return [[2 * v / (1 + e * e) for v in r] for r, e in zip(x, lin(x, b))]


def mean(p, n):
    def f(M):
        th, x, b = start(M, p, n); d = dev(M, th, x, b); m = R(M); g = G(x, b); s, c = sum(M.np.sin(v) for v in d), sum(M.np.cos(v) for v in d)
        K, mu = M.real("kappa", 0.01, 50), M.angle("mu"); seen = []
        def inv(r): seen.append(r); return K
        with patched(m, "A1inv", inv): o, S, (y, z), _ = build(M, "mean", th, x, b, 0.0, [], mu)
        r = o.result; M.eq("resultant length", (seen[0] * n) ** 2, s * s + c * c); M.ge("resultant length", seen[0], 0); M.eq("kappa", r["kappa"], K); M.eq("mu", r["mu"], mu)
        M.eq("mu is the mean direction of the deviations", y * n, s); M.eq("mu is the mean direction of the deviations", z * n, c)
        M.eq("likelihood", r["log_likelihood"], sum(K * M.np.cos(v - mu) for v in d) - n * M.np.log(m.i0(K)), tol=1e-5)
        A = m.i1(K) / m.i0(K); mat, rhs = S[0]
        for j in range(p):
            M.eq("stops where the score vanishes", rhs[j] - sum(mat[j, i] * b[i] for i in range(p)), sum(K * g[q][j] * M.np.sin(d[q] - mu) for q in range(n)), tol=1e-5); M.eq("reported beta", r["beta"][j], b[j])
            for i in range(p): M.eq("information", mat[j, i], K * A * sum(v[i] * v[j] for v in g), tol=1e-5)
        if p == 1: M.eq("standard error", r["se_beta"][0] ** 2 * (K * A * sum(v[0] ** 2 for v in g) + 1e-8), 1)
        M.eq("AIC", o.AIC() + 2 * r["log_likelihood"], 2 * p); M.eq("BIC", o.BIC() + 2 * r["log_likelihood"], p * math.log(n))
    return f


def kappa(p, n, mixed):
    """starting values: any alpha and gamma; the concentrations exp(.) any values in [0.2, 20]"""
    def f(M):
        th, x, b = start(M, p, n, not mixed); al = M.real("alpha", -2, 3); ga = M.reals("g", p, -1, 1); m = R(M); d = dev(M, th, x, b); K = M.reals("k", n, 0.2, 20); g = G(x, b); mu = M.angle("mu")
        A = [m.i1(k) / m.i0(k) for k in K]
        for k, a in zip(K, A): M.assume(1 - a / k - a * a > 1e-4); M.assume(a <= 1); M.assume(a >= 0.05)
        with patched(m.CLRegression, "_compute_standard_errors", lambda self, r: {}): o, S, (y, z), ex = build(M, "mixed" if mixed else "kappa", th, x, b, al, ga, mu, K)
        r = o.result; M.eq("mu", r["mu"], mu)
        for q in range(n): M.eq("kappa", r["kappa"][q], K[q]); M.eq("kappa is exp of", ex[0][q], al + sum(u * v for u, v in zip(ga, x[q])))
        M.eq("mu is the weighted mean direction", y, sum(k * M.np.sin(v) for k, v in zip(K, d)), tol=1e-5); M.eq("mu is the weighted mean direction", z, sum(k * M.np.cos(v) for k, v in zip(K, d)), tol=1e-5)
        M.eq("likelihood", r["log_likelihood"], sum(k * M.np.cos(v - mu) - M.np.log(m.i0(k)) for k, v in zip(K, d)), tol=1e-5)
        mat, rhs = S[-1]; W = [[1.0] + list(v) for v in x]; M.ok("systems", len(S) == (2 if mixed else 1))
        for j in range(p + 1): M.eq("stops where the score of alpha and gamma vanishes", rhs[j], sum(K[q] * W[q][j] * (M.np.cos(d[q] - mu) - A[q]) for q in range(n)), tol=1e-5)
        if mixed:
            mat, rhs = S[0]
            for j in range(p): M.eq("stops where the score of beta vanishes", rhs[j] - sum(mat[j, i] * b[i] for i in range(p)), sum(K[q] * g[q][j] * M.np.sin(d[q] - mu) for q in range(n)), tol=1e-5); M.eq("reported beta", r["beta"][j], b[j])
        M.eq("AIC", o.AIC() + 2 * r["log_likelihood"], 2 * (1 + p * (2 if mixed else 1))); M.eq("BIC", o.BIC() + 2 * r["log_likelihood"], (1 + p * (2 if mixed else 1)) * math.log(n))
    return f


def errors(model, n):
    """standard errors: square roots of the inverse information's diagonal (one covariate)"""
    def f(M):
        m = R(M); x = rows(1, n); b = M.choice("beta", [0.0, 0.75]); K = M.reals("k", n, 0.2, 20); o = object.__new__(m.CLRegression); o.model_type = model; o.theta = np.zeros(n); o.X = np.array(x); mu = 0.0; A = [m.i1(k) / m.i0(k) for k in K]; D = [1 - a / k - a * a for a, k in zip(A, K)]; g = [v[0] for v in G(x, [b])]
        for k, a, v in zip(K, A, D): M.assume(v > 1e-3); M.assume(a <= 1); M.assume(a >= 0.05)
        al, ga = M.real("alpha", -2, 3), M.real("g", -1, 1); P = Np(m.np, mu, K); P.mu_sym = M.sym; P.K_arr = M.arr(K)
        seen = []; V = [M.real("v%d" % i, 0.001, 9) for i in range(3)]; co = M.real("cov", -1, 1)
        def inv(a):
            seen.append(a); r = M.np.zeros((len(a), len(a)), dtype=object) if M.sym else np.zeros((len(a), len(a)))
            if len(a) == 1: r[0, 0] = V[2]
            else: r[0, 0], r[1, 1] = V[0], V[1]; r[0, 1] = r[1, 0] = co
            return r
        with patched(m, "np", P), patched(m, "_safe_inverse", inv): r = o._compute_standard_errors(dict(kappa=M.arr(K), beta=np.array([b]), alpha=al, gamma=M.arr([ga]), mu=mu))
        if not P.exps: raise Bypassed("exp")
        for q in range(n): M.eq("concentration", P.exps[0][q], al + ga * x[q][0])
        w = [k * k * v for k, v in zip(K, D)]; I = [[sum(u * v[0] ** (i + j) for u, v in zip(w, x)) for j in range(2)] for i in range(2)]; M.ok("inverted once each", len(seen) == (2 if model == "mixed" else 1))
        for i in range(2):
            for j in range(2): M.eq("information of alpha and gamma", seen[-1][i, j], I[i][j], tol=1e-6)
        M.eq("alpha", r["se_alpha"] ** 2, V[0]); M.eq("gamma", r["se_gamma"][0] ** 2, V[1])
        if model == "mixed": M.eq("beta", r["se_beta"][0] ** 2, V[2]); M.eq("information of beta", seen[0][0, 0], sum(k * a * v * v for k, a, v in zip(K, A, g)), tol=1e-6)
    return f


def loop(model):
    """iterations: the reported coefficients are those the reported likelihood was evaluated at, whether the
    iteration converges or runs out; the next coefficients are the solutions of the systems"""
    def f(M):
        m = R(M); n = 3; x = rows(1, n); th = [0.4, 2.0, 5.0]; T = M.choice("max_iter", [1, 2, 3]); tol = M.choice("tol", [1e-8, 1e9]); steps = [M.choice("s%d" % i, [0.25, -0.5, 0.125]) for i in range(3)]; k = [0]
        def solve(a, c): k[0] += 1; return np.array([steps[min(k[0] - 1, 2)] * (j + 1) for j in range(len(c))])
        with patched(m, "_safe_solve", solve, need=False), patched(m, "A1inv", lambda r: 1.5, need=model == "mean"), patched(m.CLRegression, "_compute_standard_errors", lambda self, r: {}, need=False): o = m.CLRegression(theta=np.array(th), X=np.array(x), model_type=model, max_iter=T, tol=tol)
        r = o.result; b, al, ga, mu = [float(v) for v in r["beta"]], float(r["alpha"]), [float(v) for v in r["gamma"]], float(r["mu"])
        d = np.array(th) - 2 * np.arctan(np.array(x) @ b); K = np.exp(al + np.array(x) @ ga) if model != "mean" else np.full(n, 1.5)
        if model != "mean": M.eq("kappa", np.array([float(v) for v in r["kappa"]]), K)
        M.eq("likelihood of the reported coefficients", float(r["log_likelihood"]), float(np.sum(K * np.cos(d - mu) - np.log(np.i0(K))))); M.eq("mean direction", float(np.sum(K * np.sin(d - mu))), 0); M.ok("mean direction", np.sum(K * np.cos(d - mu)) >= 0)
    return f


def rotation(model):
    """rotating the response: the systems are unchanged and the mean direction rotates (fixed data)"""
    def f(M):
        m = R(M); n = 4; x = rows(1, n); th = [0.4, 2.0, 5.0, 1.1]; t = M.real("t", -7, 7); out = []
        for s in (0, t):
            seen = []
            def solve(a, c): seen.append((a, c)); return M.np.zeros(len(c))
            with patched(m, "_safe_solve", solve): r = m.CLRegression(theta=M.arr([v + s for v in th]), X=np.array(x), model_type=model, max_iter=1, beta0=np.array([0.75 if model != "kappa" else 0.0]), gamma0=np.array([0.25]), alpha0=0.5).result
            out.append((r, seen))
        (a, A), (b, B) = out
        for q, (u, v) in enumerate(zip(A, B)):
            for i in range(len(u[1])): M.eq("system %d" % q, v[1][i], u[1][i], tol=1e-5)
            for i in range(len(u[1])):
                for j in range(len(u[1])): M.eq("matrix %d" % q, v[0][i, j], u[0][i, j], tol=1e-5)
        M.angle_eq("mean direction", b["mu"], float(a["mu"]) + t); M.eq("likelihood", b["log_likelihood"], a["log_likelihood"], tol=1e-5)
    return f


def predict(p):
    def f(M):
        m = R(M); o = object.__new__(m.CLRegression); mu = M.real("mu", -4, 7); b = M.reals("b", p, -3, 3); x = [M.reals("x%d" % i, p, -4, 4) for i in range(2)]; o.result = {"beta": M.arr(b), "mu": mu}
        X = M.np.stack([M.arr(v) for v in x]); y = o.predict(X)
        for i in range(2): M.eq("prediction", y[i], mu + 2 * M.np.arctan(sum(u * v for u, v in zip(x[i], b))))
        if p == 1: z = o.predict(M.arr([v[0] for v in x])); M.eq("one covariate", z[1], y[1])
        M.raises("columns", ValueError, lambda: o.predict(np.ones((2, p + 1)))); M.raises("finite", ValueError, lambda: o.predict(np.full((2, p), math.nan)))
    return f


def forms(M):
    import pandas as pd
    c = R(M).CLRegression; th = [0.4, 2.0, 5.0, 1.1, 0.9]; u, v = [0.5, -1.0, 2.0, 0.25, 1.0], [1.0, 0.0, 0.5, -0.5, 2.0]; df = pd.DataFrame({"t": th, "u": u, "v": v}); X = np.column_stack([u, v])
    for model in ("mean", "kappa", "mixed"):
        with patched(c, "_fit", lambda self: {}):
            a = c(formula="t ~ u + v", data=df, model_type=model); b = c(theta=np.array(th), X=X, model_type=model, beta0=[0.5, 1.0], alpha0=2.0, gamma0=np.array([[3.0], [4.0]])); e = c(theta=th, X=u, model_type=model)
            for o in (a, b): M.eq("response", np.array(o.theta, dtype=float), np.array(th)); M.eq("covariates", np.array(o.X, dtype=float), X)
            M.ok("zero start", not np.any(a.beta) and not np.any(a.gamma) and a.alpha == 0); M.eq("start", np.array(b.beta, dtype=float), np.array([0.5, 1.0])); M.eq("start", np.array(b.gamma, dtype=float), np.array([3.0, 4.0])); M.ok("start", b.alpha == 2.0); M.ok("column", e.X.shape == (5, 1))
            M.raises("start", ValueError, lambda: c(theta=np.array(th), X=X, model_type=model, beta0=np.zeros(3))); M.raises("start", ValueError, lambda: c(theta=np.array(th), X=X, model_type=model, gamma0=[math.nan, 0.0]))
        M.raises("rows", ValueError, lambda: c(theta=np.array(th[:-1]), X=X, model_type=model)); M.raises("finite", ValueError, lambda: c(theta=np.array(th[:-1] + [math.nan]), X=X, model_type=model)); M.raises("finite", ValueError, lambda: c(theta=np.array(th), X=np.where(X == 0, math.inf, X), model_type=model))
    M.raises("model", ValueError, lambda: c(theta=np.array(th), X=X, model_type="foo")); M.raises("nothing", ValueError, lambda: c()); M.raises("empty", ValueError, lambda: c(theta=np.array([]), X=np.zeros((0, 1)))); z = M.real("z", 0, 1)


def obligations(tier):
    q = tier == "quick"; C = "regression.CLRegression._fit"
    o = [Obl("mean/%d.%d" % (p, n), mean(p, n), C + ", _compute_standard_errors, AIC, BIC", "%d covariates, %d observations" % (p, n)) for p, n in ((1, 2), (1, 3), (2, 3))]
    o += [Obl("%s/%d.%d" % (("kappa", "mixed")[mi], p, n), kappa(p, n, mi), C, "%d covariates, %d observations, alpha in [-2,3], gamma in [-1,1]" % (p, n)) for mi in (0, 1) for p, n in ((1, 2), (1, 3), (2, 3))]
    o += [Obl("errors/%s.%d" % (mo, n), errors(mo, n), "regression.CLRegression._compute_standard_errors", "%d observations, concentrations in [0.2,20]" % n) for mo, n in (("kappa", 2), ("mixed", 2), ("kappa", 3))]
    o += [Obl("loop/" + mo, loop(mo), C, "3 fixed pairs; up to 3 iterations, the solver's steps chosen among 3 values", weight=0) for mo in ("mean", "kappa", "mixed")] + [Obl("rotation/" + mo, rotation(mo), C, "4 fixed pairs, any rotation in [-7,7]") for mo in ("mean", "kappa", "mixed")]
    o += [Obl("predict/%d" % p, predict(p), "regression.CLRegression.predict", "%d covariates, 2 rows" % p) for p in (1, 2)] + [Obl("forms", forms, "regression.CLRegression.__init__, _prepare_design, _parse_formula, _coerce_vector", "fixed data", weight=0)]
    return o
