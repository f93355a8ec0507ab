"""C25 mixtures: densities of the components are any positive values (contract), parameters are names."""
import math
import numpy as np
from symx.harness import Bypassed, Obl, StandIn, patched

FULL = {"degree": 360}


def K(M): return M.m.clustering


class Family(StandIn):
    """a family of densities: the density of a named parameter vector at a named point is any positive value"""
    def __init__(self, M, pars, name="vonmises", lo=.05, hi=5, fixed=None):
        self.M, self.pars, self.name, self.lo, self.hi, self.f, self.fits, self.fixed, self.only, self.shapes = M, pars, name, lo, hi, {}, [], fixed or {}, None, ", ".join(pars)

    def bind(self, a, k):
        v = dict(zip(self.pars, a)); v.update(k)
        if set(v) != set(self.pars) or len(a) > len(self.pars): raise Bypassed("parameters of the density")
        return tuple(round(float(v[p]), 5) for p in self.pars)

    def at(self, x, par):
        key = (round(float(x) % (2 * math.pi), 5), par)
        if self.only is not None and par not in self.only: return .2 + .1 * (round(100 * par[0]) % 7) + .05 * (round(10 * float(x)) % 3)
        if par in self.fixed: return self.fixed[par]
        if key not in self.f: self.f[key] = self.M.real("f%s@%s" % (key[0], "_".join(map(str, par))), self.lo, self.hi)
        return self.f[key]

    def pdf(self, x, *a, **k):
        par = self.bind(a, k); x = np.atleast_1d(np.asarray(x, dtype=float))
        return self.M.arr([self.at(v, par) for v in x])

    def logpdf(self, x, *a, **k): return self.M.np.log(self.pdf(x, *a, **k))

    def fit(self, x, *args, method="moments", weights=None, initial=None, return_info=False, optimizer=None, options=None, **kw):
        if args: raise Bypassed("fit arguments")
        j = len(self.fits); self.fits.append(([float(v) for v in np.asarray(x, dtype=float)], weights, method))
        par = {"mu": 2 + .01 * j, "kappa": 3 + .1 * j, "gamma": .3 + .003 * j, "rho": .1 + .002 * j, "lam": .5 + .001 * j}; est = tuple(par[p] for p in self.pars)
        return (est, {"method": method}) if return_info else est


class Vm(Family):
    """the contracts by which MovM estimates: weighted means and their concentration"""
    def mean(self):
        def circ_mean_and_r(alpha, w=None):
            j = len(self.fits); self.fits.append(([float(v) for v in np.asarray(alpha, dtype=float)], w, "mle")); return 2 + .01 * j, .3 + .01 * j
        return circ_mean_and_r

    def kappa(self):
        def circ_kappa(r, n=None):
            if n is not None: raise Bypassed("correction")
            return 10 * float(r)
        return circ_kappa


KJ = ["mu", "gamma", "rho", "lam"]


class Case:
    """one of the three mixtures with its contracts, started from any weights and K named components"""
    def __init__(self, M, kind, n, k, unit="radian", full=360, p=None, **kw):
        self.M, self.kind, self.n, self.k = M, kind, n, k; c = K(M); self.c = c
        self.points = [.4 + .7 * i for i in range(n)]; self.scale = 1.0 if unit == "radian" else full / (2 * math.pi)
        self.p = p if p is not None else [1.0] if k == 1 else self.weights()
        base = dict(n_clusters=k, unit=unit, full_cycle=full, random_seed=1)
        if kind == "MovM": self.fam = Vm(M, ["mu", "kappa"]); self.o = c.MovM(**base, **kw)
        elif kind == "MoKJ": self.fam = Family(M, KJ, "katojones"); self.o = c.MoKJ(**base, **kw)
        else: self.fam = Family(M, ["mu", "kappa"]); self.o = c.MoCD(**base, fit_method="mle", **kw); self.o.distribution = self.fam
        self.start = [(1 + .01 * i, 2 + .1 * i) if kind != "MoKJ" else (1 + .01 * i, .2 + .01 * i, .15, .6) for i in range(k)]

    def weights(self):
        M, k = self.M, self.k; w = [M.real("p%d" % i, .05, .95) for i in range(k - 1)]; last = 1 - sum(w); M.assume(M.sym and last > .04 or not M.sym and float(last) > .04); return w + [last]

    def init(self):
        M, s = self.M, self.start; col = lambda i: np.array([r[i] for r in s]); p = M.arr(self.p)
        if self.kind == "MovM": return lambda *a, **k: (col(0), col(1), p)
        if self.kind == "MoKJ": return lambda *a, **k: (col(0), col(1), col(2), col(3), p)
        return lambda *a, **k: ([dict(zip(self.fam.pars, r)) for r in s], p)

    def within(self, run, init=True):
        c, o = self.c, self.o; from contextlib import ExitStack
        with ExitStack() as S:
            if init: S.enter_context(patched(o, "_initialize", self.init()))
            if self.kind == "MovM":
                S.enter_context(patched(c, "vonmises", self.fam)); S.enter_context(patched(c, "circ_mean_and_r", self.fam.mean(), need=False)); S.enter_context(patched(c, "circ_kappa", self.fam.kappa(), need=False))
            if self.kind == "MoKJ": S.enter_context(patched(c, "katojones", self.fam))
            return run()

    def fit(self, init=True): return self.within(lambda: self.o.fit(np.array(self.points) * self.scale), init)

    def named(self): return [tuple(round(float(v), 5) for v in r) for r in self.start]

    def final(self):
        o = self.o
        if self.kind == "MovM": return [(float(a), float(b)) for a, b in zip(o.m_, o.kappa_)]
        if self.kind == "MoKJ": return [tuple(float(v) for v in r) for r in zip(o.mu_, o.gamma_, o.rho_, o.lam_)]
        return [tuple(float(d[q]) for q in self.fam.pars) for d in o.params_]

    def joint(self, p, par, x):
        """weight times density, per component"""
        return [a * self.fam.at(x, tuple(round(float(v), 5) for v in q)) for a, q in zip(p, par)]

    def gamma(self): return self.o.gamma_resp_ if self.kind == "MoKJ" else self.o.gamma_


def posterior(M, what, g, J):
    """responsibilities proportional to the joint values, summing to one"""
    T = sum(J)
    for a, j in zip(g, J): M.eq(what, a * T, j, tol=1e-6); M.le(what + ", nonnegative", 0, a)
    M.eq(what + " sum to one", sum(g), 1)


def step(kind, n, k):
    """one EM step from any weights, with any densities"""
    def f(M):
        C = Case(M, kind, n, k, n_iters=1, burnin=0, p=[.2, .3, .5] if k == 3 else [.3, .7] if n > 2 else None); C.fam.only = C.named(); o = C.fit(); par = C.final(); fits = C.fam.fits
        used = []
        for c in range(k):
            J = [i for i in range(len(fits)) if abs(2 + .01 * i - par[c][0]) < 1e-6]
            if len(J) != 1: raise Bypassed("estimates")
            used.append(J[0]); xs, w, method = fits[J[0]]; M.eq("all observations enter", xs, C.points)
            for i in range(n): T = C.joint(C.p, C.start, C.points[i]); M.eq("weights of the estimate are the responsibilities", w[i] * sum(T), T[c], tol=1e-6)
            M.eq("weight is the mean responsibility", o.p_[c], sum(w[i] for i in range(n)) / n)
        M.ok("one estimate per component", len(set(used)) == k); M.eq("weights sum to one", sum(o.p_), 1)
        if kind == "MovM": M.eq("concentration of its resultant length", [float(v) for v in o.kappa_], [10 * float(v) for v in o.r_]); M.eq("resultant length", [float(v) for v in o.r_], [.3 + .01 * j for j in used])
        else:
            for c in range(k): want = {"mu": 2 + .01 * used[c], "kappa": 3 + .1 * used[c], "gamma": .3 + .003 * used[c], "rho": .1 + .002 * used[c], "lam": .5 + .001 * used[c]}; M.eq("parameters", list(par[c]), [want[q] for q in C.fam.pars])
        got = [dict(d) for d in o.params_]; M.eq("params_", [float(d[q]) for d in got for q in C.fam.pars], [v for r in par for v in r])
    return f


def final(kind, n, k):
    """responsibilities and labels of the fitted state"""
    def f(M):
        C = Case(M, kind, n, k, p=[1.0 / k] * k, n_iters=1, burnin=0); C.fam.fixed = {tuple(round(v, 5) for v in r): .3 + .2 * i for i, r in enumerate(C.start)}
        o = C.fit(); par = C.final(); p = [o.p_[c] for c in range(k)]; g = C.gamma()
        for i in range(n):
            posterior(M, "responsibilities", [g[c][i] for c in range(k)], C.joint(p, par, C.points[i])); l = int(o.labels_[i])
            for c in range(k): M.le("label has the largest responsibility", g[c][i], g[l][i], tol=1e-9)
    return f


def likelihood(kind, n, k):
    """the recorded and the reported likelihood; BIC"""
    def f(M):
        C = Case(M, kind, n, k, n_iters=1, burnin=0); E = M.np.exp
        if kind == "MoKJ": C.fam.fixed = {tuple(round(v, 5) for v in r): .3 + .2 * i for i, r in enumerate(C.start)}; C.p = [1.0 / k] * k
        o = C.fit(); par, p = C.final(), [o.p_[c] for c in range(k)]; prod = 1
        M.ok("history", len(o.nLL) == 1)
        for x in C.points: prod = prod * sum(C.joint(C.p, C.start, x) if kind != "MoKJ" else C.joint(p, par, x))
        M.eq("recorded likelihood", E(-o.nLL[0]), prod, tol=1e-5)
    return f


def bic(kind, n, k):
    def f(M):
        C = Case(M, kind, n, k, unit=M.choice("unit", ["radian", "degree"]), full=M.choice("cycle", [360, 24]), p=[1.0 / k] * k, n_iters=1, burnin=0); C.fam.fixed = {tuple(round(v, 5) for v in r): .3 + .2 * i for i, r in enumerate(C.start)}
        o = C.fit(); small = M.choice("weights", [None, .01])      # the criterion counts every component, however small
        if small: o.p_ = np.array([1 - (k - 1) * small] + [small] * (k - 1))
        par, p = C.final(), [o.p_[c] for c in range(k)]; b = C.within(o.compute_BIC, False); prod = 1
        for x in C.points: prod = prod * sum(C.joint(p, par, x))
        m = k * len(C.fam.pars) + k - 1; M.eq("BIC", M.np.exp((m * math.log(n) - b) / 2), prod, tol=1e-5)
        if kind == "MovM": M.eq("negative log-likelihood", M.np.exp(-C.within(lambda: o.compute_nLL(o.alpha, o.p_, o.m_, o.kappa_), False)), prod, tol=1e-5)
        if kind == "MoCD":
            M.eq("BIC alias", C.within(o.bic, False), b); X = np.array(C.points) * C.scale; s = C.within(lambda: o.score_samples(X), False); M.eq("mean score", C.within(lambda: o.score(X), False), sum(s) / n)
            for i, x in enumerate(C.points): M.eq("scores", M.np.exp(s[i]), sum(C.joint(p, par, x)), tol=1e-5)
    return f


def predicts(kind, k):
    """prediction for new points, in the unit of the data or another"""
    def f(M):
        u, cyc = M.choice("unit", [("radian", 360), ("degree", 360), ("degree", 24)]); C = Case(M, kind, 2, k, unit=u, full=cyc, p=[1.0 / k] * k, n_iters=1, burnin=0)
        C.fam.fixed = {tuple(round(v, 5) for v in r): .3 + .2 * i for i, r in enumerate(C.start)}; fin = {}
        real = C.fam.at; C.fam.at = lambda x, q: .4 + .1 * round(10 * q[0]) % 7 / 10 if any(abs(float(x) % (2 * math.pi) - y) < 1e-4 for y in C.points) else real(x, q)
        o = C.fit(); par, p = C.final(), [o.p_[c] for c in range(k)]; new = [1.9, 5.3]; kw, sc = {}, C.scale
        if kind != "MoCD" and M.choice("override", [False, True]): kw, sc = M.choice("as", [(dict(unit="radian"), 1.0), (dict(unit="degree", full_cycle=365), 365 / (2 * math.pi))])
        X = np.array(new) * sc; g = C.within(lambda: o.predict_proba(X, **kw), False); l = C.within(lambda: o.predict(X, **kw), False)
        if kind == "MoCD" and M.choice("override", [False, True]): kw, sc = M.choice("as", [(dict(unit="radian"), 1.0), (dict(unit="degree", full_cycle=365), 365 / (2 * math.pi))]); X = np.array(new) * sc
        d = C.within(lambda: o.predict_density(X, **kw), False)
        for i, x in enumerate(new):
            J = C.joint(p, par, x); posterior(M, "posterior", [g[c][i] for c in range(k)], J); M.eq("density", d[i], sum(J))
            for c in range(k): M.le("prediction has the largest posterior", g[c][i], g[int(l[i])][i], tol=1e-9)
    return f


def grid(kind):
    """the default grid covers one turn in the data's unit"""
    def f(M):
        u, cyc = M.choice("unit", [("radian", 360), ("degree", 360), ("degree", 24)]); C = Case(M, kind, 2, 1, unit=u, full=cyc, n_iters=1, burnin=0); seen = []
        C.fam.at = lambda x, q: .25; C.fit(); pdf = C.fam.pdf
        def spy(x, *a, **k): seen.append(np.asarray(x, dtype=float)); return pdf(x, *a, **k)
        C.fam.pdf = spy; C.fam.logpdf = lambda x, *a, **k: M.np.log(spy(x, *a, **k)); d = C.within(lambda: C.o.predict_density(), False); M.ok("consulted", len(seen) == 1); x = seen[0]; m = len(x)
        M.eq("grid", list(x), [2 * math.pi * i / m for i in range(m)]); M.eq("density", list(d), [.25] * m)
    return f


def stops(kind, T, burnin):
    """one observation, one component: the recorded likelihood is any sequence; the iteration stops when it settles"""
    def f(M):
        C = Case(M, kind, 1, 1, n_iters=T, burnin=burnin, threshold=.1); F = C.fam; seq = []
        def at(x, q):
            if q not in F.f: F.f[q] = M.np.exp(M.real("l%d" % len(seq), -2, 2)); seq.append(q)
            return F.f[q]
        F.at = at; o = C.fit(); h = list(o.nLL); m = len(h)
        M.ok("converged_iters", (o.converged_iters == m) if o.converged else (m == T)); near = lambda i: abs(h[i] - h[i - 1]) < .1
        if o.converged: M.ok("not before the burn-in", m - 1 > burnin)
        for i in range(1, m):
            if i > burnin:
                if o.converged and i == m - 1: M.lt("settled", M.np.abs(h[i] - h[i - 1]), .1 + 1e-9)
                else: M.le("stops as soon as it settles", .1, M.np.abs(h[i] - h[i - 1]), tol=1e-9)
    return f


def vanishing(M):
    """a component without weight keeps its mean; a balanced one keeps a defined mean"""
    C = Case(M, "MovM", 2, 2, n_iters=1, burnin=0, p=[.3, .7]); lost = M.choice("what", ["weight", "direction"])
    C.fam.only = C.named()
    if lost == "weight":
        C.fam.fixed = {tuple(round(v, 5) for v in C.start[1]): 1e-40}; o = C.fit(); M.eq("mean kept", float(o.m_[1]), C.start[1][0]); M.le("least concentration", float(o.kappa_[1]), 1e-2)
    else:
        real = C.fam.mean(); old = C.fam.mean
        def mean():
            def circ_mean_and_r(alpha, w=None):
                m, r = real(alpha, w); return (float("nan"), 0.0) if len(C.fam.fits) == 2 else (m, r)
            return circ_mean_and_r
        C.fam.mean = mean; o = C.fit(); par = C.final(); M.ok("defined", all(math.isfinite(v) for r in par for v in r)); M.eq("mean kept", par[1][0], C.start[1][0])
    p = [o.p_[0], o.p_[1]]; par = C.final()
    for i in range(2): posterior(M, "responsibilities", [o.gamma_[c][i] for c in range(2)], C.joint(p, par, C.points[i]))


def start(kind, n, k):
    """the starting state: every component estimated from its own members, equal weights, none empty"""
    def f(M):
        c = K(M); seqs = [[M.choice("l%d.%d" % (t, i), list(range(k))) if t == 0 else i % k for i in range(n)] for t in range(2)]; C = Case(M, kind, n, k, p=[1.0 / k] * k, n_iters=1, burnin=0); C.fam.at = lambda x, q: .3; made = []
        class Rng(StandIn):
            def integers(self, low, high=None, size=None, **kw):
                if size is None: return 7
                if low != k and (low, high) != (0, k) or int(np.prod(size)) != n: raise Bypassed("labels")
                made.append(seqs[min(len(made), 1)]); return np.array(made[-1])
        class Means:
            def __init__(self, n_clusters=2, **kw): self.n_clusters = n_clusters
            def fit(self, X): self.labels_ = np.array(seqs[0]); made.append(seqs[0]); return self
            def __getattr__(self, a): raise Bypassed(a)
        C.o._rng = Rng(); full = set(seqs[0]) == set(range(k))
        with patched(c, "CircKMeans", Means, need=False): C.fit(init=False)
        if not made: raise Bypassed("starting labels")
        M.ok("redrawn when a component is empty", len(made) == (1 if full else 2)); lab = made[-1]; first = C.fam.fits[:k]
        got = sorted(sorted(round(v, 6) for v in x) for x, w, m in first); want = sorted(sorted(round(C.points[i], 6) for i in range(n) if lab[i] == q) for q in range(k)); M.ok("estimated from the members", got == want)
        for x, w, m in first:
            if w is not None: M.eq("members count once", list(w), [float(w[0])] * len(x))
    return f


def obligations(tier):
    q = tier == "quick"; o = []
    cls = lambda k: "clustering.%s.fit" % k
    for kind in ("MovM", "MoKJ", "MoCD"):
        o += [Obl("step/%s/%d.%d" % (kind, n, k), step(kind, n, k), cls(kind) + ", _log_gamma", "%d observations, %d components, any densities in [.05,5], any weights" % (n, k)) for n, k in ([(2, 2), (3, 2), (2, 3)] if q else [(2, 2), (3, 2), (2, 3), (4, 2), (3, 3)])]
        o += [Obl("final/%s/%d.%d" % (kind, n, k), final(kind, n, k), cls(kind), "%d observations, %d components, any densities of the fitted components" % (n, k)) for n, k in ([(2, 2), (2, 3)] if q else [(2, 2), (2, 3), (3, 3)])]
        o += [Obl("likelihood/%s" % kind, likelihood(kind, 2, 2), cls(kind) + ", likelihood", "2 observations, 2 components"), Obl("bic/%s" % kind, bic(kind, 2, 2), "clustering.%s.compute_BIC" % kind, "2 observations, 2 components, units"), Obl("bic/%s/3" % kind, bic(kind, 2, 3), "clustering.%s.compute_BIC" % kind, "2 observations, 3 components")]
        o += [Obl("predict/%s/%d" % (kind, k), predicts(kind, k), "clustering.%s.predict, predict_proba, predict_density" % kind, "2 new points, %d components, any densities, units" % k) for k in (2, 3)]
        o += [Obl("grid/" + kind, grid(kind), "clustering.%s.predict_density" % kind, "default grid, units", weight=0)]
        o += [Obl("stops/%s/%d" % (kind, b), stops(kind, T, b), cls(kind), "up to %d iterations, any likelihoods" % T) for T, b in ([(4, 0), (4, 1)] if q else [(4, 0), (5, 1)])]
        o += [Obl("start/" + kind, start(kind, 3, 2), "clustering.%s._initialize" % kind, "3 observations, 2 components, any drawn labels")]
    o += [Obl("vanishing", vanishing, cls("MovM"), "2 observations, 2 components")]
    return o
