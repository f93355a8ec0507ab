"""C26 summary objects."""
import math
import numpy as np
from symx.harness import Bypassed, Obl, StandIn, abstract_fn, patched

UNITS = {"degree": (None, 360), "hour": (None, 24), "radian": (None, 2 * math.pi), "day": (365, 365), "degree48": (48, 48)}
KEYS = ["mean", "r", "R", "n", "kappa", "s", "s0", "skewness", "kurtosis"]


def D(M): return M.m.descriptive


def build(M, rad, unit="degree", cls="Circular", as_list=False, **kw):
    """the object of the given directions (in radians), handed over in a unit"""
    full, k = UNITS[unit]; x = [v * k / (2 * M.pi) for v in rad] if unit != "radian" else list(rad); kw = dict(kw); kw.setdefault("full_cycle", full)
    return getattr(M.m.base, cls)(list(x) if as_list else M.arr(x), unit=unit[:6] if unit.startswith("degree") else unit, **kw)


def standalone(M, a, w, b=0.0, n=None):
    d = D(M); m, r = d.circ_mean_and_r(alpha=a, w=w); n = int(sum(w)) if n is None else n
    return dict(mean=m, r=r, n=n, R=n * r, kappa=d.circ_kappa(r=r, n=n), s=d.angular_std(r=r, bin_size=b), s0=d.circ_std(r=r, bin_size=b), skewness=d.circ_skewness(alpha=a, w=w), kurtosis=d.circ_kurtosis(alpha=a, w=w))


class quiet:
    """the pieces decided elsewhere are contracts: median (and its limits), Rayleigh's p-value, limits of the mean, moments"""
    def __init__(self, M, pval=.5, keep=(), median=1.234, r=None): self.M, self.pval, self.keep, self.med, self.log = M, pval, keep, median, {}
    def __enter__(self):
        from contextlib import ExitStack
        M, b, L = self.M, self.M.m.base, self.log; self.S = ExitStack(); pval = self.pval
        def rec(name, out):
            def g(*a, **k): L.setdefault(name, []).append((a, k)); return out
            return g
        class Res(StandIn):
            def __init__(self): self.pval = pval
        T = dict(circ_median=self.med, circ_median_ci=(.11, .22, .93), rayleigh_test=Res(), circ_mean_ci=(.33, .44), circ_skewness=.55, circ_kurtosis=.66)
        for n, v in T.items():
            if n not in self.keep: self.S.enter_context(patched(b, n, rec(n, v), need=False))
        return self
    def __exit__(self, *a): return self.S.__exit__(*a)


def args(fn, a, k, names):
    d = dict(zip(names, a)); d.update(k); return d


def wellbehaved(M, x, w=None):
    """a resultant length away from 0 and 1 and from the branch points of the concentration"""
    C = sum((w[i] if w else 1) * M.np.cos(v) for i, v in enumerate(x)); S = sum((w[i] if w else 1) * M.np.sin(v) for i, v in enumerate(x)); n = sum(w) if w else len(x)
    M.assume(C * C + S * S > (.05 * n) ** 2); M.assume(C * C + S * S < (.98 * n) ** 2)


def basics(n, unit):
    """mean, length and spread are those of the stand-alone functions on radians"""
    def f(M):
        x = M.angles("x", n, -1, 8); wellbehaved(M, x); as_list = M.choice("list", [False, True]); d = D(M)
        with patched(M.m.base, "circ_kappa", lambda r, n=None: 7 * r + n), quiet(M): o = build(M, x, unit, as_list=as_list)
        a = M.arr([d_ for d_ in x]); m, r = d.circ_mean_and_r(alpha=a); M.eq("alpha", list(o.alpha), list(x)); M.angle_eq("mean", o.mean, m); M.eq("r", o.r, r); M.ok("n", int(o.n) == n); M.eq("R", o.R, n * r); M.eq("kappa", o.kappa, 7 * r + n)
        M.eq("s", o.s, d.angular_std(r=r)); M.eq("s0", o.s0, d.circ_std(r=r)); M.ok("ungrouped", not o.grouped and [int(v) for v in o.w] == [1] * n); M.eq("data kept", list(o.data), [v * UNITS[unit][1] / (2 * M.pi) for v in x])
    return f


def moments(n, unit):
    """skewness and kurtosis of the data in radians"""
    def f(M):
        t = M.angle("t", -1, 8); x = [t] + [t + v for v in ([.5, 1.9, -.8][:n - 1])]; d = D(M); a = M.arr(x)
        with quiet(M, keep=("circ_skewness", "circ_kurtosis")): o = build(M, x, unit)
        M.eq("skewness", o.skewness, d.circ_skewness(alpha=a)); M.eq("kurtosis", o.kurtosis, d.circ_kurtosis(alpha=a))
    return f


def medians(n, unit, grouped):
    """the median, its limits and the moments are computed from the data in radians with the frequencies, the given options, and reported"""
    def f(M):
        t = M.angle("t", 0, .5); x = [t + 2 * math.pi * i / n for i in range(n)]; w = [M.int("w%d" % i, 0 if i else 1, 2) for i in range(n)] if grouped else None; kw = dict(w=np.array(w)) if grouped else {}
        opt = M.choice("options", [None, dict(method="count"), dict(method="deviation", return_average=False), dict(average_method="unique")])
        if opt is not None: kw["kwargs_median"] = dict(opt)
        med = M.choice("median", [1.234, float("nan")])
        with patched(M.m.base, "circ_mean_and_r", lambda alpha, w=None: (1.5, .4)), quiet(M, median=med) as Q: o = build(M, x, unit, **kw)
        W = w if grouped else [1] * n; L = Q.log
        if any(len(L.get(q, [])) != 1 for q in ("circ_median", "circ_skewness", "circ_kurtosis")): raise Bypassed("summaries")
        for q, names in (("circ_median", ["alpha", "w", "method", "return_average", "average_method"]), ("circ_skewness", ["alpha", "w"]), ("circ_kurtosis", ["alpha", "w"])):
            g = args(q, *L[q][0], names); M.eq(q + " angles", list(g["alpha"]), x); M.ok(q + " frequencies", (g.get("w") is None and not grouped) or [int(v) for v in g["w"]] == W)
            if q == "circ_median": want = {"method": "deviation", "return_average": True, "average_method": "all", **(opt or {})}; M.ok("options", all(g.get(k, want[k]) == want[k] for k in want))
        M.eq("skewness", o.skewness, .55); M.eq("kurtosis", o.kurtosis, .66)
        if med == med: M.eq("median", o.median, med)
        else: M.is_nan("median", o.median)
        if grouped or med != med: M.ok("no limits", "circ_median_ci" not in L and not hasattr(o, "median_lb"))
        else:
            M.ok("limits", len(L.get("circ_median_ci", [])) == 1); g = args("", *L["circ_median_ci"][0], ["median", "alpha"]); M.eq("limits of the median of the data", list(g["alpha"]), x); M.eq("limits of the median", g["median"], med)
            M.eq("limits", [o.median_lb, o.median_ub, o.median_ci_level], [.11, .22, .93])
    return f


def grouped(n, unit):
    """bin centres with frequencies: means and lengths of the repeated observations, spread corrected for the bin width"""
    def f(M):
        t = M.angle("t", 0, .5); b = 2 * math.pi / n; x = [t + b * i for i in range(n)]; w = [M.int("w%d" % i, 0, 2) for i in range(n)]; d = D(M)
        C = sum(w[i] * math.cos(b * i) for i in range(n)); S = sum(w[i] * math.sin(b * i) for i in range(n)); N = sum(w); M.assume(N > 0 and N * .01 < math.hypot(C, S) < .9 * N)
        order = M.choice("order", [list(range(n)), list(range(n))[::-1], [1] + list(range(2, n)) + [0]])
        with patched(M.m.base, "circ_kappa", lambda r, n=None: 7 * r + n), quiet(M): o = build(M, [x[i] for i in order], unit, w=[w[i] for i in order] if M.choice("list", [0, 1]) else np.array([w[i] for i in order])); 
        rep = M.arr([x[i] for i in range(n) for _ in range(w[i])]); m, r = d.circ_mean_and_r(alpha=rep); M.ok("n", int(o.n) == N and o.grouped); M.angle_eq("mean", o.mean, m); M.eq("r", o.r, r); M.eq("kappa", o.kappa, 7 * r + N); M.eq("bin size", o.bin_size, b)
        M.eq("s", o.s, d.angular_std(r=r, bin_size=b)); M.eq("s0", o.s0, d.circ_std(r=r, bin_size=b)); M.eq("bounds", list(o.alpha_ub - o.alpha_lb), [b] * n); M.eq("bounds", list(o.alpha_lb), [x[i] - b / 2 for i in order])
    return f


def rotated(n, unit, with_w):
    """rotating on request equals giving rotated data"""
    def f(M):
        t, phi = M.angle("t", 0, .5), M.angle("phi", -7, 7); b = 2 * math.pi / n; x = [t + b * i for i in range(n)] if with_w else M.angles("x", n); w = [2, 1, 0, 1, 3, 0][:n]; kw = dict(w=np.array(w)) if with_w else {}
        if not with_w: wellbehaved(M, x)
        spread = lambda c: (lambda alpha=None, w=None, r=None, bin_size=None: 3 * r + c * (bin_size or 0)); b_ = M.m.base
        with patched(b_, "angular_std", spread(5), need=False), patched(b_, "circ_std", spread(7), need=False), quiet(M): o = build(M, x, unit, rotate=phi, **kw); p = build(M, [v + phi for v in x], unit, **kw)
        for i in range(n): M.angle_eq("rotated", o.alpha[i], x[i] + phi); M.le("within one turn", 0, o.alpha[i]); M.lt("within one turn", o.alpha[i], 2 * M.pi + 1e-9)
        M.angle_eq("mean", o.mean, p.mean); M.eq("r", o.r, p.r); M.eq("kappa", o.kappa, p.kappa)
        if with_w: M.eq("bin size", o.bin_size, b); M.eq("s", o.s, p.s); M.eq("s0", o.s0, p.s0)
    return f


def binned(n, unit, form):
    """every direction is counted in the bin that holds it"""
    def f(M):
        m = 4; E = [2 * M.pi * i / m for i in range(m + 1)] if form == "int" else [-M.pi + 2 * M.pi * i / m for i in range(m + 1)]
        ks = [M.choice("bin%d" % i, list(range(m))) for i in range(n)]; x = [E[0] + 2 * M.pi * (ks[i] + M.real("u%d" % i, .001, .999)) / m + M.choice("turns%d" % i, [0, 1, -1]) * 2 * M.pi for i in range(n)]
        with patched(M.m.base, "circ_mean_and_r", lambda alpha, w=None: (1.5, .4)), quiet(M) as Q: o = build(M, x, unit, bins=m if form == "int" else np.array([float(v) for v in E]))
        w = [int(v) for v in o.w]; M.ok("every observation counts", sum(w) == n and int(o.n) == n);
        for k in range(m): M.ok("count", w[k] == ks.count(k)); M.eq("centres", o.alpha[k], (E[k] + E[k + 1]) / 2)
        M.eq("bin size", o.bin_size, 2 * M.pi / m)
        g = Q.log.get("circ_median"); 
        if not g: raise Bypassed("median")
        g = args("", *g[0], ["alpha", "w"]); M.eq("median of the bins", list(g["alpha"]), [(E[k] + E[k + 1]) / 2 for k in range(m)]); M.ok("with counts", [int(v) for v in g["w"]] == w)
    return f


def limits(M):
    """which limits of the mean are reported: none without significance or below 8, bootstrap below 25, dispersion from 25"""
    n = M.choice("n", [5, 7, 8, 24, 25, 40]); p = M.real("p", 0, 1); M.assume(M.np.abs(p - .05) > 1e-6); x = [.3 + .1 * i for i in range(n)]; given = M.choice("given", [None, "bootstrap", "dispersion", "approximate"]); opt = None if given is None else {"method": given}; kw = {} if opt is None else {"kwargs_mean_ci": opt}
    with patched(M.m.base, "circ_mean_and_r", lambda alpha, w=None: (1.5, .4)), quiet(M, pval=p) as Q: o = build(M, x, "radian", **kw)
    sig = p < .05; want = given if given else "bootstrap" if sig and 8 <= n < 25 else "dispersion" if sig and n >= 25 else None; M.ok("method", o.method_mean_ci == want); M.ok("options unchanged", opt is None or opt == {"method": given})
    g = Q.log.get("rayleigh_test")
    if not g: raise Bypassed("Rayleigh")
    ray = g[0][1]; M.ok("Rayleigh of the sample", "alpha" in ray or ray.get("n") == n and abs(ray.get("r") - .4) < 1e-9); g = Q.log.get("circ_mean_ci", [])
    if want is None or not sig: M.ok("no limits", not g); M.is_nan("no limits", o.mean_lb); M.is_nan("no limits", o.mean_ub)
    else:
        M.ok("limits", len(g) == 1); k = args("", *g[0], ["alpha", "w", "mean", "r", "n", "ci", "method"]); M.eq("limits reported", [o.mean_lb, o.mean_ub], [.33, .44]); M.ok("limits by that method at .95", k["method"] == want and abs(k.get("ci", .95) - .95) < 1e-12 and abs(o.mean_ci_level - .95) < 1e-12)
        M.eq("limits of the data", list(k["alpha"]), x); M.ok("limits of the estimates", (k.get("mean") is None or abs(k["mean"] - 1.5) < 1e-9) and (k.get("r") is None or abs(k["r"] - .4) < 1e-9) and (k.get("n") is None or int(k["n"]) == n)); M.ok("with the frequencies", k.get("w") is None or [int(v) for v in k["w"]] == [1] * n)


def bootstrap(M):
    """limits of the mean from frequencies are those of the repeated observations"""
    d = D(M); w = np.array([M.choice("w%d" % i, [0, 1, 3]) for i in range(4)]); M.assume(w.sum() >= 2); x = np.array([.1, .4, .9, 1.2]); seen = []
    def boot(alpha, B=2000, ci=.95): seen.append((sorted(float(v) for v in np.asarray(alpha)), B, ci)); return .2, .7
    def disp(alpha, w=None, mean=None, ci=.95): seen.append((list(alpha), list(w), ci)); return .2, .7
    with patched(d, "_circ_mean_ci_bootstrap", boot): lb, ub = d.circ_mean_ci(alpha=x, w=w, ci=.9, method="bootstrap", B=77)
    M.ok("repeated observations", seen[0] == (sorted(float(v) for v in np.repeat(x, w)), 77, .9)); M.eq("limits", [lb, ub], [.2, .7]); M.raises("fractional frequencies", ValueError, lambda: d.circ_mean_ci(alpha=x, w=w + .5, method="bootstrap"))


def mixtures(M):
    """the mixture kept is the one of least information criterion among 1 to the largest number of clusters"""
    kmax = M.choice("max", [2, 3]); w = [M.int("w%d" % i, 1 if i == 0 else 0, 2) for i in range(3)]; x = [.3 + 2 * math.pi * i / 3 for i in range(3)]; B = [M.real("bic%d" % i, -5, 5) for i in range(kmax)]; nan = M.choice("nan", [None, 0, kmax - 1]); made = []
    if nan is not None: B[nan] = float("nan")
    class Mix:
        def __init__(self, n_clusters=5, full_cycle=360, unit="degree", random_seed=None, **k): self.k, self.unit, self.full = n_clusters, unit, full_cycle; made.append(self)
        def fit(self, X): self.X = X; return self
        def compute_BIC(self): return B[self.k - 1]
        def __getattr__(self, a): raise Bypassed(a)
    g = M.choice("grouped", [True, False]); unit = M.choice("unit", ["degree", "hour"])
    with patched(M.m.base, "MovM", Mix, need=False), patched(M.m.base, "circ_mean_and_r", lambda alpha, w=None: (1.5, .4)), quiet(M): o = build(M, x, unit, n_clusters_max=kmax, **(dict(w=np.array(w)) if g else {}))
    if not made: raise Bypassed("mixtures")
    M.ok("one mixture per number of clusters", [m.k for m in made] == list(range(1, kmax + 1)))
    for m in made: M.eq("fitted to the observations", sorted(float(v) * (1 if m.unit == "radian" else 2 * math.pi / m.full) for v in m.X), sorted(v for v, c in zip(x, w if g else [1] * 3) for _ in range(c)))
    best = o.mixture_opt; M.ok("kept", best in made)
    for i in range(kmax):
        if nan != i: M.le("least criterion", B[best.k - 1], B[i], tol=1e-9)
        else: M.ok("number", best.k - 1 != i)


def refused(M):
    """unequal lengths and a missing cycle length are refused; any number of bins is accepted"""
    b = M.m.base; M.raises("unequal lengths", (AssertionError, ValueError), lambda: b.Circular(np.array([0., 90., 180., 270.]), w=np.array([1, 2, 1]))); M.raises("cycle", ValueError, lambda: b.Circular(np.array([0., 90.]), unit="day"))
    for n in range(2, 200, 1 if M.sym else 1):
        with quiet(M), patched(b, "circ_mean_and_r", lambda alpha, w=None: (1.5, .4)): o = b.Circular(np.arange(n) * 360 / n, w=np.ones(n, dtype=int))
        M.ok("any number of bins", int(o.n) == n)


def printed(M):
    """the printed summary shows the statistics in the unit of the data"""
    unit = M.choice("unit", list(UNITS)); k = UNITS[unit][1]; sig = M.choice("p", [.03, .2]); n = 10; x = [.3 + .1 * i for i in range(n)]
    with patched(M.m.base, "circ_mean_and_r", lambda alpha, w=None: (1.5, .4)), patched(M.m.base, "angular_std", lambda **k: .77), patched(M.m.base, "circ_std", lambda **k: .88), quiet(M, pval=sig): o = build(M, x, unit); t = str(o); u = o.summary()
    M.ok("summary is the text", t == u); c = lambda v: "%.2f" % (float(v) * k / (2 * math.pi))
    for name, v in [("mean", c(1.5)), ("median", c(1.234)), ("median limits", c(.11) + " - " + c(.22)), ("s", c(o.s)), ("s0", c(o.s0)), ("r", "0.40"), ("kappa", "%.2f" % float(o.kappa)), ("skewness", "0.550"), ("kurtosis", "0.660"), ("size", str(n)), ("p", "%.4f" % sig)] + ([("mean limits", c(.33) + " - " + c(.44))] if sig < .05 else []): M.ok("prints the " + name, v in t)
    if sig >= .05: M.ok("no limits of the mean", c(.33) + " - " + c(.44) not in t)


def obligations(tier):
    q = tier == "quick"; B = "base.Circular.__init__"; o = []
    for u in UNITS: o.append(Obl("basics/2/" + u, basics(2, u), B + ", utils.data2rad", "2 directions in [-1,8), unit " + u))
    o += [Obl("basics/3", basics(3, "degree"), B, "3 directions in [-1,8)"), Obl("moments", moments(3, "degree"), B, "3 directions at any orientation"), Obl("moments/hour", moments(4, "hour"), B, "4 directions at any orientation")]
    o += [Obl("medians/%s" % u, medians(3, u, False), B, "3 directions at any orientation, options, contracts for median and limits") for u in ("degree", "hour", "radian")] + [Obl("medians/grouped", medians(3, "degree", True), B, "3 bins at any orientation, frequencies 0-2")]
    o += [Obl("grouped/%d/%s" % (n, u), grouped(n, u), B, "%d bins at any orientation, frequencies 0-2, three orders of the bins" % n) for n, u in [(3, "degree"), (4, "hour")] + ([] if q else [(5, "degree")])]
    o += [Obl("rotated/2", rotated(2, "degree", False), B + ", utils.rotate_data", "2 directions, any rotation in [-7,7)"), Obl("rotated/grouped", rotated(4, "degree", True), B + ", utils.rotate_data", "4 bins, any orientation and rotation"), Obl("rotated/grouped/hour", rotated(3, "hour", True), B, "3 bins, any orientation and rotation")]
    o += [Obl("binned/%s/%d" % (f, n), binned(n, "degree", f), B, "%d directions within one turn of the bins, 4 bins" % n) for f in ("int", "edges") for n in (2,)] + [Obl("binned/hour", binned(2, "hour", "int"), B, "2 directions within one turn of the bins, 4 bins")]
    o += [Obl("limits", limits, B, "6 sample sizes, any p-value"), Obl("bootstrap", bootstrap, "descriptive.circ_mean_ci", "4 fixed angles, frequencies 0,1,3"), Obl("mixtures", mixtures, B, "2 or 3 mixtures with any criteria, frequencies 0-2")]
    o += [Obl("refused", refused, B, "fixed data; 2 to 199 bins", weight=0), Obl("printed", printed, "base.Circular.__repr__, summary", "fixed statistics, all units", weight=0)]
    return o
