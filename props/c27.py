"""C27 axial data."""
import math
import numpy as np
from symx.harness import Bypassed, Obl, patched
from props.c26 import UNITS, args, build, quiet, wellbehaved

KEYS = ["r", "R", "s", "s0", "kappa", "skewness", "kurtosis", "mean", "mean_lb", "mean_ub", "median", "median_lb", "median_ub"]


def axial(M, rad, unit, **kw): return build(M, rad, unit, "Axial", **kw)


def doubled(n, unit, wts):
    """the summary is that of the doubled directions, with directions halved"""
    def f(M):
        x = M.angles("x", n, -1, 8); wellbehaved(M, [2 * v for v in x]); w = None; d = M.m.descriptive; b = M.m.base; kw = {}
        with patched(b, "circ_kappa", lambda r, n=None: 7 * r + n), quiet(M, pval=.01) as Q: o = axial(M, x, unit, as_list=M.choice("list", [0, 1]), kwargs_mean_ci={"method": "bootstrap"})
        for i in range(n): M.angle_eq("doubled angles", o.alpha_double[i], 2 * x[i]); M.eq("angles", o.alpha[i], x[i])
        m, r = d.circ_mean_and_r(alpha=M.arr([2 * v for v in x])); M.eq("r", o.r, r); M.eq("R", o.R, n * r); M.eq("kappa", o.kappa, 7 * r + n); M.angle_eq("mean", 2 * o.mean, m); M.le("mean in half a turn", 0, o.mean); M.lt("mean in half a turn", o.mean, M.pi + 1e-9)
        M.eq("limits of the mean", [2 * o.mean_lb, 2 * o.mean_ub], [.33, .44]); M.eq("median", 2 * o.median, 1.234); M.eq("limits of the median", [2 * o.median_lb, 2 * o.median_ub], [.11, .22]); M.eq("s", o.s, d.angular_std(r=r)); M.eq("s0", o.s0, d.circ_std(r=r)); M.eq("shape", [o.skewness, o.kurtosis], [.55, .66])
        g = Q.log.get("circ_median")
        if not g: raise Bypassed("median")
        a = args("", *g[0], ["alpha", "w"])["alpha"]
        for i in range(n): M.angle_eq("median of the doubled angles", a[i], 2 * x[i])
        M.eq("data kept", list(o.data), [v * UNITS[unit][1] / (2 * M.pi) for v in x])
    return f


def reversed_(n, unit):
    """replacing observations by their opposites changes no summary"""
    def f(M):
        x = M.angles("x", n, 0, 3.1); k = [M.choice("k%d" % i, [0, 1, -1, 2] if i else [1]) for i in range(n)]; b = M.m.base
        def both(y):
            seen = []
            def mean(alpha, w=None): seen.append(list(alpha)); return 1.5, .4
            with patched(b, "circ_mean_and_r", mean), quiet(M) as Q: o = axial(M, y, unit)
            g = Q.log.get("circ_median")
            if not g: raise Bypassed("median")
            return o, list(args("", *g[0], ["alpha", "w"])["alpha"]), seen[0]
        (o, a, c), (p, e, g) = both(x), both([v + q * M.pi for v, q in zip(x, k)])
        for i in range(n): M.eq("same doubled angles", a[i], e[i]); M.eq("same doubled angles for the mean", c[i], g[i]); M.eq("kept doubled angles", o.alpha_double[i], p.alpha_double[i]); M.le("within one turn", 0, a[i]); M.lt("within one turn", a[i], 2 * M.pi + 1e-9)
        for q in ("r", "R", "s", "s0", "kappa", "median", "mean"): M.eq(q, getattr(o, q), getattr(p, q))
    return f


def real_median(unit):
    """the median of axial data, without contract: half the median of the doubled directions"""
    def f(M):
        t = M.angle("t", .1, .5); x = [t, t + .4, t + .9]; k = [M.choice("k%d" % i, [0, 1]) for i in range(3)]; d = M.m.descriptive
        with quiet(M, keep=("circ_median",)): o = axial(M, [v + q * M.pi for v, q in zip(x, k)], unit)
        M.eq("median", o.median, d.circ_median(alpha=M.arr([2 * v for v in x])) / 2)
    return f


def grouped(n, unit):
    """frequencies count as repeated axes"""
    def f(M):
        t = M.angle("t", 0, .3); x = [t + math.pi * i / n for i in range(n)]; w = [M.int("w%d" % i, 0, 2) for i in range(n)]; N = sum(w); C = sum(w[i] * math.cos(2 * math.pi * i / n) for i in range(n)); S = sum(w[i] * math.sin(2 * math.pi * i / n) for i in range(n)); M.assume(N > 0 and N * .01 < math.hypot(C, S) < .9 * N); d = M.m.descriptive
        with patched(M.m.base, "circ_kappa", lambda r, n=None: 7 * r + n), quiet(M): o = axial(M, x, unit, w=np.array(w))
        m, r = d.circ_mean_and_r(alpha=M.arr([2 * x[i] for i in range(n) for _ in range(w[i])])); M.angle_eq("mean", 2 * o.mean, m); M.eq("r", o.r, r); M.ok("n", int(o.n) == N); M.eq("bin size of the doubled bins", o.bin_size, 2 * math.pi / n); M.eq("median", 2 * o.median, 1.234); M.ok("no limits", not hasattr(o, "median_lb"))
    return f


def binned(n, unit):
    """binning counts every axis once, at the bin of its doubled direction"""
    def f(M):
        m = 4; ks = [M.choice("bin%d" % i, list(range(m))) for i in range(n)]; x = [M.pi * (ks[i] + M.real("u%d" % i, .001, .999)) / m + M.choice("turns%d" % i, [0, 1, -1, 2]) * M.pi for i in range(n)]
        with patched(M.m.base, "circ_mean_and_r", lambda alpha, w=None: (1.5, .4)), quiet(M): o = axial(M, x, unit, bins=m)
        w = [int(v) for v in o.w]; M.ok("counts", sum(w) == n and int(o.n) == n); M.ok("one angle per count", len(o.alpha) == m)
        for k in range(m): c = 2 * M.pi * (k + .5) / m; M.eq("doubled centres", o.alpha_double[k], c); M.eq("centres", 2 * o.alpha[k], c); M.ok("count", w[k] == ks.count(k))
    return f


def obligations(tier):
    B = "base.Axial.__init__, Circular.__init__"; o = []
    for u in UNITS: o.append(Obl("doubled/2/" + u, doubled(2, u, 0), B, "2 axes in [-1,8), unit " + u))
    o += [Obl("doubled/3", doubled(3, "degree", 0), B, "3 axes in [-1,8)")] + [Obl("reversed/2/" + u, reversed_(2, u), B, "2 axes, any of them reversed") for u in UNITS] + [Obl("reversed/3", reversed_(3, "degree"), B, "3 axes, any of them reversed")]
    o += [Obl("median/" + u, real_median(u), B + ", descriptive.circ_median", "3 axes within a quarter turn, any of them reversed") for u in ("degree", "radian")]
    o += [Obl("grouped/" + u, grouped(3, u), B, "3 bins at any orientation, frequencies 0-2") for u in ("degree", "hour")] + [Obl("binned", binned(2, "degree"), B, "2 axes in [-pi,3pi), 4 bins")]
    return o
