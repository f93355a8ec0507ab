"""C17 p-values are probabilities, fall with the strength of the evidence, and carry the published marks."""
import math
from symx.harness import Obl, patched
from props import c12, c13, c15, c16


def H(M): return M.m.hypothesis


def marks(M):
    p = M.real("p", 0, 1); c = M.m.utils.significance_code(p)
    want = "***" if M.true(p < 0.001) else "**" if M.true(p < 0.01) else "*" if M.true(p < 0.05) else "." if M.true(p < 0.1) else ""
    M.ok("mark", c.strip() == want)


def prob(M, p): M.ge("probability", p, 0); M.le("probability", p, 1)


def v_decreasing(M):
    n = M.choice("n", [1, 2, 9, 40]); r = M.real("r", 0, 1); s = M.real("s", 0, 1); a = M.real("a", 0, 3.1415); b = M.real("b", 0, 3.1415); h = M.real("h", -3, 3)
    t, u = H(M).V_test(h, mean=h + a, r=r, n=n), H(M).V_test(h, mean=h - b, r=s, n=n)
    if M.true(t.V <= u.V): M.le("larger component, smaller p", u.pval, t.pval)
    else: M.le("larger component, smaller p", t.pval, u.pval)


def concentration(n1, n2):
    def f(M):
        r1, r2 = M.real("r1", 0, 0.99), M.real("r2", 0, 0.99); s1 = M.real("s1", 0, 0.99); h = H(M); a = M.np.zeros(n1); b = M.np.ones(n2)
        def run(p, q):
            with patched(h, "circ_r", lambda x, *z, **k: p if float(x[0]) == 0 else q): return h.concentration_test(a, b)
        t, u = run(r1, r2), run(s1, r2); prob(M, t.pval)
        if M.true(t.f_stat >= 1.001) and M.true(u.f_stat >= t.f_stat): M.le("further above one, smaller p", u.pval, t.pval)
        if M.true(t.f_stat <= 0.999) and M.true(u.f_stat <= t.f_stat): M.le("further below one, smaller p", u.pval, t.pval)
    return f


def williams(ns):
    """resultants by contract: less spread inside the groups and the same pooled resultant is stronger evidence"""
    def f(M):
        h = H(M); N = sum(ns); k = len(ns); R = [M.real("r%d" % i, 0.01, 0.98) for i in range(k)]; S = [M.real("s%d" % i, 0.01, 0.98) for i in range(k)]; rp = M.real("r", 0, 0.98)
        for i in range(k): M.assume(R[i] <= S[i])
        M.assume(sum(ns[i] * R[i] for i in range(k)) >= N * rp)
        def run(q):
            def cr(alpha=None, w=None, *z, **kw): return rp if len(alpha) == N else q[int(float(alpha[0]))]
            with patched(h, "circ_r", cr), patched(h, "circ_kappa", lambda r, *z, **kw: 2.0), patched(h, "circ_mean", lambda *z, **kw: 0.0):
                d = [M.np.full(n, float(i)) for i, n in enumerate(ns)]
                return h.watson_williams_test(d), h.circ_anova(d)
        (t, a), (u, b) = run(R), run(S)
        for x in (t.pval, a.pval): prob(M, x)
        M.le("larger F", t.F, u.F); M.le("smaller p", u.pval, t.pval); M.le("larger F (anova)", a.statistic, b.statistic); M.le("smaller p (anova)", b.pval, a.pval)
    return f


def anova_lrt(M):
    h = H(M); ns = (2, 3); R = [0.5, 0.75]; m = [M.real("m%d" % i, 0, 3.1) for i in range(2)]; q = [M.real("q%d" % i, 0, 3.1) for i in range(2)]
    def run(v):
        def cr(alpha=None, *z, **kw): return 0.6 if len(alpha) == 5 else R[int(float(alpha[0]))]
        def cm(alpha=None, *z, **kw): return 0.0 if len(alpha) == 5 else v[int(float(alpha[0]))]
        with patched(h, "circ_r", cr), patched(h, "circ_mean", cm), patched(h, "circ_kappa", lambda r, *z, **kw: 2.0): return h.circ_anova([M.np.full(n, float(i)) for i, n in enumerate(ns)], method="LRT")
    t, u = run(m), run(q); prob(M, t.pval)
    if M.true(t.statistic <= u.statistic): M.le("larger statistic, smaller p", u.pval, t.pval)
    else: M.le("larger statistic, smaller p", t.pval, u.pval)


def watson2(n, n1):
    """every arrangement of the two samples around the circle, against each other"""
    def f(M):
        from itertools import combinations
        A = list(combinations(range(n), n1)); i = M.choice("first", list(range(len(A)))); j = M.choice("second", list(range(len(A))))
        x = M.ordered("x", n, 0, 6.28, 1e-3)
        def run(c): return H(M).watson_u2_test([M.arr([x[v] for v in c]), M.arr([x[v] for v in range(n) if v not in c])])
        t, u = run(A[i]), run(A[j]); prob(M, t.pval)
        if M.true(t.U2 <= u.U2): M.le("larger U2, smaller p", u.pval, t.pval)
    return f


def wheeler(n, n1):
    def f(M):
        from itertools import combinations
        A = list(combinations(range(n), n1)); i = M.choice("first", list(range(len(A)))); j = M.choice("second", list(range(len(A))))
        x = M.ordered("x", n, 0, 6.28, 1e-3)
        def run(c): return H(M).wheeler_watson_test([M.arr([x[v] for v in c]), M.arr([x[v] for v in range(n) if v not in c])])
        t, u = run(A[i]), run(A[j]); prob(M, t.pval)
        if M.true(t.W <= u.W - 1e-9): M.le("larger W, smaller p", u.pval, t.pval)
    return f


def wallraff(n1, n2):
    """distances by contract: any two rankings; the less balanced one has the smaller p"""
    def f(M):
        from itertools import combinations
        n = n1 + n2; A = list(combinations(range(n), n1)); i = M.choice("first", list(range(len(A)))); j = M.choice("second", list(range(len(A)))); h = H(M)
        d = M.ordered("d", n, 0, 3.14, 1e-3)
        def run(c): return h.wallraff_test([M.arr([d[v] for v in c]), M.arr([d[v] for v in range(n) if v not in c])], angle=0.0)
        t, u = run(A[i]), run(A[j]); prob(M, t.pval)
        a, b = abs(t.U - n1 * n2 / 2), abs(u.U - n1 * n2 / 2)
        if M.true(a <= b): M.le("less balanced, smaller p", u.pval, t.pval)
    return f


def wallraff_ties(M):
    """equal distances share their rank: the balanced case has the largest p"""
    d = M.ordered("d", 3, 0.01, 3.1, 1e-3); h = H(M); A = [([0, 0], [0, 0]), ([0, 1], [0, 1]), ([0, 1], [0, 2]), ([0, 2], [0, 1]), ([0, 0], [1, 1]), ([1, 1], [0, 2])]
    i, j = M.choice("first", list(range(6))), M.choice("second", list(range(6)))
    def run(c): return h.wallraff_test([M.arr([d[v] for v in c[0]]), M.arr([d[v] for v in c[1]])], angle=0.0)
    t, u = run(A[i]), run(A[j]); prob(M, t.pval)
    if M.true(abs(t.U - 2) <= abs(u.U - 2)): M.le("less balanced, smaller p", u.pval, t.pval)


def equal_kappa(ns, regime):
    def f(M):
        h = H(M); k = len(ns); N = sum(ns)
        r = [M.real("r%d" % i, 0, 0.81 if regime == "small" else 0.99) for i in range(k)]; s = [M.real("s%d" % i, 0, 0.81 if regime == "small" else 0.99) for i in range(k)]
        rp = M.real("r", *{"small": (0, 0.449), "moderate": (0.4501, 0.6999), "large": (0.7001, 1)}[regime]); data = [M.np.full(n, float(i)) for i, n in enumerate(ns)]
        def run(q):
            with patched(h, "circ_r", lambda x, *z, **kw: rp if len(x) == N else q[int(float(x[0]))]), patched(h, "circ_kappa", lambda r, *a, **q: 7 + r): return h.equal_kappa_test(data)
        t, u = run(r), run(s); prob(M, t.pval)
        if M.true(t.statistic <= u.statistic): M.le("larger statistic, smaller p", u.pval, t.pval)
    return f


def median(ns):
    def f(M):
        h = H(M); N = sum(ns); m = [M.int("m%d" % i, 0, n) for i, n in enumerate(ns)]; q = [M.int("q%d" % i, 0, n) for i, n in enumerate(ns)]
        for v in (m, q): M.assume(0 < sum(v) < N)
        def run(v):
            with patched(h, "circ_median", lambda x, *a, **z: 0.0): return h.common_median_test([M.np.array([-0.5] * v[i] + [0.5] * (n - v[i])) for i, n in enumerate(ns)])
        t, u = run(m), run(q); prob(M, t.pval)
        if t.statistic <= u.statistic: M.le("larger statistic, smaller p", u.pval, t.pval)
        M.ok("decision", bool(t.reject) == (float(t.pval) < 0.05))
    return f


def pseudo(name, kw):
    """resampling p-values: the observed sample counts once, so never zero and never above one"""
    def f(M):
        n = 2; x = M.arr(M.angles("x", n)); B = M.choice("B", [1, 2]); h = H(M); k = dict(kw)
        t = getattr(h, name)(x, n_simulation=B, seed=M.choice("seed", [1, 2]), **k); prob(M, t.pval)
    return f


def obligations(tier):
    q = tier == "quick"
    o = [Obl("marks", marks, "utils.significance_code", "every p in [0,1]"),
         Obl("rayleigh", c12.rayleigh_decreasing, "rayleigh_test", "n in 1, 2, 5, 20, 60; every pair of resultants"), Obl("rayleigh/range", c12.rayleigh_summary, "rayleigh_test", "n in 1..60"),
         Obl("rayleigh/bootstrap", c12.rayleigh_bootstrap, "rayleigh_test", "2 or 4 resamples"), Obl("v", v_decreasing, "V_test", "n in 1, 2, 9, 40; every pair of (mean, r)"), Obl("v/range", c12.v_summary, "V_test", "n in 1, 2, 9, 40"),
         Obl("chisquare", c13.chisquare_p, "chisquare_test", "2 sectors"), Obl("binomial", c13.binomial_large, "binomial_test", "n in 5, 10, 11, 20"),
         Obl("uniformity/same-angle", c15.same_angle, "kuiper_test, watson_test", "up to 60 equal angles"), Obl("anova-lrt", anova_lrt, "circ_anova", "means by contract"), Obl("rao-homogeneity", c16.rao_decision, "rao_homogeneity_test", "3+3")]
    o += [Obl("range/%d" % n, c13.range_prob(n), "circ_range_test", "n=%d, every pair of ranges" % n) for n in ((2, 3, 4) if q else (2, 3, 4, 5, 6))]
    o += [Obl("kuiper/%d" % n, c15.kuiper_p(n), "kuiper_test", "%d angles" % n) for n in (3, 5)] + [Obl("watson/%d" % n, c15.watson_p(n), "watson_test", "%d angles" % n) for n in (1, 2, 4)]
    o += [Obl("concentration/%d-%d" % z, concentration(*z), "concentration_test (resultants by contract)", "sizes %d, %d" % z) for z in ((2, 2), (3, 5))]
    o += [Obl("williams/%s" % "-".join(map(str, z)), williams(z), "watson_williams_test, circ_anova (resultants by contract)", "sizes %s" % (z,)) for z in ((2, 3), (2, 3, 4))]
    o += [Obl("watson-u2/%d-%d" % z, watson2(*z), "watson_u2_test", "n=%d, %d in the first sample, every pair of interleavings" % z) for z in ((4, 2), (5, 2))]
    o += [Obl("wheeler/%d-%d" % z, wheeler(*z), "wheeler_watson_test", "n=%d, %d in the first sample, every pair of interleavings" % z) for z in ((4, 2), (5, 2))]
    o += [Obl("wallraff/%d-%d" % z, wallraff(*z), "wallraff_test", "%d+%d distances, every pair of rankings" % z) for z in ((2, 2), (1, 3), (2, 3))]
    o += [Obl("wallraff/ties", wallraff_ties, "wallraff_test", "2+2 distances with ties, every pair of 6 patterns")]
    o += [Obl("equal-kappa/%s%s" % (g, "-".join(map(str, z))), equal_kappa(z, g), "equal_kappa_test (resultants by contract)", "sizes %s" % (z,)) for g, z in (("small", (5, 6)), ("moderate", (4, 5)), ("large", (3, 4)))]
    o += [Obl("median/%s" % "-".join(map(str, z)), median(z), "common_median_test (median by contract)", "sizes %s, every pair of counts" % (z,)) for z in ((2, 2), (2, 3))]
    return o
