"""C13 chi-square, range, binomial and symmetry tests."""
import math
from itertools import product
from symx.harness import Obl, patched


def H(M): return M.m.hypothesis


def chi2_sf(df, x):
    from scipy.stats import chi2
    return float(chi2.sf(x, df))


def chisquare(k):
    def f(M):
        w = [M.real("w%d" % i, 0, 50) for i in range(k)]; n = sum(w); M.assume(n >= 1)
        t = H(M).chisquare_test(M.arr(w)); e = n / k
        M.eq("statistic", t.chi2, sum((v - e) ** 2 for v in w) / e); M.ge("nonnegative", t.chi2, 0)
        M.ge("probability", t.pval, 0); M.le("probability", t.pval, 1)
        s = H(M).chisquare_test(M.arr(w[1:] + w[:1])); M.eq("sector order", s.chi2, t.chi2); M.eq("sector order p", s.pval, t.pval)
    return f


def chisquare_p(M):
    """two sectors: degrees of freedom and tail, at exact counts"""
    for w in ([10, 20], [3, 3, 9], [4, 0, 7, 1], [5, 5, 5, 5, 5]):
        x = sum((v - sum(w) / len(w)) ** 2 for v in w) / (sum(w) / len(w))
        M.eq("p-value", H(M).chisquare_test(M.np.array([float(v) for v in w])).pval, chi2_sf(len(w) - 1, x))
    a = M.real("a", 0, 50); b = M.real("b", 0, 50); M.assume(a <= b)
    s, t = H(M).chisquare_test(M.arr([20 + a, 20 - a + 40])), H(M).chisquare_test(M.arr([20 + 40, 20])) 
    M.ge("probability", s.pval, 0)
    u, v = H(M).chisquare_test(M.arr([50 + a, 50 - a])), H(M).chisquare_test(M.arr([50 + b, 50 - b]))
    M.le("more uneven, larger statistic", u.chi2, v.chi2); M.le("more uneven, smaller p", v.pval, u.pval)


def chisquare_errors(M):
    v = M.real("v", -5, -1e-9)
    M.raises("negative", ValueError, lambda: H(M).chisquare_test(M.arr([1, v])))
    M.raises("empty", ValueError, lambda: H(M).chisquare_test(M.np.array([]))); M.raises("matrix", ValueError, lambda: H(M).chisquare_test(M.np.ones((2, 2))))


def rao_p(M, n, G):
    """P(range <= r): alternating sum over the k gaps that can exceed 2 pi - r (G = uncovered fraction)"""
    p = 0
    for k in range(1, n + 1):
        u = 1 - k * G
        if M.true(u > 0): p = p + (-1) ** (k - 1) * math.comb(n, k) * u ** (n - 1)
    return p


def range_test(n, whole=False):
    def f(M):
        x = M.ordered("x", n, 0, 6.28, 1e-4)
        tau = 2 * M.pi; t = H(M).circ_range_test(M.arr(x))
        r = M.m.descriptive.circ_range(M.arr(x))
        M.eq("statistic", t.range_stat, r)
        M.eq("p-value", t.pval, rao_p(M, n, 1 - r / tau))
    return f


def range_prob(n):
    """the p-value as a function of the range alone: a probability, nondecreasing in the range"""
    def f(M):
        r = M.real("r", 1e-3, 2 * math.pi * (1 - 1.0 / n)); s = M.real("s", 1e-3, 2 * math.pi * (1 - 1.0 / n)); M.assume(r <= s)
        a = M.np.zeros(n)
        with patched(H(M), "circ_range", lambda v: r): p = H(M).circ_range_test(a).pval
        with patched(H(M), "circ_range", lambda v: s): q = H(M).circ_range_test(a).pval
        M.ge("probability", p, 0); M.le("probability", p, 1); M.le("wider range, larger p", p, q)
    return f


def range_rotation(M):
    x = M.ordered("x", 3, 0, 3, 0.01); t = M.real("t", 0, 3)
    a, b = H(M).circ_range_test(M.arr(x)), H(M).circ_range_test(M.arr([x[1], x[2], x[0]]) + t)
    M.eq("rotation and order", a.range_stat, b.range_stat); M.eq("p", a.pval, b.pval)


def range_errors(M):
    v = M.real("v", 6.3, 50)
    M.raises("not radians", ValueError, lambda: H(M).circ_range_test(M.arr([0.1, v]))); M.raises("not radians", ValueError, lambda: H(M).circ_range_test(M.arr([0.1, -v])))
    M.raises("empty", ValueError, lambda: H(M).circ_range_test(M.np.array([])))


def side(M, x, md):
    """+1: less than half a turn after md; -1: less than half a turn before it; 0: at it"""
    d = M.np.mod(x - md, 2 * M.pi)
    if M.true(d <= 0): return 0
    return 1 if M.true(d < M.pi) else -1


def clear(M, x, md):
    """not exactly at or opposite md, where rounding decides the side"""
    for v in x:
        r = M.np.mod(v - md, M.pi); M.assume(r >= 1e-6); M.assume(r <= M.pi - 1e-6)


def binomial(n):
    def f(M):
        x = M.angles("x", n); md = M.real("md", -7, 7); clear(M, x, md)
        s = [side(M, v, md) for v in x]; a, b = s.count(-1), s.count(1)
        t = H(M).binomial_test(M.arr(x), md)
        M.ok("before", int(t.n1) == a); M.ok("after", int(t.n2) == b); M.ok("total", int(t.n_eff) == a + b)
        M.eq("p-value", t.pval, min(1.0, 2 * sum(math.comb(n, i) for i in range(min(a, b) + 1)) / 2.0 ** n))
    return f


def binomial_large(M):
    """exact p-values for larger samples: k of n before the median"""
    n = M.choice("n", [5, 10, 11, 20]); k = M.int("k", 0, 20)
    if k > n: return M.ok("not a case", True)
    md = M.angle("md"); x = [md - 0.1 * (i + 1) for i in range(k)] + [md + 0.1 * (i + 1) for i in range(n - k)]
    t = H(M).binomial_test(M.arr(x), md)
    M.ok("before", int(t.n1) == k); M.ok("after", int(t.n2) == n - k)
    M.eq("p-value", t.pval, min(1.0, 2 * sum(math.comb(n, i) for i in range(min(k, n - k) + 1)) / 2.0 ** n))


def binomial_at(M):
    """observations at the median are left out"""
    md = 0.0; x = M.angle("x"); clear(M, [x], md)
    t = H(M).binomial_test(M.arr([md, x, md]), md)
    M.ok("one left", int(t.n_eff) == 1); M.eq("p", t.pval, 1)
    t = H(M).binomial_test(M.arr([md, md]), md); M.ok("none left", int(t.n_eff) == 0); M.eq("p", t.pval, 1)
    M.raises("vector", ValueError, lambda: H(M).binomial_test(M.arr([x]), M.np.array([1.0, 2.0]))); M.raises("empty", ValueError, lambda: H(M).binomial_test(M.np.array([]), 0.0))


def signed(M, x, md): return M.np.mod(x - md + M.pi, 2 * M.pi) - M.pi


def wilcoxon(d):
    """signed ranks without ties: smaller rank sum and its exact two-sided p-value"""
    n = len(d)
    rk = [sum(1 for e in d if abs(e) <= abs(v)) for v in d]
    wp = sum(r for r, v in zip(rk, d) if v > 0); w = min(wp, n * (n + 1) // 2 - wp)
    c = sum(1 for s in product((0, 1), repeat=n) if sum(r for r, b in zip(range(1, n + 1), s) if b) <= w)
    return w, min(1.0, 2.0 * c / 2 ** n)



def symmetry(n):
    def f(M):
        md = M.real("md", -7, 7); m = [M.real("d%d" % i, 1e-3, 3.14) for i in range(n)]
        sg = [M.choice("s%d" % i, [-1, 1]) for i in range(n)]
        for i in range(n):
            for j in range(i): M.assume(M.np.abs(m[i] - m[j]) >= 1e-4)
        rk = [1 + sum(1 for j in range(n) if j != i and M.true(m[j] < m[i])) for i in range(n)]
        turns = [M.choice("turn%d" % i, [0, -1, 1]) if i < 2 else 0 for i in range(n)]
        t = H(M).symmetry_test(M.arr([md + s * v + 2 * M.pi * q for s, v, q in zip(sg, m, turns)]), median=md)
        w, p = wilcoxon([s * r for s, r in zip(sg, rk)])
        M.eq("smaller signed-rank sum", t.statistic, w); M.eq("p-value", t.pval, p)
    return f


def symmetry_median(M):
    """without a given median the sample's own is used; rotating the data changes nothing"""
    x = M.angles("x", 3); c = M.real("t", -7, 7); md = M.angle("md")
    d = [signed(M, v, md) for v in x]
    for i in range(3):
        M.assume(M.np.abs(d[i]) >= 1e-4); M.assume(M.np.abs(d[i]) <= 3.1415)
        for j in range(i): M.assume(M.np.abs(M.np.abs(d[i]) - M.np.abs(d[j])) >= 1e-4)
    a = H(M).symmetry_test(M.arr(x), median=md)
    b = H(M).symmetry_test(M.arr([x[2], x[0], x[1]]) + c, median=md + c)
    M.eq("rotation and order", a.statistic, b.statistic); M.eq("p", a.pval, b.pval)
    with patched(H(M), "circ_median", lambda alpha, **k: md): e = H(M).symmetry_test(M.arr(x))
    M.eq("own median", e.statistic, a.statistic)
    M.raises("empty", ValueError, lambda: H(M).symmetry_test(M.np.array([])))


def obligations(tier):
    q = tier == "quick"
    C, R, B, S = ("hypothesis." + s for s in ("chisquare_test", "circ_range_test", "binomial_test", "symmetry_test"))
    o = [Obl("chisquare/n%d" % k, chisquare(k), C, "%d real frequencies in [0,50]" % k) for k in (2, 3, 5)]
    o += [Obl("chisquare/p", chisquare_p, C, ""), Obl("chisquare/errors", chisquare_errors, C, "")]
    o += [Obl("range/n%d" % n, range_test(n), R, "%d sorted angles in [0,6.28]" % n) for n in ((2, 3, 4) if q else (2, 3, 4, 5, 6))]
    o += [Obl("range/probability%d" % n, range_prob(n), R + " (range by its contract)", "n=%d, every range" % n) for n in ((2, 3, 4) if q else (2, 3, 4, 5))]
    o += [Obl("range/rotation", range_rotation, R, "3 angles within 3 radians, rotation in [0,3]"), Obl("range/errors", range_errors, R, "")]
    o += [Obl("binomial/n%d" % n, binomial(n), B, "%d angles" % n) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    o += [Obl("binomial/large", binomial_large, B, "n in 5, 10, 11, 20"), Obl("binomial/at", binomial_at, B, "")]
    o += [Obl("symmetry/n%d" % n, symmetry(n), S, "%d deviations" % n) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    o += [Obl("symmetry/median", symmetry_median, S, "3 angles")]
    return o
