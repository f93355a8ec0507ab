"""C16 concentration, homogeneity, common median, two-factor and change-point tests."""
import math
from fractions import Fraction
from itertools import product
from symx.harness import Obl, abstract_call, abstract_np, patched


def Q(a, b=1): return Fraction(a, b)
def H(M): return M.m.hypothesis
def D(M): return M.m.descriptive


def res(M, a):
    C = sum(M.np.cos(v) for v in a); S = sum(M.np.sin(v) for v in a); return M.np.sqrt(C * C + S * S)


def angles(M, p, n): return [M.real("%s%d" % (p, i), 0, 6.28) for i in range(n)]


# ---------------------------------------------------------------- concentration test
def concentration(n1, n2):
    def f(M):
        a, b = angles(M, "a", n1), angles(M, "b", n2); R1, R2 = res(M, a), res(M, b); h = H(M)
        M.assume(n1 - R1 > 1e-3); M.assume(n2 - R2 > 1e-3)
        t = h.concentration_test(M.arr(a), M.arr(b)); F = t.f_stat
        M.eq("F", F * (n1 - 1) * (n2 - R2), (n2 - 1) * (n1 - R1)); M.ok("df", t.df1 == n1 - 1 and t.df2 == n2 - 1)
        M.assume(abs(F - 1) > 1e-6)
        up = M.true(F >= 1)
        p = 2 * (h.f.sf(F, n1 - 1, n2 - 1) if up else h.f.sf(1 / F, n2 - 1, n1 - 1))
        M.eq("two-sided p", t.pval, M.np.minimum(p, 1)); M.ge("probability", t.pval, 0); M.le("probability", t.pval, 1)
        s = h.concentration_test(M.arr(b), M.arr(a)); M.eq("samples exchanged", s.f_stat * F, 1)
    return f


def conc_contract(M, n1, n2):
    """the resultants replaced by their contract"""
    r1 = M.real("r1", 0, 0.99); r2 = M.real("r2", 0, 0.99); h = H(M); a = M.np.zeros(n1); b = M.np.ones(n2)
    it = [r1, r2]
    def circ_r(x, *q, **k): return r1 if len(x) == n1 and (n1 != n2 or float(x[0]) == 0) else r2
    with patched(h, "circ_r", circ_r): return r1, r2, h.concentration_test(a, b), h.concentration_test(b, a)


def concentration_any(n1, n2):
    def f(M):
        r1, r2, t, s = conc_contract(M, n1, n2); h = H(M)
        M.eq("F", t.f_stat * (n1 - 1) * n2 * (1 - r2), (n2 - 1) * n1 * (1 - r1), tol=1e-5)
        M.assume(abs(t.f_stat - 1) > 1e-6)
        p = 2 * (h.f.sf(t.f_stat, n1 - 1, n2 - 1) if M.true(t.f_stat >= 1) else h.f.sf(1 / t.f_stat, n2 - 1, n1 - 1))
        M.eq("two-sided p", t.pval, M.np.minimum(p, 1)); M.eq("samples exchanged", s.f_stat * t.f_stat, 1); M.eq("samples exchanged p", s.pval, t.pval)
    return f


def concentration_rotation(M):
    a, b = angles(M, "a", 2), angles(M, "b", 2); c = M.real("t", -7, 7); h = H(M)
    M.assume(2 - res(M, a) > 1e-3); M.assume(2 - res(M, b) > 1e-3)
    t = h.concentration_test(M.arr(a), M.arr(b)); u = h.concentration_test(M.arr(a[::-1]) + c, M.arr(b) + c)
    M.eq("rotation", u.f_stat, t.f_stat)


def concentration_errors(M):
    h = H(M); a = M.arr(angles(M, "a", 2)); x = M.angle("x")
    M.raises("one observation", ValueError, lambda: h.concentration_test(a, M.arr([x]))); M.raises("one observation", ValueError, lambda: h.concentration_test(M.arr([x]), a))


# ---------------------------------------------------------------- Rao's homogeneity test
def moments(M, N, x):
    """mean, sample variance and covariance of cosine and sine, through the same abstract functions"""
    c, s = M.np.cos(M.arr(x)), M.np.sin(M.arr(x))
    return N.mean(c), N.mean(s), N.var(c, ddof=1), N.var(s, ddof=1), N.cov(c, s, ddof=1)[0, 1]


def wls(M, y, v):
    """weighted sum of squares about the weighted mean, weights 1/v"""
    return sum(y[i] ** 2 / v[i] for i in range(len(y))) - sum(y[i] / v[i] for i in range(len(y))) ** 2 / sum(1 / v[i] for i in range(len(y)))


def rao_parts(M, N, g):
    U, v, T, vp = [], [], [], []
    for x in g:
        n = len(x); mc, ms, vc, vs, cov = moments(M, N, x); M.assume(abs(mc) > 0.05)
        U.append(mc * mc + ms * ms); v.append((mc * mc * vc + ms * ms * vs + 2 * mc * ms * cov) * 4 / n)
        T.append(ms / mc); vp.append((vs / mc ** 2 + ms ** 2 * vc / mc ** 4 - 2 * ms * cov / mc ** 3) / n)
    for q in v + vp: M.assume(q > 1e-3)
    return U, v, T, vp


def rao(ns):
    def f(M):
        g = [angles(M, "g%d_" % i, n) for i, n in enumerate(ns)]
        with abstract_np(M, H(M), ("mean", "var", "cov")) as N:
            U, v, T, vp = rao_parts(M, N, g)
            t = H(M).rao_homogeneity_test([M.arr(x) for x in g], alpha=0.05); u = H(M).rao_homogeneity_test([M.arr(x) for x in g[::-1]])
        M.eq("dispersions", t.H_disp, wls(M, U, v)); M.eq("directions", t.H_polar, wls(M, T, vp))
        M.eq("p", t.pval_disp, 1 - H(M).chi2.cdf(t.H_disp, len(ns) - 1)); M.eq("p", t.pval_polar, 1 - H(M).chi2.cdf(t.H_polar, len(ns) - 1))
        M.eq("groups exchanged", u.H_disp, t.H_disp); M.eq("groups exchanged", u.H_polar, t.H_polar)
    return f


def rao_decision(M):
    """the decision compares the statistic with the chi-square quantile at the level given"""
    a = M.choice("level", [0.05, 0.01, 0.5]); g = [angles(M, "g0_", 3), angles(M, "g1_", 3)]
    with abstract_np(M, H(M), ("mean", "var", "cov")) as N:
        rao_parts(M, N, g); t = H(M).rao_homogeneity_test([M.arr(x) for x in g], alpha=a)
    from scipy.stats import chi2
    q = float(chi2.ppf(1 - a, 1)); M.assume(abs(t.H_disp - q) > 1e-6); M.assume(abs(t.H_polar - q) > 1e-6)
    M.ok("dispersion", bool(t.reject_disp) == M.true(t.H_disp > q)); M.ok("direction", bool(t.reject_polar) == M.true(t.H_polar > q))


def rao_errors(M):
    M.raises("not a list", ValueError, lambda: H(M).rao_homogeneity_test((M.np.ones(3),))); M.raises("not arrays", ValueError, lambda: H(M).rao_homogeneity_test([[0.1, 0.2], [0.3, 0.4]]))


# ---------------------------------------------------------------- equal concentration
def equal_kappa(ns, regime):
    """resultants replaced by their contract: any group and pooled mean resultant lengths"""
    def f(M):
        h = H(M); k = len(ns); N = sum(ns); r = [M.real("r%d" % i, 0, 0.81 if regime == "small" else 0.99) for i in range(k)]
        rp = M.real("r", *{"small": (0, 0.449), "moderate": (0.4501, 0.6999), "large": (0.7001, 1)}[regime])
        data = [M.np.full(n, float(i)) for i, n in enumerate(ns)]
        def cr(x, *q, **kw): return rp if len(x) == N else r[int(float(x[0]))]
        with patched(h, "circ_r", cr), patched(h, "circ_kappa", lambda r, *a, **q: 7 + r):
            t = h.equal_kappa_test(data); u = h.equal_kappa_test(data[::-1])
        if regime == "large":
            v = [n - 1 for n in ns]; d = (sum(1.0 / x for x in v) - 1.0 / (N - k)) / (3 * (k - 1)); e = [ns[i] * (1 - r[i]) for i in range(k)]
            chi = ((N - k) * M.np.log(sum(e) / (N - k)) - sum(v[i] * M.np.log(e[i] / v[i]) for i in range(k))) / (1 + d)
        elif regime == "small":
            w = [4.0 * (n - 4) / 3 for n in ns]; g = [M.np.arcsin(M.np.sqrt(3 / 8) * 2 * x) for x in r]
            chi = sum(w[i] * g[i] ** 2 for i in range(k)) - sum(w[i] * g[i] for i in range(k)) ** 2 / sum(w)
        else:
            w = [Q(n - 3) * 1000 / 798 for n in ns]; g = [M.np.arcsinh((x - Q(1089, 1000)) / Q(258, 1000)) for x in r]
            chi = sum(w[i] * g[i] ** 2 for i in range(k)) - sum(w[i] * g[i] for i in range(k)) ** 2 / sum(w)
        M.eq("statistic", t.statistic, chi); M.ok("regime", t.regime == regime); M.ok("df", t.df == k - 1)
        M.eq("p", t.pval, 1 - h.chi2.cdf(t.statistic, k - 1)); M.eq("groups exchanged", u.statistic, t.statistic)
        for i in range(k): M.eq("group resultant", t.rho[i], r[i]); M.eq("group kappa", t.kappa[i], 7 + r[i])
        M.eq("pooled resultant", t.rho_all, rp); M.eq("pooled kappa", t.kappa_all, 7 + rp)
    return f


def equal_kappa_data(M):
    h = H(M); a, b = angles(M, "a", 2), angles(M, "b", 2); M.assume(2 - res(M, a) > 1e-3); M.assume(2 - res(M, b) > 1e-3); R = res(M, a + b); M.assume(R > 4 * 0.701)
    with patched(h, "circ_kappa", lambda r, *x, **q: 7 + r):
        t = h.equal_kappa_test([M.arr(a), M.arr(b)])
    M.eq("resultants", t.rho[0] * 2, res(M, a)); M.eq("resultants", t.rho[1] * 2, res(M, b)); M.eq("pooled", t.rho_all * 4, R); M.ok("regime", t.regime == "large")


def equal_kappa_errors(M):
    h = H(M); a = M.arr(angles(M, "a", 2)); x = M.angle("x")
    M.raises("one group", ValueError, lambda: h.equal_kappa_test([a])); M.raises("empty group", ValueError, lambda: h.equal_kappa_test([a, M.np.array([])])); M.raises("one observation", ValueError, lambda: h.equal_kappa_test([a, M.arr([x])]))
    def cr(x, *q, **k): return 1.0
    with patched(h, "circ_r", cr), patched(h, "circ_kappa", lambda r, *x, **q: 7 + r): M.raises("no dispersion", ValueError, lambda: h.equal_kappa_test([a, a]))


# ---------------------------------------------------------------- common median
def side(M):
    """circ_dist by contract: the sign of the signed distance"""
    def f(x, y, *a, **q):
        out = []
        for v in x:
            d = M.np.mod(v - y, 2 * M.pi); out.append(0.0 if M.true(d <= 0) else -1.0 if M.true(d > M.pi) else 1.0)
        return M.np.array(out)
    return f


def common_median(ns):
    """the pooled median replaced by its contract (any angle)"""
    def f(M):
        h = H(M); N = sum(ns); k = len(ns); g = [[M.angle("g%d_%d" % (i, j)) for j in range(n)] for i, n in enumerate(ns)]; med = M.angle("median"); m = []; level = M.choice("level", [0.05, 0.3])
        for x in g:
            c = 0
            for v in x:
                d = M.np.mod(v - med, 2 * M.pi); M.assume(d > 1e-6); M.assume(abs(d - M.pi) > 1e-6); M.assume(d < 2 * M.pi - 1e-6); c += 1 if M.true(d > M.pi) else 0
            m.append(c)
        tot = sum(m); seen = []
        def cm(x, *a, **q): seen.append(x); return med
        data = [M.arr(x) for x in g]
        with patched(h, "circ_median", cm), patched(h, "circ_dist", side(M)):
            if tot in (0, N): return M.raises("all on one side", ValueError, lambda: h.common_median_test(data, alpha=level))
            t = h.common_median_test(data, alpha=level); u = h.common_median_test(data[::-1], alpha=level)
        P = N ** 2 / (tot * (N - tot)) * sum(m[i] ** 2 / ns[i] for i in range(k)) - N * tot / (N - tot)
        from scipy.stats import chi2
        p = float(chi2.sf(P, k - 1))
        M.eq("statistic", t.statistic, P); M.eq("p", t.pval, p); M.ok("decision", bool(t.reject) == (p < level)); M.eq("groups exchanged", u.statistic, P)
        M.ok("pooled data", len(seen[0]) == N)
        M.eq("within the pooled sample", sum(M.np.cos(v) for v in seen[0]), sum(M.np.cos(v) for x in g for v in x))
        if t.reject: M.is_nan("no common median", t.common_median)
        else: M.eq("median", t.common_median, med)
    return f


def common_median_data(M):
    """the pooled median is an observation: it lies on neither side, whatever the orientation of the data"""
    x = M.ordered("x", 3, 0, 1.5, 1e-2); c = M.real("t", 0, 3); h = H(M); pat = M.choice("groups", [((0,), (1, 2)), ((1,), (0, 2)), ((2, 0), (1,)), ((0, 1), (2,))])
    def run(c):
        data = [M.arr([x[i] + c for i in p]) for p in pat]
        if not M.sym: return h.common_median_test(data, alpha=1e-9)
        # C07: the median of three angles within half a turn is the middle one
        with patched(h, "circ_median", lambda a, *q, **k: M.np.mod(x[1] + c, 2 * M.pi)), patched(h, "circ_dist", side(M)): return h.common_median_test(data, alpha=1e-9)
    for v in x: M.assume(abs(M.np.mod(v + c, 2 * M.pi) - M.pi) < M.pi - 1e-6)
    t, u = run(0.0), run(c)
    P = 9 / 2.0 * sum((0 in p) / len(p) for p in pat) - 3 / 2.0
    M.eq("statistic", t.statistic, P); M.eq("rotated statistic", u.statistic, P); M.eq("median", t.common_median, x[1]); M.eq("rotated median", u.common_median, M.np.mod(x[1] + c, 2 * M.pi))


def common_median_errors(M):
    h = H(M); a = M.arr(angles(M, "a", 2)); v = M.real("level", -5, 5); M.assume(abs(v - 0.5) > 0.5)
    M.raises("level", ValueError, lambda: h.common_median_test([a, a], alpha=v)); M.raises("one group", ValueError, lambda: h.common_median_test([a])); M.raises("empty", ValueError, lambda: h.common_median_test([a, M.np.array([])]))


# ---------------------------------------------------------------- change point
def change_point(n):
    def f(M):
        x = [M.real("x%d" % i, 0, 6.28) for i in range(n)]; h = H(M)
        R = res(M, x); R1 = [res(M, x[:k]) for k in range(1, n)]; R2 = [res(M, x[k:]) for k in range(1, n)]
        for k in range(n - 1): M.assume(R1[k] < 0.999 * (k + 1) if k else True); M.assume(R2[k] < 0.999 * (n - 1 - k) if k < n - 2 else True)
        with abstract_call(M, h, "A1inv", lo=0), abstract_call(M, h, "i0", lo=1):
            t = h.change_point_test(M.arr(x))
            phi = lambda r: r * h.A1inv(r) - M.np.log(h.i0(h.A1inv(r)))
            V = [float(k) / n * phi(R1[k - 1] / k) + float(n - k) / n * phi(R2[k - 1] / (n - k)) for k in range(2, n - 1)]
        M.eq("mean resultant length", t.rho * n, R); M.ok("n", t.n == n)
        d = [R1[k] + R2[k] - R for k in range(n - 1)] + [0 * R]
        M.eq("average excess resultant", t.rave * n, sum(d)); M.eq("average likelihood ratio", t.tave * len(V), sum(V))
        M.eq("largest excess", t.rmax, M.np.max(M.arr(d))); M.eq("largest likelihood ratio", t.tmax, M.np.max(M.arr(V)))
        M.eq("where (resultants)", t.rmax, d[int(t.k_r)]); M.eq("where (likelihood)", t.tmax, V[int(t.k_t) - 1])
    return f


def change_rotation(M):
    n = 4; x = [M.real("x%d" % i, 0, 6.28) for i in range(n)]; h = H(M); c = M.real("t", -7, 7)
    with abstract_call(M, h, "A1inv", lo=0), abstract_call(M, h, "i0", lo=1): t = h.change_point_test(M.arr(x)); u = h.change_point_test(M.arr(x) + c)
    M.eq("rho", u.rho, t.rho); M.eq("rmax", u.rmax, t.rmax); M.eq("rave", u.rave, t.rave); M.eq("tmax", u.tmax, t.tmax); M.eq("tave", u.tave, t.tave)


def change_errors(M):
    n = M.choice("n", [0, 1, 2, 3]); M.raises("too short", ValueError, lambda: H(M).change_point_test(M.arr([M.angle("x%d" % i) for i in range(n)]) if n else M.np.array([])))


# ---------------------------------------------------------------- two factors
def layout(cells):
    """labels: observation k is the number k, in cell (i, j)"""
    a, b = [], []
    for (i, j), n in cells.items(): a += [i] * n; b += [j] * n
    return a, b


def harrison(cells, high, inter):
    def f(M):
        h = H(M); ia, ib = layout(cells); n = len(ia); ids = [0.5 + k for k in range(n)]; kap = M.real("kappa", 2.001, 60) if high else M.real("kappa", 0.01, 1.999)
        rv = {}
        def r_of(ix):
            key = tuple(sorted(ix))
            if key not in rv: rv[key] = M.real("r" + "_".join(map(str, key)), 0, 0.95)
            return rv[key]
        def cr(x, *q, **kw): return r_of([int(float(v)) for v in x])
        A, B = sorted(set(ia)), sorted(set(ib)); p, q = len(A), len(B)
        tot = r_of(range(n)); rows = {i: [k for k in range(n) if ia[k] == i] for i in A}; cols = {j: [k for k in range(n) if ib[k] == j] for j in B}
        cell = {(i, j): [k for k in rows[i] if ib[k] == j] for i in A for j in B}
        S = lambda G: sum((len(ix) * r_of(ix)) ** 2 / len(ix) for ix in G); T2 = n * tot ** 2
        SA, SB, SC = S(rows.values()), S(cols.values()), S(cell.values()); seen = []
        def ck(r, *a, **kw): seen.append(r); return kap
        if high and inter: M.assume(n - SC > 0.05)
        if high and not inter: M.assume(n - SA - SB + T2 > 0.05)
        if not high: M.assume(h.iv(1, kap) < h.iv(0, kap)); M.assume(h.iv(1, kap) > 0)
        with patched(h, "circ_r", cr), patched(h, "circ_kappa", ck): t = h.harrison_kanji_test(M.np.array(ids), M.np.array(ia), M.np.array(ib), inter=inter)
        M.eq("concentration of the pooled sample", seen[0], tot)
        tab = t.anova_table; get = lambda r, c: tab.loc[r, c]
        if high:
            m = n / (p * q); beta = 1 / (1 - 1 / (5 * kap) - 1 / (10 * kap ** 2)) if inter else 1
            e1, e2, et = SA - T2, SB - T2, n - T2
            er, dr = (n - SC, p * q * (m - 1)) if inter else (n - SA - SB + T2, (p - 1) * (q - 1))
            for nm, e, d in (("A", e1, p - 1), ("B", e2, q - 1), ("Residual", er, dr)):
                M.eq("SS " + nm, get(nm, "SS"), e); M.eq("DoF " + nm, get(nm, "DoF"), d); M.eq("MS " + nm, get(nm, "MS") * d, e)
            M.eq("SS total", get("Total", "SS"), et); M.eq("DoF total", get("Total", "DoF"), n - 1)
            for nm, e, d, ix in (("A", e1, p - 1, 0), ("B", e2, q - 1, 1)):
                M.eq("F " + nm, get(nm, "F") * d * er, beta * e * dr, tol=1e-5); M.eq("p " + nm, t.p_values[ix], 1 - h.f.cdf(get(nm, "F"), d, dr))
            if inter:
                di = (p - 1) * (q - 1); ei = SC - SA - SB + T2
                M.eq("SS interaction", get("Interaction", "SS"), ei); M.eq("F interaction", get("Interaction", "F") * di * er, ei * dr, tol=1e-5); M.eq("p interaction", t.p_values[2], 1 - h.f.cdf(get("Interaction", "F"), di, dr))
            else: M.is_nan("no interaction", t.p_values[2])
        else:
            rr = h.iv(1, kap) / h.iv(0, kap); fac = 2 / (1 - rr * rr)
            for nm, e, d, ix in (("A", SA - T2, 2 * (p - 1), 0), ("B", SB - T2, 2 * (q - 1), 1), ("Interaction", SC - SA - SB + T2, (p - 1) * (q - 1), 2)):
                M.eq("chi2 " + nm, get(nm, "chi2") * (1 - rr * rr), 2 * e, tol=1e-5); M.eq("DoF " + nm, get(nm, "DoF"), d); M.eq("p " + nm, t.p_values[ix], 1 - h.chi2.cdf(get(nm, "chi2"), d))
    return f


def obligations(tier):
    q = tier == "quick"
    C, R, E, CM, P, HK = ("hypothesis." + s for s in ("concentration_test", "rao_homogeneity_test", "equal_kappa_test", "common_median_test", "change_point_test", "harrison_kanji_test"))
    o = [Obl("concentration/%d-%d" % z, concentration(*z), C, "%d and %d angles" % z) for z in ((2, 2), (2, 3))]
    o += [Obl("concentration/r%d-%d" % z, concentration_any(*z), C + " (resultants by contract)", "sizes %d, %d; resultant lengths in [0,0.99]" % z) for z in ((2, 9), (12, 12), (30, 7))]
    o += [Obl("concentration/rotation", concentration_rotation, C, "2+2, rotation in [-7,7]"), Obl("concentration/errors", concentration_errors, C, "")]
    o += [Obl("rao/%s" % "-".join(map(str, z)), rao(z), R, "group sizes %s" % (z,)) for z in (((3, 3), (3, 4)) if q else ((3, 3), (3, 4), (3, 3, 3)))]
    o += [Obl("rao/decision", rao_decision, R, "3+3"), Obl("rao/errors", rao_errors, R, "")]
    o += [Obl("equal-kappa/%s%s" % (g, "-".join(map(str, z))), equal_kappa(z, g), E + " (resultants by contract)", "sizes %s" % (z,)) for g, z in (("small", (5, 9)), ("small", (6, 8, 20)), ("moderate", (5, 9)), ("moderate", (4, 8, 20)), ("large", (2, 9)), ("large", (3, 8, 20)))]
    o += [Obl("equal-kappa/data", equal_kappa_data, E, "2+2 angles"), Obl("equal-kappa/errors", equal_kappa_errors, E, "")]
    o += [Obl("median/%s" % "-".join(map(str, z)), common_median(z), CM + " (median by contract)", "sizes %s" % (z,)) for z in (((1, 2), (2, 2)) if q else ((1, 2), (2, 2), (1, 1, 2), (2, 3)))]
    o += [Obl("median/data", common_median_data, CM + " (median by contract)", "3 angles within 1.5 radians, rotation in [0,3]")]
    o += [Obl("median/errors", common_median_errors, CM, "")]
    o += [Obl("change/%d" % n, change_point(n), P, "%d angles; A1inv and i0 abstract" % n) for n in ((4, 5) if q else (4, 5, 6))]
    o += [Obl("change/rotation", change_rotation, P, "4 angles, rotation in [-7,7]"), Obl("change/errors", change_errors, P, "")]
    two = {(i, j): 2 for i in (0, 1) for j in (0, 1)}; un = {(0, 0): 2, (0, 1): 3, (1, 0): 1, (1, 1): 2, (2, 0): 2, (2, 1): 2}
    o += [Obl("two-factor/%s%s%s" % (nm, "-high" if hi else "-low", "" if it else "-additive"), harrison(c, hi, it), HK + " (resultants by contract)", "%d cells, any resultant lengths and concentration" % len(c))
          for nm, c in (("2x2", two), ("3x2", un)) for hi, it in ((True, True), (True, False), (False, True))]
    return o
