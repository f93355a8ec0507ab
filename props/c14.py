"""C14 two- and multi-sample tests: Watson-Williams, Watson's U2, Wheeler-Watson, Wallraff, circular ANOVA, randomisation."""
import math
from itertools import permutations
from symx.harness import StandIn, Obl, patched


def H(M): return M.m.hypothesis
def D(M): return M.m.descriptive


def res(M, a, w=None):
    """squared resultant, recomputed"""
    w = [1] * len(a) if w is None else w
    C = sum(w[i] * M.np.cos(a[i]) for i in range(len(a))); S = sum(w[i] * M.np.sin(a[i]) for i in range(len(a)))
    return M.np.sqrt(C * C + S * S)



def groups(M, ns, lo=0, hi=6.28): return [[M.real("g%d_%d" % (i, j), lo, hi) for j in range(n)] for i, n in enumerate(ns)]


def f_sf(M, F, a, b): return H(M).f.sf(F, a, b)


def data_object(M, a, w):
    """a Circular object holding angles and frequencies (its own summaries are C26's)"""
    o = object.__new__(M.m.base.Circular); o.alpha = M.arr(a); o.w = M.arr(w); return o


def williams(ns, weighted=False):
    def f(M):
        g = groups(M, ns); K0 = M.real("kappa", 0.01, 50); seen = []
        def kap(r, *a, **k): seen.append(r); return K0
        w = None
        smp = [M.arr(x) for x in g]
        flat = [v for x in g for v in x]
        Rs = [res(M, x) for x in g]; N = sum(ns); k = len(ns); R = res(M, flat); sR = sum(Rs)
        M.assume(N - sR > 0.01)
        with patched(H(M), "circ_kappa", kap): t = H(M).watson_williams_test(smp)
        M.eq("kappa from the mean resultant", seen[0] * N, sR)
        M.eq("F", t.F * (N - sR) * (k - 1) * 8 * K0, (8 * K0 + 3) * (N - k) * (sR - R), tol=1e-4)
        M.ok("degrees of freedom", t.df_between == k - 1 and t.df_within == N - k and t.k == k and t.N == N)
        M.eq("p-value", t.pval, f_sf(M, t.F, k - 1, N - k))
        with patched(H(M), "circ_kappa", kap): u = H(M).watson_williams_test(smp[::-1])
        M.eq("groups exchanged", u.F, t.F); M.eq("groups exchanged p", u.pval, t.pval)
    return f


def williams_rotation(M):
    g = groups(M, [1, 2]); c = M.real("t", -7, 7); K0 = M.real("kappa", 0.01, 50)
    sR = sum(res(M, x) for x in g); M.assume(3 - sR > 0.01)
    with patched(H(M), "circ_kappa", lambda r: K0):
        t = H(M).watson_williams_test([M.arr(x) for x in g]); u = H(M).watson_williams_test([M.arr(x) + c for x in g])
        v = H(M).watson_williams_test([M.arr(g[0]), M.arr(g[1][::-1])])
    M.eq("rotation", u.F, t.F); M.eq("order", v.F, t.F)


def williams_zero(M):
    """no concentration: no correction"""
    g = groups(M, [2, 2]); bad = M.choice("kappa", [0.0, float("nan"), float("inf")])
    Rs = [res(M, x) for x in g]; sR = sum(Rs); R = res(M, [v for x in g for v in x]); M.assume(4 - sR > 0.01)
    with patched(H(M), "circ_kappa", lambda r: bad): t = H(M).watson_williams_test([M.arr(x) for x in g])
    M.eq("F", t.F * (4 - sR), 2 * (sR - R), tol=1e-4)


def williams_counts(M):
    g = groups(M, [2, 1]); w = [M.int("w%d" % i, 1, 2) for i in range(2)]; K0 = M.real("kappa", 0.01, 50)
    A = data_object(M, g[0], w); rep = M.arr([g[0][i] for i in range(2) for _ in range(int(w[i]))]); B = M.arr(g[1])
    sR = res(M, g[0], w) + 1; N = int(w[0]) + int(w[1]) + 1; M.assume(N - sR > 0.01)
    with patched(H(M), "circ_kappa", lambda r: K0): t = H(M).watson_williams_test([A, B]); u = H(M).watson_williams_test([rep, B])
    M.eq("counts replicate", t.F, u.F); M.ok("N", t.N == u.N == N)


def ordered(M, n, gap=1e-4): return M.ordered("x", n, 0, 6.28, gap)


def labels(M, n, n1):
    """which of n sorted observations belong to the first group"""
    from itertools import combinations
    return set(M.choice("first", list(combinations(range(n), n1))))


def u2_def(M, n, first):
    """Watson's two-sample U2 of the order pattern, from the cumulative fractions (Zar 27.17)"""
    n1 = len(first); n2 = n - n1; N = n; i = j = 0; d = []
    for k in range(n):
        if k in first: i += 1
        else: j += 1
        d.append(i / n1 - j / n2)
    return n1 * n2 / N ** 2 * (sum(v * v for v in d) - sum(d) ** 2 / N)


def watson(n, n1):
    def f(M):
        x = ordered(M, n); first = labels(M, n, n1)
        a = [x[i] for i in range(n) if i in first]; b = [x[i] for i in range(n) if i not in first]
        t = H(M).watson_u2_test([M.arr(a), M.arr(b)])
        U = u2_def(M, n, first)
        M.eq("U2", t.U2, U); M.eq("p", t.pval, min(1.0, 2 * math.exp(-19.74 * U)))
        s = H(M).watson_u2_test([M.arr(b[::-1]), M.arr(a[1:] + a[:1])])
        M.eq("groups exchanged, reordered", s.U2, U)
    return f


def watson_rotation(n, n1):
    def f(M):
        x = ordered(M, n, 1e-3); first = labels(M, n, n1); c = M.real("t", -7, 7)
        a = [x[i] for i in range(n) if i in first]; b = [x[i] for i in range(n) if i not in first]
        for v in x:
            d = M.np.mod(v + c, 2 * M.pi); M.assume(d > 1e-5); M.assume(d < 2 * M.pi - 1e-5)
        t = H(M).watson_u2_test([M.arr(a) + c, M.arr(b) + c]); M.eq("rotation", t.U2, u2_def(M, n, first))
    return f


def watson_ties(M):
    """tied observations contribute with their multiplicity, at the common value"""
    x = ordered(M, 3); pat = M.choice("counts", [((1, 1, 0), (0, 1, 1)), ((2, 0, 1), (0, 1, 1)), ((1, 1, 1), (1, 1, 1)), ((2, 1, 0), (0, 1, 2)), ((0, 2, 1), (3, 0, 0))])
    g = [[x[i] for i in range(3) for _ in range(c[i])] for c in pat]
    n1, n2 = len(g[0]), len(g[1]); N = n1 + n2; F = [0, 0]; d = []; tt = []
    for i in range(3):
        F[0] += pat[0][i] / n1; F[1] += pat[1][i] / n2; d.append(F[0] - F[1]); tt.append(pat[0][i] + pat[1][i])
    U = n1 * n2 / N ** 2 * (sum(k * v * v for k, v in zip(tt, d)) - sum(k * v for k, v in zip(tt, d)) ** 2 / N)
    t = H(M).watson_u2_test([M.arr(v) for v in g]); M.eq("U2 with ties", t.U2, U)
    objs = []
    for c in pat:
        ix = [i for i in range(3) if c[i]]
        objs.append(data_object(M, [x[i] for i in ix], [c[i] for i in ix]))
    M.eq("frequencies replicate", H(M).watson_u2_test(objs).U2, U)


def w_def(n, parts):
    W = 0.0
    for p in parts:
        C = sum(math.cos(2 * math.pi * (r + 1) / n) for r in p); S = sum(math.sin(2 * math.pi * (r + 1) / n) for r in p)
        W += (C * C + S * S) / len(p)
    return 2 * W


def wheeler(n, n1):
    def f(M):
        x = ordered(M, n); first = labels(M, n, n1)
        a = [x[i] for i in range(n) if i in first]; b = [x[i] for i in range(n) if i not in first]
        t = H(M).wheeler_watson_test([M.arr(a), M.arr(b)])
        one = w_def(n, [sorted(first)]) * n1 / 2
        W = 2 * (n - 1) * one / (n1 * (n - n1))
        M.eq("W", t.W, W); M.ok("degrees of freedom", t.df == 2)
        from scipy.stats import chi2
        M.eq("p", t.pval, float(chi2.sf(W, 2)))
        M.eq("groups exchanged, reordered", H(M).wheeler_watson_test([M.arr(b[::-1]), M.arr(a[1:] + a[:1])]).W, W)
    return f


def wheeler_rotation(n, n1):
    def f(M):
        x = ordered(M, n, 1e-3); first = labels(M, n, n1); c = M.real("t", -7, 7)
        a = [x[i] for i in range(n) if i in first]; b = [x[i] for i in range(n) if i not in first]
        for v in x:
            d = M.np.mod(v + c, 2 * M.pi); M.assume(d > 1e-5); M.assume(d < 2 * M.pi - 1e-5)
        t = H(M).wheeler_watson_test([M.arr(a) + c, M.arr(b) + c]); u = H(M).wheeler_watson_test([M.arr(a), M.arr(b)])
        M.eq("rotation", t.W, u.W); M.eq("rotation p", t.pval, u.pval)
    return f


def wheeler_many(M):
    n = 6; x = ordered(M, n)
    parts = M.choice("parts", [((0, 1), (2, 3), (4, 5)), ((0, 3), (1, 4), (2, 5)), ((0,), (1, 2), (3, 4, 5)), ((5, 0, 1), (2,), (4, 3)), ((0,), (1,), (2, 3), (4, 5))])
    W = w_def(n, parts)
    for order in list(permutations(parts))[:6]:
        t = H(M).wheeler_watson_test([M.arr([x[i] for i in p]) for p in order])
        M.eq("W", t.W, W); M.ok("df", t.df == 2 * (len(parts) - 1))
    from scipy.stats import chi2
    M.eq("p", t.pval, float(chi2.sf(W, 2 * (len(parts) - 1))))


def geo(M, x, y): return M.pi - abs(M.pi - abs(M.np.mod(x - y, 2 * M.pi)))


def wallraff(n1, n2, two):
    def f(M):
        g = groups(M, [n1, n2]); h = [M.angle("h0"), M.angle("h1")] if two else [M.angle("h0")] * 2
        d = [[geo(M, v, h[i]) for v in g[i]] for i in range(2)]
        U1 = 0
        for a in d[0]:
            for b in d[1]:
                M.assume(abs(a - b) > 1e-5)
                U1 += 1 if M.true(a < b) else 0
        for q in d:                                     # no ties within a group either
            for i in range(len(q)):
                for j in range(i): M.assume(abs(q[i] - q[j]) > 1e-5)
        U = min(U1, n1 * n2 - U1)
        t = H(M).wallraff_test([M.arr(x) for x in g], angle=M.arr(h) if two else h[0])
        M.eq("U", t.U, U)
        z = min(U - n1 * n2 / 2 + 0.5, 0) / math.sqrt(n1 * n2 * (n1 + n2 + 1) / 12)
        M.eq("p", t.pval, math.erfc(abs(z) / math.sqrt(2)))
    return f


def wallraff_invariance(M):
    g = groups(M, [2, 2]); h = M.angle("h"); c = M.real("t", -7, 7)
    d = [geo(M, v, h) for x in g for v in x]
    for i in range(4):
        for j in range(i): M.assume(abs(d[i] - d[j]) > 1e-5)
    t = H(M).wallraff_test([M.arr(x) for x in g], angle=h)
    u = H(M).wallraff_test([M.arr(x) + c for x in g], angle=h + c)
    M.eq("rotation", u.U, t.U); M.eq("rotation p", u.pval, t.pval)
    v = H(M).wallraff_test([M.arr(g[1][::-1]), M.arr(g[0])], angle=h); M.eq("groups exchanged", v.U, t.U); M.eq("groups exchanged p", v.pval, t.pval)


def anova(ns, given):
    def f(M):
        g = groups(M, ns); N = sum(ns); k = len(ns); flat = [v for x in g for v in x]; mod = M.choice("f_mod", [True, False])
        Rs = [res(M, x) for x in g]; R = res(M, flat); sR = sum(Rs); M.assume(N - sR > 0.01)
        for q in Rs + [R]: M.assume(q > 0.01)
        K0 = M.real("kappa", 0.01, 50); seen = []
        def kap(r, *a, **kw): seen.append(r); return K0
        with patched(H(M), "circ_kappa", kap, need=not given): t = H(M).circ_anova([M.arr(x) for x in g], kappa=K0 if given else None, f_mod=mod)
        if given: M.ok("the concentration given is used", not seen)
        else: M.eq("kappa of the pooled sample", seen[0] * N, R)
        c = (8 * K0 + 3) if mod else 8 * K0
        M.eq("F", t.statistic * (N - sR) * (k - 1) * 8 * K0, c * (N - k) * (sR - R), tol=1e-4)
        M.ok("df", t.df == (k - 1, N - k, N - 1)); M.eq("p", t.pval, f_sf(M, t.statistic, k - 1, N - k))
        for i in range(k): M.eq("group resultant", t.R[i], Rs[i])
        M.eq("pooled resultant", t.R_all, R); M.eq("SS between", t.SS[0], sR - R); M.eq("SS within", t.SS[1], N - sR); M.eq("SS total", t.SS[2], N - R)
        M.eq("MS between", t.MS[0] * (k - 1), sR - R); M.eq("MS within", t.MS[1] * (N - k), N - sR); M.eq("kappa", t.kappa, K0)
    return f


def anova_lrt(ns):
    def f(M):
        g = groups(M, ns); N = sum(ns); k = len(ns); flat = [v for x in g for v in x]
        Rs = [res(M, x) for x in g]; R = res(M, flat); sR = sum(Rs)
        for q in Rs + [R]: M.assume(q > 0.01)
        K0 = M.real("kappa", 0.3, 50)
        t = H(M).circ_anova([M.arr(x) for x in g], kappa=K0, method="LRT")
        term1 = 1 - (sum(1.0 / n for n in ns) - 1.0 / N) / (4 * K0)
        M.eq("LRT", t.statistic, term1 * 2 * K0 * (sR - R), tol=1e-4); M.ok("df", t.df == k - 1)
        M.eq("p", t.pval, 1 - H(M).chi2.cdf(t.statistic, k - 1))
    return f


def anova_rotation(M):
    g = groups(M, [2, 1]); c = M.real("t", -7, 7); K0 = M.real("kappa", 0.3, 50)
    Rs = [res(M, x) for x in g]; R = res(M, [v for x in g for v in x]); M.assume(3 - sum(Rs) > 0.01)
    for q in Rs + [R]: M.assume(q > 0.01)
    for m in ("F-test",):
        t = H(M).circ_anova([M.arr(x) for x in g], kappa=K0, method=m); u = H(M).circ_anova([M.arr(x) + c for x in g], kappa=K0, method=m)
        v = H(M).circ_anova([M.arr(g[1]), M.arr(g[0][::-1])], kappa=K0, method=m)
        M.eq("rotation", u.statistic, t.statistic); M.eq("groups", v.statistic, t.statistic)


class Fixed(StandIn):
    def permutation(self, x): return x


def art(n, m, own_rng):
    def f(M):
        g = groups(M, [n, m]); B = M.choice("B", [1, 3]) if own_rng else 2
        def run():
            t = H(M).angular_randomisation_test([M.arr(x) for x in g], n_simulation=B, seed=5)
            k = t.pval * (B + 1); M.ok("at least the observed arrangement", M.true(k >= 1 - 1e-9)); M.ok("at most all", M.true(k <= B + 1 + 1e-9))
            return t
        if own_rng: t = run()
        else:
            with patched(H(M), "_init_rng", lambda s: Fixed()): t = run()
            M.eq("the observed arrangement counts as extreme", t.pval, 1)
        M.eq("statistic", t.statistic, M.np.sqrt(n * m / (n + m)) * sum(geo(M, a, b) for a in g[0] for b in g[1])); M.ok("B", t.n_simulation == B)
    return f


def art_count(n, m, B):
    """the p-value counts the permuted statistics that are at least the observed one"""
    def f(M):
        g = groups(M, [n, m]); flat = [v for x in g for v in x]; tape = []
        class Rng(StandIn):
            def permutation(self, x):
                p = M.choice("perm%d" % len(tape), list(permutations(range(n + m)))[:: max(1, math.factorial(n + m) // 6)])
                tape.append(p); return M.arr([x[i] for i in p])
        with patched(H(M), "_init_rng", lambda s: Rng()):
            t = H(M).angular_randomisation_test([M.arr(x) for x in g], n_simulation=B)
        c = M.np.sqrt(n * m / (n + m)); s = lambda L: c * sum(geo(M, a, b) for a in L[:n] for b in L[n:]); obs = s(flat); k = 1
        for p in tape:
            q = s([flat[i] for i in p])
            if set(p[:n]) != set(range(n)) and not (n == m and set(p[n:]) == set(range(n))):
                M.assume(abs(q - obs) > 1e-5); k += 1 if M.true(q > obs) else 0
            else: return                              # equal in exact arithmetic only
        M.ok("one permutation per simulation", len(tape) == B); M.eq("p", t.pval, k / (B + 1))
    return f


def art_rotation(M):
    g = groups(M, [2, 1]); c = M.real("t", -7, 7)
    with patched(H(M), "_init_rng", lambda s: Fixed()):
        t = H(M).angular_randomisation_test([M.arr(x) for x in g], n_simulation=1)
        u = H(M).angular_randomisation_test([M.arr(x) + c for x in g], n_simulation=1)
        v = H(M).angular_randomisation_test([M.arr(g[1]), M.arr(g[0][::-1])], n_simulation=1)
    M.eq("rotation", u.statistic, t.statistic); M.eq("groups", v.statistic, t.statistic)


def errors(M):
    a = M.arr(M.angles("a", 2)); h = H(M); one = M.arr([M.angle("b")])
    for T in (h.watson_williams_test, h.watson_u2_test, h.wheeler_watson_test, h.wallraff_test, h.angular_randomisation_test, h.circ_anova):
        M.raises("one sample", ValueError, lambda: T([a]))
    for T in (h.watson_u2_test, h.wallraff_test, h.angular_randomisation_test):
        M.raises("three samples", ValueError, lambda: T([a, a, a]))
    M.raises("N <= k", ValueError, lambda: h.watson_williams_test([one, one]))
    M.raises("angles", ValueError, lambda: h.wallraff_test([a, a], angle=M.np.zeros(3)))
    M.raises("method", ValueError, lambda: h.circ_anova([a, a], method="x", kappa=1.0))
    M.raises("simulations", ValueError, lambda: h.angular_randomisation_test([a, a], n_simulation=0))


def obligations(tier):
    q = tier == "quick"
    o = [
        Obl("williams-2-2", williams([2, 2]), "watson_williams_test, _coerce_circular_samples, circ_r", "sizes 2,2; circ_kappa replaced by any positive value"),
        Obl("williams-1-2-1", williams([1, 2, 1]), "watson_williams_test", "sizes 1,2,1"),
        Obl("williams-rotation", williams_rotation, "watson_williams_test", "sizes 1,2; rotation in [-7,7]"),
        Obl("williams-zero", williams_zero, "watson_williams_test", "sizes 2,2; concentration 0 or not finite"),
        Obl("williams-counts", williams_counts, "watson_williams_test, Circular", "2 values with counts 1..2"),
        Obl("watson-4-2", watson(4, 2), "watson_u2_test", "n=4, 2+2, every interleaving"),
        Obl("watson-5-2", watson(5, 2), "watson_u2_test", "n=5, 2+3, every interleaving"),
        Obl("watson-7-3", watson(7, 3), "watson_u2_test", "n=7, 3+4, every interleaving"),
        Obl("watson-rotation", watson_rotation(4, 2), "watson_u2_test", "n=4; rotation in [-7,7]"),
        Obl("watson-ties", watson_ties, "watson_u2_test, Circular", "3 distinct values, 5 count patterns"),
        Obl("wheeler-4-2", wheeler(4, 2), "wheeler_watson_test", "n=4, every interleaving"),
        Obl("wheeler-5-2", wheeler(5, 2), "wheeler_watson_test", "n=5"),
        Obl("wheeler-7-3", wheeler(7, 3), "wheeler_watson_test", "n=7"),
        Obl("wheeler-rotation", wheeler_rotation(4, 2), "wheeler_watson_test", "n=4; rotation in [-7,7]"),
        Obl("wheeler-many", wheeler_many, "wheeler_watson_test", "6 values in 3 or 4 groups"),
        Obl("wallraff-2-2", wallraff(2, 2, False), "wallraff_test, angular_distance", "2+2, one angle"),
        Obl("wallraff-1-3", wallraff(1, 3, True), "wallraff_test", "1+3, own angles"),
        Obl("wallraff-invariance", wallraff_invariance, "wallraff_test", "2+2, rotation in [-7,7]"),
        Obl("anova-2-2", anova([2, 2], False), "circ_anova", "2+2"),
        Obl("anova-1-2-1", anova([1, 2, 1], True), "circ_anova", "1+2+1"),
        Obl("anova-lrt", anova_lrt([2, 1]), "circ_anova, circ_mean", "2+1"),
        Obl("anova-rotation", anova_rotation, "circ_anova", "2+1"),
        Obl("art-1-1", art(1, 1, True), "angular_randomisation_test, circ_pairdist", "1+1, B in {1,3}"),
        Obl("art-2-3", art(2, 3, False), "angular_randomisation_test, circ_pairdist", "2+3"),
        Obl("art-2-2", art_count(2, 2, 1), "angular_randomisation_test", "2+2, B=1, any of 6 permutations"),
        Obl("art-1-2", art_count(1, 2, 1), "angular_randomisation_test", "1+2, B=1, all permutations"),
        Obl("art-rotation", art_rotation, "angular_randomisation_test", "2+1"),
        Obl("errors", errors, "_coerce_circular_samples", "malformed calls"),
    ]
    if not q: o += [Obl("watson-8-4", watson(8, 4), "watson_u2_test", "n=8, 4+4"), Obl("wheeler-8-4", wheeler(8, 4), "wheeler_watson_test", "n=8, 4+4"), Obl("wallraff-2-3", wallraff(2, 3, False), "wallraff_test", "2+3")]
    return o

