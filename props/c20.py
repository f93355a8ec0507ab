"""C20 circular-linear correlation."""
from fractions import Fraction as F
import numpy as np
from symx.harness import Obl, patched

DES = {3: [[0.3, 1.7, 4.0], [0.0, 2.0, 5.5]],
       4: [[0.1, 1.0, 2.2, 4.5], [0.4, 0.9, 3.3, 5.9], [3.0, 3.2, 3.6, 4.4]],
       5: [[0.1, 0.9, 2.2, 3.5, 5.1], [0.4, 0.9, 1.3, 1.9, 2.6], [6.1, 0.2, 3.0, 3.3, 1.5]],
       8: [[0.1, 0.9, 2.2, 3.5, 5.1, 5.6, 1.2, 4.0]]}
XS = {3: [[0.0, 2.0, 1.0]], 4: [[1.0, 4.0, -2.0, 0.5], [0.0, 0.0, 3.0, 1.0]], 5: [[1.0, 2.0, 4.0, -2.0, 0.5]], 8: [[1.0, 2.0, 4.0, -2.0, 0.5, 3.0, 3.5, -1.0]]}


def R(M): return M.m.correlation


def hat(a):
    X = np.column_stack([np.ones(len(a)), np.cos(a), np.sin(a)]); return X @ np.linalg.pinv(X)


QUARTERS = [[0, 1, 2, 3], [0, 1, 2, 2], [1, 0, 3, 3], [0, 0, 1, 3, 2], [5, 0, -1, 2, 1, 1], [0, 1, 2]]


def regression(k):
    """angles fixed at quarter turns, any linear variable: the square is the regression's R^2"""
    def f(M):
        t = QUARTERS[k]; n = len(t); x = M.reals("x", n, -5, 5); m = sum(x) / n; a = M.arr([v * M.pi / 2 for v in t])
        C, S = [F((1, 0, -1, 0)[v % 4]) for v in t], [F((0, 1, 0, -1)[v % 4]) for v in t]; mc, ms = sum(C) / n, sum(S) / n
        cc, ss, cs = sum((v - mc) ** 2 for v in C), sum((v - ms) ** 2 for v in S), sum((u - mc) * (v - ms) for u, v in zip(C, S))
        w = lambda z: float(z) if not M.sym else z
        xc, xs = sum(w(c - mc) * v for c, v in zip(C, x)), sum(w(c - ms) * v for c, v in zip(S, x)); tss = sum((v - m) ** 2 for v in x)
        ess = (w(ss) * xc * xc + w(cc) * xs * xs - 2 * w(cs) * xc * xs) / w(cc * ss - cs * cs); M.assume(tss > 0.01); M.assume(ess > 0.001)
        r = R(M).circ_corrcl(a, M.arr(x))
        M.eq("squared multiple correlation", r.r ** 2 * tss, ess); M.ge("at least zero", r.r, 0)
        M.eq("p-value", r.p_value, R(M).chi2(df=2).sf(n * r.r ** 2))
    return f


def scale(n, k):
    def f(M):
        a = DES[n][k]; x = M.reals("x", n, -5, 5); m = sum(x) / n; M.assume(sum((v - m) ** 2 for v in x) > 0.01); c = R(M).circ_corrcl; A = M.arr(a)
        s = M.real("s", -100, 100); g = M.choice("g", [-2, -1, 0.5, 3]); r = c(A, M.arr(x)).r
        M.eq("shift", c(A, M.arr([v + s for v in x])).r, r); M.eq("scale", c(A, M.arr([g * v for v in x])).r, r)
        M.eq("order", c(M.arr(a[::-1]), M.arr(x[::-1])).r, r); M.eq("whole turns", c(M.arr([v + 2 * (i % 3 - 1) * M.pi for i, v in enumerate(a)]), M.arr(x)).r, r)
    return f


def rotation(n, k, l):
    """fixed angles and linear values, any rotation or reflection"""
    def f(M):
        a, x = DES[n][k], XS[n][l]; t = M.real("t", -7, 7); c = R(M).circ_corrcl; H = hat(a); m = sum(x) / n
        want = float(sum((v - m) ** 2 for v in H @ x) / sum((v - m) ** 2 for v in x))
        ca, sa = [M.np.cos(v + t) for v in a], [M.np.sin(v + t) for v in a]
        mc, ms = sum(ca) / n, sum(sa) / n; scc, sss, scs = sum((v - mc) ** 2 for v in ca), sum((v - ms) ** 2 for v in sa), sum((u - mc) * (v - ms) for u, v in zip(ca, sa))
        M.assume(scc > 1e-3); M.assume(sss > 1e-3)
        M.eq("rotation", c(M.arr(a) + t, M.arr(x)).r ** 2, want); M.eq("reflected", c(t - M.arr(a), M.arr(x)).r ** 2, want)
    return f


def definition(n):
    """correlations by their contract: any positive semidefinite triple (fixed choices of r_cs), fixed angles and values"""
    def f(M):
        c = R(M); A, X = M.arr([0.3 + 0.7 * i * i for i in range(n)]), M.arr([(1.3 * i * i) % 4.1 for i in range(n)]); u, v = M.real("u", -1, 1), M.real("v", -1, 1); w = M.choice("w", [0, 0.5, -0.25, 0.9, -0.75])
        det = 1 - u * u - v * v - w * w + 2 * u * v * w; M.assume(det >= 0)
        base = c.np; named = {"c": np.cos([float(q) for q in A]), "s": np.sin([float(q) for q in A]), "x": np.array([float(q) for q in X])}
        def name(z): return [k for k, q in named.items() if np.allclose([float(p) for p in z], q)][0]
        val = {"cx": u, "sx": v, "cs": w}
        def corr(p, q):
            z = val["".join(sorted((name(p), name(q))))]; r = base.empty((2, 2), dtype=object) if M.sym else base.empty((2, 2)); r[0, 0] = r[1, 1] = 1; r[0, 1] = r[1, 0] = z; return r
        class P:
            corrcoef = staticmethod(corr)
            def __getattr__(self, k): return getattr(base, k)
        with patched(c, "np", P()): r = c.circ_corrcl(A, X)
        M.eq("definition", r.r ** 2 * (1 - w * w), u * u + v * v - 2 * u * v * w); M.ge("at least zero", r.r, 0); M.le("at most one", r.r ** 2, 1); M.eq("p-value", r.p_value, c.chi2(df=2).sf(n * r.r ** 2))
        M.ge("probability", r.p_value, 0); M.le("probability", r.p_value, 1)
    return f


def forms(M):
    c = R(M).circ_corrcl; a = DES[4][0]; x = M.reals("x", 4, -5, 5); m = sum(x) / 4; M.assume(sum((v - m) ** 2 for v in x) > 0.01); r = c(M.arr(a), M.arr(x))
    o = object.__new__(M.m.base.Circular); o.alpha = M.arr(a); M.eq("object", c(o, M.arr(x)).r, r.r); M.eq("list", c(list(a), M.arr(x)).r, r.r)
    M.raises("length", ValueError, lambda: c(M.arr(a), M.arr(x[:3]))); M.raises("two pairs", ValueError, lambda: c(M.arr(a[:2]), M.arr(x[:2]))); M.raises("matrix", ValueError, lambda: c(M.arr(a), M.np.ones((4, 1))))
    M.raises("degenerate angles", ValueError, lambda: c([0.1, 1.0, 0.1, 1.0], [1.0, 2.0, 0.0, 5.0]))


def obligations(tier):
    q = tier == "quick"; C = "correlation.circ_corrcl"; N = [(3, 0), (4, 0), (4, 1), (4, 2), (5, 0)] + ([] if q else [(3, 1), (5, 1), (5, 2), (8, 0)])
    o = [Obl("regression/%d" % k, regression(k), C, "angles at quarter turns %s, any linear values in [-5,5]" % QUARTERS[k]) for k in range(len(QUARTERS))] + [Obl("scale/%d.%d" % (n, k), scale(n, k), C, "%d fixed angles, any linear values, shifts in [-100,100]" % n) for n, k in N]
    o += [Obl("rotation/%d.%d" % (n, k), rotation(n, k, 0), C, "%d fixed pairs, any rotation in [-7,7]" % n) for n, k in N]
    o += [Obl("definition/%d" % n, definition(n), C + " (correlations by contract)", "%d pairs, any correlations" % n) for n in (3, 4, 7)] + [Obl("forms", forms, C, "4 pairs")]
    return o
