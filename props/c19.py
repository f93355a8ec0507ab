"""C19 circular-circular correlation."""
import math
from itertools import permutations
from symx.harness import Obl, abstract_fn, patched


def R(M): return M.m.correlation


def pairs(M, n, lo=-7, hi=7): return [M.real("a%d" % i, lo, hi) for i in range(n)], [M.real("b%d" % i, lo, hi) for i in range(n)]


def fl_parts(M, a, b, S):
    n = len(a); ij = [(i, j) for i in range(n) for j in range(i)]
    x, y = [S(a[i] - a[j]) for i, j in ij], [S(b[i] - b[j]) for i, j in ij]; da, db = sum(v * v for v in x), sum(v * v for v in y)
    M.assume(da > 0.01); M.assume(db > 0.01); M.assume(M.np.sqrt(da * db) > 0.005)
    return sum(p * q for p, q in zip(x, y)), da, db, x, y


def sine(M, exact): return abstract_fn(M, R(M), "sin", lo=-1, hi=1, odd=True) if not exact else patched(R(M), "np", R(M).np)


def fl(n, exact=False):
    """exact: the sine itself; otherwise every odd function with values in [-1,1]"""
    def f(M):
        a, b = pairs(M, n); c = R(M); A, B = M.arr(a), M.arr(b)
        with sine(M, exact) as S:
            num, da, db, x, y = fl_parts(M, a, b, M.np.sin if exact else S)
            r = c.circ_corrcc(A, B)
            M.eq("Fisher-Lee", r * M.np.sqrt(da * db), num); M.eq("squared", r * r * da * db, num * num)
            M.eq("1-r^2 is a sum of squares", (1 - r * r) * da * db, sum((x[i] * y[j] - x[j] * y[i]) ** 2 for i in range(len(x)) for j in range(i)))
            M.eq("symmetric", c.circ_corrcc(B, A), r); M.eq("reflected", c.circ_corrcc(A, -B), -r); M.eq("reordered", c.circ_corrcc(M.arr(a[::-1]), M.arr(b[::-1])), r)
            M.eq("default is Fisher-Lee", c.circ_corrcc(A, B, method="fl"), r)
            if not exact: M.eq("with itself", c.circ_corrcc(A, A), 1); M.eq("with its mirror image", c.circ_corrcc(A, -A), -1)
            s, t = M.real("s", -7, 7), M.real("t", -7, 7); M.eq("rotation", c.circ_corrcc(A + s, B + t), r)
    return f


def fl_itself(n):
    def f(M):
        a = [M.real("a%d" % i, -7, 7) for i in range(n)]; fl_parts(M, a, a, M.np.sin); r = R(M).circ_corrcc(M.arr(a), M.arr(a)); M.eq("with itself", r * r, 1); M.ge("sign", r, 0)
    return f


def fl_turns(n):
    def f(M):
        a, b = pairs(M, n, 0, 6.28); k = M.choice("turn", [-1, 1]); fl_parts(M, a, b, M.np.sin); c = R(M)
        w = list(b); w[0] = w[0] + 2 * k * M.pi; M.eq("whole turns", c.circ_corrcc(M.arr(a), M.arr(w)), c.circ_corrcc(M.arr(a), M.arr(b)))
    return f


def fl_jackknife(n):
    """the test's decision: zero outside the jackknife interval built from the leave-one-out coefficients"""
    def f(M):
        c = M.m.correlation; k = M.choice("data", [1, 2, 3, 5, 8, 13])
        a, b = [(0.37 * i * k) % 6.2 for i in range(n)], [(0.41 * i * k + 0.3 * math.sin(7.0 * i * k)) % 6.2 for i in range(n)]
        def cc(a, b):
            ij = [(i, j) for i in range(len(a)) for j in range(i)]; x, y = [math.sin(a[i] - a[j]) for i, j in ij], [math.sin(b[i] - b[j]) for i, j in ij]
            return sum(p * q for p, q in zip(x, y)) / math.sqrt(sum(p * p for p in x) * sum(p * p for p in y))
        full = [cc(a[:i] + a[i + 1:], b[:i] + b[i + 1:]) for i in range(n)]; r0 = cc(a, b)
        t = c.circ_corrcc(M.arr(a), M.arr(b), test=True); z = 1.959963984540054
        m = sum(full) / n; s2 = sum((v - m) ** 2 for v in full) / (n - 1); h = z * math.sqrt(s2 / n); e = n * r0 - (n - 1) * m
        M.ok("decision", bool(t.reject_null) == (not (e - h <= 0 <= e + h))); M.eq("r", t.r, r0, tol=1e-6)
    return f


def js_parts(M, a, b):
    d = M.m.descriptive; ma, mb = d.circ_mean(M.arr(a)), d.circ_mean(M.arr(b)); S = M.np.sin; n = len(a)
    x = [S(v - ma) for v in a]; y = [S(v - mb) for v in b]
    return x, y


def assume_js(M, a, b, x, y):
    d = M.m.descriptive
    for v in (a, b): M.assume(d.circ_r(M.arr(v)) > 0.05)
    xx, yy = sum(v * v for v in x), sum(v * v for v in y); M.assume(xx > 0.01); M.assume(yy > 0.01); M.assume(M.np.sqrt(xx * yy) > 0.005)


def js(n):
    """mean directions by their contract (any angle), the sine any odd function with values in [-1,1]"""
    def f(M):
        c = R(M); a, b = pairs(M, n); ma, mb = M.angle("ma"), M.angle("mb"); A, B = M.arr(a), M.arr(b)
        def run(x, y, p, q, **k):
            it = iter([p, q]); seen = []
            with patched(c, "circ_mean", lambda alpha, *z, **k: (seen.append(alpha), next(it))[1]): t = c.circ_corrcc(x, y, method="js", **k)
            for i in range(n): M.eq("means of the data", seen[0][i], x[i]); M.eq("means of the data", seen[1][i], y[i])
            return t
        with sine(M, False) as S:
            x = [S(v - ma) for v in a]; y = [S(v - mb) for v in b]; xx = sum(v * v for v in x); yy = sum(v * v for v in y); xy = sum(p * q for p, q in zip(x, y))
            l22 = sum(p * p * q * q for p, q in zip(x, y)); M.assume(xx > 0.01); M.assume(yy > 0.01); M.assume(l22 > 1e-3); M.assume(M.np.sqrt(xx * yy) > 0.005)
            t = run(A, B, ma, mb, test=True); r = run(A, B, ma, mb)
            M.eq("same coefficient", t.r, r); M.eq("definition", r * M.np.sqrt(xx * yy), xy); M.eq("squared", r * r * xx * yy, xy * xy)
            M.eq("1-r^2 is a sum of squares", (1 - r * r) * xx * yy, sum((x[i] * y[j] - x[j] * y[i]) ** 2 for i in range(n) for j in range(i)))
            M.eq("statistic", t.test_stat ** 2 * l22, xy * xy); M.eq("p-value", t.p_value, 2 * c.norm.sf(M.np.abs(t.test_stat)))
            u, v = M.real("s", -7, 7), M.real("t", -7, 7)
            M.eq("rotation", run(A + u, B + v, ma + u, mb + v), r); M.eq("reflected", run(A, -B, ma, -mb), -r)
            M.eq("symmetric", run(B, A, mb, ma), r); M.eq("with itself", run(A, A, ma, ma), 1); M.eq("order", run(M.arr(a[::-1]), M.arr(b[::-1]), ma, mb), r)
    return f


def js_data(M):
    """with the sample's own means"""
    c = R(M); d = M.m.descriptive; a, b = pairs(M, 2, 0, 6.28)
    x, y = js_parts(M, a, b); assume_js(M, a, b, x, y)
    r = c.circ_corrcc(M.arr(a), M.arr(b), method="js"); M.eq("definition", r * M.np.sqrt(sum(v * v for v in x) * sum(v * v for v in y)), sum(p * q for p, q in zip(x, y)))


def np_def(n, ra, rb):
    c = 2 * math.pi / n; dif = [c * (p - q) for p, q in zip(ra, rb)]; sm = [c * (p + q) for p, q in zip(ra, rb)]
    sq = lambda t: (sum(map(math.cos, t)) ** 2 + sum(map(math.sin, t)) ** 2) / n ** 2
    return sq(dif) - sq(sm)


def ranks(n, perm):
    r = [0] * n
    for k, i in enumerate(perm): r[i] = k + 1
    return r


def nonparametric(n):
    """every joint order of the two variables"""
    def f(M):
        u, v = M.ordered("u", n, 0, 6.28, 1e-3), M.ordered("v", n, 0, 6.28, 1e-3); P = list(permutations(range(n))); P = P if n < 5 else P[::7]
        p = M.choice("order", P); a = list(u); b = [None] * n
        for k, i in enumerate(p): b[i] = v[k]
        c = R(M); t = c.circ_corrcc(M.arr(a), M.arr(b), method="nonparametric", test=True); want = np_def(n, list(range(1, n + 1)), ranks(n, p))
        M.eq("r", t.r, want); M.le("at most one", t.r, 1); M.ge("at least minus one", t.r, -1); M.ok("decision", bool(t.reject_null) == ((n - 1) * want > 2.99 + 2.16 / n))
        M.eq("symmetric", c.circ_corrcc(M.arr(b), M.arr(a), method="nonparametric"), want); M.eq("with itself", c.circ_corrcc(M.arr(b), M.arr(b), method="nonparametric"), 1)
        M.eq("reflected", c.circ_corrcc(M.arr(a), 2 * M.pi - M.arr(b), method="nonparametric"), -want); M.eq("reordered", c.circ_corrcc(M.arr(a[::-1]), M.arr(b[::-1]), method="nonparametric"), want)
    return f


def nonparametric_rotation(n):
    def f(M):
        u, v = M.ordered("u", n, 0, 6.28, 1e-3), M.ordered("v", n, 0, 6.28, 1e-3); p = M.choice("order", list(permutations(range(n)))[:6]); s = M.real("s", -7, 7); b = [v[i] for i in p]; c = R(M)
        for x in u:
            e = M.np.mod(x + s, 2 * M.pi); M.assume(e > 1e-6); M.assume(e < 2 * M.pi - 1e-6)
        r = c.circ_corrcc(M.arr(u), M.arr(b), method="nonparametric")
        M.eq("rotation", c.circ_corrcc(M.np.mod(M.arr(u) + s, 2 * M.pi), M.arr(b), method="nonparametric"), r)
        M.eq("rotation past whole turns", c.circ_corrcc(M.arr(u) + s, M.arr(b), method="nonparametric"), r)
        k = M.choice("turn", [-1, 1]); w = list(b); w[0] = w[0] + 2 * k * M.pi; M.eq("whole turns", c.circ_corrcc(M.arr(u), M.arr(w), method="nonparametric"), r)
    return f


def forms(M):
    """arrays, lists and data objects alike; malformed input refused"""
    c = R(M); a, b = pairs(M, 3, 0, 6.28); fl_parts(M, a, b, M.np.sin)
    r = c.circ_corrcc(M.arr(a), M.arr(b)); o = object.__new__(M.m.base.Circular); o.alpha = M.arr(a)
    M.eq("list", c.circ_corrcc(list(a), tuple(b)), r); M.eq("object", c.circ_corrcc(o, M.arr(b)), r)
    for m in ("fl", "js", "nonparametric"):
        M.raises("length", ValueError, lambda: c.circ_corrcc(M.arr(a), M.arr(b[:2]), method=m)); M.raises("scalar", ValueError, lambda: c.circ_corrcc(0.5, M.arr(b), method=m)); M.raises("empty", ValueError, lambda: c.circ_corrcc([], [], method=m))
        M.raises("matrix", ValueError, lambda: c.circ_corrcc(M.np.ones((2, 2)), M.np.ones((2, 2)), method=m)); M.raises("one pair", ValueError, lambda: c.circ_corrcc([0.1], [0.2], method=m))
    M.raises("two pairs", ValueError, lambda: c.circ_corrcc([0.1, 0.3], [0.2, 0.1], method="nonparametric")); M.raises("method", ValueError, lambda: c.circ_corrcc(M.arr(a), M.arr(b), method="foo"))
    x = M.angle("x"); M.raises("constant", ValueError, lambda: c.circ_corrcc(M.arr([x, x, x]), M.arr(b)))


def strict(M):
    """a data object whose mean direction is not significant is refused unless strict=False"""
    c = R(M); p = M.real("p", 0, 1); M.assume(M.np.abs(p - 0.05) > 1e-6); a, b = M.np.array([0.1, 0.7, 0.9, 1.5]), M.np.array([0.3, 0.2, 1.1, 0.9])
    class T: pval = p
    o = object.__new__(M.m.base.Circular); o.alpha = a; o.mean_test_result = T(); r = c.circ_corrcc(a, b, method="js"); bad = M.true(p >= 0.05)
    for x, y in ((o, b), (b, o)):
        M.eq("not strict", c.circ_corrcc(x, y, method="js", strict=False), r)
        if bad: M.raises("refused", ValueError, lambda: c.circ_corrcc(x, y, method="js"))
        else: M.eq("accepted", c.circ_corrcc(x, y, method="js"), r)


def obligations(tier):
    q = tier == "quick"; C = "correlation.circ_corrcc, "
    o = [Obl("fl/%d" % n, fl(n), C + "_circ_corrcc_fl", "%d pairs in [-7,7], rotations in [-7,7]; sine any odd function" % n) for n in ((2, 3) if q else (2, 3, 4))] + [Obl("fl/exact", fl(2, True), C + "_circ_corrcc_fl", "2 pairs")]
    o += [Obl("fl/itself", fl_itself(2), C + "_circ_corrcc_fl", "2 angles"), Obl("fl/turns", fl_turns(2), C + "_circ_corrcc_fl", "2 pairs"), Obl("fl/jackknife", fl_jackknife(5), C + "_circ_corrcc_fl", "6 fixed data sets of 5 pairs", weight=0)]
    o += [Obl("js/%d" % n, js(n), C + "_circ_corrcc_js (means by contract)", "%d pairs" % n) for n in (2, 3)] + [Obl("js/data", js_data, C + "_circ_corrcc_js", "2 pairs")]
    o += [Obl("np/%d" % n, nonparametric(n), C + "_circ_corrcc_np", "%d pairs, every order" % n) for n in ((3, 4) if q else (3, 4, 5))] + [Obl("np/rotation", nonparametric_rotation(3), C + "_circ_corrcc_np", "3 pairs, rotation in [-7,7]")]
    o += [Obl("forms", forms, C + "_coerce_angles", "3 pairs")]
    o += [Obl("strict", strict, C + "_coerce_angles, _circ_corrcc_js", "p-value in [0,1]")]
    return o
