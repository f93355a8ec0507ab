"""C04 mean direction and resultant length."""
from symx.harness import Obl


def D(M): return M.m.descriptive


def samples(M, n, w=False):
    xs = M.real and [M.real("x%d" % i, -7, 7) for i in range(n)]
    ws = [M.real("w%d" % i, 0.01, 10) for i in range(n)] if w else None
    return xs, ws


def weighted(M, n):
    xs = [M.real("x%d" % i, -7, 7) for i in range(n)]
    kind = M.choice("weights", ["none", "real"])
    if kind == "none": return xs, None
    return xs, M.arr([M.real("w%d" % i, 0.01, 10) for i in range(n)])


def definition(n):
    def f(M):
        xs, w = weighted(M, n)
        m, r = D(M).circ_mean_and_r(M.arr(xs), w)
        W = [1] * n if w is None else [w[i] for i in range(n)]
        M.ge("r nonneg", r, 0)
        C = sum(W[i] * M.np.cos(xs[i]) for i in range(n)) / sum(W); S = sum(W[i] * M.np.sin(xs[i]) for i in range(n)) / sum(W)
        M.eq("r squared", r * r, C * C + S * S)
        M.eq("circ_r", D(M).circ_r(M.arr(xs), w), r)
        M.eq("circ_r from C and S", D(M).circ_r(Cbar=C, Sbar=S), r)
        if M.nan(m):
            M.le("undefined only at r=0", r, 1e-6)
            return
        M.ge("lower", m, 0, tol=0); M.lt("upper", m, 2 * M.pi)
        M.eq("residual sine", r * M.np.sin(m), S)
        M.eq("residual cosine", r * M.np.cos(m), C)
    return f


def same_functions(M):
    xs, w = weighted(M, 3)
    m, r = D(M).circ_mean_and_r(M.arr(xs), w)
    m2 = D(M).circ_mean(M.arr(xs), w)
    if M.nan(m): M.is_nan("same", m2)
    elif not M.nan(m2): M.angle_eq("same", m, m2)
    else: M.le("r tiny", r, 1e-6)


def bound(n):
    def f(M):
        xs = M.angles("x", n)
        M.le("r at most 1", D(M).circ_r(M.arr(xs)), 1)
    return f


def bound_weighted(M):
    xs = M.angles("x", 2); w = M.reals("w", 2, 0.01, 10)
    M.le("r at most 1", D(M).circ_r(M.arr(xs), M.arr(w)), 1)


def concentrated(M):
    x = M.angle("x"); n = M.int("n", 1, 4)
    m, r = D(M).circ_mean_and_r(M.arr([x] * n))
    M.eq("r is 1", r, 1); M.angle_eq("mean", m, x)


def opposite(M):
    x = M.angle("x")
    m, r = D(M).circ_mean_and_r(M.arr([x, x + M.pi]))
    M.eq("r is 0", r, 0); M.is_nan("mean undefined", m)
    M.is_nan("mean undefined", D(M).circ_mean(M.arr([x, x + M.pi])))


def compare(M, label, a, b, how):
    """(mean, r) pairs a and b; how maps the first mean to the second"""
    M.eq(label + " r", a[1], b[1])
    if M.nan(a[0]) or M.nan(b[0]):
        M.le(label + " undefined", a[1], 1e-6); return
    M.angle_eq(label + " mean", b[0], how(a[0]))


def rotation(n):
    def f(M):
        xs, w = weighted(M, n); t = M.real("t", -7, 7)
        a = D(M).circ_mean_and_r(M.arr(xs), w); b = D(M).circ_mean_and_r(M.arr(xs) + t, w)
        compare(M, "rotation", a, b, lambda m: m + t)
    return f


def reflection(M):
    xs, w = weighted(M, 3)
    a = D(M).circ_mean_and_r(M.arr(xs), w); b = D(M).circ_mean_and_r(-M.arr(xs), w)
    compare(M, "reflection", a, b, lambda m: -m)


def permutation(M):
    xs, w = weighted(M, 4)
    p = M.choice("p", [(1, 0, 2, 3), (3, 2, 1, 0), (1, 2, 3, 0)])
    a = D(M).circ_mean_and_r(M.arr(xs), w); b = D(M).circ_mean_and_r(M.arr([xs[i] for i in p]), None if w is None else M.arr([w[i] for i in p]))
    compare(M, "order", a, b, lambda m: m)


def turns(M):
    xs, w = weighted(M, 3)
    k = M.int("k", -2, 2); j = M.int("j", -1, 1)
    a = D(M).circ_mean_and_r(M.arr(xs), w); b = D(M).circ_mean_and_r(M.arr([xs[0] + 2 * M.pi * k, xs[1], xs[2] + 2 * M.pi * j]), w)
    compare(M, "whole turns", a, b, lambda m: m)


def repetition(M):
    xs = [M.real("x%d" % i, -7, 7) for i in range(3)]
    c = M.choice("counts", [(2, 1, 3), (1, 1, 2), (4, 1, 1), (3, 3, 3), (1, 0, 2)])
    rep = [x for x, k in zip(xs, c) for _ in range(k)]
    a = D(M).circ_mean_and_r(M.arr(xs), M.arr(c)); b = D(M).circ_mean_and_r(M.arr(rep))
    compare(M, "weights are repetitions", a, b, lambda m: m)


def scale(M):
    xs = [M.real("x%d" % i, -7, 7) for i in range(3)]; w = M.reals("w", 3, 0.01, 10); s = M.real("s", 0.01, 100)
    a = D(M).circ_mean_and_r(M.arr(xs), M.arr(w)); b = D(M).circ_mean_and_r(M.arr(xs), M.arr([s * v for v in w]))
    compare(M, "weight scale", a, b, lambda m: m)


def pooled(M):
    """combining group means and lengths of equal groups equals the pooled sample"""
    xs = M.angles("x", 2); ys = M.angles("y", 2)
    a = [D(M).circ_mean_and_r(M.arr(v)) for v in (xs, ys)]
    M.assume(a[0][1] > 0.01); M.assume(a[1][1] > 0.01)
    M.assume(D(M).circ_r(M.arr(xs + ys)) > 0.01)
    g = D(M).circ_mean_and_r_of_means(ms=[a[0][0], a[1][0]], rs=[a[0][1], a[1][1]])
    b = D(M).circ_mean_and_r(M.arr(xs + ys))
    compare(M, "pooled", b, g, lambda m: m)


def of_means(M):
    ms = M.angles("m", 3); rs = M.reals("r", 3, 0, 1); t = M.real("t", -7, 7)
    f = D(M).circ_mean_and_r_of_means
    a = f(ms=ms, rs=rs)
    X = sum(rs[i] * M.np.cos(ms[i]) for i in range(3)) / 3; Y = sum(rs[i] * M.np.sin(ms[i]) for i in range(3)) / 3
    M.eq("r squared", a[1] * a[1], X * X + Y * Y)
    if not M.nan(a[0]):
        M.eq("x", a[1] * M.np.cos(a[0]), X); M.eq("y", a[1] * M.np.sin(a[0]), Y)
        M.ge("lower", a[0], 0, tol=0); M.lt("upper", a[0], 2 * M.pi)
    compare(M, "rotation", a, f(ms=[m + t for m in ms], rs=rs), lambda m: m + t)
    compare(M, "order", a, f(ms=[ms[2], ms[0], ms[1]], rs=[rs[2], rs[0], rs[1]]), lambda m: m)


def bad_means(M):
    a = M.angle("a")
    f = D(M).circ_mean_and_r_of_means
    M.raises("missing", ValueError, lambda: f(ms=[a]))
    M.raises("length", ValueError, lambda: f(ms=[a, a], rs=[0.5]))
    M.raises("empty", ValueError, lambda: f(ms=[], rs=[]))
    M.raises("nothing", ValueError, lambda: f(circs=[]))
    M.raises("no data", ValueError, lambda: D(M).circ_r())


def obligations(tier):
    F = "descriptive.circ_mean,descriptive.circ_r,descriptive.circ_mean_and_r,descriptive.compute_C_and_S"
    G = "descriptive.circ_mean_and_r_of_means"
    A = "angles in [-7,7], weights none or real in [0.01,10]"
    o = [Obl("definition/n%d" % n, definition(n), F, "n=%d, %s" % (n, A)) for n in ((1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8))]
    o += [Obl("bound/n%d" % n, bound(n), F, "n=%d angles" % n) for n in (2, 3)]
    o += [Obl("rotation/n%d" % n, rotation(n), F, "n=%d, %s, rotation in [-7,7]" % (n, A)) for n in ((2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6))]
    o += [Obl("same", same_functions, F, "n=3, " + A), Obl("bound/weighted", bound_weighted, F, "n=2"), Obl("concentrated", concentrated, F, "n in 1..4 equal angles"),
          Obl("opposite", opposite, F, "x and x+pi"), Obl("reflection", reflection, F, "n=3, " + A), Obl("permutation", permutation, F, "n=4, 3 permutations"),
          Obl("turns", turns, F, "n=3, whole turns -2..2"), Obl("repetition", repetition, F, "n=3, 5 count vectors"), Obl("scale", scale, F, "n=3, factor in [0.01,100]"),
          Obl("pooled", pooled, F + "," + G, "2 groups of 2"), Obl("of-means", of_means, G, "3 means"), Obl("bad-means", bad_means, G, "")]
    return o
