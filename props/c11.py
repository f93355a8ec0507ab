"""C11 range, quantiles, density estimate and highest-density interval."""
import math
from symx.harness import Obl, patched


def D(M): return M.m.descriptive


def lin_eq(M, label, a, b):
    """equal up to whole turns"""
    M.eq(label, M.np.mod(a - b + 1, 2 * M.pi), 1)


def mx(M, xs):
    r = xs[0]
    for x in xs[1:]: r = M.np.maximum(r, x)
    return r


def range_sorted(n):
    def f(M):
        x = M.ordered("x", n, 0, 6.283, 0)
        tau = 2 * M.pi; r = D(M).circ_range(M.arr(x))
        gaps = [x[i + 1] - x[i] for i in range(n - 1)] + [x[0] + tau - x[-1]]
        M.eq("a turn less the largest gap", r, tau - mx(M, gaps)); M.ge("range", r, 0); M.lt("below a turn", r, tau)
    return f


def range_any(n, lim):
    """every observation can start an arc of that length containing all data, and no shorter arc does"""
    def f(M):
        x = [M.real("x%d" % i, -lim, lim) for i in range(n)]; tau = 2 * M.pi
        r = D(M).circ_range(M.arr(x))
        need = [mx(M, [M.np.mod(y - s, tau) for y in x]) for s in x]
        m = need[0]
        for v in need[1:]: m = M.np.minimum(m, v)
        M.eq("shortest arc", r, m)
    return f


def range_rotation(M):
    x = M.angles("x", 3); t = M.real("t", -7, 7)
    M.eq("rotation", D(M).circ_range(M.arr(x) + t), D(M).circ_range(M.arr(x)))


def range_order(M):
    x = M.angles("x", 3); f = D(M).circ_range; v = f(M.arr(x))
    for p in ([1, 0, 2], [2, 1, 0], [1, 2, 0]): M.eq("order", f(M.arr([x[i] for i in p])), v)


def linq(xs, p, mid=False):
    n = len(xs); h = p * (n - 1); lo = int(math.floor(h + 1e-12)); hi = min(lo + 1, n - 1); g = h - lo
    if g < 1e-9: return xs[lo]
    if mid: g = 0.5
    return xs[lo] + (xs[hi] - xs[lo]) * g


PROBS = [0.0, 0.25, 0.5, 0.75, 1.0]


def quantile(n, perm=None):
    """for whatever direction m the sample median is: quantiles of the signed deviations from m, turned back"""
    def f(M):
        m = M.angle("m"); d = M.ordered("d", n, -3.141, 3.141, 0)
        ps = M.choice("probs", [PROBS, [0.1, 0.4, 0.9]]); tau = 2 * M.pi
        typ = M.choice("type", [7, 6])
        o = perm or range(n)
        with patched(D(M), "circ_median", lambda *a, **k: m):
            got = D(M).circ_quantile(M.arr([m + d[i] for i in o]), M.np.array(ps), type=typ)
        M.ok("one per level", len(got) == len(ps))
        for g, p in zip(got, ps):
            lin_eq(M, "quantile", g, m + linq(d, p, typ != 7)); M.ge("range", g, 0); M.le("range", g, tau)
    return f


def quantile_raw(M):
    """data in any turn; levels 0 and 1 are the extreme deviations"""
    m = M.angle("m"); x = [M.real("x%d" % i, -7, 7) for i in range(2)]; tau = 2 * M.pi
    with patched(D(M), "circ_median", lambda *a, **k: m):
        a = D(M).circ_quantile(M.arr(x), 0.0); b = D(M).circ_quantile(M.arr(x), 1.0); c = D(M).circ_quantile(M.arr([x[1] + tau, x[0] - tau]), 0.0)
    s = [M.pi - M.np.mod(M.pi - (v - m), tau) for v in x]
    lin_eq(M, "first", a[0], m + M.np.minimum(s[0], s[1])); lin_eq(M, "last", b[0], m + M.np.maximum(s[0], s[1])); lin_eq(M, "turns and order", c[0], a[0])


def quantile_median(M):
    """with the sample's own median: the middle quantile is the median"""
    x = M.ordered("x", 3, 0, 6.28, 0.01); M.assume(x[2] - x[0] <= 3)
    q = D(M).circ_quantile(M.arr(x), M.np.array([0.0, 0.5, 1.0]))
    for i in range(3): lin_eq(M, "quantile", q[i], x[i])


def quantile_nan(M):
    x = M.angles("x", 2)
    with patched(D(M), "circ_median", lambda *a, **k: float("nan")):
        q = D(M).circ_quantile(M.arr(x), M.np.array([0.5, 1.0]))
    for v in q: M.is_nan("no median", v)


def kernel(M, x, a, h):
    tau = 2 * M.pi
    d = M.np.mod(x - a, tau); e = M.np.minimum(d, tau - d)
    return (1 - M.np.minimum(e, h) ** 2 / h ** 2) ** 2


def density(n, idx, lim):
    def f(M):
        a = [M.real("a%d" % i, -lim, lim) for i in range(n)]; h = M.real("h", 0.05, 3.1); R = M.real("R", 0.5, 2)
        x, y = D(M).nonparametric_density_estimation(M.arr(a), h, R)
        M.ok("grid", len(x) == 100 and len(y) == 100)
        for j in idx:
            X = j * 2 * M.pi / 99
            M.eq("grid point", x[j], X)
            k = sum(kernel(M, X, v, h) for v in a) * 15 / (16 * n * h)
            M.eq("density", (y[j] + R) ** 2, R * R * (1 + M.pi * k)); M.ge("nonnegative", y[j], 0)
    return f


def density_rotation(M):
    a = M.angle("a"); h = M.real("h", 0.1, 3.1); k = M.choice("steps", [1, 40, 98]); i = M.choice("i", [0, 13, 57])
    s = 2 * M.pi / 99
    f = D(M).nonparametric_density_estimation
    A = f(M.arr([a]), h)[1]; B = f(M.arr([a + k * s]), h)[1]
    M.eq("rotates", B[(i + k) % 99], A[i]); M.eq("closes up", A[0], A[99])


def hdi(n, c):
    def f(M):
        x = [M.real("x%d" % i, -7, 7) for i in range(n)] if n <= 2 else M.angles("x", n); tau = 2 * M.pi
        check_hdi(M, x, c)
    return f


def hdi_sorted(n, c):
    def f(M): check_hdi(M, M.ordered("x", n, 0, 6.283, 0), c, True)
    return f


def check_hdi(M, x, c, srt=False):
    n = len(x); tau = 2 * M.pi; w = max(1, int(math.floor(c * n + 1e-9)))
    lb, ub = D(M).compute_hdi(M.arr(x), ci=c)
    s = x if srt else list(M.np.sort(M.np.mod(M.arr(x), tau)))
    ext = s + [v + tau for v in s]
    width = M.np.mod(ub - lb, tau)
    best = ext[w - 1] - ext[0]
    for i in range(1, n): best = M.np.minimum(best, ext[i + w - 1] - ext[i])
    M.eq("shortest run", width, best)
    hit = 1
    for i in range(n): hit = hit * (M.np.abs(M.np.sin((lb - ext[i]) / 2)) + M.np.abs(M.np.sin((ub - ext[i + w - 1]) / 2)))
    M.le("limits are the ends of a run of samples", hit, 0)


def hdi_errors(M):
    x = M.angles("x", 3)
    for c in (0, 1, 1.5, -0.1): M.raises("level", ValueError, lambda: D(M).compute_hdi(M.arr(x), ci=c))
    M.raises("empty", ValueError, lambda: D(M).compute_hdi(M.np.array([]), ci=0.5))


def obligations(tier):
    q = tier == "quick"
    R, Q, K, H = ("descriptive." + s for s in ("circ_range", "circ_quantile", "nonparametric_density_estimation", "compute_hdi"))
    o = [Obl("range/sorted%d" % n, range_sorted(n), R, "%d sorted angles" % n) for n in (1, 2, 3, 5, 8)]
    o += [Obl("range/any%d" % n, range_any(n, l), R, "%d angles in [-%d,%d]" % (n, l, l)) for n, l in ([(1, 13), (2, 13), (3, 7)])]
    o += [Obl("range/rotation", range_rotation, R, "3 angles"), Obl("range/order", range_order, R, "3 angles")]
    o += [Obl("quantile/n%d" % n, quantile(n), Q, "%d angles within half a turn of the median direction; levels 0, .1, .25, .4, .5, .75, .9, 1" % n) for n in (1, 2, 3, 4, 6)]
    o += [Obl("quantile/order", quantile(4, [2, 0, 3, 1]), Q, "4 angles, another order"), Obl("quantile/turns", quantile_raw, Q, "2 angles in [-7,7]"), Obl("quantile/median", quantile_median, Q, "3 angles within 3 radians"), Obl("quantile/nan", quantile_nan, Q, "")]
    o += [Obl("density/n1", density(1, range(0, 100, 9) if q else range(100), 13), K, "1 angle in [-13,13], bandwidth in [0.05,3.1]"), Obl("density/n2", density(2, [0, 31, 66, 99], 7), K, "2 angles"), Obl("density/rotation", density_rotation, K, "1 angle")]
    o += [Obl("hdi/n%d-%s" % (n, c), hdi(n, c), H, "%d angles, level %s" % (n, c)) for n, c in ([(1, 0.5), (2, 0.5), (2, 0.95), (3, 0.5), (3, 0.7)] + ([] if q else [(4, 0.5), (4, 0.8)]))]
    o += [Obl("hdi/sorted%d-%s" % (n, c), hdi_sorted(n, c), H, "%d sorted angles, level %s" % (n, c)) for n, c in ([(5, 0.8), (6, 0.5)] + ([] if q else [(8, 0.8), (10, 0.9)]))]
    o += [Obl("hdi/errors", hdi_errors, H, "")]
    return o
