"""C07 circular median."""
from symx.harness import Obl


def D(M): return M.m.descriptive


def dev(M, xs, i):
    """mean angular distance to xs[i], by cases on the wrapped difference"""
    return sum(M.m.utils.angular_distance(M.arr([x]), xs[i])[0] for x in xs) / len(xs)


def distinct(M, xs, gap=0.01):
    for i in range(len(xs)):
        for j in range(i): M.assume(M.m.utils.angular_distance(M.arr([xs[i]]), xs[j])[0] > gap)


def minimiser(n, turns=False):
    """a data point that minimises the mean deviation with a margin is the median"""
    def f(M):
        xs = M.angles("x", n)
        spread(M, xs)
        i = M.choice("i", range(n))
        d = [dev(M, xs, k) for k in range(n)]
        for k in range(n):
            if k != i: M.assume(d[i] + 0.001 < d[k])
        ys = list(xs)
        if turns: ys[0] = ys[0] + 2 * M.pi * M.int("k", -2, 2)
        a = D(M).circ_median(M.arr(ys), return_average=False)
        M.angle_eq("minimiser", a, xs[i])
        M.ge("lower", a, 0, tol=0); M.lt("upper", a, 2 * M.pi)
        M.angle_eq("averaged", D(M).circ_median(M.arr(ys)), xs[i])
    return f


def half_circle(n, method):
    """data inside half a turn: the median is the middle point, or the midpoint of the two middle points"""
    def f(M):
        s = M.angle("s"); g = M.reals("g", n - 1, 0.01, 3)
        h = M.real("h", 0.005, 1.5)
        if n % 2 == 0: g[n // 2 - 1] = 2 * h
        M.assume(sum(g) < 3.1)
        xs = [s]
        for v in g: xs.append(xs[-1] + v)
        spread(M, xs)
        wrap = M.choice("wrap", [True, False])
        p = M.choice("order", [tuple(range(n)), tuple(reversed(range(n)))])
        a = M.arr([xs[i] for i in p])
        if wrap: a = M.m.utils.angmod(a)
        m = D(M).circ_median(a, method=method)
        want = xs[n // 2] if n % 2 else xs[n // 2 - 1] + h
        M.angle_eq("middle", m, want)
        M.ge("lower", m, 0, tol=0); M.lt("upper", m, 2 * M.pi)
    return f


def count_split(n):
    """counting method: the candidates are the data points whose diameter splits the data most evenly"""
    def f(M):
        xs = M.angles("x", n)
        spread(M, xs)
        side = []
        for i in range(n):
            t = 0
            for j in range(n):
                if i == j: continue
                d = M.m.utils.angmod(xs[j] - xs[i])
                M.assume(d > 0.001); M.assume(d < 2 * M.pi - 0.001); M.assume(M.np.abs(d - M.pi) > 0.001)
                t += 1 if M.true(d < M.pi) else -1
            side.append(abs(t))
        best = [i for i in range(n) if side[i] == min(side)]
        m = D(M).circ_median(M.arr(xs), method="count", return_average=False)
        m = M.np.atleast_1d(m)
        M.ok("number of candidates", len(m) == (1 if len(best) == n else len(best)))
        if len(best) == n: M.is_nan("no direction preferred", m[0])
        else:
            for k, i in enumerate(best): M.angle_eq("candidate", m[k], xs[i])
    return f


def count_opposite(n):
    """an exactly opposite pair: a point on the far end of a diameter lies on neither side"""
    def f(M):
        x = M.angles("x", n - 1); xs = [x[0], M.m.utils.angmod(x[0] + M.pi)] + x[1:]
        spread(M, xs)
        side = []
        for i in range(n):
            t = 0
            for j in range(n):
                if i == j or {i, j} == {0, 1}: continue
                d = M.m.utils.angmod(xs[j] - xs[i])
                M.assume(d > 0.001); M.assume(d < 2 * M.pi - 0.001); M.assume(M.np.abs(d - M.pi) > 0.001)
                t += 1 if M.true(d < M.pi) else -1
            side.append(abs(t))
        best = [i for i in range(n) if side[i] == min(side)]
        m = M.np.atleast_1d(D(M).circ_median(M.arr(xs), method="count", return_average=False))
        M.ok("number of candidates", len(m) == (1 if len(best) == n else len(best)))
        if len(best) == n: M.is_nan("no direction preferred", m[0])
        else:
            for k, i in enumerate(best): M.angle_eq("candidate", m[k], xs[i])
    return f


def spread(M, xs):
    """not all in one direction"""
    M.assume(D(M).circ_r(M.arr(xs)) < 0.999)


def coincide(M):
    x = M.angle("x"); n = M.int("n", 1, 4); meth = M.choice("m", ["deviation", "count"])
    M.angle_eq("the point", D(M).circ_median(M.arr([x] * n), method=meth), x)


def grouped(nb):
    """frequencies in three adjacent bins of a full circle of bins: the median splits the mass in half"""
    def f(M):
        b = 2 * M.pi / nb
        s = M.choice("s", [0, 2]); t = M.real("t", 0.01, 0.5)
        w = M.reals("w", 3, 0.1, 1)
        M.assume(w[0] + 0.01 < w[1] + w[2]); M.assume(w[2] + 0.01 < w[1] + w[0])   # the middle bin holds the median
        W = [0] * nb
        for i in range(3): W[(s + i) % nb] = w[i]
        al = M.arr([t + b * i for i in range(nb)])
        m = D(M).circ_median(al, M.arr(W), return_average=False)
        lo = t + b * ((s + 1) % nb) - b / 2
        want = lo + b * (sum(w) / 2 - w[0]) / w[1]
        M.eq("splits the mass", m, want, tol=2e-3)
    return f


def options(M):
    x = M.angles("x", 3)
    spread(M, x)
    M.is_nan("no method", D(M).circ_median(M.arr(x), method="none", return_average=False))
    M.raises("method", ValueError, lambda: D(M).circ_median(M.arr(x), method="foo"))
    M.raises("average", ValueError, lambda: D(M).circ_median(M.arr(x), average_method="foo"))


def obligations(tier):
    F = "descriptive.circ_median,descriptive._circ_median_mean_deviation,descriptive.circ_mean_deviation"
    C = "descriptive.circ_median,descriptive._circ_median_count"
    q = tier == "quick"
    o = [Obl("minimiser/n%d" % n, minimiser(n), F, "n=%d angles in [0,2pi), margin 0.001" % n) for n in ((3,) if q else (3, 4))]
    o += [Obl("minimiser/turns", minimiser(3, True), F, "n=3, whole turns -2..2")]
    o += [Obl("half/%s/n%d" % (m, n), half_circle(n, m), F if m == "deviation" else C, "n=%d within 3.1 rad, gaps >= 0.01" % n) for m in ("deviation", "count") for n in ((3, 4) if q else (3, 4, 5))]
    o += [Obl("count/n%d" % n, count_split(n), C, "n=%d in general position (1e-3)" % n) for n in ((3,) if q else (3, 4))]
    o += [Obl("count/opposite%d" % n, count_opposite(n), C, "n=%d, one exactly opposite pair" % n) for n in ((3, 4) if q else (3, 4, 5))]
    o += [Obl("coincide", coincide, F + "," + C, "1..4 equal angles"), Obl("options", options, F, "")]
    o += [Obl("grouped/%d" % k, grouped(k), "descriptive._circ_median_grouped", "%d bins, mass in 3 adjacent bins, weights in [0.1,1]" % k) for k in ((6,) if q else (6, 8))]
    return o
