"""C05 trigonometric moments, dispersion, skewness, kurtosis."""
from symx.harness import Obl


def D(M): return M.m.descriptive


def sample(M, n):
    xs = [M.real("x%d" % i, -7, 7) for i in range(n)]
    kind = M.choice("weights", ["none", "real"])
    return xs, None if kind == "none" else M.arr([M.real("w%d" % i, 0.01, 10) for i in range(n)])


def W(w, n): return [1] * n if w is None else [w[i] for i in range(n)]


def cs(M, xs, w, p=1, about=0):
    """Weighted mean of cos and sin of p(x-about), from the definition."""
    n = len(xs); ws = W(w, n)
    return (sum(ws[i] * M.np.cos(p * (xs[i] - about)) for i in range(n)) / sum(ws),
            sum(ws[i] * M.np.sin(p * (xs[i] - about)) for i in range(n)) / sum(ws))


def moment(n):
    def f(M):
        xs, w = sample(M, n); p = M.int("p", 0, 4)
        m = D(M).circ_moment(M.arr(xs), w, p=p)
        C, S = cs(M, xs, w, p)
        M.eq("cosine", m.real, C); M.eq("sine", m.imag, S)
        M.assume(M.np.abs(m) > 0.001)
        u, r = D(M).convert_moment(m)
        M.eq("modulus", r * r, C * C + S * S); M.ge("modulus sign", r, 0)
        M.ge("angle", u, 0, tol=0); M.lt("angle below", u, 2 * M.pi)
        M.eq("polar cos", r * M.np.cos(u), C); M.eq("polar sin", r * M.np.sin(u), S)
    return f


def moment_about(M):
    xs, w = sample(M, 3); p = M.int("p", 1, 3); a = M.real("a", -7, 7)
    m = D(M).circ_moment(M.arr(xs), w, p=p, mean=a)
    C, S = cs(M, xs, w, p, a)
    M.eq("cosine", m.real, C); M.eq("sine", m.imag, S)


def moment_centred(M):
    """about the mean: the first sine moment vanishes and the first cosine moment is r; p-th equals rotation by -p mean"""
    xs, w = sample(M, 3); p = M.int("p", 1, 2)
    mean, r = D(M).circ_mean_and_r(M.arr(xs), w)
    M.assume(r > 0.01)
    m = D(M).circ_moment(M.arr(xs), w, p=p, centered=True)
    C, S = cs(M, xs, w, p, mean)
    M.eq("cosine", m.real, C); M.eq("sine", m.imag, S)
    if p == 1: M.eq("is r", m.real, r); M.eq("no sine", m.imag, 0)


def moment_bound(M):
    n, p = 3, 1
    xs = M.angles("x", n)
    M.le("at most 1", M.np.abs(D(M).circ_moment(M.arr(xs), p=p)), 1)


def reg(M, xs, w, r2=True):
    """away from the singular points r1 = 0, r1 = 1 (and r2 = 0, where the angle of the second moment is undefined)"""
    a = D(M).circ_r(M.arr(xs), w)
    M.assume(a > 0.01); M.assume(a < 0.99)
    if r2: M.assume(M.np.abs(D(M).circ_moment(M.arr(xs), w, p=2)) > 0.01)
    return a


def dispersion(n):
    def f(M):
        xs, w = sample(M, n)
        r = D(M).circ_r(M.arr(xs), w); M.assume(r > 0.01)
        d = D(M).circ_dispersion(M.arr(xs), w)
        C, S = cs(M, xs, w, 2); 
        M.eq("definition", 2 * r * r * d, 1 - M.np.sqrt(C * C + S * S))
        c = M.real("c", -7, 7)
        M.eq("about any direction", D(M).circ_dispersion(M.arr(xs), w, mean=c), d)
    return f


def shape(M, xs, w):
    C1, S1 = cs(M, xs, w); C2, S2 = cs(M, xs, w, 2)
    # m2 * conj(m1)^2
    a, b = C1 * C1 - S1 * S1, -2 * C1 * S1
    return C2 * a - S2 * b, C2 * b + S2 * a


def skewness(n):
    def f(M):
        xs, w = sample(M, n)
        r = reg(M, xs, w)
        re, im = shape(M, xs, w)
        M.eq("definition", D(M).circ_skewness(M.arr(xs), w) * (1 - r) * M.np.sqrt(1 - r) * r * r, im)
    return f


def kurtosis(n):
    def f(M):
        xs, w = sample(M, n)
        r = reg(M, xs, w)
        re, im = shape(M, xs, w)
        M.eq("definition", (D(M).circ_kurtosis(M.arr(xs), w) * (1 - r) ** 2 + r ** 4) * r * r, re)
    return f


STATS = ("circ_dispersion", "circ_skewness", "circ_kurtosis")


def invariance(name, how):
    def f(M):
        xs, w = sample(M, 3)
        reg(M, xs, w)
        g = getattr(D(M), name)
        a = g(M.arr(xs), w)
        ys, v, sg = xs, w, 1
        if how == "rotation": t = M.real("t", -7, 7); ys = [x + t for x in xs]
        elif how == "reflection":
            ys = [-x for x in xs]; sg = -1 if name == "circ_skewness" else 1
        elif how == "order": ys = [xs[2], xs[0], xs[1]]; v = None if w is None else M.arr([w[2], w[0], w[1]])
        elif how == "turns": ys = [xs[0] + 2 * M.pi, xs[1], xs[2] - 4 * M.pi]
        M.eq(how, g(M.arr(ys), v), sg * a)
    return f


def repetition(M):
    xs = [M.real("x%d" % i, -7, 7) for i in range(3)]; c = M.choice("c", [(1, 2, 3), (2, 2, 1)])
    rep = [x for x, k in zip(xs, c) for _ in range(k)]
    reg(M, xs, M.arr(c))
    for name in STATS:
        g = getattr(D(M), name)
        M.eq(name, g(M.arr(xs), M.arr(c)), g(M.arr(rep)))


def symmetric(M):
    """a sample symmetric about a direction has no skewness"""
    m, d, e = M.angle("m"), M.real("d", 0.01, 3), M.real("e", 0.01, 3)
    xs = [m - d, m + d, m - e, m + e]
    reg(M, xs, None)
    M.eq("no skewness", D(M).circ_skewness(M.arr(xs)), 0)


def obligations(tier):
    big = tier != "quick"
    A = "angles in [-7,7], weights none or real in [0.01,10]"
    R = A + ", 0.01<r<0.99, r2>0.01"
    F = "descriptive.circ_moment,descriptive.compute_C_and_S,descriptive.convert_moment"
    o = [Obl("moment/n%d" % n, moment(n), F, "n=%d, p 0..4, %s" % (n, A)) for n in ((1, 3) if not big else (1, 2, 3, 4, 5))]
    o += [Obl("moment-about", moment_about, F, "n=3, p 1..3, any centre in [-7,7]"), Obl("moment-centred", moment_centred, F + ",descriptive.circ_mean", "n=3, p 1..2, r>0.01"),
          Obl("moment-bound", moment_bound, F, "n=3, p 1..3")]
    for n in ((2, 3) if not big else (2, 3, 4)):
        o += [Obl("dispersion/n%d" % n, dispersion(n), "descriptive.circ_dispersion", "n=%d, %s, r>0.01" % (n, A)),
              Obl("skewness/n%d" % n, skewness(n), "descriptive.circ_skewness", "n=%d, %s" % (n, R)), Obl("kurtosis/n%d" % n, kurtosis(n), "descriptive.circ_kurtosis", "n=%d, %s" % (n, R))]
    for s in STATS:
        for how in ("rotation", "reflection", "order", "turns"):
            o.append(Obl("%s/%s" % (s, how), invariance(s, how), "descriptive." + s, "n=3, " + R))
    o += [Obl("repetition", repetition, ",".join("descriptive." + s for s in STATS), "n=3, 2 count vectors"), Obl("symmetric", symmetric, "descriptive.circ_skewness", "4 points symmetric about a direction")]
    return o
