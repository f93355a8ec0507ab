"""C32 summaries of a distribution follow from its trigonometric moments, and the moments from its density."""
import math
from symx.harness import Obl, patched
from symx import scishim
from .c28 import D, F, fam, kj, mu, scalar


def polar(M, a, b): return M.np.sqrt(a * a + b * b)


class moments:
    """any pair of first and second trigonometric moments"""
    def __init__(self, M, m): self.M = M; self.p = patched(D(M).CircularContinuous, "trig_moment", lambda self_, p=1, *a, **k: m[p], need=False)
    def __enter__(self): return self.p.__enter__()
    def __exit__(self, *a): return self.p.__exit__(*a)


def pair(M):
    a, b, c, d = (M.real(n, -1, 1) for n in ("C1", "S1", "C2", "S2")); M.assume(a * a + b * b <= .9999); M.assume(c * c + d * d <= .9999); M.assume(a * a + b * b >= 1e-4); r = polar(M, a, b); M.assume(r >= .009); M.assume(r <= .99996); M.assume(M.np.log(a * a + b * b) <= -9e-5); M.assume(M.np.log(r) <= -3e-5); return a, b, c, d


def summaries(which):
    def f(M):
        a, b, c, d = pair(M); D_ = D(M).circularuniform; r = polar(M, a, b); p = ()
        with moments(M, {1: a + 1j * b, 2: c + 1j * d}):
            get = (lambda k: D_.stats(*p)[k]) if which.startswith("stats ") else (lambda k: getattr(D_, k)(*p)); k = which.split()[-1]
            if k == "stats": M.ok("names", set(D_.stats(*p)) == {"mean", "median", "r", "var", "std", "dispersion", "skewness", "kurtosis"}); return
            v = get(k)
        if k == "mean": M.angle_eq("mean", v, M.np.arctan2(b, a)); M.le("in [0, 2 pi)", 0, v); M.lt("in [0, 2 pi)", v, 2 * M.pi)
        if k == "r": M.eq("r", v, r)
        if k == "var": M.eq("var", v, 1 - r)
        if k == "std": M.eq("std", v, M.np.sqrt(-2 * M.np.log(r)))
        if k == "dispersion": M.eq("dispersion", v, (1 - polar(M, c, d)) / (2 * r * r))
        # r2 exp(i (u2 - 2 u1)) = m2 conj(m1)^2 / r^2
        if k == "skewness": M.eq("skewness", v * (1 - r) ** 1.5 * r * r, d * (a * a - b * b) - 2 * c * a * b)
        if k == "kurtosis": M.eq("kurtosis", v * (1 - r) ** 2 * r * r, c * (a * a - b * b) + 2 * d * a * b - r ** 6)
    return f


def balanced(M):
    """no mean direction without a resultant"""
    c, d = M.real("C2", -.7, .7), M.real("S2", -.7, .7); D_ = D(M).circularuniform; p = ()
    with moments(M, {1: 0 * c + 0j * c, 2: c + 1j * d}):
        M.is_nan("mean", D_.mean(*p)); M.eq("r", D_.r(*p), 0); M.eq("var", D_.var(*p), 1)
        for k in ("std", "dispersion"): M.ok(k, D_.__getattribute__(k)(*p) == math.inf)
        s = D_.stats(*p); M.is_nan("mean", s["mean"]); M.eq("r", s["r"], 0); M.ok("std", s["std"] == math.inf); M.ok("dispersion", s["dispersion"] == math.inf)


def frozen(M):
    """the frozen distribution reports the same"""
    a, b, c, d = pair(M); D_ = D(M).circularuniform; p = (); fz = D_(*p)
    with moments(M, {1: a + 1j * b, 2: c + 1j * d}):
        for k in ("mean", "r", "var", "std", "dispersion", "skewness", "kurtosis"): M.eq(k, getattr(fz, k)(), getattr(D_, k)(*p))
        s, t = fz.stats(), D_.stats(*p)
        for k in t: M.eq("stats " + k, s[k], t[k])


def same_moment(M, m, c, s):
    M.eq("cosine moment", m.real, c); M.eq("sine moment", m.imag, s)


class quantiles:
    """scipy splits the integral of an expectation at two quantiles; any points of the support will do"""
    def __init__(self, M, d):
        self.M = M; c, e = M.pi / 2, 3 * M.pi / 2
        self.p = patched(type(d), "ppf", lambda self_, q, *a, **k: c if q < .5 else e, need=False) if M.sym else None
    def __enter__(self):
        if self.p: self.p.__enter__()
    def __exit__(self, *a):
        if self.p: self.p.__exit__(*a)


def order(M): return M.choice("p", [1, 2, 3])


def published(name):
    def f(M):
        with quantiles(M, fam(M, name)): check(M, name)
    def check(M, name):
        p = order(M); d = fam(M, name); cos, sin = M.np.cos, M.np.sin
        if name == "circularuniform": return same_moment(M, d.trig_moment(p), 0, 0)
        if name == "katojones":
            m, g, r, l = kj(M); t = p * m + (p - 1) * l; same_moment(M, d.trig_moment(p, m, g, r, l), g * r ** (p - 1) * cos(t), g * r ** (p - 1) * sin(t)); n = d.trig_moment(-p, m, g, r, l); same_moment(M, n, g * r ** (p - 1) * cos(t), -g * r ** (p - 1) * sin(t))
            z = d.trig_moment(0, m, g, r, l); return same_moment(M, z, 1, 0)
    return f


def integral(M, f):
    if M.sym: return scishim.quad(f, 0 * M.pi, 2 * M.pi)[0]
    from scipy.integrate import quad
    return quad(f, 0, 2 * math.pi, limit=200)[0]


def definition(name):
    """the integral of exp(i p x) times the density"""
    def f(M):
        p = order(M); q = F[name][0](M); d = fam(M, name); pdf = lambda x: scalar(d._pdf(x, *q))
        if len(q) > 1: M.assume(q[0] <= 6.283)
        with quantiles(M, d): m = d.trig_moment(p, *q)
        same_moment(M, m, integral(M, lambda x: M.np.cos(p * x) * pdf(x)), integral(M, lambda x: M.np.sin(p * x) * pdf(x)))
    return f


def keyword(M):
    """shape parameters by name"""
    m, g, r, l = kj(M); d = D(M).katojones; t = 2 * m + l; c, s = g * r * M.np.cos(t), g * r * M.np.sin(t)
    for a in (d.trig_moment(2, mu=m, gamma=g, rho=r, lam=l), d.trig_moment(2, m, g, lam=l, rho=r), d(m, g, r, l).trig_moment(2)): same_moment(M, a, c, s)


def vonmises(M):
    m, k = mu(M), M.real("kappa", .01, 50); d = D(M).vonmises; A = M.sp.i1e(k) / M.sp.i0e(k); M.assume(A > 0); M.assume(A < 1)
    M.eq("mean", d.mean(m, k), m); M.eq("median", d.median(m, k), m); M.eq("var", d.var(m, k), 1 - A); M.eq("std", d.std(m, k), M.np.sqrt(-2 * M.np.log(A)))
    M.eq("entropy", d.entropy(m, k), M.np.log(2 * M.pi * M.sp.i0e(k)) + k * (1 - A))
    fz = d(m, k)
    for n in ("mean", "median", "var", "std", "entropy"): M.eq("frozen " + n, getattr(fz, n)(), getattr(d, n)(m, k))


def obligations(tier):
    o = [Obl("summary/" + k, summaries(k), "CircularContinuous." + k.split()[-1] + ("" if k[:6] != "stats " else ", stats"), "any first and second moments in the unit disc, resultant length in [.01, .99995]") for k in ("mean", "r", "var", "std", "dispersion", "skewness", "kurtosis")]
    o += [Obl("summary/stats " + k, summaries("stats " + k), "CircularContinuous.stats", "any first and second moments in the unit disc") for k in ("mean", "r", "var", "std", "dispersion", "skewness", "kurtosis", "stats")]
    o += [Obl("balanced", balanced, "CircularContinuous.mean, r, var, std, dispersion, stats", "first moment 0"), Obl("frozen", frozen, "CircularContinuousFrozen.*", "any first and second moments")]
    o += [Obl("published/" + n, published(n), n + ".trig_moment", "orders 1..3, every parameter") for n in ("circularuniform", "katojones")]
    o += [Obl("definition/" + n, definition(n), n + ".trig_moment, scipy rv_continuous.expect (its own source)", "orders 1..3, every parameter") for n in ("wrapcauchy", "triangular", "cartwright")]
    return o + [Obl("keyword", keyword, "katojones.trig_moment, _separate_shape_parameters", "every parameter"), Obl("vonmises", vonmises, "vonmises.mean, median, var, std, entropy", "kappa in [.01, 50]")]
