"""C28 densities: the code's public pdf/logpdf against the published formulas, for every angle (any number of
turns) and every parameter in the stated ranges."""
import math
import numpy as np
from symx.harness import Bypassed, Obl, concretely, float_roots
from symx import scishim

LO, HI = 1e-9, 6.283185          # away from the seam, which has its own obligation


def D(M): return M.m.distributions
def fam(M, name): return getattr(D(M), name)
def mu(M): return M.angle("mu")
def scalar(v): return v if not np.ndim(v) else np.asarray(v).reshape(-1)[0]


# ---------------------------------------------------------------- the published densities
def s_uniform(M, x, p): return 1 / (2 * M.pi) + 0 * x
def s_card(M, x, p): return (1 + 2 * p[1] * M.np.cos(x - p[0])) / (2 * M.pi)
def s_wc(M, x, p): return (1 - p[1] ** 2) / (2 * M.pi * (1 + p[1] ** 2 - 2 * p[1] * M.np.cos(x - p[0])))
def s_vm(M, x, p): return M.np.exp(p[1] * (M.np.cos(x - p[0]) - 1)) / (2 * M.pi * M.sp.i0e(p[1]))


def s_tri(M, x, p):
    d = M.np.abs(M.pi - x); return (4 - M.pi ** 2 * p[0] + 2 * M.pi * p[0] * d) / (8 * M.pi)


def s_cart(M, x, p):
    z = 1 / p[1]; lg = M.sp.gammaln; M.assume(1 + M.np.cos(x - p[0]) >= 1e-6)
    return M.np.exp(z * M.np.log(2) + 2 * lg(1 + z) - lg(1 + 2 * z)) * (1 + M.np.cos(x - p[0])) ** z / (2 * M.pi)


def s_kj(M, x, p):
    m, g, r, l = p; c = M.np.cos
    q = 1 + r * r - 2 * r * c(x - m - l); M.assume(q >= 1e-5)      # always so: q >= (1 - r)^2
    n = 2 * g * (c(x - m) - r * c(l)); f = (1 + n / q) / (2 * M.pi); M.assume(q + n >= 0); M.assume(f >= 0); return f      # by admissibility


def s_wn(M, x, p): return (1 + 2 * sum(p[1] ** (k * k) * M.np.cos(k * (x - p[0])) for k in range(1, 30))) / (2 * M.pi)


def s_wn_turns(M, x, p):
    """the unwrapped normal summed over turns"""
    s2 = -2 * M.np.log(p[1]); d = x - p[0]
    return sum(M.np.exp(-(d + 2 * M.pi * k) ** 2 / (2 * s2)) for k in (-1, 0, 1)) / M.np.sqrt(2 * M.pi * s2)      # the other turns are below 1e-30


def kj(M):
    g, r, l = M.real("gamma", .01, .9), M.real("rho", .01, .9), M.angle("lam", 0, 6.283)
    M.assume((r * M.np.cos(l) - g) ** 2 + (r * M.np.sin(l)) ** 2 <= (1 - g) ** 2); return M.angle("mu", 0, 6.283), g, r, l


# name -> (parameters, density, symmetric about its location, parameters may be arrays)
F = {
    "circularuniform": (lambda M: (), s_uniform, False, False),
    "triangular": (lambda M: (M.real("rho", 0, .405),), s_tri, False, True),
    "cardioid": (lambda M: (mu(M), M.real("rho", 0, .5)), s_card, True, True),
    "wrapcauchy": (lambda M: (mu(M), M.real("rho", 0, .999)), s_wc, True, True),
    "vonmises": (lambda M: (mu(M), M.real("kappa", .001, 300)), s_vm, True, True),
    "cartwright": (lambda M: (mu(M), M.real("zeta", .05, 20)), s_cart, True, True),
    "wrapnorm": (lambda M: (mu(M), M.real("rho", .001, .799)), s_wn, True, True),
    "wrapnorm near 1": (lambda M: (mu(M), M.real("rho", .801, .9999)), s_wn_turns, True, False),
    "katojones": (kj, s_kj, False, True),
}


def point(M, name): return M.real(name, LO, HI)


def off_seam(M, y, name):
    """y keeps its distance from the seam, some turns away"""
    t = M.choice("turns of " + name, [-1, 0, 1]); M.assume(y + 2 * M.pi * t >= LO); M.assume(y + 2 * M.pi * t <= HI); return y


def formula(name, arr):
    def f(M):
        par, spec, _, _ = F[name]; x = point(M, "x"); p = par(M); t = M.choice("turns", [-3, -1, 0, 1]); d = fam(M, name.split()[0])
        if name == "wrapnorm near 1": M.assume(x - p[0] > -2.9); M.assume(x - p[0] < 2.9)
        if arr:
            y = point(M, "y")
            if name == "wrapnorm near 1": M.assume(y - p[0] > -2.9); M.assume(y - p[0] < 2.9)
            s = [spec(M, x, p), spec(M, y, p)]; M.eq("density", list(d.pdf(M.arr([x + 2 * M.pi * t, y]), *p)), s)
        else: s = spec(M, x, p); M.eq("density", scalar(d.pdf(x + 2 * M.pi * t, *p)), s)
    return f


def seam(name):
    """at the seam itself"""
    def f(M):
        par, spec, _, _ = F[name]; k = M.choice("turns", [-1, 0, 1, 2]); p = par(M); d = fam(M, name.split()[0])
        s = spec(M, 0 * M.pi, p); M.eq("density", scalar(d.pdf(2 * M.pi * k, *p)), s)
    return f


def laws(name, law):
    def f(M):
        par, spec, sym, _ = F[name]; p = par(M); d = fam(M, name.split()[0])
        if law == "sign" or not p or name == "triangular": x = point(M, "x"); spec(M, x, p); M.ge("nonnegative", scalar(d.pdf(x, *p)), 0); return
        e = M.real("d", -6.2831, 6.2831); x = p[0] + e; M.assume(x >= LO); M.assume(x <= HI); spec(M, x, p)
        if name == "wrapnorm near 1": M.assume(M.np.abs(e) <= 2.9)
        v = scalar(d.pdf(x, *p))
        if law == "mirror": M.eq("symmetric about its location", scalar(d.pdf(off_seam(M, p[0] - e, "mirror"), *p)), v)
        if law == "rotate": m2 = M.angle("mu2", 0, 6.283) if name == "katojones" else M.angle("mu2"); M.eq("rotates with its location", scalar(d.pdf(off_seam(M, m2 + e, "y"), m2, *p[1:])), v)
    return f


def log(name):
    def f(M):
        par, spec, _, _ = F[name]; x = point(M, "x"); p = par(M); d = fam(M, name.split()[0]); spec(M, x, p); v = scalar(d.pdf(x, *p)); M.assume(v > 1e-5); M.assume(spec(M, x, p) > 1e-5)
        lp = scalar(d.logpdf(x, *p))
        if name == "katojones": M.eq("log-density", M.np.exp(lp), M.np.maximum(v, np.finfo(float).tiny))
        else: M.eq("log-density", lp, M.np.log(v), tol=1e-5)
    return f


def frozen(name):
    """frozen distributions and keyword arguments name the same density"""
    def f(M):
        par, spec, _, _ = F[name]; x = point(M, "x"); p = par(M); d = fam(M, name.split()[0]); names = [s.strip() for s in (d.shapes or "").split(",") if s.strip()]
        v = scalar(d.pdf(x, *p)); M.eq("frozen", scalar(d(*p).pdf(x)), v); k = dict(zip(names, p)); M.eq("keywords", scalar(d.pdf(x, **k)), v); M.eq("frozen by keywords", scalar(d(**k).pdf(x)), v)
        M.eq("default location and scale", scalar(d.pdf(x, *p, loc=0, scale=1)), v)
    return f


def vector(name):
    """arrays of parameters are taken element by element"""
    def f(M):
        par, spec, _, _ = F[name]; x = point(M, "x"); p = par(M); d = fam(M, name.split()[0]); q = list(p)
        if name == "triangular": q[0] = M.real("rho2", 0, .405)
        else: q[0] = M.angle("mu2") if name != "katojones" else M.angle("mu2", 0, 6.283)
        if name in ("cardioid", "wrapcauchy"): q[1] = M.real("rho2", 0, .5)
        if name == "vonmises": q[1] = M.real("kappa2", .001, 300)
        s = [spec(M, x, p), spec(M, x, q)]; M.eq("element by element", list(d.pdf(x, *[M.arr([a, b]) for a, b in zip(p, q)])), s)
    return f


def large(M):
    """concentrations far beyond the overflow of the Bessel functions"""
    x, m, d = placed(M); k = M.choice("kappa", [720., 5000., 1e6]); import scipy.special as sp
    M.eq("log-density", scalar(D(M).vonmises.logpdf(x, m, k)), k * (M.np.cos(d) - 1) - math.log(2 * math.pi * float(sp.i0e(k))), tol=1e-5)


def small(M):
    """Cartwright's density far into the range in which its gamma functions overflow"""
    x, m, d = placed(M); z = M.choice("1/zeta", [100, 400]); c = M.np.cos(d); M.assume(c > .97)
    k = math.exp(2 * z * math.log(2) + 2 * math.lgamma(1 + z) - math.lgamma(1 + 2 * z)) / (2 * math.pi); v = scalar(D(M).cartwright.pdf(x, m, M.pi * 0 + 1 / z))
    M.eq("density", v, k * M.np.exp(z * M.np.log((1 + c) / 2)), tol=1e-5)


# ---------------------------------------------------------------- families normalised numerically
def quad(f):
    """integral over a turn of a smooth periodic function"""
    t = np.linspace(-math.pi, math.pi, 40001)[:-1]; return float(np.mean(f(t)) * 2 * math.pi)


def k_ft(np_, d, k, nu): return np_.exp(k * np_.cos(d + nu * np_.sin(d)))
def k_jp(np_, d, k, psi): return (np_.cosh(k * psi) + np_.sinh(k * psi) * np_.cos(d)) ** (1 / psi)
def k_ss(np_, d, k, psi, l): return k_jp(np_, d, k, psi) * (1 + l * np_.sin(d))
def k_as(np_, d, k, psi, nu): return k_jp(np_, d + nu * np_.cos(d), k, psi)


G = {  # name -> (kernel, its parameters at which the constant is checked, symbolic parameters, symmetric)
    "vonmises_flattopped": (k_ft, [(2., .5), (.75, -.75), (30., .25), (5., 1.)], None, True),
    "jonespewsey": (k_jp, [(2.5, .5), (1.375, -2.), (3., -.25), (.5, 2.), (12., .125)], lambda M, s: (M.real("kappa", .01, 5), M.real("psi", .05, 2) if s > 0 else M.real("psi", -2, -.05)), True),
    "jonespewsey_sineskewed": (k_ss, [(2.5, .5, .5), (1.375, -2., -1.), (.5, 2., .25)], lambda M, s: (M.real("kappa", .01, 5), M.real("psi", .05, 2) if s > 0 else M.real("psi", -2, -.05), M.real("lmbd", -1, 1)), False),
    "jonespewsey_asym": (k_as, [(2.5, .5, .5), (1.375, -2., .75), (.5, 2., .25)], None, False),
}


def lit(M, p): return [0 * M.pi + v for v in p]


def placed(M, name="x"):
    """a point given by its displacement d from the location: (x, location, d)"""
    d = M.real("d", -6.2831, 6.2831); m = mu(M); x = m + d; M.assume(x >= LO); M.assume(x <= HI); return x, m, d


def positive(M, name, d, p):
    """a fact about the Jones-Pewsey kernel: cosh A + sinh A cos >= exp(-|A|)"""
    if name.startswith("jones"):
        b = M.np.cosh(p[0] * p[1]) + M.np.sinh(p[0] * p[1]) * M.np.cos(d + p[2] * M.np.cos(d) if name.endswith("asym") else d); M.assume(b > 0); M.assume(b >= 4e-5)


def tables(M): return concretely(M, D(M), "_vmft_build_table")


def normal(name, arr):
    """at fixed shapes: the density is the published kernel over its integral, at every angle and location"""
    def f(M):
        ker, ps, _, sym = G[name]; x, m, dd = placed(M); p = M.choice("shape", ps); t = M.choice("turns", [-1, 0, 1]); d = fam(M, name); Z = quad(lambda t: ker(np, t, *p)); q = lit(M, p)
        positive(M, name, dd, q); s = ker(M.np, dd, *q) / Z
        with tables(M): v = d.pdf(M.arr([x + 2 * M.pi * t, x]), m, *p) if arr else d.pdf(x + 2 * M.pi * t, m, *p)
        M.eq("density", list(v) if arr else scalar(v), [s, s] if arr else s)
    return f


def ratio(name, sign):
    """at every shape: densities are proportional to the published kernel, with a factor that depends on the shape alone"""
    def f(M):
        ker, _, par, sym = G[name]; x, m, dd = placed(M); y = point(M, "y"); M.assume(m <= 6.283); p = par(M, sign); d = fam(M, name); positive(M, name, dd, p); positive(M, name, y, p)
        M.eq("proportional", scalar(d.pdf(x, m, *p)) * ker(M.np, y, *p), scalar(d.pdf(y, 0., *p)) * ker(M.np, dd, *p))
    return f


def history(name):
    """a density does not depend on which densities were evaluated before"""
    def f(M):
        ker, ps, _, _ = G[name]; x, m, dd = placed(M); d = fam(M, name); order = M.choice("order", [(0, 1, 0), (1, 0, 1), (1, 2, 0)]); q = lit(M, ps[order[-1]])
        for i in order: positive(M, name, dd, lit(M, ps[i]))
        M.assume(M.np.abs(dd) >= 1e-6); M.assume(dd >= -6.28)
        with tables(M):
            for i in order: v = scalar(d.pdf(x, m, *ps[i]))
            Z = quad(lambda t: ker(np, t, *ps[order[-1]])); M.eq("density", v, ker(M.np, dd, *q) / Z)
            v = scalar(d.pdf(dd + 2 * M.pi, 0., *ps[order[-1]])); M.eq("another location", v, ker(M.np, dd, *q) / Z)
    return f


class roots:
    """root_scalar by contract: it returns the root of its equation, which must be one of the two defining equations
    (residuals given) whose roots are inputs of the symbolic run"""
    def __init__(self, M, cand): self.M, self.cand = M, cand
    def __enter__(self):
        M = self.M
        if not M.sym: return self
        def solve(f, *a, bracket=None, method=None, **k):
            for c, res in self.cand:
                r = scalar(f(c)) - res
                if not hasattr(r, "isconst") or (r.isconst and abs(float(r.value())) < 1e-12): return type("R", (), {"root": c, "converged": True})()
            raise Bypassed("root of another equation")
        scishim.HOOKS["root_scalar"] = solve; return self
    def __exit__(self, *a):
        if self.M.sym: scishim.HOOKS.pop("root_scalar", None)


IB = [(2., .5, .25), (1.5, -.75, .25), (8., 0., -.5), (1., .5, 0.), (3., .25, 1.), (2., -.25, -1.), (4., 1., .25)]


def batschelet(arr):
    def f(M):
        k, nu, l = M.choice("shape", IB); xi, phi = M.angle("xi"), M.real("phi", -3.14, 3.14); sin, cos = M.np.sin, M.np.cos; x = xi + phi; t = M.choice("turns", [-1, 0, 1])
        M.assume(x >= LO); M.assume(x <= HI)
        e1, e2 = lambda y: y - nu * (1 + cos(y)) - phi, lambda y, u: u - (1 + l) / 2 * sin(u) - y
        if M.sym:
            y = M.real("y", -3.1415, 3.1415) if nu else phi; u = M.real("u", -3.1415, 3.1415) if l != -1 else y
            if nu: M.assume(e1(y) == 0)
            if l != -1: M.assume(e2(y, u) == 0)
        else:
            from scipy.optimize import brentq
            y = brentq(e1, -math.pi, math.pi); u = brentq(lambda u: e2(y, u), -math.pi, math.pi)
        un = np.linspace(-math.pi, math.pi, 20001); w = un - (1 + l) / 2 * np.sin(un); g = np.exp(k * np.cos(w + l * np.sin(un))) * (1 - (1 + l) / 2 * np.cos(un))
        Z = float(np.sum((g[1:] + g[:-1]) / 2) * (un[1] - un[0]))
        # (1 - l) / (1 + l) y + 2 l / (1 + l) u with u - y = (1 + l) / 2 sin u
        s = k * cos(y - sin(y) if l == -1 else (1 - l) / (1 + l) * y + 2 * l / (1 + l) * u) - math.log(Z)
        with float_roots(M), roots(M, [(y, e1(y) if nu else 0), (u, e2(y, u))]), concretely(M, D(M), "_c_invbatschelet"):
            v = D(M).inverse_batschelet.pdf(M.arr([x + 2 * M.pi * t, x]) if arr else x + 2 * M.pi * t, xi, k, nu, l)
        M.eq("logarithm of the density", [M.np.log(w) for w in v] if arr else M.np.log(scalar(v)), [s, s] if arr else s, tol=1e-5)
    return f


# ---------------------------------------------------------------- wrapped stable laws
WS = [(2., 0., .875), (1.5, .25, 2.), (1., .5, 2.5), (1., -.75, 3.), (.75, -.5, 5.), (1., 0., 2.25), (1.25, .875, 2.)]


def ws_terms(al, be, ga):
    P = next(p for p in range(1, 20000) if math.exp(-(ga * p) ** al) < 1e-9)
    ph = lambda p: -2 / math.pi * be * ga * p * math.log(ga * p) if al == 1 else be * math.tan(math.pi * al / 2) * ((ga * p) ** al - ga * p)
    return [(p, math.exp(-(ga * p) ** al), ph(p)) for p in range(1, P + 1)]


def stable(arr):
    def f(M):
        al, be, ga = M.choice("shape", WS[1::2] if arr else WS); x, de, d = placed(M); t = M.choice("turns", [-1, 0])
        s = (1 + 2 * sum(r * M.np.cos(p * d - h) for p, r, h in ws_terms(al, be, ga))) / (2 * M.pi)
        with float_roots(M): v = D(M).wrapstable.pdf(M.arr([x + 2 * M.pi * t, x]) if arr else x + 2 * M.pi * t, de, al, be, ga)
        M.eq("density", list(v) if arr else scalar(v), [s, s] if arr else s)
    return f


# ---------------------------------------------------------------- special members
def uniform(M):
    x, m = point(M, "x"), mu(M); d = D(M); U = 1 / (2 * M.pi)
    for n, v in dict(triangular=(0.,), cardioid=(m, 0.), wrapcauchy=(m, 0.), vonmises_flattopped=(m, 0., .4), jonespewsey=(m, 0., .7), jonespewsey_asym=(m, 0., .7, .4), inverse_batschelet=(m, 0., .2, .3), katojones=(m - 2 * M.pi if False else m, 0., .3, .4)).items():
        if n == "katojones": M.assume(m < 6.283)
        M.eq(n, scalar(getattr(d, n).pdf(x, *v)), U)
    M.eq("sine-skewed", scalar(d.jonespewsey_sineskewed.pdf(x, m, 0., .7, .3)), U * (1 + .3 * M.np.sin(x - m)))


def members_jp(M):
    x, m = point(M, "x"), mu(M); d = D(M); k = M.choice("kappa", [.4, 2.5])
    M.eq("psi 0: von Mises", scalar(d.jonespewsey.pdf(x, m, k, 0.)), s_vm(M, x, (m, k)))
    M.eq("psi 1: cardioid", scalar(d.jonespewsey.pdf(x, m, k, 1.)), s_card(M, x, (m, math.tanh(k) / 2)))
    M.eq("psi -1: wrapped Cauchy", scalar(d.jonespewsey.pdf(x, m, k, -1.)), s_wc(M, x, (m, math.tanh(k / 2))))
    M.eq("unskewed", scalar(d.jonespewsey_sineskewed.pdf(x, m, k, .7, 0.)), scalar(d.jonespewsey.pdf(x, m, k, .7)))
    M.eq("unwarped", scalar(d.jonespewsey_asym.pdf(x, m, k, .7, 0.)), scalar(d.jonespewsey.pdf(x, m, k, .7)))


def members(M):
    x, m = point(M, "x"), mu(M); d = D(M); M.assume(m < 6.283); k = M.choice("kappa", [.4, 1., 2.5])
    with tables(M): M.eq("flat-topped at nu 0: von Mises", scalar(d.vonmises_flattopped.pdf(x, m, k, 0.)), s_vm(M, x, (m, k)))
    g = M.real("gamma", .01, .49); M.eq("Kato-Jones at rho 0: cardioid", scalar(d.katojones.pdf(x, m, g, 0., 0.)), s_card(M, x, (m, g)))
    r = M.real("r", .01, .95); s_kj(M, x, (m, r, r, 0)); M.eq("Kato-Jones at gamma = rho: wrapped Cauchy", scalar(d.katojones.pdf(x, m, r, r, 0.)), s_wc(M, x, (m, r)))


def refuse(M):
    """free location or scale"""
    n = M.choice("family", ["cardioid", "vonmises", "katojones"]); d = fam(M, n); p = dict(cardioid=(1., .3), vonmises=(1., 2.), katojones=(1., .3, .2, .1))[n]; x = point(M, "x"); v = M.real("v", .01, 3)
    for meth in ("pdf", "logpdf", "cdf"):
        M.raises(meth + " loc", TypeError, getattr(d, meth), x, *p, loc=v); M.raises(meth + " scale", TypeError, getattr(d, meth), x, *p, scale=1 + v)


def obligations(tier):
    P = "pdf/_pdf/logpdf of %s; CircularContinuous._wrap_angles; scipy rv_continuous.pdf (its own source)"
    R = "x in [1e-9, 6.283185] plus whole turns, mu in [0, 2pi); "
    o = []
    for n in F:
        b = n.split()[0]
        o += [Obl("formula/%s" % n, formula(n, False), P % b, R + "scalar"), Obl("formula/%s/array" % n, formula(n, True), P % b, R + "arrays of 2"), Obl("log/%s" % n, log(n), P % b, R + "where the density exceeds 1e-5"), Obl("seam/%s" % n, seam(n), P % b, "x = 2 pi k, k in -1..2") if n != "wrapnorm near 1" else None]
        for law in ("sign", "mirror", "rotate"):
            if n == "wrapnorm": continue       # covered by its formula, and slow
            if law == "sign" or (law == "mirror" and F[n][2]) or (law == "rotate" and n not in ("triangular", "circularuniform")): o.append(Obl("%s/%s" % (law, n), laws(n, law), P % b, R))
        if " " not in n and n != "circularuniform": o.append(Obl("frozen/%s" % n, frozen(n), P % b + "; freeze", R))
        if F[n][3]: o.append(Obl("vector/%s" % n, vector(n), P % b, R + "2 parameter vectors"))
    for n in G:
        o += [Obl("constant/%s" % n, normal(n, False), P % n + " and its normaliser", R + "shapes %s" % (G[n][1],)), Obl("constant/%s/array" % n, normal(n, True), P % n, R + "arrays of 2"), Obl("history/%s" % n, history(n), P % n + "; normalisation caches", "3 evaluations at any of 3 shapes")]
        if G[n][2]: o += [Obl("ratio/%s/%s" % (n, "+" if s > 0 else "-"), ratio(n, s), P % n, R + "kappa in [.01, 5], |psi| in [.05, 3]") for s in (1, -1)]
    o += [Obl("batschelet" + t, batschelet(bool(t)), "inverse_batschelet.pdf, _tnu, _slmbdinv, _c_invbatschelet", "shapes %s; the root finder returns the root of its equation" % (IB,), no_fid=True) for t in ("", "/array")]
    o += [Obl("stable", stable(False), "wrapstable.pdf, _compute_series_terms", R + "shapes %s" % (WS,)), Obl("stable/array", stable(True), "wrapstable.pdf", "arrays of 2"),
          Obl("large", large, P % "vonmises", "kappa in {720, 5000, 1e6}"), Obl("small", small, P % "cartwright", "1/zeta in {100, 400}"), Obl("uniform", uniform, P % "all families", "at zero concentration"), Obl("members/jones-pewsey", members_jp, P % "jonespewsey families", "kappa in {.4, 1, 2.5}"), Obl("members", members, P % "vonmises_flattopped, katojones", R), Obl("refuse", refuse, "CircularContinuous._clean_loc_scale_kwargs", "any loc > 0, any scale > 1")]
    return [x for x in o if x]
