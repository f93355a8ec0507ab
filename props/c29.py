"""C29 distribution functions: 0 at the start of the support, 1 at its end, and the integral of the density between."""
import math
from symx.harness import Obl, float_roots
from .c28 import D, F, WS, fam, placed, point, scalar, ws_terms



# ---------------------------------------------------------------- antiderivatives of the published densities, from 0
def a_uniform(M, x, p): return x / (2 * M.pi)
def a_card(M, x, p): return (x + 2 * p[1] * (M.np.sin(x - p[0]) + M.np.sin(p[0]))) / (2 * M.pi)


def a_tri(M, x, p):
    r = p[0]; pi = M.pi; y = x - pi
    # the density is (4 + pi^2 r - 2 pi r x) / 8 pi up to pi, and its mirror image after
    low, up = ((4 + pi ** 2 * r) * x - pi * r * x ** 2) / (8 * pi), .5 + ((4 - pi ** 2 * r) * y + pi * r * y ** 2) / (8 * pi)
    return M.np.where(M.np.asarray(x) <= pi, low, up)


def a_series(M, x, m, terms):
    """of (1 + 2 sum r cos(p (x - m) - h)) / 2 pi"""
    return x / (2 * M.pi) + sum(r / p * (M.np.sin(p * (x - m) - h) - M.np.sin(-p * m - h)) for p, r, h in terms) / M.pi


A = {"circularuniform": a_uniform, "cardioid": a_card, "triangular": a_tri}


def closed(name, arr):
    def f(M):
        par, _, _, _ = F[name]; x = point(M, "x"); p = par(M); d = fam(M, name); a = A[name]; s = scalar(a(M, x, p))
        if arr: y = point(M, "y"); M.eq("distribution function", list(d.cdf(M.arr([x, y]), *p)), [s, scalar(a(M, y, p))]); return
        M.eq("distribution function", scalar(d.cdf(x, *p)), s); M.eq("survival function", scalar(d.sf(x, *p)), 1 - s)
    return f


def bounded(M, s):
    """the integral of a density over a part of the circle lies between 0 and 1"""
    M.assume(s >= 1e-6); M.assume(s <= 1 - 1e-6); return s


def vm(M):
    k = M.choice("kappa", [.25, 1., 2.5]); x, m, d = placed(M); import scipy.special as sp
    s = a_series(M, x, m, [(n, float(sp.ive(n, k) / sp.i0e(k)), 0) for n in range(1, 25) if sp.ive(n, k) > 1e-9])
    bounded(M, s)
    M.eq("distribution function", scalar(D(M).vonmises.cdf(x, m, k)), s)


def katojones(M):
    g, r, l = M.choice("shape", [(.25, .25, .5), (.5, .125, 0.), (.25, .375, 6.), (.5, 0., 0.)]); x, m, d = placed(M); M.assume(m <= 6.283)
    s = a_series(M, x, m, [(p, g * r ** (p - 1), (p - 1) * l) for p in range(1, 30) if r ** (p - 1) > 1e-9])
    bounded(M, s)
    with float_roots(M): M.eq("distribution function", scalar(D(M).katojones.cdf(x, m, g, r, l)), s)


def stable(M):
    al, be, ga = M.choice("shape", WS); x, de, d = placed(M)
    with float_roots(M): s = bounded(M, a_series(M, x, de, ws_terms(al, be, ga))); M.eq("distribution function", scalar(D(M).wrapstable.cdf(x, de, al, be, ga)), s)


ENDS = {"circularuniform": lambda M: (), "triangular": F["triangular"][0], "cardioid": F["cardioid"][0],
        "vonmises": lambda M: (M.angle("mu"), 0 * M.pi + M.choice("kappa", [.25, 1., 2.5, 40.])), "katojones": lambda M: (M.angle("mu", 0, 6.283), *[0 * M.pi + v for v in M.choice("shape", [(.25, .25, .5), (.5, 0., 0.)])]),
        "wrapstable": lambda M: (M.angle("mu"), *[0 * M.pi + v for v in M.choice("shape", WS)])}


def ends(name):
    """the two ends of the support"""
    def f(M):
        p = ENDS[name](M); d = fam(M, name)
        with float_roots(M):
            M.eq("start", scalar(d.cdf(0 * M.pi, *p)), 0); M.eq("end", scalar(d.cdf(2 * M.pi, *p)), 1); M.eq("survival at the start", scalar(d.sf(0 * M.pi, *p)), 1)
            M.eq("both", list(d.cdf(M.arr([2 * M.pi, 0 * M.pi]), *p)), [1, 0])
    return f


def obligations(tier):
    o = []
    for n in A: o += [Obl("closed/" + n + ("/array" if t else ""), closed(n, t), n + ".cdf, sf", "x in [1e-9, 2 pi - 1e-7], every parameter") for t in (0, 1)]
    o += [Obl("vonmises", vm, "vonmises.cdf", "kappa in {.25, 1, 2.5}, every x, mu"), Obl("katojones", katojones, "katojones.cdf, _evaluate_cdf_series, _compute_series_terms", "four shapes, every x, mu"), Obl("wrapstable", stable, "wrapstable.cdf, _compute_series_terms", "shapes %s, every x, delta" % WS)]
    return o + [Obl("ends/" + n, ends(n), n + ".cdf, sf", "x in {0, 2 pi}, every location") for n in ENDS]
