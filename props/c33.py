"""C33 inadmissible parameters are refused: inside the published parameter range density, distribution function and
quantile are numbers, outside it they are undefined; nothing is clipped into the range."""
from symx.harness import Obl, concretely
from .c28 import D, fam, point, scalar, tables

E = 1e-6                       # distance from the boundary of the range

# family -> ((parameter, lowest, highest, low end admissible, high end admissible; None = unbounded), ...)
T = None
ANG = ("location", 0, "2pi")
R = {
    "triangular": (("rho", 0, "4/pi2"),),
    "cardioid": (ANG, ("rho", 0, .5)),
    "cartwright": (ANG, ("zeta", "0<", None)),
    "wrapnorm": (ANG, ("rho", "0<", "<1")),
    "wrapcauchy": (ANG, ("rho", 0, "<1")),
    "vonmises": (ANG, ("kappa", "0<", None)),
    "vonmises_flattopped": (ANG, ("kappa", 0, 1000), ("nu", -1, 1)),
    "jonespewsey": (ANG, ("kappa", 0, None), ("psi", None, None)),
    "jonespewsey_sineskewed": (ANG, ("kappa", 0, None), ("psi", None, None), ("lmbd", -1, 1)),
    "jonespewsey_asym": (ANG, ("kappa", 0, None), ("psi", None, None), ("nu", 0, "<1")),
    "inverse_batschelet": (ANG, ("kappa", 0, None), ("nu", -1, 1), ("lmbd", -1, 1)),
    "wrapstable": (ANG, ("alpha", "0<", 2), ("beta", "-1<", "<1"), ("gamma", "0<", None)),
    "katojones": (("location", 0, "<2pi"), ("gamma", 0, "<1"), ("rho", 0, "<1"), ("lam", 0, "<2pi")),
}


def end(M, v):
    """(value, admissible)"""
    if not isinstance(v, str): return v, True
    s = v.strip("<"); return {"2pi": 2 * M.pi, "4/pi2": 4 / M.pi ** 2}.get(s) if s in ("2pi", "4/pi2") else float(s), "<" not in v


def extra(M, name, p):
    """Kato-Jones: the admissible region of (gamma, rho, lambda)"""
    if name != "katojones": return None
    _, g, r, l = p; return (r * M.np.cos(l) - g) ** 2 + (r * M.np.sin(l)) ** 2 - (1 - g) ** 2


def inside(M, name):
    p = []
    for n, lo, hi in R[name]:
        v = M.real(n, -20 if lo is None else 0 if lo in (0, "0<") else -1, 50 if hi is None else 1000 if hi == 1000 else 6.2832)
        for e, s in ((lo, 1), (hi, -1)):
            if e is not None: t, _ = end(M, e); M.assume(s * (v - t) >= (0 if e in (0,) else E))
        p.append(v)
    x = extra(M, name, p)
    if x is not None: M.assume(x <= -E)
    return p


def accept(name):
    def f(M):
        p = inside(M, name); d = fam(M, name); M.ok("accepted", M.np.all(d._argcheck(*p)))
    return f


def boundary(name):
    """the ends of each range"""
    def f(M):
        d = fam(M, name); i = M.choice("parameter", list(range(len(R[name])))); side = M.choice("end", [1, 2]); e = R[name][i][side]
        p = [0 * M.pi + v for v in MID[name]]
        if e is None: return M.ok("no end", True)
        v, ok = end(M, e); p[i] = 0 * M.pi + v
        if name == "katojones": return M.ok("region", True)
        r = M.np.all(d._argcheck(*p)); M.ok("end", r if ok else M.np.logical_not(r))
    return f


MID = {"triangular": (.2,), "cardioid": (1., .25), "cartwright": (1., 1.), "wrapnorm": (1., .5), "wrapcauchy": (1., .5), "vonmises": (1., 2.), "vonmises_flattopped": (1., 2., .25),
       "jonespewsey": (1., 2., .5), "jonespewsey_sineskewed": (1., 2., .5, .25), "jonespewsey_asym": (1., 2., .5, .25), "inverse_batschelet": (1., 2., .25, .25), "wrapstable": (1., 1.5, .25, 1.), "katojones": (1., .25, .25, .5)}


def outside(name, arr):
    def f(M):
        d = fam(M, name); i = M.choice("parameter", list(range(len(R[name])))); side = M.choice("end", [1, 2]); e = R[name][i][side]
        if e is None and not (name == "katojones" and i): return M.ok("no end", True)
        p = [0 * M.pi + v for v in MID[name]]
        t, _ = end(M, e); v = M.real("v", -40 if side == 1 else -1, 6.29 if side == 1 else 2000)
        M.assume(v <= t - E if side == 1 else v >= t + E); p[i] = v
        x = point(M, "x"); q = M.real("q", .01, .99); xs = M.arr([x, x]) if arr else x; qs = M.arr([q, q]) if arr else q
        for m, a in (("pdf", xs), ("logpdf", xs), ("cdf", xs), ("sf", xs), ("ppf", qs)):
            w = getattr(d, m)(a, *p)
            for u in (list(w) if arr else [scalar(w)]): M.is_nan(m, u)
    return f


def region(M):
    d = D(M).katojones; g, r, l = M.real("gamma", .001, .999), M.real("rho", .001, .999), M.real("lam", 0, 6.283)
    M.assume(extra(M, "katojones", (1., g, r, l)) >= E); x = point(M, "x"); q = M.real("q", .01, .99)
    for m, a in (("pdf", x), ("cdf", x), ("ppf", q)): M.is_nan(m, scalar(getattr(d, m)(a, 0 * M.pi + 1., g, r, l)))


def number(name):
    """inside the range the density is a number"""
    def f(M):
        p = inside(M, name); M.finite("density", scalar(fam(M, name).pdf(point(M, "x"), *p)))
    return f


KW = ("loc", "scale")


def keywords(name):
    def f(M):
        d = fam(M, name); p = [0 * M.pi + v for v in MID[name]]; x = point(M, "x"); v = M.real("v", -3, 3); M.assume(M.np.abs(v) >= .01); q = M.real("q", .1, .9)
        for m, a in (("pdf", x), ("logpdf", x), ("cdf", x), ("sf", x), ("ppf", q)):
            for k, w in (("loc", v), ("scale", 1 + v)): M.raises("%s %s" % (m, k), TypeError, getattr(d, m), a, *p, **{k: w})
            for k in ("floc", "fscale", "fix_loc", "fix_scale"):
                if m == "pdf": M.raises("%s %s" % (m, k), TypeError, getattr(d, m), a, *p, **{k: 0})
        M.raises("freeze", TypeError, d, *p, loc=v); M.raises("freeze", TypeError, d, *p, scale=1 + v)
        data = M.arr([x, x])
        for k, w in (("loc", v), ("scale", 1 + v)): M.raises("fit " + k, TypeError, d.fit, data, **{k: w})
    return f


def defaults(M):
    """the values the circular support does allow"""
    x = point(M, "x"); d = D(M); r = M.real("rho", 0, .5); M.eq("loc 0, scale 1", scalar(d.cardioid.pdf(x, 1., r, loc=0, scale=1)), scalar(d.cardioid.pdf(x, 1., r)))


CLOSED = ("triangular", "cardioid", "wrapcauchy", "vonmises", "cartwright")


def obligations(tier):
    o = []
    for n in R:
        o += [Obl("accept/" + n, accept(n), n + "._argcheck", "every parameter vector at least 1e-6 inside the range"), Obl("boundary/" + n, boundary(n), n + "._argcheck", "the ends of each range"),
              Obl("outside/" + n, outside(n, False), n + ".pdf, logpdf, cdf, sf, ppf", "one parameter at least 1e-6 outside its range"), Obl("outside/%s/array" % n, outside(n, True), n + ".pdf, logpdf, cdf, sf, ppf", "arrays of 2"),
              Obl("keywords/" + n, keywords(n), n + ".pdf, logpdf, cdf, sf, ppf, freeze, fit; CircularContinuous._clean_loc_scale_kwargs", "any other location and scale")]
    o += [Obl("number/" + n, number(n), n + ".pdf", "every admissible parameter vector") for n in CLOSED]
    return o + [Obl("region", region, "katojones._argcheck", "gamma, rho, lambda outside the admissible region"), Obl("defaults", defaults, "cardioid.pdf", "loc 0, scale 1")]
