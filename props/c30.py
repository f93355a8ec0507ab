"""C30 quantiles in closed form: the distribution function takes a quantile back to its probability, quantiles lie in
the support and do not decrease."""
from symx.harness import Obl
from .c28 import fam, scalar
from .c29 import a_uniform

PAR = {"circularuniform": lambda M: (), "triangular": lambda M: (M.real("rho", .001, .405),), "triangular at rho 0": lambda M: (0 * M.pi,)}


def prob(M, name="q", lo=1e-9, hi=1 - 1e-9): return M.real(name, lo, hi)


def inverse(name):
    def f(M):
        n = name.split()[0]; d = fam(M, n); p = PAR[name](M); lower = M.choice("half", [0, 1]); q = prob(M, "q", 1e-9, .5) if lower else prob(M, "q", .5 + 1e-9); r = prob(M, "r")
        v = list(d.ppf(M.arr([q, r]), *p)); x = v[0]; pi = M.pi; y = x - pi
        M.ge("support", x, 0, tol=0); M.le("support end", x, 2 * pi)
        if name != "triangular": M.eq("distribution function at the quantile", a_uniform(M, x, p), q)
        else:
            if lower: M.le("lower half", x, pi)
            else: M.ge("upper half", x, pi)
            k = p[0]; M.eq("distribution function at the quantile", ((4 + pi ** 2 * k) * x - pi * k * x ** 2) / (8 * pi) if lower else .5 + ((4 - pi ** 2 * k) * y + pi * k * y ** 2) / (8 * pi), q)
        M.eq("alone or in an array", scalar(d.ppf(M.arr([q]), *p)), x)
    return f


def monotone(name):
    def f(M):
        n = name.split()[0]; d = fam(M, n); p = PAR[name](M); q = prob(M); r = prob(M, "r"); M.assume(r >= q); a, b = d.ppf(M.arr([q, r]), *p); M.le("nondecreasing", a, b)
    return f


def ends(name):
    def f(M):
        n = name.split()[0]; d = fam(M, n); p = PAR[name](M); v = list(d.ppf(M.arr([0 * M.pi, 0 * M.pi + 1]), *p)); M.eq("ends", v, [0, 2 * M.pi])
        q = M.choice("outside", [-.25, 1.5]); M.is_nan("no quantile of a number that is no probability", scalar(d.ppf(M.arr([0 * M.pi + q]), *p)))
    return f


def survival(name):
    """the survival quantile is the quantile of the complement"""
    def f(M): n = name.split()[0]; d = fam(M, n); p = PAR[name](M); q = prob(M); M.eq("survival quantile", scalar(d.isf(M.arr([q]), *p)), scalar(d.ppf(M.arr([1 - q]), *p)))
    return f


def obligations(tier):
    R = "q in (1e-9, 1 - 1e-9), every parameter"
    return [Obl(k + "/" + n, f(n), n.split()[0] + ".ppf, _ppf; scipy rv_continuous.ppf (its own source)", b) for n in PAR for k, f, b in (("inverse", inverse, R), ("monotone", monotone, R), ("ends", ends, "q in {0, 1} and outside [0, 1]"), ("survival", survival, R))]
