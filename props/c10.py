"""C10 concentration from the resultant length."""
from symx.harness import Obl


def K(M, r, n=None): return M.m.descriptive.circ_kappa(r, n)


def branch(M, r):
    if M.true(r < 0.53): return 2 * r + r ** 3 + 5 * r ** 5 / 6
    if M.true(r < 0.85): return -0.4 + 1.39 * r + 0.43 / (1 - r)
    return 1 / (r ** 3 - 4 * r ** 2 + 3 * r)


def formula(M):
    r = M.real("r", 0, 0.99999)
    n = M.choice("n", [None, 16, 17, 100])
    k = K(M, r) if n is None else K(M, r, n)
    M.eq("documented approximation", k, branch(M, r)); M.ge("nonnegative", k, 0)


def inverse(M):
    r = M.real("r", 0, 0.99999)
    M.eq("A1inv", M.m.utils.A1inv(r), branch(M, r)); M.eq("regression A1inv", M.m.regression.CLRegression._A1inv(None, r), branch(M, r))


def corrected(M):
    r = M.real("r", 0, 0.69999); n = M.int("n", 2, 15)
    k = branch(M, r); c = K(M, r, n)
    if M.true(k < 2):
        if M.true(n * k * k <= 2): M.eq("never below zero", c, 0)
        else: M.eq("corrected (small)", c, k - 2 / (n * k))
    else: M.eq("corrected (large)", c, (n - 1) ** 3 * k / (n ** 3 + n))
    M.le("not above the uncorrected value", c, k, tol=0)


def corrected_high(M):
    r = M.real("r", 0.7, 0.99999); n = M.int("n", 2, 15)
    c = K(M, r, n); M.le("not above the uncorrected value", c, branch(M, r), tol=0); M.ge("nonnegative", c, 0)


def increasing(lo, hi):
    def f(M):
        r = M.real("r", lo, hi); s = M.real("s", lo, hi)
        M.assume(s - r >= 1e-4)
        M.lt("increasing", K(M, r), K(M, s))
    return f


def increasing_corrected(n):
  def f(M):
    r = M.real("r", 0, 0.5299); s = M.real("s", 0, 0.5299)
    M.assume(s >= r)
    M.le("corrected estimate does not decrease", K(M, r, n), K(M, s, n))
  return f


def across(M):
    r = M.real("r", 0, 0.99999); s = M.real("s", 0, 0.99999)
    M.assume(s - r >= 0.001)
    M.lt("increasing across branches", K(M, r), K(M, s))


def inverts(lo, hi, eps, terms):
    """|A1(kappa(r)) - r| <= eps with A1 = I1/I0 and both series truncated at terms (remainder < 1e-9 there)"""
    def f(M):
        from fractions import Fraction as F
        import math
        r = M.real("r", lo, hi); k = K(M, r)
        q = k * k / 4
        def horner(cs):
            v = cs[-1]
            for c in cs[-2::-1]: v = v * q + c
            return v
        i0 = horner([1 / math.factorial(j) ** 2 for j in range(terms)])
        i1 = horner([1 / (math.factorial(j) * math.factorial(j + 1)) for j in range(terms)]) * k / 2
        M.le("not too small", i1 - r * i0, eps * i0); M.ge("not too large", i1 - r * i0, -eps * i0)
    return f


def scale(M):
    """the smoothing bandwidth is sqrt(7) / (sqrt(kappa) n^(1/5))"""
    r = M.real("r", 0.05, 0.99); n = M.int("n", 16, 40)
    h = M.m.descriptive.compute_smooth_params(r, n)
    M.ge("positive", h, 0); M.eq("bandwidth", h * h * branch(M, r), 7 / float(n) ** 0.4, tol=1e-6)


def obligations(tier):
    F = "descriptive.circ_kappa"
    return [Obl("formula", formula, F, "r in [0,0.99999]"), Obl("inverse", inverse, "utils.A1inv,regression.CLRegression._A1inv", "r in [0,0.99999]"),
            Obl("corrected", corrected, F, "r in [0,0.69999], n in 2..15"), Obl("corrected-high", corrected_high, F, "r in [0.7,0.99999], n in 2..15"),
            Obl("increasing/low", increasing(0, 0.5299), F, "two values at least 1e-4 apart"), Obl("increasing/middle", increasing(0.53, 0.8499), F, "same"),
            Obl("increasing/high", increasing(0.85, 0.99999), F, "same"),             Obl("increasing/across", across, F, "two values at least 0.001 apart"),
            Obl("inverts/low", inverts(0, 0.5299, 0.005, 8), F, "r < 0.53"),
            Obl("bandwidth", scale, F + ",descriptive.compute_smooth_params", "n in 16..40")] + [
            Obl("increasing/corrected%d" % n, increasing_corrected(n), F, "n=%d, r < 0.53" % n) for n in (() if tier == "quick" else (12, 15))]
