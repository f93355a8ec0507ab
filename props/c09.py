"""C09 confidence limits for the mean and the median direction."""
import math
from scipy.stats import chi2, norm
from symx.harness import Obl


def D(M): return M.m.descriptive


def zar(M, n, r, c):
    """cosine of the half-width (Zar 26.24, 26.25)"""
    x = float(chi2.isf(1 - c, 1)); R = n * r
    if M.true(r <= 0.9): return M.np.sqrt(2 * n * (2 * R * R - n * x) / (4 * n - x)) / R
    return M.np.sqrt(n * n - (n * n - R * R) * math.exp(x / n)) / R


def limits(M, mean, lb, ub, cosd):
    M.eq("lower limit", M.np.cos(mean - lb), cosd); M.eq("upper limit", M.np.cos(ub - mean), cosd)
    M.ge("lower limit is before", M.np.sin(mean - lb), 0); M.ge("upper limit is after", M.np.sin(ub - mean), 0)
    for v in (lb, ub): M.ge("range", v, 0); M.le("range", v, 2 * M.pi)


def rmin(n, c): return math.sqrt(float(chi2.isf(1 - c, 1)) / (2 * n))


def approx(n):
    def f(M):
        c = M.choice("ci", [0.8, 0.95, 0.99]); m = M.angle("mean"); r = M.real("r", rmin(n, c) + 1e-4, 0.9999)
        lb, ub = D(M).circ_mean_ci(mean=m, r=r, n=n, ci=c)
        limits(M, m, lb, ub, zar(M, n, r, c))
    return f


def data(M, total):
    k = 3
    a = M.angles("a", k); w = [M.real("w%d" % i, 0.5, total) for i in range(k - 1)]
    w.append(total - sum(w)); M.assume(w[-1] >= 0.5)
    return M.arr(a), M.arr(w)


def approx_data(M):
    """limits computed from (weighted) angles are those of their mean direction, resultant length and total"""
    n = M.choice("n", [8, 20]); a, w = data(M, n); c = 0.95
    m, r = D(M).circ_mean_and_r(a, w)
    M.assume(r > 0.01); M.assume(r < 0.999)
    M.assume(r > rmin(n, c) + 1e-4)
    big = M.choice("branch", [False, True])
    if big: M.assume(r > 0.9001)
    else: M.assume(r < 0.8999)
    got = D(M).circ_mean_ci(alpha=a, w=w, ci=c); want = D(M).circ_mean_ci(mean=m, r=r, n=n, ci=c)
    M.angle_eq("lower", got[0], want[0]); M.angle_eq("upper", got[1], want[1])


def approx_rotation(M):
    n = M.choice("n", [8, 20, 100]); c = M.choice("ci", [0.8, 0.95, 0.99]); m = M.angle("mean"); r = M.real("r", rmin(n, c) + 1e-4, 0.9999); t = M.real("t", -7, 7)
    A = D(M).circ_mean_ci(mean=m, r=r, n=n, ci=c); B = D(M).circ_mean_ci(mean=m + t, r=r, n=n, ci=c)
    for i in (0, 1):
        M.eq("rotated cos", M.np.cos(B[i]), M.np.cos(A[i] + t)); M.eq("rotated sin", M.np.sin(B[i]), M.np.sin(A[i] + t))


def widen(M):
    n = M.choice("n", [8, 12, 30, 200]); m = M.angle("mean"); cs = [0.8, 0.9, 0.95, 0.99]
    i = M.int("i", 0, 2)
    r = M.real("r", rmin(n, cs[i + 1]) + 1e-4, 0.9999)
    A = D(M).circ_mean_ci(mean=m, r=r, n=n, ci=cs[i]); B = D(M).circ_mean_ci(mean=m, r=r, n=n, ci=cs[i + 1])
    M.le("wider above", M.np.cos(B[1] - m), M.np.cos(A[1] - m)); M.le("wider below", M.np.cos(m - B[0]), M.np.cos(m - A[0]))


def approx_errors(M):
    m = M.angle("mean"); r = M.real("r", 0, 1); n = M.int("n", 1, 12); c = 0.95
    bad = n < 8 or M.true(r < rmin(n, c) - 1e-9)
    if bad: M.raises("undefined", ValueError, lambda: D(M).circ_mean_ci(mean=m, r=r, n=n, ci=c))
    M.raises("no size", ValueError, lambda: D(M).circ_mean_ci(mean=m, r=r, ci=c))
    M.raises("no data", ValueError, lambda: D(M).circ_mean_ci(mean=m, ci=c, n=n))
    for k in ("dispersion", "bootstrap", "other"):
        M.raises("method", ValueError, lambda: D(M).circ_mean_ci(mean=m, r=r, n=n, ci=c, method=k))


def dispersion(weighted, given):
    def f(M):
        k = 2
        a = M.angles("a", k); c = M.choice("ci", [0.8, 0.95, 0.99] if weighted else [0.95])
        if weighted:
            n = M.choice("n", [25, 100])
            w = M.real("w", 0.5, n - 0.5); w = M.arr([w, n - w]); al = M.arr(a)
        else:
            n = 26; al = M.arr([x for x in a for _ in range(13)]); w = None
        r = D(M).circ_r(al, w); M.assume(r > 0.05)
        m = M.angle("mean") if given else D(M).circ_mean(al, w)
        z = float(norm.ppf(0.5 + c / 2)); d = D(M).circ_dispersion(al, w)
        r2 = M.np.abs(D(M).circ_moment(al, w, p=2)); M.assume(r <= 0.999); M.assume(r2 <= 0.999); M.assume(r2 >= 0.01)
        s = M.np.sqrt(d / n) * z
        try: lb, ub = D(M).circ_mean_ci(alpha=al, w=w, ci=c, method="dispersion", mean=m if given else None)
        except ValueError:
            M.ge("undefined only for a dispersed sample", s, 1); return
        M.lt("defined", s, 1)
        M.eq("lower limit", M.np.sin(m - lb), s); M.eq("upper limit", M.np.sin(ub - m), s)
        M.ge("lower within a quarter turn", M.np.cos(m - lb), 0); M.ge("upper within a quarter turn", M.np.cos(ub - m), 0)
    return f


def dispersion_errors(M):
    a = M.angles("a", 2); w = M.arr([M.real("w%d" % i, 0.5, 100) for i in range(2)])
    d = D(M).circ_r(M.arr(a), w); M.assume(d > 0.05)
    if M.true(sum(w) < 25): M.raises("too few", ValueError, lambda: D(M).circ_mean_ci(alpha=M.arr(a), w=w, method="dispersion"))


RANKS = {3: 1, 4: 1, 5: 1, 6: 1, 7: 1, 8: 1, 9: 1, 10: 2, 11: 2, 12: 3, 13: 3, 14: 4, 15: 3}
LEVEL = {3: .75, 4: .875, 5: .937, 6: .97, 7: .984, 8: .992, 9: .996, 10: .978, 11: .99, 12: .962, 13: .978, 14: .937, 15: .965}


def median_small(n, perm=None):
    """angles placed around a median on both sides; the limits are the k-th from either end (Fisher 1993, A6)"""
    def f(M):
        m = M.angle("median"); h = n // 2
        # h angles before the median, h after it (and, for odd n, one at it)
        d = M.ordered("b", h, -3.14, -1e-4, 1e-4) + [0] * (n % 2) + M.ordered("d", h, 1e-4, 3.14, 1e-4)
        order = list(range(n)) if perm is None else perm
        tau = 2 * M.pi
        lb, ub, ci = D(M).circ_median_ci(median=m, alpha=M.np.mod(M.arr([m + d[i] for i in order]), tau))
        k = RANKS[n]
        M.angle_eq("lower limit", lb, m + d[k - 1]); M.angle_eq("upper limit", ub, m + d[n - k])
        M.eq("level", ci, LEVEL[n])
    return f


def median_large(n, c, s, cutonly=False):
    """the cut of the sorted sample (the zero direction) falls anywhere: s angles lie before it.
    The limits are the order statistics m-th below and above the median, m = 1 + [sqrt(n) z/2] (Fisher 4.19)"""
    def f(M):
        x = M.ordered("x", n, 0, 6.283, 0.001)
        # circular order starting at index s; the median lies between (n even) or on (n odd) the middle ones
        o = [(s + i) % n for i in range(n)]
        tau = 2 * M.pi
        if n % 2:
            med = x[o[n // 2]]
        else:
            a, b = x[o[n // 2 - 1]], x[o[n // 2]]
            if o[n // 2 - 1] < o[n // 2]: med = (a + b) / 2
            else:
                med = (a + b + tau) / 2
                M.assume(med <= 6.283); M.assume(med - a >= 0.001)
        lb, ub, ci = D(M).circ_median_ci(median=med, alpha=M.arr(x), ci=c)
        k = 1 + int(math.floor(0.5 * math.sqrt(n) * float(norm.ppf(0.5 + c / 2))))
        if n % 2: lo, hi = o[n // 2 - k], o[n // 2 + k]
        else: lo, hi = o[n // 2 - k], o[n // 2 + k - 1]
        M.angle_eq("lower limit", lb, x[lo]); M.angle_eq("upper limit", ub, x[hi]); M.eq("level", ci, c)
    return f


def median_data(M):
    """without a given median the sample's own median is used"""
    x = [M.angle("a%d" % i) for i in range(3)]
    a = M.arr(x); m = D(M).circ_median(a)
    M.assume(x[1] - x[0] >= 0.01); M.assume(x[2] - x[1] >= 0.01); M.assume(x[2] - x[0] <= 3)
    lb, ub, ci = D(M).circ_median_ci(alpha=a)
    M.angle_eq("lower", lb, x[0]); M.angle_eq("upper", ub, x[2])


def median_errors(M):
    M.raises("nothing given", ValueError, lambda: D(M).circ_median_ci())
    M.raises("no data", ValueError, lambda: D(M).circ_median_ci(median=1.0))


def obligations(tier):
    q = tier == "quick"
    F = "descriptive.circ_mean_ci,descriptive._circ_mean_ci_approximate"; G = "descriptive.circ_mean_ci,descriptive._circ_mean_ci_dispersion"; H = "descriptive.circ_median_ci"
    o = [Obl("approximate/n%d" % n, approx(n), F, "n=%d, every mean and resultant length, levels 0.8, 0.95, 0.99" % n) for n in ([8, 10, 50] if q else [8, 9, 10, 15, 24, 25, 50, 100, 1000])]
    o += [Obl("approximate/data", approx_data, F, "3 weighted angles, level 0.95"), Obl("approximate/rotation", approx_rotation, F, "n in 8, 20, 100, rotation in [-7,7]"),
          Obl("approximate/widening", widen, F, "n in 8, 12, 30, 200; consecutive levels 0.8, 0.9, 0.95, 0.99"),
          Obl("approximate/errors", approx_errors, F, "n in 1..12")]
    o += [Obl("dispersion/%s" % nm, dispersion(w, g), G, "2 weighted or 2x13 angles") for nm, w, g in (("weights", True, False), ("repeated", False, False), ("given-mean", True, True))]
    o += [Obl("dispersion/errors", dispersion_errors, G, "2 weighted angles")]
    o += [Obl("median/n%d" % n, median_small(n), H, "%d angles within half a turn of the median" % n) for n in range(3, 16)]
    o += [Obl("median/order%d" % i, median_small(len(p), p), H, "5 angles in another order") for i, p in enumerate(([4, 3, 2, 1, 0], [2, 4, 0, 3, 1]))]
    cases = [(16, 0.95, s) for s in ((0, 3, 8, 12, 13) if q else range(16))] + [(17, 0.95, s) for s in ((0, 4, 8, 12, 13) if q else range(17))] + [(25, 0.99, s) for s in ((0, 20) if q else range(0, 25, 3))]
    o += [Obl("median/n%d-%d" % (n, s), median_large(n, c, s), H, "%d sorted angles, %d before the arc of the sample, level %s" % (n, s, c)) for n, c, s in cases]
    o += [Obl("median/own-median", median_data, H, "3 angles"), Obl("median/errors", median_errors, H, "")]
    return o
