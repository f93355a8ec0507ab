"""C12 Rayleigh, V, one-sample, Hodges-Ajne and Batschelet tests."""
import math
from symx.harness import Bypassed, StandIn, Obl, patched


def H(M): return M.m.hypothesis
def D(M): return M.m.descriptive


def rayleigh_summary(M):
    n = M.int("n", 1, 60); r = M.real("r", 0, 1)
    t = H(M).rayleigh_test(r=r, n=n)
    M.eq("z", t.z, n * r * r); M.eq("r", t.r, r)
    M.eq("p-value (Zar 27.4)", M.np.log(t.pval) + 1 + 2 * n, M.np.sqrt(1 + 4 * n + 4 * (n * n - n * n * r * r)))
    M.ge("probability", t.pval, 0); M.le("probability", t.pval, 1); M.ok("no resampling", t.bootstrap_pval is None)


def rayleigh_decreasing(M):
    n = M.choice("n", [1, 2, 5, 20, 60]); a = M.real("a", 0, 1); b = M.real("b", 0, 1); M.assume(a <= b)
    s, t = H(M).rayleigh_test(r=a, n=n), H(M).rayleigh_test(r=b, n=n)
    M.le("larger resultant, smaller p", t.pval, s.pval); M.le("larger resultant, larger z", s.z, t.z)


def weights(M, k):
    kind = M.choice("weights", ["none", "counts"])
    return None if kind == "none" else M.arr([M.int("w%d" % i, 1, 3) for i in range(k)])


def rayleigh_data(k):
    def f(M):
        a = M.arr([M.real("a%d" % i, -7, 7) for i in range(k)]); w = weights(M, k); n = k if w is None else sum(int(v) for v in w) if not M.sym else sum(w)
        r = D(M).circ_r(a, w); M.assume(r <= 1)
        t = H(M).rayleigh_test(alpha=a, w=w)
        C = sum((1 if w is None else w[i]) * M.np.cos(a[i]) for i in range(k)); S = sum((1 if w is None else w[i]) * M.np.sin(a[i]) for i in range(k))
        M.eq("z is the squared resultant over n", t.z * n, C * C + S * S); M.eq("r", t.r, r)
        if w is not None:
            full = M.arr([a[i] for i in range(k) for _ in range(int(w[i]))])
            r2 = D(M).circ_r(full); M.assume(r2 <= 1)
            M.eq("counts replicate", H(M).rayleigh_test(alpha=full).z, t.z)
        c = M.real("t", -7, 7)
        ra = D(M).circ_r(a + c, w); M.assume(ra <= 1)
        u = H(M).rayleigh_test(alpha=a + c, w=w)
        M.eq("rotation", u.z, t.z); M.eq("rotation p", u.pval, t.pval)
    return f


def rayleigh_bootstrap(M):
    n = 3; r = M.real("r", 0, 1); B = M.choice("B", [2, 4])
    t = H(M).rayleigh_test(r=r, n=n, B=B, seed=3)
    k = t.bootstrap_pval * (B + 1)
    M.ge("at least one", k, 1); M.le("at most all", k, B + 1)
    M.eq("nothing is below zero", H(M).rayleigh_test(r=0.0, n=n, B=B, seed=3).bootstrap_pval, 1)


def rayleigh_errors(M):
    a = M.arr(M.angles("a", 2)); T = H(M).rayleigh_test; r = M.real("r", -3, 3)
    if not (M.true(r >= 0) and M.true(r <= 1)): M.raises("r outside [0,1]", ValueError, lambda: T(r=r, n=5))
    M.raises("no data", ValueError, lambda: T()); M.raises("no n", ValueError, lambda: T(r=0.5)); M.raises("bad n", ValueError, lambda: T(r=0.5, n=0))
    M.raises("B", ValueError, lambda: T(alpha=a, B=0)); M.raises("shape", ValueError, lambda: T(alpha=a, w=M.np.ones(3)))
    M.raises("fractional counts", ValueError, lambda: T(alpha=a, w=M.np.array([1.0, 1.5]))); M.raises("zero total", ValueError, lambda: T(alpha=a, w=M.np.array([0.0, 0.0])))
    M.raises("empty", ValueError, lambda: T(alpha=M.np.array([])))


def v_summary(M):
    n = M.choice("n", [1, 2, 9, 40]); r = M.real("r", 0, 1); m = M.real("mean", -7, 7); a = M.real("angle", -7, 7)
    t = H(M).V_test(a, mean=m, r=r, n=n)
    M.eq("V", t.V, n * r * M.np.cos(m - a)); M.eq("u", t.u, t.V * math.sqrt(2.0 / n))
    M.ge("probability", t.pval, 0); M.le("probability", t.pval, 1)
    s = H(M).V_test(a, mean=a, r=r, n=n)
    M.le("smallest p for data at the hypothesis", s.pval, t.pval)
    z = H(M).V_test(a, mean=a + M.pi / 2, r=r, n=n); M.eq("one half at right angles", z.pval, 0.5)


def v_data(M):
    k = 2; a = M.arr(M.angles("a", k)); w = weights(M, k); n = k if w is None else sum(w); h = M.real("angle", -7, 7)
    m, r = D(M).circ_mean_and_r(a, w); M.assume(r > 0.01); M.assume(r <= 1)
    t = H(M).V_test(h, alpha=a, w=w)
    M.eq("component along the hypothesis", t.V, sum((1 if w is None else w[i]) * M.np.cos(a[i] - h) for i in range(k)))
    c = M.real("t", -7, 7); M.assume(D(M).circ_r(a + c, w) <= 1); M.assume(D(M).circ_r(a + c, w) > 0.01)
    u = H(M).V_test(h + c, alpha=a + c, w=w)
    M.eq("rotation", u.V, t.V); M.eq("rotation p", u.pval, t.pval)


def v_errors(M):
    a = M.arr(M.angles("a", 2)); T = H(M).V_test; r = M.real("r", -3, 3)
    if not (M.true(r >= 0) and M.true(r <= 1)): M.raises("r outside [0,1]", ValueError, lambda: T(0.0, mean=0.0, r=r, n=5))
    M.raises("no data", ValueError, lambda: T(0.0, mean=0.1)); M.raises("bad n", ValueError, lambda: T(0.0, mean=0.1, r=0.5, n=0))
    M.raises("shape", ValueError, lambda: T(0.0, alpha=a, w=M.np.ones(3))); M.raises("empty", ValueError, lambda: T(0.0, alpha=M.np.array([])))


def one_sample(M):
    lb = M.real("lb", -7, 7); ub = M.real("ub", -7, 7); a = M.real("angle", -7, 7); tau = 2 * M.pi
    t = H(M).one_sample_test(a, lb=lb, ub=ub)
    inside = M.true(M.np.mod(a - lb, tau) <= M.np.mod(ub - lb, tau))
    M.ok("rejects exactly outside the interval", bool(t.reject) == (not inside)); M.eq("angle", t.angle, a); M.eq("lb", t.ci[0], lb); M.eq("ub", t.ci[1], ub)


def one_sample_data(M):
    """the interval is the 95% confidence interval of the mean of the (weighted) data"""
    a = M.arr(M.angles("a", 2)); w = M.arr([M.real("w%d" % i, 4, 9) for i in range(2)]); h = M.angle("angle"); lo = M.angle("lo"); hi = M.angle("hi")
    seen = []
    def ci(*args, **k): seen.append((args, k)); return lo, hi
    with patched(H(M), "circ_mean_ci", ci): t = H(M).one_sample_test(h, alpha=a, w=w)
    M.ok("one interval", len(seen) == 1)
    k = seen[0][1]
    M.ok("95%", k.get("ci", 0.95) == 0.95 and k.get("method", "approximate") == "approximate")
    for i in range(2): M.eq("data", k["alpha"][i], a[i]); M.eq("weights", k["w"][i], w[i])
    M.eq("lower", t.ci[0], lo); M.eq("upper", t.ci[1], hi)


class Lines(StandIn):
    """a scale for which only k diameters are examined"""
    def __init__(self, k): self.k = k
    def __le__(self, o): return False
    def __mul__(self, o): return self.k
    __rmul__ = __mul__
    __lt__ = __le__
    def __gt__(self, o): return True
    __ge__ = __gt__
    def __int__(self): raise Bypassed("scale")
    __index__ = __float__ = __hash__ = __int__


def half(M, l, x): 
    d = M.np.mod(l - x, 2 * M.pi)
    return M.true(d > 0) and M.true(d < M.pi)


def off(M, x, step):
    """not exactly on an examined line (where rounding decides the side)"""
    for v in x:
        r = M.np.mod(v, step); M.assume(r >= 1e-6); M.assume(r <= step - 1e-6)


def hodges(n, m): return min(1.0, 1.0 if n == 2 * m else (n - 2 * m) * math.comb(n, m) / 2.0 ** (n - 1))


def omnibus(n, k, extra=0):
    def f(M):
        x = M.angles("x", n); off(M, x, M.pi / k)
        x = x + [(2.3 * j) % 6.28 for j in range(extra)]; N = n + extra
        cnt = [sum(half(M, j * M.pi / k, v) for v in x) for j in range(k)]
        m = min(min(c, N - c) for c in cnt)
        t = H(M).omnibus_test(M.arr(x), scale=Lines(k))
        M.ok("fewest points on one side of a diameter", int(t.m) == m)
        M.eq("p-value (Zar 27.7)", t.pval, hodges(N, m))
        if 2 * m < N: M.eq("A", t.A, math.pi * math.sqrt(N) / (2 * (N - 2 * m)))
    return f


def omnibus_rotation(M):
    k = 3; x = M.angles("x", 2); off(M, x, M.pi / k); x = M.arr(x); j = M.int("steps", 1, 5); c = j * M.pi / k
    a = H(M).omnibus_test(x, scale=Lines(k)); b = H(M).omnibus_test(x + c, scale=Lines(k))
    M.ok("rotation", int(a.m) == int(b.m)); M.eq("rotation p", a.pval, b.pval)


def omnibus_full(M):
    """all 360 diameters: one observation is always alone on its side, and so are two that are not opposite"""
    x = M.angle("x"); off(M, [x], M.pi / 360)
    t = H(M).omnibus_test(M.arr([x]))
    M.ok("none on one side", int(t.m) == 0); M.eq("p", t.pval, 1)


def omnibus_errors(M):
    M.raises("scale", ValueError, lambda: H(M).omnibus_test(M.arr([1.0]), scale=0)); M.raises("empty", ValueError, lambda: H(M).omnibus_test(M.np.array([])))
    M.raises("empty", ValueError, lambda: H(M).batschelet_test(0.0, M.np.array([])))


def binom2(c, n):
    p = [math.comb(n, i) / 2.0 ** n for i in range(n + 1)]
    return min(1.0, sum(v for v in p if v <= p[c] * (1 + 1e-7)))


def batschelet(n):
    def f(M):
        a = M.real("angle", -7, 7); x = M.angles("x", n); N = n; off(M, [a + M.pi / 2 - v for v in x], M.pi)
        out = N - sum(half(M, a + M.pi / 2, v) for v in x)
        t = H(M).batschelet_test(a, M.arr(x))
        M.ok("observations away from the hypothesis", int(t.C) == out); M.eq("p-value", t.pval, binom2(out, N))
    return f


def batschelet_rotation(M):
    a = M.real("angle", -7, 7); x = M.angles("x", 2); off(M, [a + M.pi / 2 - v for v in x], M.pi); x = M.arr(x); c = M.real("t", -7, 7)
    s, t = H(M).batschelet_test(a, x), H(M).batschelet_test(a + c, x + c)
    M.ok("rotation", int(s.C) == int(t.C)); M.eq("rotation p", s.pval, t.pval)


def obligations(tier):
    q = tier == "quick"
    R, V, S, O, B = ("hypothesis." + s for s in ("rayleigh_test", "V_test", "one_sample_test", "omnibus_test", "batschelet_test"))
    o = [Obl("rayleigh/summary", rayleigh_summary, R, "n in 1..60, r in [0,1]"), Obl("rayleigh/decreasing", rayleigh_decreasing, R, "n in 1, 2, 5, 20, 60"),
         Obl("rayleigh/bootstrap", rayleigh_bootstrap, R, "n=3, 2 or 4 resamples, every draw"), Obl("rayleigh/errors", rayleigh_errors, R, ""),
         Obl("v/summary", v_summary, V, "n in 1, 2, 9, 40"), Obl("v/data", v_data, V, "2 angles, weights 1..3"), Obl("v/errors", v_errors, V, ""),
         Obl("one-sample/decision", one_sample, S, "limits and angle in [-7,7]"), Obl("one-sample/data", one_sample_data, S, "2 weighted angles, interval by its contract"),
         Obl("omnibus/full", omnibus_full, O, "1 angle, 360 diameters"), Obl("omnibus/rotation", omnibus_rotation, O, "2 angles, 3 diameters"), Obl("omnibus/errors", omnibus_errors, O + "," + B, ""),
         Obl("batschelet/rotation", batschelet_rotation, B, "2 angles")]
    o += [Obl("rayleigh/data%d" % k, rayleigh_data(k), R, "%d angles, counts 1..3" % k) for k in ((1, 2) if q else (1, 2, 3))]
    o += [Obl("omnibus/n%d-%d-%d" % (n, k, e), omnibus(n, k, e), O, "%d free angles and %d fixed ones, %d diameters" % (n, e, k)) for n, k, e in ([(1, 4, 0), (1, 6, 5), (2, 4, 0), (2, 3, 8), (3, 2, 0)] + ([] if q else [(2, 8, 0), (3, 3, 0), (2, 4, 13)]))]
    o += [Obl("batschelet/n%d" % n, batschelet(n), B, "%d angles" % n) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    return o
