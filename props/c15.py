"""C15 Kuiper, Watson and Rao spacing tests of uniformity."""
import math
from symx.harness import Bypassed, StandIn, Obl, abstract_fn, patched


def H(M): return M.m.hypothesis


def kuiper_V(M, x):
    """x increasing in [0, 2 pi)"""
    n = len(x); up = [(i + 1.0) / n - x[i] / (2 * M.pi) for i in range(n)]; dn = [x[i] / (2 * M.pi) - float(i) / n for i in range(n)]
    mx = lambda L: M.np.max(M.arr(L))
    c = math.sqrt(n) + 0.155 + 0.24 / math.sqrt(n)
    return mx(up) + mx(dn), c


def watson_U2(M, x):
    n = len(x); u = [v / (2 * M.pi) for v in x]; ub = sum(u) / n
    return sum((u[i] - (2 * i + 1) / (2 * n) - ub + 0.5) ** 2 for i in range(n)) + 1 / (12 * n)


def rao_U(M, x):
    n = len(x); gaps = [x[i + 1] - x[i] for i in range(n - 1)] + [2 * M.pi - (x[-1] - x[0])]
    return sum(abs(g - 2 * M.pi / n) for g in gaps) / 2


class Stub(StandIn):
    """a generator whose draws do not matter: the p-value is another obligation's"""
    def __init__(self, M): self.M = M
    def uniform(self, low=0.0, high=1.0, size=None): return self.M.np.zeros(size)


def sim(M): return patched(H(M), "_init_rng", lambda s: Stub(M))


def perms(n):
    base = list(range(n)); return [base, base[::-1], base[1:] + base[:1], base[n // 2:] + base[:n // 2][::-1]]


def kuiper(n):
    def f(M):
        x = M.ordered("x", n, 0, 6.28, 1e-6); V, c = kuiper_V(M, x)
        p = M.choice("order", [tuple(q) for q in perms(n)])
        with sim(M): t = H(M).kuiper_test(M.arr([x[i] for i in p]), n_simulation=2)
        M.eq("V", t.V, V * c); M.ge("at least 1/n", t.V, c / n); M.le("at most 1", t.V, c); M.ok("mode", t.mode == "simulation" and t.n_simulation == 2)
    return f


def kuiper_p(n):
    """Stephens' asymptotic series of the statistic, within [0, 1]"""
    def f(M):
        x = M.ordered("x", n, 0, 6.28, 1e-6); c = M.np.sqrt(n) + 0.155 + 0.24 / M.np.sqrt(n); tot = 0
        with abstract_fn(M, H(M), "exp") as E:
            t = H(M).kuiper_test(M.arr(x), n_simulation=1); V = t.V
            for j in range(1, 50):
                e = E(-2 * j * j * V * V)
                tot = tot + 2 * (4 * j * j * V * V - 1) * e - 8 * V / (3 * c) * j * j * (4 * j * j * V * V - 3) * e
        M.eq("p", t.pval, M.np.clip(tot, 0, 1)); M.ok("mode", t.mode == "asymptotic" and t.n_simulation == 1)
        M.ge("probability", t.pval, 0); M.le("probability", t.pval, 1)
    return f


def same_angle(M):
    """all observations equal: the statistic is at its maximum, the p-value small but a probability"""
    n = M.choice("n", [1, 2, 3, 5, 20, 60]); x = M.real("x", -7, 7); a = M.arr([x] * n); h = H(M)
    t = h.kuiper_test(a, n_simulation=1); M.eq("V", t.V, math.sqrt(n) + 0.155 + 0.24 / math.sqrt(n)); M.ge("probability", t.pval, 0); M.le("probability", t.pval, 0.02)
    t = h.watson_test(a, n_simulation=1);
    M.eq("U2", t.U2, sum(((2 * i + 1) / (2.0 * n) - 0.5) ** 2 for i in range(n)) + 1 / (12.0 * n)); M.ge("probability", t.pval, 0); M.le("probability", t.pval, 0.4)


def shifted(M, x, lo=-7, hi=7, gap=1e-5):
    c = M.real("t", lo, hi)
    for v in x:
        d = M.np.mod(v + c, 2 * M.pi); M.assume(d > gap); M.assume(d < 2 * M.pi - gap)
    return c


def kuiper_rotation(n):
    def f(M):
        x = M.ordered("x", n, 0, 6.28, 1e-4); c = shifted(M, x)
        V, k = kuiper_V(M, x)
        with sim(M): t = H(M).kuiper_test(M.arr(x) + c, n_simulation=2)
        M.eq("rotation", t.V, V * k)
    return f


def watson(n):
    def f(M):
        x = M.ordered("x", n, 0, 6.28, 1e-6); U = watson_U2(M, x)
        p = M.choice("order", [tuple(q) for q in perms(n)])
        with sim(M): t = H(M).watson_test(M.arr([x[i] for i in p]), n_simulation=2)
        M.eq("U2", t.U2, U); M.ge("at least 1/(12n)", t.U2, 1 / (12 * n) - 1e-9); M.ok("mode", t.mode == "simulation" and t.n_simulation == 2)
    return f


def watson_p(n):
    def f(M):
        x = M.ordered("x", n, 0, 6.28, 1e-6); tot = 0
        with abstract_fn(M, H(M), "exp") as E:
            t = H(M).watson_test(M.arr(x), n_simulation=1); U = t.U2
            for j in range(1, 51): tot = tot + 2 * (-1) ** (j - 1) * E(-2 * j * j * M.pi ** 2 * U)
        M.ok("mode", t.mode == "asymptotic"); M.eq("p", t.pval, M.np.clip(tot, 0, 1))
        M.ge("probability", t.pval, 0); M.le("probability", t.pval, 1)
    return f


def watson_rotation(n):
    def f(M):
        x = M.ordered("x", n, 0, 6.28, 1e-4); c = shifted(M, x)
        with sim(M): t = H(M).watson_test(M.arr(x) + c, n_simulation=2)
        M.eq("rotation", t.U2, watson_U2(M, x))
    return f


def rao(n):
    def f(M):
        x = M.ordered("x", n, 0, 6.28, 1e-6); U = rao_U(M, x)
        p = M.choice("order", [tuple(q) for q in perms(n)])
        with sim(M): t = H(M).rao_spacing_test(M.arr([x[i] for i in p]), n_simulation=2)
        M.eq("U", t.statistic * M.pi, U * 180); M.ge("nonnegative", t.statistic, 0); M.le("at most 360(1-1/n)", t.statistic, 360 * (1 - 1.0 / n))
        M.ok("mode", t.mode == "ungrouped")
    return f


def rao_rotation(n):
    def f(M):
        x = M.ordered("x", n, 0, 6.28, 1e-4); c = shifted(M, x)
        with sim(M): t = H(M).rao_spacing_test(M.arr(x) + c, n_simulation=2)
        M.eq("rotation", t.statistic * M.pi, rao_U(M, x) * 180)
    return f


def rao_grouped(M):
    """frequencies repeat the angles (up to rounding of the frequencies)"""
    k = 3; x = M.ordered("x", k, 0, 6.28, 1e-4); w = [M.int("w%d" % i, 0, 2) for i in range(k)]
    full = [x[i] for i in range(k) for _ in range(int(w[i]))]
    if not full: return M.raises("no data", ValueError, lambda: H(M).rao_spacing_test(M.arr(x), w=M.arr(w), n_simulation=1))
    e = M.choice("rounding", [0.0, -3e-9, 3e-9]); seen = []
    class VM(StandIn):
        def rvs(self, size=None, random_state=None): return M.np.zeros(size)
    def vm(kappa=None, **k): seen.append((kappa, k)); return VM()
    with sim(M):
        with patched(H(M), "vonmises", vm): t = H(M).rao_spacing_test(M.arr(x), w=M.np.array([float(int(v)) + (e if int(v) else 0.0) for v in w]), kappa=77.0, n_simulation=2)
    M.eq("U", t.statistic * M.pi, rao_U(M, full) * 180); M.ok("mode", t.mode == "grouped"); M.ok("jitter concentration", seen[0][0] == 77.0)


class Tape(StandIn):
    def __init__(self, M, cols): self.M = M; self.cols = cols; self.args = []
    def uniform(self, low=0.0, high=1.0, size=None):
        self.args.append((low, high, size)); B = len(self.cols); n = len(self.cols[0])
        if size in (n, (n,)) and len(self.args) <= B: return self.M.arr(self.cols[len(self.args) - 1])
        if size not in ((n, B), (B, n)): raise Bypassed("draws of shape %r" % (size,))
        if size == (n, B): return self.M.np.array([[self.cols[b][i] for b in range(B)] for i in range(n)]) if not self.M.sym else self.M.np.stack([self.M.arr(c) for c in self.cols], axis=1)
        return self.M.np.array([[v for v in c] for c in self.cols]) if not self.M.sym else self.M.np.stack([self.M.arr(c) for c in self.cols])


def simulated(name, stat, n, B, field):
    """p = (1 + number of simulated statistics at least the observed one) / (B + 1)"""
    def f(M):
        x = M.ordered("x", n, 0, 6.28, 1e-4); cols = [M.ordered("u%d_" % b, n, 0, 6.28, 1e-4) for b in range(B)]
        rng = Tape(M, [c[::-1] for c in cols])
        with patched(H(M), "_init_rng", lambda s: rng): t = getattr(H(M), name)(M.arr(x), n_simulation=B)
        obs = stat(M, x); k = 1
        for c in cols:
            v = stat(M, c); M.assume(abs(v - obs) > 1e-6); k += 1 if M.true(v > obs) else 0
        M.eq("p", t.pval, k / (B + 1.0)); M.ok("draws cover the circle", all(a[0] == 0 and abs(float(a[1]) - 2 * math.pi) < 1e-12 for a in rng.args))
    return f


def real_draws(M):
    """with the code's own generator: the p-value is a multiple of 1/(B+1) in [1/(B+1), 1]"""
    x = M.ordered("x", 2, 0, 6.28, 1e-4); h = H(M); T = M.choice("test", ["kuiper_test", "watson_test", "rao_spacing_test"])
    t = getattr(h, T)(M.arr(x), n_simulation=2, seed=7); k = t.pval * 3
    M.ok("count", any(M.true(abs(k - j) < 1e-9) for j in (1, 2, 3)))


def errors(M):
    h = H(M); a = M.arr(M.angles("a", 2))
    for T in (h.kuiper_test, h.watson_test, h.rao_spacing_test):
        M.raises("empty", ValueError, lambda: T(M.np.array([]))); M.raises("simulations", ValueError, lambda: T(a, n_simulation=0))
    T = h.rao_spacing_test; v = M.real("v", -5, -1e-6); u = M.real("u", 0.01, 0.99)
    M.raises("negative", ValueError, lambda: T(a, w=M.arr([1, v]), n_simulation=1)); M.raises("fraction", ValueError, lambda: T(a, w=M.arr([1, u]), n_simulation=1)); M.raises("shape", ValueError, lambda: T(a, w=M.np.ones(3), n_simulation=1))


def obligations(tier):
    q = tier == "quick"
    K, W, R = "hypothesis.kuiper_test", "hypothesis.watson_test", "hypothesis.rao_spacing_test"
    N = (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6)
    o = [Obl("kuiper/n%d" % n, kuiper(n), K, "%d angles, 4 orders" % n) for n in N]
    o += [Obl("kuiper/p%d" % n, kuiper_p(n), K, "%d angles" % n) for n in (3, 5)]
    o += [Obl("kuiper/rotation%d" % n, kuiper_rotation(n), K, "%d angles, rotation in [-7,7]" % n) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    o += [Obl("watson/n%d" % n, watson(n), W, "%d angles, 4 orders" % n) for n in N]
    o += [Obl("watson/p%d" % n, watson_p(n), W, "%d angles" % n) for n in (1, 2, 4)]
    o += [Obl("watson/rotation%d" % n, watson_rotation(n), W, "%d angles, rotation in [-7,7]" % n) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    o += [Obl("rao/n%d" % n, rao(n), R, "%d angles, 4 orders" % n) for n in N]
    o += [Obl("rao/rotation%d" % n, rao_rotation(n), R, "%d angles, rotation in [-7,7]" % n) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    o += [Obl("rao/grouped", rao_grouped, R, "3 angles with frequencies 0..2")]
    for B in ((1,) if q else (1, 2)):
        if B > 1:
            o += [Obl("kuiper/simulated%d" % B, simulated("kuiper_test", lambda M, x: kuiper_V(M, x)[0], 2, B, "V"), K, "2 angles, %d simulated samples" % B)]
            o += [Obl("watson/simulated%d" % B, simulated("watson_test", watson_U2, 2, B, "U2"), W, "2 angles, %d simulated samples" % B)]
        o += [Obl("rao/simulated%d" % B, simulated("rao_spacing_test", rao_U, 2, B, "statistic"), R, "2 angles, %d simulated samples" % B)]
    if q:
        o += [Obl("kuiper/simulated1", simulated("kuiper_test", lambda M, x: kuiper_V(M, x)[0] * (2 ** .5 + .155 + .24 / 2 ** .5), 2, 2, "V"), K, "2 angles, 2 simulated samples"), Obl("watson/simulated2", simulated("watson_test", watson_U2, 2, 2, "U2"), W, "2 angles, 2 simulated samples")]
    o += [Obl("same-angle", same_angle, ", ".join((K, W)), "up to 60 equal angles"), Obl("draws", real_draws, ", ".join((K, W, R)), "2 angles, B=2"), Obl("errors", errors, ", ".join((K, W, R)), "")]
    return o
