"""C18 inputs are accepted or refused consistently."""
from symx.harness import StandIn, Obl, patched
from props import c14


def H(M): return M.m.hypothesis
def D(M): return M.m.descriptive


def data(M, n, p="x"): return [M.real("%s%d" % (p, i), -7, 7) for i in range(n)]


def forms(M, x, w=None):
    """the same observations in every accepted form"""
    n = len(x)
    f = {"list": list(x), "tuple": tuple(x), "array": M.arr(x)}
    f["object"] = c14.data_object(M, x, [1] * n if w is None else w)
    o = object.__new__(M.m.base.Circular); o.alpha = M.arr(x); o.w = None; f["unweighted object"] = o
    return f


def coerce(M):
    x = data(M, 3); kind = M.choice("form", ["list", "tuple", "array", "object", "unweighted object"]); tau = 2 * M.pi
    s, = H(M)._coerce_circular_samples([forms(M, x)[kind]])
    M.ok("size", s.n == 3 and len(s.alpha) == 3 and len(s.expand()) == 3)
    for i in range(3):
        for v in (s.alpha[i], s.expand()[i]): M.eq("angle", M.np.mod(v, tau), M.np.mod(x[i], tau))
        M.ok("weight", float(s.w[i]) == 1)
    M.eq("resultant", s.R * s.R, sum(M.np.cos(v) for v in x) ** 2 + sum(M.np.sin(v) for v in x) ** 2); M.eq("mean resultant", s.r * 3, s.R)


def coerce_counts(M):
    x = data(M, 2); w = [M.int("w%d" % i, 0, 3) for i in range(2)]; k = sum(w); tau = 2 * M.pi
    M.assume(k > 0)
    s, = H(M)._coerce_circular_samples([c14.data_object(M, x, w)])
    M.ok("size", s.n == k); e = s.expand(); M.ok("repetition", len(e) == k)
    full = [x[i] for i in range(2) for _ in range(w[i])]
    for i in range(k): M.eq("angle", M.np.mod(e[i], tau), M.np.mod(full[i], tau))
    t, = H(M)._coerce_circular_samples([M.arr(full)]); M.eq("resultant", t.R, s.R); M.eq("mean resultant", t.r, s.r)


def coerce_refuse(M):
    x = data(M, 2); h = H(M)._coerce_circular_samples; ob = lambda a, w: [c14.data_object(M, a, w)]
    neg = M.real("neg", -5, -1e-3); frac = M.real("frac", 0.01, 0.99); k = M.choice("k", [0, 1, 3])
    M.raises("negative weight", ValueError, lambda: h(ob(x, [1, neg]))); M.raises("negative count", ValueError, lambda: h(ob(x, [3, -1])))
    M.raises("fractional weight", ValueError, lambda: h(ob(x, [1, k + frac]))); M.raises("wrong length", ValueError, lambda: h(ob(x, [1, 1, 1]))); M.raises("no weight", ValueError, lambda: h(ob(x, [0, 0])))
    for bad in (float("nan"), float("inf"), -float("inf")): M.raises("not finite", ValueError, lambda: h([M.np.array([0.5, bad])]))
    M.raises("weight not finite", ValueError, lambda: h(ob([0.5, 1.0], [1, float("nan")])))
    M.raises("empty", ValueError, lambda: h([M.np.array([])])); M.raises("no samples", ValueError, lambda: h([])); M.raises("matrix", ValueError, lambda: h([M.np.ones((2, 2))])); M.raises("not a sequence", ValueError, lambda: h(3.0))
    M.raises("a later sample", ValueError, lambda: h([M.arr(x), M.np.array([])])); M.raises("a later sample", ValueError, lambda: h([M.arr(x)] + ob(x, [1, -1])))


TESTS = {"watson_williams_test": ("F", "pval"), "watson_u2_test": ("U2", "pval"), "wheeler_watson_test": ("W", "pval"), "wallraff_test": ("U", "pval"), "angular_randomisation_test": ("statistic", "pval")}


class Fixed(StandIn):
    def permutation(self, x): return x


def call(M, name, s):
    h = H(M)
    if name == "watson_williams_test":
        with patched(h, "circ_kappa", lambda r, *a, **k: 2.0): return h.watson_williams_test(s)
    if name == "angular_randomisation_test":
        with patched(h, "_init_rng", lambda z: Fixed()): return h.angular_randomisation_test(s, n_simulation=1)
    return getattr(h, name)(s)


def same(name):
    """every accepted form gives the same statistic and p-value; whole turns change nothing"""
    def f(M):
        x = M.ordered("x", 4, 0, 6.28, 1e-3); first = M.choice("first", [(0, 1), (0, 2), (1, 2), (1, 3)]); a = [x[i] for i in first]; b = [x[i] for i in range(4) if i not in first]
        if name == "watson_williams_test": M.assume(4 - c14.res(M, a) - c14.res(M, b) > 0.01)
        if name == "wallraff_test":
            d = [c14.geo(M, v, 0.0) for v in x]
            for i in range(4):
                for j in range(i): M.assume(abs(d[i] - d[j]) > 1e-5)
        form = M.choice("form", ["list", "tuple", "object", "unweighted object", "turned"])
        s = call(M, name, [M.arr(a), M.arr(b)])
        if form == "turned": t = call(M, name, [M.arr([a[0] - 2 * M.pi, a[1]]), M.arr([b[0], b[1] + 4 * M.pi])])
        else: t = call(M, name, [forms(M, a)[form], M.arr(b)])
        for k in TESTS[name]: M.eq(k, getattr(t, k), getattr(s, k))
        u = call(M, name, (M.arr(a), M.arr(b)))
        for k in TESTS[name]: M.eq("tuple of samples", getattr(u, k), getattr(s, k))
    return f


def counts(name):
    """a frequency means that many copies"""
    def f(M):
        x = M.ordered("x", 4, 0, 6.28, 1e-3); w = [M.choice("w%d" % i, [1, 2]) for i in range(2)]; a, b = [x[0], x[2]], [x[1], x[3]]
        if name == "watson_williams_test": M.assume(sum(w) + 2 - c14.res(M, a, w) - c14.res(M, b) > 0.01)
        if name == "wallraff_test":
            d = [c14.geo(M, v, 0.0) for v in x]
            for i in range(4):
                for j in range(i): M.assume(abs(d[i] - d[j]) > 1e-5)
        s = call(M, name, [c14.data_object(M, a, w), M.arr(b)]); t = call(M, name, [M.arr([a[i] for i in range(2) for _ in range(w[i])]), M.arr(b)])
        for k in TESTS[name]: M.eq(k, getattr(t, k), getattr(s, k))
    return f


def arity(M):
    x = data(M, 2); a = M.arr(x); h = H(M)
    for n in TESTS:
        M.raises("one sample", ValueError, lambda: call(M, n, [a])); M.raises("no sample", ValueError, lambda: call(M, n, [])); M.raises("empty sample", ValueError, lambda: call(M, n, [a, M.np.array([])]))
        M.raises("negative weight", ValueError, lambda: call(M, n, [a, c14.data_object(M, x, [1, -2])])); M.raises("fractional", ValueError, lambda: call(M, n, [a, c14.data_object(M, x, [1, 1.5])]))
    for n in ("watson_u2_test", "wallraff_test", "angular_randomisation_test"): M.raises("three samples", ValueError, lambda: call(M, n, [a, a, a]))
    M.raises("angles per sample", ValueError, lambda: h.wallraff_test([a, a], angle=M.np.array([0.1, 0.2, 0.3])))
    M.raises("repetitions", ValueError, lambda: h.angular_randomisation_test([a, a], n_simulation=0))
    M.raises("one observation per group", ValueError, lambda: h.watson_williams_test([a[:1], a[1:]]))


def rayleigh(M):
    x = data(M, 2); h = H(M); one = M.np.ones(2); r = D(M).circ_r(M.arr(x)); M.assume(r <= 1)
    s = h.rayleigh_test(M.arr(x)); t = h.rayleigh_test(list(x), w=[1, 1])
    M.eq("unit weights", t.z, s.z); M.eq("unit weights p", t.pval, s.pval)
    neg = M.real("neg", -5, -1e-3)
    M.raises("negative weights", ValueError, lambda: h.rayleigh_test(M.arr(x), w=M.arr([2 - neg, neg])))
    frac = M.real("frac", 0.01, 0.99); M.raises("fractional total", ValueError, lambda: h.rayleigh_test(M.arr(x), w=M.arr([1, 1 + frac])))


def one_sample(M):
    x = data(M, 2); h = H(M); lo = M.angle("lo"); hi = M.angle("hi"); neg = M.real("neg", -5, -1e-3)
    with patched(h, "circ_mean_ci", lambda **k: (lo, hi), need=False):
        M.raises("negative weights", ValueError, lambda: h.one_sample_test(0.5, alpha=M.arr(x), w=M.arr([9 - neg, neg]))); M.raises("length", ValueError, lambda: h.one_sample_test(0.5, alpha=M.arr(x), w=M.arr([9, 1, 1])))
        M.raises("empty", ValueError, lambda: h.one_sample_test(0.5, alpha=M.np.array([]))); M.raises("no data", ValueError, lambda: h.one_sample_test(0.5))


def v(M):
    x = data(M, 2); h = H(M); a = M.real("angle", -7, 7); r = D(M).circ_r(M.arr(x)); M.assume(r <= 1); M.assume(r > 0.01)
    s = h.V_test(a, M.arr(x)); t = h.V_test(a, list(x), w=[1, 1])
    M.eq("unit weights", t.V, s.V); M.eq("unit weights p", t.pval, s.pval)
    neg = M.real("neg", -5, -1e-3); M.raises("negative weights", ValueError, lambda: h.V_test(a, M.arr(x), w=M.arr([2 - neg, neg])))
    frac = M.real("frac", 0.01, 0.99); M.raises("fractional total", ValueError, lambda: h.V_test(a, M.arr(x), w=M.arr([1, 1 + frac])))


class NoDraws(StandIn):
    def __init__(self, M): self.M = M
    def uniform(self, low=0.0, high=1.0, size=None): return self.M.np.zeros(size)


def rao(M):
    x = M.ordered("x", 3, 0, 6.28, 1e-3); h = H(M); w = [M.choice("w%d" % i, [0, 1, 2]) for i in range(3)]; M.assume(sum(w) > 0)
    class VM(StandIn):
        def rvs(self, size=None, random_state=None): return M.np.zeros(size)
    with patched(h, "_init_rng", lambda s: NoDraws(M)), patched(h, "vonmises", lambda **k: VM()):
        s = h.rao_spacing_test(M.arr(x), w=M.arr(w), n_simulation=1); t = h.rao_spacing_test(M.arr([x[i] for i in range(3) for _ in range(w[i])]), n_simulation=1)
        M.eq("counts replicate", s.statistic, t.statistic)
        u = h.rao_spacing_test(list(x), n_simulation=1); z = h.rao_spacing_test(M.arr(x), w=[1, 1, 1], n_simulation=1); M.eq("unit weights", z.statistic, u.statistic)
        neg = M.real("neg", -5, -1e-3); frac = M.real("frac", 0.01, 0.99)
        M.raises("negative", ValueError, lambda: h.rao_spacing_test(M.arr(x), w=M.arr([1, 1, neg]), n_simulation=1)); M.raises("fractional", ValueError, lambda: h.rao_spacing_test(M.arr(x), w=M.arr([1, 1, 1 + frac]), n_simulation=1))
        M.raises("length", ValueError, lambda: h.rao_spacing_test(M.arr(x), w=M.arr([1, 1]), n_simulation=1)); M.raises("no weight", ValueError, lambda: h.rao_spacing_test(M.arr(x), w=M.arr([0, 0, 0]), n_simulation=1))


def lists(M):
    """one-sample tests take lists and arrays alike"""
    x = M.ordered("x", 3, 0.1, 3.0, 1e-3); h = H(M); a = M.arr(x)
    with patched(h, "_init_rng", lambda s: NoDraws(M)):
        for n, k in (("kuiper_test", "V"), ("watson_test", "U2")): M.eq(n, getattr(getattr(h, n)(list(x), n_simulation=2), k), getattr(getattr(h, n)(a, n_simulation=2), k))
    M.eq("circ_range_test", h.circ_range_test(list(x)).range_stat, h.circ_range_test(a).range_stat)
    M.eq("binomial_test", h.binomial_test(list(x), 0.0).pval, h.binomial_test(a, 0.0).pval)
    M.eq("batschelet_test", h.batschelet_test(0.0, list(x)).pval, h.batschelet_test(0.0, a).pval)
    M.eq("chisquare_test", h.chisquare_test([1 + v for v in x]).chi2, h.chisquare_test(a + 1).chi2)
    with patched(h, "circ_r", lambda z, *q, **k: (z[0] + z[1]) / 10): M.eq("concentration_test", h.concentration_test(list(x), list(x[1:])).f_stat, h.concentration_test(a, a[1:]).f_stat)
    for n in ("kuiper_test", "watson_test", "circ_range_test", "rao_spacing_test"): M.raises("empty", ValueError, lambda: getattr(h, n)([]))
    for f in (lambda: h.binomial_test([], 0.0), lambda: h.batschelet_test(0.0, []), lambda: h.chisquare_test([]), lambda: h.concentration_test([], a), lambda: h.symmetry_test([]), lambda: h.omnibus_test([])): M.raises("empty", ValueError, f)
    for n in ("kuiper_test", "watson_test", "rao_spacing_test"): M.raises("simulations", ValueError, lambda: getattr(h, n)(a, n_simulation=0))


def pairs(M):
    """paired samples of different lengths"""
    m, n = M.choice("lengths", [(5, 4), (4, 5), (3, 1), (4, 0), (0, 4)]); c, r = M.m.correlation, M.m.regression
    def some(name, k): return M.arr(M.reals(name, k, .1, 6)) if k else M.np.array([])
    a, b = some("a", m), some("b", n)
    for how in ("fl", "js", "nonparametric"): M.raises("circ_corrcc " + how, Exception, lambda: c.circ_corrcc(a, b, method=how)); M.raises("circ_corrcc, tested, " + how, Exception, lambda: c.circ_corrcc(a, b, method=how, test=True))
    M.raises("circ_corrcl", Exception, lambda: c.circ_corrcl(a, b)); M.raises("CCRegression", Exception, lambda: r.CCRegression(theta=a, x=b)); M.raises("CLRegression", Exception, lambda: r.CLRegression(theta=a, X=b))


def obligations(tier):
    C = "hypothesis._coerce_circular_samples"
    o = [Obl("coerce", coerce, C, "3 angles in [-7,7], 5 forms"), Obl("coerce/counts", coerce_counts, C, "2 angles, counts 0..3"), Obl("coerce/refuse", coerce_refuse, C, "every negative or fractional weight"), Obl("arity", arity, C + ", two- and multi-sample tests", ""),
         Obl("rayleigh", rayleigh, "rayleigh_test", "2 angles"), Obl("one-sample", one_sample, "one_sample_test", "2 angles"), Obl("v", v, "V_test", "2 angles"), Obl("rao", rao, "rao_spacing_test", "3 angles, counts 0..2"), Obl("pairs", pairs, "circ_corrcc, circ_corrcl, CCRegression, CLRegression", "lengths 5/4, 4/5, 3/1, 4/0, 0/4"), Obl("lists", lists, "one-sample tests", "3 angles")]
    o += [Obl("same/" + n, same(n), n, "2+2 angles, 4 arrangements, 5 forms") for n in TESTS] + [Obl("counts/" + n, counts(n), n, "2+2 angles, counts 1..2") for n in TESTS]
    return o
