"""C31 samplers: a generator hands out draws that are inputs of the symbolic run; each variate must be the
documented function of them, lie in [0, 2 pi) and have the requested shape."""
import math
import numpy as np
from symx.harness import Bypassed, Obl, float_roots
from .c28 import fam, mu, scalar


def u_(M, k, lo=1e-9, hi=1 - 1e-9): return M.real("u%d" % k, lo, hi)


def half(M, name): return (1e-9, .5 - 1e-9) if M.choice(name, [0, 1]) else (.5 + 1e-9, 1 - 1e-9)


def feed(M, most=8, ranges={}, exact=False):
    """a generator whose k-th draw of each law is the input <law>k; exact: a further draw is a violation"""
    count = {}
    def take(law, size, make):
        def one():
            k = count[law] = count.get(law, 0) + 1
            if k > most:
                if exact: raise ArithmeticError("a further draw after the one that is accepted")
                raise Bypassed("more draws")
            return make("%s%d" % (law, k))
        if size is None: return one()
        size = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size); v = [one() for _ in range(int(np.prod(size)))]
        return M.arr(v).reshape(size)
    u = lambda name: u_(M, int(name[1:]), *ranges.get(name, ()))
    class Feed(M.np.random.Generator):
        def __init__(self, *a):
            if M.sym: super().__init__(0)
            else: super().__init__(np.random.PCG64(0))
        def uniform(self, low=0., high=1., size=None): return low + (high - low) * take("u", size, u)
        def random(self, size=None, **k): return take("u", size, u)
        def normal(self, loc=0., scale=1., size=None): return loc + scale * take("n", size, lambda k: M.real(k, -9, 9))
        def standard_normal(self, size=None, **k): return take("n", size, lambda k: M.real(k, -9, 9))
        def beta(self, a, b, size=None): self.beta_args = (a, b); return take("b", size, lambda k: M.real(k, 1e-6, 1 - 1e-6))
    g = Feed(); g.count = count; return g


SHAPES = [None, 1, 2, (2, 1)]


def shaped(M, v, size):
    """the values of a result of the requested shape"""
    want = () if size is None else (size,) if np.ndim(size) == 0 else tuple(size)
    M.ok("shape", np.shape(v) == want); f = np.asarray(v, dtype=object).reshape(-1)
    for x in f: M.ge("at least zero", x, 0, tol=0); M.lt("less than a turn", x, 2 * M.pi + 1e-9)
    return list(f)


def law(name, par, check, sizes=SHAPES):
    def f(M):
        size = M.choice("size", sizes); p = par(M); g = feed(M); d = fam(M, name)
        with float_roots(M): v = shaped(M, d.rvs(*p, size=size, random_state=g), size)
        for k, x in enumerate(v): check(M, g, k + 1, x, p)
    return f


def d_uniform(M, g, k, x, p): M.eq("a turn times the draw", x, 2 * M.pi * u_(M, k))


def d_tri(M, g, k, x, p):
    r = p[0]; pi = M.pi; y = x - pi
    low, up = ((4 + pi ** 2 * r) * x - pi * r * x ** 2) / (8 * pi), .5 + ((4 - pi ** 2 * r) * y + pi * r * y ** 2) / (8 * pi)
    M.eq("distribution function at the variate", low if M.true(u_(M, k) <= .5) else up, u_(M, k)); M.ok("half", (x <= pi + 1e-6) if M.true(u_(M, k) <= .5) else (x >= pi - 1e-6))


def d_wn(M, g, k, x, p):
    n = M.real("n%d" % k, -9, 9); M.angle_eq("location plus a normal deviate", x, p[0] + M.np.sqrt(-2 * M.np.log(p[1])) * n)


def cartwright(M):
    size = M.choice("size", SHAPES); m, z = PAR["cartwright"](M); n = int(np.prod(size or 1)); side = {"u%d" % k: half(M, "side %d" % k) for k in range(1, n + 1)}; g = feed(M, ranges=side)
    with float_roots(M): v = shaped(M, fam(M, "cartwright").rvs(m, z, size=size, random_state=g), size)
    M.eq("beta law", list(g.beta_args), [.5, 1 / z + .5])
    for k, x in enumerate(v, 1):
        b = M.real("b%d" % k, 1e-6, 1 - 1e-6); M.eq("half angle", (1 - M.np.cos(x - m)) / 2, b); s = M.np.sin(x - m); M.ok("side", (s <= 1e-6) if side["u%d" % k][0] < .5 else (s >= -1e-6))


def vm_round(M, k, kap):
    """one round of Best and Fisher's rejection method: (cosine of the deviation, c, the draw it is compared with)"""
    kap = 0 * M.pi + kap; a = 1 + M.np.sqrt(1 + 4 * kap ** 2); b = (a - M.np.sqrt(2 * a)) / (2 * kap)      # rational at these kappa
    r = (1 + b * b) / (2 * b)
    z = M.np.cos(M.pi * u_(M, k)); f = (1 + r * z) / (r + z); c = kap * (r - f); return f, c


def vm(M):
    """accepted exactly when the second draw is at most the ratio of the density to its envelope"""
    kap = M.choice("kappa", [.9375, 3.984375, 15.99609375]); m = mu(M); rounds = M.choice("rounds", [1, 2])
    for j in range(rounds):
        f, c = vm_round(M, 2 * j + 1, kap); A = c * M.np.exp(1 - c); M.assume(f <= 1); M.assume(f >= -1); M.assume(M.np.exp(1 - c) >= 2 - c)
        last = j == rounds - 1; u2 = u_(M, 2 * j + 2); M.assume(u2 <= A - 1e-6 if last else u2 >= A + 1e-6)
    u3 = "u%d" % (2 * rounds + 1); side = half(M, "side"); g = feed(M, 2 * rounds + 1, {u3: side}, exact=True)
    x = shaped(M, fam(M, "vonmises").rvs(mu=m, kappa=0 * M.pi + kap, size=None, random_state=g), None)[0]
    M.ok("rounds", g.count["u"] == 2 * rounds + 1)
    M.eq("cosine of the deviation", M.np.cos(x - m), f); s = M.np.sin(x - m); M.ok("side", (s <= 1e-6) if side[0] < .5 else (s >= -1e-6))


PAR = {"circularuniform": lambda M: (), "triangular": lambda M: (M.real("rho", .001, .405),), "wrapnorm": lambda M: (mu(M), M.real("rho", .01, .99)),
       "cartwright": lambda M: (mu(M), M.real("zeta", .05, 20))}


def obligations(tier):
    R = "draws in (1e-9, 1 - 1e-9), every location; sizes none, 1, 2, (2, 1)"
    o = [Obl("law/" + n, law(n, PAR[n], c, SHAPES[n == "triangular":]), n + ".rvs, _rvs, _init_rng", R) for n, c in (("circularuniform", d_uniform), ("triangular", d_tri), ("wrapnorm", d_wn))]
    return o + [Obl("law/cartwright", cartwright, "cartwright.rvs, _rvs", R + ", either side"), Obl("vonmises", vm, "vonmises.rvs, _rvs", "kappa in {.9375, 3.984375, 15.99609375}, acceptance in the first or second round")]
