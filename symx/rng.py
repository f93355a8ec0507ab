"""Random generators as nondeterminism: every draw is a fresh symbolic value in its range, a
function of (stream key, draw index) so that equal seeds give equal draws."""
from __future__ import annotations
import builtins, itertools, math
from fractions import Fraction as F
import numpy as np
from . import terms as T
from .terms import Unsupported
from . import values as V
from .values import Sym, const, to_sym
from .arr import SArr, to_obj, out


def draw(key, kind, lo=None, hi=None, isint=False, closed_lo=True):
    k = ("RND", key, kind)
    def num(env): 
        h = (hash(k) % 1000003 + 0.5) / 1000003
        l = float(lo) if lo is not None else -2.0
        u = float(hi) if hi is not None else 2.0
        v = l + (u - l) * h
        return float(math.floor(v)) if isint else v
    a = T.CTX.atom("RND", k, lo=None if lo is None else F(lo), hi=None if hi is None else F(hi), isint=isint, num=num)
    if not hasattr(T.CTX, "draws"): T.CTX.draws = []
    if a not in T.CTX.draws: T.CTX.draws.append(a)
    s = Sym(V.p_atom(a), lo is not None and lo >= 0); s.isint = isint
    return s


class SymGen:
    """numpy.random.Generator / RandomState stand-in."""
    def __init__(self, seed=None):
        if isinstance(seed, SymGen): self.key = seed.key; self.n = seed.n; return
        if seed is None:
            c = getattr(T.CTX, "anon_rng", 0); T.CTX.anon_rng = c + 1
            seed = ("anon", c)
        self.key = V.T.p_key(seed.p) if isinstance(seed, Sym) else seed
        if isinstance(self.key, (np.integer,)): self.key = int(self.key)
        self.n = 0

    def _next(self):
        self.n += 1
        return (self.key, self.n)

    def _fill(self, size, f):
        if size is None: return f(self._next())
        if isinstance(size, (int, np.integer)) or isinstance(size, Sym): size = (int(size),)
        size = tuple(int(s) for s in size)
        o = np.empty(size, dtype=object)
        for i in np.ndindex(size): o[i] = f(self._next())
        return o.view(SArr)

    def uniform(self, low=0.0, high=1.0, size=None):
        l, h = to_sym(low), to_sym(high)
        def f(k):
            u = draw(k, "u01", 0, 1)
            T.CTX.path.assume(u < 1)
            return l + (h - l) * u
        return self._fill(size, f)

    def random(self, size=None): return self.uniform(0, 1, size)
    random_sample = random
    def rand(self, *s): return self.uniform(0, 1, s or None)

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        lo, hi = (0, int(low)) if high is None else (int(low), int(high))
        if not endpoint: hi -= 1
        if hi < lo: raise ValueError("low >= high")
        if hi - lo > 64:
            return self._fill(size, lambda k: hash((k, "int")) % (hi - lo + 1) + lo)
        r = self._fill(size, lambda k: V.concretize_int(draw(k, "i%d_%d" % (lo, hi), lo, hi, True)) if hi > lo else lo)
        return r.view(np.ndarray).astype(np.int64) if isinstance(r, np.ndarray) else r
    randint = integers

    def permutation(self, x):
        if isinstance(x, (int, np.integer)): idx = list(range(int(x))); src = None
        else: src = to_obj(x); idx = list(range(src.shape[0]))
        p = self._perm(len(idx))
        if src is None: return np.array(p)
        return out(src[np.array(p, dtype=int)]) if len(p) else out(src)

    def _perm(self, n):
        left = list(range(n)); p = []
        while left:
            i = V.concretize_int(draw(self._next(), "p%d" % len(left), 0, len(left) - 1, True)) if len(left) > 1 else 0
            p.append(left.pop(i))
        return p

    def shuffle(self, x, axis=0):
        p = self._perm(len(x))
        if isinstance(x, list):
            x[:] = [x[i] for i in p]
        elif isinstance(x, SArr):
            o = x.view(np.ndarray); o[...] = o[np.array(p, dtype=int)].copy() if len(p) else o
        else: x[...] = x[np.array(p, dtype=int)].copy()

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        n = int(a) if isinstance(a, (int, np.integer)) else to_obj(a).shape[0]
        src = None if isinstance(a, (int, np.integer)) else to_obj(a)
        if size is None: m = 1
        else: m = int(np.prod(size)) if not isinstance(size, (int, np.integer, Sym)) else int(size)
        if replace: ix = [V.concretize_int(draw(self._next(), "i0_%d" % (n - 1), 0, n - 1, True)) if n > 1 else 0 for _ in range(m)]
        else:
            if m > n: raise ValueError("Cannot take a larger sample than population when replace is False")
            ix = self._perm(n)[:m]
        if size is None: return ix[0] if src is None else src[ix[0]]
        ix = np.array(ix, dtype=np.int64).reshape(size if not isinstance(size, Sym) else int(size))
        return ix if src is None else out(src[ix])

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fill(size, lambda k: to_sym(loc) + to_sym(scale) * draw(k, "n"))
    def standard_normal(self, size=None): return self.normal(0, 1, size)
    def vonmises(self, mu, kappa, size=None):
        def f(k):
            v = draw(k, "vm", -T.PI_F, T.PI_F)
            return V.s_mod(to_sym(mu) + v + V.PI(), 2 * V.PI()) - V.PI()
        return self._fill(size, f)
    def beta(self, a, b, size=None): return self._fill(size, lambda k: draw(k, "beta", 0, 1))
    def gamma(self, *a, size=None, **k): return self._fill(size, lambda k: draw(k, "gamma", 0, None))
    def exponential(self, scale=1.0, size=None): return self._fill(size, lambda k: to_sym(scale) * draw(k, "exp", 0, None))
    def dirichlet(self, alpha, size=None): raise Unsupported("dirichlet")
    def spawn(self, n): return [SymGen((self.key, "spawn", i)) for i in range(n)]
    bit_generator = None


def default_rng(seed=None):
    if isinstance(seed, SymGen): return seed
    if isinstance(seed, (str, float)) and not isinstance(seed, Sym): raise TypeError("SeedSequence expects int or sequence of ints for entropy not %s" % seed)
    if isinstance(seed, Sym) and seed.exact is None: raise Unsupported("symbolic seed")
    if isinstance(seed, (int, np.integer)) and seed < 0: raise ValueError("expected non-negative integer")
    return SymGen(seed)


class _GlobalState:
    def _g(self):
        g = getattr(T.CTX, "global_rng", None)
        if g is None: g = T.CTX.global_rng = SymGen(("global", 0))
        return g


_G = _GlobalState()


def _seed(s=None):
    T.CTX.global_rng = SymGen(("global", s))


def _glob(name):
    def f(*a, **k): return getattr(_G._g(), name)(*a, **k)
    return f


RANDOM = {"default_rng": default_rng, "Generator": SymGen, "RandomState": type("RandomState", (SymGen,), {}), "seed": _seed}
for _n in ("choice", "shuffle", "permutation", "uniform", "random", "rand", "randint", "vonmises", "normal", "integers", "random_sample", "beta"):
    RANDOM[_n] = _glob(_n)
