"""`math` for the instrumented code."""
from __future__ import annotations
import math
from fractions import Fraction as F
from . import values as V
from .values import Sym, SB, const, to_sym, is_special
from . import arr as A
from .terms import Unsupported
from .npshim import f_isclose


def _w(k):
    def f(*a):
        a = [x.item() if hasattr(x, "ndim") and not isinstance(x, Sym) and getattr(x, "size", 0) == 1 and hasattr(x, "item") else x for x in a]
        return k(*[A.lift(x) for x in a])
    return f


class MathShim:
    inf = math.inf; nan = math.nan
    @property
    def pi(self): return V.PI()
    @property
    def tau(self): return V.PI() * 2
    @property
    def e(self): return const(F(math.e))
    sqrt = staticmethod(_w(A.k_sqrt)); exp = staticmethod(_w(A.k_exp))
    cos = staticmethod(_w(lambda a: V.scos(A.num(a)))); sin = staticmethod(_w(lambda a: V.ssin(A.num(a)))); tan = staticmethod(_w(lambda a: V.stan(A.num(a))))
    atan2 = staticmethod(_w(A.k_atan2)); hypot = staticmethod(_w(A.k_hypot)); fabs = staticmethod(_w(A.k_abs))
    acos = staticmethod(_w(lambda a: V.sacos(A.num(a)))); asin = staticmethod(_w(lambda a: V.sasin(A.num(a)))); atan = staticmethod(_w(lambda a: V.satan(A.num(a))))
    pow = staticmethod(_w(A.k_pow)); cosh = staticmethod(_w(A.k_cosh)); sinh = staticmethod(_w(A.k_sinh)); tanh = staticmethod(_w(A.k_tanh))
    radians = staticmethod(_w(A.k_deg2rad)); degrees = staticmethod(_w(A.k_rad2deg)); log1p = staticmethod(_w(A.k_log1p)); expm1 = staticmethod(_w(A.k_expm1))
    isnan = staticmethod(_w(A.k_isnan)); isinf = staticmethod(_w(A.k_isinf)); isfinite = staticmethod(_w(A.k_isfinite))

    @staticmethod
    def log(x, base=None):
        r = V.slog(A.num(A.lift(x)))
        return r if base is None else r / V.slog(to_sym(A.lift(base)))
    @staticmethod
    def log2(x): return V.slog(x) / V.slog(const(2))
    @staticmethod
    def log10(x): return V.slog(x) / V.slog(const(10))
    @staticmethod
    def floor(x): return V.concretize_int(V.sfloor(to_sym(x))) if not isinstance(x, int) else x
    @staticmethod
    def ceil(x): return V.concretize_int(-V.sfloor(-to_sym(x))) if not isinstance(x, int) else x
    @staticmethod
    def trunc(x): return int(x)
    @staticmethod
    def fmod(a, b):
        a, b = to_sym(a), to_sym(b)
        r = V.s_mod(V.sabs(a), V.sabs(b))
        return V.ite(a < 0, -r, r)
    @staticmethod
    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        a, b = to_sym(a), to_sym(b)
        return V.sabs(a - b) <= V.smax(to_sym(rel_tol) * V.smax(V.sabs(a), V.sabs(b)), to_sym(abs_tol))
    @staticmethod
    def copysign(a, b): return V.ite(to_sym(b) < 0, -V.sabs(to_sym(a)), V.sabs(to_sym(a)))
    @staticmethod
    def fsum(xs): return A.reduce_seq("add", list(xs))
    @staticmethod
    def prod(xs): return A.reduce_seq("multiply", list(xs))
    @staticmethod
    def lgamma(x):
        from .scishim import gammaln
        return gammaln(x)
    @staticmethod
    def gamma(x):
        from .scishim import gamma
        return gamma(x)
    @staticmethod
    def comb(n, k): return math.comb(int(n), int(k))
    @staticmethod
    def factorial(n): return math.factorial(int(n))

    def __getattr__(self, n):
        v = getattr(math, n)
        def f(*a):
            from .npshim import demote_call
            return demote_call(v, a, {})
        return f if callable(v) else v
