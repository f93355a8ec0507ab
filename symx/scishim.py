"""The `scipy` the code under test sees: special functions and distribution functions become
uninterpreted functions with sound range/symmetry facts; everything else is evaluated numerically
when its arguments are constants and refused otherwise."""
from __future__ import annotations
import math, builtins, types, importlib
from fractions import Fraction as F
import numpy as np
from . import terms as T
from .terms import Unsupported, NAN, INF, ONE, p_canon, p_pionly, p_pival, p_key, p_neg, p_lead, p_sub
from . import values as V
from .values import Sym, SymC, SB, const, to_sym, is_special, uf, ite, b_and, b_or
from . import arr as A
from .arr import SArr, is_sym, to_obj, emap, out, lift
from .npshim import demote, demote_call, lift_deep, mkarr, NSub, FuncShim, f_inv, matmul, f_solve, is_sym as _s

import scipy, scipy.special as sp, scipy.stats as st, scipy.optimize, scipy.integrate, scipy.interpolate, scipy.linalg
import scipy.stats._distn_infrastructure  # noqa


def _flip_odd(s):
    """(sign, s') with s' in canonical sign."""
    p = p_canon(s.p)
    if not p: return 1, s
    if p[p_lead(p)] < 0: return -1, Sym(p_neg(p))
    return 1, Sym(p)


def i0(k):
    if is_special(k): return NAN if k != k else INF
    k = to_sym(A.num(k)); _, k = _flip_odd(k)
    if k.isconst and k.value() > 700: return INF
    if k.isconst and k.value() == 0: return const(1)
    return uf("iv0", [k], lambda x: sp.i0(x), lo=1, pos=True)


def i1(k):
    if is_special(k): return NAN if k != k else INF
    k = to_sym(A.num(k)); sg, kk = _flip_odd(k)
    if kk.isconst and kk.value() == 0: return const(0)
    lo, hi = V.sym_bounds(kk)
    if k.nn: kk = Sym(kk.p, True) if sg > 0 else kk
    r = uf("iv1", [kk], lambda x: sp.i1(x), lo=0 if (kk.nn or (lo is not None and lo >= 0)) else None)
    if isinstance(r, Sym) and not r.isconst:
        a = T.CTX.atoms[list(r.p)[0][0][0]] if len(r.p) == 1 else None
        z = i0(kk)
        _link(a, lambda: [r <= z, -z <= r] if isinstance(z, Sym) else [])
    return r if sg > 0 else -r


def _link(atom, mk):
    if atom is not None and atom.axioms is None:
        atom.axioms = []
        atom.axioms = [x for x in mk() if isinstance(x, SB)]


def iv(n, k):
    n = A.num(n)
    e = to_sym(n).exact if not is_special(n) else None
    if e is None: raise Unsupported("iv with symbolic order")
    if e == 0: return i0(k)
    if e == 1: return i1(k)
    k = to_sym(A.num(k))
    if e.denominator == 1:
        n = int(abs(e)); sg, kk = _flip_odd(k)
        if kk.isconst and kk.value() == 0: return const(0)
        lo, hi = V.sym_bounds(kk)
        r = uf("iv%d" % n, [kk], lambda x: sp.iv(n, x), lo=0 if (kk.nn or (lo is not None and lo >= 0)) else None)
        return r if (sg > 0 or n % 2 == 0) else -r
    return uf("iv%s" % e, [k], lambda x: sp.iv(float(e), x))


def i0e(k):
    if isinstance(k, (SArr, np.ndarray)): return emap(i0e, k)
    k = to_sym(A.num(k))
    if k.isconst and abs(k.value()) > 700: return const(F(float(sp.i0e(float(k.value())))))
    return i0(k) * V.sexp(-V.sabs(k))
def i1e(k):
    k = to_sym(A.num(k))
    return i1(k) * V.sexp(-V.sabs(k))
def ive(n, k): return iv(n, k) * V.sexp(-V.sabs(to_sym(k)))


def ground(p):
    """does the polynomial mention no input?"""
    for m in p:
        for a, _ in m:
            t = T.CTX.atoms[a]
            if t.kind == "PI": continue
            if t.kind in ("SQRT", "DEN", "ABS") and ground(dict(t.args[0])): continue
            return False
    return True


def fold(x):
    """a constant expression (radicals, pi) as a number"""
    if isinstance(x, Sym) and not x.isconst and ground(x.p): return const(F(float(T.evalp(x.p, T.NumEnv({})))))
    return x


def ndtr(x):
    x = A.num(x)
    if isinstance(x, Sym): x = fold(x)
    if is_special(x): return NAN if x != x else const(1 if x > 0 else 0)
    x = to_sym(x)
    if x.isconst: return const(F(float(sp.ndtr(float(x.value())))))
    sg, xx = _flip_odd(x)
    lo, hi = V.sym_bounds(x)
    r = uf("ndtr", [xx], lambda v: sp.ndtr(v), lo=0, hi=1, pos=True)
    a = T.CTX.atoms[list(r.p)[0][0][0]]
    _link(a, lambda: [V.b_or([xx < 0, r >= F(1, 2)]), V.b_or([xx > 0, r <= F(1, 2)]), r < 1])
    MONO.setdefault("ndtr", 1)
    res = r if sg > 0 else 1 - r
    return Sym(res.p, True)


MONO = {"ndtr": 1, "ndtri": 1, "gammaln": None}


def ndtri(q):
    q = A.num(q)
    if is_special(q): return NAN
    q = to_sym(q)
    if q.isconst:
        v = float(sp.ndtri(float(q.value())))
        return v if is_special(v) else const(F(v))
    if bool(q <= 0): return -INF if bool(q == 0) else NAN
    if bool(q >= 1): return INF if bool(q == 1) else NAN
    # inverse relation recognised syntactically: ndtri(ndtr(x)) = x
    p = p_canon(q.p)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = T.CTX.atoms[m[0][0]]
            if at.kind == "UF" and at.args[0] == "ndtr": return Sym(at.aux[1][0])
    return uf("ndtri", [q], lambda v: sp.ndtri(v))


def erf(x): return 2 * ndtr(to_sym(x) * V.ssqrt(const(2))) - 1
def erfc(x): return 2 - 2 * ndtr(to_sym(x) * V.ssqrt(const(2)))


def gen_uf(name, f, lo=None, hi=None, pos=False):
    def g(*a):
        a = [A.num(x) for x in a]
        if any(is_special(x) for x in a):
            v = float(f(*[float(x) for x in a])) if not any(isinstance(x, Sym) and not x.isconst for x in a) else NAN
            return lift(v)
        return uf(name, a, f, lo=lo, hi=hi, pos=pos)
    return g


def betainc(a, b, x):
    x = A.num(x)
    if not is_special(x):
        xs = to_sym(x)
        if xs.exact == 0: return const(0)
        if xs.exact == 1: return const(1)
    return gen_uf("betainc", sp.betainc, 0, 1)(a, b, x)


def comb(n, k, exact=False, repetition=False):
    n, k = A.num(n), A.num(k)
    n = int(n) if not isinstance(n, int) else n
    k = int(k) if not isinstance(k, int) else k
    return math.comb(n, k) if 0 <= k <= n else 0


def gammaln(x):
    x = A.num(x)
    e = to_sym(x).exact if not is_special(x) else None
    if e is not None and e > 0: return const(F(math.lgamma(float(e)))) if e not in (1, 2) else const(0)
    return gen_uf("gammaln", sp.gammaln)(x)


def gamma(x):
    x = A.num(x)
    e = to_sym(x).exact if not is_special(x) else None
    if e is not None and e.denominator == 1 and 0 < e < 100: return const(math.factorial(int(e) - 1))
    if e is not None and e > 0 and e.denominator == 2 and e < 60:
        # Gamma(n+1/2) = sqrt(pi) prod
        r = V.ssqrt(V.PI()); k = F(1, 2)
        while k < e: r = r * const(k); k += 1
        return r
    return V.sexp(gammaln(x))


def beta(a, b): return V.sexp(gammaln(a) + gammaln(b) - gammaln(to_sym(a) + b))


def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    if return_sign: raise Unsupported("logsumexp return_sign")
    def g(seq):
        if any(A.k_isnan(v) for v in seq): return NAN
        fin = [v for v in seq if not (is_special(v) and v < 0)]
        if not fin: return -INF
        if any(is_special(v) for v in fin): return INF
        tot = A.reduce_seq("add", [V.sexp(to_sym(A.num(v))) for v in fin])
        return V.slog(Sym(tot.p, True))
    if b is not None:
        e = A.emap(lambda x, w: V.sexp(to_sym(A.num(x))) * w, a, b)
        return A.emap(lambda v: V.slog(v), A.reduce_axis("add", e, axis, keepdims))
    return A.reduce_axis("lse", a, axis, keepdims, g)


def rankdata(a, method="average", axis=None, nan_policy="propagate"):
    if axis is not None: raise Unsupported("rankdata axis")
    o = list(to_obj(a).reshape(-1))
    p = A.sort_perm(o)
    r = [None] * len(o); i = 0
    dense = 0
    while i < len(p):
        j = i + 1
        while j < len(p) and bool(V.as_bool(A.KERN["equal"](o[p[j]], o[p[i]]))): j += 1
        dense += 1
        for q in range(i, j):
            r[p[q]] = {"average": const(F(i + 1 + j, 2)), "min": const(i + 1), "max": const(j), "dense": const(dense), "ordinal": const(q + 1)}[method]
        i = j
    return mkarr(r)


SPECIAL = {"i0": i0, "i1": i1, "iv": iv, "i0e": i0e, "i1e": i1e, "ive": ive, "ndtr": ndtr, "ndtri": ndtri, "erf": erf, "erfc": erfc,
           "betainc": betainc, "betaincinv": gen_uf("betaincinv", sp.betaincinv, 0, 1), "digamma": gen_uf("digamma", sp.digamma), "psi": gen_uf("digamma", sp.digamma),
           "gammaln": gammaln, "gamma": gamma, "beta": beta, "entr": lambda x: 0 if x == 0 else -(x * V.slog(x)),
           "log_ndtr": lambda x: V.slog(ndtr(x)), "xlogy": lambda x, y: x * V.slog(y), "expit": lambda x: 1 / (1 + V.sexp(-to_sym(x))),
           "lpmv": None, "eval_legendre": gen_uf("eval_legendre", sp.eval_legendre)}


def _lpmv(m, v, x):
    """Associated Legendre P_v^m as an uninterpreted function of (v, x) for constant integer m."""
    me = to_sym(A.num(m)).exact
    if me is None: raise Unsupported("symbolic lpmv order")
    return gen_uf("lpmv%s" % me, lambda a, b: sp.lpmv(float(me), a, b))(v, x)


SPECIAL["lpmv"] = _lpmv


class SciFunc:
    def __init__(self, name, k, real):
        self.__name__ = name; self._k = k; self._real = real
    def __call__(self, *a, **kw):
        kw.pop("out", None)
        if kw: raise Unsupported("scipy.special keyword")
        return emap(self._k, *a)


class SpecialNS:
    def __getattr__(self, n):
        if n == "comb": return lambda *a, **k: comb(*a, **k) if not (is_arr(a[0]) or is_arr(a[1])) else emap(comb, a[0], a[1])
        if n == "logsumexp": return logsumexp
        if n in SPECIAL: return SciFunc(n, SPECIAL[n], getattr(sp, n))
        v = getattr(sp, n)
        if callable(v): return lambda *a, **k: demote_call(v, a, k)
        return v


def is_arr(x): return isinstance(x, (np.ndarray, list, tuple)) and np.ndim(x) > 0


# ---------------------------------------------------------------- scipy.stats
class Frozen:
    def __init__(self, d, args, kw): self._d, self._a, self._k = d, args, kw
    def __getattr__(self, name):
        m = getattr(self._d, name)
        return lambda *x, **k: m(*x, *self._a, **{**self._k, **k})


class Dist:
    """A continuous distribution with an uninterpreted cdf (range [0,1])."""
    def __init__(self, name, real):
        self.name = name; self._real = real

    def _cdf1(self, x, *sh):
        nm = self.name
        if is_special(x): return NAN if x != x else const(1 if x > 0 else 0)
        if any(is_special(s) for s in sh): return NAN
        x = to_sym(x)
        ss = [to_sym(s) for s in sh]
        if nm == "norm": return ndtr(x)
        if nm in ("chi2", "f", "gamma", "expon", "beta"):
            if not x.nn:
                neg = x < 0
                if (neg if isinstance(neg, bool) else bool(neg)): return np.float64(0)
        if nm == "chi2":
            e = ss[0].exact
            if e is not None and e <= 0: return NAN
            if e == 2 and len(x.p) == 1: return 1 - V.sexp(-x / 2)
            if e == 4 and len(x.p) == 1: return 1 - V.sexp(-x / 2) * (1 + x / 2)
        if nm == "f":
            for s in ss:
                e = s.exact
                if e is not None and e <= 0: return NAN
        r = uf(nm + "_cdf", [x] + ss, lambda v, *a: float(self._real.cdf(v, *a)), lo=0, hi=1)
        if isinstance(r, Sym) and not r.isconst and len(r.p) == 1:
            MONO[nm + "_cdf"] = 1
        return r

    def __call__(self, *args, **kw): return Frozen(self, args, kw)
    freeze = __call__

    def _args(self, x, args, kw):
        args = list(args)
        names = {"chi2": ["df"], "f": ["dfn", "dfd"], "t": ["df"], "norm": [], "vonmises": ["kappa"], "expon": [], "uniform": []}.get(self.name, [])
        loc, scale = 0, 1
        sh = []
        for n in names:
            if args: sh.append(args.pop(0))
            else: sh.append(kw.pop(n))
        if args: loc = args.pop(0)
        if args: scale = args.pop(0)
        loc = kw.pop("loc", loc); scale = kw.pop("scale", scale)
        if kw: raise Unsupported("%s keywords %r" % (self.name, list(kw)))
        return sh, loc, scale

    def _std(self, x, loc, scale):
        if isinstance(loc, int) and loc == 0 and isinstance(scale, int) and scale == 1: return x
        return emap(lambda a, l, s: (A.num(a) - l) / s if is_special(a) else (to_sym(A.num(a)) - l) / s, x, loc, scale)

    def cdf(self, x, *a, **kw):
        sh, l, s = self._args(x, a, kw)
        return emap(self._cdf1, self._std(x, l, s), *sh)
    def sf(self, x, *a, **kw):
        sh, l, s = self._args(x, a, kw)
        def k(v, *z):
            c = self._cdf1(v, *z)
            if isinstance(c, float): return 1 - c   # np.float64 stays one
            return Sym((1 - c).p, True)
        return emap(k, self._std(x, l, s), *sh)
    def _const(self, m, a, kw):
        try: a2 = demote(tuple(a)); k2 = demote(dict(kw))
        except Unsupported: return None
        return lift_deep(getattr(self._real, m)(*a2, **k2))
    def ppf(self, q, *a, **kw):
        r = self._const("ppf", (q,) + a, kw)
        if r is not None: return r
        sh, l, s = self._args(q, a, dict(kw))
        if self.name == "norm": return emap(lambda v: ndtri(v), q) * s + l
        if self.name == "chi2" and to_sym(sh[0]).exact == 2: return emap(lambda v: -2 * V.slog(1 - to_sym(v)), q)
        return emap(lambda v, *z: uf(self.name + "_ppf", [v] + list(z), lambda x, *y: float(self._real.ppf(x, *y))), q, *sh)
    def isf(self, q, *a, **kw):
        return self.ppf(1 - (q if is_sym(q) else mkarr(q)), *a, **kw)
    def pdf(self, x, *a, **kw):
        sh, l, s = self._args(x, a, kw)
        z = self._std(x, l, s)
        if self.name == "norm":
            return emap(lambda v: V.sexp(-to_sym(v) * to_sym(v) / 2) / V.ssqrt(2 * V.PI()), z) / s
        if self.name == "vonmises":
            return emap(lambda v, k: V.sexp(to_sym(k) * V.scos(v)) / (2 * V.PI() * i0(k)), z, sh[0]) / s
        return emap(lambda v, *q: uf(self.name + "_pdf", [v] + list(q), lambda x, *y: float(self._real.pdf(x, *y)), lo=0), z, *sh) / s
    def logpdf(self, x, *a, **kw): return emap(lambda v: V.slog(v), self.pdf(x, *a, **kw))
    def rvs(self, *a, size=None, random_state=None, **kw):
        from . import rng
        g = random_state if isinstance(random_state, rng.SymGen) else rng.default_rng(random_state) if random_state is not None else rng._G._g()
        sh, l, s = self._args(None, a, kw)
        if self.name == "vonmises": return g.vonmises(l, sh[0], size)
        if self.name == "norm": return g.normal(l, s, size)
        if self.name == "uniform": return g.uniform(l, l + s, size)
        raise Unsupported("rvs")
    def __getattr__(self, n): raise Unsupported("scipy.stats.%s.%s" % (self.name, n))


class Res(types.SimpleNamespace):
    def __iter__(self): return iter((self.statistic, self.pvalue))
    def __getitem__(self, i): return (self.statistic, self.pvalue)[i]


def _opaque_test(name):
    def f(*a, **k):
        key = tuple(p_key(to_sym(v).p) if not is_special(v) else v for x in a for v in to_obj(x).reshape(-1))
        real = getattr(st, name)
        shapes = [np.shape(to_obj(x)) for x in a]
        polys = [[to_sym(v).p for v in to_obj(x).reshape(-1)] for x in a]
        def ev(i):
            def g(env):
                xs = [np.array([T.evalp(p, env) for p in ps]).reshape(s) for ps, s in zip(polys, shapes)]
                return float(real(*xs, **k)[i])
            return g
        s = T.CTX.atom("OPQ", (name, "stat", key), num=ev(0)); p = T.CTX.atom("OPQ", (name, "p", key), lo=F(0), hi=F(1), num=ev(1))
        return Res(statistic=Sym(V.p_atom(s)), pvalue=Sym(V.p_atom(p), True))
    return f


def _rank_test(name):
    """Tests whose result is a function of ranks (and signs) only: fork on the order type, then call scipy on a representative."""
    def f(*a, **k):
        a = [to_obj(x) for x in a]
        if any(x.ndim > 1 for x in a): raise Unsupported(name + " of matrices")
        seqs = [list(x.reshape(-1)) for x in a]
        if name == "wilcoxon":
            if len(seqs) > 1 and a[1].ndim: seqs = [[V.s_sub(to_sym(u), to_sym(v)) for u, v in zip(*seqs)]]
            xs = [to_sym(v) for v in seqs[0]]
            sg = [0 if bool(v == 0) else 1 if bool(v > 0) else -1 for v in xs]
            rk = [float(to_sym(r).value()) for r in rankdata([V.sabs(v) if g else const(0) for v, g in zip(xs, sg)], "dense")] if xs else []
            reps = [np.array([g * (r + 1.0) for g, r in zip(sg, rk)])]
        elif name == "spearmanr":
            reps = [np.array([float(to_sym(r).value()) for r in rankdata(q, "dense")]) for q in seqs]
        else:
            flat = [v for q in seqs for v in q]
            rk = [float(to_sym(r).value()) for r in rankdata(flat, "dense")]
            reps = []; i = 0
            for q in seqs: reps.append(np.array(rk[i:i + len(q)])); i += len(q)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = getattr(st, name)(*reps, **k)
        g = lambda v: float(v) if not math.isfinite(float(v)) else const(F(float(v)))
        return Res(statistic=g(r.statistic), pvalue=g(r.pvalue), correlation=g(r.statistic))
    return f


def chisquare(f_obs, f_exp=None, ddof=0, axis=0, **k):
    o = list(to_obj(f_obs).reshape(-1)); n = len(o)
    e = [A.reduce_seq("add", o) / n] * n if f_exp is None else list(to_obj(f_exp).reshape(-1))
    s = A.reduce_seq("add", [(to_sym(x) - y) ** 2 / y for x, y in zip(o, e)])
    return Res(statistic=s, pvalue=stats.chi2.sf(s, n - 1 - ddof))


def f_oneway(*gs, **k):
    gs = [list(to_obj(g).reshape(-1)) for g in gs]
    n = sum(map(len, gs)); m = A.reduce_seq("add", [x for g in gs for x in g]) / n
    ms = [A.reduce_seq("add", g) / len(g) for g in gs]
    b = A.reduce_seq("add", [(u - m) ** 2 * len(g) for u, g in zip(ms, gs)]) / (len(gs) - 1)
    w = A.reduce_seq("add", [(x - u) ** 2 for u, g in zip(ms, gs) for x in g]) / (n - len(gs))
    s = b / w
    return Res(statistic=s, pvalue=stats.f.sf(s, len(gs) - 1, n - len(gs)))


class StatsNS:
    def __init__(self): self._c = {}
    def __getattr__(self, n):
        if n in ("chi2", "norm", "f", "t", "vonmises", "uniform", "expon"):
            if n not in self._c: self._c[n] = Dist(n, getattr(st, n))
            return self._c[n]
        if n == "rankdata": return rankdata
        if n in ("rv_continuous", "rv_discrete"):
            from . import loader
            return getattr(loader.load_scipy_infra(), n)
        if n in ("wilcoxon", "mannwhitneyu", "kruskal", "spearmanr"): return _rank_test(n)
        if n == "chisquare": return chisquare
        if n == "f_oneway": return f_oneway
        if n in ("kstest", "ks_2samp", "ttest_ind", "pearsonr"): return _opaque_test(n)
        v = getattr(st, n)
        if hasattr(v, "cdf") and not isinstance(v, type):
            return types.SimpleNamespace(**{m: (lambda *a, _f=getattr(v, m), **k: demote_call(_f, a, k)) for m in ("cdf", "sf", "pmf", "pdf", "ppf", "isf", "logpmf", "mean", "var", "std") if hasattr(v, m)})
        if callable(v) and not isinstance(v, type): return lambda *a, **k: demote_call(v, a, k)
        return v


# ---------------------------------------------------------------- integrate
def quad(func, a, b, args=(), full_output=0, epsabs=1e-9, epsrel=1e-9, limit=50, points=None, weight=None, **k):
    """Integral as G(b) - G(a) for an antiderivative G of the integrand (an uninterpreted function
    named by the integrand's symbolic form)."""
    if weight is not None: raise Unsupported("quad weight")
    if is_special(a) or is_special(b): raise Unsupported("quad on an infinite range")
    a, b = to_sym(a), to_sym(b)
    n = getattr(T.CTX, "qdepth", 0)
    # the interior of the range: conditions at single points do not matter to the integral
    lo, hi = V.p_bounds(a.p)[0], V.p_bounds(b.p)[1]
    if lo is not None and hi is not None and lo >= 0 and hi <= F(6283185308, 10 ** 9): lo, hi = F(1, 10 ** 12), F(6283185307, 10 ** 9)
    else: lo = hi = None
    t = T.CTX.atom("QT", (n, lo, hi), num=None, name="t%d" % n, **({} if lo is None else {"lo": lo, "hi": hi}))
    T.CTX.qdepth = n + 1
    try: v = func(Sym(V.p_atom(t)), *args)
    finally: T.CTX.qdepth = n
    if isinstance(v, np.ndarray): v = v.reshape(-1)[0]
    v = to_sym(v) if not is_special(v) else v
    if is_special(v): return v, const(0)
    g = anti(t, p_canon(v.p), b) - anti(t, p_canon(v.p), a)
    err = const(F(1, 10 ** 12))
    return (g, err, {}) if full_output else (g, err)


def anti(t, poly, x):
    """Antiderivative of poly (in t) vanishing at 0, at x; linear over monomials' t-free factors."""
    tot = const(0)
    dep = _depends(t)
    groups = {}
    for m, c in poly.items():
        inn = tuple((a, e) for a, e in m if dep(a)); outm = tuple((a, e) for a, e in m if not dep(a))
        g = groups.setdefault(inn, {}); g[outm] = g.get(outm, 0) + c
    for inn, o in groups.items():
        if inn == (): tot = tot + Sym(o) * x; continue
        if inn == ((t.id, 1),): tot = tot + Sym(o) * x * x / 2; continue
        xs = to_sym(x)
        if not xs.p: continue
        v = anti_trig(t, inn, x)
        if v is not None: tot = tot + Sym(o) * v; continue
        def num(env, inn=inn, xp=xs.p):
            hi = T.evalp(xp, env)
            def f(v):
                e2 = T.NumEnv({k: w for k, w in env.v.items() if not dep(k)}); e2.v[t.id] = v
                return T.evalp({inn: F(1)}, e2)
            return scipy.integrate.quad(f, 0, hi, limit=200)[0]
        at = T.CTX.atom("ANTI", (inn, t.id, p_key(p_canon(xs.p))), num=num)
        at.aux = (inn, t.id, p_canon(xs.p))
        tot = tot + Sym(o) * Sym(V.p_atom(at))
    return tot


def anti_trig(t, inn, x):
    """of cos^a t sin^b t, from its Fourier series"""
    a = b = 0
    for i, e in inn:
        at = T.CTX.atoms[i]
        if at.kind not in ("COS", "SIN") or e <= 0 or at.args[0] != ((t.id, 1),): return None
        if at.kind == "COS": a += e
        else: b += e
    if a + b > 80: return None
    tot = const(0)
    for k, (re, im) in T._fs(a, b).items():
        # the coefficients of e^{ikt} and e^{-ikt} are conjugate
        if k == 0: tot = tot + const(re) * x
        elif k > 0: tot = tot + const(2 * re / k) * V.ssin(k * x) + const(2 * im / k) * (V.scos(k * x) - 1)
    return tot


def _depends(t):
    memo = {t.id: True}
    def dep(aid):
        if aid in memo: return memo[aid]
        memo[aid] = False
        memo[aid] = any(dep(x) for x in atom_deps(T.CTX.atoms[aid]))
        return memo[aid]
    return dep


def poly_atoms(p):
    return {a for m in p for a, _ in m}


def sb_atoms(b):
    if isinstance(b, bool): return set()
    if b.op in ("and", "or"):
        s = set()
        for x in b.args: s |= sb_atoms(x)
        return s
    return poly_atoms(b.args)


def atom_deps(a):
    """ids of the atoms an atom's value depends on."""
    k = a.kind
    if k in ("COS", "SIN", "EXP"): return {x for x, _ in a.args[0]}
    if k in ("SQRT", "ABS", "DEN", "LOG", "FLOOR", "INTV", "ROUND", "ACOS", "ASIN"): return poly_atoms(dict(a.args[0]))
    if k in ("MODK", "MODR", "ATAN2"): return poly_atoms(dict(a.args[0])) | poly_atoms(dict(a.args[1]))
    if k == "ITE": return sb_atoms(a.aux[0]) | poly_atoms(a.aux[1]) | poly_atoms(a.aux[2])
    if k == "IND": return sb_atoms(a.aux)
    if k == "SGN": return {x for x, _ in a.args[0]}
    if k == "UF":
        s = set()
        for p in a.aux[1]: s |= poly_atoms(p)
        return s
    if k == "ANTI": return {x for x, _ in a.aux[0] if T.CTX.atoms[x].id != a.aux[1]} | poly_atoms(a.aux[2])
    return set()


def closed_integral(w, t, l, u):
    """the integral of an expression that mentions no input, as a number"""
    f1 = lambda x: float(T.evalp(w, T.NumEnv({t.id: x})))
    try: f1((l + u) / 2)
    except Exception: return None
    return const(F(float(scipy.integrate.quad(f1, l, u, epsabs=1e-11, epsrel=1e-11, limit=400)[0])))


def inputs_of(p, seen=None, out=None):
    seen = set() if seen is None else seen; out = {} if out is None else out
    for m in p:
        for a, _ in m:
            if a in seen: continue
            seen.add(a); at = T.CTX.atoms[a]
            if at.kind == "IN": out[a] = at
            else:
                for q in _polys(at.args): inputs_of(q, seen, out)
    return out


def _polys(x):
    if isinstance(x, dict): yield x
    elif isinstance(x, tuple):
        if x and all(isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], tuple) and isinstance(e[1], F) for e in x):
            yield dict(x)
        elif x and all(isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], int) for e in x): yield {x: F(1)}
        else:
            for e in x: yield from _polys(e)


def quad_vec(f, a, b, *args, **k):
    if k.get("args"): extra = k.pop("args"); g = f; f = lambda t: g(t, *extra)
    n = getattr(T.CTX, "qdepth", 0)
    # the interior of the range: conditions at single points do not matter to the integral
    lo, hi = V.p_bounds(a.p)[0], V.p_bounds(b.p)[1]
    if lo is not None and hi is not None and lo >= 0 and hi <= F(6283185308, 10 ** 9): lo, hi = F(1, 10 ** 12), F(6283185307, 10 ** 9)
    else: lo = hi = None
    t = T.CTX.atom("QT", (n, lo, hi), num=None, name="t%d" % n, **({} if lo is None else {"lo": lo, "hi": hi}))
    T.CTX.qdepth = n + 1
    try:
        v = f(Sym(V.p_atom(t)))
        a, b = to_sym(a), to_sym(b)
        if a.isconst and b.isconst and not (isinstance(v, np.ndarray) and v.ndim):
            w = to_sym(v if not isinstance(v, np.ndarray) else v.reshape(-1)[0]).p; l, u = float(a.value()), float(b.value())
            r = closed_integral(w, t, l, u)
            if r is not None: return r, const(F(1, 10 ** 12))
            if p_key(p_canon((b - a).p)) == p_key(p_canon((2 * V.PI()).p)) and len(T.CTX.inputs or ()) <= 12:
                # over a whole turn of a periodic integrand: the variable may be shifted by an input
                sh = lambda s: to_sym(A.num(np.asarray(f(Sym(V.p_atom(t)) + s), dtype=object).reshape(-1)[0])).p
                try:
                    if p_key(p_canon(sh(2 * V.PI()))) == p_key(p_canon(w)):
                        for at in inputs_of(w).values():
                            r = closed_integral(sh(Sym(V.p_atom(at))), t, l, u)
                            if r is not None: return r, const(F(1, 10 ** 12))
                except V.SpecialFloat: pass
    finally: T.CTX.qdepth = n
    def one(w):
        if is_special(w): return w
        return anti(t, p_canon(to_sym(w).p), to_sym(b)) - anti(t, p_canon(to_sym(w).p), to_sym(a))
    return emap(one, v), const(F(1, 10 ** 12))


def lstsq(a, b, **k):
    """Least squares through the normal equations (full column rank is decided by the path)."""
    X, y = to_obj(a), to_obj(b)
    n, p = X.shape
    XtX = to_obj(matmul(X.T, X)); Xty = to_obj(matmul(X.T, y))
    try: beta = f_solve(XtX, Xty)
    except np.linalg.LinAlgError: raise Unsupported("rank-deficient least squares")
    res = emap(A.k_sub, y, matmul(X, beta))
    rs = A.reduce_axis("add", emap(A.k_square, res), 0)
    return beta, (mkarr([rs]) if n > p else mkarr([])), p, mkarr([const(1)] * p)


class _Demoting:
    def __init__(self, mod, special): self._m = mod; self._s = special
    def __getattr__(self, n):
        if n in self._s: return self._s[n]
        v = getattr(self._m, n)
        if isinstance(v, (type, types.ModuleType)): 
            if isinstance(v, type) and issubclass(v, BaseException): return v
            return v if isinstance(v, types.ModuleType) else (lambda *a, **k: demote_call(v, a, k))
        if callable(v): return lambda *a, **k: demote_call(v, a, k)
        return v


# optimisers: nondeterministic stand-ins are installed by harnesses through these hooks
HOOKS = {}


def _hook(name, real):
    def f(*a, **k):
        h = HOOKS.get(name)
        if h is not None: return h(*a, **k)
        raise Unsupported("scipy.optimize.%s" % name)
    return f


OPT = {n: _hook(n, getattr(scipy.optimize, n)) for n in ("minimize", "minimize_scalar", "brentq", "root_scalar", "root", "fmin", "fsolve", "newton", "bisect", "differential_evolution")}
special = SpecialNS()
stats = StatsNS()
optimize = _Demoting(scipy.optimize, OPT)
integrate = _Demoting(scipy.integrate, {"quad": quad, "quad_vec": quad_vec})
interpolate = _Demoting(scipy.interpolate, {})
linalg = _Demoting(scipy.linalg, {"lstsq": lstsq, "inv": f_inv, "solve": f_solve})
MODS = {"scipy.special": special, "scipy.stats": stats, "scipy.optimize": optimize, "scipy.integrate": integrate,
        "scipy.interpolate": interpolate, "scipy.linalg": linalg}


class SciPy:
    special, stats, optimize, integrate, interpolate, linalg = special, stats, optimize, integrate, interpolate, linalg
    def __getattr__(self, n): return getattr(scipy, n)


MODS["scipy"] = SciPy()
