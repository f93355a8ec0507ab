"""Sym (real), SymC (complex) and SB (boolean) proxy values."""
from __future__ import annotations
import itertools, math, numbers
from fractions import Fraction as F
import numpy as _np
from . import terms as T
from .terms import (Unsupported, NAN, INF, PI_F, ONE, p_const, p_atom, p_add, p_sub, p_neg, p_mul, p_scale,
                    p_pow, p_inv, p_key, p_isconst, p_constval, p_pionly, p_pival, p_bounds, p_iszero,
                    p_canon, p_clear, p_normscale, p_lead, p_commonmono, evalp)


# ================================================================ booleans
class SB:
    """op: 'le' p<=0, 'lt' p<0, 'eq' p==0, 'ne' p!=0, 'and', 'or'."""
    __slots__ = ("op", "args", "key")
    __array_priority__ = 1000

    def __init__(self, op, args, key):
        self.op = op; self.args = args; self.key = key

    def __bool__(self):
        return T.CTX.path.decide(self)

    def __invert__(self): return b_not(self)
    def __and__(self, o): return _b2(self, o, "and")
    __rand__ = __and__
    def __or__(self, o): return _b2(self, o, "or")
    __ror__ = __or__
    def __xor__(self, o):
        if isinstance(o, _np.ndarray): return NotImplemented
        return b_or([b_and([self, b_not(o)]), b_and([b_not(self), o])])
    __rxor__ = __xor__
    def __eq__(self, o):
        if isinstance(o, _np.ndarray): return NotImplemented
        if isinstance(o, (bool, _np.bool_)): return self if o else b_not(self)
        if isinstance(o, SB): return b_not(self ^ o)
        return ind(self) == o
    def __ne__(self, o):
        if isinstance(o, _np.ndarray): return NotImplemented
        return b_not(self.__eq__(o))
    def __hash__(self): return hash(self.key)
    # arithmetic as 0/1
    def __add__(self, o): return ind(self) + o if not isinstance(o, _np.ndarray) else NotImplemented
    def __radd__(self, o): return o + ind(self)
    def __sub__(self, o): return ind(self) - o if not isinstance(o, _np.ndarray) else NotImplemented
    def __rsub__(self, o): return o - ind(self)
    def __mul__(self, o): return ind(self) * o if not isinstance(o, _np.ndarray) else NotImplemented
    def __rmul__(self, o): return o * ind(self)
    def __truediv__(self, o): return ind(self) / o if not isinstance(o, _np.ndarray) else NotImplemented
    def __neg__(self): return -ind(self)
    def __lt__(self, o): return ind(self) < o
    def __le__(self, o): return ind(self) <= o
    def __gt__(self, o): return ind(self) > o
    def __ge__(self, o): return ind(self) >= o
    def __int__(self): return 1 if bool(self) else 0
    def __float__(self): return 1.0 if bool(self) else 0.0
    def __index__(self): return 1 if bool(self) else 0
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)
    def item(self): return self
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def astype(self, t, **k): return self if t in (bool, _np.bool_) else ind(self)
    ndim = 0
    shape = ()
    size = 1
    dtype = _np.dtype(bool)
    def __repr__(self): return "SB%s" % (self.key,)


def _b2(a, b, op):
    if isinstance(b, _np.ndarray): return NotImplemented
    return (b_and if op == "and" else b_or)([a, b])


def as_bool(x):
    """Python bool or SB."""
    if isinstance(x, SB): return x
    if isinstance(x, (bool, _np.bool_)): return bool(x)
    if isinstance(x, Sym): return x != 0
    if isinstance(x, _np.ndarray):
        if x.size == 1: return as_bool(x.reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
    return bool(x)


def b_not(x):
    x = as_bool(x)
    if isinstance(x, bool): return not x
    if x.op == "le": return _lit("lt", p_neg(x.args))
    if x.op == "lt": return _lit("le", p_neg(x.args))
    if x.op == "eq": return SB("ne", x.args, ("ne", x.key[1]))
    if x.op == "ne": return SB("eq", x.args, ("eq", x.key[1]))
    if x.op == "and": return b_or([b_not(a) for a in x.args])
    return b_and([b_not(a) for a in x.args])


def _lit(op, p):
    return SB(op, p, (op, p_key(p)))


def _bn(xs, op):
    unit = op == "and"
    out = {}
    for x in xs:
        x = as_bool(x)
        if isinstance(x, bool):
            if x != unit: return x
            continue
        if x.op == op:
            for a in x.args: out[a.key] = a
        else: out[x.key] = x
    if not out: return unit
    if len(out) == 1: return next(iter(out.values()))
    for k, a in out.items():
        if b_not(a).key in out: return not unit
    ks = sorted(out, key=repr)
    return SB(op, tuple(out[k] for k in ks), (op, tuple(ks)))


def b_and(xs): return _bn(xs, "and")
def b_or(xs): return _bn(xs, "or")


def cmp(op, p):
    """op in le, lt, eq, ne applied to polynomial p (vs 0): bool or SB."""
    if p_iszero(p): return op in ("le", "eq")
    if p_pionly(p):
        v = p_pival(p)
        return {"le": v <= 0, "lt": v < 0, "eq": v == 0, "ne": v != 0}[op]
    lo, hi = p_bounds(p)
    if lo is not None and lo > 0: return op == "ne"
    if hi is not None and hi < 0: return op != "eq"
    if lo is not None and lo >= 0 and op == "lt": return False
    if hi is not None and hi <= 0 and op == "le": return True
    if len(p) <= 4:
        v = _modr_vs_modulus(p)
        if v is not None:
            return {"le": v <= 0, "lt": v < 0, "eq": False, "ne": True}[op]
    p = p_canon(p)
    # clear denominators of known sign
    if any(e < 0 for m in p for _, e in m):
        d = T.p_dens(p)
        if op in ("eq", "ne"):
            n, _ = p_clear(p)
            p = n
        elif all(T.CTX.atoms[a].pos or e % 2 == 0 for a, e in d.items()):
            n, ds = p_clear(p)
            if all(T.CTX.atoms[a].pos or e % 2 == 0 for a, e in ds): p = n
    if not p: return op in ("le", "eq")
    c, q = p_normscale(p)
    if op in ("eq", "ne"):
        k = p_key(q); t = T.CTX.table
        a = t.get(("SQRT", (k,))) or t.get(("SQRT", (p_key(p_neg(q)),))) or t.get(("DEN", (k,)))
        if a is not None and (a.pos or a.nz): return op == "ne"
    elif c < 0: q = p_neg(q)
    # positive common factors do not matter
    if op in ("le", "lt"):
        cm, q2 = p_commonmono(q)
        if cm and all(T.CTX.atoms[a].pos for a, _ in cm): q = q2
    elif op in ("eq", "ne"):
        cm, q2 = p_commonmono(q)
        if cm and all(T.CTX.atoms[a].pos or T.CTX.atoms[a].nz for a, _ in cm): q = q2
    if p_isconst(q):
        v = p_constval(q)
        return {"le": v <= 0, "lt": v < 0, "eq": v == 0, "ne": v != 0}[op]
    r = _logexp(op, q)
    if r is not None: return r
    return _lit(op, q)


def _nice(v):
    """A float as an exact rational, snapped to a nearby simple one."""
    f = F(v)
    g = f.limit_denominator(10 ** 6)
    return g if g and abs(g - f) <= abs(f) * F(1, 10 ** 13) else f


def _logexp(op, p):
    """Rewrite comparisons between logarithms (or of one exponential with a constant) by monotonicity."""
    k = p.get(ONE, F(0)); A = T.CTX.atoms
    ms = [m for m in p if m]
    if len(ms) > 3 or not ms: return None
    if len(ms) == 1 and len(ms[0]) == 1 and A[ms[0][0][0]].kind == "ABS" and ms[0][0][1] == 1 and op in ("le", "lt"):
        q = dict(A[ms[0][0][0]].args[0]); c = p[ms[0]]; t = p_const(-k / c)
        if c > 0: return b_and([cmp(op, p_sub(q, t)), cmp(op, p_sub(p_neg(q), t))])
        return b_or([cmp(op, p_sub(t, q)), cmp(op, p_sub(t, p_neg(q)))])
    if all(len(m) == 1 and m[0][1] == 1 and A[m[0][0]].kind == "LOG" for m in ms):
        cs = [p[m] for m in ms]
        g = abs(min(cs, key=abs))
        ns = [c / g for c in cs]
        if any(n.denominator != 1 or abs(n) > 4 for n in ns) or abs(k / g) > 100: return None
        l, r = p_const(_nice(math.exp(float(k / g)))), {ONE: F(1)}
        for m, n in zip(ms, ns):
            q = dict(A[m[0][0]].args[0])
            if n > 0: l = p_mul(l, p_pow(q, int(n)))
            else: r = p_mul(r, p_pow(q, int(-n)))
        return cmp(op, p_sub(l, r))
    if len(ms) == 1 and len(ms[0]) == 1 and A[ms[0][0][0]].kind == "EXP":
        a, n = A[ms[0][0][0]], ms[0][0][1]
        c = p[ms[0]]; t = -k / c
        if t <= 0: return {"le": c < 0, "lt": c < 0, "eq": False, "ne": True}[op]
        d = p_sub(p_scale({a.args[0]: a.args[1]}, F(n)), p_const(_nice(math.log(float(t)))))
        return cmp(op, d if c > 0 else p_neg(d))
    return None


def evalb(x, env, tol=0.0):
    """Numeric truth of a bool/SB. tol>0: margin required for strict literals (robust evaluation)."""
    if isinstance(x, bool): return x
    if x.op == "and": return all(evalb(a, env, tol) for a in x.args)
    if x.op == "or": return any(evalb(a, env, tol) for a in x.args)
    v = evalp(x.args, env)
    if x.op == "le": return v <= -tol if tol else v <= 1e-12
    if x.op == "lt": return v < -tol if tol else v < 0
    if x.op == "eq": return abs(v) <= 1e-9
    return abs(v) > max(tol, 1e-9)


def square_lits(b):
    """Equivalent boolean with the square roots of single-monomial inequalities squared away."""
    if isinstance(b, bool): return b
    if b.op == "and": return b_and([square_lits(x) for x in b.args])
    if b.op == "or": return b_or([square_lits(x) for x in b.args])
    if b.op not in ("le", "lt"): return b
    p = b.args
    monos = [m for m in p if m]
    if len(monos) == 2 and len(p) == 2 and all(any(T.CTX.atoms[i].kind == "SQRT" for i, _ in m) and
            all((T.CTX.atoms[i].pos or T.CTX.atoms[i].lo is not None and T.CTX.atoms[i].lo >= 0) and e > 0 for i, e in m) for m in monos):
        x, y = monos
        if p[x] < 0: x, y = y, x
        if p[x] > 0 and p[y] < 0:
            sq = lambda m: p_scale(p_mul({m: F(1)}, {m: F(1)}), p[m] ** 2)
            return cmp(b.op, p_sub(sq(x), sq(y)))
    if len(monos) != 1: return b
    m = monos[0]
    at = [T.CTX.atoms[i] for i, _ in m]
    if not any(a.kind == "SQRT" for a in at) or any(a.lo is None or a.lo < 0 or e < 0 for a, (_, e) in zip(at, m)): return b
    c = p[m]; k = p.get(ONE, F(0))
    m2 = p_mul({m: F(1)}, {m: F(1)}); q = (k / c) ** 2
    if c > 0:
        if k > 0 or (k == 0 and b.op == "lt"): return False
        return cmp(b.op, p_sub(m2, p_const(q)))
    if k < 0 or (k == 0 and b.op == "le"): return True
    return cmp(b.op, p_sub(p_const(q), m2))


def _modr_vs_modulus(p):
    """-1 / 1 when p is c*(r - m) with r the remainder modulo m (r < m always), else None."""
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1:
            at = T.CTX.atoms[m[0][0]]
            if at.kind == "MODR":
                d = p_sub(p, p_scale(p_sub(p_atom(at), at.aux[1]), c))
                if not d: return -1 if c > 0 else 1
    return None


def ind(b):
    b = as_bool(b)
    if isinstance(b, SB) and T.CTX.path is not None:
        known = T.CTX.path.known(b)
        if known is not None: b = known
    if isinstance(b, bool): return const(1 if b else 0)
    nb = b_not(b)
    # canonical polarity
    flip = repr(nb.key) < repr(b.key)
    base = nb if flip else b
    a = T.CTX.atom("IND", (base.key,), lo=F(0), hi=F(1), isint=True,
                   num=lambda env, base=base: 1.0 if evalb(base, env) else 0.0)
    a.aux = base
    s = Sym(p_sub(p_const(1), p_atom(a)), nn=True) if flip else Sym(p_atom(a), nn=True)
    s.isint = True
    return s


def ite(c, x, y):
    """if-then-else on Sym/float/SB/SymC values, without forking when possible."""
    c = as_bool(c)
    if isinstance(c, bool): return x if c else y
    known = T.CTX.path.known(c) if T.CTX.path is not None else None
    if known is not None: return x if known else y
    if isinstance(x, (SB, bool, _np.bool_)) and isinstance(y, (SB, bool, _np.bool_)):
        return b_or([b_and([c, x]), b_and([b_not(c), y])])
    if isinstance(x, SymC) or isinstance(y, SymC) or isinstance(x, complex) or isinstance(y, complex):
        x = to_c(x); y = to_c(y)
        return SymC(ite(c, x.re, y.re), ite(c, x.im, y.im))
    try:
        xs, ys = to_sym(x), to_sym(y)
    except SpecialFloat:
        return x if bool(c) else y
    d = p_sub(xs.p, ys.p)
    if p_iszero(d): return xs
    nb = b_not(c)
    if repr(nb.key) < repr(c.key):
        c, xs, ys = nb, ys, xs
    l1, h1 = sym_bounds(xs); l2, h2 = sym_bounds(ys)
    # under max/min shape the hull can be tightened
    lo = None if (l1 is None or l2 is None) else min(l1, l2)
    hi = None if (h1 is None or h2 is None) else max(h1, h2)
    if c.op in ("le", "lt"):
        cp = c.args
        q1, q2 = xs.p, ys.p
        dd = p_sub(q1, q2)
        if not p_iszero(dd):
            cc, nd = p_normscale(dd); c2, nc = p_normscale(cp)
            if p_key(nd) == p_key(nc):
                # condition is  s*(x-y) <= 0
                if (cc > 0) == (c2 > 0):   # x<=y -> min
                    if h1 is not None and h2 is not None: hi = min(h1, h2)
                    elif h1 is not None: hi = h1
                    elif h2 is not None: hi = h2
                else:
                    if l1 is not None and l2 is not None: lo = max(l1, l2)
                    elif l1 is not None: lo = l1
                    elif l2 is not None: lo = l2
    kx, ky = p_key(xs.p), p_key(ys.p)
    a = T.CTX.atom("ITE", (c.key, kx, ky), lo=lo, hi=hi,
                   num=lambda env, c=c, x=xs.p, y=ys.p: evalp(x, env) if evalb(c, env) else evalp(y, env))
    a.aux = (c, xs.p, ys.p)
    if xs.isint and ys.isint: a.isint = True
    r = Sym(p_atom(a), nn=xs.nn and ys.nn)
    r.isint = xs.isint and ys.isint
    return r


class SpecialFloat(Exception):
    pass


# ================================================================ reals
def const(c, isint=None):
    f = c if isinstance(c, F) else F(c)
    s = Sym(p_const(f), nn=f >= 0)
    s.isint = f.denominator == 1 if isint is None else isint
    return s


def PI():
    return Sym(p_atom(T.CTX.pi), nn=True)


def to_sym(x):
    if isinstance(x, Sym): return x
    if isinstance(x, SB): return ind(x)
    if isinstance(x, (bool, _np.bool_)): return const(int(x))
    if isinstance(x, (int, _np.integer)): return const(int(x))
    if isinstance(x, F): return const(x)
    if isinstance(x, (float, _np.floating)):
        v = float(x)
        if v != v or v in (INF, -INF): raise SpecialFloat(v)
        return const(lift_float(v))
    if isinstance(x, _np.ndarray) and x.size == 1: return to_sym(x.reshape(-1)[0])
    raise TypeError("not a real scalar: %r" % (type(x),))


_FLIFT = {}


def lift_float(v):
    """A concrete float as a real: a short decimal reads as that decimal (0.05 is 1/20), every
    other float as its exact binary value."""
    r = _FLIFT.get(v)
    if r is None:
        s = repr(v)
        r = F(s) if len(s) <= 14 else F(v)
        if len(_FLIFT) < 100000: _FLIFT[v] = r
    return r


def is_special(x):
    return isinstance(x, (float, _np.floating)) and (x != x or x in (INF, -INF))


class Sym:
    __slots__ = ("p", "nn", "isint", "_b", "fac")
    __array_priority__ = 1000

    def __init__(self, p, nn=False):
        self.p = p; self.nn = nn; self.isint = False; self.fac = None

    # --- queries
    @property
    def isconst(self): return p_pionly(self.p)
    @property
    def exact(self):
        """Fraction value if a rational constant else None."""
        return p_constval(self.p) if p_isconst(self.p) else None

    def value(self):
        return p_pival(self.p)

    # --- numpy-scalar look
    ndim = 0
    shape = ()
    size = 1
    nbytes = 8
    @property
    def dtype(self): return _np.dtype(_np.int64) if self.isint else _np.dtype(float)
    @property
    def T(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return const(0)
    def conjugate(self): return self
    conj = conjugate
    def item(self, *a): return self
    def astype(self, t, **k):
        from .npshim import cast_scalar
        return cast_scalar(self, t)
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def tolist(self): return self
    def _asarr(self):
        from .arr import wrap0
        return wrap0(self)
    def reshape(self, *s, **k): return self._asarr().reshape(*s, **k)
    def ravel(self): return self._asarr().reshape(-1)
    flatten = ravel
    def squeeze(self, *a): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def any(self, *a, **k): return self != 0
    def all(self, *a, **k): return self != 0
    def round(self, n=0): return sround(self, n)
    def clip(self, lo=None, hi=None): return sclip(self, lo, hi)
    def is_integer(self):
        e = self.exact
        if e is not None: return e.denominator == 1
        return self == sfloor(self)
    def as_integer_ratio(self):
        e = self.exact
        if e is None: raise Unsupported("as_integer_ratio")
        return e.numerator, e.denominator

    # --- conversions
    def __float__(self):
        if self.isconst: return float(self.value())
        if p_pionly(p_canon(self.p)): return float(p_pival(p_canon(self.p)))
        raise Unsupported("float() of a symbolic value outside the encoding")
    def __int__(self): return concretize_int(strunc(self))
    def __trunc__(self): return int(self)
    def __index__(self):
        e = self.exact
        if e is not None:
            if e.denominator == 1: return int(e)
            raise TypeError("'float' object cannot be interpreted as an integer")
        if self.isint: return concretize_int(self)
        raise TypeError("'float' object cannot be interpreted as an integer")
    def __round__(self, n=None):
        r = sround(self, 0 if n is None else n)
        return concretize_int(r) if n is None else r
    def __floor__(self): return concretize_int(sfloor(self))
    def __ceil__(self): return concretize_int(-sfloor(-self))
    def __bool__(self): return bool(self != 0)
    def __hash__(self):
        if self.isconst:
            e = self.exact
            return hash(e) if e is not None else hash(float(self.value()))
        return hash(p_key(self.p))
    def __complex__(self): return complex(float(self))
    def __format__(self, spec):
        return format(float(self), spec) if self.isconst or p_pionly(p_canon(self.p)) else "<sym>"
    def __repr__(self):
        if self.isconst: return repr(float(self.value()))
        return "Sym(%s)" % show(self.p)
    __str__ = __repr__

    # --- arithmetic
    def _bin(self, o, f, rev=False):
        if isinstance(o, Sym): pass
        elif isinstance(o, _np.ndarray): return NotImplemented
        elif isinstance(o, (complex, _np.complexfloating, SymC)):
            a, b = to_c(self), to_c(o)
            if rev: a, b = b, a
            if f is s_add: return a + b
            if f is s_sub: return a - b
            if f is s_mul: return a * b
            if f is s_div: return a / b
            raise Unsupported("complex operation")
        else:
            try: o = to_sym(o)
            except SpecialFloat as e:
                return f(e.args[0], self) if rev else f(self, e.args[0])
            except TypeError: return NotImplemented
        return f(o, self) if rev else f(self, o)

    def __add__(self, o): return self._bin(o, s_add)
    def __radd__(self, o): return self._bin(o, s_add, True)
    def __sub__(self, o): return self._bin(o, s_sub)
    def __rsub__(self, o): return self._bin(o, s_sub, True)
    def __mul__(self, o): return self._bin(o, s_mul)
    def __rmul__(self, o): return self._bin(o, s_mul, True)
    def __truediv__(self, o): return self._bin(o, s_div)
    def __rtruediv__(self, o): return self._bin(o, s_div, True)
    def __mod__(self, o): return self._bin(o, s_mod)
    def __rmod__(self, o): return self._bin(o, s_mod, True)
    def __floordiv__(self, o): return self._bin(o, s_floordiv)
    def __rfloordiv__(self, o): return self._bin(o, s_floordiv, True)
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self
    def __pow__(self, o, m=None): return self._bin(o, s_pow)
    def __rpow__(self, o): return self._bin(o, s_pow, True)
    def __neg__(self):
        r = Sym(p_neg(self.p)); r.isint = self.isint
        return r
    def __pos__(self): return self
    def __abs__(self): return sabs(self)
    # --- comparison
    def _cmp(self, o, op):
        if isinstance(o, _np.ndarray): return NotImplemented
        if isinstance(o, SymC): return NotImplemented
        if not isinstance(o, Sym):
            if o is None or isinstance(o, str): return NotImplemented
            if isinstance(o, (complex, _np.complexfloating)):
                return NotImplemented
            try: o = to_sym(o)
            except SpecialFloat as e: return cmp_special(op, e.args[0])
            except TypeError: return NotImplemented
        return s_cmp(self, o, op)
    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)

    # methods numpy object loops look for
    def sqrt(self): return ssqrt(self)
    def cos(self): return scos(self)
    def sin(self): return ssin(self)
    def exp(self): return sexp(self)
    def log(self): return slog(self)


def cmp_special(op, v):
    """Sym `op` v for v in {nan, inf, -inf}."""
    if v != v: return op == "ne"
    if v > 0: return op in ("lt", "le", "ne")
    return op in ("gt", "ge", "ne")


def s_cmp(a, b, op):
    if op == "gt": return s_cmp(b, a, "lt")
    if op == "ge": return s_cmp(b, a, "le")
    d = p_sub(a.p, b.p)
    if b.nn is True and a.nn is True: pass
    if op == "lt" and a.nn and not b.p: return False
    if op == "le" and b.nn and not a.p: return True
    if op == "lt" and a.nn and b.isconst and b.value() <= 0: return False
    return cmp(op, d)


def mk(p, nn=False):
    return Sym(p, nn)


def sym_bounds(s):
    lo, hi = p_bounds(s.p)
    if s.nn and (lo is None or lo < 0): lo = F(0)
    return lo, hi


def s_add(a, b):
    if is_special(a) or is_special(b): return _special2("add", a, b)
    r = Sym(p_add(a.p, b.p), a.nn and b.nn); r.isint = a.isint and b.isint
    return r


def s_sub(a, b):
    if is_special(a) or is_special(b): return _special2("sub", a, b)
    r = Sym(p_sub(a.p, b.p)); r.isint = a.isint and b.isint
    return r


def s_mul(a, b):
    if is_special(a) or is_special(b): return _special2("mul", a, b)
    nn = a.nn and b.nn
    if not nn and (a is b or p_iszero(p_sub(a.p, b.p))): nn = True
    r = Sym(p_mul(a.p, b.p), nn); r.isint = a.isint and b.isint
    return r


def _sgn(s):
    """-1, 0, 1 (forks)."""
    if is_special(s): return 1 if s > 0 else -1
    if s == 0: return 0
    return 1 if s > 0 else -1


def _special2(op, a, b):
    av = a if is_special(a) else None
    bv = b if is_special(b) else None
    if (av is not None and av != av) or (bv is not None and bv != bv): return NAN
    if op in ("add", "sub"):
        x = av if av is not None else 0.0
        y = bv if bv is not None else 0.0
        return x + y if op == "add" else x - y
    if op == "mul":
        s = _sgn(a) * _sgn(b)
        return NAN if s == 0 else s * INF
    if op == "div":
        if av is not None and bv is not None: return NAN
        if bv is not None: return const(0)
        s = _sgn(b)
        return av if s >= 0 else -av
    raise Unsupported("special float op " + op)


def nonzero_on_path(s):
    """True if s != 0 on this path (forks if undetermined)."""
    lo, hi = sym_bounds(s)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return True
    c = cmp("eq", s.p)
    if isinstance(c, bool): return not c
    return not bool(c)


def s_div(a, b):
    if is_special(a) or is_special(b): return _special2("div", a, b)
    if b.fac is not None and nonzero_on_path(b.fac[0]):
        for _ in range(b.fac[1]): a = s_div(a, b.fac[0])
        return a
    if p_iszero(b.p) or not nonzero_on_path(b):
        sg = _sgn(a)
        return NAN if sg == 0 else sg * INF
    ip = p_inv(b.p)
    if b.nn:
        for m in ip:
            for at, e in m:
                A = T.CTX.atoms[at]
                if e < 0 and A.kind == "DEN" and len(ip) == 1 and len(m) == 1 and ip[m] > 0: A.pos = True
    lo, hi = p_bounds(b.p)
    return Sym(p_canon(p_mul(a.p, ip)), a.nn and b.nn)


def s_pow(a, b):
    if is_special(a) or is_special(b):
        if is_special(b) and b != b or is_special(a) and a != a: return NAN
        if is_special(a) and not is_special(b):
            sg = _sgn(b)
            if sg == 0: return const(1)
            if sg < 0: return const(0)
            e = b.exact
            if a > 0: return INF
            return -INF if (e is not None and e.denominator == 1 and e % 2) else INF
        raise Unsupported("pow with infinity")
    e = b.exact
    if e is not None:
        if e.denominator == 1:
            n = int(e)
            if n >= 0:
                if n > (64 if len(a.p) > 1 else 1000) and not a.isconst:
                    if a < 0: raise Unsupported("large power of a negative number")
                    return const(0) if a == 0 else sexp(n * slog(a))
                r = Sym(p_pow(a.p, n), a.nn or n % 2 == 0); r.isint = a.isint
                if n >= 2 and len(a.p) > 1: r.fac = (a, n)
                return r
            return const(1) / s_pow(a, const(-n))
        if e.denominator == 2:
            n = int(e * 2)
            rt = ssqrt(a)
            if is_special(rt): return NAN
            return s_pow(rt, const(n))
        ae = a.exact
        if ae is not None:
            v = float(ae) ** float(e) if ae >= 0 else NAN
            return const(F(v)) if v == v else NAN
        # a ** (n/d): exp(e log a), a >= 0
        if a == 0: return const(0) if e > 0 else INF
        if a < 0: return NAN
        return powatom(a, e)
    # symbolic exponent
    if a == 0:
        if b > 0: return const(0)
        return const(1) if b == 0 else INF
    if a < 0: raise Unsupported("negative ** symbolic")
    return sexp(s_mul(b, slog(a)))


FLOATROOTS = []      # not empty: roots of constants are floats, as in the code


def powatom(a, e):
    if FLOATROOTS and a.isconst and a.value() > 0: return const(F(float(a.value()) ** float(e)))
    return sexp(s_mul(const(e), slog(a)))


# ---------------------------------------------------------------- abs, sign, floor, mod
def sign_known(s):
    """1 if s>=0 certainly, -1 if s<=0 certainly, None otherwise (no forking, no solver)."""
    lo, hi = sym_bounds(s)
    if lo is not None and lo >= 0: return 1
    if hi is not None and hi <= 0: return -1
    k = T.CTX.path.known_quick(cmp("le", p_neg(s.p))) if T.CTX.path is not None else None
    if k is True: return 1
    k = T.CTX.path.known_quick(cmp("le", s.p)) if T.CTX.path is not None else None
    if k is True: return -1
    return None


def sabs(s):
    if is_special(s): return abs(s)
    if isinstance(s, SymC): return s.abs()
    s = to_sym(s)
    if s.isconst:
        return s if s.value() >= 0 else -s
    k = sign_known(s)
    if k == 1: return mk(s.p, True)
    if k == -1: return mk(p_neg(s.p), True)
    # common factor
    cm, q = p_commonmono(s.p) if not any(e < 0 for m in s.p for _, e in m) else ((), s.p)
    if len(s.p) == 1:
        (m, c), = s.p.items()
        out = const(abs(c))
        for at, e in m:
            out = out * _abs_atom_pow(at, e)
        return Sym(out.p, True)
    # strip positive monomial factor (including negative powers of positive atoms)
    com = _common_any(s.p)
    if com:
        inv = {tuple((a, -e) for a, e in com): F(1)}
        core = p_mul(s.p, inv)
        out = sabs(Sym(core))
        for at, e in com: out = out * _abs_atom_pow(at, e)
        return Sym(out.p, True)
    c, q = p_normscale(p_canon(s.p))
    if p_isconst(q) or len(q) == 1: return sabs(Sym(p_scale(q, c)))
    lo, hi = p_bounds(q)
    h = None if (lo is None or hi is None) else max(abs(lo), abs(hi))
    a = T.CTX.atom("ABS", (p_key(q),), lo=F(0), hi=h, num=lambda env, q=q: abs(evalp(q, env)))
    return Sym(p_scale(p_atom(a), abs(c)), True)


def _abs_atom_pow(at, e):
    A = T.CTX.atoms[at]
    base = Sym({((at, e),): F(1)})
    if e % 2 == 0 or A.pos or (A.lo is not None and A.lo >= 0): return Sym(base.p, True)
    if A.hi is not None and A.hi <= 0: return Sym(p_neg(base.p), True)
    if A.kind in ("SIN", "COS", "ABS") or True:
        q = p_atom(A)
        if e < 0: return const(1) / _abs_atom_pow(at, -e)
        b = T.CTX.atom("ABS", (p_key(q),), lo=F(0), hi=None if A.hi is None or A.lo is None else max(abs(A.lo), abs(A.hi)),
                       num=lambda env, q=q: abs(evalp(q, env)))
        return Sym(p_pow(p_atom(b), e), True)


def _common_any(p):
    """common monomial (any sign of exponent) over non-reducing atoms."""
    it = iter(p)
    common = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(common):
            e = d.get(a, 0)
            f = common[a]
            if e == 0 or (e > 0) != (f > 0): del common[a]
            elif abs(e) < abs(f): common[a] = e
        if not common: return ()
    common = {a: e for a, e in common.items() if T.CTX.atoms[a].kind not in ("SIN", "SQRT", "ABS", "IND", "SGN", "PI")}
    return tuple(sorted(common.items()))


def ssign(s):
    if is_special(s): return NAN if s != s else const(1 if s > 0 else -1)
    s = to_sym(s)
    if s.isconst:
        v = s.value()
        return const((v > 0) - (v < 0))
    return ite(s > 0, const(1), ite(s < 0, const(-1), const(0)))


def sfloor(s):
    if is_special(s): return s
    s = to_sym(s)
    if s.isconst: return const(math.floor(s.value()))
    if s.isint: return s
    lo, hi = sym_bounds(s)
    fl = None if lo is None else F(math.floor(lo)); fh = None if hi is None else F(math.floor(hi))
    if fl is not None and fl == fh: return const(fl)
    # strip integer constant
    c0 = s.p.get(ONE, F(0)); k0 = math.floor(c0)
    q = p_sub(s.p, p_const(k0))
    a = T.CTX.atom("FLOOR", (p_key(q),), lo=None if fl is None else fl - k0, hi=None if fh is None else fh - k0, isint=True,
                   num=lambda env, q=q: float(math.floor(evalp(q, env))))
    r = Sym(p_add(p_atom(a), p_const(k0))); r.isint = True
    return r


def strunc(s):
    if is_special(s):
        if s != s: raise ValueError("cannot convert float NaN to integer")
        raise OverflowError("cannot convert float infinity to integer")
    s = to_sym(s)
    if s.isint: return s
    if s.isconst:
        return const(int(s.value()))
    k = sign_known(s)
    if k == 1: return sfloor(s)
    if k == -1: return -sfloor(-s)
    return sfloor(s) if bool(s >= 0) else -sfloor(-s)


def sround(s, n=0):
    if is_special(s): return s
    s = to_sym(s); n = int(n)
    sc = F(10) ** n
    if s.isconst:
        v = s.value() * sc
        fl = math.floor(v); fr = v - fl
        if fr > F(1, 2) or (fr == F(1, 2) and fl % 2 == 1): fl += 1
        r = const(F(fl) / sc); r.isint = n <= 0
        return r
    if s.isint and n >= 0: return s
    # sign symmetry: round(-x) = -round(x)
    c, q = p_normscale(p_canon(s.p))
    neg = c < 0
    q = p_neg(s.p) if neg else s.p
    lo, hi = p_bounds(q)
    a = T.CTX.atom("ROUND", (p_key(q), n), lo=None if lo is None else F(math.floor(lo * sc)),
                   hi=None if hi is None else F(math.ceil(hi * sc)), isint=True,
                   num=lambda env, q=q, n=n: float(round(evalp(q, env) * float(sc))))
    r = Sym(p_scale(p_atom(a), -1 / sc if neg else 1 / sc)); r.isint = n <= 0
    return r


def concretize_int(s):
    """Fork over the integer values of s."""
    s = to_sym(s)
    e = s.exact
    if e is not None: return int(e)
    return T.CTX.path.concretize(s)


def _mod_canon(p, m):
    """p modulo m: expand MODR atoms of modulus m with integer coefficients, drop integer multiples of m."""
    mk_ = p_key(m)
    for _ in range(20):
        changed = False
        for mono, c in list(p.items()):
            if len(mono) == 1 and mono[0][1] == 1 and c.denominator == 1:
                at = T.CTX.atoms[mono[0][0]]
                if at.kind == "MODR" and at.args[1] == mk_:
                    p = p_add({k: v for k, v in p.items() if k != mono}, p_scale(dict(at.args[0]), c))
                    changed = True
                    break
        if not changed: break
    # integer atoms times m
    if len(m) == 1:
        (mm, mc), = m.items()
        r = {}
        for mono, c in p.items():
            q = c / mc
            rest = _mono_div(mono, mm)
            if rest is not None and q.denominator == 1 and rest != () and all(T.CTX.atoms[a].isint and e > 0 for a, e in rest):
                continue
            if rest == () :
                k = math.floor(q)
                c = c - k * mc
                if not c: continue
            r[mono] = c
        p = r
    return p


def _mono_div(m, d):
    h = dict(m)
    for a, e in d:
        v = h.get(a, 0)
        if e > 0 and v < e: return None
        if v == e: h.pop(a)
        else: h[a] = v - e
    return tuple(sorted(h.items()))


def s_mod(a, b):
    if is_special(a) or is_special(b):
        if is_special(b) and b == b and not is_special(a):
            # x % inf
            if b > 0: return a if bool(a >= 0) else INF
            return a if bool(a <= 0) else -INF
        return NAN
    if a.isint and b.isint and a.exact is not None and b.exact is not None and b.exact != 0:
        return const(a.exact - b.exact * math.floor(a.exact / b.exact))
    if a.isconst and b.isconst:
        bv = b.value()
        if bv == 0: return NAN
        q = math.floor(a.value() / bv)
        return Sym(p_sub(a.p, p_scale(b.p, F(q))), bv > 0)
    lo, hi = sym_bounds(b)
    sg = 1 if (lo is not None and lo > 0) else -1 if (hi is not None and hi < 0) else None
    if sg is None:
        if not nonzero_on_path(b): return NAN
        sg = 1 if bool(b > 0) else -1
    if sg < 0: return -s_mod(-a, -b)
    p = _mod_canon(a.p, b.p)
    if not p: return const(0)
    d = p_sub(p, b.p)
    lo, hi = p_bounds(p)
    if lo is not None and lo >= 0:
        l2, h2 = p_bounds(d)
        if h2 is not None and h2 < 0: return Sym(p, True)
    f = _mod_fold(p, b.p)
    if f is not None: return f
    isint = a.isint and b.isint
    bl, bh = p_bounds(b.p)
    pos0 = bl is None or bl <= 0
    key = (p_key(p), p_key(b.p))
    kmin = kmax = None
    if b.isconst:
        if lo is not None: kmin = F(math.floor(lo / b.value()))
        if hi is not None: kmax = F(math.floor(hi / b.value()))
    k = T.CTX.atom("MODK", key, lo=kmin, hi=kmax, isint=True,
                   num=lambda env, p=p, m=b.p: float(math.floor(evalp(p, env) / evalp(m, env))))
    r = T.CTX.atom("MODR", key, lo=F(0), hi=bh, isint=isint,
                   num=lambda env, p=p, m=b.p: (lambda x, y: x - y * math.floor(x / y))(evalp(p, env), evalp(m, env)))
    r.aux = (p, b.p, k)
    k.aux = (p, b.p, r)
    s = Sym(p_atom(r), True); s.isint = isint
    return s


def _mod_fold(p, m):
    """p mod m where the path condition bounds p within one period"""
    path = T.CTX.path
    if path is None: return None
    bl, bh = p_bounds(m)
    if bl is None or bh is None or bl <= 0: return None
    lo, hi = path.bounds_of(p)
    if lo is None or hi is None or hi - lo >= bh: return None
    for k in (math.floor(lo / bh), math.floor(lo / bl)):
        if lo >= max(k * bl, k * bh) and hi < min((k + 1) * bl, (k + 1) * bh): return Sym(p_sub(p, p_scale(m, F(k))), True)
    return None


def s_floordiv(a, b):
    if is_special(a) or is_special(b): return NAN
    if b.isconst and not b.p: return NAN
    r = s_mod(a, b)
    if is_special(r): return NAN
    q = s_div(s_sub(a, r), b)
    q = Sym(p_canon(q.p)); q.isint = True
    if q.exact is not None: return const(q.exact)
    # name it as an integer
    return sfloor_exact(q)


def sfloor_exact(q):
    a = T.CTX.atom("INTV", (p_key(q.p),), lo=p_bounds(q.p)[0], hi=p_bounds(q.p)[1], isint=True,
                   num=lambda env, q=q.p: float(round(evalp(q, env))))
    r = Sym(p_atom(a)); r.isint = True
    return r


def sclip(x, lo, hi):
    r = x
    if lo is not None: r = smax(r, lo)
    if hi is not None: r = smin(r, hi)
    return r


def _isnan(x): return isinstance(x, (float, _np.floating)) and x != x


def smax(a, b):
    if _isnan(a) or _isnan(b): return NAN
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)): return b_or([a, b])
    c = a >= b
    r = ite(c, a, b)
    if isinstance(r, Sym) and ((isinstance(a, Sym) and a.nn) or (isinstance(b, Sym) and b.nn) or
                               (not isinstance(b, Sym) and not is_special(b) and not isinstance(b, SB) and b >= 0)):
        r = Sym(r.p, True)
    return r


def smin(a, b):
    if _isnan(a) or _isnan(b): return NAN
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)): return b_and([a, b])
    return ite(a <= b, a, b)


# ---------------------------------------------------------------- square root
def _isq(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def sqrt_const(c):
    """Exact sqrt of a nonnegative Fraction as a Sym."""
    n, d = c.numerator, c.denominator
    rn, rd = _isq(n), _isq(d)
    if rn is not None and rd is not None: return const(F(rn, rd))
    # sqrt(n/d) = sqrt(n*d)/d ; extract small square factors
    N = n * d
    if N > 10 ** 12:
        return Sym(p_scale(p_atom(_sqrt_atom(p_const(c))), F(1)), True)
    sq = 1
    primes = []
    m = N
    f = 2
    while f * f <= m:
        e = 0
        while m % f == 0:
            m //= f; e += 1
        sq *= f ** (e // 2)
        if e % 2: primes.append(f)
        f += 1
    if m > 1: primes.append(m)
    out = const(F(sq, d))
    for q in primes:
        out = out * Sym(p_atom(_sqrt_atom(p_const(q))), True)
    return Sym(out.p, True)


def _sqrt_atom(p):
    lo, hi = p_bounds(p)
    def up(v):
        return F(math.sqrt(float(v))) * F(1000000001, 1000000000) + F(1, 10**12)
    def dn(v):
        return max(F(0), F(math.sqrt(float(v))) * F(999999999, 1000000000))
    a = T.CTX.atom("SQRT", (p_key(p),), lo=dn(lo) if lo is not None and lo > 0 else F(0),
                   hi=None if hi is None else up(max(hi, F(0))),
                   num=lambda env, p=p: math.sqrt(max(0.0, evalp(p, env))))
    if lo is not None and lo > 0: a.pos = True
    return a


def ssqrt(s):
    if is_special(s): return NAN if (s != s or s < 0) else s
    if isinstance(s, SymC): raise Unsupported("complex sqrt")
    s = to_sym(s)
    if s.isconst:
        v = s.value()
        if v < 0: return NAN
        if FLOATROOTS: return const(F(math.sqrt(float(v))))
        if s.exact is not None: return sqrt_const(s.exact)
    if not s.p: return const(0)
    lo, hi = sym_bounds(s)
    if not (s.nn or (lo is not None and lo >= 0)):
        neg = s < 0
        if isinstance(neg, bool):
            if neg: return NAN
        elif bool(neg): return NAN
    p = p_canon(s.p)
    if len(p) == 1:
        (m, c), = p.items()
    com = _common_any(p)
    outer = const(1)
    if com:
        take = []
        for a, e in com:
            h = abs(e) // 2 * 2
            if h: take.append((a, h if e > 0 else -h))
        if take:
            p = p_mul(p, {tuple((a, -e) for a, e in take): F(1)})
            for a, e in take:
                outer = outer * _abs_atom_pow(a, e // 2) if e > 0 else outer / _abs_atom_pow(a, -e // 2)
    # 1/D under the root: sqrt(N/D) = sqrt(N*D)/D for positive D
    d = T.p_dens(p)
    dp = [(a, e) for a, e in d.items() if T.CTX.atoms[a].pos]
    if dp and len(dp) == len(d):
        n, dens = p_clear(p)
        if all(T.CTX.atoms[a].pos for a, e in dens):
            for a, e in dens:
                at = T.CTX.atoms[a]
                if e % 2:
                    n = p_mul(n, dict(at.args[0]) if at.kind == "DEN" else p_atom(at)); e += 1
                outer = outer * Sym({((a, -(e // 2)),): F(1)}, True)
            p = n
    # perfect square?
    rt = _poly_sqrt(p)
    if rt is not None:
        r = outer * sabs(Sym(rt))
        return Sym(r.p, True)
    c, q = p_normscale(p)
    if c < 0: c, q = -c, p_neg(q)
    r = outer * sqrt_const(c) * Sym(p_atom(_sqrt_atom(q)), True)
    r = Sym(r.p, True)
    return r


def _poly_sqrt(p):
    """Square root of p as a polynomial when p is an obvious perfect square (<=3 terms), else None."""
    if any(e < 0 for m in p for _, e in m): return None
    if len(p) == 1:
        (m, c), = p.items()
        if all(e % 2 == 0 for _, e in m):
            n, d = _isq(c.numerator) if c > 0 else None, _isq(c.denominator)
            if n is not None and d is not None: return {tuple((a, e // 2) for a, e in m): F(n, d)}
        # 1 - c^2 handled below
        return None
    if len(p) == 2:
        # a^2 (1 - c^2) -> sin:  p = k*(1 - cos^2)
        ms = sorted(p.items(), key=lambda t: len(t[0]))
        (m0, c0), (m1, c1) = ms
        if m0 == () and len(m1) == 1 and m1[0][1] == 2 and c1 == -c0 and c0 > 0:
            at = T.CTX.atoms[m1[0][0]]
            if at.kind == "COS":
                n, d = _isq(c0.numerator), _isq(c0.denominator)
                if n is not None and d is not None:
                    return {((at.aux.id, 1),): F(n, d)}
        return None
    if len(p) == 3:
        # x^2 + 2xy + y^2
        for m, c in p.items():
            pass
        sq = [(m, c) for m, c in p.items() if all(e % 2 == 0 for _, e in m) and c > 0]
        if len(sq) >= 2:
            for i in range(len(sq)):
                for j in range(i + 1, len(sq)):
                    r = []
                    for m, c in (sq[i], sq[j]):
                        n, d = _isq(c.numerator), _isq(c.denominator)
                        if n is None or d is None: break
                        r.append(({tuple((a, e // 2) for a, e in m): F(n, d)}))
                    if len(r) < 2: continue
                    for sg in (1, -1):
                        t = p_add(r[0], p_scale(r[1], F(sg)))
                        if p_iszero(p_sub(p_mul(t, t), p)): return t
    return _poly_sqrt_any(p)


def _poly_sqrt_any(p):
    """Square root by leading-term extraction (at most 200 terms), checked by squaring."""
    if len(p) > 200: return None
    if max(sum(e for _, e in m) for m in p) % 2: return None
    # a monomial order: weights by atom, generic enough to be compatible with multiplication
    w = {}
    for m in p:
        for a, e in m: w.setdefault(a, 1.0 + 0.61803398875 * ((a * 7919) % 1009) / 1009)
    wt = lambda m: sum(e * w.get(a, 1.0) for a, e in m)
    lead = max(p, key=wt)
    if any(e % 2 for _, e in lead) or p[lead] <= 0: return None
    n, d = _isq(p[lead].numerator), _isq(p[lead].denominator)
    if n is None or d is None: return None
    lm = tuple((a, e // 2) for a, e in lead); lc = F(n, d)
    q = {lm: lc}; ld = dict(lm)
    for _ in range(60):
        r = p_sub(p, p_mul(q, q))
        if p_iszero(r): return q
        t = max(r, key=wt); dm = dict(t)
        for a, e in ld.items():
            dm[a] = dm.get(a, 0) - e
            if dm[a] < 0: return None
            if not dm[a]: del dm[a]
        nm = tuple(sorted(dm.items()))
        if nm in q: return None
        q[nm] = r[t] / (2 * lc)
    return None


# ---------------------------------------------------------------- trigonometry
_Q = {F(0): ((0, 1), (0, 1))}


def _trig_pi(q):
    """(cos, sin) of q*pi as Syms, exact for the usual fractions."""
    q = q - 2 * math.floor(q / 2)
    sg_c = sg_s = 1
    if q >= 1: q -= 1; sg_c = -1; sg_s = -1
    swap = False
    if q > F(1, 2): q = 1 - q; sg_c = -sg_c
    tab = {F(0): (const(1), const(0)), F(1, 2): (const(0), const(1)),
           F(1, 3): (const(F(1, 2)), None), F(1, 6): (None, const(F(1, 2))), F(1, 4): (None, None)}
    if q in tab:
        if q == F(1, 3): c, s = const(F(1, 2)), sqrt_const(F(3, 4))
        elif q == F(1, 6): c, s = sqrt_const(F(3, 4)), const(F(1, 2))
        elif q == F(1, 4): c, s = sqrt_const(F(1, 2)), sqrt_const(F(1, 2))
        else: c, s = tab[q]
    elif q == F(1, 12) or q == F(5, 12):
        a, b = sqrt_const(F(6)) * const(F(1, 4)), sqrt_const(F(2)) * const(F(1, 4))
        c, s = (a + b, a - b) if q == F(1, 12) else (a - b, a + b)
    else:
        # algebraic but unwieldy: numeric pair (about 1e-16 from exact)
        v = float(q) * math.pi
        c, s = const(F(math.cos(v))), const(F(math.sin(v)))
    return (c if sg_c > 0 else -c), (s if sg_s > 0 else -s)


def trig_atoms(mono, scale):
    """COS/SIN atom pair of the angle  scale*mono."""
    ctx = T.CTX
    key = (mono, scale)
    def ang(env, mono=mono, scale=scale):
        return evalp({mono: scale}, env)
    c = ctx.atom("COS", key, lo=F(-1), hi=F(1), num=lambda env: math.cos(ang(env)))
    s = ctx.atom("SIN", key, lo=F(-1), hi=F(1), num=lambda env: math.sin(ang(env)))
    c.aux = s; s.aux = c
    fam = ctx.trig.setdefault(mono, [])
    if scale not in fam:
        fam.append(scale)
        lo, hi = p_bounds({mono: scale})
        if lo is not None and hi is not None and -50 < lo and hi < 50:
            lo, hi = float(lo) - 1e-12, float(hi) + 1e-12
            for at, f, ph in ((c, math.cos, 0.0), (s, math.sin, math.pi / 2)):
                has = lambda o: math.floor((hi - ph - o) / (2 * math.pi)) >= math.ceil((lo - ph - o) / (2 * math.pi))
                v = (f(lo), f(hi))
                at.lo = max(at.lo, F(-1) if has(math.pi) else F(min(v)) - F(1, 10 ** 12))
                at.hi = min(at.hi, F(1) if has(0.0) else F(max(v)) + F(1, 10 ** 12))
                if at.lo > 0: at.pos = True
    return c, s


def _cheb(c, s, n):
    """(cos n t, sin n t) from (cos t, sin t) polys."""
    neg = n < 0
    n = abs(n)
    C, S = p_const(1), {}
    bc, bs = c, s
    while n:
        if n & 1: C, S = p_sub(p_mul(C, bc), p_mul(S, bs)), p_add(p_mul(S, bc), p_mul(C, bs))
        n >>= 1
        if n: bc, bs = p_sub(p_mul(bc, bc), p_mul(bs, bs)), p_scale(p_mul(bs, bc), F(2))
    return C, (p_neg(S) if neg else S)


def _angle_base(mono, coef):
    """Polys (cos, sin) of coef*mono."""
    ctx = T.CTX
    if len(mono) == 1 and mono[0][1] == 1:
        at = ctx.atoms[mono[0][0]]
        if coef.denominator == 1 and abs(coef) <= 24:
            if at.kind == "ATAN2": return _cheb(at.aux[0], at.aux[1], int(coef))
            if at.kind in ("ACOS", "ASIN", "ATAN"): return _cheb(at.aux[0], at.aux[1], int(coef))
            if at.kind == "MODR":
                x, m, k = at.aux
                c, s = cos_sin(p_scale(p_sub(x, p_mul(m, p_atom(k))), coef))
                return c.p, s.p
        if at.kind == "ITE":
            cnd, x, y = at.aux
            cx, sx = cos_sin(p_scale(x, coef)); cy, sy = cos_sin(p_scale(y, coef))
            return ite(cnd, cx, cy).p, ite(cnd, sx, sy).p
        if at.kind == "ABS":
            x = dict(at.args[0])
            cx, sx = cos_sin(p_scale(x, coef))
            s_ = ite(cmp("le", p_neg(x)), sx, -sx)
            return cx.p, s_.p
        if at.kind == "MODR":
            x, m, k = at.aux
            fam = None
    fam = ctx.trig.get(mono)
    if fam:
        for sc in sorted(fam):
            q = coef / sc
            if q.denominator == 1 and abs(q) <= 48:
                c, s = trig_atoms(mono, sc)
                return _cheb(p_atom(c), p_atom(s), int(q))
    if coef.denominator == 1 and abs(coef) <= 24: sc, n = F(1), int(coef)
    elif coef.denominator <= 48 and abs(coef.numerator) <= 48: sc, n = F(1, coef.denominator), coef.numerator
    else: sc, n = abs(coef), (1 if coef > 0 else -1)
    c, s = trig_atoms(mono, sc)
    return _cheb(p_atom(c), p_atom(s), n)


def _drop_turns(p):
    """remainders whose modulus is a whole number of turns here stand for the value they reduce"""
    pm = ((T.CTX.pi.id, 1),)
    for _ in range(20):
        for m, c in p.items():
            at = next((T.CTX.atoms[i] for i, e in m if e == 1 and T.CTX.atoms[i].kind == "MODR"), None)
            if at is None or m == ((at.id, 1),): continue
            f = {tuple(x for x in m if x[0] != at.id): c}
            w = p_mul(f, at.aux[1])
            if set(w) == {pm} and (w[pm] / 2).denominator == 1:
                p = p_canon(p_add(p_sub(p, {m: c}), p_mul(f, at.aux[0])))
                break
        else: return p
    return p


def cos_sin(p):
    ctx = T.CTX
    pid = ctx.pi.id
    p = _drop_turns(p_canon(p))
    C, S = p_const(1), {}
    def comb(c, s):
        nonlocal C, S
        C, S = p_sub(p_mul(C, c), p_mul(S, s)), p_add(p_mul(S, c), p_mul(C, s))
    for m, c in sorted(p.items()):
        if m == ONE:
            v = float(c)
            comb(p_const(F(math.cos(v))), p_const(F(math.sin(v))))
            continue
        d = dict(m)
        e = d.get(pid, 0)
        if e == 1:
            rest = [(a, x) for a, x in m if a != pid]
            if not rest:
                cc, ss = _trig_pi(c)
                comb(cc.p, ss.p); continue
            if all(ctx.atoms[a].isint and x > 0 for a, x in rest) and c.denominator == 1:
                if c % 2 == 0: continue
                key = tuple(rest)
                sg = ctx.atom("SGN", (key,), lo=F(-1), hi=F(1),
                              num=lambda env, key=key: (-1.0) ** round(evalp({key: F(1)}, env)))
                C = p_mul(C, p_atom(sg)); S = p_mul(S, p_atom(sg)); continue
        cc, ss = _angle_base(m, c)
        comb(cc, ss)
    return Sym(C), Sym(S)


def _plain(p):
    """with float_roots, powers of pi other than pi itself are floats"""
    if not FLOATROOTS: return p
    pi = T.CTX.pi.id; odd = {m: c for m, c in p.items() if m and len(m) == 1 and m[0][0] == pi and m[0][1] != 1}
    if not odd: return p
    return p_add({m: c for m, c in p.items() if m not in odd}, p_const(F(float(p_pival(odd)))))


def scos(s):
    if is_special(s): return NAN
    if isinstance(s, (SymC,)): raise Unsupported("complex cos")
    return cos_sin(_plain(to_sym(s).p))[0]


def ssin(s):
    if is_special(s): return NAN
    return cos_sin(_plain(to_sym(s).p))[1]


def stan(s):
    if is_special(s): return NAN
    c, si = cos_sin(to_sym(s).p)
    return si / c


def shypot(x, y):
    if is_special(x) or is_special(y): return NAN if (x != x or y != y) else INF
    x, y = to_sym(x), to_sym(y)
    return ssqrt(Sym(p_add(p_mul(x.p, x.p), p_mul(y.p, y.p)), True))


def _linear_angle(xp, yp):
    """L when (xp, yp) = (cos L, sin L) for a combination L of the angles occurring in them (up to a quarter turn)."""
    if len(xp) > 8 or len(yp) > 8: return None
    deg = {}
    for q in (xp, yp):
        for m, c in q.items():
            if abs(c) != 1: return None
            d = {}
            for a, e in m:
                at = T.CTX.atoms[a]
                if at.kind not in ("COS", "SIN") or e < 0: return None
                d[at.args] = d.get(at.args, 0) + e
            for k, e in d.items(): deg[k] = max(deg.get(k, 0), e)
    if not 1 <= len(deg) <= 4 or sum(deg.values()) > 4: return None
    ks = list(deg)
    if len({k[0] for k in ks}) != len(ks): return None
    for sg in itertools.product((1, -1), repeat=len(ks)):
        L = {}
        for s, (mono, sc) in zip(sg, ks): L = p_add(L, {mono: sc * s * deg[(mono, sc)]})
        c, s_ = cos_sin(L)
        C, S = p_canon(c.p), p_canon(s_.p)
        for q in range(4):
            if C == xp and S == yp: return Sym(L) + PI() * const(F(q, 2)) if q else Sym(L)
            C, S = p_neg(S), C
    return None


def _principal(L):
    """the value in (-pi, pi] congruent to L"""
    lo, hi = p_bounds(L.p)
    if lo is not None and hi is not None and lo > -PI_F and hi < PI_F: return L
    pi = PI()
    r = s_mod(s_sub(pi, L), pi * const(2))
    return s_sub(pi, r) if not is_special(r) else NAN


def satan2(y, x):
    if _isnan(y) or _isnan(x): return NAN
    if is_special(y) or is_special(x): raise Unsupported("arctan2 of infinity")
    y, x = to_sym(y), to_sym(x)
    if y.isconst and x.isconst:
        yv, xv = y.value(), x.value()
        pi = PI()
        if yv == 0: return const(0) if xv >= 0 else pi
        if xv == 0: return pi / 2 if yv > 0 else -(pi / 2)
        if yv == xv or yv == -xv:
            r = pi / 4 if xv > 0 else pi * const(F(3, 4))
            return r if yv > 0 else -r
        return const(F(math.atan2(float(yv), float(xv))))
    # exact angle recognition: (x, y) = r (cos L, sin L) is not attempted
    r2 = Sym(p_add(p_mul(x.p, x.p), p_mul(y.p, y.p)), True)
    if not nonzero_on_path(r2): return const(0)
    # scale-normalise by a positive common factor
    xp, yp = p_canon(x.p), p_canon(y.p)
    both = dict(xp)
    dens = {}
    for q in (xp, yp):
        for a, e in T.p_dens(q).items(): dens[a] = max(dens.get(a, 0), e)
    if dens and all(T.CTX.atoms[a].pos for a in dens):
        f = {ONE: F(1)}
        for a, e in dens.items():
            at = T.CTX.atoms[a]
            f = p_mul(f, p_pow(dict(at.args[0]), e) if at.kind == "DEN" else {((a, e),): F(1)})
        # multiply monomial-wise so D^-k * D^k cancels
        xp, yp = _mul_clear(xp, dens), _mul_clear(yp, dens)
    coef = None
    for q in (xp, yp):
        if q:
            coef = abs(q[p_lead(q)]); break
    if coef and coef != 1: xp, yp = p_scale(xp, 1 / coef), p_scale(yp, 1 / coef)
    com = _common_pair(xp, yp)
    if com:
        inv = {tuple((a, -e) for a, e in com): F(1)}
        xp, yp = p_mul(xp, inv), p_mul(yp, inv)
    if not xp and p_isconst(yp): return satan2(Sym(yp), Sym(xp))
    if p_isconst(xp) and p_isconst(yp): return satan2(Sym(yp), Sym(xp))
    L = _linear_angle(xp, yp)
    if L is not None: return _principal(L)
    R2 = p_add(p_mul(xp, xp), p_mul(yp, yp))
    R = ssqrt(Sym(R2, True))
    iR = p_inv(R.p)
    a = T.CTX.atom("ATAN2", (p_key(yp), p_key(xp)), lo=-PI_F, hi=PI_F,
                   num=lambda env, x=xp, y=yp: math.atan2(evalp(y, env), evalp(x, env)))
    if a.aux is None:
        a.aux = (p_mul(xp, iR), p_mul(yp, iR), xp, yp)
        for s in T.p_dens(iR):
            A = T.CTX.atoms[s]
            if A.kind in ("DEN", "SQRT"): A.pos = True
        yl, yh = p_bounds(yp); xl, xh = p_bounds(xp)
        if yl is not None and yl >= 0: a.lo = F(0)
        if yh is not None and yh < 0: a.hi = F(0)
        if xl is not None and xl >= 0: a.lo = max(a.lo, -PI_F / 2); a.hi = min(a.hi, PI_F / 2)
    return Sym(p_atom(a), bool(a.lo >= 0))


def _mul_clear(p, dens):
    n = {}
    f = {ONE: F(1)}
    r = {}
    for m, c in p.items():
        h = dict(m)
        t = {tuple((a, e) for a, e in m if a not in dens): F(1)}
        for a, e in dens.items():
            ex = e + h.get(a, 0)
            if ex:
                at = T.CTX.atoms[a]
                t = p_mul(t, p_pow(dict(at.args[0]), ex) if at.kind == "DEN" else {((a, ex),): F(1)})
        r = p_add(r, p_scale(t, c))
    return r


def _common_pair(x, y):
    if not x and not y: return ()
    ms = list(x) + list(y)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            e = d.get(a, 0)
            if e == 0 or (e > 0) != (common[a] > 0): del common[a]
            elif abs(e) < abs(common[a]): common[a] = e
        if not common: return ()
    return tuple(sorted((a, e) for a, e in common.items()
                        if T.CTX.atoms[a].pos and T.CTX.atoms[a].kind not in ("SIN", "ABS", "IND", "SGN", "SQRT")))


def sacos(s):
    if is_special(s): return NAN
    s = to_sym(s)
    if s.isconst:
        v = s.value()
        if v > 1 or v < -1: return NAN
        tab = {F(1): F(0), F(-1): F(1), F(0): F(1, 2), F(1, 2): F(1, 3), F(-1, 2): F(2, 3)}
        if v in tab: return PI() * const(tab[v])
        return const(F(math.acos(float(v))))
    if not bool(b_and([s <= 1, s >= -1])): return NAN
    a = T.CTX.atom("ACOS", (p_key(p_canon(s.p)),), lo=F(0), hi=PI_F,
                   num=lambda env, p=s.p: math.acos(min(1.0, max(-1.0, evalp(p, env)))))
    if a.aux is None:
        sn = ssqrt(Sym(p_sub(p_const(1), p_mul(s.p, s.p)), True))
        a.aux = (s.p, sn.p)
    return Sym(p_atom(a), True)


def sasin(s):
    if is_special(s): return NAN
    s = to_sym(s)
    if s.isconst:
        v = s.value()
        if v > 1 or v < -1: return NAN
        tab = {F(0): F(0), F(1): F(1, 2), F(-1): F(-1, 2), F(1, 2): F(1, 6), F(-1, 2): F(-1, 6)}
        if v in tab: return PI() * const(tab[v])
        return const(F(math.asin(float(v))))
    if not bool(b_and([s <= 1, s >= -1])): return NAN
    lo, hi = sym_bounds(s)
    a = T.CTX.atom("ASIN", (p_key(p_canon(s.p)),), lo=F(0) if lo is not None and lo >= 0 else -PI_F / 2, hi=PI_F / 2,
                   num=lambda env, p=s.p: math.asin(min(1.0, max(-1.0, evalp(p, env)))))
    if a.aux is None:
        cn = ssqrt(Sym(p_sub(p_const(1), p_mul(s.p, s.p)), True))
        a.aux = (cn.p, s.p)
    return Sym(p_atom(a), bool(a.lo >= 0))


def satan(s):
    if is_special(s): return NAN if s != s else (PI() / 2 if s > 0 else -PI() / 2)
    return satan2(s, const(1))


# ---------------------------------------------------------------- exp / log
def sexp(s):
    if is_special(s): return NAN if s != s else (INF if s > 0 else const(0))
    if isinstance(s, SymC): return s.exp()
    s = to_sym(s)
    p = p_canon(s.p)
    out = {ONE: F(1)}
    if p_pionly(p):
        if not p: return const(1)
        v = float(p_pival(p))
        return const(F(math.exp(v))) if v < 700 else INF
    for m, c in sorted(p.items()):
        if m == ONE or (len(m) == 1 and m[0][0] == T.CTX.pi.id):
            out = p_scale(out, F(math.exp(float(p_pival({m: c}))))); continue
        # exp(c * log x) = x^c for integer c
        if len(m) == 1 and m[0][1] == 1:
            at = T.CTX.atoms[m[0][0]]
            if at.kind == "LOG" and (2 * c).denominator == 1 and abs(c) <= 12:
                base = Sym(dict(at.args[0]), True)
                n2 = int(2 * c)
                b = base if n2 % 2 == 0 else ssqrt(base)
                n = n2 // 2 if n2 % 2 == 0 else n2
                pw = p_pow(b.p, n) if n >= 0 else p_pow(p_inv(b.p), -n)
                out = p_mul(out, pw); continue
        if c.denominator == 1 and abs(c) <= 24: sc, n = F(1), int(c)
        elif c.denominator <= 48 and abs(c.numerator) <= 48: sc, n = F(1, c.denominator), c.numerator
        else:
            # an inconvenient coefficient (a float): share atoms between its small multiples
            for b in T.CTX.expbase.setdefault(m, []):
                r = c / b
                if r.denominator == 1 and abs(r) <= 24: sc, n = b, int(r); break
            else:
                sc, n = abs(c) / 2, (2 if c > 0 else -2); T.CTX.expbase[m].append(sc)
        lo, hi = p_bounds({m: sc})
        def ex(v, up):
            if v is None: return None
            if v > 600: return None
            return F(math.exp(float(v))) * (F(1000000001, 1000000000) if up else F(999999999, 1000000000))
        a = T.CTX.atom("EXP", (m, sc), lo=ex(lo, False) if lo is not None else F(0), hi=ex(hi, True),
                       num=lambda env, m=m, sc=sc: math.exp(min(700.0, evalp({m: sc}, env))))
        a.pos = True
        if a.lo is None: a.lo = F(0)
        out = p_mul(out, {((a.id, n),): F(1)})
    return Sym(out, True)


def slog(s):
    if is_special(s): return NAN if (s != s or s < 0) else s
    s = to_sym(s)
    if s.isconst:
        v = s.value()
        if v < 0: return NAN
        if v == 0: return -INF
        if v == 1: return const(0)
        if p_pionly(s.p) and len(s.p) == 1 and not p_isconst(s.p):
            # log(c*pi^k) -> log c + k log pi  (numeric)
            pass
        return const(F(math.log(float(v)))) if not _big(v) else const(F(math.log(v.numerator) - math.log(v.denominator)))
    if s == 0: return -INF
    if not s.nn:
        if s < 0: return NAN
    p = p_canon(s.p)
    out = const(0)
    com = _common_any(p)
    if len(p) == 1:
        (m, c), = p.items()
        com = m
    keep = []
    for a, e in com:
        A = T.CTX.atoms[a]
        if A.pos or (A.lo is not None and A.lo >= 0 and A.kind in ("SQRT", "ABS")): keep.append((a, e))
    if keep:
        core = p_mul(p, {tuple((a, -e) for a, e in keep): F(1)}) if len(p) > 1 else \
            {tuple(x for x in m if x not in keep): c}
        for a, e in keep:
            A = T.CTX.atoms[a]
            if A.kind == "EXP": out = out + Sym(p_scale({A.args[0]: A.args[1]}, F(e)))
            elif A.kind == "SQRT": out = out + slog(Sym(dict(A.args[0]), True)) * const(F(e, 2))
            elif A.kind == "DEN": out = out + slog(Sym(dict(A.args[0]), True)) * const(e)
            elif A.kind == "PI": out = out + const(F(e) * F(math.log(math.pi)))
            else: out = out + const(e) * Sym(p_atom(_log_atom(p_atom(A))))
        p = core
    c, q = p_normscale(p)
    if c < 0: c, q = -c, p_neg(q)
    if c != 1: out = out + slog(const(c))
    if p_isconst(q):
        return out
    return out + Sym(p_atom(_log_atom(q)))


def _big(v):
    return v.numerator.bit_length() > 900 or v.denominator.bit_length() > 900


def _log_atom(q):
    lo, hi = p_bounds(q)
    f = lambda v, d: F(math.log(float(v))) + d if v is not None and v > 0 else None
    return T.CTX.atom("LOG", (p_key(q),), lo=f(lo, -F(1, 10**9)), hi=f(hi, F(1, 10**9)),
                      num=lambda env, q=q: math.log(max(1e-300, evalp(q, env))))


def scosh(s):
    e = sexp(s); return (e + 1 / e) / 2
def ssinh(s):
    e = sexp(s); return (e - 1 / e) / 2
def stanh(s):
    e = sexp(s * 2); return (e - 1) / (e + 1)


# ---------------------------------------------------------------- uninterpreted functions
def uf(name, args, num, lo=None, hi=None, pos=False, axioms=None, isint=False):
    """Uninterpreted application; num(*floats) evaluates it; axioms(ctx_atom, arg_polys) -> [SB]."""
    ps = []
    for a in args:
        if is_special(a): raise Unsupported("%s of a special float" % name)
        ps.append(p_canon(to_sym(a).p))
    if all(p_pionly(p) for p in ps):
        v = float(num(*[float(p_pival(p)) for p in ps]))
        if v != v or v in (INF, -INF): return v
        return const(F(v))
    a = T.CTX.atom("UF", (name,) + tuple(p_key(p) for p in ps), lo=None if lo is None else F(lo), hi=None if hi is None else F(hi),
                   isint=isint, num=lambda env, ps=ps: float(num(*[evalp(p, env) for p in ps])), name=None)
    if pos: a.pos = True
    if a.aux is None:
        a.aux = (name, ps, axioms)
    return Sym(p_atom(a), lo is not None and lo >= 0)


# ================================================================ complex
def to_c(x):
    if isinstance(x, SymC): return x
    if isinstance(x, (complex, _np.complexfloating)):
        return SymC(_num(x.real), _num(x.imag))
    return SymC(x if is_special(x) else to_sym(x), const(0))


def _num(v):
    v = float(v)
    return v if is_special(v) else const(lift_float(v))


class SymC:
    __slots__ = ("re", "im")
    __array_priority__ = 1001
    ndim = 0; shape = (); size = 1
    dtype = _np.dtype(complex)

    def __init__(self, re, im):
        self.re = re if (isinstance(re, Sym) or is_special(re)) else to_sym(re)
        self.im = im if (isinstance(im, Sym) or is_special(im)) else to_sym(im)

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)
    def conjugate(self): return SymC(self.re, -self.im)
    conj = conjugate
    def item(self): return self
    def _c(self, o):
        if isinstance(o, _np.ndarray): return None
        try: return to_c(o)
        except TypeError: return None
    def __add__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else SymC(self.re + o.re, self.im + o.im)
    __radd__ = __add__
    def __sub__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else SymC(self.re - o.re, self.im - o.im)
    def __rsub__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else SymC(o.re - self.re, o.im - self.im)
    def __mul__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else SymC(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = self._c(o)
        if o is None: return NotImplemented
        d = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        return SymC(n.re / d, n.im / d)
    def __rtruediv__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else o / self
    def __neg__(self): return SymC(-self.re, -self.im)
    def __pos__(self): return self
    def __pow__(self, n):
        if isinstance(n, Sym):
            n = n.exact
            if n is None or n.denominator != 1: raise Unsupported("complex power")
            n = int(n)
        if not isinstance(n, (int, _np.integer)):
            if float(n) != int(n): raise Unsupported("complex power")
            n = int(n)
        if n < 0: return 1 / (self ** (-n))
        r = SymC(const(1), const(0))
        for _ in range(n): r = r * self
        return r
    def abs(self): return shypot(self.re, self.im)
    def __abs__(self): return self.abs()
    def angle(self): return satan2(self.im, self.re)
    def exp(self):
        c, s = cos_sin(self.im.p)
        e = sexp(self.re)
        return SymC(e * c, e * s)
    def __eq__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else b_and([self.re == o.re, self.im == o.im])
    def __ne__(self, o): return b_not(self.__eq__(o))
    def __hash__(self): return hash((self.re, self.im))
    def __complex__(self): return complex(float(self.re), float(self.im))
    def __bool__(self): return bool(self != 0)
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)
    def __repr__(self): return "SymC(%r,%r)" % (self.re, self.im)


def show(p, depth=2):
    out = []
    for m, c in list(p.items())[:8]:
        t = str(c) if abs(c.denominator) < 10**6 else repr(float(c))
        for a, e in m:
            at = T.CTX.atoms[a]
            t += "*%s%s" % (showatom(at, depth), "" if e == 1 else "^%d" % e)
        out.append(t)
    if len(p) > 8: out.append("...(%d terms)" % len(p))
    return " + ".join(out) or "0"


def showatom(at, depth=2):
    if at.name: return at.name
    if at.kind in ("COS", "SIN"):
        return "%s(%s)" % (at.kind.lower(), show({at.args[0]: at.args[1]}, depth - 1) if depth else "..")
    if at.kind in ("SQRT", "ABS", "DEN", "LOG", "FLOOR") and depth:
        return "%s[%s]" % (at.kind, show(dict(at.args[0]), depth - 1))
    if at.kind == "UF": return at.args[0] + "#%d" % at.id
    return "%s#%d" % (at.kind, at.id)


def showb(b):
    if isinstance(b, bool): return str(b)
    if b.op in ("and", "or"): return "(" + (" %s " % b.op).join(showb(x) for x in b.args) + ")"
    return "%s %s 0" % (show(b.args), {"le": "<=", "lt": "<", "eq": "==", "ne": "!="}[b.op])
