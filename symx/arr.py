"""Object arrays of symbolic values that look like float/bool/complex numpy arrays."""
from __future__ import annotations
import math, itertools, operator
from fractions import Fraction as F
import numpy as np
from . import terms as T
from .terms import Unsupported, NAN, INF
from . import values as V
from .values import Sym, SymC, SB, const, to_sym, is_special, as_bool, b_and, b_or, b_not, ite

SYMT = (Sym, SymC, SB)


def is_sym(x):
    """Does x (deeply) contain symbolic values?"""
    if isinstance(x, SYMT): return True
    if isinstance(x, SArr): return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, SYMT) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(is_sym(v) for v in x)
    return False


def lift(v):
    """Scalar float -> exact Sym (nan/inf stay floats)."""
    if isinstance(v, (float, np.floating)):
        v = float(v)
        return v if (v != v or v in (INF, -INF)) else to_sym(v)
    if isinstance(v, (complex, np.complexfloating)): return V.to_c(v)
    if isinstance(v, np.bool_): return bool(v)
    if isinstance(v, np.integer): return int(v)
    return v


def to_obj(x):
    """Anything array-like -> plain object ndarray."""
    if isinstance(x, SArr): return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype == object: return x
        o = np.empty(x.shape, dtype=object)
        of = o.reshape(-1) if o.size else o
        if o.size:
            f = x.reshape(-1)
            for i in range(f.size): of[i] = lift(f[i])
            o = of.reshape(x.shape)
        return o
    if hasattr(x, "__array__") and not isinstance(x, SYMT + (np.generic,)) and hasattr(x, "to_numpy"):
        return to_obj(x.to_numpy())
    if isinstance(x, (list, tuple)) or isinstance(x, range):
        parts = [to_obj(v) for v in x]
        if not parts: return np.empty((0,), dtype=object)
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        o = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts): o[i] = p if sh else p[()]
        return o
    o = np.empty((), dtype=object)
    o[()] = lift(x)
    return o


def wrap0(v):
    o = np.empty((), dtype=object); o[()] = v
    return o.view(SArr)


def out(o):
    """Object ndarray -> scalar, bool ndarray or SArr."""
    if not isinstance(o, np.ndarray): return o
    if o.ndim == 0: return o[()]
    if o.dtype == object:
        if o.size and all(type(v) is bool for v in o.flat): return o.astype(bool)
        return o.view(SArr)
    return o


def emap(f, *args):
    objs = [to_obj(a) for a in args]
    if all(o.ndim == 0 for o in objs):
        return f(*[o[()] for o in objs])
    bs = np.broadcast_arrays(*objs) if len(objs) > 1 else objs
    r = np.empty(bs[0].shape, dtype=object)
    if r.size == 0: return r.view(SArr)
    for idx in np.ndindex(bs[0].shape):
        r[idx] = f(*[b[idx] for b in bs])
    return out(r)


# ---------------------------------------------------------------- scalar kernels
def _l(x):
    return lift(x)


def k_add(a, b):
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)): return b_or([a, b])
    return num(a) + num(b)


def num(a):
    if isinstance(a, SB): return V.ind(a)
    if isinstance(a, bool): return int(a)
    return a


def k_sub(a, b): return num(a) - num(b)
def k_mul(a, b):
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)): return b_and([a, b])
    return num(a) * num(b)


def k_div(a, b):
    a, b = num(a), num(b)
    if isinstance(a, SymC) or isinstance(b, SymC): return V.to_c(a) / V.to_c(b)
    if is_special(a) and is_special(b): return NAN
    if is_special(a) or is_special(b):
        return V._special2("div", a if is_special(a) else to_sym(a), b if is_special(b) else to_sym(b))
    return to_sym(a) / to_sym(b)


def _pyfloor(a, b, f):
    a, b = num(a), num(b)
    if isinstance(a, int) and isinstance(b, int):
        if b == 0: return 0
        return f(a, b)
    a = a if is_special(a) else to_sym(a); b = b if is_special(b) else to_sym(b)
    return None, a, b


def k_mod(a, b):
    r = _pyfloor(a, b, operator.mod)
    if not isinstance(r, tuple): return r
    return V.s_mod(r[1], r[2])


def k_floordiv(a, b):
    r = _pyfloor(a, b, operator.floordiv)
    if not isinstance(r, tuple): return r
    return V.s_floordiv(r[1], r[2])


def k_pow(a, b):
    a, b = num(a), num(b)
    if isinstance(a, SymC): return a ** b
    if isinstance(a, int) and isinstance(b, int) and b >= 0: return a ** b
    return V.s_pow(a if is_special(a) else to_sym(a), b if is_special(b) else to_sym(b))


def _c(op):
    def f(a, b):
        a, b = num(a), num(b)
        if isinstance(a, SymC) or isinstance(b, SymC):
            if op == "eq": return V.to_c(a) == V.to_c(b)
            if op == "ne": return b_not(V.to_c(a) == V.to_c(b))
            raise Unsupported("complex comparison")
        if not isinstance(a, (Sym, int, float)) or not isinstance(b, (Sym, int, float)):
            return {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}[op](a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if is_special(a): return V.cmp_special({"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(op, op), a)
            if is_special(b): return V.cmp_special(op, b)
            return V.s_cmp(to_sym(a), to_sym(b), op)
        return bool({"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}[op](a, b))
    return f


def k_abs(a):
    a = num(a)
    if isinstance(a, SymC): return a.abs()
    if is_special(a): return abs(a)
    if isinstance(a, int): return abs(a)
    return V.sabs(a)


def k_isnan(a):
    if isinstance(a, SymC): return k_isnan(a.re) or k_isnan(a.im)
    return isinstance(a, float) and a != a
def k_isinf(a): return isinstance(a, float) and a in (INF, -INF)
def k_isfinite(a):
    if isinstance(a, SymC): return k_isfinite(a.re) and k_isfinite(a.im)
    return not is_special(a)


def k_round(a, n=0):
    a = num(a)
    if is_special(a): return a
    if isinstance(a, int) and n >= 0: return a
    return V.sround(to_sym(a), n)


def k_sign(a): return V.ssign(num(a))
def k_floor(a): return V.sfloor(num(a))
def k_ceil(a):
    a = num(a)
    return a if is_special(a) else -V.sfloor(-to_sym(a))
def k_trunc(a): return V.strunc(num(a))


def k_exp(a):
    return a.exp() if isinstance(a, SymC) else V.sexp(num(a))


def k_log1p(a): return V.slog(k_add(1, a)) if not is_special(a) else a
def k_expm1(a): return k_exp(a) - 1


def k_logaddexp(a, b):
    if is_special(a) or is_special(b):
        if a != a or b != b: return NAN
        if a == -INF: return b
        if b == -INF: return a
        return INF
    return V.slog(V.sexp(to_sym(a)) + V.sexp(to_sym(b)))


def k_max(a, b): return V.smax(_ms(a), _ms(b))
def k_min(a, b): return V.smin(_ms(a), _ms(b))


def _ms(a):
    if isinstance(a, (bool, SB)): return a
    if is_special(a): return a
    return to_sym(a) if not isinstance(a, Sym) else a


def _maxsp(a, b):
    if is_special(a) or is_special(b):
        if a != a or b != b: return NAN
        if is_special(a): return a if a > 0 else b
        return b if b > 0 else a
    return k_max(a, b)


def _minsp(a, b):
    if is_special(a) or is_special(b):
        if a != a or b != b: return NAN
        if is_special(a): return a if a < 0 else b
        return b if b < 0 else a
    return k_min(a, b)


def k_not(a): return b_not(a)
def k_and(a, b):
    if isinstance(a, int) and not isinstance(a, bool) and isinstance(b, int) and not isinstance(b, bool): return a & b
    return b_and([a, b])
def k_or(a, b):
    if isinstance(a, int) and not isinstance(a, bool) and isinstance(b, int) and not isinstance(b, bool): return a | b
    return b_or([a, b])
def k_xor(a, b): return b_or([b_and([a, b_not(b)]), b_and([b_not(a), b])])


def k_atan2(y, x): return V.satan2(num(y), num(x))
def k_hypot(y, x): return V.shypot(num(y), num(x))
def k_conj(a): return a.conjugate() if isinstance(a, SymC) else a
def k_sqrt(a): return V.ssqrt(num(a))
def k_square(a): return num(a) * num(a)
def k_neg(a): return -num(a)
def k_deg2rad(a): return num(a) * V.PI() / 180
def k_rad2deg(a): return num(a) * 180 / V.PI()
def k_fmod(a, b): raise Unsupported("fmod")
def k_cosh(a): return V.scosh(num(a))
def k_sinh(a): return V.ssinh(num(a))
def k_tanh(a): return V.stanh(num(a))
def k_arcsinh(a):
    a = to_sym(num(a))
    return V.slog(a + V.ssqrt(a * a + 1))
def k_arctanh(a):
    a = to_sym(num(a))
    return V.slog((1 + a) / (1 - a)) / 2
def k_recip(a): return k_div(1, a)


KERN = {
    "add": k_add, "subtract": k_sub, "multiply": k_mul, "divide": k_div, "true_divide": k_div,
    "remainder": k_mod, "mod": k_mod, "floor_divide": k_floordiv, "power": k_pow, "float_power": k_pow,
    "less": _c("lt"), "less_equal": _c("le"), "greater": _c("gt"), "greater_equal": _c("ge"),
    "equal": _c("eq"), "not_equal": _c("ne"),
    "absolute": k_abs, "fabs": k_abs, "abs": k_abs, "isnan": k_isnan, "isinf": k_isinf, "isfinite": k_isfinite,
    "rint": k_round, "sign": k_sign, "floor": k_floor, "ceil": k_ceil, "trunc": k_trunc,
    "exp": k_exp, "log": lambda a: V.slog(num(a)), "log1p": k_log1p, "expm1": k_expm1, "logaddexp": k_logaddexp,
    "log2": lambda a: V.slog(num(a)) / const(F(math.log(2))), "log10": lambda a: V.slog(num(a)) / const(F(math.log(10))),
    "maximum": _maxsp, "minimum": _minsp, "fmax": _maxsp, "fmin": _minsp,
    "logical_not": k_not, "invert": lambda a: (~a if isinstance(a, int) and not isinstance(a, bool) else b_not(a)),
    "logical_and": lambda a, b: b_and([a, b]), "logical_or": lambda a, b: b_or([a, b]), "logical_xor": k_xor,
    "bitwise_and": k_and, "bitwise_or": k_or, "bitwise_xor": k_xor,
    "arctan2": k_atan2, "hypot": k_hypot, "conjugate": k_conj, "conj": k_conj,
    "sqrt": k_sqrt, "square": k_square, "negative": k_neg, "positive": lambda a: a,
    "cos": lambda a: V.scos(num(a)), "sin": lambda a: V.ssin(num(a)), "tan": lambda a: V.stan(num(a)),
    "arccos": lambda a: V.sacos(num(a)), "arcsin": lambda a: V.sasin(num(a)), "arctan": lambda a: V.satan(num(a)),
    "cosh": k_cosh, "sinh": k_sinh, "tanh": k_tanh, "arcsinh": k_arcsinh, "arctanh": k_arctanh,
    "deg2rad": k_deg2rad, "radians": k_deg2rad, "rad2deg": k_rad2deg, "degrees": k_rad2deg,
    "reciprocal": k_recip, "signbit": lambda a: num(a) < 0, "fmod": k_fmod,
}
IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False, "bitwise_and": True, "bitwise_or": False,
         "maximum": None, "minimum": None, "logaddexp": -INF}


def reduce_seq(name, seq):
    if name == "add":
        if seq and all(isinstance(v, (bool, SB)) for v in seq):
            tot = 0
            for v in seq: tot = num(v) + tot
            return tot
        tot = None
        for v in seq:
            v = num(v)
            tot = v if tot is None else tot + v
        return 0 if tot is None else tot
    if name in ("logical_and", "bitwise_and"): return b_and([as_bool(v) for v in seq])
    if name in ("logical_or", "bitwise_or"): return b_or([as_bool(v) for v in seq])
    f = KERN[name]
    if not seq:
        i = IDENT.get(name)
        if i is None: raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
        return i
    tot = seq[0]
    for v in seq[1:]: tot = f(tot, v)
    return tot


class NpInt(int):
    """an integer sum: a Python int with the few methods of a numpy scalar"""
    ndim, shape, size = 0, (), 1
    def astype(self, t, **k): return int(self) if np.dtype(t).kind in "iu" else const(int(self)) if np.dtype(t).kind == "f" else bool(self)
    def item(self): return int(self)
    def tolist(self): return int(self)


def reduce_axis(name, a, axis=None, keepdims=False, fn=None):
    o = to_obj(a)
    g = fn or (lambda s: reduce_seq(name, s))
    if axis is None:
        r = g(list(o.reshape(-1)))
        if keepdims:
            q = np.empty((1,) * o.ndim, dtype=object); q[(0,) * o.ndim] = r
            return out(q)
        return NpInt(r) if type(r) is int and name in ("add", "sum") else r
    if isinstance(axis, tuple):
        axes = sorted(ax % o.ndim for ax in axis)
        if len(axes) == o.ndim: return reduce_axis(name, a, None, keepdims, fn)
        if len(axes) == 1: axis = axes[0]
        else:
            keep = [i for i in range(o.ndim) if i not in axes]
            t = o.transpose(keep + axes)
            t = t.reshape([o.shape[i] for i in keep] + [-1])
            r = reduce_axis(name, t, -1, False, fn)
            return r if not keepdims else out(np.asarray(to_obj(r)).reshape([1 if i in axes else o.shape[i] for i in range(o.ndim)]))
    axis = int(axis)
    if axis < -o.ndim or axis >= o.ndim: raise np.exceptions.AxisError(axis, o.ndim)
    t = np.moveaxis(o, axis, -1)
    r = np.empty(t.shape[:-1], dtype=object)
    for idx in np.ndindex(t.shape[:-1]): r[idx] = g(list(t[idx]))
    if keepdims: r = np.expand_dims(r, axis)
    return out(r)


def store(dst, res, where=None):
    """Write res into the array dst (used for out= and in-place operators)."""
    if isinstance(dst, SArr):
        d = dst.view(np.ndarray)
        d[...] = to_obj(res)
        return dst
    o = to_obj(res)
    f = np.empty(o.shape, dtype=dst.dtype)
    for idx in np.ndindex(o.shape): f[idx] = o[idx]
    dst[...] = f
    return dst


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    k = KERN.get(name)
    if k is None:
        from .npshim import demote_call
        if method == "__call__": return demote_call(ufunc, inputs, kw)
        raise Unsupported("numpy ufunc %s" % name)
    kw = dict(kw)
    dst = kw.pop("out", None)
    if isinstance(dst, tuple): dst = dst[0]
    where = kw.pop("where", True)
    kw.pop("dtype", None); kw.pop("casting", None)
    if method == "__call__":
        if kw: raise Unsupported("ufunc keyword %r" % list(kw))
        r = emap(k, *inputs)
        if where is not True:
            if dst is None: raise Unsupported("ufunc where= without out=")
            r = emap(lambda c, a, b: ite(c, a, b), where, r, dst)
        if dst is not None: return store(dst, r)
        return r
    if method == "reduce":
        axis = kw.pop("axis", 0); keep = kw.pop("keepdims", False); kw.pop("initial", None)
        if kw: raise Unsupported("reduce keyword %r" % list(kw))
        if len(inputs) > 1: axis = inputs[1]
        r = reduce_axis(name, inputs[0], axis, keep)
        return store(dst, r) if dst is not None else r
    if method == "outer":
        a, b = to_obj(inputs[0]), to_obj(inputs[1])
        return emap(k, a.reshape(a.shape + (1,) * b.ndim), b)
    if method == "accumulate":
        o = to_obj(inputs[0]); axis = kw.pop("axis", 0)
        t = np.moveaxis(o, axis, -1)
        r = np.empty(t.shape, dtype=object)
        for idx in np.ndindex(t.shape[:-1]):
            acc = None
            for j in range(t.shape[-1]):
                acc = t[idx + (j,)] if acc is None else k(acc, t[idx + (j,)])
                r[idx + (j,)] = acc
        return out(np.moveaxis(r, -1, axis))
    raise Unsupported("ufunc method %s.%s" % (name, method))


# ---------------------------------------------------------------- sorting
def sort_perm(vals):
    """Stable argsort by insertion (NaN last); comparisons fork the path."""
    def less(a, b):
        if k_isnan(a): return False
        if k_isnan(b): return True
        c = KERN["less"](a, b)
        return c if isinstance(c, bool) else bool(c)
    order = []
    for i in range(len(vals)):
        j = len(order)
        while j > 0 and less(vals[i], vals[order[j - 1]]): j -= 1
        order.insert(j, i)
    return order


def argsort_axis(a, axis=-1):
    o = to_obj(a)
    if axis is None: o = o.reshape(-1); axis = 0
    t = np.moveaxis(o, axis, -1)
    r = np.empty(t.shape, dtype=np.int64)
    for idx in np.ndindex(t.shape[:-1]): r[idx] = sort_perm(list(t[idx]))
    return np.moveaxis(r, -1, axis)


def sort_axis(a, axis=-1):
    o = to_obj(a)
    if axis is None: o = o.reshape(-1); axis = 0
    if o.ndim == 0: raise np.exceptions.AxisError("axis -1 is out of bounds for array of dimension 0")
    t = np.moveaxis(o, axis, -1)
    r = np.empty(t.shape, dtype=object)
    for idx in np.ndindex(t.shape[:-1]):
        v = list(t[idx])
        if all(isinstance(x, (bool, SB)) for x in v) and any(isinstance(x, SB) for x in v): raise Unsupported("sort of symbolic booleans")
        p = sort_perm(v)
        for k, i in enumerate(p): r[idx + (k,)] = v[i]
    return out(np.moveaxis(r, -1, axis))


def argext(vals, op):
    """First index of the extreme value; NaN wins as in numpy.  Forks."""
    if not vals: raise ValueError("attempt to get arg%s of an empty sequence" % op)
    best = 0
    for i, v in enumerate(vals):
        if k_isnan(v): return i
    for i in range(1, len(vals)):
        c = KERN["greater" if op == "max" else "less"](vals[i], vals[best])
        if (c if isinstance(c, bool) else bool(c)): best = i
    return best


def argext_axis(a, op, axis=None):
    o = to_obj(a)
    if axis is None: return np.int64(argext(list(o.reshape(-1)), op))
    t = np.moveaxis(o, axis, -1)
    r = np.empty(t.shape[:-1], dtype=np.int64)
    for idx in np.ndindex(t.shape[:-1]): r[idx] = argext(list(t[idx]), op)
    return r if r.ndim else np.int64(r[()])


def mean_of(seq):
    if not seq: return NAN
    return k_div(reduce_seq("add", seq), len(seq))


def var_of(ddof):
    def f(seq):
        n = len(seq)
        if n - ddof <= 0: return NAN
        m = mean_of(seq)
        return k_div(reduce_seq("add", [k_square(k_abs(v - m)) if isinstance(v, SymC) else k_square(num(v) - m) for v in seq]), n - ddof)
    return f


def median_of(seq):
    n = len(seq)
    if n == 0: return NAN
    if any(k_isnan(v) for v in seq): return NAN
    p = sort_perm(seq)
    if n % 2: return seq[p[n // 2]]
    return k_div(num(seq[p[n // 2 - 1]]) + num(seq[p[n // 2]]), 2)


def fix_index(ix):
    if isinstance(ix, tuple): return tuple(fix_index(i) for i in ix)
    if isinstance(ix, SB): return bool(ix)
    if isinstance(ix, Sym): return ix.__index__()
    if isinstance(ix, list) and is_sym(ix): return fix_index(to_obj(ix))
    if isinstance(ix, np.ndarray) and ix.view(np.ndarray).dtype == object:
        o = ix.view(np.ndarray)
        if all(isinstance(v, (SB, bool, np.bool_)) for v in o.flat) and o.size:
            r = np.empty(o.shape, dtype=bool)
            for i in np.ndindex(o.shape): r[i] = bool(o[i])
            return r
        r = np.empty(o.shape, dtype=np.int64)
        for i in np.ndindex(o.shape):
            v = o[i]
            if isinstance(v, Sym) and not v.isint and v.exact is None: raise IndexError("arrays used as indices must be of integer (or boolean) type")
            r[i] = v.__index__()
        return r
    return ix


class SArr(np.ndarray):
    __array_priority__ = 2000

    @property
    def dtype(self):
        return self._dt()

    def _dt(self):
        f = self.view(np.ndarray).flat
        kinds = set()
        for v in f:
            if isinstance(v, (SB, bool)): kinds.add("b")
            elif isinstance(v, SymC): kinds.add("c")
            elif isinstance(v, int): kinds.add("i")
            elif isinstance(v, (Sym, float)): kinds.add("f")
            else: kinds.add("O")
        if "O" in kinds: return np.dtype(object)
        if "c" in kinds: return np.dtype(complex)
        if "f" in kinds or not kinds: return np.dtype(float)
        if "i" in kinds: return np.dtype(np.int64)
        return np.dtype(bool)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .npshim import np_function
        return np_function(func.__name__, func, args, kwargs)

    def _o(self): return self.view(np.ndarray)

    def __getitem__(self, ix):
        r = self._o()[fix_index(ix)]
        return r.view(SArr) if isinstance(r, np.ndarray) else r

    def __setitem__(self, ix, v):
        d = self._o()
        if isinstance(ix, np.ndarray) and ix.dtype == np.dtype(bool) and isinstance(ix, SArr) or isinstance(ix, SB):
            val = to_obj(v)
            m = to_obj(ix)
            if val.ndim == 0 and m.shape == d.shape:
                val = val[()]
                for i in np.ndindex(d.shape): d[i] = ite(m[i], val, d[i])
                return
        ix = fix_index(ix)
        val = to_obj(v)
        d[ix] = val if val.ndim else val[()]

    def __iter__(self):
        o = self._o()
        if o.ndim == 0: raise TypeError("iteration over a 0-d array")
        for v in o: yield v.view(SArr) if isinstance(v, np.ndarray) else v

    def __bool__(self):
        if self.size == 1: return bool(as_bool(self._o().reshape(-1)[0]))
        if self.size == 0: return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.size != 1: raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return float(self._o().reshape(-1)[0])
    def __int__(self): return int(self._o().reshape(-1)[0])
    def __index__(self): return self._o().reshape(-1)[0].__index__()
    def __contains__(self, v):
        return bool(b_or([as_bool(KERN["equal"](x, lift(v))) for x in self._o().flat]))
    def item(self, *a):
        if a: return self._o().item(*a)
        if self.size != 1: raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self._o().reshape(-1)[0]
    def tolist(self): return self._o().tolist()
    def copy(self, order="C"): return self._o().copy().view(SArr)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def astype(self, t, *a, **k):
        from .npshim import cast_array
        return cast_array(self, t, k.get("copy", True))
    def view(self, *a, **k):
        return np.ndarray.view(self, *a, **k)
    @property
    def real(self): return emap(lambda v: v.re if isinstance(v, SymC) else v, self)
    @property
    def imag(self): return emap(lambda v: v.im if isinstance(v, SymC) else const(0), self)
    def conj(self): return emap(k_conj, self)
    conjugate = conj
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k): return reduce_axis("add", self, axis, keepdims)
    def prod(self, axis=None, dtype=None, out=None, keepdims=False): return reduce_axis("multiply", self, axis, keepdims)
    def max(self, axis=None, out=None, keepdims=False, **k): return reduce_axis("maximum", self, axis, keepdims)
    def min(self, axis=None, out=None, keepdims=False, **k): return reduce_axis("minimum", self, axis, keepdims)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False): return reduce_axis("mean", self, axis, keepdims, mean_of)
    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False): return reduce_axis("var", self, axis, keepdims, var_of(ddof))
    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return emap(k_sqrt, reduce_axis("var", self, axis, keepdims, var_of(ddof)))
    def any(self, axis=None, out=None, keepdims=False, **k): return reduce_axis("logical_or", self, axis, keepdims)
    def all(self, axis=None, out=None, keepdims=False, **k): return reduce_axis("logical_and", self, axis, keepdims)
    def argmax(self, axis=None, out=None, **k): return argext_axis(self, "max", axis)
    def argmin(self, axis=None, out=None, **k): return argext_axis(self, "min", axis)
    def argsort(self, axis=-1, kind=None, order=None, **k): return argsort_axis(self, axis)
    def sort(self, axis=-1, kind=None, order=None, **k):
        r = to_obj(sort_axis(self, axis))
        self._o()[...] = r
    def round(self, decimals=0, out=None): return emap(lambda v: k_round(v, decimals), self)
    def clip(self, min=None, max=None, **k):
        from .npshim import f_clip
        return f_clip(self, min, max)
    def dot(self, b):
        from .npshim import matmul
        return matmul(self, b)
    def __matmul__(self, b):
        from .npshim import matmul
        return matmul(self, b)
    def __rmatmul__(self, b):
        from .npshim import matmul
        return matmul(b, self)
    def cumsum(self, axis=None, dtype=None, out=None):
        if axis is None: return ufunc_dispatch(np.add, "accumulate", (self.reshape(-1),), {"axis": 0})
        return ufunc_dispatch(np.add, "accumulate", (self,), {"axis": axis})
    def cumprod(self, axis=None, dtype=None, out=None):
        return ufunc_dispatch(np.multiply, "accumulate", (self.reshape(-1),) if axis is None else (self,), {"axis": axis or 0})
    def repeat(self, repeats, axis=None):
        from .npshim import f_repeat
        return f_repeat(self, repeats, axis)
    def nonzero(self):
        b = fix_index(emap(lambda v: as_bool(v), self))
        return np.nonzero(b)
    def fill(self, v): self._o()[...] = lift(v)
    def flatten(self, order="C"): return self._o().flatten().view(SArr)
    def trace(self, *a, **k): return reduce_seq("add", list(np.diagonal(self._o())))
    def ptp(self, axis=None): return self.max(axis) - self.min(axis)
    def __array__(self, dtype=None, copy=None):
        if dtype is None or np.dtype(dtype) == object: return self._o()
        return np.array([float(v) for v in self._o().flat], dtype=dtype).reshape(self.shape)
    def __reduce__(self): raise Unsupported("pickle")
    def __repr__(self): return "SArr(%s)" % (self._o().tolist(),)
    __str__ = __repr__
    def __hash__(self): raise TypeError("unhashable type: 'numpy.ndarray'")
