"""The `numpy` the code under test sees while it is executed symbolically."""
from __future__ import annotations
import math, builtins, itertools, types
from fractions import Fraction as F
import numpy as np
from . import terms as T
from .terms import Unsupported, NAN, INF
from . import values as V
from .values import Sym, SymC, SB, const, to_sym, is_special, as_bool, b_and, b_or, b_not, ite
from . import arr as A
from .arr import SArr, SYMT, is_sym, to_obj, emap, out, reduce_axis, KERN, lift, store

_pyfloat, _pyint, _pybool = builtins.float, builtins.int, builtins.bool
SMALL = 6000


# ---------------------------------------------------------------- dtypes and casts
def dt_of(t):
    """dtype-like (including the builtin shims) -> 'f','i','b','c','O' or a real dtype."""
    if t is None: return None
    if isinstance(t, type) and hasattr(t, "_real"): t = t._real
    if t in (_pyfloat,) or t in (np.float64, np.float32): return "f"
    if t is _pyint: return "i"
    if t in (_pybool, np.bool_): return "b"
    if t is complex: return "c"
    if t is object: return "O"
    try: d = np.dtype(t)
    except TypeError: raise
    k = d.kind
    return {"f": "f", "i": "i", "u": "i", "b": "b", "c": "c", "O": "O"}.get(k, d)


def cast_scalar(v, t):
    k = t if t in ("f", "i", "b", "c", "O") else dt_of(t)
    if k in (None, "O"): return v
    if k == "f":
        if isinstance(v, SymC): return v.re
        if isinstance(v, SB): return V.ind(v)
        if isinstance(v, str): return lift(_pyfloat(v))
        if v is None: return NAN
        return lift(_pyfloat(v)) if not isinstance(v, Sym) else v
    if k == "i":
        if isinstance(v, Sym): return V.concretize_int(V.strunc(v))
        if isinstance(v, SB): return _pyint(v)
        return _pyint(v)
    if k == "b":
        return as_bool(v)
    if k == "c": return V.to_c(v)
    raise Unsupported("cast to %r" % (t,))


def cast_array(a, t, copy=True):
    k = dt_of(t)
    if k in (None, "O"): return SArr.copy(a) if copy else a
    o = to_obj(a)
    r = np.empty(o.shape, dtype=object)
    for i in np.ndindex(o.shape): r[i] = cast_scalar(o[i], k)
    if k == "i": return r.astype(np.int64)
    if k == "b" and all(isinstance(v, bool) for v in r.flat): return r.astype(bool)
    return r.view(SArr)


def mkarr(x, dtype=None, copy=True, ndmin=0, keep0=True):
    """np.array / np.asarray."""
    if isinstance(x, np.ndarray) and not isinstance(x, SArr) and x.dtype != object:
        k = dt_of(dtype)
        if x.dtype.kind == "f" and k in (None, "f") and x.size <= SMALL:
            r = to_obj(x).view(SArr)
        elif x.dtype.kind == "c" and x.size <= SMALL and k in (None, "c"):
            r = to_obj(x).view(SArr)
        elif k in ("f", "c") and x.size <= SMALL:
            r = cast_array(to_obj(x).view(SArr), k)
        else:
            r = np.array(x, dtype=realdt(dtype)) if copy else np.asarray(x, dtype=realdt(dtype))
    elif isinstance(x, SArr):
        r = cast_array(x, dtype, copy) if dtype is not None else (x.copy() if copy else x)
    else:
        if x is None and dt_of(dtype) in (None, "O"): r = np.array(None, dtype=object)
        elif isinstance(x, (str, dict, set, types.GeneratorType)) or (isinstance(x, (list, tuple)) and _has_str(x)):
            r = np.array(x, dtype=realdt(dtype))
        else:
            o = to_obj(x)
            k = dt_of(dtype)
            if k is None:
                flat = list(o.flat)
                if any(isinstance(v, SymC) for v in flat): k = "c"
                elif any(isinstance(v, (Sym, float)) for v in flat):
                    k = "f" if all(isinstance(v, (Sym, float, int, SB)) for v in flat) else "O"
                elif flat and all(isinstance(v, bool) for v in flat): k = "b"
                elif flat and all(isinstance(v, (bool, SB)) for v in flat): k = "O"
                elif flat and all(isinstance(v, int) for v in flat): k = "i"
                elif not flat: k = "f"
                else: k = "O"
            if k == "i" and dtype is None:
                r = o.astype(np.int64)
            elif k == "O":
                r = o.view(SArr)
                if not is_sym(o): r = np.array(x, dtype=realdt(dtype))
            else: r = cast_array(o.view(SArr), k)
    while r.ndim < ndmin: r = r[None]
    return r


def _has_str(x):
    for v in x:
        if isinstance(v, str) or v is None: return True
        if isinstance(v, (list, tuple)) and _has_str(v): return True
    return False


def realdt(t):
    if t is None: return None
    if isinstance(t, type) and hasattr(t, "_real"): return t._real
    return t


def scal(r):
    """Scalar-returning numpy function results."""
    return r


# ---------------------------------------------------------------- demotion to plain floats
def demote(x):
    """Constant symbolic values -> floats; raises Unsupported on genuinely symbolic ones."""
    if isinstance(x, Sym):
        if not x.isconst: raise Unsupported("symbolic value in a numeric-only operation")
        e = x.exact
        return _pyfloat(x.value())
    if isinstance(x, SymC): return complex(demote(x.re), demote(x.im))
    if isinstance(x, SB): raise Unsupported("symbolic boolean in a numeric-only operation")
    if isinstance(x, SArr) or (isinstance(x, np.ndarray) and x.dtype == object):
        fl = [demote(v) for v in to_obj(x).flat]
        r = np.array(fl) if fl else np.array([], dtype=float)
        return r.reshape(x.shape)
    if isinstance(x, list): return [demote(v) for v in x]
    if isinstance(x, tuple): return tuple(demote(v) for v in x)
    if isinstance(x, dict): return {k: demote(v) for k, v in x.items()}
    if isinstance(x, type) and hasattr(x, "_real"): return x._real
    return x


def lift_deep(r):
    if isinstance(r, (float, np.floating)): return lift(r)
    if isinstance(r, np.ndarray) and r.dtype.kind in "fc" and r.size <= SMALL: return to_obj(r).view(SArr)
    if isinstance(r, tuple):
        if hasattr(r, "_fields"): return type(r)(*[lift_deep(v) for v in r])
        return tuple(lift_deep(v) for v in r)
    if isinstance(r, list): return [lift_deep(v) for v in r]
    return r


def demote_call(f, args, kw):
    try:
        a = demote(tuple(args)); k = demote(dict(kw))
    except Unsupported:
        raise Unsupported("%s on symbolic arguments" % getattr(f, "__name__", f))
    return lift_deep(f(*a, **k))


# ---------------------------------------------------------------- functions
def f_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    rt, at = to_sym(F("1e-5") if rtol == 1e-05 else rtol), to_sym(F("1e-8") if atol == 1e-08 else atol)
    def k(x, y):
        x, y = A.num(x), A.num(y)
        if A.k_isnan(x) or A.k_isnan(y): return bool(equal_nan and A.k_isnan(x) and A.k_isnan(y))
        if isinstance(x, SymC) or isinstance(y, SymC):
            return (V.to_c(x) - V.to_c(y)).abs() <= at + rt * V.to_c(y).abs()
        if is_special(x) or is_special(y): return is_special(x) and is_special(y) and x == y
        d = to_sym(x) - to_sym(y)
        return V.s_cmp(V.sabs(d), at + rt * V.sabs(to_sym(y)), "le")
    r = emap(k, a, b)
    return np.bool_(r) if type(r) is bool else r


def f_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return A.reduce_axis("logical_and", to_obj(f_isclose(a, b, rtol, atol, equal_nan)))


def f_where(c, *xy):
    if not xy:
        if isinstance(c, SArr): return SArr.nonzero(c)
        return np.where(c)
    x, y = xy
    # complex values: one path per outcome
    return emap(lambda c, x, y: (x if bool(c) else y) if isinstance(x, SymC) or isinstance(y, SymC) else ite(c, x, y), c, x, y)


def f_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    def kk(v, *lh):
        v = A.num(v)
        r = v
        if isinstance(r, float) and r != r: return r
        i = 0
        if lo is not None: r = A._maxsp(r, lh[i]); i += 1
        if hi is not None: r = A._minsp(r, lh[i])
        return r
    args = [x for x in (lo, hi) if x is not None]
    r = emap(kk, a, *args)
    return store(out, r) if out is not None else r


def matmul(a, b):
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 0 or b.ndim == 0: return emap(A.k_mul, a, b)
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape: raise ValueError("shapes not aligned")
        return A.reduce_seq("add", [A.k_mul(x, y) for x, y in zip(a, b)])
    sq0 = a.ndim == 1; sq1 = b.ndim == 1
    if sq0: a = a[None, :]
    if sq1: b = b[:, None]
    if a.ndim != 2 or b.ndim != 2: raise Unsupported("matmul of %d-d arrays" % max(a.ndim, b.ndim))
    if a.shape[1] != b.shape[0]: raise ValueError("matmul: dimension mismatch")
    r = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            r[i, j] = A.reduce_seq("add", [A.k_mul(a[i, k], b[k, j]) for k in range(a.shape[1])])
    if sq0 and sq1: return r[0, 0]
    if sq0: return out(r[0])
    if sq1: return out(r[:, 0])
    return out(r)


def f_repeat(a, repeats, axis=None):
    r = A.fix_index(repeats) if is_sym(repeats) else repeats
    if isinstance(r, np.ndarray): r = r.astype(int)
    return out(np.repeat(to_obj(a), r, axis))


def f_diff(a, n=1, axis=-1, prepend=None, append=None):
    o = to_obj(a)
    def prep(v):
        v = to_obj(v)
        if v.ndim == 0:
            sh = list(o.shape); sh[axis] = 1
            v = np.broadcast_to(v, tuple(sh))
        return v
    parts = ([prep(prepend)] if prepend is not None else []) + [o] + ([prep(append)] if append is not None else [])
    o = np.concatenate(parts, axis=axis) if len(parts) > 1 else o
    for _ in range(n):
        s1 = [slice(None)] * o.ndim; s2 = list(s1)
        s1[axis] = slice(1, None); s2[axis] = slice(None, -1)
        o = to_obj(emap(A.k_sub, o[tuple(s1)], o[tuple(s2)]))
    return out(o) if o.ndim else o


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    o = list(to_obj(a).reshape(-1))
    p = A.sort_perm(o)
    vals, idx, cnt, inv = [], [], [], [0] * len(o)
    for i in p:
        if vals and bool(as_bool(KERN["equal"](o[i], vals[-1]))):
            cnt[-1] += 1
        else:
            vals.append(o[i]); idx.append(i); cnt.append(1)
        inv[i] = len(vals) - 1
    u = mkarr(vals) if vals else np.array([])
    if len(vals) and isinstance(u, np.ndarray) and u.dtype == object: u = u.view(SArr)
    res = [u]
    if return_index: res.append(np.array(idx))
    if return_inverse: res.append(np.array(inv))
    if return_counts: res.append(np.array(cnt))
    return res[0] if len(res) == 1 else tuple(res)


def f_corrcoef(x, y=None, rowvar=True, **k):
    c = to_obj(f_cov(x, y, rowvar))
    if c.ndim == 0: return k_div(c[()], c[()])
    n = c.shape[0]
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            r[i, j] = A.k_div(c[i, j], V.ssqrt(A.num(c[i, i])) * V.ssqrt(A.num(c[j, j])))
    return r.view(SArr)


def f_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    o = to_obj(m)
    if o.ndim == 1: o = o[None, :]
    elif not rowvar: o = o.T
    if y is not None:
        q = to_obj(y)
        if q.ndim == 1: q = q[None, :]
        o = np.concatenate([o, q], 0)
    n = o.shape[1]
    dd = (0 if bias else 1) if ddof is None else ddof
    means = [A.mean_of(list(r)) for r in o]
    c = np.empty((o.shape[0],) * 2, dtype=object)
    for i in range(o.shape[0]):
        for j in range(o.shape[0]):
            c[i, j] = A.k_div(A.reduce_seq("add", [(a - means[i]) * (b - means[j]) for a, b in zip(o[i], o[j])]), n - dd)
    return c.view(SArr) if c.shape != (1, 1) else c[0, 0]


def f_angle(z, deg=False):
    def k(v):
        if isinstance(v, SymC): return v.angle()
        return V.satan2(const(0), to_sym(v))
    return emap(k, z)


def f_real(z): return emap(lambda v: v.re if isinstance(v, SymC) else v, z)
def f_imag(z): return emap(lambda v: v.im if isinstance(v, SymC) else const(0), z)


def f_inv(a):
    o = to_obj(a); n = o.shape[0]
    if n == 1: return mkarr([[A.k_div(1, o[0, 0])]])
    M = [[o[i, j] for j in range(n)] + [const(1 if i == j else 0) for j in range(n)] for i in range(n)]
    R = gauss(M, n)
    return mkarr([row[n:] for row in R])


def gauss(M, n):
    for c in range(n):
        piv = None
        for r in range(c, n):
            if V.nonzero_on_path(to_sym(M[r][c])): piv = r; break
        if piv is None: raise np.linalg.LinAlgError("Singular matrix")
        M[c], M[piv] = M[piv], M[c]
        ip = 1 / to_sym(M[c][c])
        M[c] = [to_sym(x) * ip for x in M[c]]
        for r in range(n):
            if r != c:
                f = M[r][c]
                if isinstance(f, Sym) and f.exact == 0: continue
                M[r] = [to_sym(x) - f * y for x, y in zip(M[r], M[c])]
    return M


def f_solve(a, b):
    o, q = to_obj(a), to_obj(b)
    n = o.shape[0]
    one = q.ndim == 1
    if one: q = q[:, None]
    R = gauss([[o[i, j] for j in range(n)] + [q[i, j] for j in range(q.shape[1])] for i in range(n)], n)
    r = mkarr([row[n:] for row in R])
    return r[:, 0] if one else r


def f_norm(x, ord=None, axis=None, keepdims=False):
    if ord is not None and ord != 2: raise Unsupported("norm ord=%r" % ord)
    def g(seq): return V.ssqrt(to_sym(A.reduce_seq("add", [A.k_square(A.k_abs(v)) if isinstance(v, SymC) else A.k_square(v) for v in seq])))
    return reduce_axis("norm", x, axis, keepdims, g)


def f_det(a):
    o = to_obj(a); n = o.shape[0]
    if n == 1: return o[0, 0]
    if n == 2: return o[0, 0] * o[1, 1] - o[0, 1] * o[1, 0]
    tot = 0
    for j in range(n):
        minor = np.delete(np.delete(o, 0, 0), j, 1)
        tot = tot + o[0, j] * f_det(minor) * (1 if j % 2 == 0 else -1)
    return tot


def f_quantile(a, q, axis=None, **k):
    o = to_obj(a)
    method = k.pop("method", "linear")
    if method not in ("linear", "midpoint", "lower", "higher"): raise Unsupported("quantile method")
    qs = to_obj(q)
    def one(seq, qq):
        n = len(seq)
        p = A.sort_perm(seq)
        h = to_sym(qq) * (n - 1)
        e = h.exact
        if e is None: raise Unsupported("symbolic quantile level")
        lo = math.floor(e); hi = builtins.min(lo + 1, n - 1)
        g = e - lo
        if method != "linear": g = 0 if g == 0 or method == "lower" else 1 if method == "higher" else F(1, 2)
        return seq[p[lo]] + g * (to_sym(seq[p[hi]]) - seq[p[lo]])
    if axis is not None and o.ndim > 1:
        res = [reduce_axis("quantile", o, axis, False, lambda s, qq=qq: one(s, qq)) for qq in qs.reshape(-1)]
        return res[0] if qs.ndim == 0 else mkarr([list(r) for r in res])
    seq = list(o.reshape(-1))
    if qs.ndim == 0: return one(seq, qs[()])
    return mkarr([one(seq, qq) for qq in qs])


def f_percentile(a, q, axis=None, **k): return f_quantile(a, emap(lambda v: A.k_div(v, 100), q), axis, **k)


def f_vectorize(pyfunc, *a, **k):
    def g(*args, **kw):
        if not is_sym(args) and not is_sym(tuple(kw.values())):
            try: return lift_deep(np.vectorize(pyfunc, *a, **k)(*args, **kw))
            except (TypeError, Unsupported): pass
        return emap(lambda *v: pyfunc(*v, **kw), *args)
    return g


def f_searchsorted(a, v, side="left", sorter=None):
    o = list(to_obj(a))
    def k(x):
        n = 0
        for y in o:
            c = KERN["less" if side == "left" else "less_equal"](y, x)
            if not (c if isinstance(c, bool) else bool(c)): break
            n += 1
        return n
    r = emap(k, v)
    return r.view(np.ndarray).astype(np.int64) if isinstance(r, np.ndarray) else np.int64(r)


def f_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None: raise Unsupported("interp period")
    X, Y = list(to_obj(xp)), list(to_obj(fp))
    def k(v):
        if A.k_isnan(v): return NAN
        if bool(as_bool(KERN["less"](v, X[0]))): return Y[0] if left is None else left
        if bool(as_bool(KERN["greater"](v, X[-1]))): return Y[-1] if right is None else right
        for i in range(1, len(X)):
            if bool(as_bool(KERN["less_equal"](v, X[i]))):
                return Y[i - 1] + (to_sym(v) - X[i - 1]) * (to_sym(Y[i]) - Y[i - 1]) / (to_sym(X[i]) - X[i - 1])
        return Y[-1]
    return emap(k, x)


def f_histogram(a, bins=10, range=None, weights=None, density=False):
    o = list(to_obj(a).reshape(-1))
    if isinstance(bins, (int, np.integer)) or (isinstance(bins, Sym) and bins.isconst):
        nb = _pyint(bins)
        lo, hi = range if range is not None else (None, None)
        if lo is None: raise Unsupported("histogram without range")
        edges = f_linspace(lo, hi, nb + 1)
    else: edges = mkarr(bins, copy=False); nb = len(edges) - 1
    E = list(to_obj(edges))
    cnt = [0] * nb
    W = None if weights is None else list(to_obj(weights).reshape(-1))
    for j, v in enumerate(o):
        if A.k_isnan(v) or bool(as_bool(KERN["less"](v, E[0]))) or bool(as_bool(KERN["greater"](v, E[-1]))): continue
        for i in builtins.range(nb):
            if i == nb - 1 or bool(as_bool(KERN["less"](v, E[i + 1]))):
                cnt[i] = cnt[i] + (1 if W is None else W[j]); break
    if density: raise Unsupported("histogram density")
    c = np.array(cnt) if W is None else mkarr(cnt)
    return c, edges


def _count_ok(n):
    m = 1
    for v in (n if isinstance(n, tuple) else (n,)): m *= v
    return m <= SMALL


def _shape(s):
    if isinstance(s, Sym): s = s.__index__()
    if isinstance(s, (list, tuple, np.ndarray)): return tuple(_pyint(v.__index__() if isinstance(v, Sym) else v) for v in s)
    return (_pyint(s),)


def f_full(shape, fill_value, dtype=None, **k):
    sh = _shape(shape)
    if not _count_ok(sh):
        return np.full(sh, demote(fill_value), dtype=realdt(dtype))
    kd = dt_of(dtype)
    v = to_obj(fill_value)
    if isinstance(kd, np.dtype): return np.full(sh, fill_value, dtype=kd)
    if kd == "b": return np.full(sh, bool(fill_value)) if not is_sym(fill_value) else np.full(sh, fill_value, dtype=object).view(SArr)
    if kd == "i": return np.full(sh, fill_value, dtype=np.int64)
    o = np.empty(sh, dtype=object)
    if v.ndim == 0:
        v = v[()]
        if kd == "f": v = cast_scalar(v, "f")
        if kd == "c": v = V.to_c(v)
    o[...] = v
    return o.view(SArr)


def f_zeros(shape, dtype=None, **k):
    kd = dt_of(dtype)
    if kd == "i": return np.full(_shape(shape), 0).astype(object).view(SArr) if _count_ok(_shape(shape)) else np.zeros(_shape(shape), int)
    if kd == "b": return np.zeros(_shape(shape), dtype=object).astype(bool).astype(object).view(SArr) if _count_ok(_shape(shape)) else np.zeros(_shape(shape), bool)
    return f_full(shape, const(0), dtype)
def f_ones(shape, dtype=None, **k):
    kd = dt_of(dtype)
    if kd == "i": return np.ones(_shape(shape), dtype=int).astype(object).view(SArr)
    if kd == "b": return np.ones(_shape(shape), dtype=bool).astype(object).view(SArr)
    return f_full(shape, const(1), dtype)
def f_empty(shape, dtype=None, **k):
    if dt_of(dtype) in ("i", "b", "O"): return f_zeros(shape, dtype)
    return f_full(shape, const(0), dtype)


def _like(a): return np.shape(to_obj(a) if is_sym(a) else a)
def _ldt(a):
    if isinstance(a, SArr): return {"f": float, "i": int, "b": bool, "c": complex, "O": object}[a.dtype.kind]
    if isinstance(a, Sym): return float
    d = np.asarray(a).dtype
    return d if d.kind in "fibc" else None
def f_zeros_like(a, dtype=None, shape=None, **k): return f_zeros(_like(a) if shape is None else shape, dtype if dtype is not None else _ldt(a)) if _like(a) or shape else const(0)
def f_ones_like(a, dtype=None, shape=None, **k): return f_ones(_like(a) if shape is None else shape, dtype if dtype is not None else _ldt(a)) if _like(a) or shape else const(1)
def f_full_like(a, v, dtype=None, shape=None, **k): return f_full(_like(a) if shape is None else shape, v, dtype if dtype is not None else _ldt(a)) if _like(a) or shape else wrap_full0(v)
def wrap_full0(v):
    return A.wrap0(lift(v))


def f_arange(*a, **k):
    dtype = k.pop("dtype", None)
    if all(isinstance(v, (int, np.integer)) or (isinstance(v, Sym) and v.exact is not None) for v in a):
        vs = [F(_pyint(v)) if not isinstance(v, Sym) else v.exact for v in a]
        isint = all(not isinstance(v, Sym) for v in a) and dt_of(dtype) in (None, "i")
        if len(vs) == 1: lo, hi, st = F(0), vs[0], F(1)
        elif len(vs) == 2: lo, hi, st = vs[0], vs[1], F(1)
        else: lo, hi, st = vs
        n = builtins.max(0, math.ceil((hi - lo) / st))
        if n > SMALL: return np.arange(*[float(v) if v.denominator != 1 else int(v) for v in vs])
        o = np.empty((n,), dtype=object)
        for i in builtins.range(n): o[i] = _pyint(lo + i * st) if isint else const(lo + i * st)
        return o.view(SArr)
    lo, hi, st = (const(0), a[0], const(1)) if len(a) == 1 else (a[0], a[1], const(1)) if len(a) == 2 else a
    q = (to_sym(hi) - lo) / st
    n = (-V.sfloor(-q)).__index__()
    return mkarr([to_sym(lo) + i * to_sym(st) for i in builtins.range(n)])


def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = _pyint(num)
    if n > SMALL: 
        return np.linspace(demote(start), demote(stop), n, endpoint=endpoint)
    div = n - 1 if endpoint else n
    s, e = to_sym(start), to_sym(stop)
    st = (e - s) / div if div > 0 else NAN
    o = np.empty((n,), dtype=object)
    for i in builtins.range(n): o[i] = s + st * i if not (isinstance(st, float)) else s
    if endpoint and n > 1: o[n - 1] = e
    r = o.view(SArr)
    return (r, st) if retstep else r


def f_atleast_1d(*a):
    r = []
    for x in a:
        x = mkarr(x, copy=False)
        r.append(x.reshape(1) if x.ndim == 0 else x)
    return r[0] if len(r) == 1 else r


def f_atleast_2d(*a):
    r = []
    for x in a:
        x = mkarr(x, copy=False)
        r.append(x.reshape(1, 1) if x.ndim == 0 else x[None, :] if x.ndim == 1 else x)
    return r[0] if len(r) == 1 else r


def f_isscalar(x): return isinstance(x, SYMT) or np.isscalar(x)
def f_ndim(x): return to_obj(x).ndim if is_sym(x) or isinstance(x, (list, tuple)) else np.ndim(x)
def f_shape(x): return to_obj(x).shape if is_sym(x) else np.shape(x)
def f_size(x, axis=None): return to_obj(x).size if axis is None else to_obj(x).shape[axis]


def f_count_nonzero(a, axis=None, **k):
    return reduce_axis("add", emap(lambda v: as_bool(v), a), axis)


def f_average(a, axis=None, weights=None, returned=False, **k):
    if weights is None: return reduce_axis("mean", a, axis, False, A.mean_of)
    w = reduce_axis("add", weights, axis)
    r = emap(A.k_div, reduce_axis("add", emap(A.k_mul, a, weights), axis), w)
    return (r, w) if returned else r


def f_nanreduce(name, fn):
    def g(a, axis=None, keepdims=False, **k):
        def h(seq):
            s = [v for v in seq if not A.k_isnan(v)]
            return fn(s) if s else NAN
        return reduce_axis(name, a, axis, keepdims, h)
    return g


def f_nanarg(op):
    def g(a, axis=None, **k):
        def h(seq):
            ix = [i for i, v in enumerate(seq) if not A.k_isnan(v)]
            if not ix: raise ValueError("All-NaN slice encountered")
            return ix[A.argext([seq[i] for i in ix], op)]
        r = reduce_axis("nanarg", a, axis, False, h)
        return np.int64(r) if not isinstance(r, np.ndarray) else r.astype(np.int64)
    return g


def f_array_equal(a, b, **k):
    a, b = to_obj(a), to_obj(b)
    if a.shape != b.shape: return False
    return A.reduce_axis("logical_and", to_obj(emap(KERN["equal"], a, b)))


def f_trapezoid(y, x=None, dx=1.0, axis=-1):
    o = to_obj(y)
    if o.ndim != 1: raise Unsupported("trapezoid nd")
    if x is None: return reduce_axis("add", emap(lambda a, b: (a + b) / 2 * to_sym(dx), o[1:], o[:-1]))
    X = to_obj(x)
    return reduce_axis("add", emap(lambda a, b, c, d: A.k_div((a + b) * (c - d), 2), o[1:], o[:-1], X[1:], X[:-1]))


def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def k(v):
        if A.k_isnan(v): return lift(nan)
        if is_special(v): return lift(posinf if v > 0 else neginf) if (posinf if v > 0 else neginf) is not None else lift(1.7976931348623157e308 * (1 if v > 0 else -1))
        return v
    return emap(k, x)


def f_cross(a, b):
    raise Unsupported("cross")


def f_sortf(a, axis=-1, **k): return A.sort_axis(a, axis)
def f_argsort(a, axis=-1, **k): return A.argsort_axis(a, axis)


def f_unwrap(p, *a, **k): raise Unsupported("unwrap")
def f_sinc(x): raise Unsupported("sinc")


def f_in1d(a, b, **k):
    bs = list(to_obj(b).reshape(-1))
    return emap(lambda v: b_or([as_bool(KERN["equal"](v, x)) for x in bs]), a)


def f_round(a, decimals=0, out=None):
    return emap(lambda v: A.k_round(v, decimals) if not isinstance(v, SymC) else v, a)


def as_mask(mask):
    """numpy's notion of a mask: whatever is not zero"""
    if not is_sym(mask): return np.asarray(mask, dtype=bool)
    o = to_obj(mask); r = np.empty(o.shape, dtype=bool)
    for ix in np.ndindex(o.shape):
        v = o[ix]
        r[ix] = bool(v != 0) if isinstance(v, Sym) else bool(v)
    return r


def f_place(arr, mask, vals):
    o = arr.view(np.ndarray) if isinstance(arr, SArr) else arr
    m = np.broadcast_to(as_mask(mask), o.shape)
    v = list(to_obj(vals).reshape(-1)); j = 0
    for ix in np.ndindex(o.shape):
        if m[ix]:
            w = v[j % len(v)]; j += 1
            o[ix] = w if o.dtype == object else demote(w)


def f_putmask(arr, mask, vals):
    o = arr.view(np.ndarray)
    m = np.broadcast_to(as_mask(mask), o.shape)
    v = np.broadcast_to(to_obj(vals), o.shape)
    for ix in np.ndindex(o.shape):
        if m[ix]: o[ix] = v[ix]


def f_extract(cond, arr):
    m = as_mask(cond).reshape(-1)
    return to_obj(arr).reshape(-1)[m].view(SArr)


def f_tri(fn):
    def g(m, k=0):
        o = to_obj(m)
        r = np.empty(o.shape, dtype=object)
        for i in np.ndindex(o.shape):
            keep = (i[1] <= i[0] + k) if fn == "tril" else (i[1] >= i[0] + k)
            r[i] = o[i] if keep else 0
        return r.view(SArr)
    return g


def f_outer(a, b, out=None):
    return emap(A.k_mul, to_obj(a).reshape(-1)[:, None], to_obj(b).reshape(-1)[None, :])


def f_block_like(fn):
    def g(seq, *a, **k):
        k = {x: v for x, v in k.items() if x not in ("dtype", "casting")}
        objs = [to_obj(x) for x in seq]
        return out(fn(objs, *a, **k))
    return g


def f_einsum(spec, *ops):
    if "->" not in spec or "..." in spec: raise Unsupported("einsum " + spec)
    ins, o = spec.replace(" ", "").split("->")
    ins = ins.split(",")
    objs = [to_obj(x) for x in ops]
    dim = {}
    for s, x in zip(ins, objs):
        for c, n in zip(s, x.shape): dim[c] = n
    summed = [c for c in dim if c not in o]
    r = np.empty(tuple(dim[c] for c in o), dtype=object)
    for idx in np.ndindex(r.shape):
        env = dict(zip(o, idx)); terms = []
        for si in itertools.product(*[range(dim[c]) for c in summed]):
            env.update(zip(summed, si)); t = 1
            for s, x in zip(ins, objs): t = A.k_mul(t, x[tuple(env[c] for c in s)])
            terms.append(t)
        r[idx] = A.reduce_seq("add", terms)
    return out(r)


def _red(name, fn=None):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, ddof=None, **k):
        if where is not None and where is not True: raise Unsupported("where= in reduction")
        r = reduce_axis(name, a, axis, bool(keepdims) if keepdims is not np._NoValue else False, fn)
        return store(out, r) if out is not None else r
    return g


def _redv(root):
    def g(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        r = reduce_axis("var", a, axis, keepdims, A.var_of(_pyint(ddof)))
        return emap(A.k_sqrt, r) if root else r
    return g


FUNCS = {
    "array": lambda x, dtype=None, copy=True, ndmin=0, **k: mkarr(x, dtype, True if copy is None else copy, ndmin),
    "asarray": lambda x, dtype=None, **k: mkarr(x, dtype, False),
    "asanyarray": lambda x, dtype=None, **k: mkarr(x, dtype, False),
    "ascontiguousarray": lambda x, dtype=None, **k: mkarr(x, dtype, False),
    "asfarray": lambda x, dtype=None, **k: mkarr(x, float, False),
    "asarray_chkfinite": lambda x, dtype=None, **k: mkarr(x, dtype, False),
    "copy": lambda x, **k: mkarr(x, None, True),
    "isclose": f_isclose, "allclose": f_allclose, "where": f_where, "clip": f_clip,
    "dot": matmul, "matmul": matmul, "inner": matmul, "vdot": matmul, "repeat": f_repeat, "diff": f_diff, "unique": f_unique,
    "corrcoef": f_corrcoef, "cov": f_cov, "angle": f_angle, "real": f_real, "imag": f_imag,
    "sort": f_sortf, "argsort": f_argsort, "argmax": lambda a, axis=None, **k: A.argext_axis(a, "max", axis),
    "argmin": lambda a, axis=None, **k: A.argext_axis(a, "min", axis),
    "nanargmin": f_nanarg("min"), "nanargmax": f_nanarg("max"),
    "sum": _red("add"), "prod": _red("multiply"), "max": _red("maximum"), "min": _red("minimum"), "amax": _red("maximum"), "amin": _red("minimum"),
    "mean": _red("mean", A.mean_of), "var": _redv(False), "std": _redv(True), "median": _red("median", A.median_of),
    "any": _red("logical_or"), "all": _red("logical_and"), "ptp": lambda a, axis=None: reduce_axis("maximum", a, axis) - reduce_axis("minimum", a, axis),
    "nansum": f_nanreduce("nansum", lambda s: A.reduce_seq("add", s)), "nanmean": f_nanreduce("nanmean", A.mean_of),
    "nanmax": f_nanreduce("nanmax", lambda s: A.reduce_seq("maximum", s)), "nanmin": f_nanreduce("nanmin", lambda s: A.reduce_seq("minimum", s)),
    "nanmedian": f_nanreduce("nanmedian", A.median_of),
    "cumsum": lambda a, axis=None, **k: (to_obj(a).view(SArr)).cumsum(axis), "cumprod": lambda a, axis=None, **k: (to_obj(a).view(SArr)).cumprod(axis),
    "quantile": f_quantile, "percentile": f_percentile, "vectorize": f_vectorize, "searchsorted": f_searchsorted, "interp": f_interp,
    "histogram": f_histogram, "full": f_full, "zeros": f_zeros, "ones": f_ones, "empty": f_empty,
    "zeros_like": f_zeros_like, "ones_like": f_ones_like, "empty_like": f_zeros_like, "full_like": f_full_like,
    "arange": f_arange, "linspace": f_linspace, "atleast_1d": f_atleast_1d, "atleast_2d": f_atleast_2d,
    "isscalar": f_isscalar, "ndim": f_ndim, "shape": f_shape, "size": f_size, "count_nonzero": f_count_nonzero, "average": f_average,
    "array_equal": f_array_equal, "trapezoid": f_trapezoid, "trapz": f_trapezoid, "nan_to_num": f_nan_to_num,
    "isin": f_in1d, "in1d": f_in1d, "round": f_round, "around": f_round, "round_": f_round, "tril": f_tri("tril"), "triu": f_tri("triu"), "outer": f_outer,
    "concatenate": f_block_like(np.concatenate), "hstack": f_block_like(np.hstack), "vstack": f_block_like(np.vstack),
    "stack": f_block_like(np.stack), "column_stack": f_block_like(np.column_stack), "dstack": f_block_like(np.dstack),
    "einsum": f_einsum, "iscomplexobj": lambda x: to_obj(x).size > 0 and any(isinstance(v, SymC) for v in to_obj(x).flat),
    "isrealobj": lambda x: not any(isinstance(v, SymC) for v in to_obj(x).flat),
    "identity": lambda n, dtype=None: FUNCS["eye"](n), "eye": lambda n, m=None, k=0, dtype=None: to_obj(np.eye(_pyint(n), m if m is None else _pyint(m), k)).view(SArr),
    "flatnonzero": lambda a: SArr.nonzero(to_obj(a).view(SArr).reshape(-1))[0], "nonzero": lambda a: SArr.nonzero(to_obj(a).view(SArr)),
    "argwhere": lambda a: np.transpose(SArr.nonzero(to_obj(a).view(SArr))), "trace": lambda a: SArr.trace(to_obj(a).view(SArr)),
    "isreal": lambda a: emap(lambda v: not isinstance(v, SymC), a),
    "divide": None, "place": f_place, "putmask": f_putmask, "extract": f_extract,
    "put": None, "unwrap": f_unwrap, "sinc": f_sinc,
}
del FUNCS["divide"], FUNCS["put"]
LINALG = {"inv": f_inv, "solve": f_solve, "norm": f_norm, "det": f_det,
          "pinv": lambda a, **k: f_inv(a)}
# functions that only move elements around
STRUCT = {"reshape", "ravel", "transpose", "squeeze", "expand_dims", "broadcast_to", "broadcast_arrays", "roll", "flip", "fliplr", "flipud",
          "tile", "take", "delete", "insert", "append", "moveaxis", "swapaxes", "diag", "diagonal", "meshgrid", "split", "array_split", "rot90",
          "take_along_axis", "compress", "ix_", "atleast_3d", "broadcast_shapes", "resize", "diagflat"}
ALWAYS = {"array", "asarray", "asanyarray", "zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like",
          "linspace", "arange", "eye", "identity", "atleast_1d", "atleast_2d", "copy", "vectorize", "ascontiguousarray", "isscalar", "ndim",
          "asarray_chkfinite", "column_stack", "hstack", "vstack", "stack", "concatenate", "mean", "var", "std", "average", "cov", "corrcoef",
          "place", "median", "quantile", "percentile", "histogram", "searchsorted", "cumsum", "sum", "prod"}


def np_function(name, func, args, kwargs):
    kwargs = dict(kwargs)
    if name in FUNCS: return FUNCS[name](*args, **kwargs)
    if name in LINALG and "linalg" in getattr(func, "__module__", ""): return LINALG[name](*args, **kwargs)
    if name in STRUCT:
        def un(x):
            if isinstance(x, SYMT): return to_obj(x)
            if isinstance(x, SArr): return x.view(np.ndarray)
            if isinstance(x, list): return [un(v) for v in x]
            if isinstance(x, tuple): return tuple(un(v) for v in x)
            if isinstance(x, (float, np.floating)): return lift(x)
            return x
        def idx(x):
            return A.fix_index(x) if is_sym(x) else x
        if name in ("take", "delete", "insert", "roll", "reshape", "broadcast_to", "tile", "take_along_axis", "resize") and len(args) > 1:
            args = (un(args[0]), idx(args[1])) + tuple(un(x) for x in args[2:])
            if name == "insert": args = (to_obj(args[0]),) + args[1:2] + (to_obj(args[2]),) + args[3:]
        else: args = tuple(un(x) for x in args)
        if name in ("append",): args = (to_obj(args[0]), to_obj(args[1])) + args[2:]
        if name == "broadcast_arrays": args = tuple(to_obj(x) for x in args)
        r = func(*args, **{k: un(v) for k, v in kwargs.items()})
        if isinstance(r, (list, tuple)):
            w = [x.view(SArr) if isinstance(x, np.ndarray) and x.dtype == object else x for x in r]
            return type(r)(w) if not hasattr(r, "_fields") else r
        if isinstance(r, np.ndarray) and r.dtype == object: return r.view(SArr)
        return r
    return demote_call(func, args, kwargs)


class UfuncShim:
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__
        self._k = KERN.get(u.__name__)

    def __call__(self, *a, **k):
        k.pop("dtype", None) if False else None
        if self._k is None:
            return demote_call(self._u, a, k)
        return A.ufunc_dispatch(self._u, "__call__", a, k)

    def __getattr__(self, n):
        m = getattr(self._u, n)
        if n in ("reduce", "outer", "accumulate"):
            return lambda *a, **k: A.ufunc_dispatch(self._u, n, a, k)
        if callable(m):
            def f(*a, **k):
                if is_sym(a): raise Unsupported("ufunc.%s" % n)
                return m(*a, **k)
            return f
        return m


class FuncShim:
    def __init__(self, name, f):
        self.__name__ = name; self._f = f
        self.__wrapped__ = f

    def __call__(self, *a, **k):
        n = self.__name__
        if n in ("sum", "mean", "max", "min", "prod") and a and hasattr(a[0], "iloc"): return self._f(*a, **k)   # pandas reduces itself
        if n in ALWAYS or is_sym(a) or is_sym(tuple(k.values())) or _bshim(a) or _bshim(k.values()):
            return np_function(n, self._f, a, k)
        r = self._f(*a, **k)
        return lift_deep(r)

    def __getattr__(self, n): return getattr(self._f, n)


def _bshim(vs): return any(isinstance(v, type) and hasattr(v, "_real") for v in vs)


class NSub:
    """numpy.linalg / numpy.random and the like."""
    def __init__(self, mod, name, special):
        self._m, self._n, self._s = mod, name, special

    def __getattr__(self, n):
        if n in self._s: return self._s[n]
        v = getattr(self._m, n)
        if isinstance(v, type): return v
        if callable(v):
            def f(*a, **k): return demote_call(v, a, k)
            f.__name__ = n
            return f
        return v


class _FMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, np.floating) or isinstance(x, Sym)
    def __call__(cls, x=0.0): return fl(x)


class FloatingShim(metaclass=_FMeta):
    _real = np.float64


class _IMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, np.integer)
    def __call__(cls, x=0): return _pyint(x)


class NumpyShim:
    def __init__(self):
        from . import rng
        lin = {k: v for k, v in LINALG.items()}
        lin["LinAlgError"] = np.linalg.LinAlgError
        d = self.__dict__
        d["linalg"] = NSub(np.linalg, "linalg", lin)
        d["random"] = NSub(np.random, "random", rng.RANDOM)
        d["float64"] = FloatingShim; d["floating"] = FloatingShim; d["float32"] = FloatingShim
        d["nan"] = NAN; d["inf"] = INF; d["newaxis"] = None
        d["__name__"] = "numpy"
        self._cache = {}

    @property
    def pi(self): return V.PI()
    @property
    def e(self): return const(F(math.e))

    @property
    def r_(self): raise Unsupported("np.r_")
    @property
    def c_(self): raise Unsupported("np.c_")

    def finfo(self, t=None):
        f = np.finfo(float)
        return types.SimpleNamespace(eps=const(F(f.eps)), tiny=const(F(f.tiny)), max=const(F(f.max)), min=const(F(f.min)), resolution=const(F("1e-15")), smallest_normal=const(F(f.tiny)))

    def issubdtype(self, a, b):
        if isinstance(a, type) and hasattr(a, "_real"): a = a._real
        if b is FloatingShim: b = np.floating
        if isinstance(b, type) and hasattr(b, "_real"): b = b._real
        return np.issubdtype(a, b)

    def dtype(self, t, *a):
        return np.dtype(realdt(t))

    def result_type(self, *a): return np.dtype(float)

    def __getattr__(self, n):
        if n.startswith("__"): return getattr(np, n)
        c = self._cache.get(n)
        if c is not None: return c
        v = getattr(np, n)
        if isinstance(v, np.ufunc): r = UfuncShim(v)
        elif isinstance(v, (type, types.ModuleType)): r = FUNC_OR(n, v)
        elif callable(v): r = FuncShim(n, v)
        else: return v
        self._cache[n] = r
        return r


def FUNC_OR(n, v):
    return FuncShim(n, v) if n in FUNCS else v


def fl(x):
    """float(x) as the instrumented code sees it."""
    if isinstance(x, Sym): return x
    if isinstance(x, SB): return V.ind(x)
    if isinstance(x, SArr):
        if x.size != 1: raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return fl(x.item())
    if isinstance(x, SymC): raise TypeError("float() argument must be a string or a real number, not 'complex'")
    if isinstance(x, bool): return const(_pyint(x))
    v = _pyfloat(x)
    if isinstance(x, str):
        try: return const(F(x.strip()))
        except ValueError: pass
    return lift(v)
