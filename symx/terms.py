"""Symbolic reals: canonical Laurent polynomials over hash-consed atoms, with exact rational
coefficients.  Atoms are inputs, pi, cos/sin of angle atoms, square roots, absolute values,
inverses of polynomials, integer quotients (mod/floor), if-then-else values, and uninterpreted
applications.  Every atom knows (a) its bounds, (b) its defining axioms for the solver, and
(c) how to evaluate itself numerically from the inputs."""
from __future__ import annotations
import math
from fractions import Fraction as F

NAN = float("nan")
INF = float("inf")
PI_F = F(math.pi)


class Unsupported(Exception):
    """The encoding does not cover an operation the code under test used."""


class Infeasible(BaseException):
    """The current path is infeasible (internal control flow, never an outcome of the code)."""


class PathLimit(Exception):
    pass


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "isint", "num", "axioms", "aux", "name", "pos", "nz")

    def __init__(self, id, kind, args, lo, hi, isint, num, name):
        self.id = id; self.kind = kind; self.args = args
        self.lo = lo; self.hi = hi; self.isint = isint
        self.num = num; self.axioms = None; self.aux = None; self.name = name
        self.pos = False; self.nz = False

    def __repr__(self):
        return self.name or "%s%d" % (self.kind, self.id)


class Ctx:
    """All state of one obligation: atoms, path condition, solver access."""
    def __init__(self):
        self.atoms = []; self.expbase = {}
        self.table = {}
        self.path = None          # engine.Path, set by the explorer
        self.trig = {}
        self.stats = {}
        self.pi = self.atom("PI", (), lo=PI_F, hi=PI_F, num=lambda env: math.pi, name="pi")
        self.pi.pos = True
        self.inputs = []          # (name, atom)
        self.replay_values = None

    def atom(self, kind, args, lo=None, hi=None, isint=False, num=None, name=None):
        key = (kind, args)
        a = self.table.get(key)
        if a is None:
            a = Atom(len(self.atoms), kind, args, lo, hi, isint, num, name)
            if lo is not None and lo > 0:
                a.pos = True
            self.atoms.append(a)
            self.table[key] = a
        return a


CTX: Ctx = None


def set_ctx(c):
    global CTX
    CTX = c


# ---------------------------------------------------------------- polynomials (dict mono -> F)
# mono: tuple of (atom_id, exp), sorted by atom_id; exp is a nonzero int
ONE = ()


def p_const(c):
    c = c if isinstance(c, F) else F(c)
    return {ONE: c} if c else {}


def p_atom(a, e=1):
    return {((a.id, e),): F(1)}


def p_add(p, q):
    if not p: return q
    if not q: return p
    if len(p) < len(q): p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v: r[m] = v
            else: del r[m]
    return r


def p_neg(p):
    return {m: -c for m, c in p.items()}


def p_sub(p, q):
    return p_add(p, p_neg(q))


def p_scale(p, c):
    if not c: return {}
    if c == 1: return p
    return {m: v * c for m, v in p.items()}


def m_mul_raw(m1, m2):
    if not m1: return m2
    if not m2: return m1
    i = j = 0; out = []
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]; b, f = m2[j]
        if a == b:
            if e + f: out.append((a, e + f))
            i += 1; j += 1
        elif a < b:
            out.append(m1[i]); i += 1
        else:
            out.append(m2[j]); j += 1
    out.extend(m1[i:]); out.extend(m2[j:])
    return tuple(out)


def m_poly(m):
    r = m_reduce(m)
    return {m: F(1)} if r is None else r


def m_reduce(m):
    """Return None if the monomial is already reduced, else the polynomial it reduces to."""
    atoms = CTX.atoms
    for idx, (a, e) in enumerate(m):
        k = atoms[a].kind
        if k == "SIN":
            if e >= 2 or e <= -1:
                if e <= -1:
                    # 1/s = s/(1-c^2): keep 1/s as is (rare) unless e <= -2
                    if e > -2: continue
                c = atoms[a].aux
                if e >= 2:
                    base = {ONE: F(1), ((c.id, 2),): F(-1)}
                    q, rem = divmod(e, 2)
                    rest = m[:idx] + (((a, 1),) if rem else ()) + m[idx + 1:]
                    return p_mul(m_poly(rest), p_pow(base, q))
        elif k in ("SQRT",):
            if e >= 2:
                p = atoms[a].args[0]
                q, rem = divmod(e, 2)
                rest = m[:idx] + (((a, 1),) if rem else ()) + m[idx + 1:]
                return p_mul(m_poly(rest), p_pow(dict(p), q))
            if e <= -2:
                p = dict(atoms[a].args[0])
                q, rem = divmod(-e, 2)
                rest = m[:idx] + (((a, -1),) if rem else ()) + m[idx + 1:]
                return p_mul(m_poly(rest), p_powz(p, -q))
            if e == 1:
                d = CTX.table.get(("DEN", (atoms[a].args[0],)))
                if d is not None:
                    for j, (b, f) in enumerate(m):
                        if b == d.id and f < 0:
                            mm = dict(m); mm[a] = -1
                            if f + 1: mm[b] = f + 1
                            else: del mm[b]
                            mm = tuple(sorted(mm.items()))
                            r = m_reduce(mm)
                            return r if r is not None else {mm: F(1)}
        elif k == "ABS":
            if e >= 2:
                p = atoms[a].args[0]
                q, rem = divmod(e, 2)
                rest = m[:idx] + (((a, 1),) if rem else ()) + m[idx + 1:]
                return p_mul(m_poly(rest), p_pow(dict(p), 2 * q))
        elif k == "IND":
            if e >= 2:
                rest = m[:idx] + ((a, 1),) + m[idx + 1:]
                return m_poly(rest)
        elif k == "SGN":
            if e >= 2 or e < 0:
                rem = e % 2
                rest = m[:idx] + (((a, 1),) if rem else ()) + m[idx + 1:]
                return m_poly(rest)
        elif k == "DEN":
            if e > 0:
                p = dict(atoms[a].args[0])
                rest = m[:idx] + m[idx + 1:]
                return p_mul(m_poly(rest), p_pow(p, e))
        elif k == "IMPOSSIBLE":
            pass
    return None


_LIMIT_TERMS = 60000


def p_mul(p, q):
    if not p or not q: return {}
    if len(p) == 1 and ONE in p: return p_scale(q, p[ONE])
    if len(q) == 1 and ONE in q: return p_scale(p, q[ONE])
    if len(p) * len(q) > 4000000:
        raise Unsupported("polynomial product too large (%d x %d terms)" % (len(p), len(q)))
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul_raw(m1, m2)
            c = c1 * c2
            red = m_reduce(m) if m else None
            if red is None:
                v = r.get(m)
                if v is None: r[m] = c
                else:
                    v += c
                    if v: r[m] = v
                    else: del r[m]
            else:
                for mm, cc in red.items():
                    v = r.get(mm)
                    cc = cc * c
                    if v is None: r[mm] = cc
                    else:
                        v += cc
                        if v: r[mm] = v
                        else: del r[mm]
    if len(r) > _LIMIT_TERMS:
        raise Unsupported("polynomial too large")
    return r


def p_pow(p, n):
    r = {ONE: F(1)}
    b = p
    while n:
        if n & 1: r = p_mul(r, b)
        n >>= 1
        if n: b = p_mul(b, b)
    return r


def p_powz(p, n):
    if n >= 0: return p_pow(p, n)
    return p_pow(p_inv(p), -n)


def p_key(p):
    return tuple(sorted(p.items()))


def p_isconst(p):
    return not p or (len(p) == 1 and ONE in p)


def p_constval(p):
    return p.get(ONE, F(0))


def p_pionly(p):
    pid = CTX.pi.id
    for m in p:
        if m and not (len(m) == 1 and m[0][0] == pid): return False
    return True


def p_pival(p):
    v = F(0)
    for m, c in p.items():
        v += c * (PI_F ** m[0][1] if m else 1)
    return v


def m_key(m):
    return (sum(abs(e) for _, e in m), m)


def p_lead(p):
    return max(p, key=m_key)


def p_normscale(p):
    """p = c * q with q having leading coefficient 1; returns (c, q)."""
    l = p_lead(p)
    c = p[l]
    if c == 1: return F(1), p
    return c, {m: v / c for m, v in p.items()}


def p_trydiv(n, d):
    """Exact division n/d if it succeeds by leading-term reduction, else None."""
    if not n: return {}
    if len(d) == 1:
        (m, c), = d.items()
        inv = tuple((a, -e) for a, e in m)
        for a, e in m:
            if CTX.atoms[a].kind in ("SIN", "SQRT", "ABS", "IND"): return None
        return p_mul(n, {inv: 1 / c})
    if len(n) > 3000 or len(d) > 300: return None
    ld = p_lead(d); cd = d[ld]
    q = {}
    r = n
    inv = tuple((a, -e) for a, e in ld)
    for _ in range(2 * len(n) + 20):
        if not r: return q
        lr = p_lead(r)
        m = m_mul_raw(lr, inv)
        have = dict(lr)
        ok = True
        for a, e in ld:
            if have.get(a, 0) < e: ok = False; break
        if not ok: return None
        t = {m: r[lr] / cd}
        q = p_add(q, t)
        r2 = p_sub(r, p_mul(t, d))
        if lr in r2: return None
        r = r2
        if len(r) > 5000: return None
    return None


def p_bounds(p):
    """Interval enclosure (lo, hi); None = unbounded."""
    lo = hi = F(0)
    atoms = CTX.atoms
    for m, c in p.items():
        a, b = F(1), F(1)
        for aid, e in m:
            at = atoms[aid]
            l, h = at.lo, at.hi
            if e < 0:
                if l is not None and l > 0:
                    l, h = (F(0) if h is None else 1 / h), 1 / l
                elif h is not None and h < 0:
                    l, h = 1 / h, (F(0) if l is None else 1 / l)
                elif at.pos or (l is not None and l >= 0):
                    l, h = F(0), None
                else:
                    l, h = None, None
                e = -e
            if e > 1:
                l, h = _ipow(l, h, e)
            a, b = _imul(a, b, l, h)
            if a is None and b is None: break
        if c < 0:
            a, b = (None if b is None else b * c), (None if a is None else a * c)
        else:
            a, b = (None if a is None else a * c), (None if b is None else b * c)
        lo = None if (lo is None or a is None) else lo + a
        hi = None if (hi is None or b is None) else hi + b
        if lo is None and hi is None: return None, None
    return lo, hi


def _ipow(l, h, e):
    if e % 2 == 1:
        return (None if l is None else l ** e), (None if h is None else h ** e)
    if l is not None and l >= 0:
        return l ** e, (None if h is None else h ** e)
    if h is not None and h <= 0:
        return h ** e, (None if l is None else l ** e)
    if l is None or h is None: return F(0), None
    return F(0), max(l ** e, h ** e)


def _imul(a, b, l, h):
    if None not in (a, b, l, h):
        v = (a * l, a * h, b * l, b * h)
        return min(v), max(v)
    if a is not None and a >= 0 and l is not None and l >= 0:
        return a * l, (None if (b is None or h is None) else b * h)
    if b is not None and b <= 0 and h is not None and h <= 0:
        return b * h, (None if (a is None or l is None) else a * l)
    if a is not None and a >= 0 and h is not None and h <= 0:
        return (None if (b is None or l is None) else b * l), a * h
    if b is not None and b <= 0 and l is not None and l >= 0:
        return (None if (a is None or h is None) else a * h), b * l
    return None, None


# ---------------------------------------------------------------- fractions of polynomials
def p_dens(p):
    """max negative exponent per atom over the monomials."""
    d = {}
    for m in p:
        for a, e in m:
            if e < 0 and -e > d.get(a, 0): d[a] = -e
    return d


def p_clear(p):
    """(numerator, [(atom, exp)]) with numerator free of negative exponents."""
    dens = {}
    for _ in range(12):
        d = p_dens(p)
        if not d: break
        atoms = CTX.atoms
        for a, e in d.items():
            dens[a] = dens.get(a, 0) + e
        r = {}
        for m, c in p.items():
            have = dict(m)
            mul = {ONE: F(1)}
            new = []
            for a, e in m:
                if a in d: continue
                new.append((a, e))
            t = {tuple(new): F(1)}
            for a, e in d.items():
                ex = e + have.get(a, 0)
                if ex:
                    at = atoms[a]
                    if at.kind == "DEN": t = p_mul(t, p_pow(dict(at.args[0]), ex))
                    else: t = p_mul(t, {((a, ex),): F(1)})
            r = p_add(r, p_scale(t, c))
        p = r
    return p, sorted(dens.items())


def p_canon(p):
    """Try to cancel DEN atoms against the numerator."""
    if not any(e < 0 and CTX.atoms[a].kind == "DEN" for m in p for a, e in m): return p
    n, dens = p_clear(p)
    if not n: return {}
    atoms = CTX.atoms
    out = []
    for a, e in dens:
        at = atoms[a]
        while e > 0:
            d = dict(at.args[0]) if at.kind == "DEN" else None
            if d is None: break
            q = p_trydiv(n, d)
            if q is None: break
            n = q; e -= 1
        if e: out.append((a, -e))
    return p_mul(n, {tuple(sorted(out)): F(1)})


def p_iszero(p):
    if not p: return True
    if not any(e < 0 for m in p for _, e in m): return False
    n, _ = p_clear(p)
    return not n


def p_inv(p):
    """1/p for a polynomial known to be nonzero on this path."""
    if not p: raise ZeroDivisionError
    p = p_canon(p)
    if len(p) == 1:
        (m, c), = p.items()
        r = {tuple((a, -e) for a, e in m): 1 / c}
        (m2, c2), = r.items()
        red = m_reduce(m2)
        return r if red is None else p_scale(red, c2)
    n, dens = p_clear(p)
    num = {ONE: F(1)}
    for a, e in dens:
        at = CTX.atoms[a]
        num = p_mul(num, p_pow(dict(at.args[0]), e) if at.kind == "DEN" else {((a, e),): F(1)})
    # factor out common monomial of n
    com, n2 = p_commonmono(n)
    if com:
        ic = tuple((a, -e) for a, e in com)
        red = m_reduce(ic)
        num = p_mul(num, red if red is not None else {ic: F(1)})
        n = n2
    if p_isconst(n):
        return p_scale(num, 1 / p_constval(n))
    c, q = p_normscale(n)
    a = den_atom(q)
    return p_mul(p_scale(num, 1 / c), {((a.id, -1),): F(1)})


def p_commonmono(p):
    """Largest monomial (positive exps, over atoms without reduction rules) dividing all terms."""
    it = iter(p)
    common = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(common):
            e = d.get(a, 0)
            if e <= 0: del common[a]
            elif e < common[a]: common[a] = e
        if not common: break
    common = {a: e for a, e in common.items() if e > 0 and CTX.atoms[a].kind not in ("SIN", "SQRT", "ABS", "IND", "SGN")}
    if not common: return (), p
    cm = tuple(sorted(common.items()))
    inv = tuple((a, -e) for a, e in cm)
    return cm, {m_mul_raw(m, inv): c for m, c in p.items()}


def den_atom(q):
    key = p_key(q)
    lo, hi = p_bounds(q)
    def num(env, q=q): return evalp(q, env)
    a = CTX.atom("DEN", (key,), lo=lo, hi=hi, num=num)
    return a


# ---------------------------------------------------------------- numeric evaluation
class NumEnv:
    def __init__(self, values):
        self.v = dict(values)     # atom id -> float

    def atom(self, aid):
        v = self.v.get(aid)
        if v is None:
            a = CTX.atoms[aid]
            if a.num is None: raise Unsupported("no numeric value for %r" % a)
            v = a.num(self)
            self.v[aid] = v
        return v


def evalp(p, env):
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for a, e in m:
            x = env.atom(a)
            if x == 0.0 and e < 0: return NAN
            t *= x ** e
        s += t
    return s


def clone_atom(a):
    b = Atom(a.id, a.kind, a.args, a.lo, a.hi, a.isint, a.num, a.name)
    b.axioms = a.axioms; b.aux = a.aux; b.pos = a.pos; b.nz = a.nz
    return b


def _clone(self):
    """A fresh context containing copies of this one's atoms (constants made at import time)."""
    c = Ctx.__new__(Ctx); c.expbase = {k: list(v) for k, v in self.expbase.items()}
    m = {}
    c.atoms = []
    for a in self.atoms:
        b = clone_atom(a); m[id(a)] = b; c.atoms.append(b)
    for b in c.atoms:
        if isinstance(b.aux, Atom): b.aux = m[id(b.aux)]
        elif isinstance(b.aux, tuple): b.aux = tuple(m.get(id(x), x) if isinstance(x, Atom) else x for x in b.aux)
    c.table = {k: m[id(v)] for k, v in self.table.items()}
    c.path = None; c.trig = {k: list(v) for k, v in self.trig.items()}; c.stats = {}
    c.pi = m[id(self.pi)]; c.inputs = []; c.replay_values = None
    return c


Ctx.clone = _clone


# ---------------------------------------------------------------- bounds of trigonometric polynomials
_FS = {(0, 0): {0: (F(1), F(0))}}


def _fs(a, b):
    """Fourier coefficients of cos^a sin^b"""
    r = _FS.get((a, b))
    if r is None:
        r = {}
        for k, (x, y) in (_fs(a - 1, b) if a else _fs(a, b - 1)).items():
            # cos = (z + 1/z) / 2, sin = (z - 1/z) / 2i
            for s in (1, -1):
                u, v = (x / 2, y / 2) if a else (s * y / 2, -s * x / 2)
                p, q = r.get(k + s, (F(0), F(0))); r[k + s] = (p + u, q + v)
        _FS[(a, b)] = r
    return r


def fourier_bounds(p):
    """Interval enclosure of p by the absolute sum of its Fourier coefficients (exact cancellation between powers)."""
    acc = {}
    for m, c in p.items():
        rest = []; ang = {}
        for i, e in m:
            a = CTX.atoms[i]
            if a.kind in ("COS", "SIN") and e > 0 and isinstance(a.aux, Atom):
                base = min(i, a.aux.id); t = ang.setdefault(base, [0, 0]); t[a.kind == "SIN"] += e
            else: rest.append((i, e))
        terms = [((), F(1), F(0))]
        for base in sorted(ang):
            terms = [(k + ((base, n),) if n else k, x * u - y * v, x * v + y * u) for k, x, y in terms for n, (u, v) in _fs(*ang[base]).items()]
        d = acc.setdefault(tuple(rest), {})
        for k, x, y in terms:
            u, v = d.get(k, (F(0), F(0))); d[k] = (u + c * x, v + c * y)
    lo = hi = F(0)
    for rest, d in acc.items():
        s = sum(abs(x) + abs(y) for k, (x, y) in d.items() if k); z = d.get((), (F(0), F(0)))[0]
        l, h = p_bounds({rest: F(1)})
        if l is None or h is None:
            if s or z: return None, None
            continue
        c = [(z - s) * l, (z - s) * h, (z + s) * l, (z + s) * h]; lo += min(c); hi += max(c)
    return lo, hi
