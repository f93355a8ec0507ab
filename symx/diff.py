"""Exact derivative of a symbolic value with respect to an input atom."""
from __future__ import annotations
import math
from fractions import Fraction as F
from . import terms as T
from .terms import ONE, Unsupported, p_const, p_atom, p_add, p_mul, p_scale, p_neg, p_inv, p_sub, p_canon
from . import values as V
from .values import Sym


def diff(p, x):
    memo = {}

    def dpoly(p):
        out = {}
        for m, c in p.items():
            for i, (a, e) in enumerate(m):
                d = datom(a)
                if not d: continue
                rest = {}
                mm = list(m[:i]) + ([(a, e - 1)] if e != 1 else []) + list(m[i + 1:])
                out = p_add(out, p_scale(p_mul({tuple(mm): F(1)}, d), c * e))
        return p_canon(out)

    def datom(aid):
        if aid == x: return p_const(1)
        r = memo.get(aid)
        if r is None: r = memo[aid] = d1(T.CTX.atoms[aid])
        return r

    def d1(a):
        k = a.kind
        if k in ("IN", "PI", "QT", "RND", "MODK", "FLOOR", "INTV", "ROUND", "SGN"):
            return {}
        if k == "IND": return {}
        if k in ("COS", "SIN"):
            d = dpoly({a.args[0]: a.args[1]})
            if not d: return {}
            o = p_atom(a.aux)
            return p_mul(p_neg(o) if k == "COS" else o, d)
        if k == "SQRT":
            d = dpoly(dict(a.args[0]))
            return p_mul(p_scale(d, F(1, 2)), p_inv(p_atom(a))) if d else {}
        if k == "ABS":
            q = dict(a.args[0]); d = dpoly(q)
            if not d: return {}
            return p_mul(p_mul(d, q), p_inv(p_atom(a)))
        if k == "DEN": return dpoly(dict(a.args[0]))
        if k == "ITE":
            c, u, v = a.aux
            return V.ite(c, Sym(dpoly(u)), Sym(dpoly(v))).p
        if k == "MODR":
            p, m, q = a.aux
            return p_sub(dpoly(p), p_mul(p_atom(q), dpoly(m)))
        if k == "ATAN2":
            c, s, X, Y = a.aux
            dX, dY = dpoly(X), dpoly(Y)
            num = p_sub(p_mul(X, dY), p_mul(Y, dX))
            if not num: return {}
            return p_mul(num, p_inv(p_add(p_mul(X, X), p_mul(Y, Y))))
        if k in ("ACOS", "ASIN"):
            c, s = a.aux
            v, o = (c, s) if k == "ACOS" else (s, c)
            d = dpoly(v)
            if not d: return {}
            r = p_mul(d, p_inv(o))
            return p_neg(r) if k == "ACOS" else r
        if k == "EXP":
            d = dpoly({a.args[0]: a.args[1]})
            return p_mul(p_atom(a), d) if d else {}
        if k == "LOG":
            q = dict(a.args[0]); d = dpoly(q)
            return p_mul(d, p_inv(q)) if d else {}
        if k == "ANTI":
            inn, tid, up = a.aux
            for m, _ in inn:
                if m == tid: continue
                # the integrand itself must not move with x
                from .scishim import atom_deps
                st = [m]; seen = set()
                while st:
                    z = st.pop()
                    if z in seen: continue
                    seen.add(z)
                    if z == x: raise Unsupported("derivative under the integral")
                    if z != tid: st.extend(atom_deps(T.CTX.atoms[z]))
            d = dpoly(up)
            if not d: return {}
            return p_mul(subst({inn: F(1)}, tid, up), d)
        if k == "UF":
            nm, ps = a.aux[0], a.aux[1]
            ds = [dpoly(q) for q in ps]
            if not any(ds): return {}
            if nm == "ndtr":
                z = Sym(ps[0])
                return (V.sexp(-(z * z) / 2) / V.ssqrt(2 * V.PI()) * Sym(ds[0])).p
            if nm == "iv0":
                from .scishim import i1
                return p_mul(i1(Sym(ps[0])).p, ds[0])
            raise Unsupported("derivative of %s" % nm)
        raise Unsupported("derivative of %s" % k)

    return dpoly(p)


def subst(p, aid, up):
    """p with the atom `aid` replaced by the polynomial `up` (rebuilding the atoms that contain it)."""
    memo = {aid: Sym(up)}

    def atom(i):
        r = memo.get(i)
        if r is None: r = memo[i] = re(T.CTX.atoms[i])
        return r

    def poly(q):
        out = V.const(0)
        for m, c in q.items():
            t = V.const(c)
            for a, e in m:
                f = atom(a)
                t = t * f ** e if e > 0 else t / f ** (-e)
            out = out + t
        return out

    def re(a):
        from .scishim import _depends
        if not _depends(T.CTX.atoms[aid])(a.id): return Sym(p_atom(a))
        k = a.kind
        if k in ("COS", "SIN"):
            c, s = V.cos_sin(poly({a.args[0]: a.args[1]}).p)
            return c if k == "COS" else s
        if k == "SQRT": return V.ssqrt(poly(dict(a.args[0])))
        if k == "ABS": return V.sabs(poly(dict(a.args[0])))
        if k == "DEN": return poly(dict(a.args[0]))
        if k == "EXP": return V.sexp(poly({a.args[0]: a.args[1]}))
        if k == "LOG": return V.slog(poly(dict(a.args[0])))
        if k == "MODR": return V.s_mod(poly(a.aux[0]), poly(a.aux[1]))
        if k == "ITE":
            c, u, v = a.aux
            return V.ite(boo(c), poly(u), poly(v))
        if k == "ATAN2": return V.satan2(poly(a.aux[3]), poly(a.aux[2]))
        if k == "ACOS": return V.sacos(poly(a.aux[0]))
        if k == "ASIN": return V.sasin(poly(a.aux[1]))
        if k == "UF":
            nm, ps = a.aux[0], a.aux[1]
            from . import scishim
            if nm == "ndtr": return scishim.ndtr(poly(ps[0]))
            if nm == "iv0": return scishim.i0(poly(ps[0]))
            if nm == "iv1": return scishim.i1(poly(ps[0]))
        raise Unsupported("substitution into %s" % k)

    def boo(b):
        if b.op == "and": return V.b_and([boo(x) for x in b.args])
        if b.op == "or": return V.b_or([boo(x) for x in b.args])
        return V.cmp(b.op, poly(b.args).p)

    return poly(p).p
