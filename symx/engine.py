"""Path exploration: re-execute the harness under every feasible sequence of branch decisions."""
from __future__ import annotations
import time, math
from fractions import Fraction as F
from . import terms as T
from .terms import Unsupported, Infeasible, PathLimit
from . import values as V
from .values import SB, Sym, b_not, b_and, b_or, as_bool, to_sym
from . import smt


def split(p):
    """p = c*q + k with q constant-free and normalised: (k, key of q, c)."""
    k = p.get(T.ONE, F(0))
    q = {m: v for m, v in p.items() if m} if k else p
    c, q = T.p_normscale(q)
    return k, T.p_key(q), c


def _main(q):
    """the monomial with the largest coefficient (the greatest of those within rounding of it), multiples of pi aside"""
    q = {m: c for m, c in q.items() if any(T.CTX.atoms[i].kind != "PI" for i, _ in m)} or q
    t = max(abs(c) for c in q.values()) * F(999999, 1000000)
    return max((m for m, c in q.items() if abs(c) >= t), key=T.m_key)


class Path:
    def __init__(self, prefix, opts):
        self.prefix = prefix      # list of [choice, remaining alternatives]
        self.pos = 0
        self.pc = []
        self.keys = {}
        self.lin = {}             # constant-free polynomial (leading coefficient 1) -> [lo, strict, hi, strict]
        self.big = {}             # main monomial -> long polynomials of self.lin
        self.opts = opts
        self.goals = []
        self.choices = prefix
        self.deadline = opts.get("deadline")

    # ---- knowledge
    def known(self, b):
        if isinstance(b, bool): return b
        k = self.keys.get(b.key)
        if k is not None: return k
        if b.op == "and":
            vs = [self.known(x) for x in b.args]
            if any(v is False for v in vs): return False
            if all(v is True for v in vs): return True
            return None
        if b.op == "or":
            vs = [self.known(x) for x in b.args]
            if any(v is True for v in vs): return True
            if all(v is False for v in vs): return False
            return None
        # le implied by lt / eq ; ne implied by lt
        p = b.args
        if b.op == "le":
            if self.keys.get(("lt", b.key[1])) is True: return True
        elif b.op in ("eq", "ne"):
            q = T.p_key(T.p_neg(p))
            for kk in (b.key[1], q):
                if self.keys.get(("lt", kk)) is True: return b.op == "ne"
            if self.keys.get(("le", b.key[1])) is True and self.keys.get(("le", q)) is True: return b.op == "eq"
        return self.by_interval(b.op, p)

    def by_interval(self, op, p):
        k, key, c = split(p)
        iv = self.lin.get(key)
        if iv is None:
            lo, hi = self.bounds_of(p)
            if hi is not None and (hi < 0 or hi == 0 and op == "le"): return op != "eq"
            if lo is not None and (lo > 0 or lo == 0 and op == "lt"): return op == "ne"
            if len(key) < 4: return None
            iv = self.near(dict(key))
            if iv is None: return None
        lo, ls, hi, hs = iv
        t = -k / c                                   # c*q + k (op) 0  <=>  q (op or flipped) t
        if op in ("eq", "ne"):
            if (lo is not None and (t < lo or (t == lo and ls))) or (hi is not None and (t > hi or (t == hi and hs))): return op == "ne"
            return None
        if c > 0:                                    # q <(=) t
            if hi is not None and (hi < t or (hi == t and (hs or op == "le"))): return True
            if lo is not None and (lo > t or (lo == t and (ls or op == "lt"))): return False
        else:                                        # q >(=) t
            if lo is not None and (lo > t or (lo == t and (ls or op == "le"))): return True
            if hi is not None and (hi < t or (hi == t and (hs or op == "lt"))): return False
        return None

    def bounds_of(self, p):
        """interval of p from the bounds of its atoms and from recorded linear bounds"""
        lo, hi = T.p_bounds(p)
        pi = {m: c for m, c in p.items() if not m or all(T.CTX.atoms[i].kind == "PI" for i, _ in m)}
        q = {m: c for m, c in p.items() if m not in pi}
        if not q: return lo, hi
        c, r = T.p_normscale(q)
        iv = self.lin.get(T.p_key(r))
        if iv is None: return lo, hi
        a, b = T.p_bounds(pi); l, h = iv[0], iv[2]
        if c < 0: l, h = h, l
        if l is not None and a is not None and (lo is None or l * c + a > lo): lo = l * c + a
        if h is not None and b is not None and (hi is None or h * c + b < hi): hi = h * c + b
        return lo, hi

    def near(self, q):
        """bounds of q from those of recorded polynomials that differ from it by rounding only"""
        m = _main(q); f = q[m]; res = None
        for r, c, iv in self.big.get(m, ()):
            d = T.p_sub(T.p_scale(q, 1 / f), r); a, b = T.p_bounds(d)
            if a is None or b is None or b - a > F(1, 10 ** 9): a, b = T.fourier_bounds(d)
            if a is None or b is None or b - a > F(1, 10 ** 6): continue
            # recorded polynomial = c * r ; q = f * (r + d)
            lo, hi = iv[0], iv[2]
            if c < 0: lo, hi = hi, lo
            lo, hi = None if lo is None else lo / c + a, None if hi is None else hi / c + b
            if f < 0: lo, hi = hi, lo
            lo, hi = None if lo is None else lo * f, None if hi is None else hi * f
            if res is None: res = [lo, False, hi, False]
            else:
                if lo is not None and (res[0] is None or lo > res[0]): res[0] = lo
                if hi is not None and (res[2] is None or hi < res[2]): res[2] = hi
        return res

    def note(self, op, p):
        k, key, c = split(p)
        iv = self.lin.setdefault(key, [None, False, None, False])
        if len(key) >= 4 and iv[0] is None and iv[2] is None:
            q = dict(key); m = _main(q); self.big.setdefault(m, []).append((T.p_scale(q, 1 / q[m]), q[m], iv))
        t = -k / c; st = op == "lt"
        if op == "eq" or c > 0:
            if iv[2] is None or t < iv[2] or (t == iv[2] and st): iv[2], iv[3] = t, st
        if op == "eq" or c < 0:
            if iv[0] is None or t > iv[0] or (t == iv[0] and st): iv[0], iv[1] = t, st
        if op == "eq": return
        # sum of nonnegative terms < c*m  makes m positive
        bad = None; strict = op == "lt"
        for m, cf in p.items():
            lo, _ = T.p_bounds({m: cf})
            if lo is not None and lo >= 0:
                if lo > 0: strict = True
                continue
            if bad is not None: return
            bad = m
        if bad and strict and p[bad] < 0 and all(T.CTX.atoms[i].lo is not None and T.CTX.atoms[i].lo >= 0 or T.CTX.atoms[i].pos for i, _ in bad):
            for i, _ in bad: T.CTX.atoms[i].pos = True

    known_quick = known

    def add(self, b):
        if isinstance(b, bool):
            if not b: raise Infeasible()
            return
        if b.op == "and":
            for x in b.args: self.add(x)
            return
        if b.key in self.keys: return
        self.pc.append(b)
        self.keys[b.key] = True
        nb = b_not(b)
        if isinstance(nb, SB): self.keys[nb.key] = False
        if b.op in ("le", "lt", "eq"): self.note(b.op, b.args)
        # refine bounds of single atoms
        if b.op in ("le", "lt") and len(b.args) <= 2: self.refine(b.args, b.op)
        elif b.op == "ne":
            if len(b.args) == 1:
                for i, _ in next(iter(b.args)): T.CTX.atoms[i].nz = True
            t = T.CTX.table
            for k in (b.key[1], T.p_key(T.p_neg(b.args))):
                a = t.get(("SQRT", (k,)))
                if a is not None: a.pos = True
                a = t.get(("DEN", (k,)))
                if a is not None: a.nz = True

    def refine(self, p, op):
        """c*m + k (<|<=) 0 with k rational: bounds of the atoms of the monomial m (valid on this path only)."""
        monos = [m for m in p if m]
        if len(monos) != 1: return
        m = monos[0]
        if any(e != 1 for _, e in m): return
        at = [T.CTX.atoms[i] for i, _ in m]
        c = p[m]; k = p.get(T.ONE, F(0))
        bnd = -k / c
        if len(at) == 1:
            self.setb(at[0], c, bnd, op); return
        if any(a.lo is None or a.lo < 0 for a in at): return
        if c < 0 and (bnd > 0 or (bnd == 0 and op == "lt")):
            for a in at: a.pos = True
        for a in at:
            if a.kind == "PI": continue
            lo, hi = F(1), F(1)
            for o in at:
                if o is a: continue
                lo *= o.lo; hi = None if hi is None or o.hi is None else hi * o.hi
            if c < 0 and hi and bnd > 0: self.setb(a, c, bnd / hi, op)
            elif c > 0 and lo > 0 and bnd >= 0: self.setb(a, c, bnd / lo, op)

    def setb(self, a, c, bnd, op):
        if a.kind == "PI": return
        if c > 0:
            if a.hi is None or bnd < a.hi: a.hi = bnd
        else:
            if a.lo is None or bnd > a.lo: a.lo = bnd
            if bnd > 0 or (bnd == 0 and op == "lt"): a.pos = True

    def assume(self, b):
        b = as_bool(b)
        if isinstance(b, bool):
            if not b: raise Infeasible()
            return
        k = self.known(b)
        if k is False: raise Infeasible()
        if k is None: self.add(b)

    def feasible(self, b, ms=None):
        """False only if the solver shows pc & b unsatisfiable."""
        if isinstance(b, bool): return b
        ms = ms or self.opts.get("branch_ms", 400)
        sl = smt.slice_pc(self.pc, smt.sb_atoms(b))
        r, _ = smt.run(sl + [b], ms, level=self.opts.get("branch_level", 1))
        return r != "unsat"

    def check_time(self):
        if self.deadline and time.time() > self.deadline: raise PathLimit("time limit")

    def decide(self, b):
        k = self.known(b)
        if k is not None: return k
        self.check_time()
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos][0]
        else:
            if len(self.prefix) > self.opts.get("max_depth", 400): raise PathLimit("depth")
            t = self.feasible(b)
            f = self.feasible(b_not(b)) if t else True
            if t and f:
                ch = True; self.prefix.append([True, [False]])
            else:
                ch = bool(t); self.prefix.append([ch, []])
        self.pos += 1
        try: self.add(b if ch else b_not(b))
        except Infeasible: raise
        return ch

    def choose(self, n):
        """Nondeterministic choice 0..n-1."""
        if n == 1: return 0
        if self.pos < len(self.prefix): ch = self.prefix[self.pos][0]
        else:
            ch = 0; self.prefix.append([0, list(range(1, n))])
        self.pos += 1
        return ch

    def concretize(self, s):
        lo, hi = V.sym_bounds(s)
        self.check_time()
        if lo is None or hi is None or hi - lo > 64:
            lo, hi = self.int_range(s, lo, hi)
        lo, hi = math.ceil(lo), math.floor(hi)
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos][0]
        else:
            vals = [v for v in range(lo, hi + 1) if self.feasible(_eq(s, v))]
            if not vals: raise Infeasible()
            ch = vals[0]
            self.prefix.append([ch, vals[1:]])
        self.pos += 1
        self.add(as_bool(_eq(s, ch)))
        return ch

    def int_range(self, s, lo, hi):
        for w in (8, 32, 64):
            if not self.feasible(as_bool((s > w))) and not self.feasible(as_bool(s < -w)): return -w, w
        raise Unsupported("unbounded integer in control flow")


def _eq(s, v): return V.cmp("eq", T.p_sub(s.p, T.p_const(v)))


class Explorer:
    def __init__(self, opts, prelude=None):
        self.opts = dict(opts)
        self.prelude = prelude
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0

    def run(self, body):
        """Calls body() once per feasible path, yielding (path, result, exception)."""
        prefix = []
        t0 = time.time()
        while True:
            if self.paths + self.infeasible > self.opts.get("max_paths", 2000): raise PathLimit("path limit %d" % self.opts.get("max_paths", 2000))
            if time.time() - t0 > self.opts.get("max_s", 600): raise PathLimit("time limit %ds" % self.opts.get("max_s", 600))
            ctx = T.Ctx() if self.prelude is None else self.prelude.clone()
            T.set_ctx(ctx)
            p = Path(prefix, self.opts); ctx.path = p
            exc = res = None
            try:
                res = body()
                self.paths += 1; self.decisions += p.pos
                ok = True
            except Infeasible:
                self.infeasible += 1; ok = False
            if ok: yield p, res
            # next prefix
            del prefix[p.pos:]
            while prefix and not prefix[-1][1]: prefix.pop()
            if not prefix: return
            alts = prefix[-1][1]
            prefix[-1] = [alts[0], alts[1:]]
