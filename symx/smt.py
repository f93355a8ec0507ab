"""SMT encoding of the symbolic values and solver access (z3, cvc5 as a second opinion)."""
from __future__ import annotations
import math, os, sys, time
from fractions import Fraction as F
import z3
from . import terms as T
from .terms import ONE, PI_F, p_key, p_bounds, p_const, p_atom, p_mul, p_sub, p_scale, p_add
from . import values as V
from .values import SB, Sym
from .scishim import poly_atoms, sb_atoms, MONO

STAT = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "max": 0.0}
DEBUG = os.environ.get('PYCS_DEBUG')


def rv(f):
    return z3.RealVal(str(f)) if not isinstance(f, int) else z3.RealVal(f)


class Enc:
    """One query's encoding."""
    def __init__(self, level=2):
        self.level = level       # 0: bounds only, 1: + algebraic definitions, 2: + angle links
        self.vars = {}
        self.inv = {}
        self.cons = []
        self.done = set()
        self.queue = []
        self.cache = {}

    def var(self, aid):
        v = self.vars.get(aid)
        if v is None:
            a = T.CTX.atoms[aid]
            if a.kind == "PI": v = rv(PI_F)
            else:
                v = z3.Real("a%d" % aid)
                self.queue.append(aid)
            self.vars[aid] = v
        return v

    def ivar(self, aid):
        v = self.inv.get(aid)
        if v is None:
            a = T.CTX.atoms[aid]
            if a.kind == "PI": v = rv(1 / PI_F)
            else:
                v = z3.Real("i%d" % aid)
                x = self.var(aid)
                self.cons.append(v * x == 1)
                if a.pos: self.cons += [v > 0, x > 0]
                if a.lo is not None and a.lo > 0: self.cons.append(v <= rv(1 / a.lo))
                if a.hi is not None and a.lo is not None and a.lo >= 0 and a.hi > 0: self.cons.append(v >= rv(1 / a.hi))
            self.inv[aid] = v
        return v

    def poly(self, p):
        if not p: return rv(0)
        k = p_key(p)
        r = self.cache.get(k)
        if r is not None: return r
        ts = []
        for m, c in p.items():
            fs = []
            for a, e in m:
                if T.CTX.atoms[a].kind == "PI": c = c * PI_F ** e; continue
                x = self.var(a) if e > 0 else self.ivar(a)
                fs += [x] * abs(e)
            if not fs: ts.append(rv(c)); continue
            t = fs[0]
            for f in fs[1:]: t = t * f
            if c != 1: t = rv(c) * t
            ts.append(t)
        r = ts[0] if len(ts) == 1 else z3.Sum(ts)
        self.cache[k] = r
        return r

    def sb(self, b):
        if isinstance(b, bool): return z3.BoolVal(b)
        if b.op == "and": return z3.And([self.sb(x) for x in b.args])
        if b.op == "or": return z3.Or([self.sb(x) for x in b.args])
        t = self.poly(b.args)
        return {"le": t <= 0, "lt": t < 0, "eq": t == 0, "ne": t != 0}[b.op]

    def close(self):
        """Emit the axioms of every atom reached (transitively)."""
        while self.queue:
            aid = self.queue.pop()
            if aid in self.done: continue
            self.done.add(aid)
            self.axioms(aid)
        if self.level >= 2:
            self.links()
            while self.queue:
                aid = self.queue.pop()
                if aid in self.done: continue
                self.done.add(aid)
                self.axioms(aid)

    def axioms(self, aid):
        a = T.CTX.atoms[aid]
        v = self.var(aid)
        C = self.cons
        if a.lo is not None: C.append(v >= rv(a.lo))
        if a.hi is not None: C.append(v <= rv(a.hi))
        if a.pos: C.append(v > 0)
        k = a.kind
        if self.level == 0: return
        if k in ("COS",):
            s = self.var(a.aux.id)
            C.append(v * v + s * s == 1)
        elif k == "SIN":
            self.var(a.aux.id)
        elif k == "SQRT":
            C.append(v >= 0); C.append(v * v == self.poly(dict(a.args[0])))
        elif k == "ABS":
            x = self.poly(dict(a.args[0]))
            C += [v >= 0, v >= x, v >= -x, z3.Or(v == x, v == -x)]
        elif k == "DEN":
            C.append(v == self.poly(dict(a.args[0])))
        elif k == "IND":
            b = self.sb(a.aux)
            C.append(z3.If(b, v == 1, v == 0))
        elif k == "ITE":
            c, x, y = a.aux
            C.append(z3.If(self.sb(c), v == self.poly(x), v == self.poly(y)))
        elif k == "SGN":
            C.append(z3.Or(v == 1, v == -1))
            ks = [x for x, e in a.args[0]]
            if len(ks) == 1:
                t = T.CTX.atoms[ks[0]]
                if t.lo is not None and t.hi is not None and t.hi - t.lo <= 12:
                    C.append(z3.And([z3.Implies(self.var(ks[0]) == j, v == (1 if j % 2 == 0 else -1)) for j in range(int(t.lo), int(t.hi) + 1)]))
        elif k in ("MODR", "MODK"):
            if k == "MODK":
                p, m, r = a.aux
                self.var(r.id)
                self.integer(a, v)
            else:
                p, m, q = a.aux
                C.append(v == self.poly(p) - self.poly(m) * self.var(q.id))
                C += [v >= 0, v < self.poly(m)]
        elif k in ("FLOOR",):
            x = self.poly(dict(a.args[0]))
            C += [v <= x, x < v + 1]; self.integer(a, v)
        elif k == "INTV":
            C.append(v == self.poly(dict(a.args[0]))); self.integer(a, v)
        elif k == "ROUND":
            x = self.poly(dict(a.args[0])) * rv(F(10) ** a.args[1])
            C += [v - x <= rv(F(1, 2)), x - v <= rv(F(1, 2))]; self.integer(a, v)
        elif k == "ATAN2":
            c, s, x, y = a.aux
            X, Y = self.poly(x), self.poly(y)
            h = rv(PI_F / 2)
            C += [z3.Implies(Y >= 0, v >= 0), z3.Implies(Y < 0, v < 0), z3.Implies(X >= 0, z3.And(v <= h, v >= -h)),
                  z3.Implies(X < 0, z3.Or(v > h, v < -h)), z3.Implies(z3.And(Y == 0, X > 0), v == 0), z3.Implies(z3.And(Y > 0), v > 0),
                  z3.Implies(z3.And(Y == 0, X < 0), v == rv(PI_F))]
            C += [z3.Implies(X > 0, z3.And(z3.Or(X * v <= Y, Y < 0), z3.Or(X * v >= Y, Y > 0)))] if len(x) + len(y) < 30 else []
        elif k in ("ACOS", "ASIN"):
            cp, sp = a.aux
            x = self.poly(cp if k == "ACOS" else sp)
            h = rv(PI_F / 2)
            if k == "ACOS":
                C += [(x >= 0) == (v <= h), z3.Implies(x == 1, v == 0), z3.Implies(x < 1, v > 0), z3.Implies(x == -1, v == rv(PI_F)), z3.Implies(x > -1, v < rv(PI_F))]
            else:
                C += [(x >= 0) == (v >= 0), z3.Implies(x == 0, v == 0), z3.Implies(x >= 0, v >= x), z3.Implies(x <= 0, v <= x)]
        elif k == "EXP":
            x = self.poly({a.args[0]: a.args[1]})
            C += [v > 0, v >= 1 + x, (x > 0) == (v > 1), (x < 0) == (v < 1)]
        elif k == "LOG":
            x = self.poly(dict(a.args[0]))
            C += [x > 0, v <= x - 1, (x > 1) == (v > 0), (x < 1) == (v < 0)]
        if a.isint and k in ("IN", "RND"): self.integer(a, v)
        if a.axioms:
            for b in a.axioms: C.append(self.sb(b))

    def integer(self, a, v):
        if a.lo is not None and a.hi is not None and a.hi - a.lo <= 12:
            self.cons.append(z3.Or([v == j for j in range(math.ceil(a.lo), math.floor(a.hi) + 1)]))
        else:
            i = z3.Int("n%d" % a.id)
            self.cons.append(v == z3.ToReal(i))

    def links(self):
        """Angle <-> (cos, sin) links, and monotonicity between applications of the same function."""
        ctx = T.CTX
        C = self.cons
        ids = list(self.done)
        angs = []
        for aid in ids:
            a = ctx.atoms[aid]
            if a.kind == "COS":
                mono, sc = a.args
                # only when the angle value itself also occurs in the query
                if all((x in self.vars) for x, _ in mono):
                    t = self.poly({mono: sc}); lo, hi = p_bounds({mono: sc})
                    angs.append((t, lo, hi, self.vars[aid], self.var(a.aux.id)))
            elif a.kind == "ATAN2" and self.level >= 2:
                c, s, x, y = a.aux
                if len(x) + len(y) <= 12: angs.append((self.vars[aid], -PI_F, PI_F, self.poly(c), self.poly(s)))
            elif a.kind in ("ACOS", "ASIN"):
                c, s = a.aux
                angs.append((self.vars[aid], a.lo, a.hi, self.poly(c), self.poly(s)))
        pi, h = rv(PI_F), rv(PI_F / 2)
        for t, lo, hi, c, s in angs:
            if lo is None or hi is None or hi - lo > 40: continue
            k0 = math.floor(lo / (2 * PI_F)); k1 = math.floor(hi / (2 * PI_F))
            for k in range(k0, k1 + 1):
                u = t - rv(2 * PI_F * k)
                inr = z3.And(u >= 0, u <= 2 * pi) if k0 != k1 else z3.BoolVal(True)
                if k0 == k1 and lo < 2 * PI_F * k0: pass
                C.append(z3.Implies(inr, z3.And(
                    z3.Implies(z3.And(u > 0, u < pi), s > 0), z3.Implies(z3.And(u > pi, u < 2 * pi), s < 0),
                    z3.Implies(z3.Or(u < h, u > 3 * h), c > 0), z3.Implies(z3.And(u > h, u < 3 * h), c < 0),
                    z3.Implies(u == 0, c == 1), z3.Implies(u == pi, c == -1), z3.Implies(u == h, s == 1), z3.Implies(u == 3 * h, s == -1))))
        if len(angs) <= 6:
            for i in range(len(angs)):
                for j in range(i):
                    a, b = angs[i], angs[j]
                    if None in (a[1], a[2], b[1], b[2]): continue
                    lo, hi = a[1] - b[2], a[2] - b[1]
                    d = a[0] - b[0]
                    sd = a[4] * b[3] - a[3] * b[4]
                    cd = a[3] * b[3] + a[4] * b[4]
                    for k in range(math.floor(lo / PI_F), math.floor(hi / PI_F) + 1):
                        C.append(z3.Implies(z3.And(d > k * pi, d < (k + 1) * pi), sd > 0 if k % 2 == 0 else sd < 0))
                        C.append(z3.Implies(d == k * pi, z3.And(sd == 0, cd == (1 if k % 2 == 0 else -1))))
        cs = [ctx.atoms[i] for i in ids if ctx.atoms[i].kind == "COS"]
        if 2 <= len(cs) <= 7:
            for i in range(len(cs)):
                for j in range(i):
                    a, b = cs[i], cs[j]
                    ca, sa, cb, sb = (self.vars[x] for x in (a.id, a.aux.id, b.id, b.aux.id))
                    C += [ca * cb + sa * sb <= 1, ca * cb + sa * sb >= -1]
        # monotone / congruent families
        fam = {}
        for aid in ids:
            a = ctx.atoms[aid]
            if a.kind == "EXP": fam.setdefault("exp", []).append((self.poly({a.args[0]: a.args[1]}), [], self.vars[aid]))
            elif a.kind == "LOG": fam.setdefault("log", []).append((self.poly(dict(a.args[0])), [], self.vars[aid]))
            elif a.kind == "ACOS": fam.setdefault("-acos", []).append((self.poly(a.aux[0]), [], self.vars[aid]))
            elif a.kind == "ASIN": fam.setdefault("asin", []).append((self.poly(a.aux[1]), [], self.vars[aid]))
            elif a.kind == "SQRT": fam.setdefault("sqrt", []).append((self.poly(dict(a.args[0])), [], self.vars[aid]))
            elif a.kind == "ROUND": fam.setdefault(("rnd", a.args[1]), []).append((self.poly(dict(a.args[0])), [], self.vars[aid]))
            elif a.kind == "FLOOR": fam.setdefault("floor", []).append((self.poly(dict(a.args[0])), [], self.vars[aid]))
            elif a.kind == "UF":
                nm, ps = a.aux[0], a.aux[1]
                fam.setdefault(("uf", nm), []).append((self.poly(ps[0]), [self.poly(q) for q in ps[1:]], self.vars[aid]))
        for nm, l in fam.items():
            if len(l) > 12: continue
            mono = 1 if nm in ("exp", "log", "asin", "sqrt", "floor") or nm[0] == "rnd" else -1 if nm == "-acos" else (MONO.get(nm[1]) if isinstance(nm, tuple) else None)
            for i in range(len(l)):
                for j in range(i):
                    (x, xr, u), (y, yr, w) = l[i], l[j]
                    same = [p == q for p, q in zip(xr, yr)]
                    if mono: C.append(z3.Implies(z3.And(same + [x <= y]), u <= w if mono > 0 else u >= w)); \
                        C.append(z3.Implies(z3.And(same + [y <= x]), w <= u if mono > 0 else w >= u))
                    else: C.append(z3.Implies(z3.And(same + [x == y]), u == w))


def slice_pc(pc, seed_atoms):
    """Constraints of pc connected to the seed atoms (through shared atoms and definitions)."""
    from .scishim import atom_deps
    memo = {}
    def clos(ids):
        out = set(); st = list(ids)
        while st:
            a = st.pop()
            if a in out: continue
            out.add(a)
            at = T.CTX.atoms[a]
            if at.kind == "PI": continue
            d = memo.get(a)
            if d is None: d = memo[a] = atom_deps(at)
            st.extend(d)
        out.discard(T.CTX.pi.id)
        return out
    cur = clos(seed_atoms)
    items = [(c, clos(sb_atoms(c))) for c in pc]
    used = [False] * len(items)
    ch = True
    while ch:
        ch = False
        for i, (c, s) in enumerate(items):
            if not used[i] and s & cur:
                used[i] = True; cur |= s; ch = True
    return [c for (c, s), u in zip(items, used) if u]


def run(asserts, timeout_ms, level=2, want_model=False, tactics=("default",)):
    """(status, model-dict or None)."""
    e = Enc(level)
    fs = [e.sb(a) for a in asserts]
    e.close()
    t0 = time.time()
    res, mod = "unknown", None
    share = max(200, timeout_ms // len(tactics))
    for tac in tactics:
        if tac == "cvc5":
            r = cvc5_check(fs + e.cons, share)
        else:
            s = z3.Solver() if tac == "default" else z3.SolverFor("QF_NRA") if tac == "nra" else z3.Tactic("qfnra-nlsat").solver() if tac == "nlsat" else z3.SimpleSolver()
            s.set("timeout", share)
            try:
                s.set("max_memory", 3000)
            except z3.Z3Exception: pass
            s.add(*fs); s.add(*e.cons)
            try: r = str(s.check())
            except z3.Z3Exception: r = "unknown"
            if r == "sat" and want_model:
                m = s.model(); mod = {}
                for aid, v in e.vars.items():
                    try:
                        x = m.eval(v, model_completion=True)
                        if z3.is_algebraic_value(x): x = x.approx(20)
                        mod[aid] = float(x.as_fraction())
                    except Exception: pass
        if r in ("sat", "unsat"):
            res = r; break
    dt = time.time() - t0
    if DEBUG and dt > 1:
        import traceback
        print("SLOW %.1fs %s level %d %s atoms=%d: %s" % (dt, res, level, tactics, len(e.vars), " < ".join(f.name for f in traceback.extract_stack()[-6:-1])), file=sys.stderr, flush=True)
    STAT["queries"] += 1; STAT[res] += 1; STAT["time"] += dt; STAT["max"] = max(STAT["max"], dt)
    return res, mod


def cvc5_check(fs, timeout_ms):
    try:
        import cvc5
        s = z3.Solver(); s.add(*fs)
        txt = "(set-logic QF_NIRA)\n" + "\n".join(l for l in s.to_smt2().splitlines() if not l.startswith("(check-sat)") and not l.startswith("(set-info"))
        tm = cvc5.TermManager()
        sl = cvc5.Solver(tm)
        sl.setOption("tlimit-per", str(timeout_ms))
        pr = cvc5.InputParser(sl)
        pr.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = pr.getSymbolManager()
        while True:
            c = pr.nextCommand()
            if c.isNull(): break
            c.invoke(sl, sm)
        r = sl.checkSat()
        return "sat" if r.isSat() else "unsat" if r.isUnsat() else "unknown"
    except Exception:
        return "unknown"
