"""Obligations: one harness function, run symbolically over the encoded code (solver decides) and
concretely over the shipped code (replay of counterexamples, fidelity of the encoding)."""
from __future__ import annotations
import json, math, os, random, signal, sys, time, traceback, types, warnings
from fractions import Fraction as F
import numpy as np
from . import terms as T
from .terms import Unsupported, Infeasible, PathLimit, NumEnv, evalp, NAN, INF
from . import values as V
from .values import Sym, SymC, SB, const, to_sym, is_special, as_bool, b_and, b_or, b_not, evalb, PI
from . import arr as A
from .arr import SArr, to_obj, is_sym
from . import smt, engine, scishim

TOL = 1e-6


class Skip(BaseException):
    """Concrete inputs outside the harness's assumptions."""


class Abort(BaseException):
    pass


class Obl:
    def __init__(self, id, fn, funcs="", bounds="", **opts):
        self.id = id; self.fn = fn; self.funcs = funcs; self.bounds = bounds; self.opts = opts


def angular_gap(d):
    return abs((d + math.pi) % (2 * math.pi) - math.pi)


# ================================================================ concrete mode
class Conc:
    sym = False

    def __init__(self, mods, values, rtol=TOL):
        self.m = mods
        self.values = values
        self.fail = []
        self.log = []
        self.np = np
        self.pi = math.pi
        import scipy.special
        self.sp = scipy.special
        self.rtol = rtol

    def real(self, name, lo=None, hi=None, **k):
        if name not in self.values: raise Skip("no value for " + name)
        v = float(self.values[name])
        if lo is not None and v < float(lo) - 1e-12 or hi is not None and v > float(hi) + 1e-12: raise Skip(name)
        return v

    def angle(self, name, lo=None, hi=None):
        v = self.real(name)
        return v
    def ordered(self, name, n, lo, hi, gap):
        """n increasing values, consecutive ones at least gap apart"""
        xs = [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]
        if self.sym: self.groups.append(["%s%d" % (name, i) for i in range(n)])
        for i in range(n - 1): self.assume(xs[i + 1] - xs[i] >= gap)
        return xs
    def angles(self, name, n, lo=None, hi=None): return [self.angle("%s%d" % (name, i)) for i in range(n)]
    def reals(self, name, n, lo=None, hi=None, **k): return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]
    def int(self, name, lo, hi): return int(self.values[name])
    def choice(self, name, opts):
        opts = list(opts)
        return opts[int(self.values.get(name, 0))]
    def arr(self, xs): return np.array([float(x) for x in xs], dtype=float)
    def assume(self, c):
        if not bool(np.all(c)): raise Skip("assumption")
    def true(self, c): return bool(c)

    def ok(self, label, c):
        v = bool(np.all(c))
        self.log.append((label, None, None))
        if not v: self.fail.append((label, "condition is false"))

    def le(self, label, a, b, tol=TOL):
        a, b = float(a), float(b)
        self.log.append((label, a, b))
        if a != a or b != b or not (a <= b + tol * (1 + min(abs(a), abs(b)))): self.fail.append((label, "%r <= %r fails" % (a, b)))
    def ge(self, label, a, b, tol=TOL): self.le(label, b, a, tol)

    def lt(self, label, a, b):
        a, b = float(a), float(b)
        self.log.append((label, a, b))
        if not a < b: self.fail.append((label, "%r < %r fails" % (a, b)))

    def eq(self, label, a, b, tol=TOL):
        if _isarr(a) or _isarr(b):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                self.log.append((label, None, None)); self.fail.append((label, "shapes %r and %r differ" % (a.shape, b.shape))); return
            for i, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))): self.eq("%s[%d]" % (label, i), x, y, tol)
            return
        if isinstance(a, complex) or isinstance(b, complex):
            a, b = complex(a), complex(b)
            self.eq(label + ".re", a.real, b.real, tol); self.eq(label + ".im", a.imag, b.imag, tol); return
        a, b = float(a), float(b)
        self.log.append((label, a, b))
        if a != a and b != b: return
        if a == b: return
        if a != a or b != b or abs(a - b) > tol * (1 + min(abs(a), abs(b))) / 2: self.fail.append((label, "%r != %r" % (a, b)))

    def angle_eq(self, label, a, b, tol=TOL):
        if _isarr(a) or _isarr(b):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                self.log.append((label, None, None)); self.fail.append((label, "shapes %r and %r differ" % (a.shape, b.shape))); return
            for i, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))): self.angle_eq("%s[%d]" % (label, i), x, y, tol)
            return
        a, b = float(a), float(b)
        self.log.append((label, None, None))
        if a != a and b != b: return
        if a != a or b != b or angular_gap(a - b) > tol / 2: self.fail.append((label, "angles %r and %r differ" % (a, b)))

    def is_nan(self, label, a):
        a = float(a); self.log.append((label, None, None))
        if a == a: self.fail.append((label, "%r is not NaN" % a))
    def finite(self, label, a):
        self.log.append((label, None, None))
        if not np.all(np.isfinite(np.asarray(a, dtype=float))): self.fail.append((label, "%r is not finite" % (a,)))
    def nan(self, a): return bool(np.any(np.isnan(a)))
    def fails(self, label, why):
        self.log.append((label, None, None)); self.fail.append((label, why))
    def raises(self, label, excs, fn, *a, **k):
        self.log.append((label, None, None))
        try: fn(*a, **k)
        except excs: return
        except Exception as e: self.fail.append((label, "raised %s: %s" % (type(e).__name__, e))); return
        self.fail.append((label, "no exception"))

    def seed(self, k): return k
    def dd(self, f, x, h=1e-4):
        """derivative of the concrete function f at x (5-point stencil)."""
        return (f(x - 2 * h) - 8 * f(x - h) + 8 * f(x + h) - f(x + 2 * h)) / (12 * h)


def _isarr(a): return isinstance(a, (np.ndarray, list, tuple)) and np.ndim(a) > 0 or (isinstance(a, (list, tuple)))


# ================================================================ symbolic mode
class Symb:
    sym = True

    def __init__(self, mods, opts):
        from . import loader
        self.m = mods
        self.opts = opts
        self.np = loader.NP
        self.sp = scishim
        self.inputs = []          # (name, kind, atom)
        self.values = {}; self.groups = []          # choices made; ordered inputs
        self.goals = []           # (label, SB-or-bool, note)
        self.log = []
        self.neg = None

    @property
    def pi(self): return PI()

    def _in(self, name, lo, hi, isint=False):
        ctx = T.CTX
        a = ctx.atom("IN", (name,), lo=_fr(lo), hi=_fr(hi), isint=isint, name=name)
        a.num = None
        if not any(n == name for n, _, _ in self.inputs): self.inputs.append((name, "int" if isint else "real", a))
        s = Sym(T.p_atom(a), lo is not None and _fr(lo) >= 0)
        s.isint = isint
        return s

    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False):
        s = self._in(name, lo, hi)
        if open_lo: T.CTX.path.assume(s > lo)
        if open_hi: T.CTX.path.assume(s < hi)
        return s

    def angle(self, name, lo=None, hi=None):
        """default: the half-open turn [0, 2pi)."""
        if lo is None and hi is None:
            s = self._in(name, 0, PI() * 2)
            T.CTX.path.assume(s < PI() * 2)
            return s
        return self._in(name, lo, hi)

    def ordered(self, name, n, lo, hi, gap):
        """n increasing values, consecutive ones at least gap apart"""
        xs = [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]
        if self.sym: self.groups.append(["%s%d" % (name, i) for i in range(n)])
        for i in range(n - 1): self.assume(xs[i + 1] - xs[i] >= gap)
        return xs
    def angles(self, name, n, lo=None, hi=None): return [self.angle("%s%d" % (name, i), lo, hi) for i in range(n)]
    def reals(self, name, n, lo=None, hi=None, **k): return [self.real("%s%d" % (name, i), lo, hi, **k) for i in range(n)]
    def int(self, name, lo, hi):
        s = self._in(name, lo, hi, True)
        v = T.CTX.path.concretize(s)
        return v
    def choice(self, name, opts):
        opts = list(opts)
        i = T.CTX.path.choose(len(opts))
        self.values[name] = i
        return opts[i]
    def arr(self, xs):
        from .npshim import mkarr
        return mkarr(list(xs), float)
    def assume(self, c):
        if isinstance(c, np.ndarray): c = A.reduce_axis("logical_and", c)
        T.CTX.path.assume(as_bool(c))
    def true(self, c): return bool(as_bool(c))

    # --- goals
    def goal(self, label, b, a=None, c=None):
        b = as_bool(b)
        self.log.append((label, a, c))
        r = self.opts["prover"].prove(self, label, b)
        if not r: raise Abort()

    def ok(self, label, c):
        if isinstance(c, np.ndarray): c = A.reduce_axis("logical_and", c)
        self.goal(label, c)

    def le(self, label, a, b, tol=TOL):
        a, b = _sc(a), _sc(b)
        if is_special(a) or is_special(b):
            self.goal(label, bool((is_special(a) and a == -INF) or (is_special(b) and b == INF))); return
        c = a <= b
        if not isinstance(c, bool) and T.CTX.path.known(c) is not True: c = a - b <= const(F(tol))
        self.goal(label, c, a, b)
    def ge(self, label, a, b, tol=TOL): self.le(label, b, a, tol)
    def lt(self, label, a, b):
        a, b = _sc(a), _sc(b)
        if is_special(a) or is_special(b): self.goal(label, bool(b == INF or a == -INF) if not (a != a or b != b) else False); return
        self.goal(label, a < b, a, b)

    def eq(self, label, a, b, tol=TOL):
        if _isarr(a) or _isarr(b):
            a, b = to_obj(a), to_obj(b)
            if a.shape != b.shape: self.goal(label, False); return
            for i, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))): self.eq("%s[%d]" % (label, i), x, y, tol)
            return
        a, b = _sc(a), _sc(b)
        if isinstance(a, SymC) or isinstance(b, SymC):
            a, b = V.to_c(a), V.to_c(b)
            self.eq(label + ".re", a.re, b.re, tol); self.eq(label + ".im", a.im, b.im, tol); return
        if is_special(a) or is_special(b):
            self.goal(label, is_special(a) and is_special(b) and (a == b or (a != a and b != b))); return
        d = T.p_canon(T.p_sub(a.p, b.p))
        c = V.cmp("eq", d)
        if c is True: self.goal(label, True, a, b); return
        t = const(F(tol))
        self.goal(label, b_and([Sym(d) <= t, -Sym(d) <= t]), a, b)

    def angle_eq(self, label, a, b, tol=TOL):
        if _isarr(a) or _isarr(b):
            a, b = to_obj(a), to_obj(b)
            if a.shape != b.shape: self.goal(label, False); return
            for i, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))): self.angle_eq("%s[%d]" % (label, i), x, y, tol)
            return
        a, b = _sc(a), _sc(b)
        if is_special(a) or is_special(b):
            self.goal(label, is_special(a) and is_special(b) and (a == b or (a != a and b != b))); return
        d = T.p_sub(a.p, b.p)
        c, s = V.cos_sin(d)
        if V.cmp("eq", T.p_sub(c.p, T.p_const(1))) is True or not T.p_canon(d): self.goal(label, True); return
        if V.cmp("eq", s.p) is True and isinstance(V.cmp("lt", T.p_neg(c.p)), bool) is False:
            self.goal(label, c > 0); return
        ca, sa = V.cos_sin(a.p); cb, sb = V.cos_sin(b.p)
        t = const(F(tol))
        # difference of the unit vectors
        dc, ds = T.p_canon(T.p_sub(ca.p, cb.p)), T.p_canon(T.p_sub(sa.p, sb.p))
        if T.p_iszero(dc) and T.p_iszero(ds): self.goal(label, True); return
        if len(c.p) <= len(dc) + len(ds):
            self.goal(label, c >= 1 - const(F(tol) * F(tol)) / 2 if False else b_and([c > 0, s <= t, -s <= t])); return
        self.goal(label, b_and([Sym(dc) <= t, -Sym(dc) <= t, Sym(ds) <= t, -Sym(ds) <= t]))

    def is_nan(self, label, a):
        a = _sc(a); self.goal(label, A.k_isnan(a))
    def finite(self, label, a):
        for v in to_obj(a).reshape(-1): self.goal(label, A.k_isfinite(v))
    def nan(self, a): return any(A.k_isnan(v) for v in to_obj(a).reshape(-1))
    def fails(self, label, why): self.goal(label, False)
    def raises(self, label, excs, fn, *a, **k):
        try: fn(*a, **k)
        except excs: self.goal(label, True); return
        except Unsupported: raise
        except Exception: self.goal(label, False); return
        self.goal(label, False)
    def seed(self, k): return k

    def dd(self, f, x, h=None):
        """Derivative of the symbolic value f(x) with respect to the input x (x must be an input)."""
        from .diff import diff
        y = f(x)
        (m, c), = x.p.items()
        return Sym(diff(_sc(y).p, m[0][0]))


def _fr(v):
    if v is None: return None
    if isinstance(v, Sym): return v.value()
    if isinstance(v, F): return v
    return F(str(v)) if isinstance(v, float) else F(v)


def _sc(v):
    if isinstance(v, np.ndarray):
        if v.size != 1: raise Unsupported("scalar expected")
        v = v.reshape(-1)[0] if not isinstance(v, SArr) else v.item()
    if isinstance(v, (complex, np.complexfloating)): return V.to_c(v)
    v = A.lift(v)
    if isinstance(v, (int, bool, F)): return to_sym(v)
    if isinstance(v, SB): return V.ind(v)
    if not isinstance(v, (Sym, SymC)) and not is_special(v): raise TypeError("value expected, got %r" % (type(v),))
    return v


def trig_true(b):
    """a trigonometric polynomial below zero by the absolute sum of its Fourier coefficients"""
    if isinstance(b, bool) or b.op not in ("lt", "le") or not 4 <= len(b.args) <= 300: return b is True
    hi = T.fourier_bounds(b.args)[1]
    return hi is not None and (hi < 0 or hi == 0 and b.op == "le")


# ================================================================ prover
class Prover:
    def __init__(self, obl, conc_mods, opts):
        self.obl = obl; self.conc = conc_mods; self.opts = opts
        self.norm = 0; self.solved = 0; self.labels = {}
        self.violation = None
        self.undecided = []
        self.goals = 0
        self.q_ms = opts.get("goal_ms", 20000)

    def prove(self, M, label, b):
        self.goals += 1
        path = T.CTX.path
        path.check_time()
        self.labels[label] = self.labels.get(label, 0) + 1
        if b is True:
            self.norm += 1
            return True
        nb = b_not(b)
        if nb is not True:
            k = path.known(b)
            if k is True or all(trig_true(x) for x in (b.args if b.op == "and" else [b])):
                self.norm += 1; return True
            nb = V.square_lits(nb)
            if nb is False: self.norm += 1; return True
        if nb is not True:
            sl = smt.slice_pc(path.pc, smt.sb_atoms(nb))
            plan = self.opts.get("plan") or ((1, ("default",), 0.04), (1, ("cvc5",), 0.08), (2, ("default",), 0.08), (2, ("cvc5",), 0.2), (2, ("default",), 0.2), (1, ("nlsat",), 0.2), (2, ("nra",), 0.2))
            # a quick numeric look decides only whether to spend long on the proof
            hint = self.witness(M, nb, tries=60)
            if hint is None:
                for lvl, tac, share in plan:
                    r, mod = smt.run(sl + [nb], int(self.q_ms * share), level=lvl, want_model=True, tactics=tac)
                    if r == "unsat":
                        self.solved += 1; return True
                    if r == "sat" and lvl >= 2:
                        w = self.from_model(M, mod, nb)
                        if w is not None: hint = w; break
            else:
                r, mod = smt.run(sl + [nb] + self.pins(M, hint), min(4000, self.q_ms), level=1, want_model=True)
                if r == "unsat":
                    # the numeric hint was a rounding artefact: go for the proof
                    for lvl, tac, share in plan:
                        r, mod = smt.run(sl + [nb], int(self.q_ms * share), level=lvl, tactics=tac)
                        if r == "unsat": self.solved += 1; return True
        else:
            hint = None
        # full path condition feasible?
        cand = []
        if hint is not None: cand.append(hint)
        if nb is True or not cand:
            r, mod = smt.run(list(path.pc) + ([] if nb is True else [nb]), self.q_ms, level=2, want_model=True, tactics=("default", "cvc5", "nlsat"))
            if r == "unsat":
                self.solved += 1
                if nb is True: raise Infeasible()
                return True
            w = self.from_model(M, mod, nb) if mod else None
            if w is not None: cand.append(w)
            w = self.witness(M, nb, tries=3000)
            if w is not None: cand.append(w)
        for w in cand + [x for x in (self.witness(M, nb, tries=400, seed=s) for s in range(6)) if x is not None]:
            rep = self.replay(M, w)
            if rep is not None:
                self.violation = dict(label=label, inputs=w, choices=dict(M.values), observed=rep)
                return False
        self.undecided.append((label, "solver: %s; candidates did not reproduce: %d" % (r if nb is not True else "path", len(cand)), "GOAL-NOT %s | PC %s" % (V.showb(nb), "; ".join(V.showb(x) for x in T.CTX.path.pc[-6:]))[:1200]))
        if len(self.undecided) > 3: return False
        return True

    def pins(self, M, w):
        out = []
        for name, kind, a in M.inputs:
            v = F(w[name]).limit_denominator(10 ** 6)
            if self._trig_only(a): continue
            out.append(V.cmp("eq", T.p_sub(T.p_atom(a), T.p_const(v))))
        return [x for x in out if not isinstance(x, bool)]

    def _trig_only(self, a):
        return any(x.kind == "COS" and any(i == a.id for i, _ in x.args[0]) for x in T.CTX.atoms)

    def env(self, w, M):
        return NumEnv({a.id: w[n] for n, _, a in M.inputs})

    def holds(self, M, w, nb):
        """Are the path condition and the negated goal true at w (numerically, with margins)?"""
        try:
            env = self.env(w, M)
            for c in T.CTX.path.pc:
                if not evalb(c, env): return False
            return nb is True or evalb(nb, env)
        except (Unsupported, OverflowError, ValueError, ZeroDivisionError): return False

    def box(self, a):
        lo = float(a.lo) if a.lo is not None else -5.0
        hi = float(a.hi) if a.hi is not None else (lo + 10.0 if a.lo is not None else 5.0)
        if a.lo is None and a.hi is not None: lo = hi - 10.0
        return lo, hi

    def sample(self, M, rnd, mode):
        w = {}
        pool = []
        for n, kind, a in M.inputs:
            lo, hi = self.box(a)
            if kind == "int": w[n] = rnd.randint(math.ceil(lo), math.floor(hi)); continue
            r = rnd.random()
            if mode % 4 == 1 and r < 0.4: v = rnd.choice([lo, hi, 0.0, math.pi, math.pi / 2, 1.0, (lo + hi) / 2])
            elif mode % 4 == 2 and pool and r < 0.4: v = rnd.choice(pool)
            elif mode % 4 == 3 and r < 0.5: v = rnd.choice([lo, hi]) + rnd.choice([-1, 1]) * 10 ** rnd.uniform(-9, -1)
            else: v = rnd.uniform(lo, hi)
            v = min(max(v, lo), hi)
            pool.append(v); w[n] = v
        for grp in M.groups:
            for n, v in zip(grp, sorted(w[n] for n in grp)): w[n] = v
        return w

    def witness(self, M, nb, tries=300, seed=0, generic=False):
        rnd = random.Random("%s/%s/%d" % (self.obl.id, len(T.CTX.path.pc), seed))
        t0 = time.time()
        for i in range(tries):
            if time.time() - t0 > 4: break
            w = self.sample(M, rnd, 0 if generic else i)
            if self.holds(M, w, nb): return w
        return None

    def from_model(self, M, mod, nb):
        if mod is None: return None
        w = {}; alt = {}
        for n, kind, a in M.inputs:
            lo, hi = self.box(a)
            v = mod.get(a.id)
            w[n] = v if v is not None else (lo + hi) / 2
            for t in T.CTX.atoms:
                if t.kind == "COS" and t.args[0] == ((a.id, 1),) and t.id in mod and t.aux.id in mod:
                    th = math.atan2(mod[t.aux.id], mod[t.id]) / float(t.args[1])
                    per = 2 * math.pi / float(t.args[1])
                    k = math.ceil((lo - th) / per)
                    alt[n] = min(max(th + k * per, lo), hi); break
            w[n] = min(max(w[n], lo), hi)
        for c in ({**w, **alt}, w):
            if self.holds(M, c, nb): return c
        rnd = random.Random(1)
        for i in range(200):
            c = {n: min(max(v + rnd.gauss(0, 1) * 10 ** rnd.uniform(-8, -1), self.box(a)[0]), self.box(a)[1])
                 for (n, k, a), v in zip(M.inputs, [{**w, **alt}[n] for n, _, _ in M.inputs])}
            if self.holds(M, c, nb): return c
        return {**w, **alt}

    def replay(self, M, w):
        """Run the harness on the shipped code at w; the failure text, or None if it holds there."""
        vals = dict(w); vals.update(M.values)
        return concrete_failure(self.obl, self.conc, vals)


def concrete_failure(obl, mods, vals):
    C = Conc(mods, vals)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try: obl.fn(C)
        except Skip: return None
        except (KeyError,) as e:
            if C.fail: return "; ".join("%s: %s" % f for f in C.fail)
            return "raised KeyError: %s" % e
        except Exception as e:
            return "raised %s: %s" % (type(e).__name__, str(e)[:300])
    if C.fail: return "; ".join("%s: %s" % f for f in C.fail[:4])
    return None


def run_obligation(obl, sym_mods, conc_mods, prelude, tier="quick"):
    """Explore all paths; returns a result dict."""
    t0 = time.time()
    opts = dict(max_paths=3000, max_s=200, goal_ms=20000, branch_ms=500)
    opts.update(obl.opts)
    if tier == "thorough": opts["max_s"] *= 3; opts["goal_ms"] *= 3; opts["max_paths"] *= 4
    opts["deadline"] = t0 + opts["max_s"]
    pr = Prover(obl, conc_mods, opts)
    opts["prover"] = pr
    for k in smt.STAT: smt.STAT[k] = 0
    res = dict(id=obl.id, funcs=obl.funcs, bounds=obl.bounds, status="held", detail="", paths=0, goals=0)
    ex = engine.Explorer(opts, prelude)
    fid = dict(points=0, compared=0, maxerr=0.0, tried=0)
    exc_undecided = []

    def body():
        M = Symb(sym_mods, opts)
        st = "ok"; exc = None
        try: obl.fn(M)
        except Abort: st = "abort"
        except Skip as e: raise Unsupported("contract: %s" % e)
        except (Unsupported, PathLimit, Infeasible):
            if os.environ.get("PYCS_TRACE"): traceback.print_exc()
            raise
        except RecursionError as e: raise Unsupported("recursion limit: " + traceback.format_exc()[-1200:])
        except MemoryError: raise PathLimit("memory")
        except Exception as e:
            st = "raise"; exc = e
        return M, st, exc

    try:
        for path, (M, st, exc) in ex.run(body):
            if pr.violation: break
            if st == "raise":
                # an exception from the code on this path: feasible and reproducible?
                tb = "".join(traceback.format_exception(exc))[-900:]
                r, mod = smt.run(list(path.pc), 8000, level=2, want_model=True, tactics=("default", "nlsat"))
                if r == "unsat": continue
                cands = [c for c in [pr.witness(M, True, tries=1500)] + [pr.from_model(M, mod, True) if mod else None] if c is not None]
                hit = None
                for w in cands:
                    rep = pr.replay(M, w)
                    if rep is not None: hit = (w, rep); break
                if hit:
                    pr.violation = dict(label="raises", inputs=hit[0], choices=dict(M.values), observed=hit[1])
                    break
                exc_undecided.append("%s: %s\n%s" % (type(exc).__name__, exc, tb))
                if len(exc_undecided) >= 3: break
                continue
            if pr.undecided and len(pr.undecided) > 3: break
            # fidelity: the encoding against the shipped code at a concrete point of this path
            if st == "ok" and fid["points"] < opts.get("fid_points", 3) and not opts.get("no_fid") and fid["tried"] < 12:
                fid["tried"] += 1
                w = pr.witness(M, True, tries=60 if fid["tried"] > 1 else 200, generic=True)
                if w is None and fid["points"] == 0: w = pr.witness(M, True, tries=400)
                if w is None and fid["points"] == 0:
                    r, mod = smt.run(list(path.pc), 3000, level=2, want_model=True)
                    w = pr.from_model(M, mod, True) if mod else None
                if w is not None: fidelity(pr, M, w, fid)
                if fid.get("violation"):
                    pr.violation = fid["violation"]; break
    except (Unsupported, PathLimit) as e:
        if not pr.violation:
            res["status"] = "inconclusive"; res["detail"] = "%s: %s" % (type(e).__name__, e)
            res["tb"] = traceback.format_exc()[-1500:]
    res["paths"] = ex.paths; res["decisions"] = ex.decisions; res["infeasible_paths"] = ex.infeasible
    if pr.violation:
        res["status"] = "violated"; res["violation"] = pr.violation
    elif res["status"] == "held":
        if pr.undecided:
            res["status"] = "inconclusive"; res["detail"] = "; ".join("%s [%s] %s" % u for u in pr.undecided[:3])
        elif exc_undecided:
            res["status"] = "inconclusive"; res["detail"] = "exception not reproduced: " + exc_undecided[0]
        elif ex.paths == 0 or pr.goals == 0:
            res["status"] = "inconclusive"; res["detail"] = "vacuous: no path reached a goal"
        elif fid.get("mismatch"):
            res["status"] = "inconclusive"; res["detail"] = "encoding differs from the shipped code: " + "; ".join(fid["mismatch"][:3])
        elif fid["points"] == 0 and not opts.get("no_fid"):
            res["status"] = "inconclusive"; res["detail"] = "vacuous: no concrete point satisfies the assumptions of any path"
    if res["status"] == "inconclusive" and not opts.get("no_probe"):
        # the same harness on the shipped code at generic points: a failing point is still a counterexample
        v, n = probe(obl, conc_mods)
        res["probed"] = n
        if v: res["status"] = "violated"; res["violation"] = v
    res.update(goals=pr.goals, by_normalisation=pr.norm, by_solver=pr.solved, fidelity=fid, smt=dict(smt.STAT), wall_s=round(time.time() - t0, 2), labels=len(pr.labels))
    return res


class Probing(Conc):
    """A concrete run that draws each input when the harness asks for it."""
    def __init__(self, mods, rnd): Conc.__init__(self, mods, {}); self.rnd = rnd; self.choices = {}

    def real(self, name, lo=None, hi=None, **k):
        if name not in self.values:
            a = float(lo) if lo is not None else (float(hi) - 10 if hi is not None else -5.0)
            b = float(hi) if hi is not None else a + 10
            self.values[name] = self.rnd.uniform(a, b)
        return float(self.values[name])

    def angle(self, name, lo=None, hi=None): return self.real(name, 0 if lo is None else lo, 2 * math.pi if hi is None else hi)
    def angles(self, name, n, lo=None, hi=None): return [self.angle("%s%d" % (name, i), lo, hi) for i in range(n)]

    def ordered(self, name, n, lo, hi, gap):
        v = sorted(self.rnd.uniform(float(lo), float(hi)) for _ in range(n))
        for i in range(n): self.values["%s%d" % (name, i)] = v[i]
        for i in range(n - 1): self.assume(v[i + 1] - v[i] >= gap)
        return v

    def int(self, name, lo, hi):
        if name not in self.values: self.values[name] = self.rnd.randint(int(lo), int(hi))
        return int(self.values[name])

    def choice(self, name, opts):
        opts = list(opts)
        if name not in self.choices: self.choices[name] = self.rnd.randrange(len(opts))
        return opts[self.choices[name]]


def probe(obl, conc, seconds=25, tries=400):
    """Undecided obligation: look for a generic concrete input at which the shipped code breaks the harness.
    Only a refutation can come out of this; an obligation never counts as held because of it."""
    rnd = random.Random("probe/" + obl.id); t0 = time.time(); hit = None; ran = 0
    for i in range(tries):
        if time.time() - t0 > seconds: break
        C = Probing(conc, rnd)
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            try: obl.fn(C)
            except Skip: continue
            except Exception as e: C.fail.append(("raises", "raised %s: %s" % (type(e).__name__, str(e)[:200])))
        ran += 1
        if C.fail:
            v = {k: x for k, x in C.values.items()}
            f = concrete_failure(obl, conc, {**v, **C.choices})
            if f: return dict(label=C.fail[0][0], inputs=v, choices=C.choices, observed=f), ran
    return None, ran


def fidelity(pr, M, w, fid):
    vals = dict(w); vals.update(M.values)
    C = Conc(pr.conc, vals)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try: pr.obl.fn(C)
        except Skip: return
        except Exception as e:
            C.fail.append(("raises", "raised %s: %s" % (type(e).__name__, str(e)[:200])))
    fid["points"] += 1
    if C.fail:
        # the shipped code breaks the harness at a concrete point: that is a counterexample in itself
        fid["violation"] = dict(label=C.fail[0][0], inputs=w, choices=dict(M.values), observed="; ".join("%s: %s" % f for f in C.fail[:4]))
        return
    if not pr.holds(M, w, True): return      # a model of abstract functions need not lie on this path
    env = pr.env(w, M)
    for (l1, a1, b1), (l2, a2, b2) in zip(M.log, C.log):
        if l1 != l2: fid.setdefault("mismatch", []).append("%s/%s" % (l1, l2)); break
        for x, y in ((a1, a2), (b1, b2)):
            if isinstance(x, Sym) and isinstance(y, float):
                try: v = evalp(x.p, env)
                except Exception: continue
                e = abs(v - y) / (1 + abs(y))
                fid["compared"] += 1; fid["maxerr"] = max(fid["maxerr"], e if e == e else 0.0)
                if e > 1e-5: fid.setdefault("mismatch", []).append("%s: encoding %r, code %r" % (l1, v, y))


class Bypassed(Skip):
    """The code no longer goes through the function that a contract stands for: nothing can be concluded."""


class StandIn:
    """Base of objects standing for a library object: an attribute they do not model concludes nothing."""
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        raise Bypassed(k)


class patched:
    """Temporarily replace an attribute of a module by its contract (symbolic and shipped module alike). A
    contract that the code never consults makes the run inconclusive (need=False: it may go unused)."""
    def __init__(self, mod, name, fn, need=True): self.mod, self.name, self.fn, self.need, self.used = mod, name, fn, need, False

    def __enter__(self):
        if not hasattr(self.mod, self.name): raise Bypassed("no %s" % self.name)
        self.old = getattr(self.mod, self.name); fn = self.fn
        if isinstance(fn, types.FunctionType) and self.need:
            def g(*a, **k): self.used = True; return fn(*a, **k)
        else: g = fn; self.used = True
        setattr(self.mod, self.name, g)

    def __exit__(self, kind, *a):
        setattr(self.mod, self.name, self.old)
        if kind is None and not self.used: raise Bypassed("%s is not consulted" % self.name)


class float_roots:
    """Within the block roots and powers of constants are floats."""
    def __init__(self, M): self.M = M
    def __enter__(self): V.FLOATROOTS.append(1)
    def __exit__(self, *a): V.FLOATROOTS.pop()


class concretely:
    """Within the block the module's function <name> is the shipped one: it is called on constants only (a table
    or a normaliser at fixed parameters) and symbolic arguments are refused."""
    def __init__(self, M, mod, name): self.M, self.mod, self.name = M, mod, name

    def __enter__(self):
        if not self.M.sym: return
        import importlib
        from .npshim import demote_call
        if not hasattr(self.mod, self.name): raise Bypassed("no %s" % self.name)
        self.old = getattr(self.mod, self.name)
        real = importlib.import_module("pycircstat2." + self.mod.__name__.split(".")[-1])
        fn = getattr(real, self.name); setattr(self.mod, self.name, lambda *a, **k: demote_call(fn, a, k))

    def __exit__(self, *a):
        if self.M.sym: setattr(self.mod, self.name, self.old)


class abstract_fn:
    """Within the block the module's np.<name> is an uninterpreted function (symbolic runs only); yields it."""
    def __init__(self, M, mod, name, lo=0, hi=None, odd=False): self.M, self.mod, self.name, self.lo, self.hi, self.odd = M, mod, name, lo, hi, odd

    def __enter__(self):
        fn = getattr(np, self.name)
        if not self.M.sym: return fn
        base = self.base = self.mod.np; lo, hi, odd = self.lo, self.hi, self.odd; nm = "abs_" + self.name

        def one(v):
            if is_special(v): return float(fn(v))
            if odd:
                v = V.to_sym(v)
                if not v.p: return V.const(0)
                if v.p[max(v.p)] < 0: return -V.uf(nm, [-v], fn, lo=lo, hi=hi)
            return V.uf(nm, [v], fn, lo=lo, hi=hi)
        g = lambda x: A.emap(one, x)

        class Proxy:
            def __getattr__(self, k): return getattr(base, k)
        pr = Proxy(); setattr(pr, self.name, g); self.mod.np = pr
        return g

    def __exit__(self, *a):
        if self.M.sym: self.mod.np = self.base


def abstract_call(M, mod, name, lo=None, hi=None):
    """Context: the module's function <name> of scalars is uninterpreted (symbolic runs only)."""
    old = getattr(mod, name)
    if not M.sym: return patched(mod, name, old)
    import importlib
    shipped = getattr(importlib.import_module("pycircstat2." + mod.__name__.split(".")[-1]), name)
    g = lambda *a: A.emap(lambda *v: float(shipped(*[float(x) for x in v])) if any(is_special(x) for x in v) else V.uf("abs_" + name, list(v), shipped, lo=lo, hi=hi), *a)
    return patched(mod, name, g)


class abstract_np:
    """Within the block the module's np.mean / np.var / np.cov of 1-D arrays are uninterpreted (symbolic runs
    only); yields the object providing the same functions to the harness."""
    def __init__(self, M, mod, names): self.M, self.mod, self.names = M, mod, names

    def __enter__(self):
        if not self.M.sym: return np
        base = self.base = self.mod.np

        def make(name):
            real = getattr(np, name)

            def g(*a, **k):
                ls = [list(np.asarray(x, dtype=object).ravel()) for x in a if np.ndim(x)]
                kw = {q: int(v) for q, v in sorted(k.items())}
                if len(ls) != len(a) or any(q != "ddof" for q in kw) or not any(isinstance(v, Sym) for l in ls for v in l): return getattr(base, name)(*a, **k)
                cut = [len(l) for l in ls]

                def num(ix, *v):
                    out, i = [], 0
                    for c in cut: out.append(np.array(v[i:i + c])); i += c
                    r = real(*out, **kw)
                    return float(r[ix]) if ix is not None else float(r)
                flat = [v for l in ls for v in l]; tag = "abs_%s%s%s" % (name, cut, kw)
                if name != "cov": return V.uf(tag, flat, lambda *v: num(None, *v), lo=0 if name == "var" else None)
                m = len(ls)
                r = np.empty((m, m), dtype=object)
                for i in range(m):
                    for j in range(m): r[i, j] = V.uf(tag + str(sorted((i, j))), flat, lambda *v, ij=(i, j): num(ij, *v))
                return r.view(SArr)
            return g
        fns = {n: make(n) for n in self.names}

        class Proxy:
            def __getattr__(self, k): return getattr(base, k)
        pr = Proxy()
        for n, g in fns.items(): setattr(pr, n, g)
        self.mod.np = pr
        return pr

    def __exit__(self, *a):
        if self.M.sym: self.mod.np = self.base
