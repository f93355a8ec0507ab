"""Loads the package's own source (read from the repository at run time) with rewritten constants
and divisions, and with numpy/scipy/math/builtins replaced by the symbolic ones."""
from __future__ import annotations
import ast, builtins, sys, types, os, importlib, hashlib, numbers
from fractions import Fraction as F
import numpy as np
from . import terms as T
from . import values as V
from .values import Sym, SymC, SB, const, to_sym, is_special, b_or, b_and, as_bool
from . import arr as A
from .arr import SArr, is_sym, to_obj
from . import npshim, scishim, mathshim
from .npshim import fl, lift_deep
from .terms import Unsupported

REPO = os.environ.get("PYCS_REPO", "/repo")
numbers.Real.register(Sym)
numbers.Number.register(SymC)


class Rewrite(ast.NodeTransformer):
    def visit_Constant(self, n):
        if type(n.value) is float:
            return ast.copy_location(ast.Call(ast.Name("__pycs_c__", ast.Load()), [ast.Constant(repr(n.value))], []), n)
        if type(n.value) is complex:
            return ast.copy_location(ast.Call(ast.Name("__pycs_j__", ast.Load()), [ast.Constant(repr(n.value.imag))], []), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("__pycs_div__", ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(ast.Call(ast.Name("__pycs_pow__", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name("__pycs_div__", ast.Load()),
                                     [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, (ast.Constant, ast.Slice)):
            n.value = ast.copy_location(ast.Call(ast.Name("__pycs_ix__", ast.Load()), [n.value], []), n.value)
        return n

    def visit_Compare(self, n):
        # a < b < c: keep both halves symbolic (operands here are simple names/constants)
        self.generic_visit(n)
        if len(n.ops) == 2 and isinstance(n.comparators[0], (ast.Name, ast.Attribute)) and \
                all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in n.ops):
            m = n.comparators[0]
            l = ast.Compare(n.left, [n.ops[0]], [m]); r = ast.Compare(m, [n.ops[1]], [n.comparators[1]])
            return ast.copy_location(ast.Call(ast.Name("__pycs_and__", ast.Load()), [l, ast.Lambda(
                ast.arguments([], [], None, [], [], None, []), r)], []), n)
        return n

    def visit_BoolOp(self, n):
        # "undecided and false" needs no case split: look ahead when the second operand cannot have side effects
        self.generic_visit(n)
        if isinstance(n.op, ast.And) and len(n.values) == 2 and _pure(n.values[1]):
            return ast.copy_location(ast.Call(ast.Name("__pycs_look__", ast.Load()), [n.values[0], ast.Lambda(
                ast.arguments([], [], None, [], [], None, []), n.values[1])], []), n)
        return n

    # annotations are not evaluated symbolically
    def visit_AnnAssign(self, n):
        if n.value is not None: n.value = self.visit(n.value)
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        self.generic_visit(n)
        return n


def _pure(n):
    """comparisons of names, constants and their absolute values"""
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            f = x.func
            if not (isinstance(f, ast.Name) and f.id in ("abs", "__pycs_c__")): return False
        elif not isinstance(x, (ast.Compare, ast.Name, ast.Constant, ast.UnaryOp, ast.operator, ast.cmpop, ast.unaryop, ast.expr_context)): return False
    return isinstance(n, ast.Compare)


def _look(l, r):
    if isinstance(l, SB) and T.CTX.path is not None and T.CTX.path.known(l) is None:
        try: rv = r()
        except Exception: rv = None
        if rv is False or isinstance(rv, np.bool_) and not rv: return False
        if isinstance(rv, SB) and T.CTX.path.known(rv) is False: return False
    return l and r()


_CC = {}


def _c(s):
    v = _CC.get(s)
    if v is None:
        f = float(s)
        v = _CC[s] = f if is_special(f) else F(s)
    return const(v) if isinstance(v, F) else v


def _j(s): return SymC(const(0), const(F(s)))


def _intlike(x): return isinstance(x, (int, np.integer)) or (isinstance(x, np.ndarray) and x.dtype.kind in "iub" and not isinstance(x, SArr))


def _pandas(a, b, op):
    """pandas object against a symbolic scalar: elementwise (pandas would ask the scalar for a dtype)"""
    f = lambda x, y: op(to_sym(x) if isinstance(x, (int, float, np.integer, np.floating)) and not is_special(x) else x, y)
    if hasattr(a, "iloc"): return a.map(lambda v: f(v, b))
    return b.map(lambda v: f(a, v))


def _div(a, b):
    if isinstance(b, Sym) and hasattr(a, "iloc") or isinstance(a, Sym) and hasattr(b, "iloc"): return _pandas(a, b, lambda x, y: x / y)
    if isinstance(a, (float, np.floating, int, np.integer)) and isinstance(b, (float, np.floating, int, np.integer)):
        if not isinstance(a, (int, np.integer)) or not isinstance(b, (int, np.integer)):
            if is_special(a) or is_special(b): return a / b
            if b == 0: return np.float64(a) / b if isinstance(a, np.floating) or isinstance(b, np.floating) else a / b
            return to_sym(a) / to_sym(b)
    if _intlike(a) and _intlike(b):
        if isinstance(b, int) and not isinstance(b, np.integer) and b == 0 and isinstance(a, int): raise ZeroDivisionError("division by zero")
        if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
            if b == 0: return np.float64(a) / 0
            return const(F(int(a), int(b)))
        return A.emap(A.k_div, a, b)
    return a / b


def _pow(a, b):
    if isinstance(b, Sym) and hasattr(a, "iloc"): return _pandas(a, b, lambda x, y: x ** y)
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and not isinstance(a, bool):
        if b < 0: return const(1) / const(F(int(a)) ** int(-b))
        return a ** b
    if isinstance(a, (int, np.integer)) and isinstance(b, Sym): return to_sym(a) ** b
    return a ** b


class _Ix:
    """Indexing of a plain ndarray by symbolic masks/indices."""
    __slots__ = ("a",)
    def __init__(self, a): self.a = a
    def __getitem__(self, i): return self.a[A.fix_index(i)]


def _ix(a):
    if isinstance(a, np.ndarray) and not isinstance(a, SArr): return _Ix(a)
    if isinstance(a, (list, tuple)): return _Ix(a)
    return a


def _and(l, r):
    if isinstance(l, SB):
        k = T.CTX.path.known(l) if T.CTX.path is not None else None
        if k is None:
            rv = r()
            if isinstance(rv, (SB, bool)): return b_and([l, rv])
            return bool(l) and rv
        l = k
    if isinstance(l, (bool, np.bool_)): return r() if l else l
    return l and r()


# ---------------------------------------------------------------- builtins
class _FM(type):
    def __instancecheck__(cls, x): return isinstance(x, float) or isinstance(x, Sym)
    def __subclasscheck__(cls, c): return issubclass(c, float)
    def __call__(cls, x=0): return fl(x)
    def __eq__(cls, o): return o is float or o is cls
    def __hash__(cls): return hash(float)


class FloatB(metaclass=_FM):
    _real = float
    fromhex = float.fromhex


class _IM(type):
    def __instancecheck__(cls, x): return isinstance(x, int)
    def __subclasscheck__(cls, c): return issubclass(c, int)
    def __call__(cls, x=0, *a):
        if isinstance(x, SArr): x = x.item()
        if isinstance(x, Sym): return V.concretize_int(V.strunc(x))
        if isinstance(x, SB): return int(bool(x))
        return int(x, *a)
    def __eq__(cls, o): return o is int or o is cls
    def __hash__(cls): return hash(int)


class IntB(metaclass=_IM):
    _real = int


class _BM(type):
    def __instancecheck__(cls, x): return isinstance(x, (bool, SB))
    def __subclasscheck__(cls, c): return issubclass(c, bool)
    def __call__(cls, x=False):
        if isinstance(x, (SB, Sym)): return as_bool(x)
        if isinstance(x, SArr) and x.size == 1: return as_bool(x.item())
        return bool(x)
    def __eq__(cls, o): return o is bool or o is cls
    def __hash__(cls): return hash(bool)


class BoolB(metaclass=_BM):
    _real = bool


class _CM(type):
    def __instancecheck__(cls, x): return isinstance(x, (complex, SymC))
    def __call__(cls, re=0, im=None):
        if im is None:
            if is_sym(re): return V.to_c(re.item() if isinstance(re, SArr) else re)
            return V.to_c(complex(re))
        return SymC(fl(re), fl(im))
    def __eq__(cls, o): return o is complex or o is cls
    def __hash__(cls): return hash(complex)


class ComplexB(metaclass=_CM):
    _real = complex


def _minmax(op):
    real = getattr(builtins, op); red = A._maxsp if op == "max" else A._minsp
    def f(*a, **k):
        if k or not a: return real(*a, **k)
        seq = list(a[0]) if len(a) == 1 else list(a)
        if not any(isinstance(v, (Sym, SB)) for v in seq): return real(*a)
        if any(isinstance(v, np.ndarray) and v.ndim for v in seq): return real(*a)
        if any(A.k_isnan(v) for v in seq): return real(*a)
        r = seq[0] if not isinstance(seq[0], np.ndarray) else seq[0].item()
        for v in seq[1:]: r = red(r, v)
        return r
    return f


def _round(x, n=None):
    if isinstance(x, Sym):
        r = V.sround(x, 0 if n is None else int(n))
        return V.concretize_int(r) if n is None else r
    return lift_deep(round(x, n)) if n is not None else round(x)


def _sum(it, start=0):
    seq = list(it)
    if isinstance(it, np.ndarray) and it.ndim > 1: return sum(it, start)
    if any(isinstance(v, (SB, bool)) for v in seq): seq = [V.ind(v) if isinstance(v, SB) else v for v in seq]
    tot = start
    for v in seq: tot = tot + v
    return tot


def _any(it):
    out = []
    for v in it:
        if isinstance(v, SB):
            out.append(v); continue
        if v: return True
    return b_or(out) if out else False


def _all(it):
    out = []
    for v in it:
        if isinstance(v, SB):
            out.append(v); continue
        if not v: return False
    return b_and(out) if out else True


def _abs(x): return A.k_abs(x) if isinstance(x, (SymC, SB)) else abs(x)


NP = None
MATH = mathshim.MathShim()
_real_import = builtins.__import__
PKG = "pycs_sym"


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        if top == "pycircstat2": name = PKG + name[len("pycircstat2"):]; top = PKG
        if top == "numpy":
            if name == "numpy" : return NP
            if fromlist: return getattr(NP, name.split(".", 1)[1])
            return NP
        if name == "math": return MATH
        if name in scishim.MODS and (fromlist or "." not in name): return scishim.MODS[name]
        if top == "scipy" and not fromlist: return scishim.MODS["scipy"]
        if name in ("scipy.stats._distn_infrastructure",):
            return load_scipy_infra()
    return _real_import(name, globals, locals, fromlist, level)


_B = None


def sym_builtins():
    global _B
    if _B is None:
        d = dict(builtins.__dict__)
        d.update(float=FloatB, int=IntB, bool=BoolB, complex=ComplexB, min=_minmax("min"), max=_minmax("max"), round=_round, sum=_sum,
                 any=_any, all=_all, abs=_abs, __import__=_import, pow=lambda a, b, *m: a ** b if not m else pow(a, b, *m))
        _B = d
    return _B


FUNCS_SEEN = {}      # "module.qualname" -> source hash: every function entered symbolically


def compile_src(src, path):
    tree = ast.parse(src, path)
    tree = Rewrite().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec")


def exec_module(mod, src, path):
    d = mod.__dict__
    d["__builtins__"] = sym_builtins()
    d["__pycs_c__"] = _c; d["__pycs_j__"] = _j; d["__pycs_div__"] = _div; d["__pycs_pow__"] = _pow; d["__pycs_ix__"] = _ix; d["__pycs_and__"] = _and; d["__pycs_look__"] = _look
    d["__file__"] = path
    exec(compile_src(src, path), d)


def load_scipy_infra():
    key = PKG + "_scipy_infra"
    m = sys.modules.get(key)
    if m is not None: return m
    import scipy.stats._distn_infrastructure as real
    m = types.ModuleType(key)
    m.__package__ = "scipy.stats"
    sys.modules[key] = m
    src = open(real.__file__).read()
    exec_module(m, src, real.__file__)
    reduce = m.argsreduce
    m.argsreduce = lambda c, *a: reduce(np.bool_(c) if isinstance(c, bool) else c, *a)      # a decided comparison is a numpy bool there
    return m


STUBS = {"visualization": {"circ_plot": lambda *a, **k: None}}


def load(modules=("utils", "descriptive", "distributions", "clustering", "hypothesis", "base", "correlation", "regression")):
    """Fresh symbolic package from the repository's current working tree; returns the package."""
    global NP
    if NP is None: NP = npshim.NumpyShim()
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]: del sys.modules[k]
    pkg = types.ModuleType(PKG)
    root = os.path.join(REPO, "pycircstat2")
    pkg.__path__ = []
    pkg.__package__ = PKG
    sys.modules[PKG] = pkg

    class Finder:
        @staticmethod
        def find_spec(fullname, path=None, target=None):
            if not fullname.startswith(PKG + "."): return None
            import importlib.util
            return importlib.util.spec_from_loader(fullname, Loader())

    class Loader:
        def create_module(self, spec): return None
        def exec_module(self, module):
            short = module.__name__.split(".", 1)[1]
            if short in STUBS:
                module.__dict__.update(STUBS[short]); return
            p = os.path.join(root, *short.split(".")) + ".py"
            if not os.path.exists(p): p = os.path.join(root, *short.split("."), "__init__.py"); module.__path__ = []
            exec_module(module, open(p).read(), p)

    sys.meta_path[:] = [f for f in sys.meta_path if getattr(f, "_pycs", None) is None]
    Finder._pycs = True
    sys.meta_path.insert(0, Finder)
    for m in modules:
        setattr(pkg, m, importlib.import_module(PKG + "." + m))
    return pkg


def load_real():
    """The package as shipped, imported from the repository."""
    if REPO not in sys.path: sys.path.insert(0, REPO)
    import pycircstat2
    assert os.path.abspath(pycircstat2.__file__).startswith(os.path.abspath(REPO)), pycircstat2.__file__
    return pycircstat2
