"""Loads the *current* source of /repo/dsptoolbox as package ``symdsp`` for symbolic
execution.  The transformation is mechanical: annotations are dropped, `for`
statements are routed through the loop rule, attribute stores notify the frame
tracker, numpy/scipy/warnings/numba names resolve to their contracts.
Nothing else of the text is changed."""
from __future__ import annotations
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
from fractions import Fraction
import numpy as np
import z3
from . import core as C
from . import arrays as A
from . import npproxy as N
from . import sciproxy as S
from . import loops as L
from .core import SNum, SBool, Unsupported
from .arrays import SArr, MaskSel

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "symdsp"


# ------------------------------------------------------------------ AST transformation
class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Store):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def _comp(self, node):
        for g in node.generators:
            self.visit(g.iter)
    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp


def _names(nodes):
    v = _Assigned()
    for n in nodes:
        v.visit(n)
    return v.names


class Transform(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.cls = []
        self.func = 0
        self.loop_stack = []   # names of enclosing loop objects within the function

    def mangle(self, a):
        if self.cls and a.startswith("__") and not a.endswith("__"):
            return "_" + self.cls[-1].lstrip("_") + a
        return a

    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        f, self.func = self.func, 0
        self.generic_visit(node)
        self.func = f
        self.cls.pop()
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs + [x for x in (node.args.vararg, node.args.kwarg) if x]:
            a.annotation = None
        self.func += 1
        ls, self.loop_stack = self.loop_stack, []
        self.generic_visit(node)
        self.loop_stack = ls
        self.func -= 1
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        n = ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node)
        return self._touch([node.target], n)

    def visit_Assign(self, node):
        self.generic_visit(node)
        return self._touch(node.targets, node)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return self._touch([node.target], node)

    def _touch(self, targets, node):
        pre = []
        for t in targets:
            for a in ([t] if isinstance(t, ast.Attribute) else (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [])):
                if isinstance(a, ast.Attribute):
                    base = ast.fix_missing_locations(ast.parse(ast.unparse(_load(a.value)), mode="eval").body)
                    call = ast.Expr(ast.Call(func=ast.Name("_vf_touch_", ast.Load()), args=[base, ast.Constant(self.mangle(a.attr))], keywords=[]))
                    pre.append(ast.fix_missing_locations(ast.copy_location(call, node)))
        return pre + [node] if pre else node

    def visit_BinOp(self, node):
        """number ** 0.5 stays exact instead of being rounded to a float"""
        self.generic_visit(node)
        if self.func and isinstance(node.op, ast.Pow) and not isinstance(node.right, ast.UnaryOp) and not (isinstance(node.right, ast.Constant) and isinstance(node.right.value, int)):
            return ast.copy_location(ast.Call(func=ast.Name("_vf_pow_", ast.Load()), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.func and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = ast.Call(func=ast.Name("_vf_in_", ast.Load()), args=[node.left, node.comparators[0]], keywords=[])
            return ast.copy_location(r if isinstance(node.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r), node)
        return node

    def visit_Continue(self, node):
        if not self.loop_stack or self.loop_stack[-1] is None:
            return node
        return [_st(f"{self.loop_stack[-1]}.end(locals())", node), node]

    def visit_Break(self, node):
        if not self.loop_stack or self.loop_stack[-1] is None:
            return node
        return [_st(f"{self.loop_stack[-1]}.brk()", node), node]

    def visit_Return(self, node):
        self.generic_visit(node)
        v = node.value or ast.Constant(None)
        for l in self.loop_stack:
            if l is None:
                continue
            v = ast.Call(func=ast.Attribute(ast.Name(l, ast.Load()), "ret", ast.Load()), args=[v], keywords=[])
        r = ast.copy_location(ast.Return(v), node)
        return ast.fix_missing_locations(r)

    def visit_While(self, node):
        self.loop_stack.append(None)
        self.generic_visit(node)
        self.loop_stack.pop()
        return node

    def visit_For(self, node):
        if not self.func:
            return self.generic_visit(node)
        self.k += 1
        l = f"_L{self.k}_"
        targets = _names([node.target])
        tracked = [n for n in _names(node.body) if n not in targets]
        self.loop_stack.append(l)
        body = []
        for s in node.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        self.loop_stack.pop()
        it = self.visit(node.iter)
        orelse = [self.visit(s) for s in node.orelse]
        flat = []
        for o in orelse:
            flat += o if isinstance(o, list) else [o]
        mkl = ast.Assign(targets=[ast.Name(l, ast.Store())],
                         value=ast.Call(func=ast.Name("_vf_Loop_", ast.Load()),
                                        args=[it, _tuple(tracked), _tuple(targets)], keywords=[]))
        enter = _st(f"{l}.enter(locals())", node)
        regets = []
        if tracked:
            src = f"if {l}.sym:\n" + "\n".join(f"    {t} = {l}.get({t!r}, None)" for t in tracked)
            regets = ast.parse(src).body
        handler = ast.parse(f"try:\n    pass\nexcept Exception as _exc_{l}:\n    if not {l}.exc(_exc_{l}):\n        raise\nelse:\n    {l}.end(locals())").body[0]
        handler.body = body
        newfor = ast.For(target=node.target, iter=ast.Name(l, ast.Load()), body=regets + [handler], orelse=flat)
        post = []
        allf = tracked + targets
        if allf:
            src = f"if {l}.sym:\n" + "\n".join(f"    {t} = {l}.final({t!r}, None)" for t in allf)
            post = ast.parse(src).body
        out = [mkl, enter, newfor] + post
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out


def _tuple(names):
    return ast.Tuple([ast.Constant(n) for n in names], ast.Load())


def _st(src, node):
    s = ast.parse(src).body[0]
    ast.copy_location(s, node)
    return ast.fix_missing_locations(s)


class _Load(ast.NodeTransformer):
    def generic_visit(self, n):
        super().generic_visit(n)
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
        return n


def _load(n):
    import copy
    return _Load().visit(copy.deepcopy(n))


def power(x, y):
    if type(y) in (float, Fraction) and y == 0.5 and isinstance(x, (int, float, Fraction)) and not isinstance(x, bool) and x >= 0 and C.CTX is not None:
        return C.s_sqrt(x if isinstance(x, Fraction) else C.frac(x))
    return x ** y


def member(x, xs):
    if isinstance(xs, np.ndarray) and isinstance(x, (SNum, SBool)):
        return any_eq(x, xs.ravel().tolist())
    return x in xs


def any_eq(x, values):
    e = z3.Or(*[C.zb(x == v) for v in values])
    return C.CTX.decide(e)


# ------------------------------------------------------------------ builtins
class _MetaI(type):
    def __instancecheck__(cls, o):
        return s_isinstance(o, cls)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class sint(metaclass=_MetaI):
    def __new__(cls, x=0, *a):
        if a or isinstance(x, (str, bytes)):
            return int(x, *a) if a else int(x)
        if isinstance(x, (SNum, SBool)):
            return C.s_trunc(x) if isinstance(x, SNum) else C.s_cast(C.s_num(x), "i")
        if isinstance(x, SArr):
            return C.s_trunc(x.item_scalar())
        return int(x)
    from_bytes = int.from_bytes


class _MetaF(type):
    def __instancecheck__(cls, o):
        return s_isinstance(o, cls)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class sfloat(metaclass=_MetaF):
    def __new__(cls, x=0.0):
        if isinstance(x, str):
            return float(x)
        if isinstance(x, (SNum, SBool)):
            if isinstance(x, SNum) and x.kind == "c":
                raise TypeError("can't convert complex to float")
            return C.s_cast(x, "f")
        if isinstance(x, SArr):
            return C.s_cast(x.item_scalar(), "f")
        if isinstance(x, Fraction):
            return x
        return float(x)


def _cls_match(o, t):
    if isinstance(t, tuple):
        return any(_cls_match(o, q) for q in t)
    if isinstance(t, types.UnionType):
        return any(_cls_match(o, q) for q in t.__args__)
    if t is sint or t is int:
        return isinstance(o, int) or (isinstance(o, SNum) and o.kind == "i")
    if t is sfloat or t is float:
        return isinstance(o, (float, Fraction)) or (isinstance(o, SNum) and o.kind == "f")
    if t is complex:
        return isinstance(o, complex) or (isinstance(o, SNum) and o.kind == "c")
    if t is bool:
        return isinstance(o, (bool, SBool))
    if t is SArr or t is np.ndarray:
        return isinstance(o, (SArr, np.ndarray, MaskSel))
    if isinstance(t, type) and issubclass(t, np.generic):
        if isinstance(o, SNum):
            return issubclass(np.dtype({"i": "int64", "f": "float64", "c": "complex128"}[o.kind]).type, t) and False
        return isinstance(o, t)
    return isinstance(o, t)


def s_isinstance(o, t):
    return _cls_match(o, t)


_type = type


class s_type(type):
    def __new__(mcs, *a, **k):
        if len(a) == 1:
            o = a[0]
            if isinstance(o, SNum):
                return {"i": sint, "f": sfloat, "c": complex}[o.kind]
            if isinstance(o, SBool):
                return bool
            if isinstance(o, Fraction) or _type(o) is float:
                return sfloat
            if _type(o) is int:
                return sint
            if isinstance(o, (MaskSel, np.ndarray)):
                return SArr
            return _type(o)
        return _type(*a, **k)


def s_len(x):
    if isinstance(x, SArr):
        if not x._shape:
            raise TypeError("len() of unsized object")
        return A.wrapi(x._shape[0])
    if isinstance(x, MaskSel):
        return A.wrapi(A.dim_raw(x.shape[0]))
    if isinstance(x, L.SymIter):
        return A.wrapi(x.n)
    f = getattr(_type(x), "__len__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return len(x)


def _has_num(xs):
    return any(isinstance(x, (SNum, SBool)) for x in xs)


def s_minmax(f, sf):
    def g(*a, **kw):
        if kw:
            return f(*a, **kw)
        xs = a
        if len(a) == 1:
            if isinstance(a[0], SArr):
                x = a[0]
                return A.reduce_max(x, None, False, 1 if f is max else -1)
            xs = list(a[0])
        if not xs:
            return f(xs)
        if _has_num(xs):
            out = xs[0]
            for x in xs[1:]:
                out = sf(out, x)
            return out
        return f(xs)
    return g


def s_int_min(a, b):
    """python min with a case split (keeps integer terms simple)"""
    if C.kind_of(a) == "i" and C.kind_of(b) == "i" and not C.CTX.bound and not C.CTX.nofork:
        return a if C.CTX.decide(C.zb(C.s_le(a, b))) else b
    return C.s_min(a, b)


def s_int_max(a, b):
    if C.kind_of(a) == "i" and C.kind_of(b) == "i" and not C.CTX.bound and not C.CTX.nofork:
        return a if C.CTX.decide(C.zb(C.s_ge(a, b))) else b
    return C.s_max(a, b)


def s_sum(xs, start=0):
    if isinstance(xs, SArr):
        return A.reduce_sum(xs, 0)
    return sum(xs, start)


def s_all(xs):
    return A.reduce_all(xs) if isinstance(xs, SArr) and xs.ndim == 1 and not isinstance(xs._shape[0], int) else all(xs)


def s_any(xs):
    return A.reduce_any(xs) if isinstance(xs, SArr) and xs.ndim == 1 and not isinstance(xs._shape[0], int) else any(xs)


def s_abs(x):
    return abs(x)


def s_round(x, nd=None):
    if isinstance(x, SNum):
        return x.__round__(nd)
    return round(x) if nd is None else round(float(x), nd)


def touch(obj, attr):
    if C.CTX is not None and C.CTX.loop_summ is not None:
        p = getattr(_type(obj), attr, None)
        if isinstance(p, property):
            return
        C.CTX.loop_summ.on_setattr(obj, attr)


class _WarnMod:
    @staticmethod
    def warn(*a, **k):
        return None

    def __getattr__(self, n):
        import warnings
        return getattr(warnings, n)


class _NumbaTypes:
    def __getattr__(self, n):
        return _NumbaTypes()

    def __call__(self, *a, **k):
        return _NumbaTypes()


class _Numba:
    prange = staticmethod(L.s_range)
    types = _NumbaTypes()

    def jit(self, *a, **k):
        if a and isinstance(a[0], types.FunctionType):
            return a[0]
        return lambda f: f
    njit = jit

    def __getattr__(self, n):
        return _NumbaTypes()


class _Dummy(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _DummyObj()


class _DummyObj:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _DummyObj()

    def __call__(self, *a, **k):
        return _DummyObj()

    def __or__(self, o):
        return self
    __ror__ = __or__


DUMMY = ("matplotlib", "seaborn", "sounddevice", "soundfile")
PROX = {"warnings": _WarnMod(), "numba": _Numba(), "numpy": N.NP}


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        root = name.split(".")[0]
        if root == "numpy":
            if name in ("numpy", ) or not fromlist:
                return N.NP
            return builtins.__import__(name, globals, locals, fromlist, level)
        if root == "scipy":
            if fromlist:
                return S.REG[name]
            return S.REG["scipy"]
        if root in PROX:
            return PROX[root]
        if root in DUMMY:
            return _Dummy(name)
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    b = dict(builtins.__dict__)
    b.update({
        "range": L.s_range, "enumerate": L.s_enumerate, "zip": L.s_zip, "reversed": L.s_reversed, "len": s_len,
        "int": sint, "float": sfloat, "type": s_type, "isinstance": s_isinstance, "min": s_minmax(min, s_int_min),
        "max": s_minmax(max, s_int_max), "sum": s_sum, "all": s_all, "any": s_any, "round": s_round, "print": lambda *a, **k: None,
        "input": lambda *a: (_ for _ in ()).throw(Unsupported("input")), "__import__": s_import, "_vf_Loop_": L.Loop, "_vf_touch_": touch, "_vf_pow_": power, "_vf_in_": member,
        "open": lambda *a, **k: (_ for _ in ()).throw(Unsupported("file access")),
    })
    return b


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = Transform().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec")
        module.__dict__["__builtins__"] = make_builtins()
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, fullname, path=None, target=None):
        parts = fullname.split(".")
        if parts[0] != PKG:
            return None
        p = os.path.join(self.root, "dsptoolbox", *parts[1:])
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            return importlib.util.spec_from_file_location(fullname, f, loader=_Loader(f), submodule_search_locations=[p])
        if os.path.isfile(p + ".py"):
            return importlib.util.spec_from_file_location(fullname, p + ".py", loader=_Loader(p + ".py"))
        return None


_installed = False


def load(repo=None):
    """import the package for symbolic execution"""
    global _installed
    repo = repo or REPO
    if not _installed:
        sys.meta_path.insert(0, _Finder(repo))
        _installed = True
    return importlib.import_module(PKG)


def load_real(repo=None):
    repo = repo or REPO
    if repo not in sys.path:
        sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    m = importlib.import_module("dsptoolbox")
    assert os.path.abspath(m.__file__).startswith(os.path.abspath(repo)), m.__file__
    return m
