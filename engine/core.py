"""Scalar terms, path conditions and forking for the symbolic executor.

Machine floats are modelled as mathematical reals, numpy integers as mathematical
integers (assumption A-REAL in DESIGN.md).
"""
from __future__ import annotations
import math
import time
import numbers
import fractions
from fractions import Fraction
import numpy as _np
import z3


class Unsupported(Exception):
    """The code left the subset the engine can decide."""


class Infeasible(BaseException):
    """Current path was found to be infeasible / must be abandoned."""


class PathLimit(Unsupported):
    pass


# --------------------------------------------------------------------------- context
class Ctx:
    """One exploration of one contract (possibly many paths)."""

    def __init__(self, max_paths=400, decide_ms=400):
        self.max_paths = max_paths
        self.decide_ms = decide_ms
        self.trail_prefix: list = []
        self.n_paths = 0
        self.solver_time = 0.0
        self.n_decides = 0
        self.assumptions_used: set = set()
        self.new_path([])

    # --- path handling
    def new_path(self, prefix):
        self.trail_prefix = list(prefix)
        self.trail = []           # list of [value(bool), other_feasible(bool)]
        self.pc = []              # path conditions (z3 Bool)
        self.solver = z3.Solver()
        self.solver.set("smt.mbqi", False)
        self.solver.set("timeout", self.decide_ms)
        self.counter = {}
        self.axiom_keys = set()
        self.ops = {}             # op function name -> OpDef
        self.op_memo = {}
        self.bound = []           # stack of bound variables (z3 consts)
        self.scopes = 0
        self.expand = 0
        self.known = {}           # ast id -> (expr, truth) decided on this path
        self.bufs = []
        self.loops = []
        self.witness_idx = []
        self.inputs = {}
        self.nofork = 0
        self.loop_summ = None
        self.pc_ext = []
        self.ver = 0
        self.deferred = []
        self.loopstack = []
        self.input_bounds = {}
        self.scope_ids = [0]
        self.scope_n = 0
        self.sorted_fns = {}      # function name -> (length, lower bound)

    def fresh(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return f"{base}!{k}"

    def add(self, cond):
        if cond is True:
            return
        if cond is False:
            cond = z3.BoolVal(False)
        self.pc.append(cond)
        self.ver += 1
        self.solver.add(cond)
        self.known[cond.get_id()] = (cond, True)
        if z3.is_not(cond):
            a = cond.arg(0)
            self.known[a.get_id()] = (a, False)

    def axiom(self, key, cond):
        if key in self.axiom_keys:
            return
        self.axiom_keys.add(key)
        if self.scopes:
            self.deferred.append(cond)
        self.add(cond)

    def check(self, *conds):
        t = time.time()
        self.n_decides += 1
        r = self.solver.check(*conds)
        self.solver_time += time.time() - t
        return r

    def entails(self, cond):
        """True only if the path condition provably entails cond."""
        if cond is True or cond is False:
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known.get(cond.get_id()) or self.known.get(c.get_id())
        if k is not None:
            return k[1]
        key = ("ent", c.get_id(), self.ver)
        hit = self.op_memo.get(key)
        if hit is not None:
            return hit[1]
        r = self.check(z3.Not(c)) == z3.unsat
        self.op_memo[key] = (c, r)
        if r:
            self.known[c.get_id()] = (c, True)
            self.known[cond.get_id()] = (cond, True)
        return r

    def decide(self, cond) -> bool:
        if cond is True or cond is False:
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known.get(c.get_id()) or self.known.get(cond.get_id())
        if k is not None:
            return k[1]
        if self.bound or self.nofork:
            # never fork on a condition below a binder: only entailed answers
            if self.entails(cond):
                return True
            if self.entails(z3.Not(cond)):
                return False
            raise Unsupported("case split below a binder: %s" % c)
        owner = self.loopstack[-1] if self.loopstack else self
        prefix = owner.prefix if owner is not self else self.trail_prefix
        trail = owner.trail
        pos = len(trail)
        if pos < len(prefix):
            val, other = prefix[pos]
            trail.append([val, other])
        else:
            rt = self.check(c)
            if rt == z3.unsat:
                val, other = False, False
            else:
                rf = self.check(z3.Not(c))
                if rf == z3.unsat:
                    val, other = True, False
                else:
                    val, other = True, True
            trail.append([val, other])
        if len(trail) > 4000:
            raise PathLimit("path too long")
        self.add(c if val else z3.Not(c))
        return val

    def next_prefix(self):
        t = [list(x) for x in self.trail]
        while t:
            v, o = t.pop()
            if o:
                t.append([not v, False])
                return t
        return None

    # scoped assumptions (used below binders)
    def push(self, *conds):
        self.solver.push()
        self.scopes += 1
        self.scope_n += 1
        self.scope_ids.append(self.scope_n)
        self.pc_ext.append((len(self.pc), dict(self.known)))
        for c in conds:
            if c is not True:
                self.add(c)

    def pop(self):
        self.solver.pop()
        n, known = self.pc_ext.pop()
        del self.pc[n:]
        self.known = known
        self.scopes -= 1
        self.scope_ids.pop()
        self.ver += 1
        # axioms created inside the scope are universally valid: keep them
        d = list(self.deferred)
        if self.scopes == 0:
            self.deferred = []
        for c in d:
            self.add(c)


CTX: Ctx = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx() -> Ctx:
    return CTX


# --------------------------------------------------------------------------- raw reals
def is_const(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def frac(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, Fraction)):
        return x
    if isinstance(x, _np.integer):
        return int(x)
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise Unsupported("inf/nan in arithmetic")
    if x == int(x) and abs(x) < 1e15:
        return Fraction(int(x))
    return Fraction(repr(x))


def z(x, real=False):
    """R -> z3"""
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    if isinstance(x, (int, _np.integer)):
        return z3.RealVal(int(x)) if real else z3.IntVal(int(x))
    if real and x.is_int():
        return toreal(x)
    return x


def toreal(x):
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if x.is_int():
        if z3.is_int_value(x):
            return z3.RealVal(x.as_long())
        return z3.ToReal(x)
    return x


def isint_r(x):
    if isinstance(x, int):
        return True
    if isinstance(x, Fraction):
        return False
    return x.is_int()


def _coerce(a, b):
    if isint_r(a) and isint_r(b):
        return a, b
    return toreal(a), toreal(b)


def fold(x):
    """numeral z3 -> python"""
    if isinstance(x, (int, Fraction)):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return x


def same(a, b):
    if is_const(a) or is_const(b):
        return is_const(a) and is_const(b) and a == b
    return a.eq(b)


def _neg_of(a):
    """if a == -1*t return t"""
    if is_const(a):
        return None
    if z3.is_app_of(a, z3.Z3_OP_UMINUS):
        return a.arg(0)
    if z3.is_mul(a) and a.num_args() == 2 and fold(a.arg(0)) == -1:
        return a.arg(1)
    return None


def radd(a, b):
    a, b = _coerce(a, b)
    if is_const(a) and is_const(b):
        return a + b
    if is_const(a) and a == 0:
        return b
    if is_const(b) and b == 0:
        return a
    if isint_r(a):
        return fold(z3.simplify(z(a) + z(b)))
    return z(a) + z(b)


def rneg(a):
    if is_const(a):
        return -a
    n = _neg_of(a)
    if n is not None:
        return n
    return -a


def rsub(a, b):
    a, b = _coerce(a, b)
    if is_const(a) and is_const(b):
        return a - b
    if is_const(b) and b == 0:
        return a
    if same(a, b):
        return 0 if isint_r(a) else Fraction(0)
    if isint_r(a):
        return fold(z3.simplify(z(a) - z(b)))
    if is_const(a) and a == 0:
        return rneg(b)
    return z(a) - z(b)


def rmul(a, b):
    a, b = _coerce(a, b)
    if is_const(a) and is_const(b):
        return a * b
    if is_const(b):
        a, b = b, a
    if is_const(a):
        if a == 0:
            return 0 if isint_r(b) else Fraction(0)
        if a == 1:
            return b
        if a == -1:
            return rneg(b)
        if not isint_r(b) and z3.is_mul(b) and b.num_args() == 2 and is_const(fold(b.arg(0))):
            return rmul(a * fold(b.arg(0)), b.arg(1))
        return z(a, not isint_r(b)) * b
    if isint_r(a):
        return fold(z3.simplify(a * b))
    # (x / b) * b = x when b != 0
    for p, q in ((a, b), (b, a)):
        if z3.is_div(p) and p.arg(1).eq(q) and CTX.entails(q != 0):
            return fold(p.arg(0))
    if z3.is_mul(a) or z3.is_mul(b):
        fa, fb = list(a.children()) if z3.is_mul(a) else [a], list(b.children()) if z3.is_mul(b) else [b]
        for one, other in ((fa, fb), (fb, fa)):
            for i, p in enumerate(one):
                if z3.is_div(p):
                    for j, q in enumerate(other):
                        if p.arg(1).eq(q) and CTX.entails(q != 0):
                            r = fold(p.arg(0))
                            for t in one[:i] + one[i + 1:] + other[:j] + other[j + 1:]:
                                r = rmul(r, fold(t))
                            return r
    # pull constants / signs out
    for p, q in ((a, b), (b, a)):
        if z3.is_mul(p) and p.num_args() == 2 and is_const(fold(p.arg(0))):
            return rmul(fold(p.arg(0)), rmul(p.arg(1), q))
        n = _neg_of(p)
        if n is not None:
            return rneg(rmul(n, q))
    if a.eq(b) and z3.is_app(a) and a.decl().name() == "SQRT" and CTX.entails(a.arg(0) >= 0):
        return fold(a.arg(0))
    if a.get_id() > b.get_id():
        a, b = b, a
    return a * b


def rdiv(a, b):
    a, b = toreal(a), toreal(b)
    if is_const(b):
        if b == 0:
            raise Unsupported("division by constant zero")
        return rmul(Fraction(1) / b, a)
    if is_const(a) and a == 0:
        return Fraction(0)
    if same(a, b) and CTX.entails(b != 0):
        return Fraction(1)
    # constant factor of denominator out
    if z3.is_mul(b) and b.num_args() == 2 and is_const(fold(b.arg(0))):
        return rmul(Fraction(1) / fold(b.arg(0)), rdiv(a, b.arg(1)))
    if not is_const(a):
        if z3.is_mul(a):
            ch = list(a.children())
            for i, c in enumerate(ch):
                if c.eq(b) and CTX.entails(b != 0):
                    rest = ch[:i] + ch[i + 1:]
                    r = fold(rest[0])
                    for t in rest[1:]:
                        r = rmul(r, fold(t))
                    return r
            if a.num_args() == 2 and is_const(fold(a.arg(0))):
                return rmul(fold(a.arg(0)), rdiv(a.arg(1), b))
        # (x/y)/z stays
    elif a != 1:
        return rmul(a, rdiv(Fraction(1), b))
    # 1/(p/q) = q/p
    if z3.is_div(b) and CTX.entails(b.arg(1) != 0) and CTX.entails(b.arg(0) != 0):
        return rdiv(rmul(a, b.arg(1)), b.arg(0))
    return z(a, True) / b


def rlt(a, b):
    a, b = _coerce(a, b)
    if is_const(a) and is_const(b):
        return a < b
    return z(a) < z(b)


def rle(a, b):
    a, b = _coerce(a, b)
    if is_const(a) and is_const(b):
        return a <= b
    if same(a, b):
        return True
    return z(a) <= z(b)


def req(a, b):
    a, b = _coerce(a, b)
    if is_const(a) and is_const(b):
        return a == b
    if same(a, b):
        return True
    return z(a) == z(b)


def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            x = x.e
        if x is True or x is _np.True_:
            continue
        if x is False or x is _np.False_:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            x = x.e
        if x is False or x is _np.False_:
            continue
        if x is True or x is _np.True_:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_not(x):
    if isinstance(x, SBool):
        x = x.e
    if isinstance(x, (bool, _np.bool_)):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def zb(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    return x


def rite(c, a, b):
    if isinstance(c, SBool):
        c = c.e
    if c is True or c is False:
        return a if c else b
    a, b = _coerce(a, b)
    if same(a, b):
        return a
    return z3.If(c, z(a), z(b))


# --------------------------------------------------------------------------- scalars
class SBool:
    __slots__ = ("e",)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.decide(self.e)

    def __and__(self, o):
        if hasattr(o, "_sym_array_"):
            return NotImplemented
        return mkb(b_and(self.e, raw_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        if hasattr(o, "_sym_array_"):
            return NotImplemented
        return mkb(b_or(self.e, raw_bool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        o = raw_bool(o)
        return mkb(z3.Xor(zb(self.e), zb(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkb(b_not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return mkb(zb(self.e) == zb(raw_bool(o)))
        return s_eq(self, o)

    def __ne__(self, o):
        return s_not(self == o)

    __hash__ = object.__hash__

    def __format__(self, s):
        return "<symbool>"

    def __repr__(self):
        return f"SBool({self.e})"

    def __add__(self, o): return s_add(self, o)
    __radd__ = __add__
    def __mul__(self, o): return s_mul(self, o)
    __rmul__ = __mul__
    def __sub__(self, o): return s_sub(self, o)
    def __rsub__(self, o): return s_sub(o, self)

    def astype(self, t):
        return self if t in (bool, _np.bool_) else s_num(self)


def raw_bool(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool, _np.bool_)):
        return bool(x)
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported(f"not a boolean: {type(x)}")


def mkb(e):
    if isinstance(e, (bool, _np.bool_)):
        return bool(e)
    if isinstance(e, SBool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


class SNum:
    """kind: 'i' | 'f' | 'c';  re, im raw reals"""
    __slots__ = ("kind", "re", "im")
    __array_ufunc__ = None

    def __init__(self, kind, re, im=None):
        self.kind = kind
        self.re = re
        self.im = im

    # numpy-scalar like API
    @property
    def real(self):
        return mk("f" if self.kind == "c" else self.kind, self.re)

    @property
    def imag(self):
        return mk("f", self.im) if self.kind == "c" else (0 if self.kind == "i" else Fraction(0))

    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        return _np.dtype({"i": "int64", "f": "float64", "c": "complex128"}[self.kind])

    def conj(self): return s_conj(self)
    conjugate = conj
    def astype(self, t): return s_cast(self, kind_of_dtype(t))
    def item(self): return self
    def copy(self): return self
    def squeeze(self, axis=None): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def is_integer(self):
        if self.kind == "i":
            return True
        return mkb(z3.IsInt(z(self.re)))

    def __add__(self, o): return _bin(s_add, self, o)
    def __radd__(self, o): return _bin(s_add, o, self)
    def __sub__(self, o): return _bin(s_sub, self, o)
    def __rsub__(self, o): return _bin(s_sub, o, self)
    def __mul__(self, o): return _bin(s_mul, self, o)
    def __rmul__(self, o): return _bin(s_mul, o, self)
    def __truediv__(self, o): return _bin(s_div, self, o)
    def __rtruediv__(self, o): return _bin(s_div, o, self)
    def __floordiv__(self, o): return _bin(s_floordiv, self, o)
    def __rfloordiv__(self, o): return _bin(s_floordiv, o, self)
    def __mod__(self, o): return _bin(s_mod, self, o)
    def __rmod__(self, o): return _bin(s_mod, o, self)
    def __divmod__(self, o): return (self // o, self % o)
    def __pow__(self, o): return _bin(s_pow, self, o)
    def __rpow__(self, o): return _bin(s_pow, o, self)
    def __neg__(self): return s_neg(self)
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)
    def __round__(self, nd=None):
        if nd not in (None, 0):
            raise Unsupported("round digits")
        r = s_round(self)
        return s_cast(r, "i") if nd is None else r
    def __floor__(self): return s_cast(s_floor(self), "i")
    def __ceil__(self): return s_cast(s_ceil(self), "i")
    def __trunc__(self): return s_trunc(self)
    def __lt__(self, o): return _bin(s_lt, self, o)
    def __le__(self, o): return _bin(s_le, self, o)
    def __gt__(self, o): return _bin(s_gt, self, o)
    def __ge__(self, o): return _bin(s_ge, self, o)

    def __eq__(self, o):
        if hasattr(o, "_sym_array_"):
            return NotImplemented
        if not is_scalar(o):
            return False
        return s_eq(self, o)

    def __ne__(self, o):
        if hasattr(o, "_sym_array_"):
            return NotImplemented
        if not is_scalar(o):
            return True
        return s_not(s_eq(self, o))

    def __hash__(self):
        return hash((self.kind, str(self.re), str(self.im)))

    def __bool__(self):
        return bool(s_not(s_eq(self, 0)))

    def __index__(self):
        if self.kind != "i":
            raise TypeError("float object cannot be interpreted as an integer")
        return concretize_int(self.re)

    def __int__(self):
        return concretize_int(raw_int(s_trunc(self)))

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def __format__(self, s):
        return "<sym>"

    def __repr__(self):
        return f"S{self.kind}({self.re}" + (f", {self.im})" if self.kind == "c" else ")")

    __str__ = __repr__


def _bin(f, a, b):
    if hasattr(a, "_sym_array_") or hasattr(b, "_sym_array_"):
        return NotImplemented
    if isinstance(a, (_np.ndarray, list, tuple)) and not (isinstance(a, _np.ndarray) and a.ndim == 0):
        from . import arrays
        return arrays.ew_named(f, a, b)
    if isinstance(b, (_np.ndarray, list, tuple)) and not (isinstance(b, _np.ndarray) and b.ndim == 0):
        from . import arrays
        return arrays.ew_named(f, a, b)
    if not is_scalar(a) or not is_scalar(b):
        return NotImplemented
    return f(a, b)


def concretize_int(e):
    if is_const(e):
        return int(e)
    for _ in range(16):
        s = CTX.solver
        if CTX.check() != z3.sat:
            raise Unsupported("cannot concretize index")
        v = s.model().eval(e, model_completion=True)
        v = v.as_long()
        # prefer small deterministic values
        for cand in range(-2, 9):
            if CTX.check(e == cand) == z3.sat:
                v = cand
                break
        if CTX.decide(e == v):
            return v
    raise Unsupported("unbounded integer used as a python index")


def is_scalar(x):
    return isinstance(x, (SNum, SBool, bool, int, float, complex, Fraction, _np.generic)) or (
        isinstance(x, _np.ndarray) and x.ndim == 0)


def mk(kind, re, im=None):
    re = fold(re)
    if kind == "c":
        return SNum("c", toreal(re), toreal(fold(im)))
    if is_const(re):
        if kind == "i":
            return int(re)
        return Fraction(re)
    if kind == "f":
        re = toreal(re)
    return SNum(kind, re)


def parts(v):
    """-> (kind, re, im)"""
    if isinstance(v, SNum):
        return v.kind, v.re, v.im
    if isinstance(v, SBool):
        return "i", z3.If(v.e, z3.IntVal(1), z3.IntVal(0)), None
    if isinstance(v, (bool, _np.bool_)):
        return "i", int(v), None
    if isinstance(v, (int, _np.integer)):
        return "i", int(v), None
    if isinstance(v, Fraction):
        return "f", v, None
    if isinstance(v, (float, _np.floating)):
        return "f", Fraction(frac(v)), None
    if isinstance(v, (complex, _np.complexfloating)):
        return "c", Fraction(frac(v.real)), Fraction(frac(v.imag))
    if isinstance(v, _np.ndarray) and v.ndim == 0:
        return parts(v[()])
    if hasattr(v, "_sym_array_") and v.ndim == 0:
        return parts(v.get(()))
    raise Unsupported(f"not a number: {type(v)}")


_K = {"i": 0, "f": 1, "c": 2}
_KI = "ifc"


def kmax(*ks):
    return _KI[max(_K[k] if k != "b" else 0 for k in ks)]


def s_num(v):
    k, re, im = parts(v)
    return mk(k, re, im)


def raw_int(v):
    k, re, im = parts(v)
    if k != "i":
        raise TypeError("expected an integer")
    return re


def raw_real(v):
    k, re, im = parts(v)
    if k == "c":
        raise TypeError("complex where real expected")
    return toreal(re)


def _binop(f):
    def g(a, b):
        ka, ra, ia = parts(a)
        kb, rb, ib = parts(b)
        return f(ka, ra, ia, kb, rb, ib)
    return g


def _z0(x):
    return Fraction(0) if x is None else x


def s_add(a, b):
    ka, ra, ia = parts(a); kb, rb, ib = parts(b)
    k = kmax(ka, kb)
    if k == "c":
        return mk("c", radd(ra, rb), radd(_z0(ia), _z0(ib)))
    return mk(k, radd(ra, rb))


def s_sub(a, b):
    ka, ra, ia = parts(a); kb, rb, ib = parts(b)
    k = kmax(ka, kb)
    if k == "c":
        return mk("c", rsub(ra, rb), rsub(_z0(ia), _z0(ib)))
    return mk(k, rsub(ra, rb))


def s_mul(a, b):
    ka, ra, ia = parts(a); kb, rb, ib = parts(b)
    k = kmax(ka, kb)
    if k == "c":
        ia, ib = _z0(ia), _z0(ib)
        return mk("c", rsub(rmul(ra, rb), rmul(ia, ib)), radd(rmul(ra, ib), rmul(ia, rb)))
    return mk(k, rmul(ra, rb))


def s_div(a, b):
    ka, ra, ia = parts(a); kb, rb, ib = parts(b)
    if kb == "c":
        ia, ib = _z0(ia), _z0(ib)
        if is_const(ib) and ib == 0:
            return mk("c", rdiv(ra, rb), rdiv(ia, rb))
        d = radd(rmul(toreal(rb), toreal(rb)), rmul(ib, ib))
        re = radd(rmul(ra, rb), rmul(ia, ib))
        im = rsub(rmul(ia, rb), rmul(ra, ib))
        if ka != "c":
            pass
        return mk("c", rdiv(re, d), rdiv(im, d))
    if is_const(rb) and rb == 0:
        if is_const(ra):
            raise ZeroDivisionError("division by zero")
        raise Unsupported("division by zero")
    if ka == "c":
        return mk("c", rdiv(ra, rb), rdiv(ia, rb))
    return mk("f", rdiv(ra, rb))


def s_floordiv(a, b):
    ka, ra, ia = parts(a); kb, rb, ib = parts(b)
    if ka == "i" and kb == "i":
        if is_const(ra) and is_const(rb):
            return ra // rb
        if is_const(rb):
            if rb > 0:
                return mk("i", const_div(ra, int(rb)))
            return mk("i", z(rneg(ra)) / z(-rb))
        if CTX.decide(rb > 0):
            from . import divmod as D
            e = D.simp(z(ra) / z(rb), CTX)
            D.add_facts(e, CTX)
            return mk("i", fold(e))
        if CTX.decide(rb == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mk("i", z(rneg(ra)) / z(rneg(rb)))
    return s_floor(s_div(a, b))


def s_mod(a, b):
    ka, ra, ia = parts(a); kb, rb, ib = parts(b)
    if ka == "i" and kb == "i":
        if is_const(ra) and is_const(rb):
            return ra % rb
        if is_const(rb) and rb > 0:
            return mk("i", z3.simplify(z(ra) % z(rb)))
        if is_const(rb):
            return s_sub(a, s_mul(s_floordiv(a, b), b))
        if CTX.decide(rb > 0):
            from . import divmod as D
            e = D.simp(z(ra) % z(rb), CTX)
            D.add_facts(e, CTX)
            return mk("i", fold(e))
        return s_sub(a, s_mul(s_floordiv(a, b), b))
    return s_sub(a, s_mul(s_cast(s_floordiv(a, b), "f"), b))


def s_neg(a):
    k, r, i = parts(a)
    if k == "c":
        return mk("c", rneg(r), rneg(i))
    return mk(k, rneg(r))


def s_not(a):
    return mkb(b_not(raw_bool(a)))


def s_conj(a):
    k, r, i = parts(a)
    return mk("c", r, rneg(i)) if k == "c" else mk(k, r)


def s_real(a):
    k, r, i = parts(a)
    return mk("f" if k == "c" else k, r)


def s_imag(a):
    k, r, i = parts(a)
    return mk("f", i) if k == "c" else mk(k, 0 if k == "i" else Fraction(0))


def r_abs(r):
    if is_const(r):
        return abs(r)
    n = _neg_of(r)
    if n is not None:
        return r_abs(n)
    zero = 0 if isint_r(r) else Fraction(0)
    if CTX.entails(z(r) >= 0):
        return r
    # |a*b| = |a||b| for two factor products, |a/b| = |a|/|b|
    if z3.is_mul(r) and not isint_r(r):
        out = None
        for c in r.children():
            t = r_abs(fold(c))
            out = t if out is None else rmul(out, t)
        return out
    if z3.is_div(r):
        return rdiv(r_abs(fold(r.arg(0))), r_abs(fold(r.arg(1))))
    return z3.If(z(r) >= z(zero), r, -r)


def s_abs(a):
    k, r, i = parts(a)
    if k == "c":
        if is_const(i) and i == 0:
            return mk("f", r_abs(r))
        return mk("f", r_sqrt(radd(rmul(r, r), rmul(i, i))))
    return mk(k, r_abs(r))


# --- uninterpreted functions with axioms
_R = z3.RealSort()
_I = z3.IntSort()
F_SQRT = z3.Function("SQRT", _R, _R)
F_P10 = z3.Function("POW10", _R, _R)
F_L10 = z3.Function("LOG10", _R, _R)
F_EXP = z3.Function("EXP", _R, _R)
F_LN = z3.Function("LN", _R, _R)
F_P2 = z3.Function("POW2", _R, _R)
F_L2 = z3.Function("LOG2", _R, _R)
F_POW = z3.Function("POW", _R, _R, _R)
F_SIN = z3.Function("SIN", _R, _R)
F_COS = z3.Function("COS", _R, _R)
F_ATAN2 = z3.Function("ATAN2", _R, _R, _R)
PI = z3.Real("PI")


def pi_val():
    CTX.axiom("pi", z3.And(PI > z3.RealVal("31415926/10000000"), PI < z3.RealVal("31415927/10000000")))
    return SNum("f", PI)


def exact_sqrt(r):
    r = Fraction(r)
    if r < 0:
        return None
    n, d = math.isqrt(r.numerator), math.isqrt(r.denominator)
    if n * n == r.numerator and d * d == r.denominator:
        return Fraction(n, d)
    return None


def r_sqrt(r):
    r = toreal(r)
    if is_const(r):
        e = exact_sqrt(r)
        if e is not None:
            return e
        if r < 0:
            raise Unsupported("sqrt of negative constant")
    else:
        # sqrt(c*x) with square constant, sqrt(x*x) = |x|
        if z3.is_mul(r) and r.num_args() == 2:
            c = fold(r.arg(0))
            if is_const(c) and c > 0 and exact_sqrt(c) is not None:
                return rmul(exact_sqrt(c), r_sqrt(r.arg(1)))
            if r.arg(0).eq(r.arg(1)):
                return r_abs(r.arg(0))
    r = z(r, True)
    s = F_SQRT(r)
    CTX.axiom(("sqrt", r.get_id()), z3.Implies(r >= 0, z3.And(s >= 0, s * s == r)))
    CTX.op_memo[("keep", r.get_id())] = r
    return s


def _un(f, name, axioms=None):
    def g(r):
        r = z(toreal(r), True)
        s = f(r)
        if axioms:
            key = (name, r.get_id())
            if key not in CTX.axiom_keys:
                CTX.op_memo[("keep", r.get_id())] = r
                CTX.axiom(key, axioms(r, s))
        return s
    return g


def _pow_rules(F_EXPF, F_LOGF, name):
    def p(r):
        r = toreal(r)
        if is_const(r):
            if r == 0:
                return Fraction(1)
            base = {"POW10": 10, "POW2": 2}.get(name)
            if base and Fraction(r).denominator == 1 and abs(r) <= 60:
                return Fraction(base) ** int(r)
            if r < 0:
                return rdiv(Fraction(1), p(-r))
        else:
            # POW(LOG(x)) = x
            if z3.is_app(r) and r.decl().eq(F_LOGF) and CTX.entails(r.arg(0) > 0):
                return fold(r.arg(0))
            if z3.is_mul(r) and r.num_args() == 2 and is_const(fold(r.arg(0))) \
                    and z3.is_app(r.arg(1)) and r.arg(1).decl().eq(F_LOGF):
                c = fold(r.arg(0))
                x = r.arg(1).arg(0)
                if CTX.entails(x > 0):
                    if c == Fraction(1, 2):
                        return r_sqrt(x)
                    if Fraction(c).denominator == 1 and 0 < c <= 4:
                        return r_ipow(x, int(c))
            if _neg_of(r) is not None:
                return rdiv(Fraction(1), p(_neg_of(r)))
            if z3.is_mul(r) and r.num_args() == 2 and is_const(fold(r.arg(0))) and fold(r.arg(0)) < 0:
                return rdiv(Fraction(1), p(rmul(-fold(r.arg(0)), r.arg(1))))
        rz = z(r, True)
        s = F_EXPF(rz)
        key = (name, rz.get_id())
        if key not in CTX.axiom_keys:
            CTX.op_memo[("keep", rz.get_id())] = rz
            CTX.axiom(key, z3.And(s > 0, F_LOGF(s) == rz,
                                  z3.Implies(rz == 0, s == 1),
                                  z3.Implies(rz > 0, s > 1), z3.Implies(rz < 0, s < 1)))
        return s

    def l(r):
        r = toreal(r)
        if is_const(r):
            if r == 1:
                return Fraction(0)
            base = {"POW10": 10, "POW2": 2}.get(name)
            if base:
                for k in range(-40, 41):
                    if r == Fraction(base) ** k:
                        return Fraction(k)
        else:
            if z3.is_app(r) and r.decl().eq(F_EXPF):
                return fold(r.arg(0))
        rz = z(r, True)
        s = F_LOGF(rz)
        key = ("log" + name, rz.get_id())
        if key not in CTX.axiom_keys:
            CTX.op_memo[("keep", rz.get_id())] = rz
            CTX.axiom(key, z3.Implies(rz > 0, z3.And(F_EXPF(s) == rz,
                                                     (rz >= 1) == (s >= 0), (rz == 1) == (s == 0))))
        return s
    return p, l


r_pow10, r_log10 = _pow_rules(F_P10, F_L10, "POW10")
r_exp, r_ln = _pow_rules(F_EXP, F_LN, "EXP")
r_pow2, r_log2 = _pow_rules(F_P2, F_L2, "POW2")


def _trig_ax(r):
    s, c = F_SIN(r), F_COS(r)
    key = ("trig", r.get_id())
    if key not in CTX.axiom_keys:
        CTX.op_memo[("keep", r.get_id())] = r
        pi_val()
        CTX.axiom(key, z3.And(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1,
                              z3.Implies(r == 0, z3.And(s == 0, c == 1)),
                              z3.Implies(z3.And(r > 0, r < PI), s > 0),
                              z3.Implies(z3.And(r > 0, r < PI), z3.And(c < 1, c > -1)),
                              z3.Implies(z3.And(r > 0, r < PI / 2), c > 0)))
        # half-angle pairs among the arguments seen so far
        seen = CTX.op_memo.setdefault(("trigargs",), [])
        if len(seen) < 12:
            for o in seen:
                for big, half in ((r, o), (o, r)):
                    d = rsub(big, rmul(2, half))
                    if is_const(d) and d == 0:
                        sh, ch = F_SIN(half), F_COS(half)
                        CTX.axiom(("dbl", big.get_id(), half.get_id()), z3.And(F_SIN(big) == 2 * sh * ch, F_COS(big) == 1 - 2 * sh * sh, F_COS(big) == 2 * ch * ch - 1))
            seen.append(r)


def r_sin(r):
    r = toreal(r)
    if is_const(r) and r == 0:
        return Fraction(0)
    if not is_const(r) and _neg_of(r) is not None:
        return rneg(r_sin(_neg_of(r)))
    r = z(r, True)
    _trig_ax(r)
    return F_SIN(r)


def r_cos(r):
    r = toreal(r)
    if is_const(r) and r == 0:
        return Fraction(1)
    if not is_const(r) and _neg_of(r) is not None:
        return r_cos(_neg_of(r))
    r = z(r, True)
    _trig_ax(r)
    return F_COS(r)


def r_atan2(y, x):
    y, x = z(toreal(y), True), z(toreal(x), True)
    s = F_ATAN2(y, x)
    key = ("atan2", y.get_id(), x.get_id())
    if key not in CTX.axiom_keys:
        pi_val()
        CTX.op_memo[("keep",) + key] = (y, x)
        CTX.axiom(key, z3.And(s <= PI, s > -PI, z3.Implies(z3.And(y == 0, x > 0), s == 0)))
    return s


def r_ipow(r, n):
    out = None
    for _ in range(n):
        out = r if out is None else rmul(out, r)
    return out if out is not None else (1 if isint_r(r) else Fraction(1))


F_INTPOW = z3.Function("INTPOW", _R, _I, _R)


def s_pow(a, b):
    ka, ra, ia = parts(a); kb, rb, ib = parts(b)
    if kb == "c":
        raise Unsupported("complex exponent")
    if is_const(rb):
        if Fraction(rb).denominator == 1 and abs(rb) <= 8:
            n = int(rb)
            if n >= 0:
                if ka == "c":
                    out = 1
                    for _ in range(n):
                        out = s_mul(out, a)
                    return out if n else mk("c", Fraction(1), Fraction(0))
                kk = "i" if (ka == "i" and kb == "i") else "f"
                return mk(kk, r_ipow(ra if kk == "i" else toreal(ra), n))
            if ka == "i" and kb == "i" and False:
                raise ValueError
            return s_div(1, s_pow(a, -n))
        if ka != "c" and Fraction(rb) == Fraction(1, 2):
            return mk("f", r_sqrt(ra))
        if ka != "c" and Fraction(rb) == Fraction(-1, 2):
            return s_div(1, mk("f", r_sqrt(ra)))
    if ka == "c":
        raise Unsupported("complex power")
    if is_const(ra):
        if ra == 10:
            return mk("f", r_pow10(rb))
        if ra == 2:
            if kb == "i" and ka == "i":
                v = mk("f", r_pow2(rb))
                return v
            return mk("f", r_pow2(rb))
        if ra == 1:
            return mk("f", Fraction(1))
        if is_const(rb):
            return mk("f", frac(float(ra) ** float(rb)))
    zr, zb_ = z(toreal(ra), True), z(toreal(rb), True)
    s = F_POW(zr, zb_)
    CTX.op_memo[("keep", zr.get_id(), zb_.get_id())] = (zr, zb_)
    CTX.axiom(("pow", zr.get_id(), zb_.get_id()),
              z3.And(z3.Implies(zr > 0, s > 0), z3.Implies(zb_ == 0, s == 1), z3.Implies(zb_ == 1, s == zr),
                     z3.Implies(z3.And(zr >= 0, zr <= 1, zb_ >= 0), z3.And(s >= 0, s <= 1))))
    return mk("f", s)


def s_sqrt(a):
    k, r, i = parts(a)
    if k == "c":
        raise Unsupported("complex sqrt")
    return mk("f", r_sqrt(r))


def _real1(f):
    def g(a):
        k, r, i = parts(a)
        if k == "c":
            raise Unsupported("complex transcendental")
        return mk("f", f(r))
    return g


s_log10 = _real1(r_log10)
s_log2 = _real1(r_log2)
s_ln = _real1(r_ln)
s_sin = _real1(r_sin)
s_cos = _real1(r_cos)


def s_log(a):
    k, r, i = parts(a)
    if k == "c":
        return mk("c", parts(s_ln(s_abs(a)))[1], parts(s_angle(a))[1])
    return s_ln(a)


def s_exp(a):
    k, r, i = parts(a)
    if k == "c":
        c, s = r_cos(i), r_sin(i)
        if is_const(r) and r == 0:
            return mk("c", c, s)
        e = r_exp(r)
        return mk("c", rmul(e, c), rmul(e, s))
    return mk("f", r_exp(r))


def s_tan(a):
    return s_div(s_sin(a), s_cos(a))


F_MISC = {}


def s_unint(name, *args):
    """uninterpreted real function of real arguments"""
    key = (name, len(args))
    if key not in F_MISC:
        F_MISC[key] = z3.Function(name, *([_R] * (len(args) + 1)))
    return mk("f", F_MISC[key](*[z(toreal(parts(a)[1]), True) for a in args]))


def s_atan2(y, x):
    return mk("f", r_atan2(parts(y)[1], parts(x)[1]))


def s_angle(a):
    k, r, i = parts(a)
    return mk("f", r_atan2(_z0(i), r))


def s_lt(a, b):
    ka, ra, ia = parts(a); kb, rb, ib = parts(b)
    if "c" in (ka, kb):
        raise TypeError("complex comparison")
    return mkb(rlt(ra, rb))


def s_le(a, b):
    ka, ra, ia = parts(a); kb, rb, ib = parts(b)
    if "c" in (ka, kb):
        raise TypeError("complex comparison")
    return mkb(rle(ra, rb))


def _inf_cmp(a, b):
    return None


def s_gt(a, b): return s_lt(b, a)
def s_ge(a, b): return s_le(b, a)


def s_eq(a, b):
    ka, ra, ia = parts(a); kb, rb, ib = parts(b)
    if "c" in (ka, kb):
        return mkb(b_and(req(ra, rb), req(_z0(ia), _z0(ib))))
    return mkb(req(ra, rb))


def s_ne(a, b): return s_not(s_eq(a, b))


def s_ite(c, a, b):
    c = raw_bool(c)
    if c is True or c is False:
        return a if c else b
    ab = isinstance(a, (SBool, bool, _np.bool_)), isinstance(b, (SBool, bool, _np.bool_))
    if all(ab):
        return mkb(z3.If(c, zb(a), zb(b)))
    ka, ra, ia = parts(a); kb, rb, ib = parts(b)
    k = kmax(ka, kb)
    if k == "c":
        return mk("c", rite(c, ra, rb), rite(c, _z0(ia), _z0(ib)))
    return mk(k, rite(c, ra, rb) if k == "i" else rite(c, toreal(ra), toreal(rb)))


def r_floor(r):
    if is_const(r):
        return math.floor(r)
    if isint_r(r):
        return r
    if z3.is_app_of(r, z3.Z3_OP_TO_REAL):
        return r.arg(0)
    r2 = z3.simplify(r)
    if z3.is_app_of(r2, z3.Z3_OP_TO_REAL):
        return r2.arg(0)
    if z3.is_add(r):
        ints, rest = 0, 0
        for c in r.children():
            i = _as_int(c)
            if i is not None:
                ints = radd(ints, i)
            else:
                rest = radd(rest, fold(c))
        if not (is_const(ints) and ints == 0):
            return radd(ints, r_floor(rest))
    # a/b with integer a, b>0  ->  integer division
    num, den = _as_int_div(r)
    if num is not None:
        if is_const(den) and not is_const(num):
            return const_div(num, int(den))
        return fold(z3.simplify(z(num) / z(den)))
    return z3.ToInt(r)


def const_div(num, d):
    """num // d, pulling out the multiples of d"""
    from . import divmod as D
    q, rest = [], []
    for c, fs in D.addends(z(num)):
        if fs and c % d == 0:
            q.append((c // d, fs))
        elif not fs:
            q.append((c // d, []))
            rest.append((c % d, []))
        else:
            rest.append((c, fs))
    if all(not fs for _, fs in rest):
        k = sum(c for c, _ in rest)
        return fold(z3.simplify(D.build(q) + k // d))
    return fold(z3.simplify(D.build(q) + D.build(rest) / d))


def _as_int(r):
    """real term that is an integer-valued term -> Int term or None"""
    if is_const(r):
        return int(r) if Fraction(r).denominator == 1 else None
    if r.is_int():
        return r
    if z3.is_rational_value(r):
        f = fold(r)
        return int(f) if Fraction(f).denominator == 1 else None
    if z3.is_app_of(r, z3.Z3_OP_TO_REAL):
        return r.arg(0)
    if z3.is_add(r) or z3.is_mul(r):
        ch = [_as_int(c) for c in r.children()]
        if any(c is None for c in ch):
            return None
        out = ch[0]
        for c in ch[1:]:
            out = radd(out, c) if z3.is_add(r) else rmul(out, c)
        return out
    if z3.is_sub(r) and r.num_args() == 2:
        a, b = _as_int(r.arg(0)), _as_int(r.arg(1))
        return None if a is None or b is None else rsub(a, b)
    if z3.is_app_of(r, z3.Z3_OP_UMINUS):
        a = _as_int(r.arg(0))
        return None if a is None else rneg(a)
    if z3.is_app_of(r, z3.Z3_OP_ITE):
        a, b = _as_int(r.arg(1)), _as_int(r.arg(2))
        return None if a is None or b is None else rite(r.arg(0), a, b)
    return None


def _as_int_div(r):
    if z3.is_div(r):
        a, b = _as_int(r.arg(0)), _as_int(r.arg(1))
        if a is not None and b is not None and CTX.entails(z(b) > 0):
            return a, b
    if z3.is_mul(r) and r.num_args() == 2:
        c = fold(r.arg(0))
        if is_const(c):
            a = _as_int(r.arg(1))
            c = Fraction(c)
            if a is not None:
                return rmul(c.numerator, a), c.denominator
            n, d = _as_int_div(r.arg(1))
            if n is not None:
                return rmul(c.numerator, n), rmul(c.denominator, d)
    if z3.is_add(r):
        # sum of int-valued and one quotient
        ints, quo = 0, None
        for c in r.children():
            i = _as_int(c)
            if i is not None:
                ints = radd(ints, i)
                continue
            if quo is not None:
                return None, None
            f = fold(c)
            if is_const(f):
                quo = (Fraction(f).numerator, Fraction(f).denominator)
                continue
            n, d = _as_int_div(c)
            if n is None:
                return None, None
            quo = (n, d)
        if quo is None:
            return None, None
        return radd(rmul(ints, quo[1]), quo[0]), quo[1]
    return None, None


def s_floor(a):
    k, r, i = parts(a)
    if k == "i":
        return mk("f", toreal(r))
    return mk("f", toreal(r_floor(r)))


def s_ceil(a):
    k, r, i = parts(a)
    if k == "i":
        return mk("f", toreal(r))
    return s_neg(s_floor(s_neg(a)))


def s_trunc(a):
    """int(x)"""
    k, r, i = parts(a)
    if k == "i":
        return mk("i", r)
    if k == "c":
        raise TypeError("int() of complex")
    ii = None if is_const(r) else _as_int(r)
    if ii is not None:
        return mk("i", ii)
    if is_const(r):
        return int(r)
    if CTX.entails(r >= 0):
        return mk("i", r_floor(r))
    if CTX.bound or CTX.nofork:
        return mk("i", rite(r >= 0, r_floor(r), rneg(r_floor(rneg(r)))))
    if CTX.decide(r >= 0):
        return mk("i", r_floor(r))
    return mk("i", rneg(r_floor(rneg(r))))


def s_round(a):
    """round half to even"""
    k, r, i = parts(a)
    if k == "i":
        return mk("i", r)
    if is_const(r):
        return mk("f", Fraction(round(Fraction(r))))
    fl = r_floor(radd(r, Fraction(1, 2)))
    # tie: r + 1/2 integer and odd floor -> subtract one
    tie = z3.And(z(toreal(fl)) == z(radd(r, Fraction(1, 2))), z(fl) % 2 == 1)
    return mk("f", toreal(rite(tie, rsub(fl, 1), fl)))


def s_sign(a):
    k, r, i = parts(a)
    if is_const(r):
        s = (r > 0) - (r < 0)
        return s if k == "i" else Fraction(s)
    o, zr = (1, 0) if k == "i" else (Fraction(1), Fraction(0))
    return mk(k, rite(z(r) > 0, o, rite(z(r) < 0, -o, zr)))


def s_min(a, b): return s_ite(s_le(a, b), a, b)
def s_max(a, b): return s_ite(s_ge(a, b), a, b)


def s_cast(v, kind):
    if kind == "b":
        if isinstance(v, (SBool, bool, _np.bool_)):
            return v
        return s_ne(v, 0)
    k, r, i = parts(v)
    if kind == "i":
        return s_trunc(mk(k, r, i)) if k != "i" else mk("i", r)
    if kind == "f":
        if k == "c":
            return mk("f", r)      # numpy discards the imaginary part (ComplexWarning)
        return mk("f", toreal(r))
    if kind == "c":
        return mk("c", r, _z0(i))
    raise Unsupported(kind)


def kind_of(v):
    if isinstance(v, (SBool, bool, _np.bool_)):
        return "b"
    return parts(v)[0]


def kind_of_dtype(dt):
    if dt is None:
        return "f"
    if isinstance(dt, str) and dt in "ifcb":
        return dt
    n = getattr(dt, "__name__", None)
    if n == "sint":
        return "i"
    if n == "sfloat":
        return "f"
    dt = _np.dtype(dt)
    return {"f": "f", "c": "c", "i": "i", "u": "i", "b": "b"}[dt.kind]


DT = {"f": _np.dtype("float64"), "c": _np.dtype("complex128"), "i": _np.dtype("int64"), "b": _np.dtype("bool")}
