"""Symbolic stand-in for the numpy namespace used by the verified modules.

Concrete calls (no symbolic argument) are delegated to the real numpy; array
constructors always give symbolic arrays so later symbolic writes are possible.
"""
from __future__ import annotations
from fractions import Fraction
import builtins
import numpy as np
import z3
from . import core as C
from . import ops as O
from . import arrays as A
from .arrays import SArr, MaskSel, as_sarr, ew, dim_raw, wrapi, cast_cell, norm_axis, k_arith, k_div
from .core import (Unsupported, SNum, SBool, mk, parts, z, is_const, radd, rsub, rmul, rneg, rle, rlt, req, rdiv,
                   b_and, b_or, b_not, raw_int, raw_bool, fold, s_ite, mkb, is_scalar, toreal)

_pyany, _pyall, _pymin, _pymax, _pysum, _pyabs, _pyround = (builtins.any, builtins.all, builtins.min, builtins.max,
                                                           builtins.sum, builtins.abs, builtins.round)


def is_sym(x, depth=0):
    if isinstance(x, (SNum, SBool, SArr, MaskSel)):
        return True
    if depth < 5:
        if isinstance(x, (list, tuple)):
            return _pyany(is_sym(i, depth + 1) for i in x)
        if isinstance(x, dict):
            return _pyany(is_sym(i, depth + 1) for i in x.values())
    return False


def concretize(x, depth=0):
    """symbolic containers holding only constants -> numpy objects; raises Unsupported otherwise"""
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, SNum):
        if x.kind == "c" and is_const(fold(x.re)) and is_const(fold(x.im)):
            return complex(float(x.re), float(x.im))
        if x.kind != "c":
            f = fold(z3.simplify(z(x.re)))
            if is_const(f):
                return int(f) if x.kind == "i" else float(f)
        raise Unsupported("symbolic scalar passed to an external function")
    if isinstance(x, SBool):
        raise Unsupported("symbolic boolean passed to an external function")
    if isinstance(x, MaskSel):
        x = x.materialize()
    if isinstance(x, SArr):
        sh = x._shape
        if not _pyall(isinstance(d, int) for d in sh):
            raise Unsupported("array of symbolic extent passed to an external function")
        n = 1
        for d in sh:
            n *= d
        if n > 4096:
            raise Unsupported("large array")
        out = np.empty(sh, dtype=C.DT[x.kind])
        for idx in np.ndindex(*sh):
            v = x.get(tuple(int(i) for i in idx))
            out[idx] = v if isinstance(v, (bool, np.bool_)) else concretize(v)
        return out
    if isinstance(x, (list, tuple)) and depth < 5:
        return type(x)(concretize(i, depth + 1) for i in x)
    return x


# ------------------------------------------------------------------ constructors
def _shape_of(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(dim_raw(s) for s in shape)
    if isinstance(shape, np.ndarray):
        return tuple(int(s) for s in shape)
    return (dim_raw(shape),)


def zeros(shape, dtype=float, order=None):
    k = C.kind_of_dtype(dtype)
    return SArr.const(_shape_of(shape), False if k == "b" else 0, k)


def ones(shape, dtype=float):
    k = C.kind_of_dtype(dtype)
    return SArr.const(_shape_of(shape), True if k == "b" else 1, k)


_emp = [0]


def empty(shape, dtype=float, order=None):
    k = C.kind_of_dtype(dtype)
    nm = C.CTX.fresh("EMPTY")
    sh = _shape_of(shape)
    if k == "b":
        raise Unsupported("empty bool")
    f = z3.Function(nm, *([z3.IntSort()] * len(sh) + [z3.IntSort() if k == "i" else z3.RealSort()]))
    if k == "c":
        fi = z3.Function(nm + "im", *([z3.IntSort()] * len(sh) + [z3.RealSort()]))
        return SArr.new(sh, k, lambda idx: mk("c", f(*[z(i) for i in idx]), fi(*[z(i) for i in idx])))
    return SArr.new(sh, k, lambda idx: mk(k, f(*[z(i) for i in idx])))


def full(shape, v, dtype=None):
    if not is_scalar(v):
        a = as_sarr(v)
        sh = _shape_of(shape)
        r = A.broadcast_reader(a, sh)
        return SArr.new(sh, a.kind if dtype is None else C.kind_of_dtype(dtype), r)
    return SArr.const(_shape_of(shape), v, C.kind_of(v) if dtype is None else C.kind_of_dtype(dtype))


def _k(a, dtype):
    return (a.kind if dtype is None else C.kind_of_dtype(dtype))


def zeros_like(a, dtype=None):
    a = as_sarr(a)
    k = _k(a, dtype)
    return SArr.const(a._shape, False if k == "b" else 0, k)


def ones_like(a, dtype=None):
    a = as_sarr(a)
    k = _k(a, dtype)
    return SArr.const(a._shape, True if k == "b" else 1, k)


def empty_like(a, dtype=None):
    a = as_sarr(a)
    return empty(tuple(wrapi(d) for d in a._shape), C.DT[_k(a, dtype)])


def full_like(a, v, dtype=None):
    a = as_sarr(a)
    return SArr.const(a._shape, v, _k(a, dtype))


def array(x, dtype=None, copy=True, ndmin=0):
    if not is_sym(x):
        if isinstance(x, Fraction):
            x = float(x)
        if isinstance(x, (list, tuple)):
            x = _defrac(x)
        r = np.array(x, dtype=_rdt(dtype))
        return r
    a = as_sarr(x)
    if dtype is not None and C.kind_of_dtype(dtype) != a.kind:
        return a.astype(dtype)
    return a.copy()


def _rdt(dtype):
    if dtype is None:
        return None
    n = getattr(dtype, "__name__", None)
    if n == "sint":
        return int
    if n == "sfloat":
        return float
    return dtype


def _defrac(x):
    return [_defrac(i) if isinstance(i, (list, tuple)) else (float(i) if isinstance(i, Fraction) else i) for i in x]


def asarray(x, dtype=None):
    if isinstance(x, SArr) and (dtype is None or C.kind_of_dtype(dtype) == x.kind):
        return x
    if isinstance(x, np.ndarray) and (dtype is None):
        return x
    return array(x, dtype)


ascontiguousarray = asarray


def atleast_1d(x):
    if isinstance(x, MaskSel):
        return x
    if not is_sym(x):
        return np.atleast_1d(float(x) if isinstance(x, Fraction) else (_defrac(x) if isinstance(x, (list, tuple)) else x))
    a = as_sarr(x)
    return a if a.ndim >= 1 else SArr.new((1,), a.kind, lambda idx, v=a.get(()): v)


def atleast_2d(x):
    if not is_sym(x):
        return np.atleast_2d(float(x) if isinstance(x, Fraction) else (_defrac(x) if isinstance(x, (list, tuple)) else x))
    a = as_sarr(x)
    if a.ndim >= 2:
        return a
    a = atleast_1d(a)
    return a[None, :]


def arange(*args, dtype=None, start=None, stop=None, step=None):
    args = list(args)
    if not is_sym(args) and not is_sym([start, stop, step]):
        f = [float(a) if isinstance(a, Fraction) else a for a in args]
        kw = {k: v for k, v in (("start", start), ("stop", stop), ("step", step)) if v is not None}
        return np.arange(*f, dtype=_rdt(dtype), **kw)
    if len(args) == 1:
        if stop is None:
            lo, hi, st = 0, args[0], 1 if step is None else step
        else:
            lo, hi, st = args[0], stop, 1
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], 1 if step is None else step
    elif len(args) == 3:
        lo, hi, st = args
    else:
        lo, hi, st = (start or 0), stop, 1 if step is None else step
    ks = [C.kind_of(v) for v in (lo, hi, st)]
    if _pyall(k == "i" for k in ks):
        kd = "i"
    else:
        kd = "f"
    n = C.s_cast(C.s_ceil(C.s_div(C.s_sub(hi, lo), st)), "i")
    n = raw_int(n)
    # number of elements clamps at zero
    if is_const(n):
        n = _pymax(n, 0)
    elif not C.CTX.entails(z(n) >= 0):
        n = n if C.CTX.decide(z(n) >= 0) else 0
    k = kd if dtype is None else C.kind_of_dtype(dtype)
    if not _pyall(x == "i" for x in ks) and is_const(parts(st)[1]) and parts(st)[1] == 1 and k == "i":
        pass
    return SArr.new((n,), k, lambda idx: cast_cell(C.s_add(lo, C.s_mul(mk("i", idx[0]), st)), k))


def linspace(start, stop, num=50, endpoint=True, dtype=None, retstep=False, axis=0):
    if not is_sym([start, stop, num]):
        return np.linspace(_flt(start), _flt(stop), int(num), endpoint=endpoint)
    num = num if isinstance(num, (SNum, int)) else int(num)
    n = dim_raw(num)
    if not is_scalar(start) or not is_scalar(stop):
        raise Unsupported("linspace arrays")
    div = radd(n, -1) if endpoint else n
    delta = C.s_sub(stop, start)

    def get(idx):
        i = mk("i", idx[0])
        if is_const(div) and div == 0:
            return C.s_cast(start, "f")
        # start + i*(stop-start)/div ; div == 0 only when there is a single sample (i == 0)
        if is_const(div) or C.CTX.entails(z(div) > 0):
            return C.s_cast(C.s_add(start, C.s_mul(i, C.s_div(delta, mk("i", div)))), "f")
        return s_ite(mkb(z(div) <= 0), C.s_cast(start, "f"),
                     C.s_cast(C.s_add(start, C.s_mul(i, C.s_div(delta, mk("i", div)))), "f"))
    return SArr.new((n,), "f", get)


def _flt(x):
    return float(x) if isinstance(x, Fraction) else x


# ------------------------------------------------------------------ elementwise
def _un(name, f, kind):
    real = getattr(np, name)

    def g(x, *a, **kw):
        if kw.pop("out", None) is not None:
            raise Unsupported("out=")
        if a or kw:
            if not is_sym((x,)):
                return real(x, *a, **kw)
            raise Unsupported(f"np.{name} extra arguments")
        if isinstance(x, Fraction):
            return f(x)
        if not is_sym(x):
            if isinstance(x, (int, float)) and not isinstance(x, bool) and np.isfinite(x):
                return f(x)
            return real(_defrac(x) if isinstance(x, (list, tuple)) else x)
        if isinstance(x, (SNum, SBool)):
            return f(x)
        return ew(f, kind, x)
    return g


def _kf(ks):
    return "c" if ks[0] == "c" else "f"


abs = absolute = _un("abs", C.s_abs, lambda ks: "f" if ks[0] == "c" else ks[0])
sqrt = _un("sqrt", C.s_sqrt, "f")
exp = _un("exp", C.s_exp, _kf)
log = _un("log", C.s_log, _kf)
log10 = _un("log10", C.s_log10, "f")
log2 = _un("log2", C.s_log2, "f")
sin = _un("sin", C.s_sin, "f")
cos = _un("cos", C.s_cos, "f")
tan = _un("tan", C.s_tan, "f")
floor = _un("floor", C.s_floor, "f")
ceil = _un("ceil", C.s_ceil, "f")
trunc = _un("trunc", lambda v: C.s_cast(C.s_trunc(v), "f"), "f")
sign = _un("sign", C.s_sign, lambda ks: ks[0])
conj = conjugate = _un("conj", C.s_conj, lambda ks: ks[0])
square = _un("square", lambda v: C.s_mul(v, v), lambda ks: ks[0])
angle = _un("angle", C.s_angle, "f")
rint = _un("rint", C.s_round, "f")
logical_not = _un("logical_not", lambda v: C.s_not(C.s_cast(v, "b")), "b")
bitwise_not = invert = _un("invert", C.s_not, "b")


def _unint(name):
    return _un(name, lambda v: C.s_unint(name.upper(), v), "f")


for _n in ("arctan", "arcsin", "arccos", "sinh", "cosh", "tanh", "sinc", "deg2rad", "rad2deg"):
    if _n not in ("deg2rad", "rad2deg"):
        globals()[_n] = _unint(_n)
deg2rad = _un("deg2rad", lambda v: C.s_div(C.s_mul(v, mk("f", C.PI)), 180), "f")
rad2deg = _un("rad2deg", lambda v: C.s_div(C.s_mul(v, 180), mk("f", C.PI)), "f")
radians, degrees = deg2rad, rad2deg


def isnan(x):
    if not is_sym(x):
        return np.isnan(_flt(x))
    return ew(lambda v: False, "b", x) if not is_scalar(x) else False


def isfinite(x):
    if not is_sym(x):
        return np.isfinite(_flt(x))
    return ew(lambda v: True, "b", x) if not is_scalar(x) else True


def isinf(x):
    return isnan(x) if is_sym(x) else np.isinf(_flt(x))


def nan_to_num(x, *a, **kw):
    if not is_sym(x):
        return np.nan_to_num(x, *a, **kw)
    return as_sarr(x).copy() if not is_scalar(x) else x


def real(x):
    if isinstance(x, (SArr,)):
        return x.real
    if is_scalar(x):
        return C.s_real(x) if is_sym(x) else np.real(_flt(x))
    return ew(C.s_real, "f", x) if is_sym(x) else np.real(x)


def imag(x):
    if isinstance(x, SArr):
        return x.imag
    if is_scalar(x):
        return C.s_imag(x) if is_sym(x) else np.imag(_flt(x))
    return ew(C.s_imag, "f", x) if is_sym(x) else np.imag(x)


def _bi(name, f, kind):
    rl = getattr(np, name)

    def g(a, b, *rest, **kw):
        if not is_sym((a, b)) and not isinstance(a, Fraction) and not isinstance(b, Fraction):
            return rl(a, b, *rest, **kw)
        if rest or kw:
            raise Unsupported(f"np.{name} extra arguments")
        if is_scalar(a) and is_scalar(b):
            return f(a, b)
        return ew(f, kind, a, b)
    return g


def _kmaxk(ks):
    return A.kmaxb(ks)


maximum = _bi("maximum", C.s_max, _kmaxk)
minimum = _bi("minimum", C.s_min, _kmaxk)
add = _bi("add", C.s_add, k_arith)
subtract = _bi("subtract", C.s_sub, k_arith)
multiply = _bi("multiply", C.s_mul, k_arith)
divide = true_divide = _bi("divide", C.s_div, k_div)
power = _bi("power", C.s_pow, k_arith)
mod = _bi("mod", C.s_mod, k_arith)
remainder = mod
floor_divide = _bi("floor_divide", C.s_floordiv, k_arith)
arctan2 = _bi("arctan2", C.s_atan2, "f")
hypot = _bi("hypot", lambda a, b: C.s_sqrt(C.s_add(C.s_mul(a, a), C.s_mul(b, b))), "f")
logical_and = _bi("logical_and", lambda a, b: mkb(b_and(raw_bool(C.s_cast(a, "b")), raw_bool(C.s_cast(b, "b")))), "b")
logical_or = _bi("logical_or", lambda a, b: mkb(b_or(raw_bool(C.s_cast(a, "b")), raw_bool(C.s_cast(b, "b")))), "b")
bitwise_and = _bi("bitwise_and", A.s_bitand, "b")
bitwise_or = _bi("bitwise_or", A.s_bitor, "b")
greater = _bi("greater", C.s_gt, "b")
less = _bi("less", C.s_lt, "b")
equal = _bi("equal", C.s_eq, "b")
not_equal = _bi("not_equal", C.s_ne, "b")


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not is_sym((a, b)):
        return np.isclose(_flt(a), _flt(b), rtol=rtol, atol=atol)
    rt, at = C.frac(rtol), C.frac(atol)

    def f(x, y):
        return C.s_le(C.s_abs(C.s_sub(x, y)), C.s_add(mk("f", at), C.s_mul(mk("f", rt), C.s_abs(y))))
    if is_scalar(a) and is_scalar(b):
        return f(a, b)
    return ew(f, "b", a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not is_sym((a, b)):
        return np.allclose(_flt(a), _flt(b), rtol=rtol, atol=atol)
    return all(isclose(a, b, rtol, atol))


def array_equal(a, b):
    a, b = as_sarr(a), as_sarr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not A.dims_equal(x, y):
            return False
    return all(ew(C.s_eq, "b", a, b))


def clip(x, a_min=None, a_max=None, **kw):
    a_min = kw.get("min", a_min)
    a_max = kw.get("max", a_max)
    if not is_sym((x, a_min, a_max)):
        return np.clip(_flt(x), _flt(a_min), _flt(a_max))

    def noinf(v):
        return None if (isinstance(v, float) and np.isinf(v)) else v
    a_min, a_max = noinf(a_min), noinf(a_max)
    r = x
    if a_min is not None:
        r = maximum(r, a_min)
    if a_max is not None:
        r = minimum(r, a_max)
    return r


def round(x, decimals=0):
    if not is_sym(x):
        if isinstance(x, Fraction):
            return C.s_round(x) if decimals == 0 else np.round(float(x), decimals)
        return np.round(x, decimals)
    if decimals:
        p = 10 ** decimals
        f = lambda v: C.s_div(C.s_round(C.s_mul(v, p)), p)
    else:
        f = C.s_round
    return f(x) if is_scalar(x) else ew(f, lambda ks: ks[0], x)


around = round


def where(cond, x=None, y=None):
    if x is None and y is None:
        if not is_sym(cond):
            return np.where(cond)
        return nonzero(cond)
    if not is_sym((cond, x, y)):
        return np.where(cond, _flt(x), _flt(y))
    return ew(lambda c, a, b: s_ite(mkb(raw_bool(C.s_cast(c, "b"))), a, b), lambda ks: A.kmaxb(ks[1:]), cond, x, y)


def nonzero(cond):
    """indices of the True cells in row-major order, as an axiomatised enumeration"""
    if not is_sym(cond):
        return np.nonzero(cond)
    a = as_sarr(cond)
    ctx = C.CTX
    if ctx.bound or ctx.loopstack:
        raise Unsupported("np.where(cond) inside a loop")
    nd = a.ndim
    if nd not in (1, 2):
        raise Unsupported("np.where(cond) dimensions")
    nm = ctx.fresh("NZ")
    N = z3.Int(nm)
    I = z3.IntSort()
    R = [z3.Function(f"{nm}.r{j}", I, I) for j in range(nd)]
    rank = z3.Function(nm + ".k", *([I] * nd + [I]))
    xs = tuple(z3.Int(f"{nm}.x{j}") for j in range(nd))
    ctx.loops.extend(xs)
    rng = [z3.And(x >= 0, x < z(d)) for x, d in zip(xs, a._shape)]
    rd = a.reader()
    ctx.push(*rng)
    ctx.nofork += 1
    try:
        m = C.zb(raw_bool(C.s_cast(rd(xs), "b")))
    finally:
        ctx.nofork -= 1
        ctx.pop()
    k, k2 = z3.Int(nm + ".q"), z3.Int(nm + ".p")
    at = lambda q: [f(q) for f in R]
    ctx.add(N >= 0)
    mk_ = z3.substitute(m, *[(x, f(k)) for x, f in zip(xs, R)])
    ctx.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), z3.And(mk_, *[z3.And(f(k) >= 0, f(k) < z(d)) for f, d in zip(R, a._shape)])), patterns=[R[0](k)]))
    lt = R[0](k) < R[0](k2)
    if nd == 2:
        lt = z3.Or(lt, z3.And(R[0](k) == R[0](k2), R[1](k) < R[1](k2)))
    ctx.add(z3.ForAll([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < N), lt), patterns=[z3.MultiPattern(R[0](k), R[0](k2))]))
    ctx.add(z3.ForAll(list(xs), z3.Implies(z3.And(m, *rng), z3.And(rank(*xs) >= 0, rank(*xs) < N, *[f(rank(*xs)) == x for f, x in zip(R, xs)]))))
    return tuple(SArr.new((N,), "i", lambda idx, f=f: mk("i", f(z(idx[0])))) for f in R)


def result_type(*xs):
    if not is_sym(xs):
        return np.result_type(*xs)
    kinds = []
    for x in xs:
        if isinstance(x, (SArr,)) or is_sym(x):
            kinds.append(as_sarr(x).kind)
        else:
            kinds.append(C.kind_of_dtype(np.result_type(x)))
    return C.DT[C.kmax(*kinds)]


def trim_zeros(filt, trim="fb", axis=None):
    """drop leading/trailing zero cells of a vector; the remaining range is fixed by its defining axioms"""
    if not is_sym(filt):
        return np.trim_zeros(filt, trim)
    a = as_sarr(filt)
    ctx = C.CTX
    if a.ndim != 1 or ctx.bound or ctx.loopstack:
        raise Unsupported("np.trim_zeros dimensions")
    n = a._shape[0]
    rd = a.reader()
    nz = lambda i: C.zb(raw_bool(C.s_ne(rd((i,)), Fraction(0))))
    lo, hi = 0, n
    t = trim.lower()
    if not ctx.decide(rle(1, n)):
        return a
    q = z3.Int(ctx.fresh("TZ.i"))
    if "b" in t and not ctx.decide(nz(rsub(n, 1))):
        hi = z3.Int(ctx.fresh("TZ.hi"))
        ctx.add(z3.And(hi >= 0, hi <= z(n) - 1))
        ctx.add(z3.Or(hi == 0, nz(hi - 1)))
        ctx.add(z3.Implies(hi == 0, z3.Not(nz(0))))
        ctx.add(z3.ForAll([q], z3.Implies(z3.And(q >= hi, q < z(n)), z3.Not(nz(q)))))
    if "f" in t and not ctx.decide(nz(0)):
        lo = z3.Int(ctx.fresh("TZ.lo"))
        ctx.add(z3.And(lo >= 0, lo <= z(hi)))
        ctx.add(z3.Or(lo == z(hi), nz(lo)))
        ctx.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < lo), z3.Not(nz(q)))))
    return a[mk("i", lo) if not is_const(lo) else lo:mk("i", hi) if not is_const(hi) else hi]


def flatnonzero(x):
    return nonzero(as_sarr(x).reshape(-1) if is_sym(x) else np.ravel(x))[0]




# ------------------------------------------------------------------ reductions
def _red(name, f):
    rl = getattr(np, name)

    def g(x, axis=None, keepdims=False, **kw):
        if not is_sym(x):
            return rl(_defrac(x) if isinstance(x, (list, tuple)) else x, axis=axis, keepdims=keepdims, **kw) \
                if not isinstance(x, (SNum,)) else x
        if kw.get("dtype") is None:
            kw.pop("dtype", None)
        if kw:
            raise Unsupported(f"np.{name} {kw}")
        if is_scalar(x):
            return x
        return f(x if isinstance(x, MaskSel) else as_sarr(x), axis, keepdims)
    return g


sum = _red("sum", A.reduce_sum)
mean = _red("mean", A.reduce_mean)
average = mean
max = amax = _red("max", lambda a, ax, kd: A.reduce_max(a, ax, kd, 1))
min = amin = _red("min", lambda a, ax, kd: A.reduce_max(a, ax, kd, -1))
all = _red("all", lambda a, ax, kd: A.reduce_all(a, ax))
any = _red("any", lambda a, ax, kd: A.reduce_any(a, ax))


def argmax(x, axis=None):
    return A.reduce_arg(x, axis, 1) if is_sym(x) else np.argmax(x, axis)


def argmin(x, axis=None):
    return A.reduce_arg(x, axis, -1) if is_sym(x) else np.argmin(x, axis)


def var(x, axis=None, keepdims=False, ddof=0):
    if not is_sym(x):
        return np.var(x, axis=axis, keepdims=keepdims, ddof=ddof)
    a = as_sarr(x)
    m = A.reduce_mean(a, axis, True) if axis is not None else A.reduce_mean(a, None, False)
    d = ew(lambda v: C.s_mul(v, v) if C.kind_of(v) != "c" else C.s_mul(C.s_abs(v), C.s_abs(v)), "f", a - m)
    s = A.reduce_sum(d, axis, keepdims)
    n = a.size if axis is None else a.shape[norm_axis(axis, a.ndim)]
    return s / (n - ddof) if ddof else s / n


def std(x, axis=None, keepdims=False, ddof=0):
    if not is_sym(x):
        return np.std(x, axis=axis, keepdims=keepdims, ddof=ddof)
    return sqrt(var(x, axis, keepdims, ddof))


def prod(x, axis=None, **kw):
    if not is_sym(x):
        return np.prod(x, axis=axis, **kw)
    a = as_sarr(x)

    def fn(n, f):
        if not isinstance(n, int):
            raise Unsupported("product of symbolic length")
        out = 1
        for i in range(n):
            out = C.s_mul(out, f(i))
        return out
    return A._reduce(a, axis, False, fn, a.kind)


def median(x, axis=None):
    if not is_sym(x):
        return np.median(x, axis=axis)
    a = as_sarr(x)

    def fn(n, f):
        if isinstance(n, int) and n == 1:
            return C.s_cast(f(0), "f")
        k, e = O.bind(n, lambda k: toreal(parts(f(k))[1]))
        return mk("f", O.op_term("MEDIAN", [], [(n, k, [e])], [])[0])
    return A._reduce(a, axis, False, fn, "f")


def cumsum(x, axis=None):
    if not is_sym(x):
        return np.cumsum(x, axis=axis)
    a = as_sarr(x)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("flat cumsum")
        axis = 0
    axis = norm_axis(axis, a.ndim)
    rd = a.reader()
    return SArr.new(a._shape, "i" if a.kind == "b" else a.kind,
                    lambda idx: O.s_sum(radd(idx[axis], 1), lambda k: C.s_num(rd(idx[:axis] + (k,) + idx[axis + 1:]))))


# ------------------------------------------------------------------ shapes
def squeeze(x, axis=None):
    if isinstance(x, (SArr,)):
        return x.squeeze(axis)
    if is_scalar(x):
        return x
    return as_sarr(x).squeeze(axis) if is_sym(x) else np.squeeze(x, axis)


def reshape(x, shape, order="C"):
    return as_sarr(x).reshape(shape, order=order) if is_sym((x, shape)) else np.reshape(x, shape, order=order)


def transpose(x, axes=None):
    if not is_sym(x):
        return np.transpose(x, axes)
    return as_sarr(x).transpose(*([tuple(axes)] if axes is not None else []))


def swapaxes(x, a, b):
    return as_sarr(x).swapaxes(a, b) if is_sym(x) else np.swapaxes(x, a, b)


def moveaxis(x, s, d):
    if not is_sym(x):
        return np.moveaxis(x, s, d)
    a = as_sarr(x)
    s = [s] if isinstance(s, int) else list(s)
    d = [d] if isinstance(d, int) else list(d)
    s = [i % a.ndim for i in s]
    d = [i % a.ndim for i in d]
    order = [n for n in range(a.ndim) if n not in s]
    for dest, src in sorted(zip(d, s)):
        order.insert(dest, src)
    return a.transpose(tuple(order))


def expand_dims(x, axis):
    a = as_sarr(x)
    nd = a.ndim + 1
    axis = axis % nd
    return a[tuple([slice(None)] * axis + [None])]


def ndim(x):
    return x.ndim if hasattr(x, "ndim") else np.ndim(x)


def shape(x):
    return as_sarr(x).shape if is_sym(x) else np.shape(x)


def size(x, axis=None):
    a = as_sarr(x)
    return a.size if axis is None else a.shape[axis]


def concatenate(arrs, axis=0):
    arrs = list(arrs)
    if not is_sym(arrs):
        return np.concatenate([_defrac(a) if isinstance(a, (list, tuple)) else a for a in arrs], axis=axis)
    if axis is None:
        arrs = [as_sarr(a).ravel() for a in arrs]
        axis = 0
    return A.concatenate(arrs, axis)


def hstack(arrs):
    arrs = list(arrs)
    if not is_sym(arrs):
        return np.hstack([_defrac(a) if isinstance(a, (list, tuple)) else _flt(a) for a in arrs])
    arrs = [atleast_1d(as_sarr(a)) if not isinstance(a, MaskSel) else a.materialize() for a in arrs]
    return A.concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def vstack(arrs):
    arrs = list(arrs)
    if not is_sym(arrs):
        return np.vstack(arrs)
    return A.concatenate([as_sarr(atleast_2d(a)) for a in arrs], 0)


def stack(arrs, axis=0):
    arrs = list(arrs)
    if not is_sym(arrs):
        return np.stack(arrs, axis)
    arrs = [as_sarr(a) for a in arrs]
    for a in arrs[1:]:
        if a.ndim != arrs[0].ndim or not _pyall(A.dims_equal(p, q) for p, q in zip(a._shape, arrs[0]._shape)):
            raise ValueError("all input arrays must have the same shape")
    r = A.stack0(arrs)
    return moveaxis(r, 0, axis) if axis else r


def column_stack(arrs):
    arrs = [as_sarr(a) for a in arrs]
    arrs = [a[:, None] if a.ndim == 1 else a for a in arrs]
    return A.concatenate(arrs, 1)


def append(arr, values, axis=None):
    if not is_sym((arr, values)):
        return np.append(_defrac(arr) if isinstance(arr, (list, tuple)) else arr, _flt(values), axis=axis)
    a, v = as_sarr(arr), as_sarr(values)
    if axis is None:
        return A.concatenate([a.ravel() if a.ndim != 1 else a, atleast_1d(v) if v.ndim < 2 else v.ravel()], 0)
    return A.concatenate([a, v], axis)


def insert(arr, obj, values, axis=None):
    if not is_sym((arr, obj, values)):
        return np.insert(arr, obj, values, axis=axis)
    a = as_sarr(arr)
    if axis is None and a.ndim != 1:
        raise Unsupported("insert")
    axis = 0 if axis is None else norm_axis(axis, a.ndim)
    if not is_scalar(obj):
        raise Unsupported("insert positions")
    v = as_sarr(values)
    if axis == 0 and a.ndim == 1:
        v = atleast_1d(v)
        return A.concatenate([a[:obj], v, a[obj:]], 0)
    raise Unsupported("insert nd")


def delete(arr, obj, axis=None):
    if not is_sym((arr, obj)):
        return np.delete(arr, obj, axis=axis)
    a = as_sarr(arr)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("flat delete")
        axis = 0
    axis = norm_axis(axis, a.ndim)
    objs = [obj] if is_scalar(obj) else list(obj)
    n = a._shape[axis]
    raws = []
    for o in objs:
        i = A.norm_index(dim_raw(o), n)
        raws.append(i)
    if len(raws) > 1:
        # distinct positions, sorted, by case splitting
        srt = []
        for r in raws:
            pos, dup = 0, False
            for q in srt:
                if C.CTX.decide(req(q, r)):
                    dup = True
                    break
                if C.CTX.decide(rlt(q, r)):
                    pos += 1
            if not dup:
                srt.insert(pos, r)
        raws = srt
    out, prev = [], 0
    sl = lambda s: a[tuple([slice(None)] * axis + [s])]
    for r in raws:
        out.append(sl(slice(wrapi(prev), wrapi(r))))
        prev = radd(r, 1)
    out.append(sl(slice(wrapi(prev), None)))
    return A.concatenate(out, axis)


def pad(x, pad_width, mode="constant", constant_values=0, **kw):
    if not is_sym((x, pad_width)):
        if mode == "constant":
            return np.pad(x, pad_width, mode=mode, constant_values=constant_values)
        return np.pad(x, pad_width, mode=mode, **kw)
    a = as_sarr(x)
    if is_scalar(pad_width):
        pw = [(pad_width, pad_width)] * a.ndim
    else:
        pw = list(pad_width)
        if _pyall(is_scalar(p) for p in pw):
            if len(pw) == 2:
                pw = [tuple(pw)] * a.ndim
            elif len(pw) == 1:
                pw = [(pw[0], pw[0])] * a.ndim
            else:
                raise ValueError("pad_width")
        elif len(pw) == 1 and a.ndim > 1:
            pw = pw * a.ndim
    if len(pw) != a.ndim:
        raise ValueError("operands could not be broadcast together (pad_width)")
    cur = a
    for ax, (l, r) in enumerate(pw):
        l, r = dim_raw(l), dim_raw(r)
        for v in (l, r):
            if not C.CTX.decide(rle(0, v)):
                raise ValueError("index can't contain negative values")
        if is_const(l) and l == 0 and is_const(r) and r == 0:
            continue
        cur = _pad1(cur, ax, l, r, mode, constant_values)
    return cur if cur is not a else a.copy()


def _pad1(a, ax, l, r, mode, cv):
    n = a._shape[ax]
    rd = a.reader()
    sh = list(a._shape)
    sh[ax] = radd(radd(n, l), r)
    zero = cast_cell(cv, a.kind) if mode == "constant" else None

    def get(idx):
        i = rsub(idx[ax], l)
        if mode == "constant":
            lo = rle(0, i) if not (is_const(l) and l == 0) else True
            hi = rlt(i, n) if not (is_const(r) and r == 0) else True
            c = b_and(lo, hi)
            if c is not True and c is not False:
                if C.CTX.entails(c):
                    c = True
                elif C.CTX.entails(b_not(c)):
                    c = False
            if c is False:
                return zero
            v = rd(idx[:ax] + (i,) + idx[ax + 1:])
            return v if c is True else s_ite(mkb(c), v, zero)
        if mode == "edge":
            i2 = C.rite(z(i) < 0, 0, C.rite(z(i) >= z(n), rsub(n, 1), i))
        elif mode == "wrap":
            i2 = fold(z(i) % z(n))
        else:
            raise Unsupported(f"pad mode {mode}")
        return rd(idx[:ax] + (i2,) + idx[ax + 1:])
    return SArr.new(sh, a.kind, get)


def flip(x, axis=None):
    if not is_sym(x):
        return np.flip(x, axis)
    a = as_sarr(x)
    axs = range(a.ndim) if axis is None else ([axis] if is_scalar(axis) else axis)
    axs = [i % a.ndim for i in axs]
    return a[tuple(slice(None, None, -1) if i in axs else slice(None) for i in range(a.ndim))]


def flipud(x):
    return flip(x, 0)


def roll(x, shift, axis=None):
    if not is_sym((x, shift)):
        return np.roll(x, shift, axis)
    a = as_sarr(x)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("flat roll")
        axis = 0
    axis = norm_axis(axis, a.ndim)
    n = a._shape[axis]
    sh = raw_int(C.s_num(shift))
    rd = a.reader()

    def get(idx):
        i = rsub(idx[axis], sh)
        i = i % n if is_const(i) and is_const(n) else fold(z(i) % z(n))
        return rd(idx[:axis] + (i,) + idx[axis + 1:])
    return SArr.new(a._shape, a.kind, get)


def repeat(x, repeats, axis=None):
    if not is_sym((x, repeats)):
        return np.repeat(_defrac(x) if isinstance(x, (list, tuple)) else _flt(x), repeats, axis=axis)
    a = as_sarr(x)
    if axis is None:
        a = atleast_1d(a)
        if a.ndim != 1:
            a = a.ravel()
        axis = 0
    if not is_scalar(repeats):
        raise Unsupported("repeat array")
    r = dim_raw(repeats)
    axis = norm_axis(axis, a.ndim)
    rd = a.reader()
    n0 = a._shape[axis]
    sh = list(a._shape)
    sh[axis] = rmul(n0, r)

    def get(idx):
        i = idx[axis]
        if is_const(n0) and n0 == 1:
            j = 0
        elif is_const(r) and r == 1:
            j = i
        elif is_const(i) and is_const(r):
            j = i // r
        else:
            j = fold(z(i) / z(r))
        return rd(idx[:axis] + (j,) + idx[axis + 1:])
    return SArr.new(sh, a.kind, get)


def tile(x, reps):
    if not is_sym((x, reps)):
        return np.tile(x, reps)
    a = as_sarr(x)
    reps = [reps] if is_scalar(reps) else list(reps)
    while len(reps) < a.ndim:
        reps.insert(0, 1)
    while a.ndim < len(reps):
        a = a[None]
    rp = [dim_raw(r) for r in reps]
    rd = a.reader()
    sh = [rmul(d, r) for d, r in zip(a._shape, rp)]

    def get(idx):
        out = []
        for i, d, r in zip(idx, a._shape, rp):
            if is_const(r) and r == 1:
                out.append(i)
            elif is_const(d) and d == 1:
                out.append(0)
            elif is_const(i) and is_const(d):
                out.append(i % d)
            else:
                out.append(fold(z(i) % z(d)))
        return rd(tuple(out))
    return SArr.new(sh, a.kind, get)


def outer(a, b):
    if not is_sym((a, b)):
        return np.outer(a, b)
    return as_sarr(a)[:, None] * as_sarr(b)[None, :]


def broadcast_to(x, shape):
    a = as_sarr(x)
    sh = _shape_of(shape)
    return SArr.new(sh, a.kind, A.broadcast_reader(a, sh))


def diff(x, n=1, axis=-1, prepend=None):
    if not is_sym((x, prepend)):
        return np.diff(x, n=n, axis=axis, **({} if prepend is None else {"prepend": prepend}))
    a = as_sarr(x)
    if prepend is not None or n != 1:
        raise Unsupported("diff options")
    axis = norm_axis(axis, a.ndim)
    k1 = tuple(slice(1, None) if i == axis else slice(None) for i in range(a.ndim))
    k0 = tuple(slice(None, -1) if i == axis else slice(None) for i in range(a.ndim))
    return a[k1] - a[k0]


def ediff1d(x):
    return diff(x) if is_sym(x) else np.ediff1d(x)


def gradient(x, *a, axis=None, **kw):
    if not is_sym((x, a)):
        return np.gradient(x, *a, axis=axis, **kw)
    raise Unsupported("np.gradient")


def matmul(a, b):
    return A.matmul(a, b) if is_sym((a, b)) else np.matmul(a, b)


def dot(a, b):
    if not is_sym((a, b)):
        return np.dot(a, b)
    if is_scalar(a) or is_scalar(b):
        return a * b
    return A.matmul(a, b)


def tensordot(a, b, axes=2):
    if not is_sym((a, b)):
        return np.tensordot(a, b, axes)
    raise Unsupported("tensordot")


def convolve(a, v, mode="full"):
    if not is_sym((a, v)):
        return np.convolve(a, v, mode)
    a, v = as_sarr(a), as_sarr(v)
    na, nv = a._shape[0], v._shape[0]
    if isinstance(na, int) and isinstance(nv, int):
        out = []
        for n in range(na + nv - 1):
            s = 0
            for k in range(_pymax(0, n - na + 1), _pymin(nv, n + 1)):
                s = C.s_add(s, C.s_mul(v.get((k,)), a.get((n - k,))))
            out.append(s)
        r = A.from_nested(out)
        if mode == "full":
            return r
        if mode == "valid":
            lo, hi = _pymin(na, nv) - 1, _pymax(na, nv)
            return r[lo:hi]
        L = _pymax(na, nv)
        st = (na + nv - 1 - L) // 2
        return r[st:st + L]
    if mode != "full":
        raise Unsupported("convolve mode")
    ra, rv = a.reader(), v.reader()
    # sum over the (preferably concrete) shorter one
    if isinstance(na, int) and not isinstance(nv, int):
        (na, ra), (nv, rv) = (nv, rv), (na, ra)

    def get(idx):
        n = idx[0]

        def body(k):
            j = rsub(n, k)
            c = b_and(rle(0, j), rlt(j, na))
            return s_ite(mkb(c), C.s_mul(rv((k,)), ra((j,))), Fraction(0))
        return O.s_sum(nv, body)
    return SArr.new((radd(radd(na, nv), -1),), k_arith([a.kind, v.kind]), get)


def polyval(p, x):
    if not is_sym((p, x)):
        return np.polyval(p, x)
    y = 0
    for c in p:
        y = y * x + c
    return y


def diag(x):
    if not is_sym(x):
        return np.diag(x)
    a = as_sarr(x)
    rd = a.reader()
    if a.ndim == 1:
        n = a._shape[0]
        return SArr.new((n, n), a.kind, lambda idx: s_ite(mkb(req(idx[0], idx[1])), rd((idx[0],)), 0))
    if not A.dims_equal(*a._shape):
        raise Unsupported("diag non-square")
    return SArr.new((a._shape[0],), a.kind, lambda idx: rd((idx[0], idx[0])))


def eye(n, M=None, dtype=float):
    if not is_sym((n, M)):
        return np.eye(n, M, dtype=_rdt(dtype))
    n = dim_raw(n)
    m = n if M is None else dim_raw(M)
    return SArr.new((n, m), "f", lambda idx: s_ite(mkb(req(idx[0], idx[1])), Fraction(1), Fraction(0)))


identity = eye


def fill_diagonal(a, v):
    if not isinstance(a, SArr):
        return np.fill_diagonal(a, v)
    a.buf.write(lambda b: req(b[0], b[1]), lambda b: v)


def trace(a):
    return sum(diag(a))


def unwrap(x, *args, axis=-1, **kw):
    if not is_sym(x):
        return np.unwrap(x, *args, axis=axis, **kw)
    if args or kw:
        raise Unsupported("unwrap options")
    a = as_sarr(x)
    axis = norm_axis(axis, a.ndim)
    return vec_op("UNWRAP", a, axis, a._shape[axis], "f")


def interp(x, xp, fp, left=None, right=None):
    if not is_sym((x, xp, fp)):
        return np.interp(x, xp, fp, left=left, right=right)
    xp, fp = as_sarr(xp), as_sarr(fp)
    rx, rf = xp.reader(), fp.reader()
    n = xp._shape[0]
    if fp.kind == "c":
        raise Unsupported("np.interp with complex values")
    bk, bx = O.bind(n, lambda k: toreal(parts(rx((k,)))[1]))
    left = mk("f", toreal(parts(left)[1])) if left is not None else None
    right = mk("f", toreal(parts(right)[1])) if right is not None else None

    def f(v):
        # defining property: the segment k with xp[k] <= v < xp[k+1] (or the last point), which exists for
        # every xp[0] <= v <= xp[n-1]; unique when xp is increasing (numpy's documented precondition)
        v = C.s_cast(v, "f")
        t = O.op_term("SEG", [toreal(parts(v)[1])], [(n, bk, [bx])], [], int_result=True)[0]
        x0, xn = rx((0,)), rx((C.rsub(n, 1),))
        k, k1 = mk("i", t), C.radd(t, 1)
        xk, xk1 = rx((t,)), rx((k1,))
        inside = z3.And(C.zb(raw_bool(C.s_le(x0, v))), C.zb(raw_bool(C.s_le(v, xn))))
        C.CTX.axiom(("seg", t.get_id()), z3.Implies(inside, z3.And(
            t >= 0, t < z(n), C.zb(raw_bool(C.s_le(xk, v))),
            z3.Or(t == z(n) - 1, C.zb(raw_bool(C.s_lt(v, xk1)))))))
        fk, fk1 = rf((t,)), rf((k1,))
        lin = C.s_add(fk, C.s_div(C.s_mul(C.s_sub(fk1, fk), C.s_sub(v, xk)), C.s_sub(xk1, xk)))
        mid = s_ite(mkb(z3.Or(t == z(n) - 1, C.zb(raw_bool(C.s_eq(v, xk))))), fk, lin)
        lv = left if left is not None else rf((0,))
        rv = right if right is not None else rf((C.rsub(n, 1),))
        return s_ite(C.s_lt(v, x0), lv, s_ite(C.s_lt(xn, v), rv, mid))
    if is_scalar(x):
        return f(x)
    xa = as_sarr(x)
    rv_ = xa.reader()
    inc = []

    def get(idx):
        v = rv_(idx)
        if len(idx) == 1:
            a, b = parts(v)[1], parts(rx(idx))[1]
            if z3.is_expr(a) and z3.is_expr(b) and a.eq(b) and C.CTX.entails(z3.And(z(idx[0]) >= 0, z(idx[0]) < z(n))):
                if not inc:
                    inc.append(_increasing(xp))
                if inc[0]:          # lemma: at a node of a strictly increasing grid the node's value
                    return C.s_cast(rf(idx), "f")
        return f(v)
    return SArr.new(xa._shape, "f", get)


def searchsorted(a, v, side="left", sorter=None):
    if not is_sym((a, v)):
        return np.searchsorted(a, _flt(v), side=side)
    a = as_sarr(a)
    n = a._shape[0]
    rd = a.reader()

    def f(val):
        # number of elements < v (left) or <= v (right); a is assumed sorted
        def body(k):
            c = C.s_lt(rd((k,)), val) if side == "left" else C.s_le(rd((k,)), val)
            return mk("i", C.rite(raw_bool(c), 1, 0))
        if isinstance(n, int):
            return O.s_sum(n, body)
        ck = O.bind(n, lambda k: toreal(parts(rd((k,)))[1]))
        t = O.op_term("SEARCHS", [toreal(parts(val)[1])], [(n, ck[0], [ck[1]])], [], int_result=True, extra=side)[0]
        # the bracket every bisection ends with
        before, after = rd((C.rsub(t, 1),)), rd((t,))
        lt = (lambda x, y: C.zb(raw_bool(C.s_lt(x, y)))) if side == "left" else (lambda x, y: C.zb(raw_bool(C.s_le(x, y))))
        C.CTX.axiom(("ss", t.get_id()), z3.And(t >= 0, t <= z(n), z3.Implies(t > 0, lt(before, val)), z3.Implies(t < z(n), z3.Not(lt(after, val)))))
        return mk("i", t)
    return f(v) if is_scalar(v) else ew(f, "i", v)


def unique(x, **kw):
    if not is_sym(x):
        return np.unique(x, **kw)
    if kw:
        raise Unsupported("np.unique options")
    a = as_sarr(x)
    a = a.reshape(-1) if a.ndim != 1 else a
    n = a._shape[0]
    if isinstance(n, int):
        s = sort(a)
        keep = []
        for i in range(n):
            v = s.get((i,))
            if not keep or not C.CTX.decide(raw_bool(C.s_eq(keep[-1], v))):
                keep.append(v)
        return A.from_nested(keep)
    if _increasing(a):
        return a.copy()
    # number of distinct values: an opaque count, equal to n when the entries are provably distinct
    rd = a.reader()
    if A.entails_all((n, n), lambda i, j: z3.Or(i == j, C.zb(raw_bool(C.s_ne(rd((i,)), rd((j,))))))):
        cnt = n
    elif A.entails_all((n,), lambda i: C.zb(raw_bool(C.s_eq(rd((i,)), rd((0,)))))):
        return SArr.new((raw_int(C.s_min(mk("i", n), 1)),), a.kind, lambda idx: rd((0,)))
    else:
        k, e = O.bind(n, lambda k: toreal(parts(rd((k,)))[1]))
        cnt = O.op_term("UNIQCNT", [], [(n, k, [e])], [], int_result=True)[0]
        C.CTX.axiom(("uq", cnt.get_id()), z3.And(z3.Implies(z(n) > 0, cnt >= 1), cnt <= z(n), cnt >= 0,
                                                 z3.Implies(z3.And(z(n) >= 2, C.zb(raw_bool(C.s_ne(rd((0,)), rd((1,)))))), cnt >= 2)))
    return vec_op("UNIQ", a, 0, cnt, a.kind)


def _increasing(a):
    ctx = C.CTX
    k = z3.Int(ctx.fresh("inc"))
    ctx.push(k >= 0, k < z(a._shape[0]) - 1)
    try:
        return ctx.entails(raw_bool(C.s_lt(a.get((k,)), a.get((C.radd(k, 1),)))))
    finally:
        ctx.pop()


def sort(x, axis=-1):
    if not is_sym(x):
        return np.sort(_defrac(x) if isinstance(x, (list, tuple)) else x, axis=axis)
    a = as_sarr(x)
    if a.ndim == 1 and isinstance(a._shape[0], int):
        vals = [a.get((i,)) for i in range(a._shape[0])]
        for i in range(len(vals)):       # network of min/max
            for j in range(len(vals) - 1 - i):
                p, q = vals[j], vals[j + 1]
                vals[j], vals[j + 1] = C.s_min(p, q), C.s_max(p, q)
        return A.from_nested(vals)
    return vec_op("SORT", a, axis, a._shape[norm_axis(axis, a.ndim)], a.kind)


def setdiff1d(a, b):
    if not is_sym((a, b)):
        return np.setdiff1d(a, b)
    a, b = as_sarr(a), as_sarr(b)
    a, b = (q.reshape(-1) if q.ndim != 1 else q for q in (a, b))
    ctx = C.CTX

    def member(v):
        """v in b, for b concrete-length or an integer range"""
        n = b._shape[0]
        if isinstance(n, int):
            return C.b_or(*[raw_bool(C.s_eq(v, b.get((j,)))) for j in range(n)]) if n else False
        k = z3.Int(ctx.fresh("sd"))
        ctx.push(k >= 0, k < z(n))
        e = raw_int(b.get((k,)))
        ctx.pop()
        lo = C.fold(z3.simplify(z(e) - k))
        if not C.is_const(lo) and O.contains(lo, k):
            raise Unsupported("np.setdiff1d")
        r = raw_int(v)
        return C.b_and(C.rle(lo, r), C.rlt(r, C.radd(lo, n)))
    n = a._shape[0]
    if isinstance(n, int):
        u = unique(a)
        keep = [u.get((j,)) for j in range(u._shape[0])]
        keep = [v for v in keep if not ctx.decide(member(v))]
        return A.from_nested(keep) if keep else np.zeros(0, dtype=int)
    k = z3.Int(ctx.fresh("sd"))
    ctx.push(k >= 0, k < z(n))
    try:
        c = member(a.get((k,)))
        if ctx.entails(c):
            return np.zeros(0, dtype=int)
        if ctx.entails(C.b_not(c)) and _increasing(a):
            return a.copy()
    finally:
        ctx.pop()
    raise Unsupported("np.setdiff1d")


def isin(a, b):
    if not is_sym((a, b)):
        return np.isin(a, b)
    raise Unsupported("isin")


def meshgrid(*xs, **kw):
    if not is_sym(xs):
        return np.meshgrid(*xs, **kw)
    kw = dict(kw)
    indexing = kw.pop("indexing", "xy")
    if kw:
        raise Unsupported("meshgrid options")
    v = [as_sarr(x) for x in xs]
    v = [x if x.ndim == 1 else x.reshape(-1) for x in v]
    order = list(range(len(v)))
    if indexing == "xy" and len(v) > 1:
        order[0], order[1] = 1, 0          # position of input i among the output axes
    shape = [None] * len(v)
    for i, p in enumerate(order):
        shape[p] = v[i]._shape[0]
    return [SArr.new(tuple(shape), x.kind, lambda idx, r=x.reader(), p=order[i]: r((idx[p],))) for i, x in enumerate(v)]


def isscalar(x):
    if isinstance(x, (SNum, SBool, Fraction)):
        return True
    if isinstance(x, SArr):
        return False
    return np.isscalar(x)


def iscomplexobj(x):
    if isinstance(x, (SNum, SArr, MaskSel)):
        return x.kind == "c"
    if isinstance(x, Fraction):
        return False
    return np.iscomplexobj(x)


def isrealobj(x):
    return not iscomplexobj(x)


def iscomplex(x):
    if not is_sym(x):
        return np.iscomplex(x)
    f = lambda v: C.s_ne(C.s_imag(v), 0)
    return f(x) if is_scalar(x) else ew(f, "b", x)


def isreal(x):
    r = iscomplex(x)
    return ~r if not isinstance(r, bool) else not r


def issubdtype(a, b):
    n = getattr(a, "__name__", None)
    if n == "sint":
        a = int
    if n == "sfloat":
        a = float
    n = getattr(b, "__name__", None)
    if n == "sint":
        b = int
    if n == "sfloat":
        b = float
    return np.issubdtype(a, b)


def copy(x):
    return as_sarr(x).copy() if is_sym(x) else np.copy(x)


def ix_(*a):
    raise Unsupported("ix_")


# ------------------------------------------------------------------ opaque vector operators
def comp_vec(rd, n):
    """(n, k, [re, im]) triple of a scalar-valued reader of one raw index"""
    k, v = O.bind(n, rd)
    kd, re, im = parts(v)
    return (n, k, [toreal(re), toreal(im) if kd == "c" else Fraction(0)])


def vec_op(name, a, axis, n_out, kind, scalars=(), extra=None, extra_vecs=(), linear=False, n_in=None):
    """apply an opaque per-axis vector operator along ``axis``: out[.., j, ..] = NAME(x[.., :, ..], j)"""
    a = as_sarr(a)
    axis = norm_axis(axis, a.ndim)
    n = a._shape[axis]
    rd = a.reader()
    sh = list(a._shape)
    sh[axis] = n_out
    m = n if n_in is None else n_in
    scal = [parts(s)[1] for s in scalars]

    def elem(idx):
        def x(k):
            if n_in is None or C.same(n_in, n):
                return rd(idx[:axis] + (k,) + idx[axis + 1:])
            c = rlt(k, n)
            v = rd(idx[:axis] + (k,) + idx[axis + 1:])
            return s_ite(mkb(c), v, Fraction(0)) if c is not True else v
        if linear:
            return lin_apply(name, m, x, idx[axis], kind, scal, extra, extra_vecs)
        vec = comp_vec(x, m)
        t = O.op_term(name, scal, [vec] + list(extra_vecs), [idx[axis]], ncomp=2 if kind == "c" else 1,
                      extra=extra, int_result=kind == "i")
        return mk(kind, t[0], t[1]) if kind == "c" else mk(kind, t[0])
    return SArr.new(sh, kind, elem)


def lin_apply(name, m, x, j, kind, scal, extra, extra_vecs=()):
    """linear operator: split the vector into k-free coefficients times atoms"""
    if is_const(m) and m == 0:
        return mk(kind, Fraction(0), Fraction(0)) if kind == "c" else mk(kind, Fraction(0))
    k, v = O.bind(m, x)
    kd, re, im = parts(v)

    def one(e):
        tot_r, tot_i = Fraction(0), Fraction(0)
        groups = {}
        for q, at in O._split(toreal(e), k):
            at = z3.RealVal(1) if at is None else at
            g = groups.setdefault(at.get_id(), [Fraction(0), at])
            g[0] = radd(g[0], q)
        for q, at in groups.values():
            if is_const(q) and q == 0:
                continue
            t = O.op_term(name, scal, [(m, k, [at])] + list(extra_vecs), [j], ncomp=2 if kind == "c" else 1, extra=extra)
            tot_r = radd(tot_r, rmul(q, t[0]))
            if kind == "c":
                tot_i = radd(tot_i, rmul(q, t[1]))
        return tot_r, tot_i
    r = one(re)
    if kd == "c":
        i = one(im)
        if kind != "c":
            raise Unsupported("real operator on complex input")
        return mk("c", rsub(r[0], i[1]), radd(r[1], i[0]))
    return mk(kind, r[0], r[1]) if kind == "c" else mk(kind, r[0])


class _FFT:
    def _prep(self, x, n, axis):
        a = as_sarr(x)
        axis = norm_axis(axis, a.ndim)
        ln = a._shape[axis]
        nn = ln if n is None else dim_raw(n)
        if not C.CTX.decide(rle(1, nn)):
            raise ValueError("Invalid number of FFT data points")
        if not C.same(nn, ln):
            # truncation or zero padding
            if not C.CTX.entails(rle(ln, nn) if not isinstance(rle(ln, nn), bool) else z3.BoolVal(rle(ln, nn))):
                if not C.CTX.decide(rle(ln, nn)):
                    a = a[tuple([slice(None)] * axis + [slice(None, wrapi(nn))])]
        return a, axis, nn

    def _norm(self, norm, nn):
        """what the unscaled forward transform is divided by"""
        if norm == "forward":
            return wrapi(nn)
        if norm == "ortho":
            return C.s_sqrt(wrapi(nn))
        raise ValueError("Invalid norm value")

    def rfft(self, x, n=None, axis=-1, norm=None):
        if not is_sym((x, n)):
            return np.fft.rfft(x, n, axis, norm)
        if norm not in (None, "backward"):
            a = as_sarr(x)
            return self.rfft(x, n, axis) / self._norm(norm, a._shape[norm_axis(axis, a.ndim)] if n is None else dim_raw(n))
        a, axis, nn = self._prep(x, n, axis)
        if a.kind == "c":
            a = a.real
        no = radd(nn // 2 if is_const(nn) else fold(z(nn) / 2), 1)
        out = vec_op("FFT", a, axis, no, "c", scalars=[mk("i", nn)], linear=True, n_in=nn)
        out.prov = ("rfft", a.copy(), axis, nn, out.buf.get)
        return out

    def _rfft_term(self, t, k, nn, comp):
        """(definition, substitution) when t is bin k of the forward transform of a real vector of length nn"""
        if not z3.is_app(t) or t.decl().name() not in C.CTX.ops:
            return None
        d, cp = C.CTX.ops[t.decl().name()]
        if d.name != "FFT" or cp != comp or len(d.vecs) != 1 or len(d.scalars) != 1 or len(d.out) != 1:
            return None
        sub = list(zip(d.params, t.children()))
        if not z3.simplify(O.subst(d.out[0], sub) - k).eq(z3.IntVal(0)):
            return None
        im = d.vecs[0][2][1] if len(d.vecs[0][2]) > 1 else 0
        if not z3.simplify(z(im, True)).eq(z3.RealVal(0)):
            return None
        ln = O.subst(d.scalars[0], sub)
        if O.contains(ln, k):
            return None
        memo = C.CTX.op_memo
        key = ("rfftlen", ln.get_id(), z(nn).get_id(), len(C.CTX.pc))
        if key not in memo:
            e = z3.simplify(z3.ToReal(ln) - z3.ToReal(z(nn)) if ln.sort() == z3.IntSort() else ln - z3.ToReal(z(nn)))
            memo[key] = (ln, z(nn), C.CTX.entails(e == 0))
        return (d, sub) if memo[key][2] else None

    def _known_length(self, nn):
        """nn itself, or the length of a forward transform it provably equals"""
        nn = fold(z3.simplify(nn))
        if is_const(nn):
            return nn
        for nm, (d, _) in list(C.CTX.ops.items()):
            if d.name == "FFT" and len(d.scalars) == 1 and not is_const(d.scalars[0]):
                ln = d.scalars[0]
                if not ln.eq(z(nn)) and not any(O.contains(ln, q) for q in d.params):
                    ln = ln if ln.sort() == z3.IntSort() else z3.simplify(z3.ToInt(ln))
                    if ln.eq(z(nn)):
                        return nn
                    if C.CTX.entails(ln == z(nn)):
                        return fold(ln)
        return nn

    # circular convolution theorem: products of two transforms of real vectors of the same length invert to
    # the circular convolution of the vectors, and sums of such products to the sum of the convolutions
    def _peel(self, t):
        """term -> (list of enclosing sums (n, variable), body)"""
        if z3.is_app(t) and t.decl().name() in C.CTX.ops:
            d, cp = C.CTX.ops[t.decl().name()]
            if d.name == "SUM" and len(d.vecs) == 1 and not d.scalars and not d.out:
                n, v, es = d.vecs[0]
                sub = list(zip(d.params, t.children()))
                w = z3.Int(C.CTX.fresh("pv"))
                inner, body = self._peel(O.subst(z3.substitute(es[0], (v, w)), sub))
                return [(O.subst(n, sub), w)] + inner, body
        return [], t

    def _wrap_sums(self, sums, fn, env=()):
        """sum over the peeled ranges of fn(substitution)"""
        if not sums:
            return fn(list(env))
        n, v = sums[0]
        return O.r_sum(fold(O.subst(n, list(env))), lambda j: self._wrap_sums(sums[1:], fn, list(env) + [(v, z(j))]))

    def _rfft_vec(self, t, k, nn):
        """(real vector as a function of the position, zero-padded length or None, imaginary term) when t is the real part of bin k of the
        transform of a real vector of length nn"""
        t = z(t)
        if z3.is_app_of(t, z3.Z3_OP_ITE) and not O.contains(t.arg(0), k):
            x, y = self._rfft_vec(t.arg(1), k, nn), self._rfft_vec(t.arg(2), k, nn)
            if x is None or y is None:
                return None
            c = t.arg(0)
            return (lambda q: C.rite(c, x[0](q), y[0](q))), None, z3.If(c, x[2], y[2])
        hit = self._rfft_term(t, k, nn, 0)
        if hit is None:
            return None
        d, sub = hit
        n, v, es = d.vecs[0]
        im = d.funcs[1](*t.children())
        u = z3.Int(C.CTX.fresh("uv"))
        # in terms of the position u and the arguments of the term: no bound variable of another binder can be captured later
        e = z3.substitute(es[0], (v, u), *[x for x in sub if not x[0].eq(v)])
        if O.contains(e, k):
            return None
        vec = lambda q: fold(z3.substitute(e, (u, z(q))))
        if z3.is_app_of(e, z3.Z3_OP_ITE) and O.contains(e.arg(0), u) and z3.simplify(z(e.arg(2), True)).eq(z3.RealVal(0)):
            # zero padding: find the length N with  condition <=> q < N
            L = z(nn)
            for N in self._bounds(e.arg(0), u):
                if C.CTX.entails(z3.Implies(z3.And(u >= 0, u < L), e.arg(0) == (u < N))) and C.CTX.entails(z3.And(N >= 0, N <= L)):
                    ev = e.arg(1)
                    return (lambda q: fold(z3.substitute(ev, (u, z(q))))), fold(N), im
        return vec, None, im

    def _products(self, comps, k, nn, i, need):
        tot = Fraction(0)
        for gid, (q, at) in list(comps[0].items()):
            if gid not in comps[0] or (is_const(q) and q == 0):
                continue
            sums, body = self._peel(at)
            fac = body.children() if z3.is_mul(body) else []
            if len(fac) != 2:
                continue
            hits = [self._rfft_vec(f, k, nn) for f in fac]
            if None in hits:
                continue
            imag = [h[2] for h in hits]

            def key(a, b):
                _, e = O.bind(need, lambda _: self._wrap_sums(sums, lambda env: toreal(fold(O.subst(rmul(a, b), env)))))
                sp = O._split(toreal(e), k)
                return None if len(sp) != 1 or sp[0][1] is None or not (is_const(sp[0][0]) and sp[0][0] == 1) else sp[0][1].get_id()
            want = [(0, key(imag[0], imag[1]), Fraction(-1)), (1, key(fac[0], imag[1]), Fraction(1)), (1, key(imag[0], fac[1]), Fraction(1))]
            if _pyany(kk is None or kk not in comps[c] for c, kk, _ in want):
                continue
            ok = C.same(comps[0][want[0][1]][0], rmul(-1, q))
            if want[1][1] == want[2][1]:
                ok = ok and C.same(comps[1][want[1][1]][0], rmul(2, q))
            else:
                ok = ok and _pyall(C.same(comps[1][kk][0], q) for _, kk, _ in want[1:])
            if not ok:
                continue
            del comps[0][gid]
            for c, kk, _ in want:
                comps[c].pop(kk, None)
            tot = radd(tot, rmul(q, self._wrap_sums(sums, lambda env: self._circular(hits, env, nn, i))))
        return tot

    def _circular(self, hits, env, nn, i):
        """sum_q f[q] g[(i - q) mod nn]"""
        L, i = z(nn), z(i)
        a, b = (hits[0], hits[1]) if hits[0][1] is not None or hits[1][1] is None else (hits[1], hits[0])
        cnt = nn if a[1] is None else fold(O.subst(a[1], env))
        plain = a[1] is not None and C.CTX.entails(i - z(cnt) + 1 >= 0)

        def term(q):
            j = i - z(q)
            if not plain:
                j = z3.If(j < 0, j + L, j)
            e = rmul(a[0](z(q)), b[0](z3.simplify(j)))
            return toreal(fold(O.subst(e, env)))
        return O.r_sum(cnt, term)

    def _bounds(self, c, v):
        """candidate N with c <=> v < N"""
        out = []
        for t in [c] + (list(c.children()) if z3.is_and(c) else []):
            neg = z3.is_not(t)
            t = t.arg(0) if neg else t
            if z3.is_lt(t) or z3.is_le(t) or z3.is_gt(t) or z3.is_ge(t):
                a, b = t.arg(0), t.arg(1)
                for x, y in ((a, b), (b, a)):
                    if x.eq(v):
                        out += [y, y + 1]
                d = z3.simplify(a - b + v)
                if not O.contains(d, v):
                    out += [d, d + 1]
                d = z3.simplify(b - a + v)
                if not O.contains(d, v):
                    out += [d, d + 1]
        return out

    def irfft(self, X, n=None, axis=-1, norm=None):
        if not is_sym((X, n)):
            return np.fft.irfft(X, n, axis, norm)
        a = as_sarr(X)
        if norm not in (None, "backward"):
            nn = rmul(2, rsub(a._shape[norm_axis(axis, a.ndim)], 1)) if n is None else dim_raw(n)
            return self.irfft(X, n, axis) * self._norm(norm, nn)
        axis = norm_axis(axis, a.ndim)
        ln = a._shape[axis]
        nn = rmul(2, rsub(ln, 1)) if n is None else dim_raw(n)
        p = a.prov
        if p is not None and p[0] == "rfft" and p[2] == axis and p[4] is a.buf.get and C.CTX.decide(req(p[3], nn)):
            src = p[1]
            l0 = src._shape[axis]
            rd = src.reader()
            sh = list(src._shape)
            sh[axis] = nn

            def get(idx):
                v = rd(idx)
                c = rlt(idx[axis], l0)
                return v if c is True or C.same(l0, nn) else s_ite(mkb(c), C.s_cast(v, "f"), Fraction(0))
            return SArr.new(sh, "f", lambda idx: C.s_cast(get(idx), "f"))
        if not is_const(nn):
            nn = self._known_length(nn)
        if not C.CTX.decide(rle(1, nn)):
            raise ValueError("Invalid number of FFT data points")
        need = radd(nn // 2 if is_const(nn) else fold(z(nn) / 2), 1)
        rd = a.reader()
        if a.kind != "c":
            a = a.astype(complex)
            rd = a.reader()

        def x(idx, k):
            v = rd(idx[:axis] + (k,) + idx[axis + 1:])
            c = rlt(k, ln)
            return v if c is True or C.same(ln, need) else s_ite(mkb(c), v, Fraction(0))

        def get(idx):
            k, v = O.bind(need, lambda k: x(idx, k))
            kd, re, im = parts(v)
            tot = Fraction(0)
            comps = []
            for comp, e in ((0, re), (1, im if kd == "c" else Fraction(0))):
                groups = {}
                for q, at in O._split(toreal(e), k):
                    at = z3.RealVal(1) if at is None else at
                    g = groups.setdefault(at.get_id(), [Fraction(0), at])
                    g[0] = radd(g[0], q)
                comps.append(groups)
            # q*RFFT(x) of the same length inverts to q*x
            for gid, (q, at) in list(comps[0].items()):
                hit = self._rfft_term(at, k, nn, 0)
                if hit is None:
                    continue
                for gid2, (q2, at2) in list(comps[1].items()):
                    h2 = self._rfft_term(at2, k, nn, 1)
                    if h2 is not None and h2[0] is hit[0] and all(a_.eq(b_) for a_, b_ in zip(at.children(), at2.children())) and C.same(q, q2):
                        d, sub = hit
                        tot = radd(tot, rmul(q, O._vec_at(d, sub, 0, z(idx[axis]))))
                        del comps[0][gid], comps[1][gid2]
                        break
            tot = radd(tot, self._products(comps, k, nn, idx[axis], need))
            for comp, groups in enumerate(comps):
                for q, at in groups.values():
                    if is_const(q) and q == 0:
                        continue
                    t = O.op_term("IRFFT", [nn], [(need, k, [at])], [idx[axis]], extra=comp)[0]
                    tot = radd(tot, rmul(q, t))
            return mk("f", tot)
        sh = list(a._shape)
        sh[axis] = nn
        return SArr.new(sh, "f", get)

    def fft(self, x, n=None, axis=-1, norm=None):
        if not is_sym((x, n)):
            return np.fft.fft(x, n, axis)
        a, axis, nn = self._prep(x, n, axis)
        p = a.prov
        if p is not None and p[0] == "ifft" and p[2] == axis and p[4] is a.buf.get and C.same(p[3], nn) and C.same(a._shape[axis], nn):
            return p[1].astype(complex)
        out = vec_op("FFT", a, axis, nn, "c", scalars=[mk("i", nn)], linear=True, n_in=nn)
        out.prov = ("fft", a.copy(), axis, nn, out.buf.get)
        return out

    def ifft(self, x, n=None, axis=-1, norm=None):
        if not is_sym((x, n)):
            return np.fft.ifft(x, n, axis)
        a0 = as_sarr(x)
        p = a0.prov
        ax0 = norm_axis(axis, a0.ndim)
        if p is not None and p[0] == "fft" and p[2] == ax0 and p[4] is a0.buf.get:
            nn = a0._shape[ax0] if n is None else dim_raw(n)
            if C.CTX.decide(req(p[3], nn)):
                src = p[1]
                l0 = src._shape[ax0]
                rd = src.reader()
                sh = list(src._shape)
                sh[ax0] = nn
                return SArr.new(sh, "c", lambda idx: C.s_cast(s_ite(mkb(rlt(idx[ax0], l0)), rd(idx), Fraction(0)) if not C.same(l0, nn) else rd(idx), "c"))
        a, axis, nn = self._prep(x, n, axis)
        out = vec_op("IFFT", a, axis, nn, "c", scalars=[mk("i", nn)], linear=True, n_in=nn)
        if C.same(a._shape[axis], nn):
            out.prov = ("ifft", a.copy(), axis, nn, out.buf.get)
        return out

    def rfftfreq(self, n, d=1.0):
        if not is_sym((n, d)):
            return np.fft.rfftfreq(n, _flt(d))
        nn = dim_raw(n)
        no = radd(nn // 2 if is_const(nn) else fold(z(nn) / 2), 1)
        den = C.s_mul(mk("i", nn), d)
        return SArr.new((no,), "f", lambda idx: C.s_cast(C.s_div(mk("i", idx[0]), den), "f"))

    def fftfreq(self, n, d=1.0):
        if not is_sym((n, d)):
            return np.fft.fftfreq(n, _flt(d))
        nn = dim_raw(n)
        half = (nn - 1) // 2 + 1 if is_const(nn) else fold((z(nn) - 1) / 2 + 1)
        den = C.s_mul(mk("i", nn), d)
        return SArr.new((nn,), "f", lambda idx: C.s_cast(C.s_div(mk("i", C.rite(rlt(idx[0], half), idx[0], rsub(idx[0], nn))), den), "f"))

    def __getattr__(self, n):
        return wrap_real(getattr(np.fft, n), "fft." + n)


class _Linalg:
    def norm(self, x, ord=None, axis=None, keepdims=False):
        if not is_sym(x):
            return np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
        if ord not in (None, 2):
            raise Unsupported("norm order")
        a = as_sarr(x)
        sq = ew(lambda v: C.s_add(C.s_mul(C.s_real(v), C.s_real(v)), C.s_mul(C.s_imag(v), C.s_imag(v))), "f", a)
        return sqrt(A.reduce_sum(sq, axis, keepdims))

    def multi_dot(self, xs):
        if not is_sym(xs):
            return np.linalg.multi_dot(xs)
        r = xs[0]
        for x in xs[1:]:
            r = A.matmul(r, x)
        return r

    def __getattr__(self, n):
        return wrap_real(getattr(np.linalg, n), "linalg." + n)


def wrap_real(f, name):
    if not callable(f) or isinstance(f, type):
        return f

    def g(*a, **kw):
        if is_sym(a) or is_sym(list(kw.values())):
            try:
                a2 = concretize(list(a))
                kw2 = {k: concretize(v) for k, v in kw.items()}
            except Unsupported:
                raise Unsupported(f"no contract for np.{name} on symbolic arguments")
            return f(*a2, **kw2)
        return f(*[_flt(x) for x in a], **{k: _flt(v) for k, v in kw.items()})
    g.__name__ = name
    return g


class _Random:
    """random numbers are arbitrary inputs within the documented range"""

    def __init__(self):
        self.gen = None

    def _fresh(self, size, lo, hi, nm):
        if size is None:
            v = z3.Real(C.CTX.fresh(nm))
            if lo is not None:
                C.CTX.add(z3.And(z(C.raw_real(lo), True) <= v, v <= z(C.raw_real(hi), True)))
            return mk("f", v)
        sh = _shape_of(size)
        f = z3.Function(C.CTX.fresh(nm), *([z3.IntSort()] * len(sh) + [z3.RealSort()]))

        def get(idx):
            t = f(*[z(i) for i in idx])
            if lo is not None:
                C.CTX.axiom(("rnd", t.get_id()), z3.And(z(C.raw_real(lo), True) <= t, t <= z(C.raw_real(hi), True)))
            return mk("f", t)
        return SArr.new(sh, "f", get)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._fresh(size, low, high, "RNDU")

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fresh(size, None, None, "RNDN")

    def randn(self, *sh):
        return self._fresh(sh or None, None, None, "RNDN")

    def __getattr__(self, n):
        return wrap_real(getattr(np.random, n), "random." + n)


class NPModule:
    """object bound to the name ``np`` in the verified modules"""
    ndarray = SArr
    newaxis = None
    inf = float("inf")
    nan = float("nan")

    def __init__(self):
        self.fft = _FFT()
        self.linalg = _Linalg()
        self.random = _Random()

    @property
    def pi(self):
        C.pi_val()
        return mk("f", C.PI)

    @property
    def e(self):
        return np.e

    def __getattr__(self, n):
        g = globals().get(n)
        if g is not None and callable(g) and not n.startswith("_") and getattr(g, "__module__", None) == __name__:
            return g
        return wrap_real(getattr(np, n), n)


NP = NPModule()
