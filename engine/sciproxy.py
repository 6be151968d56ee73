"""Assumed contracts on scipy functions: concrete calls are delegated; symbolic
calls become opaque operators (congruence, and linearity where stated)."""
from __future__ import annotations
import importlib
from fractions import Fraction
import z3
from . import core as C
from . import ops as O
from . import arrays as A
from . import npproxy as N
from .arrays import SArr, as_sarr, dim_raw, norm_axis, wrapi
from .core import (Unsupported, mk, parts, z, is_const, radd, rsub, rmul, rle, rlt, req, toreal, s_ite, mkb, fold, b_and)


def _vec(x):
    """1-D array -> op vector"""
    a = as_sarr(N.atleast_1d(x))
    if a.ndim != 1:
        raise Unsupported("vector expected")
    rd = a.reader()
    return N.comp_vec(lambda k: rd((k,)), a._shape[0])


class Ns:
    def __init__(self, modname, impl):
        self._mod = importlib.import_module(modname)
        self._impl = impl
        self._n = modname

    def __getattr__(self, n):
        if n.startswith("__"):
            return getattr(self._mod, n)
        if n in self._impl:
            return self._impl[n]
        sub = self._n + "." + n
        if sub in REG:
            return REG[sub]
        f = getattr(self._mod, n)
        if callable(f):
            return N.wrap_real(f, sub) if not isinstance(f, type) else _wrap_type(f, sub)
        if hasattr(f, "__file__"):
            return Ns(f.__name__, {})
        return f


def _wrap_type(t, name):
    def g(*a, **kw):
        if N.is_sym(a) or N.is_sym(list(kw.values())):
            raise Unsupported(f"no contract for {name} on symbolic arguments")
        return t(*a, **kw)
    return g


REG = {}


def _del(name):
    mod, f = name.rsplit(".", 1)
    return getattr(importlib.import_module(mod), f)


# ------------------------------------------------------------------ filters
def _re_im(f, x, *coef):
    """real coefficients act on real and imaginary part separately (linearity)"""
    xa = as_sarr(x)
    if xa.kind != "c" or any("c" == as_sarr(k).kind for k in coef):
        return None
    a, b = f(N.real(xa)), f(N.imag(xa))
    ra, rb = a.reader(), b.reader()
    return SArr.new(xa._shape, "c", lambda idx: mk("c", toreal(parts(ra(idx))[1]), toreal(parts(rb(idx))[1])))


def _cells(v):
    """1-D array of known length -> list of cells"""
    a = as_sarr(N.atleast_1d(v))
    if a.ndim != 1 or not is_const(a._shape[0]):
        return None
    rd = a.reader()
    return [rd((k,)) for k in range(a._shape[0])]


def _tdf2(b, a, xs, zs):
    """the difference equation, sample by sample (transposed direct form II)"""
    k = max(len(a), len(b))
    b, a = [C.s_div(v, a[0]) for v in b] + [Fraction(0)] * (k - len(b)), [C.s_div(v, a[0]) for v in a] + [Fraction(0)] * (k - len(a))
    zs, ys = list(zs) + [Fraction(0)], []
    for x in xs:
        y = C.s_add(C.s_mul(b[0], x), zs[0])
        zs = [C.s_sub(C.s_add(zs[i], C.s_mul(b[i], x)), C.s_mul(a[i], y)) for i in range(1, k)] + [Fraction(0)]
        ys.append(y)
    return ys, zs[:-1]


def _expand(xa, axis, stages, zstages=None):
    """cascade of difference equations applied along an axis of known length; (output, final states per stage)"""
    n = xa._shape[axis]
    xrd = xa.reader()
    memo = {}

    def run(rest):
        if rest not in memo:
            ys = [xrd(rest[:axis] + (q,) + rest[axis:]) for q in range(n)]
            zf = []
            for i, (b, a) in enumerate(stages):
                k = max(len(a), len(b)) - 1
                zs = [Fraction(0)] * k if zstages is None else zstages(i, rest, k)
                ys, zz = _tdf2(b, a, ys, zs)
                zf.append(zz)
            memo[rest] = ys, zf
        return memo[rest]

    def pick(v, q):
        if is_const(q):
            return v[int(q)]
        out = v[-1]
        for j in range(len(v) - 2, -1, -1):
            out = s_ite(mkb(req(q, j)), v[j], out)
        return out
    y = SArr.new(xa._shape, "f", lambda idx: C.s_cast(pick(run(tuple(idx[:axis]) + tuple(idx[axis + 1:]))[0], idx[axis]), "f"))
    return y, run, pick


def lfilter(b, a, x, axis=-1, zi=None):
    if not N.is_sym((b, a, x, zi)):
        return _del("scipy.signal.lfilter")(b, a, x, axis, zi)
    if C.CTX.expand:
        xa = as_sarr(x)
        ax = norm_axis(axis, xa.ndim)
        bc, ac = _cells(b), _cells(a)
        if bc is not None and ac is not None and is_const(xa._shape[ax]) and xa._shape[ax] <= C.CTX.expand and "c" not in (as_sarr(b).kind, as_sarr(a).kind, xa.kind):
            za = None if zi is None else as_sarr(zi)
            zrd = None if zi is None else za.reader()
            zst = None if zi is None else (lambda i, rest, k: [zrd(rest[:ax] + (t,) + rest[ax:]) for t in range(k)])
            y, run, pick = _expand(xa, ax, [(bc, ac)], zst)
            if zi is None:
                return y
            return y, SArr.new(za._shape, "f", lambda idx: C.s_cast(pick(run(tuple(idx[:ax]) + tuple(idx[ax + 1:]))[1][0], idx[ax]), "f"))
    if zi is None:
        r = _re_im(lambda v: lfilter(b, a, v, axis), x, b, a)
        if r is not None:
            return r
    bv, av = _vec(b), _vec(a)
    xa = as_sarr(x)
    axis = norm_axis(axis, xa.ndim)
    n = xa._shape[axis]
    cplx = "c" in (xa.kind, as_sarr(b).kind, as_sarr(a).kind)
    if zi is None:
        # causal and linear in x
        out = N.vec_op("LFILTER", xa, axis, n, "c" if cplx else "f", extra_vecs=(bv, av), linear=True)
        return out
    za = as_sarr(zi)
    if cplx or za.kind == "c":
        raise Unsupported("complex filter state")
    k = radd(C.rite(rle(bv[0], av[0]), av[0], bv[0]) if not (is_const(av[0]) and is_const(bv[0])) else max(av[0], bv[0]), -1)
    if za.ndim != xa.ndim:
        raise ValueError("Unexpected shape for zi")
    zrd, xrd = za.reader(), xa.reader()

    def mkget(which, nout):
        def get(idx):
            xv = N.comp_vec(lambda q: xrd(idx[:axis] + (q,) + idx[axis + 1:]), n)
            zv = N.comp_vec(lambda q: zrd(idx[:axis] + (q,) + idx[axis + 1:]), za._shape[axis])
            t = O.op_term("LFILTERZ" + which, [], [xv, zv, bv, av], [idx[axis]], ncomp=1)
            return mk("f", t[0])
        sh = list(xa._shape)
        sh[axis] = nout
        return SArr.new(sh, "f", get)
    return mkget("Y", n), mkget("Z", za._shape[axis])


def sosfilt(sos, x, axis=-1, zi=None):
    if not N.is_sym((sos, x, zi)):
        return _del("scipy.signal.sosfilt")(sos, x, axis, zi)
    if zi is None:
        r = _re_im(lambda v: sosfilt(sos, v, axis), x, sos)
        if r is not None:
            return r
    sa, xa = as_sarr(sos), as_sarr(x)
    axis = norm_axis(axis, xa.ndim)
    n = xa._shape[axis]
    srd = sa.reader()
    ns = sa._shape[0]
    if not isinstance(ns, int):
        raise Unsupported("symbolic number of sections")
    if C.CTX.expand and is_const(n) and n <= C.CTX.expand and "c" not in (sa.kind, xa.kind):
        stages = [([srd((i, j)) for j in range(3)], [srd((i, j)) for j in range(3, 6)]) for i in range(ns)]
        za = None if zi is None else as_sarr(zi)
        zrd = None if zi is None else za.reader()
        zst = None if zi is None else (lambda i, rest, k: [zrd((i,) + rest[:axis] + (t,) + rest[axis:]) for t in range(k)])
        y, run, pick = _expand(xa, axis, stages, zst)
        if zi is None:
            return y
        # zi: (n_sections, ..., 2, ...)
        return y, SArr.new(za._shape, "f", lambda idx: C.s_cast(pick([pick(zz, idx[1 + axis]) for zz in run(tuple(idx[1:1 + axis]) + tuple(idx[axis + 2:]))[1]], idx[0]), "f"))
    sv = _vec(A.from_nested([srd((i, j)) for i in range(ns) for j in range(6)]))
    if zi is None:
        return N.vec_op("SOSFILT", xa, axis, n, "f", extra_vecs=(sv,), linear=True)
    za = as_sarr(zi)
    zrd, xrd = za.reader(), xa.reader()

    def chan(idx):
        xv = N.comp_vec(lambda q: xrd(idx[:axis] + (q,) + idx[axis + 1:]), n)
        ii = idx[:axis] + idx[axis + 1:]
        # zi: (n_sections, ..., 2, ...)
        zv = _vec(A.from_nested([zrd((s,) + idx[:axis] + (t,) + idx[axis + 1:]) for s in range(ns) for t in range(2)]))
        return xv, zv

    def gy(idx):
        xv, zv = chan(idx)
        return mk("f", O.op_term("SOSZY", [], [xv, zv, sv], [idx[axis]])[0])

    def gz(idx):
        s, rest = idx[0], idx[1:]
        xv, zv = chan(rest)
        return mk("f", O.op_term("SOSZZ", [], [xv, zv, sv], [s, rest[axis]])[0])
    return SArr.new(xa._shape, "f", gy), SArr.new(za._shape, "f", gz)


def _opaque_axis(name, real, kind="f", linear=False):
    def f(*args, axis=-1, **kw):
        if not N.is_sym(args):
            return real(*args, axis=axis, **kw)
        *pre, x = args
        if linear:
            r = _re_im(lambda v: f(*pre, v, axis=axis, **kw), x, *pre)
            if r is not None:
                return r
        vecs = []
        for p in pre:
            a = as_sarr(p)
            if a.ndim == 2 and isinstance(a._shape[0], int):
                a = A.from_nested([a.get((i, j)) for i in range(a._shape[0]) for j in range(a._shape[1])])
            vecs.append(_vec(a))
        xa = as_sarr(x)
        axis = norm_axis(axis, xa.ndim)
        return N.vec_op(name, xa, axis, xa._shape[axis], "c" if xa.kind == "c" else kind, extra_vecs=tuple(vecs), linear=linear,
                        extra=tuple(sorted((k, str(v)) for k, v in kw.items())))
    return f


def convolve(in1, in2, mode="full", method="auto"):
    return _conv(in1, in2, mode, None, "scipy.signal.convolve")


def oaconvolve(in1, in2, mode="full", axes=None):
    return _conv(in1, in2, mode, axes, "scipy.signal.oaconvolve")


def _conv(in1, in2, mode, axes, realname):
    if not N.is_sym((in1, in2)):
        kw = {} if axes is None else {"axes": axes}
        return _del(realname)(in1, in2, mode=mode, **kw)
    a, b = as_sarr(in1), as_sarr(in2)
    if a.ndim != b.ndim:
        raise ValueError("in1 and in2 should have the same dimensionality")
    if a.ndim == 1:
        ax = 0
    else:
        if axes is None:
            raise Unsupported("nd convolution")
        ax = axes[0] if isinstance(axes, (list, tuple)) else axes
        ax = norm_axis(ax, a.ndim)
    na, nb = a._shape[ax], b._shape[ax]
    full = radd(radd(na, nb), -1)
    other = []
    for i in range(a.ndim):
        if i != ax:
            other.append((i, A.broadcast_shapes([(a._shape[i],), (b._shape[i],)])[0]))
    ra, rb = a.reader(), b.reader()
    sh = list(a._shape)
    for i, d in other:
        sh[i] = d
    if mode == "full":
        off, ln = 0, full
    elif mode == "same":
        off = fold((z(nb) - 1) / 2) if not is_const(nb) else (nb - 1) // 2
        ln = na
    elif mode == "valid":
        big = na if C.CTX.decide(rle(nb, na)) else nb
        small = nb if big is na else na
        off, ln = rsub(small, 1), radd(rsub(big, small), 1)
    else:
        raise Unsupported("mode")
    sh[ax] = ln
    k = A.k_arith([a.kind, b.kind])
    kk = "f" if k == "i" else k

    def fix(arr, idx, q):
        out = []
        for i in range(arr.ndim):
            if i == ax:
                out.append(q)
            else:
                d = arr._shape[i]
                out.append(0 if (is_const(d) and d == 1) else idx[i])
        return tuple(out)

    # sum over the concrete side when there is one, otherwise over in2
    def get(idx):
        n = radd(idx[ax], off)
        swap = is_const(na) and not is_const(nb)
        (n1, r1, A1), (n2, r2, A2) = ((na, ra, a), (nb, rb, b)) if not swap else ((nb, rb, b), (na, ra, a))

        def body(q):
            j = rsub(n, q)
            c = b_and(rle(0, j), rlt(j, n1))
            return s_ite(mkb(c), C.s_mul(r2(fix(A2, idx, q)), r1(fix(A1, idx, j))), Fraction(0))
        return C.s_cast(O.s_sum(n2, body), kk)
    return SArr.new(sh, kk, get)


def fftconvolve(in1, in2, mode="full", axes=None):
    return _conv(in1, in2, mode, axes, "scipy.signal.fftconvolve")


def correlate(in1, in2, mode="full", method="auto"):
    if not N.is_sym((in1, in2)):
        return _del("scipy.signal.correlate")(in1, in2, mode=mode, method=method)
    b = as_sarr(in2)
    return _conv(in1, N.conj(N.flip(b)), mode, None, "scipy.signal.convolve")


def hilbert(x, N_=None, axis=-1, **kw):
    n = kw.pop("N", N_)
    if not N.is_sym(x):
        return _del("scipy.signal.hilbert")(x, n, axis)
    if n is not None:
        raise Unsupported("hilbert N")
    xa = as_sarr(x)
    axis = norm_axis(axis, xa.ndim)
    h = N.vec_op("HILB", xa, axis, xa._shape[axis], "f", linear=True)
    rh, rx = h.reader(), xa.reader()
    return SArr.new(xa._shape, "c", lambda idx: mk("c", toreal(parts(rx(idx))[1]), parts(rh(idx))[1]))


def _wname(w):
    if isinstance(w, str):
        return (w,), []
    if isinstance(w, tuple):
        return tuple(str(x) if not N.is_sym(x) and not isinstance(x, (int, float, Fraction)) else "#" for x in w), \
            [x for x in w if N.is_sym(x) or isinstance(x, (int, float, Fraction))]
    return ("p",), [w]


def get_window(window, Nx, fftbins=True):
    if not N.is_sym((window, Nx)):
        return _del("scipy.signal.get_window")(window, int(Nx), fftbins)
    nm, sc = _wname(window)
    n = dim_raw(Nx)
    scal = [n] + [toreal(parts(s)[1]) for s in sc]

    def get(idx):
        t = O.op_term("WINDOW", scal, [], [idx[0]], extra=nm + (bool(fftbins),))[0]
        C.CTX.axiom(("win", t.get_id()), z3.And(t >= -1, t <= 1) if nm[0] in ("flattop",) else z3.And(t >= 0, t <= 1))
        if not fftbins:  # symmetric windows
            u = O.op_term("WINDOW", scal, [], [rsub(rsub(n, 1), idx[0])], extra=nm + (bool(fftbins),))[0]
            C.CTX.axiom(("winsym", t.get_id()), t == u)
        return mk("f", t)
    if nm[0] in ("boxcar", "rect", "rectangular"):
        return N.ones(wrapi(n))
    return SArr.new((n,), "f", get)


class _Windows:
    def __getattr__(self, n):
        import scipy.signal.windows as w
        f = getattr(w, n)
        if n == "get_window":
            return get_window

        def g(M, *a, sym=True, **kw):
            if not N.is_sym((M, a)):
                return f(int(M), *a, sym=sym, **kw)
            return get_window((n,) + tuple(a) + tuple(v for v in kw.values()) if (a or kw) else n, M, fftbins=not sym)
        return g


def next_fast_len(n, real=False):
    if not N.is_sym(n):
        return _del("scipy.fft.next_fast_len")(int(n), real)
    r = dim_raw(n)
    t = O.op_term("NEXTFAST", [r], [], [], int_result=True, extra=bool(real))[0]
    C.CTX.axiom(("nfl", t.get_id()), t >= z(r))
    return mk("i", t)


def toeplitz(c, r=None):
    if not N.is_sym((c, r)):
        return _del("scipy.linalg.toeplitz")(c, r)
    raise Unsupported("toeplitz")


def cumulative_trapezoid(y, x=None, dx=1.0, axis=-1, initial=None):
    if not N.is_sym((y, x, dx)):
        return _del("scipy.integrate.cumulative_trapezoid")(y, x=x, dx=dx, axis=axis, initial=initial)
    raise Unsupported("cumulative_trapezoid")


def simpson(y, x=None, dx=1.0, axis=-1):
    """Simpson's rule as an opaque functional of integrand and grid (its value is not interpreted)"""
    if not N.is_sym((y, x, dx)):
        return _del("scipy.integrate.simpson")(y, x=x, dx=dx, axis=axis)
    ya = as_sarr(y)
    if ya.ndim != 1 or ya.kind == "c":
        raise Unsupported("simpson along an axis of a matrix")
    rd = ya.reader()
    xr = as_sarr(x).reader() if x is not None else (lambda idx: C.s_mul(dx, mk("i", idx[0])))
    n = ya._shape[0]
    k, e = O.bind(n, lambda k: C.raw_real(rd((k,))))
    k2, e2 = O.bind(n, lambda k: C.raw_real(xr((k,))))
    return mk("f", O.op_term("SIMPSON", [], [(n, k, [e]), (n, k2, [e2])], [])[0])


def trapezoid(y, x=None, dx=1.0, axis=-1):
    if not N.is_sym((y, x, dx)):
        return _del("scipy.integrate.trapezoid")(y, x=x, dx=dx, axis=axis)
    ya = as_sarr(y)
    axis = norm_axis(axis, ya.ndim)
    n = ya._shape[axis]
    rd = ya.reader()
    xr = as_sarr(x).reader() if x is not None else None
    if xr is not None and as_sarr(x).ndim != 1:
        raise Unsupported("trapezoid with an n-d grid")

    def cell(idx):
        def body(k):
            k1 = C.radd(k, 1)
            d = C.s_sub(xr((k1,)), xr((k,))) if xr is not None else dx
            return C.s_div(C.s_mul(d, C.s_add(rd(idx[:axis] + (k1,) + idx[axis:]), rd(idx[:axis] + (k,) + idx[axis:]))), 2)
        return O.s_sum(C.rsub(n, 1), body)
    if ya.ndim == 1:
        return cell(())
    sh = ya._shape[:axis] + ya._shape[axis + 1:]
    return SArr.new(sh, ya.kind if ya.kind == "c" else "f", cell)


def _interpolator(name):
    """scipy's piecewise interpolators: assumed contract = passes through the nodes of a strictly increasing grid"""
    def make(x, y, axis=0, **kw):
        if not N.is_sym((x, y)):
            return getattr(importlib.import_module("scipy.interpolate"), name)(x, y, axis=axis, **kw)
        xa, ya = as_sarr(x), as_sarr(y)
        if axis != 0 or kw or ya.ndim > 2 or ya.kind == "c":
            raise Unsupported(name + " options")
        rx, ry = xa.reader(), ya.reader()
        n = xa._shape[0]
        bk, bx = O.bind(n, lambda k: C.toreal(parts(rx((k,)))[1]))

        def call(v):
            va = as_sarr(v)
            vr = va.reader()
            inc = []

            def get(idx):
                w, rest = C.s_cast(vr(idx[:1]), "f"), idx[1:]
                a, b = parts(w)[1], parts(rx(idx[:1]))[1]
                if z3.is_expr(a) and z3.is_expr(b) and a.eq(b) and C.CTX.entails(z3.And(z(idx[0]) >= 0, z(idx[0]) < z(n))):
                    if not inc:
                        inc.append(N._increasing(xa))
                    if inc[0]:
                        return C.s_cast(ry(idx), "f")
                ck, cy = O.bind(n, lambda k: C.toreal(parts(ry((k,) + rest))[1]))
                t = O.op_term("INTERP" + name, [C.toreal(a)], [(n, bk, [bx]), (n, ck, [cy])], [])[0]
                return mk("f", t)
            return SArr.new(va._shape[:1] + ya._shape[1:], "f", get)
        return call
    return make


def _opq(name):
    mod, f = name.rsplit(".", 1)
    real = getattr(importlib.import_module(mod), f)
    return N.wrap_real(real, name)


def resample_poly(x, up, down, axis=0, **kw):
    if not N.is_sym((x, up, down)):
        return _del("scipy.signal.resample_poly")(x, up, down, axis=axis, **kw)
    xa = as_sarr(x)
    axis = norm_axis(axis, xa.ndim)
    n = xa._shape[axis]
    up, down = dim_raw(up), dim_raw(down)
    # length ceil(n*up/down)
    nout = C.s_cast(C.s_ceil(C.s_div(mk("i", rmul(n, up)), mk("i", down))), "i")
    return N.vec_op("RESAMPLE", xa, axis, C.raw_int(nout), "f", scalars=[mk("i", up), mk("i", down)], linear=True)


_sig = {"lfilter": lfilter, "sosfilt": sosfilt, "convolve": convolve, "oaconvolve": oaconvolve, "fftconvolve": fftconvolve,
        "correlate": correlate, "hilbert": hilbert, "get_window": get_window, "resample_poly": resample_poly,
        "windows": _Windows()}
_sig["sosfiltfilt"] = _opaque_axis("SOSFILTFILT", _del("scipy.signal.sosfiltfilt"), linear=True)


def filtfilt(b, a, x, axis=-1, **kw):
    if not N.is_sym((b, a, x)):
        return _del("scipy.signal.filtfilt")(b, a, x, axis=axis, **kw)
    r = _re_im(lambda v: filtfilt(b, a, v, axis, **kw), x, b, a)
    if r is not None:
        return r
    xa = as_sarr(x)
    axis = norm_axis(axis, xa.ndim)
    return N.vec_op("FILTFILT", xa, axis, xa._shape[axis], "c" if xa.kind == "c" else "f", extra_vecs=(_vec(b), _vec(a)), linear=True, extra=tuple(sorted((k, str(v)) for k, v in kw.items())))


def lfilter_zi(b, a):
    """steady state of the step response: an unspecified function of the coefficients"""
    if not N.is_sym((b, a)):
        return _del("scipy.signal.lfilter_zi")(b, a)
    bv, av = _vec(b), _vec(a)
    if "c" in (as_sarr(b).kind, as_sarr(a).kind):
        raise Unsupported("complex filter state")
    nb, na = bv[0], av[0]
    if C.CTX.expand and is_const(nb) and is_const(na) and max(nb, na) == 2:
        b0, b1 = (_cells(b) + [Fraction(0)])[:2]
        a0, a1 = (_cells(a) + [Fraction(0)])[:2]
        b0, b1, a1 = C.s_div(b0, a0), C.s_div(b1, a0), C.s_div(a1, a0)
        zi = C.s_div(C.s_sub(b1, C.s_mul(a1, b0)), C.s_add(1, a1))
        return SArr.new((1,), "f", lambda idx: C.s_cast(zi, "f"))
    k = (nb if C.CTX.decide(rle(na, nb)) else na)
    return SArr.new((rsub(k, 1),), "f", lambda idx: mk("f", O.op_term("LFILTER_ZI", [], [bv, av], [idx[0]])[0]))


def sosfilt_zi(sos):
    if not N.is_sym(sos):
        return _del("scipy.signal.sosfilt_zi")(sos)
    sa = as_sarr(sos)
    srd = sa.reader()
    ns = sa._shape[0]
    if not isinstance(ns, int):
        raise Unsupported("symbolic number of sections")
    sv = _vec(A.from_nested([srd((i, j)) for i in range(ns) for j in range(6)]))
    return SArr.new((ns, 2), "f", lambda idx: mk("f", O.op_term("SOSFILT_ZI", [], [sv], [idx[0], idx[1]])[0]))


def _freqz(name, real, args, worN, fs):
    if not N.is_sym((args, worN, fs)):
        return real(*args, worN, fs=fs)
    wa = as_sarr(worN)
    if wa.ndim != 1:
        raise Unsupported(name + " frequencies")
    vecs = []
    for p in args:
        a = as_sarr(p)
        if a.ndim == 2:
            a = A.from_nested([a.get((i, j)) for i in range(a._shape[0]) for j in range(a._shape[1])])
        if a.kind == "c":
            raise Unsupported(name + " of complex coefficients")
        vecs.append(_vec(a))
    wr = wa.reader()
    f = toreal(parts(fs)[1])

    def get(idx):
        t = O.op_term(name, [toreal(parts(wr(idx))[1]), f], vecs, [], ncomp=2)
        return mk("c", *t)
    return wa, SArr.new(wa._shape, "c", get)


def freqz(b, a=1, worN=512, whole=False, plot=None, fs=2 * 3.141592653589793, include_nyquist=False):
    return _freqz("FREQZ", lambda b, a, w, fs: _del("scipy.signal.freqz")(b, a, w, fs=fs), (b, a), worN, fs)


def sosfreqz(sos, worN=512, whole=False, fs=2 * 3.141592653589793):
    import scipy.signal as _s
    return _freqz("SOSFREQZ", lambda s, w, fs: (getattr(_s, "sosfreqz", None) or _s.freqz_sos)(s, w, fs=fs), (sos,), worN, fs)


_sig["freqz"] = freqz
_sig["sosfreqz"] = _sig["freqz_sos"] = sosfreqz
_sig["filtfilt"] = filtfilt
_sig["lfilter_zi"] = lfilter_zi
_sig["sosfilt_zi"] = sosfilt_zi


class _SFft(N._FFT):
    next_fast_len = staticmethod(next_fast_len)

    def dct(self, x, *a, axis=-1, **kw):
        import scipy.fft
        if not N.is_sym(x):
            return scipy.fft.dct(x, *a, axis=axis, **kw)
        xa = as_sarr(x)
        axis = norm_axis(axis, xa.ndim)
        return N.vec_op("DCT", xa, axis, xa._shape[axis], "f", linear=True, extra=(str(a), str(sorted(kw.items()))))

    def __getattr__(self, n):
        import scipy.fft
        return N.wrap_real(getattr(scipy.fft, n), "scipy.fft." + n)


_sfft = _SFft()
REG["scipy.fft"] = _sfft
REG["scipy.signal"] = Ns("scipy.signal", _sig)
REG["scipy.signal.windows"] = _sig["windows"]
REG["scipy.linalg"] = Ns("scipy.linalg", {"toeplitz": toeplitz})
REG["scipy.integrate"] = Ns("scipy.integrate", {"cumulative_trapezoid": cumulative_trapezoid, "trapezoid": trapezoid, "simpson": simpson})
REG["scipy.interpolate"] = Ns("scipy.interpolate", {"CubicSpline": _interpolator("CubicSpline"), "PchipInterpolator": _interpolator("PchipInterpolator")})
REG["scipy.special"] = Ns("scipy.special", {})
REG["scipy.stats"] = Ns("scipy.stats", {})
REG["scipy"] = Ns("scipy", {})


def check_COLA(window, nperseg, noverlap, tol=1e-10):
    if not N.is_sym((window, nperseg, noverlap)):
        return _del("scipy.signal.check_COLA")(window, int(nperseg), int(noverlap), tol)
    if isinstance(window, SArr):
        return C.mkb(O.op_term("COLA", [dim_raw(nperseg), dim_raw(noverlap)], [_vec(window)], [], bool_result=True)[0])
    raise Unsupported("check_COLA by name")



_sig["check_COLA"] = check_COLA
