"""Symbolic n-dimensional arrays: concrete rank, symbolic extents, functional
element closures over mutable buffers, views with affine index maps."""
from __future__ import annotations
from fractions import Fraction
import operator
import numpy as np
import z3
from . import core as C
from . import ops as O
from .core import (Unsupported, SNum, SBool, mk, parts, z, is_const, radd, rsub, rmul, rneg, rle, rlt, req,
                   b_and, b_or, b_not, raw_int, raw_bool, fold, s_ite, mkb, is_scalar)


def _key(idx):
    return tuple(i if isinstance(i, int) else ("z", i.get_id()) for i in idx)


class Buf:
    __slots__ = ("get", "shape", "kind", "cache", "log", "uid", "name")

    def __init__(self, shape, kind, get, name=None):
        self.shape = tuple(shape)
        self.kind = kind
        self.cache = {}
        self.log = None
        self.name = name
        C.CTX.counter["buf"] = self.uid = C.CTX.counter.get("buf", 0) + 1
        self.set_get(get)
        if C.CTX.loop_summ is not None:
            C.CTX.loop_summ.register(self)

    def set_get(self, get):
        cache = {}

        def cached(idx):
            k = _key(idx)
            hit = cache.get(k)
            if hit is not None:
                return hit[1]
            v = get(idx)
            cache[k] = (idx, v)
            return v
        self.get = cached

    def set_get_raw(self, g):
        self.get = g

    def write(self, cond, val):
        """for all base idx: new(idx) = cond(idx) ? val(idx) : old(idx)"""
        if C.CTX.loop_summ is not None:
            C.CTX.loop_summ.on_write(self)
        old = self.get
        kind = self.kind

        def g(idx):
            c = cond(idx)
            if c is False:
                return old(idx)
            if c is not True:
                if C.CTX.entails(c):
                    c = True
                elif C.CTX.entails(b_not(c)):
                    return old(idx)
            v = cast_cell(val(idx) if c is True else val_under(c, val, idx), kind)
            if c is True:
                return v
            return s_ite(mkb(c), v, old(idx))
        self.set_get(g)


def val_under(c, val, idx):
    """evaluate val(idx) under assumption c (so clamps and sub-conditions simplify)"""
    ctx = C.CTX
    return val(idx)


def cast_cell(v, kind):
    if kind == "o":
        return v
    return C.s_cast(v, kind)


def dim_raw(d):
    if isinstance(d, (SNum, SBool)):
        return raw_int(d)
    if isinstance(d, (bool, np.bool_)):
        return int(d)
    if isinstance(d, (int, np.integer)):
        return int(d)
    if isinstance(d, z3.ExprRef):
        return fold(d)
    if isinstance(d, SArr) and d.ndim == 0:
        return raw_int(d.get(()))
    if isinstance(d, np.ndarray) and d.ndim == 0:
        return int(d)
    raise TypeError(f"'{type(d).__name__}' object cannot be interpreted as an integer")


def wrapi(d):
    return d if isinstance(d, int) else mk("i", d)


def dims_equal(a, b):
    """decide equality of extents (forks if undetermined)"""
    e = req(a, b)
    return C.CTX.decide(e)


class SArr:
    _sym_array_ = True
    __array_ufunc__ = None
    __array_priority__ = 1000
    __slots__ = ("buf", "spec", "_shape", "base", "prov", "__weakref__")

    def __init__(self, buf, spec, shape, base=None):
        self.buf, self.spec, self._shape, self.base = buf, spec, tuple(shape), base
        self.prov = None

    # ---------------------------------------------------------------- construct
    @staticmethod
    def new(shape, kind, get, name=None):
        shape = [dim_raw(d) for d in shape]
        for d in shape:
            neg = rlt(d, 0)
            if neg is True or (neg is not False and not C.CTX.entails(z(d) >= 0) and C.CTX.decide(neg)):
                raise ValueError("negative dimensions are not allowed")
        b = Buf(shape, kind, get, name)
        return SArr(b, [("a", i, 0, 1) for i in range(len(shape))], shape)

    @staticmethod
    def const(shape, v, kind=None):
        kind = kind or C.kind_of(v)
        v = cast_cell(v, kind)
        return SArr.new(shape, kind, lambda idx: v)

    @staticmethod
    def from_np(a):
        a = np.asarray(a)
        if a.dtype == object:
            return from_nested(a.tolist())
        kind = C.kind_of_dtype(a.dtype)
        data = a.copy()
        if a.ndim == 0:
            v = cast_cell(data[()], kind)
            return SArr.new((), kind, lambda idx: v)
        if a.size and a.ndim >= 1:
            flat = a.reshape(-1)
            if a.size > 1 and np.all(flat == flat[0]):
                v = cast_cell(flat[0], kind)
                return SArr.new(a.shape, kind, lambda idx: v)

        def get(idx):
            if all(isinstance(i, int) for i in idx):
                return cast_cell(data[idx], kind)
            # ite chain over the first symbolic axis
            ax = next(i for i, v in enumerate(idx) if not isinstance(v, int))
            n = data.shape[ax]
            if n > 64:
                raise Unsupported("symbolic index into a large concrete array")
            out = None
            for j in reversed(range(n)):
                v = get(idx[:ax] + (j,) + idx[ax + 1:])
                out = v if out is None else s_ite(mkb(z(idx[ax]) == j), v, out)
            return out
        return SArr.new(a.shape, kind, get)

    # ---------------------------------------------------------------- attributes
    @property
    def shape(self):
        return tuple(wrapi(d) for d in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def kind(self):
        return self.buf.kind

    @property
    def dtype(self):
        return C.DT[self.buf.kind]

    @property
    def size(self):
        out = 1
        for d in self._shape:
            out = rmul(out, d)
        return wrapi(out)

    @property
    def T(self):
        return self.transpose()

    @property
    def flags(self):
        raise Unsupported("flags")

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return C.concretize_int(self._shape[0])

    # ---------------------------------------------------------------- element access
    def base_idx(self, idx):
        out = []
        for s in self.spec:
            if s[0] == "f":
                out.append(s[1])
            else:
                _, va, start, step = s
                j = idx[va]
                if isinstance(step, int) and step == 1:
                    out.append(radd(start, j))
                else:
                    out.append(radd(start, rmul(step, j)))
        return tuple(out)

    def get(self, idx):
        return self.buf.get(self.base_idx(idx))

    def reader(self):
        """snapshot reader (immune to later writes)"""
        g, spec = self.buf.get, self.base_idx
        return lambda idx: g(spec(idx))

    def copy(self, order=None):
        r = self.reader()
        a = SArr.new(self._shape, self.kind, r)
        a.prov = self.prov
        return a

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        r = self.copy()
        memo[id(self)] = r
        return r

    # ---------------------------------------------------------------- writing
    def _region(self, shape=None):
        """returns (cond(bidx), inv(bidx)->view idx) for the whole view"""
        spec, vshape = self.spec, self._shape
        used = {s[1] for s in spec if s[0] == "a"}
        buf = self.buf

        def solve(b):
            conds, vi = [], [0] * len(vshape)
            for ax, s in enumerate(spec):
                if s[0] == "f":
                    conds.append(req(b[ax], s[1]))
                else:
                    _, va, start, step = s
                    d = rsub(b[ax], start)
                    n = vshape[va]
                    if isinstance(step, int) and step in (1, -1):
                        j = d if step == 1 else rneg(d)
                        # skip trivially-true full range
                        if not (is_const(start) and start == 0 and step == 1 and C.same(n, buf.shape[ax])):
                            conds.append(rle(0, j))
                            conds.append(rlt(j, n))
                    else:
                        if isinstance(step, int) and step < 0:
                            q, st = rneg(d), -step
                        else:
                            q, st = d, step
                        j = _dm(z(q) / z(st)) if not (is_const(q) and is_const(st)) else q // st
                        m = _dm(z(q) % z(st)) if not (is_const(q) and is_const(st)) else q % st
                        conds += [req(m, 0), rle(0, q), rlt(j, n)]
                    vi[va] = j
            return b_and(*conds), tuple(vi)
        return solve

    def assign(self, value, mask=None):
        """self[...] = value  (value scalar or array broadcastable to self)"""
        solve = self._region()
        kind = self.kind
        if is_scalar(value) and not isinstance(value, (np.ndarray,)):
            v = value
            rd = lambda vi: v
            vk = C.kind_of(v)
        else:
            a = as_sarr(value)
            vk = a.kind
            bc = broadcast_reader(a, self._shape, assign=True)
            rd = bc
        if mask is not None:
            mrd = mask

            def cond(b):
                c, vi = solve(b)
                if c is False:
                    return False
                return b_and(c, raw_bool(mrd(vi)))
        else:
            def cond(b):
                return solve(b)[0]

        def val(b):
            return rd(solve(b)[1])
        self.buf.write(cond, val)

    def fill(self, v):
        self.assign(v)

    # ---------------------------------------------------------------- indexing
    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis and not is_boolmask(k))
        n_real += sum(bool_ndim(k) for k in key if is_boolmask(k))
        if not any(k is Ellipsis for k in key):
            key.append(Ellipsis)
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - n_real)
            else:
                out.append(k)
        if n_real > self.ndim:
            raise IndexError("too many indices for array")
        return out

    def _index(self, key):
        """-> ('view', SArr) or ('adv', ...)"""
        key = self._norm_key(key)
        adv = [k for k in key if is_adv(k)]
        if not adv:
            return self._basic(key)
        raise AssertionError

    def _basic(self, key):
        shape, spec_map = [], {}
        ax = 0
        new_spec_for_axis = {}
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self._shape[ax]
            if isinstance(k, slice):
                start, step, ln = slice_params(k, n)
                new_spec_for_axis[ax] = ("a", len(shape), start, step)
                shape.append(ln)
            else:
                i = norm_index(dim_raw(k), n)
                new_spec_for_axis[ax] = ("f", i)
            ax += 1
        spec = []
        for s in self.spec:
            if s[0] == "f":
                spec.append(s)
            else:
                _, va, st, sp = s
                t = new_spec_for_axis[va]
                if t[0] == "f":
                    spec.append(("f", radd(st, rmul(sp, t[1]))))
                else:
                    nsp = rmul(sp, t[3])
                    spec.append(("a", t[1], radd(st, rmul(sp, t[2])), nsp))
        out = SArr(self.buf, spec, shape, base=self if self.base is None else self.base)
        return out

    def __getitem__(self, key):
        if isinstance(key, list):
            key = (key,) if True else key
        nk = self._norm_key(key)
        advs = [i for i, k in enumerate(nk) if is_adv(k)]
        if not advs:
            v = self._basic(nk)
            if v.ndim == 0 and not any(k is Ellipsis for k in (key if isinstance(key, tuple) else (key,))):
                return v.get(())
            return v
        masks = [i for i in advs if is_boolmask(nk[i])]
        if masks:
            return self._mask_get(nk, advs, masks)
        return self._adv_get(nk, advs)

    def _adv_get(self, nk, advs):
        if len(advs) > 1:
            return self._adv_get_multi(nk, advs)
        p = advs[0]
        ix = as_sarr(nk[p])
        # axis of self addressed by position p
        ax = sum(1 for k in nk[:p] if k is not None)
        pre = nk[:p]
        n = self._shape[ax]
        rest = self._basic([slice(None) if i == p else k for i, k in enumerate(nk)])
        vax = sum(1 for k in pre if k is None or isinstance(k, slice))
        ints_before = any(not (k is None or isinstance(k, slice)) for k in pre)
        rd, ird = rest.reader(), ix.reader()
        m = ix.ndim
        newshape = rest._shape[:vax] + ix._shape + rest._shape[vax + 1:]
        self._check_adv(ix, n)

        def get(idx):
            i = raw_int(ird(idx[vax:vax + m]))
            i = wrap_neg(i, n)
            return rd(idx[:vax] + (i,) + idx[vax + m:])
        return SArr.new(newshape, self.kind, get)

    def _adv_get_multi(self, nk, advs):
        ixs = [as_sarr(nk[p]) for p in advs]
        if any(not isinstance(k, slice) for i, k in enumerate(nk) if i not in advs) or advs != list(range(advs[0], advs[0] + len(advs))):
            raise Unsupported("mixed advanced indexing")
        shp = broadcast_shapes([i._shape for i in ixs])
        rds = [broadcast_reader(i, shp) for i in ixs]
        p0 = advs[0]
        rest = self._basic([slice(None) if i in advs else k for i, k in enumerate(nk)])
        rd = rest.reader()
        dims = [self._shape[p] for p in advs]
        m = len(shp)
        newshape = rest._shape[:p0] + tuple(shp) + rest._shape[p0 + len(advs):]

        def get(idx):
            ii = tuple(wrap_neg(raw_int(r(idx[p0:p0 + m])), d) for r, d in zip(rds, dims))
            return rd(idx[:p0] + ii + idx[p0 + m:])
        return SArr.new(newshape, self.kind, get)

    def _check_adv(self, ix, n):
        """out-of-bounds indices raise IndexError (decided element by element when concrete length)"""
        if ix.kind != "i":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        if ix.ndim == 1 and isinstance(ix._shape[0], int) and ix._shape[0] <= 16:
            for j in range(ix._shape[0]):
                i = raw_int(ix.get((j,)))
                ok = b_and(rle(rneg(n), i), rlt(i, n))
                if not C.CTX.decide(ok):
                    raise IndexError("index out of bounds")
        elif ix.ndim == 1:
            rd = ix.reader()

            def inb(k):
                i = raw_int(rd((k,)))
                return b_and(rle(rneg(n), i), rlt(i, n))
            if entails_all((ix._shape[0],), inb):
                return
            if not C.CTX.decide(O.b_forall(ix._shape[0], inb)):
                raise IndexError("index out of bounds")

    def _mask_get(self, nk, advs, masks):
        if len(advs) != 1:
            raise Unsupported("mask with further advanced index")
        p = advs[0]
        m = as_sarr(nk[p])
        ax = sum(1 for k in nk[:p] if k is not None)
        rest = self._basic([slice(None)] * 0 + _expand_mask(nk, p, m.ndim))
        vax = sum(1 for k in nk[:p] if k is None or isinstance(k, slice))
        for j in range(m.ndim):
            if not dims_equal(m._shape[j], rest._shape[vax + j]):
                raise IndexError("boolean index did not match indexed array")
        return MaskSel(rest, vax, m)

    def __setitem__(self, key, value):
        nk = self._norm_key(key)
        advs = [i for i, k in enumerate(nk) if is_adv(k)]
        if not advs:
            v = self._basic(nk)
            if v.ndim == 0 and not is_scalar(value):
                a = as_sarr(value)
                if a.ndim == 0:
                    value = a.get(())
                elif all(C.CTX.entails(z3.BoolVal(True) if d == 1 else z(d) == 1) if not isinstance(d, int) else d == 1 for d in a._shape):
                    # numpy: setting an array element with a sequence -> error for ndim>0 (numpy>=2.?) size-1 allowed w/ warning
                    value = a.get(tuple(0 for _ in a._shape))
                else:
                    raise ValueError("setting an array element with a sequence.")
            v.assign(value)
            return
        masks = [i for i in advs if is_boolmask(nk[i])]
        if masks:
            sel = self._mask_get(nk, advs, masks)
            sel.assign_to(value)
            return
        if len(advs) != 1:
            raise Unsupported("advanced assignment")
        p = advs[0]
        ix = as_sarr(nk[p])
        if ix.ndim != 1:
            raise Unsupported("advanced assignment with nd index")
        ax = sum(1 for k in nk[:p] if k is not None)
        vax = sum(1 for k in nk[:p] if k is None or isinstance(k, slice))
        n = self._shape[ax]
        self._check_adv(ix, n)
        if not isinstance(ix._shape[0], int):
            return self._adv_set_sym(nk, p, ix, vax, n, value)
        for j in range(ix._shape[0]):
            i = wrap_neg(raw_int(ix.get((j,))), n)
            k2 = list(nk)
            k2[p] = wrapi(i)
            v = self._basic(k2)
            if is_scalar(value):
                v.assign(value)
            else:
                a = as_sarr(value)
                # value axis matching the index axis
                back = (v.ndim + 1) - vax           # position from the end in result
                ap = a.ndim - back
                if ap >= 0 and not (isinstance(a._shape[ap], int) and a._shape[ap] == 1):
                    kk = [slice(None)] * a.ndim
                    kk[ap] = j
                    v.assign(a[tuple(kk)] if a.ndim > 1 else a.get((j,)))
                elif ap >= 0:
                    kk = [slice(None)] * a.ndim
                    kk[ap] = 0
                    v.assign(a[tuple(kk)] if a.ndim > 1 else a.get((0,)))
                else:
                    v.assign(a)

    def _adv_set_sym(self, nk, p, ix, vax, n, value):
        ctx = C.CTX
        k = z3.Int(ctx.fresh("ai"))
        ctx.push(k >= 0, k < z(ix._shape[0]))
        try:
            e = raw_int(ix.get((k,)))
        finally:
            ctx.pop()
        lo = fold(z3.simplify(z(e) - k))
        if (is_const(lo) or not O.contains(lo, k)) and ctx.entails(rle(0, lo)):
            nk = list(nk)
            nk[p] = slice(wrapi(lo), wrapi(radd(lo, ix._shape[0])))
            self._basic(nk).assign(value)
            return
        raise Unsupported("assignment through symbolic-length index array")

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        n = self._shape[0]
        if not isinstance(n, int):
            n = C.concretize_int(n)
        for i in range(n):
            yield self[i]

    # ---------------------------------------------------------------- reshaping
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            axes = tuple(reversed(range(self.ndim)))
        inv = {a: i for i, a in enumerate(axes)}
        spec = [s if s[0] == "f" else ("a", inv[s[1]], s[2], s[3]) for s in self.spec]
        return SArr(self.buf, spec, [self._shape[a] for a in axes], base=self if self.base is None else self.base)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def squeeze(self, axis=None):
        keep = []
        for i, d in enumerate(self._shape):
            one = req(d, 1)
            if axis is not None:
                axs = axis if isinstance(axis, tuple) else (axis,)
                axs = [a % self.ndim for a in axs]
                if i in axs:
                    if not C.CTX.decide(one):
                        raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
                    continue
                keep.append(i)
            elif not C.CTX.decide(one):
                keep.append(i)
        if len(keep) == self.ndim:
            return SArr(self.buf, list(self.spec), self._shape, base=self if self.base is None else self.base)
        key = [slice(None) if i in keep else 0 for i in range(self.ndim)]
        return self._basic(key)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [dim_raw(s) for s in shape]
        return reshape(self, shape, order)

    def flatten(self, order="C"):
        if self.ndim == 1:
            return self.copy()
        if order != "C":
            raise Unsupported("flatten order")
        return reshape(self, [-1], "C").copy()

    def ravel(self, order="C"):
        if self.ndim == 1:
            return self
        return reshape(self, [-1], order)

    def astype(self, dt, copy=True):
        k = C.kind_of_dtype(dt)
        r = self.reader()
        if k == self.kind:
            return self.copy()
        return SArr.new(self._shape, k, lambda idx: cast_cell(r(idx), k))

    def tolist(self):
        return [x.tolist() if isinstance(x, SArr) else x for x in self]

    def item(self):
        return self.get(tuple(0 for _ in self._shape))

    def view(self, *a):
        raise Unsupported("view")

    def tobytes(self, *a):
        raise Unsupported("tobytes")

    def setflags(self, **k):
        pass

    # ---------------------------------------------------------------- reductions / misc
    @property
    def real(self):
        if self.kind != "c":
            return SArr(self.buf, list(self.spec), self._shape, base=self if self.base is None else self.base)
        return ew(C.s_real, "f", self)

    @property
    def imag(self):
        if self.kind != "c":
            return SArr.const(self._shape, 0, self.kind)
        return ew(C.s_imag, "f", self)

    def conj(self): return ew(C.s_conj, self.kind, self)
    conjugate = conj

    def sum(self, axis=None, keepdims=False, dtype=None):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False):
        return reduce_mean(self, axis, keepdims)

    def max(self, axis=None, keepdims=False): return reduce_max(self, axis, keepdims, 1)
    def min(self, axis=None, keepdims=False): return reduce_max(self, axis, keepdims, -1)
    def argmax(self, axis=None): return reduce_arg(self, axis, 1)
    def argmin(self, axis=None): return reduce_arg(self, axis, -1)
    def all(self, axis=None): return reduce_all(self, axis)
    def any(self, axis=None): return reduce_any(self, axis)

    def std(self, axis=None, keepdims=False):
        from . import npproxy
        return npproxy.std(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None):
        from . import npproxy
        return npproxy.prod(self, axis)

    def cumsum(self, axis=None):
        from . import npproxy
        return npproxy.cumsum(self, axis)

    def argsort(self, axis=-1):
        raise Unsupported("argsort")

    def round(self, decimals=0):
        if decimals:
            raise Unsupported("round decimals")
        return ew(C.s_round, self.kind, self)

    def clip(self, a_min=None, a_max=None, **kw):
        from . import npproxy
        return npproxy.clip(self, a_min, a_max, **kw)

    def dot(self, o): return matmul(self, o)

    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def __bool__(self):
        if all(isinstance(d, int) and d == 1 for d in self._shape):
            return bool(C.mkb(C.raw_bool(C.s_cast(self.get(tuple(0 for _ in self._shape)), "b"))))
        n = self.size
        if bool(n == 1):
            return bool(C.s_cast(self.get(tuple(0 for _ in self._shape)), "b"))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __index__(self):
        if self.ndim == 0:
            return self.get(()).__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __int__(self):
        return int(self.item_scalar())

    def __float__(self):
        raise Unsupported("float(array)")

    def item_scalar(self):
        for d in self._shape:
            if not C.CTX.decide(req(d, 1)):
                raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.get(tuple(0 for _ in self._shape))

    def __format__(self, s): return "<symarray>"
    def __repr__(self): return f"SArr{self._shape}:{self.kind}"
    __str__ = __repr__
    __hash__ = object.__hash__

    def __contains__(self, v):
        raise Unsupported("in array")


def _expand_mask(nk, p, nd):
    out = []
    for i, k in enumerate(nk):
        if i == p:
            out += [slice(None)] * nd
        else:
            out.append(k)
    return out


def _dm(e):
    from . import divmod as D
    if not D.has_dm(e):
        return fold(e)
    e = D.simp(e, C.CTX)
    D.add_facts(e, C.CTX)
    return fold(e)


def is_boolmask(k):
    if isinstance(k, SArr):
        return k.kind == "b" and k.ndim > 0
    if isinstance(k, np.ndarray):
        return k.dtype == bool and k.ndim > 0
    if isinstance(k, list):
        return len(k) > 0 and all(isinstance(x, (bool, np.bool_, SBool)) for x in k)
    return False


def bool_ndim(k):
    return 1 if isinstance(k, list) else k.ndim


def is_adv(k):
    if isinstance(k, SArr):
        return k.ndim > 0
    if isinstance(k, np.ndarray):
        return k.ndim > 0
    if isinstance(k, range):
        return True
    return isinstance(k, (list, tuple))


def entails_all(dims, pred):
    """True if pred(k...) follows from the path condition for all 0 <= k < dims (checked on fresh indices)"""
    ctx = C.CTX
    ks = [z3.Int(ctx.fresh("all")) for _ in dims]
    ctx.push(*[c for k, d in zip(ks, dims) for c in (k >= 0, k < z(d))])
    try:
        g = pred(*ks)
        return g if isinstance(g, bool) else ctx.entails(g)
    finally:
        ctx.pop()


def wrap_neg(i, n):
    if is_const(i):
        return i if i >= 0 else radd(n, i)
    if C.CTX.entails(z(i) >= 0):
        return i
    return C.rite(z(i) < 0, radd(i, n), i)


def norm_index(i, n):
    """python index semantics, raises IndexError on the failing branch"""
    if is_const(i) and is_const(n):
        if not (-n <= i < n):
            raise IndexError("index out of bounds")
        return i if i >= 0 else i + n
    dec = C.CTX.decide
    neg = rlt(i, 0)
    if neg is True or (neg is not False and dec(neg)):
        if not dec(rle(rneg(n), i)):
            raise IndexError("index out of bounds")
        return radd(i, n)
    if not dec(rlt(i, n)):
        raise IndexError("index out of bounds")
    return i


def slice_params(s, n):
    step = 1 if s.step is None else dim_raw(s.step)
    if is_const(step) and step == 0:
        raise ValueError("slice step cannot be zero")
    dec = C.CTX.decide
    if not is_const(step):
        if not dec(step > 0):
            raise Unsupported("symbolic non-positive step")
        positive = True
    else:
        positive = step > 0

    def opt(v):
        if v is None:
            return None
        return dim_raw(v)
    a, b = opt(s.start), opt(s.stop)
    if positive:
        lo = 0 if a is None else clamp(a, n, 0, n)
        hi = n if b is None else clamp(b, n, 0, n)
        if a is None and b is None:
            ln = n
        else:
            d = rsub(hi, lo)
            ln = d if not is_const(d) else max(d, 0)
            if not is_const(d):
                if lo == 0 if is_const(lo) else False:
                    ln = d
                elif not C.CTX.entails(z(d) >= 0):
                    ln = d if dec(z(d) >= 0) else 0
        if is_const(step) and step == 1:
            return lo, 1, ln
        if is_const(ln) and is_const(step):
            return lo, step, -(-ln // step)
        return lo, step, fold((z(ln) + (z(step) - 1)) / z(step))
    # negative step
    st = -step
    hi = rsub(n, 1) if a is None else clamp(a, n, -1, rsub(n, 1))
    lo = -1 if b is None else clamp(b, n, -1, rsub(n, 1))
    d = rsub(hi, lo)
    if is_const(d):
        d = max(d, 0)
    elif not (a is None and b is None):
        if not C.CTX.entails(z(d) >= 0):
            d = d if dec(z(d) >= 0) else 0
    ln = d if st == 1 else (-(-d // st) if is_const(d) else fold((z(d) + (st - 1)) / st))
    return hi, step, ln


def clamp(v, n, lo, hi):
    """python slice bound clamp with forks"""
    dec = C.CTX.decide
    if is_const(v) and is_const(n):
        if v < 0:
            v += n
        return max(lo, min(v, hi)) if is_const(hi) else v
    neg = rlt(v, 0)
    if neg is True or (neg is not False and dec(neg)):
        v = radd(v, n)
        if not dec(rle(lo, v)):
            return lo
    if not dec(rle(v, hi)):
        return hi
    return v


# -------------------------------------------------------------------- conversion
def from_nested(x):
    """nested lists / tuples of scalars and arrays -> SArr (np.array semantics)"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        return SArr.from_np(x)
    if is_scalar(x):
        k = C.kind_of(x)
        v = cast_cell(x, k)
        return SArr.new((), k, lambda idx: v)
    if isinstance(x, MaskSel):
        raise Unsupported("materialised mask selection")
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return SArr.const((0,), Fraction(0), "f")
        items = [from_nested(i) for i in x]
        nd = items[0].ndim
        if any(i.ndim != nd for i in items):
            raise ValueError("inhomogeneous shape")
        for i in items[1:]:
            for a, b in zip(i._shape, items[0]._shape):
                if not dims_equal(a, b):
                    raise ValueError("inhomogeneous shape")
        return stack0(items)
    raise Unsupported(f"np.array of {type(x)}")


def kmaxb(kinds):
    if all(k == "b" for k in kinds):
        return "b"
    return C.kmax(*["i" if k == "b" else k for k in kinds])


def stack0(items):
    k = kmaxb([i.kind for i in items])
    rds = [i.reader() for i in items]
    n = len(items)

    def get(idx):
        i = idx[0]
        if isinstance(i, int):
            return cast_cell(rds[i](idx[1:]), k)
        out = None
        for j in reversed(range(n)):
            v = cast_cell(rds[j](idx[1:]), k)
            out = v if out is None else s_ite(mkb(z(i) == j), v, out)
        return out
    return SArr.new((n,) + items[0]._shape, k, get)


def as_sarr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, MaskSel):
        return x.materialize()
    return from_nested(x)


# -------------------------------------------------------------------- broadcasting
def broadcast_shapes(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for i in range(nd):
        cur = 1
        for s in shapes:
            j = i - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if is_const(d) and d == 1:
                continue
            if is_const(cur) and cur == 1:
                cur = d
                continue
            if C.same(cur, d):
                continue
            if dims_equal(cur, d):
                if is_const(d):
                    cur = d
                continue
            if C.CTX.decide(req(d, 1)):
                continue
            if C.CTX.decide(req(cur, 1)):
                cur = d
                continue
            raise ValueError("operands could not be broadcast together")
        out.append(cur)
    return out


def broadcast_reader(a, shape, assign=False):
    """reader of a broadcast to shape; raises ValueError if impossible"""
    nd = len(shape)
    ash = a._shape
    if len(ash) > nd:
        extra = ash[:len(ash) - nd]
        if not all(C.CTX.decide(req(d, 1)) for d in extra):
            raise ValueError("could not broadcast input array")
    off = nd - len(ash)
    fixed = []
    for j, d in enumerate(ash):
        t = j + off
        if t < 0:
            fixed.append(True)
            continue
        s = shape[t]
        if is_const(d) and d == 1:
            fixed.append(True)
        elif C.same(d, s):
            fixed.append(False)
        elif dims_equal(d, s):
            fixed.append(False)
        elif C.CTX.decide(req(d, 1)):
            fixed.append(True)
        else:
            raise ValueError("could not broadcast input array")
    r = a.reader()

    def get(idx):
        return r(tuple(0 if f else idx[j + off] for j, f in enumerate(fixed)))
    return get


def ew(f, kind, *args, cast=True):
    """elementwise f over broadcast args; kind: result kind or callable(kinds)"""
    arrs = []
    masks = [a for a in args if isinstance(a, MaskSel)]
    if masks:
        return mask_ew(f, kind, *args)
    for a in args:
        arrs.append(a if (is_scalar(a) and not isinstance(a, np.ndarray)) else as_sarr(a))
    sh = broadcast_shapes([a._shape for a in arrs if isinstance(a, SArr)] or [()])
    rds, kinds = [], []
    for a in arrs:
        if isinstance(a, SArr):
            rds.append(broadcast_reader(a, sh))
            kinds.append(a.kind)
        else:
            rds.append((lambda v: (lambda idx: v))(a))
            kinds.append(C.kind_of(a))
    k = kind(kinds) if callable(kind) else kind
    if not sh:
        v = f(*[r(()) for r in rds])
        return cast_cell(v, k) if cast else v
    return SArr.new(sh, k, lambda idx: cast_cell(f(*[r(idx) for r in rds]), k))


def k_arith(ks): return C.kmax(*["i" if k == "b" else k for k in ks])
def k_div(ks):
    k = k_arith(ks)
    return "f" if k == "i" else k
def k_bool(ks): return "b"


_NAMED = {}


def ew_named(f, a, b):
    return ew(f, _NAMED.get(f, k_arith), a, b)


def s_bitand(a, b):
    if isinstance(a, (SBool, bool, np.bool_)) or isinstance(b, (SBool, bool, np.bool_)):
        return mkb(b_and(raw_bool(a), raw_bool(b)))
    raise Unsupported("integer &")


def s_bitor(a, b):
    if isinstance(a, (SBool, bool, np.bool_)):
        return mkb(b_or(raw_bool(a), raw_bool(b)))
    raise Unsupported("integer |")


def s_bitxor(a, b):
    return mkb(z3.Xor(C.zb(a), C.zb(b)))


for _f, _k in ((C.s_add, k_arith), (C.s_sub, k_arith), (C.s_mul, k_arith), (C.s_div, k_div), (C.s_floordiv, k_arith),
               (C.s_mod, k_arith), (C.s_lt, k_bool), (C.s_le, k_bool), (C.s_gt, k_bool), (C.s_ge, k_bool),
               (C.s_eq, k_bool), (C.s_ne, k_bool), (s_bitand, k_bool), (s_bitor, k_bool), (s_bitxor, k_bool)):
    _NAMED[_f] = _k


def k_pow(ks):
    return C.kmax(*["i" if k == "b" else k for k in ks])


def k_pow_v(a, b):
    # int ** negative float -> float ; handled by kinds
    return k_pow


_NAMED[C.s_pow] = k_pow


def _okarg(o):
    return isinstance(o, (SArr, MaskSel, np.ndarray, list, tuple)) or is_scalar(o)


def _mk_bin(f, swap=False):
    def op(self, o):
        if not _okarg(o):
            return NotImplemented
        return ew_named(f, o, self) if swap else ew_named(f, self, o)
    return op


def _mk_inplace(f):
    def op(self, o):
        r = ew_named(f, self, o)
        if not isinstance(r, (SArr, MaskSel)):
            if self.ndim == 0:
                self.assign(r)
                return self
            raise Unsupported("inplace")
        order = "bifc"
        if order.index(r.kind) > order.index(self.kind):
            raise TypeError(f"Cannot cast ufunc output from {r.kind} to {self.kind} with casting rule 'same_kind'")
        if r.ndim != self.ndim:
            raise ValueError("non-broadcastable output operand")
        for a, b in zip(r._shape, self._shape):
            if not dims_equal(a, b):
                raise ValueError("non-broadcastable output operand")
        self.assign(r)
        self.prov = None
        return self
    return op


for _n, _f in (("add", C.s_add), ("sub", C.s_sub), ("mul", C.s_mul), ("truediv", C.s_div), ("floordiv", C.s_floordiv),
               ("mod", C.s_mod), ("pow", C.s_pow), ("and", s_bitand), ("or", s_bitor), ("xor", s_bitxor)):
    setattr(SArr, f"__{_n}__", _mk_bin(_f))
    setattr(SArr, f"__r{_n}__", _mk_bin(_f, True))
    setattr(SArr, f"__i{_n}__", _mk_inplace(_f))
for _n, _f in (("lt", C.s_lt), ("le", C.s_le), ("gt", C.s_gt), ("ge", C.s_ge), ("eq", C.s_eq), ("ne", C.s_ne)):
    setattr(SArr, f"__{_n}__", _mk_bin(_f))
SArr.__neg__ = lambda self: ew(C.s_neg, k_arith, self)
SArr.__pos__ = lambda self: self.copy()
SArr.__abs__ = lambda self: ew(C.s_abs, lambda ks: "f" if ks[0] == "c" else ks[0], self)
SArr.__invert__ = lambda self: ew(C.s_not, "b", self)
SArr.__hash__ = object.__hash__


# -------------------------------------------------------------------- masked selections
class MaskSel:
    """x[mask]: lazy; only pointwise use and reductions are supported"""
    __array_ufunc__ = None
    _sym_array_ = True

    def __init__(self, arr, vax, mask, rd=None, kind=None):
        self.arr, self.vax, self.mask = arr, vax, mask
        self.rd = rd or arr.reader()
        self.kind = kind or arr.kind

    @property
    def dtype(self):
        return C.DT[self.kind]

    @property
    def ndim(self):
        return self.arr.ndim - self.mask.ndim + 1

    def _m(self):
        mr, v, nd = self.mask.reader(), self.vax, self.mask.ndim
        return lambda idx: mr(idx[v:v + nd])

    @property
    def shape(self):
        m = self.mask
        cnt = reduce_sum(m.astype(bool) if m.kind == "b" else m, None, False)
        sh = list(self.arr._shape)
        sh[self.vax:self.vax + m.ndim] = [raw_int(C.s_cast(cnt, "i"))]
        return tuple(wrapi(d) for d in sh)

    @property
    def _shape(self):
        return tuple(dim_raw(d) for d in self.shape)

    @property
    def size(self):
        out = 1
        for d in self._shape:
            out = rmul(out, d)
        return wrapi(out)

    def materialize(self):
        # fully decided masks of small concrete length
        m = self.mask
        if m.ndim == 1 and isinstance(m._shape[0], int) and m._shape[0] <= 16:
            keep = [i for i in range(m._shape[0]) if C.CTX.decide(raw_bool(m.get((i,))))]
            rd, v = self.rd, self.vax
            sh = self.arr._shape[:v] + (len(keep),) + self.arr._shape[v + 1:]

            def get(idx):
                i = idx[v]
                if isinstance(i, int):
                    return rd(idx[:v] + (keep[i],) + idx[v + 1:])
                out = None
                for j in reversed(range(len(keep))):
                    x = rd(idx[:v] + (keep[j],) + idx[v + 1:])
                    out = x if out is None else s_ite(mkb(z(i) == j), x, out)
                return out
            return SArr.new(sh, self.kind, get)
        raise Unsupported("materialised mask selection")

    def assign_to(self, value):
        m = self._m()
        if isinstance(value, MaskSel):
            if not masks_same(self.mask, value.mask):
                raise Unsupported("different masks")
            r = value.rd
            tmp = SArr.new(self.arr._shape, value.kind, r)
            self.arr.assign(tmp, mask=m)
        elif is_scalar(value):
            self.arr.assign(value, mask=m)
        else:
            a = as_sarr(value)
            if a.ndim == 0 or all(isinstance(d, int) and d == 1 for d in a._shape):
                self.arr.assign(a.get(tuple(0 for _ in a._shape)), mask=m)
                return
            # broadcasting over non-masked axes only
            tail = self.arr.ndim - (self.vax + self.mask.ndim)
            if a.ndim <= tail:
                self.arr.assign(a, mask=m)
                return
            mm = self.materialize_index()
            if mm is not None:
                self.arr[(slice(None),) * self.vax + (mm,)] = value
                return
            raise Unsupported("mask assignment of a sequence")

    def materialize_index(self):
        m = self.mask
        if m.ndim == 1 and isinstance(m._shape[0], int) and m._shape[0] <= 16:
            return [i for i in range(m._shape[0]) if C.CTX.decide(raw_bool(m.get((i,))))]
        return None

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        # adding axes / ellipsis only, after the mask axes (mask on axis 0)
        if self.vax == 0 and all(k is None or k is Ellipsis or (isinstance(k, slice) and k == slice(None)) for k in key):
            nd0 = self.mask.ndim
            tail_old = self.arr.ndim - nd0
            # number of newaxes appended at end
            news = 0
            for k in reversed(key):
                if k is None:
                    news += 1
                else:
                    break
            if any(k is None for k in key[:len(key) - news]):
                raise Unsupported("mask newaxis")
            rd = self.rd
            n_old = self.arr.ndim
            sh = tuple(self.arr._shape) + (1,) * news
            arr = SArr.new(sh, self.kind, lambda idx: rd(idx[:n_old]))
            return MaskSel(arr, 0, self.mask)
        return self.materialize()[key if len(key) > 1 else key[0]]

    def copy(self):
        return MaskSel(self.arr, self.vax, self.mask, self.rd, self.kind)

    def _full(self):
        return SArr.new(self.arr._shape, self.kind, self.rd)

    def sum(self, axis=None, keepdims=False):
        m, rd = self._m(), self.rd
        zero = 0 if self.kind in "ib" else Fraction(0)
        full = SArr.new(self.arr._shape, k_arith([self.kind]), lambda idx: s_ite(m(idx), rd(idx), zero))
        if axis is None:
            return reduce_sum(full, None, keepdims)
        if self.mask.ndim != 1:
            raise Unsupported("sum over multi-axis mask")
        return reduce_sum(full, axis, keepdims)

    def mean(self, axis=None):
        s = self.sum(axis)
        if axis is not None and axis % self.ndim != self.vax:
            return s / self.arr.shape[axis]
        n = self.size if axis is None else self.shape[axis]
        return s / n

    def max(self, axis=None):
        return self.materialize().max(axis)

    def min(self, axis=None):
        return self.materialize().min(axis)

    def __len__(self):
        return C.concretize_int(self._shape[0])

    def __iter__(self):
        return iter(self.materialize())

    def astype(self, dt):
        k = C.kind_of_dtype(dt)
        rd = self.rd
        return MaskSel(self.arr, self.vax, self.mask, lambda idx: cast_cell(rd(idx), k), k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.materialize(), n)


def masks_same(a, b):
    if a is b:
        return True
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not C.CTX.entails(z3.BoolVal(True) if C.same(x, y) else z(x) == z(y)):
            return False
    ctx = C.CTX
    idx = tuple(z3.Int(f"mk!{i}") for i in range(a.ndim))
    ctx.push(*[z3.And(i >= 0, i < z(n)) for i, n in zip(idx, a._shape)])
    ctx.nofork += 1
    try:
        e = C.zb(a.get(idx)) == C.zb(b.get(idx))
        return ctx.entails(e)
    finally:
        ctx.nofork -= 1
        ctx.pop()


def mask_ew(f, kind, *args):
    ms = [a for a in args if isinstance(a, MaskSel)]
    m0 = ms[0]
    for m in ms[1:]:
        if not masks_same(m0.mask, m.mask) or m.vax != m0.vax:
            # fall back to materialised arrays
            return ew(f, kind, *[a.materialize() if isinstance(a, MaskSel) else a for a in args])
    full = []
    for a in args:
        if isinstance(a, MaskSel):
            full.append(a._full())
        elif is_scalar(a):
            full.append(a)
        else:
            s = as_sarr(a)
            tail = m0.arr.ndim - (m0.vax + m0.mask.ndim)
            if s.ndim > tail and not (s.ndim == 1 and isinstance(s._shape[0], int) and s._shape[0] == 1):
                return ew(f, kind, *[x.materialize() if isinstance(x, MaskSel) else x for x in args])
            full.append(s)
    r = ew(f, kind, *full)
    return MaskSel(r, m0.vax, m0.mask)


for _n, _f in (("add", C.s_add), ("sub", C.s_sub), ("mul", C.s_mul), ("truediv", C.s_div), ("pow", C.s_pow),
               ("and", s_bitand), ("or", s_bitor)):
    setattr(MaskSel, f"__{_n}__", _mk_bin(_f))
    setattr(MaskSel, f"__r{_n}__", _mk_bin(_f, True))
for _n, _f in (("lt", C.s_lt), ("le", C.s_le), ("gt", C.s_gt), ("ge", C.s_ge), ("eq", C.s_eq), ("ne", C.s_ne)):
    setattr(MaskSel, f"__{_n}__", _mk_bin(_f))
MaskSel.__neg__ = lambda self: mask_ew(C.s_neg, k_arith, self)
MaskSel.__abs__ = lambda self: mask_ew(C.s_abs, lambda ks: "f" if ks[0] == "c" else ks[0], self)
MaskSel.__hash__ = object.__hash__


# -------------------------------------------------------------------- reductions
def norm_axis(axis, nd):
    axis = dim_raw(axis)
    if not -nd <= axis < nd:
        raise ValueError(f"axis {axis} is out of bounds")
    return axis % nd


def _reduce(a, axis, keepdims, fn, kind):
    """fn(n, elemfn) -> V"""
    if axis is None:
        f = a if a.ndim == 1 else None
        if a.ndim == 0:
            return a.get(())
        if f is None:
            r = None
            cur = a
            for _ in range(a.ndim):
                cur = _reduce(cur, 0, False, fn, kind)
            if keepdims:
                return SArr.const((1,) * a.ndim, cur)
            return cur
        axis = 0
    if isinstance(axis, tuple):
        axes = sorted([norm_axis(x, a.ndim) for x in axis], reverse=True)
        cur = a
        for x in axes:
            cur = _reduce(cur, x, True, fn, kind)
        if not keepdims:
            cur = cur.squeeze(tuple(axes)) if isinstance(cur, SArr) else cur
            if cur.ndim == 0:
                return cur.get(())
        return cur
    axis = norm_axis(axis, a.ndim)
    n = a._shape[axis]
    rd = a.reader()

    def get(idx):
        return fn(n, lambda k: rd(idx[:axis] + (k,) + idx[axis:]))
    if a.ndim == 1 and not keepdims:
        return cast_cell(get(()), kind)
    if keepdims:
        sh = a._shape[:axis] + (1,) + a._shape[axis + 1:]
        return SArr.new(sh, kind, lambda idx: cast_cell(fn(n, lambda k: rd(idx[:axis] + (k,) + idx[axis + 1:])), kind))
    return SArr.new(a._shape[:axis] + a._shape[axis + 1:], kind, lambda idx: cast_cell(get(idx), kind))


def reduce_sum(a, axis=None, keepdims=False):
    if isinstance(a, MaskSel):
        return a.sum(axis, keepdims)
    a = as_sarr(a)
    k = "i" if a.kind == "b" else a.kind
    if a.kind == "b":
        r = a.reader()
        a = SArr.new(a._shape, "i", lambda idx: C.s_num(r(idx)))
    return _reduce(a, axis, keepdims, lambda n, f: O.s_sum(n, f), k)


def reduce_mean(a, axis=None, keepdims=False):
    if isinstance(a, MaskSel):
        return a.mean(axis)
    a = as_sarr(a)
    s = reduce_sum(a, axis, keepdims)
    if axis is None:
        n = a.size
    elif isinstance(axis, tuple):
        n = 1
        for x in axis:
            n = n * a.shape[x]
    else:
        n = a.shape[norm_axis(axis, a.ndim)]
    return s / n


def _max_fn(sign, kind):
    def fn(n, f):
        if is_const(n):
            if n == 0:
                raise ValueError("zero-size array to reduction operation maximum which has no identity")
            if n <= 16:
                out = f(0)
                for i in range(1, n):
                    v = f(i)
                    out = C.s_max(out, v) if sign > 0 else C.s_min(out, v)
                return out
        elif not C.CTX.bound and not C.CTX.nofork:
            if not C.CTX.decide(z(n) >= 1):
                raise ValueError("zero-size array to reduction operation maximum which has no identity")
        t = O.r_max(n, lambda k: C.raw_real(f(k)), "MAX" if sign > 0 else "MIN")
        if kind == "i":
            return mk("i", z3.ToInt(t))
        return mk("f", t)
    return fn


def reduce_max(a, axis=None, keepdims=False, sign=1):
    if isinstance(a, MaskSel):
        a = a.materialize()
    a = as_sarr(a)
    if a.kind == "c":
        raise Unsupported("max of complex")
    # the shape check happens eagerly
    if axis is None and a.ndim >= 1:
        for d in a._shape:
            if is_const(d):
                if d == 0:
                    raise ValueError("zero-size array to reduction operation maximum which has no identity")
            elif not C.CTX.decide(z(d) >= 1):
                raise ValueError("zero-size array to reduction operation maximum which has no identity")
    return _reduce(a, axis, keepdims, _max_fn(sign, a.kind), a.kind)


def reduce_arg(a, axis=None, sign=1):
    if isinstance(a, MaskSel):
        a = a.materialize()
    a = as_sarr(a)

    def fn(n, f):
        if is_const(n) and n <= 12:
            best, bi = f(0), 0
            for i in range(1, n):
                v = f(i)
                c = C.s_gt(v, best) if sign > 0 else C.s_lt(v, best)
                bi = s_ite(c, i, bi)
                best = s_ite(c, v, best)
            return bi
        return mk("i", O.r_argmax(n, lambda k: C.raw_real(f(k)), "ARGMAX" if sign > 0 else "ARGMIN"))
    if axis is None and a.ndim > 1:
        raise Unsupported("flat argmax")
    if a.ndim == 1:
        n = a._shape[0]
        if not C.CTX.decide(rle(1, n)):
            raise ValueError("attempt to get argmax of an empty sequence")
    return _reduce(a, axis, False, fn, "i")


def reduce_all(a, axis=None):
    if is_scalar(a):
        return a
    if isinstance(a, MaskSel):
        m, rd = a._m(), a.rd
        a = SArr.new(a.arr._shape, "b", lambda idx: mkb(b_or(b_not(raw_bool(m(idx))), raw_bool(rd(idx)))))
    a = as_sarr(a)
    return _reduce(a, axis, False, lambda n, f: mkb(O.b_forall(n, lambda k: raw_bool(C.s_cast(f(k), "b")))), "b")


def reduce_any(a, axis=None):
    if is_scalar(a):
        return a
    r = reduce_all(ew(lambda v: C.s_not(C.s_cast(v, "b")), "b", a), axis)
    return ew(C.s_not, "b", r) if isinstance(r, SArr) else C.s_not(r)


def matmul(a, b):
    a, b = as_sarr(a), as_sarr(b)
    k = k_arith([a.kind, b.kind])
    if a.ndim == 1 and b.ndim == 1:
        if not dims_equal(a._shape[0], b._shape[0]):
            raise ValueError("matmul: Input operand 1 has a mismatch")
        ra, rb = a.reader(), b.reader()
        return cast_cell(O.s_sum(a._shape[0], lambda i: C.s_mul(ra((i,)), rb((i,)))), k)
    if a.ndim == 1:
        r = matmul(a[None, :], b)
        return r[0] if b.ndim == 2 else r[..., 0, :]
    if b.ndim == 1:
        r = matmul(a, b[:, None])
        return r[..., 0]
    n = a._shape[-1]
    if not dims_equal(n, b._shape[-2]):
        raise ValueError("matmul: Input operand 1 has a mismatch")
    batch = broadcast_shapes([a._shape[:-2], b._shape[:-2]])
    ra = broadcast_reader(a, list(batch) + list(a._shape[-2:]))
    rb = broadcast_reader(b, list(batch) + list(b._shape[-2:]))
    nb = len(batch)
    return SArr.new(tuple(batch) + (a._shape[-2], b._shape[-1]), k,
                    lambda idx: cast_cell(O.s_sum(n, lambda i: C.s_mul(ra(idx[:nb] + (idx[nb], i)), rb(idx[:nb] + (i, idx[nb + 1])))), k))


def reshape(a, shape, order="C"):
    if order != "C":
        raise Unsupported("reshape order")
    total = 1
    for d in a._shape:
        total = rmul(total, d)
    if any(is_const(s) and s == -1 for s in shape):
        known = 1
        for s in shape:
            if not (is_const(s) and s == -1):
                known = rmul(known, s)
        if is_const(known) and known == 1:
            miss = total
        else:
            # find matching dims
            rest = [d for d in a._shape]
            for s in shape:
                if is_const(s) and s == -1:
                    continue
                hit = next((i for i, d in enumerate(rest) if C.same(d, s)), None)
                if hit is None:
                    rest = None
                    break
                rest.pop(hit)
            if rest is not None:
                miss = 1
                for d in rest:
                    miss = rmul(miss, d)
            else:
                miss = raw_int(C.s_floordiv(mk("i", total), mk("i", known)))
        shape = [miss if (is_const(s) and s == -1) else s for s in shape]
    tot2 = 1
    for s in shape:
        tot2 = rmul(tot2, s)
    if not dims_equal(total, tot2):
        raise ValueError("cannot reshape array")
    # same shape modulo unit dims
    A = [d for d in a._shape if not (is_const(d) and d == 1)]
    B = [d for d in shape if not (is_const(d) and d == 1)]
    rd = a.reader()
    ash = a._shape
    if len(A) == len(B) and all(C.same(x, y) for x, y in zip(A, B)):
        pos_b = [i for i, d in enumerate(shape) if not (is_const(d) and d == 1)]
        key, j = [], 0

        def get(idx):
            out, j = [], 0
            for d in ash:
                if is_const(d) and d == 1:
                    out.append(0)
                else:
                    out.append(idx[pos_b[j]])
                    j += 1
            return rd(tuple(out))
        r = SArr.new(shape, a.kind, get)
        r.base = a
        return r

    def get(idx):
        flat = 0
        for s, i in zip(shape, idx):
            flat = radd(rmul(flat, s), i)
        out = []
        for d in reversed(ash[1:]):
            if is_const(flat) and is_const(d):
                out.append(flat % d)
                flat = flat // d
            else:
                out.append(fold(z(flat) % z(d)))
                flat = fold(z(flat) / z(d))
        out.append(flat)
        return rd(tuple(reversed(out)))
    r = SArr.new(shape, a.kind, get)
    r.base = a
    return r


def concatenate(arrs, axis=0):
    arrs = [as_sarr(a) for a in arrs]
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = norm_axis(axis, nd)
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for i in range(nd):
            if i != axis and not dims_equal(a._shape[i], arrs[0]._shape[i]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    k = kmaxb([a.kind for a in arrs])
    offs, o = [], 0
    for a in arrs:
        offs.append(o)
        o = radd(o, a._shape[axis])
    rds = [a.reader() for a in arrs]

    def get(idx):
        i = idx[axis]
        out = None
        for j in reversed(range(len(arrs))):
            if out is not None:
                c = rlt(i, offs[j + 1])
                if c is False:
                    continue
                if c is not True:
                    if C.CTX.entails(c):
                        c = True
                    elif C.CTX.entails(b_not(c)):
                        continue
                v = cast_cell(rds[j](idx[:axis] + (rsub(i, offs[j]),) + idx[axis + 1:]), k)
                out = v if c is True else s_ite(mkb(c), v, out)
            else:
                d = arrs[j]._shape[axis]
                if is_const(d) and d == 0 and j > 0:
                    continue
                if j > 0:
                    c = rle(offs[j], i)
                    if c is False or (c is not True and C.CTX.entails(b_not(c))):
                        continue
                out = cast_cell(rds[j](idx[:axis] + (rsub(i, offs[j]),) + idx[axis + 1:]), k)
        if out is None:
            out = cast_cell(rds[0](idx), k)
        return out
    sh = list(arrs[0]._shape)
    sh[axis] = o
    return SArr.new(sh, k, get)
