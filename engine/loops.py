"""Rule for `for` loops over a symbolic range.

The body is executed symbolically for an arbitrary iteration i.  What it does to
every pre-existing buffer, attribute and local is summarised by one of
  * disjoint writes      (solver-verified inverse of the cell -> iteration map),
  * last write           (write-before-read),
  * accumulation         (pre + SUM_i delta_i),
  * linear induction     (pre + c*i).
Anything else is Unsupported.
"""
from __future__ import annotations
from fractions import Fraction
import builtins
import numpy as np
import z3
from . import core as C
from . import ops as O
from . import arrays as A
from . import divmod as D
from .arrays import SArr, MaskSel, wrapi, dim_raw
from .core import (Unsupported, SNum, SBool, mk, parts, z, is_const, radd, rsub, rmul, rneg, rle, rlt, req, toreal,
                   b_and, b_or, b_not, fold, mkb, s_ite)


class UNDEF:
    def __repr__(self):
        return "<undefined>"


UNDEF = UNDEF()


class Poison:
    """value the loop rule could not describe; any use is unsupported"""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def __getattribute__(self, n):
        if n == "__class__":
            return Poison
        raise Unsupported("use of a loop-carried value without invariant: " + object.__getattribute__(self, "_why"))

    def _p(self, *a, **k):
        raise Unsupported("use of a loop-carried value without invariant: " + object.__getattribute__(self, "_why"))
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _p
    __getitem__ = __setitem__ = __len__ = __iter__ = __bool__ = __call__ = __iadd__ = _p
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __neg__ = __abs__ = _p
    __hash__ = object.__hash__


class SymIter:
    """iterable of symbolic length n with element function fn(raw i)"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def __iter__(self):
        n = C.concretize_int(self.n)
        for i in builtins.range(n):
            yield self.fn(i)


class SymRange(SymIter):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
        if is_const(step) and step == 1:
            n = rsub(hi, lo)
        else:
            pos = step > 0 if is_const(step) else C.CTX.decide(step > 0)
            if pos:
                n = fold((z(hi) - z(lo) + z(step) - 1) / z(step))
            else:
                n = fold((z(lo) - z(hi) + z(rneg(step)) - 1) / z(rneg(step)))
        if is_const(n):
            n = max(n, 0)
        elif not C.CTX.entails(z(n) >= 0):
            n = n if C.CTX.decide(z(n) >= 0) else 0
        super().__init__(n, lambda i: mk("i", radd(lo, rmul(step, i))))

    def __getitem__(self, k):
        return self.fn(A.norm_index(dim_raw(k), self.n))

    def __contains__(self, v):
        if not (is_const(self.step) and self.step == 1):
            raise Unsupported("in range")
        r = C.raw_int(v)
        return bool(mkb(b_and(rle(self.lo, r), rlt(r, self.hi))))


def as_symiter(x):
    if isinstance(x, SymIter):
        return x if not is_const(x.n) else None
    if isinstance(x, SArr) and x.ndim and not is_const(x._shape[0]):
        return SymIter(x._shape[0], lambda i: x[wrapi(i)])
    if isinstance(x, MaskSel):
        return as_symiter(x.materialize())
    return None


def s_range(*a):
    if all(isinstance(v, (int, np.integer)) for v in a):
        return builtins.range(*[int(v) for v in a])
    if len(a) == 1:
        lo, hi, st = 0, dim_raw(a[0]), 1
    else:
        lo, hi, st = dim_raw(a[0]), dim_raw(a[1]), dim_raw(a[2]) if len(a) > 2 else 1
    if is_const(lo) and is_const(hi) and is_const(st):
        return builtins.range(lo, hi, st)
    r = SymRange(lo, hi, st)
    if is_const(r.n):
        n = r.n
        return builtins.range(0) if n == 0 else SymIter(n, r.fn)
    return r


def s_enumerate(x, start=0):
    s = as_symiter(x)
    if s is None:
        return builtins.enumerate(x, start)
    return SymIter(s.n, lambda i: (mk("i", radd(start, i)), s.fn(i)))


def s_zip(*xs, strict=False):
    ss = [as_symiter(x) for x in xs]
    if all(s is None for s in ss):
        return builtins.zip(*xs)
    ns = []
    for x, s in zip(xs, ss):
        if s is not None:
            ns.append(s.n)
        elif isinstance(x, SArr):
            ns.append(x._shape[0])
        else:
            ns.append(len(x))
    n = ns[0]
    for m in ns[1:]:
        if not C.same(n, m) and not C.CTX.decide(rle(n, m)):
            n = m
    if is_const(n):
        return builtins.zip(*[([s.fn(i) for i in builtins.range(n)] if s is not None else x) for x, s in zip(xs, ss)])
    fns = [s.fn if s is not None else (lambda i, x=x: x[wrapi(i)]) for x, s in zip(xs, ss)]
    if any(s is None and not isinstance(x, SArr) for x, s in zip(xs, ss)):
        raise Unsupported("zip of symbolic and concrete iterables")
    return SymIter(n, lambda i: tuple(f(i) for f in fns))


def s_reversed(x):
    s = as_symiter(x)
    if s is None:
        return builtins.reversed(x)
    return SymIter(s.n, lambda i: s.fn(rsub(rsub(s.n, 1), i)))


_MAXSUB = 48


class Loop:
    """iterator driving one for-statement"""

    def __init__(self, it, tracked, targets):
        self.s = as_symiter(it)
        self.sym = self.s is not None
        self.tracked, self.targets = tracked, targets
        if not self.sym:
            self.it = iter(it)
            return
        ctx = C.CTX
        self.parent = ctx.loop_summ
        self.n = self.s.n
        self.empty = not ctx.decide(z(self.n) >= 1)
        self.state = "init"

    # ------------------------------------------------ protocol used by the transformed code
    def enter(self, loc):
        if not self.sym:
            return
        self.pre = {t: loc.get(t, UNDEF) for t in self.tracked}
        self.pre_targets = {t: loc.get(t, UNDEF) for t in self.targets}
        self.containers = {}
        self._collect(loc, 0)

    def _collect(self, o, depth, seen=None):
        vals = o.values() if isinstance(o, dict) else o
        for v in list(vals):
            if isinstance(v, (list, dict)) and id(v) not in self.containers:
                self.containers[id(v)] = (v, list(v) if isinstance(v, list) else dict(v))
                if depth < 3 and len(v) < 200:
                    self._collect(v, depth + 1)
            elif type(v) is not Poison and hasattr(v, "__dict__") and not isinstance(v, type) and depth < 3 and type(v).__module__.startswith("symdsp"):
                self._collect(v.__dict__, depth + 1)

    def _check_containers(self):
        for v, snap in self.containers.values():
            if isinstance(v, list):
                if len(v) != len(snap) or any(a is not b for a, b in zip(v, snap)):
                    v[:] = snap
                    raise Unsupported("list mutated inside a loop of symbolic length")
            else:
                if len(v) != len(snap) or any(k not in v or v[k] is not snap[k] for k in snap):
                    v.clear()
                    v.update(snap)
                    raise Unsupported("dict mutated inside a loop of symbolic length")

    def __iter__(self):
        return self

    def __next__(self):
        if not self.sym:
            return next(self.it)
        if self.state == "init":
            if self.empty:
                self.finals = dict(self.pre)
                self.finals.update(self.pre_targets)
                raise StopIteration
            self._start()
            return self._begin_sub()
        if self.state == "running":
            # previous sub-path has been closed by end()/exc()
            nxt = self._next_prefix()
            if nxt is not None:
                self.prefix = nxt
                if len(self.outcomes) > _MAXSUB:
                    self._abort()
                    raise Unsupported("too many sub-paths in a loop body")
                return self._begin_sub()
            return self._phase_done()
        raise Unsupported("loop protocol")

    def get(self, name, cur):
        return self.cur.get(name, cur)

    def end(self, loc):
        if not self.sym:
            return
        try:
            self._check_containers()
        except Unsupported:
            self._abort()
            raise
        out = {t: loc.get(t, UNDEF) for t in self.tracked}
        for t in self.targets:
            out[t] = loc.get(t, UNDEF)
        self._close(out, None)

    def exc(self, e):
        if not self.sym:
            return False
        if isinstance(e, Unsupported) or not isinstance(e, Exception):
            self._abort()
            return False
        self._close(None, e)
        return True

    def brk(self):
        if self.sym:
            self._abort()
            raise Unsupported("break inside a loop of symbolic length")

    def ret(self, v):
        if self.sym:
            self._abort()
            raise Unsupported("return inside a loop of symbolic length")
        return v

    def final(self, name, cur):
        if not self.sym:
            return cur
        return self.finals.get(name, cur)

    # ------------------------------------------------ write hooks (called by Buf / attribute stores)
    def register(self, buf):
        pass

    def on_write(self, buf):
        if buf.uid <= self.uid0 and id(buf) not in self.written:
            self.written[id(buf)] = (buf, buf.get)
        if self.parent is not None:
            self.parent.on_write(buf)

    def on_setattr(self, obj, attr):
        d = getattr(obj, "__dict__", None)
        if d is not None and attr in d and (id(obj), attr) not in self.attrs:
            self.attrs[(id(obj), attr)] = (obj, attr, d[attr])
        if self.parent is not None:
            self.parent.on_setattr(obj, attr)

    # ------------------------------------------------ exploration of the body
    def _start(self):
        ctx = C.CTX
        nm = ctx.fresh("L")
        self.i = z3.Int(nm)
        ctx.loops.append(self.i)
        self.uid0 = ctx.counter.get("buf", 0)
        self.written, self.attrs = {}, {}
        self.phase = "discover"
        self.ind = {}            # induction variables: name -> (v0, step)
        self.cur = dict(self.pre)
        self._new_phase()

    def _new_phase(self):
        self.prefix, self.trail, self.outcomes = [], [], []
        self.state = "running"

    def _begin_sub(self):
        ctx = C.CTX
        self.trail = []
        ctx.loop_summ = self
        ctx.loopstack.append(self)
        ctx.push(self.i >= 0, self.i < z(self.n))
        self.npc0 = len(ctx.pc)
        ctx.witness_idx.append(self.i)
        if self.phase != "discover":
            for b, g in self.havoc_bufs:
                b.set_get(g)
            for o, a, v in self.havoc_attrs:
                o.__dict__[a] = v
        return self.s.fn(self.i)

    def _close(self, locs, e):
        ctx = C.CTX
        pcs = list(ctx.pc[self.npc0:])
        o = {"pc": pcs, "exc": e, "loc": locs}
        o["bufs"] = {k: b.get for k, (b, g) in self.written.items()}
        o["attrs"] = {k: obj.__dict__.get(a) for k, (obj, a, v) in self.attrs.items()}
        self.outcomes.append(o)
        self._unwind()

    def _unwind(self):
        ctx = C.CTX
        ctx.witness_idx.pop()
        ctx.pop()
        ctx.loopstack.pop()
        ctx.loop_summ = self.parent
        for b, g in self.written.values():
            b.set_get_raw(g)
        for (obj, a, v) in self.attrs.values():
            obj.__dict__[a] = v

    def _abort(self):
        if self.state == "running" and C.CTX.loop_summ is self:
            self._unwind()
        self.state = "dead"

    def _next_prefix(self):
        t = [list(x) for x in self.trail]
        while t:
            v, o = t.pop()
            if o:
                t.append([not v, False])
                return t
        return None

    def _phase_done(self):
        if self.phase == "discover":
            self._setup_havoc()
            self.phase = "havoc"
            self._new_phase()
            return self._begin_sub()
        again = self._induction()
        if again:
            self._new_phase()
            return self._begin_sub()
        self._summarise()
        self.state = "done"
        raise StopIteration

    # ------------------------------------------------ havoc
    def _fresh_val(self, v, nm):
        if isinstance(v, (SNum, int, float, Fraction, np.integer, np.floating)) and not isinstance(v, bool):
            k = C.kind_of(v)
            if k == "i":
                return mk("i", z3.Int(C.CTX.fresh("HV_" + nm)))
            if k == "c":
                return mk("c", z3.Real(C.CTX.fresh("HV_" + nm)), z3.Real(C.CTX.fresh("HVi_" + nm)))
            return mk("f", z3.Real(C.CTX.fresh("HV_" + nm)))
        if v is UNDEF or v is None or isinstance(v, (bool, str)):
            return Poison(nm)
        return Poison(nm)

    def _setup_havoc(self):
        self.havoc_bufs, self.hfun = [], {}
        for k, (b, g) in self.written.items():
            nm = C.CTX.fresh("HB")
            nd = len(b.shape)
            if b.kind == "b":
                f = (z3.Function(nm, *([z3.IntSort()] * nd + [z3.BoolSort()])),)
                g2 = lambda idx, f=f: mkb(f[0](*[z(i) for i in idx]))
            elif b.kind == "c":
                f = (z3.Function(nm, *([z3.IntSort()] * nd + [z3.RealSort()])),
                     z3.Function(nm + "i", *([z3.IntSort()] * nd + [z3.RealSort()])))
                g2 = lambda idx, f=f: mk("c", f[0](*[z(i) for i in idx]), f[1](*[z(i) for i in idx]))
            else:
                f = (z3.Function(nm, *([z3.IntSort()] * nd + [z3.IntSort() if b.kind == "i" else z3.RealSort()])),)
                g2 = lambda idx, f=f, kd=b.kind: mk(kd, f[0](*[z(i) for i in idx]))
            self.hfun[k] = f
            self.havoc_bufs.append((b, g2))
        self.havoc_attrs, self.hattr = [], {}
        for k, (obj, a, v) in self.attrs.items():
            fv = self._fresh_val(v, a)
            self.hattr[k] = fv
            self.havoc_attrs.append((obj, a, fv))
        self.hloc = {}
        assigned = set()
        for o in self.outcomes:
            if o["loc"]:
                for t in self.tracked:
                    if o["loc"][t] is not self.pre[t]:
                        assigned.add(t)
        self.assigned = assigned
        self.cur = dict(self.pre)
        for t in self.tracked:
            if t in assigned:
                self.hloc[t] = self._fresh_val(self.pre[t], t)
                self.cur[t] = self.hloc[t]

    def _induction(self):
        """recognise v' = v + c and restart with closed forms"""
        again = False
        for t in list(self.hloc):
            h = self.hloc[t]
            if not isinstance(h, SNum) or h.kind == "c":
                continue
            steps = []
            for o in self.outcomes:
                if o["exc"] is not None:
                    continue
                v = o["loc"][t]
                if not isinstance(v, (SNum, int, Fraction)) or isinstance(v, bool):
                    steps = None
                    break
                steps.append(rsub(parts(v)[1], h.re) if C.kind_of(v) == h.kind or C.kind_of(v) in "if" else None)
            if not steps or any(s is None for s in steps):
                continue
            s0 = steps[0]
            if not is_const(s0):
                s0 = fold(z3.simplify(s0))
            if not all(C.same(s0, s if is_const(s) else fold(z3.simplify(s))) for s in steps):
                continue
            if not is_const(s0):
                if O.contains(s0, self.i) or any(O.contains(s0, hh.re) for hh in self.hloc.values() if isinstance(hh, SNum)) \
                        or "HB" in str(s0):
                    continue
            v0 = self.pre[t]
            val = mk(h.kind, radd(parts(v0)[1], rmul(s0, self.i)))
            self.ind[t] = (v0, s0)
            self.cur[t] = val
            del self.hloc[t]
            again = True
        return again

    # ------------------------------------------------ summaries
    def _mentions(self, e, allow=()):
        """does a raw term mention havoc symbols"""
        if is_const(e) or isinstance(e, bool):
            return False
        names = set()
        for k, f in self.hfun.items():
            for g in f:
                names.add(g.name())
        for h in list(self.hloc.values()) + list(self.hattr.values()):
            if isinstance(h, SNum):
                for q in (h.re, h.im):
                    if q is not None and not is_const(q):
                        names.add(q.decl().name())
        names -= set(allow)
        return self._has_names(e, names)

    def _has_names(self, e, names, seen=None):
        if not names:
            return False
        seen = set() if seen is None else seen
        stack = [e]
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                if nm in names:
                    return True
                d = C.CTX.ops.get(nm)
                if d is not None:
                    od = d[0]
                    for x in list(od.scalars) + list(od.out):
                        stack.append(x)
                    for (nn, k, es) in od.vecs:
                        stack.append(nn)
                        stack.extend(es)
            stack.extend(t.children())
        return False

    def _eval(self, o, getter, idx, extra=()):
        ctx = C.CTX
        ctx.push(self.i >= 0, self.i < z(self.n), *o["pc"], *extra)
        ctx.nofork += 1
        try:
            return getter(idx)
        finally:
            ctx.nofork -= 1
            ctx.pop()

    def _pcs(self, o):
        return b_and(*o["pc"]) if o["pc"] else True

    def _summarise(self):
        ctx = C.CTX
        # exceptions raised by some iteration
        raising = [o for o in self.outcomes if o["exc"] is not None]
        normal = [o for o in self.outcomes if o["exc"] is None]
        for o in raising:
            c = self._pcs(o)
            if self._mentions(C.zb(c)):
                raise Unsupported("exception depends on loop-carried state")
            k = self.i
            noexc = O.b_forall(self.n, lambda j: C.zb(b_not(z3.substitute(C.zb(c), (k, z(j))))))
            if not ctx.decide(noexc):
                raise o["exc"]
        self.normal = normal
        if not normal:
            raise Unsupported("loop body never completes")
        newget = {}
        for k, (b, g) in self.written.items():
            newget[k] = self._buf_summary(k, b, g, normal)
        newattr = {}
        for k, (obj, a, v) in self.attrs.items():
            newattr[k] = self._val_summary(a, v, self.hattr[k], [(self._pcs(o), o["attrs"][k], o) for o in normal])
        fin = {}
        for t in self.tracked:
            if t in self.ind:
                v0, s = self.ind[t]
                fin[t] = mk(C.kind_of(v0), radd(parts(v0)[1], rmul(s, self.n)))
            elif t in self.hloc:
                fin[t] = self._val_summary(t, self.pre[t], self.hloc[t], [(self._pcs(o), o["loc"][t], o) for o in normal])
            else:
                fin[t] = self.pre[t]
        for t in self.targets:
            fin[t] = self._val_summary(t, UNDEF, Poison(t), [(self._pcs(o), o["loc"][t], o) for o in normal])
        self.finals = fin
        for k, (b, g) in self.written.items():
            if self.parent is not None:
                self.parent.on_write(b)
            b.set_get(newget[k])
        for k, (obj, a, v) in self.attrs.items():
            if self.parent is not None:
                self.parent.on_setattr(obj, a)
            obj.__dict__[a] = newattr[k]

    def _last(self, e):
        """substitute i := n-1"""
        if is_const(e) or isinstance(e, bool):
            return e
        return z3.substitute(e, (self.i, z(rsub(self.n, 1))))

    def _val_summary(self, nm, pre, h, vals):
        """final value of a scalar/array local"""
        if all(v is vals[0][1] for _, v, _ in vals):
            v = vals[0][1]
            if v is h and isinstance(h, SNum):
                return pre
        kinds = [type(v) for _, v, _ in vals]
        num = lambda v: isinstance(v, (SNum, int, float, Fraction, np.integer, np.floating)) and not isinstance(v, bool)
        if all(num(v) for _, v, _ in vals):
            out = None
            for c, v, _ in reversed(vals):
                out = v if out is None else s_ite(mkb(C.zb(c)) if not isinstance(c, bool) else c, v, out)
            kd, re, im = parts(out)
            if not self._mentions(re) and not (im is not None and self._mentions(im)):
                return mk(kd, self._last(re), None if im is None else self._last(im))
            # accumulation
            if isinstance(h, SNum) and h.kind != "c" and num(pre):
                d = self._delta(toreal(re), toreal(h.re))
                if d is not None and not self._mentions(d):
                    k = self.i
                    s = O.r_sum(self.n, lambda j: d if is_const(d) else z3.substitute(d, (k, z(j))))
                    tot = radd(toreal(parts(pre)[1]), s)
                    if h.kind == "i" and kd == "i":
                        ii = C._as_int(tot)
                        return mk("i", ii if ii is not None else z3.ToInt(z(tot, True)))
                    return mk("f", tot)
                d = self._maxform(toreal(re), toreal(h.re))
            return Poison(nm)
        if all(isinstance(v, (bool, SBool)) for _, v, _ in vals):
            out = None
            for c, v, _ in reversed(vals):
                out = v if out is None else s_ite(mkb(C.zb(c)), v, out)
            e = C.zb(out)
            if not self._mentions(e):
                return mkb(self._last(e))
            return Poison(nm)
        if all(isinstance(v, SArr) for _, v, _ in vals) and len(vals) == 1:
            _, v, o = vals[0]
            sh = [self._last(d) for d in v._shape]
            if any(self._mentions(d) for d in v._shape if not is_const(d)):
                return Poison(nm)
            rd = v.reader()
            xs = [z3.Int(C.CTX.fresh("lx")) for _ in sh]
            C.CTX.loops.extend(xs)
            memo = {}

            def get(idx):
                if "v" not in memo:
                    val = self._eval(o, rd, tuple(xs), [z3.And(x >= 0, x < z(d)) for x, d in zip(xs, v._shape)])
                    memo["v"] = val
                kd = C.kind_of(memo["v"])
                sub = [(x, z(j)) for x, j in zip(xs, idx)] + [(self.i, z(rsub(self.n, 1)))]
                if kd == "b":
                    e = C.zb(memo["v"])
                    if self._mentions(e):
                        raise Unsupported("loop-carried array")
                    return mkb(z3.substitute(e, *sub))
                kd, re, im = parts(memo["v"])
                for q in (re, im):
                    if q is not None and self._mentions(q):
                        raise Unsupported("loop-carried array")
                f = lambda q: q if q is None or is_const(q) else z3.substitute(q, *sub)
                return mk(kd, f(re), f(im))
            return SArr.new(sh, v.kind, get)
        if all(v is vals[0][1] for _, v, _ in vals) and not isinstance(vals[0][1], (SNum, SArr, MaskSel)) \
                and isinstance(vals[0][1], (str, type(None))):
            return vals[0][1]
        return Poison(nm)

    def _maxform(self, e, h):
        return None

    def _delta(self, e, h):
        """e == h + d (through ite) -> d"""
        if C.same(e, h):
            return Fraction(0)
        if is_const(e):
            return None
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            a, b = self._delta(fold(e.arg(1)), h), self._delta(fold(e.arg(2)), h)
            if a is None or b is None:
                return None
            return C.rite(e.arg(0), a, b)
        if z3.is_add(e):
            ch = [fold(x) for x in e.children()]
            for j, x in enumerate(ch):
                d = self._delta(x, h)
                if d is not None:
                    out = d
                    for q in ch[:j] + ch[j + 1:]:
                        out = radd(out, q)
                    return out
        if z3.is_sub(e) and e.num_args() == 2:
            d = self._delta(fold(e.arg(0)), h)
            if d is not None:
                return rsub(d, fold(e.arg(1)))
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
            i = e.arg(0)
            if z3.is_add(i):
                return self._delta(z3.Sum([z3.ToReal(c) for c in i.children()]), h)
        return None

    def _leaves(self, e, hs, guard, out):
        if not is_const(e) and z3.is_app_of(e, z3.Z3_OP_ITE):
            c = e.arg(0)
            self._leaves(fold(e.arg(1)), hs, guard + [c], out)
            self._leaves(fold(e.arg(2)), hs, guard + [z3.Not(c)], out)
            return
        out.append((guard, e))

    def _buf_summary(self, key, b, pre, normal):
        ctx = C.CTX
        xs = tuple(z3.Int(ctx.fresh("bx")) for _ in b.shape)
        ctx.loops.extend(xs)      # operators built over a cell position are functions of it
        rng = [z3.And(x >= 0, x < z(d)) for x, d in zip(xs, b.shape)]
        fs = self.hfun[key]
        hterms = [f(*xs) for f in fs]
        merged = None
        for o in reversed(normal):
            v = self._eval(o, o["bufs"][key], xs, rng)
            merged = v if merged is None else s_ite(mkb(C.zb(self._pcs(o))), v, merged)
        if b.kind == "b":
            comps = [C.zb(merged)]
        else:
            kd, re, im = parts(merged)
            comps = [re] if b.kind != "c" else [toreal(re), toreal(im if im is not None else Fraction(0))]
        results = []
        for comp, h in zip(comps, hterms):
            results.append(self._comp_summary(comp, h, xs, rng, b, pre, len(results)))

        def get(idx):
            vals = [r(idx) for r in results]
            if b.kind == "b":
                return mkb(vals[0])
            if b.kind == "c":
                return mk("c", vals[0], vals[1])
            return mk(b.kind, vals[0])
        return get

    def _pre_comp(self, pre, idx, b, comp):
        v = pre(idx)
        if b.kind == "b":
            return C.zb(v)
        kd, re, im = parts(v)
        if b.kind == "c":
            return toreal(re) if comp == 0 else toreal(im if im is not None else Fraction(0))
        return re if b.kind == "i" else toreal(re)

    def _comp_summary(self, e, h, xs, rng, b, pre, comp):
        ctx = C.CTX
        leaves = []
        self._leaves(e, h, [], leaves)
        kinds = []
        for g, v in leaves:
            if not is_const(v) and v.eq(h):
                kinds.append(("keep", g, None))
            elif is_const(v) or not self._mentions(v):
                kinds.append(("set", g, v))
            else:
                d = None
                if b.kind in "fc":
                    d = self._delta(v, h)
                if d is None or self._mentions(d):
                    # reading its own cell or another cell written by other iterations
                    kinds.append(("own", g, v))
                else:
                    kinds.append(("acc", g, d))
        gm = any(self._mentions(z3.And(*g)) for _, g, _ in kinds if g)
        if gm:
            raise Unsupported("guard of a write depends on loop-carried data")
        types = {k for k, _, _ in kinds}
        i, n = self.i, self.n
        inr = z3.And(i >= 0, i < z(n))
        if types <= {"keep"}:
            return lambda idx: self._pre_comp(pre, idx, b, comp)
        if types <= {"keep", "acc"}:
            d = Fraction(0)
            for k, g, v in kinds:
                if k == "acc":
                    d = radd(d, C.rite(z3.And(*g) if g else True, v, Fraction(0)))

            def get(idx):
                sub = [(x, z(j)) for x, j in zip(xs, idx)]
                s = O.r_sum(n, lambda j: d if is_const(d) else z3.substitute(d, (i, z(j)), *sub))
                return radd(self._pre_comp(pre, idx, b, comp), s)
            # disjoint accumulations (each cell touched once) get the simpler form below
            cand = self._inverse([g for k, g, _ in kinds if k == "acc"], xs, rng)
            if cand is None:
                return get
            kinds = [("keep", g, None) if k == "keep" else ("own", g, radd(h, v)) for k, g, v in kinds]
            types = {k for k, _, _ in kinds}
        W = [g for k, g, _ in kinds if k in ("set", "own")]
        cand = self._inverse(W, xs, rng)
        wcond = z3.Or(*[z3.And(*g) if g else z3.BoolVal(True) for g in W])
        if cand is not None:
            # by disjointness the written cell still holds its pre-loop value
            body = None
            for k, g, v in reversed(kinds):
                vv = h if k == "keep" else v
                body = vv if body is None else C.rite(z3.And(*g) if g else True, vv, body) if b.kind != "b" else z3.If(
                    z3.And(*g) if g else z3.BoolVal(True), C.zb(vv), C.zb(body))
            # v may mention h (own cell) or other cells of havoc buffers
            others = self._other_mentions(body, h)
            if others:
                body = self._resolve_others(body, h, xs, rng, wcond, b, pre, comp)
            pw = wcond

            def get(idx):
                c = z3.substitute(cand, *[(x, z(j)) for x, j in zip(xs, idx)]) if not is_const(cand) else z(cand)
                sub = [(x, z(j)) for x, j in zip(xs, idx)] + [(i, c)]
                cond = z3.substitute(z3.And(inr, pw), *sub)
                if D.has_dm(cond):
                    D.add_facts(c, ctx)
                    cond = D.simp(cond, ctx)
                cond = z3.simplify(cond)
                p = self._pre_comp(pre, idx, b, comp)
                if z3.is_false(cond):
                    return p
                val = z3.substitute(z(body) if not z3.is_bool(body) else body, *sub)
                if D.has_dm(val):
                    val = D.simp(val, ctx)
                hx = z3.substitute(h, *sub)
                val = z3.substitute(val, (hx, z(p) if b.kind == "i" else (p if b.kind == "b" else z(p, True))))
                if z3.is_true(cond) or ctx.entails(cond):
                    return fold(val) if b.kind != "b" else val
                if ctx.entails(z3.Not(cond)):
                    return p
                return C.rite(cond, fold(val), p) if b.kind != "b" else z3.If(cond, val, p)
            return get
        # last write wins when the written cells do not depend on the iteration
        if types <= {"keep", "set"} and not self._has_names(wcond, {i.decl().name()}):
            body = None
            for k, g, v in reversed(kinds):
                vv = h if k == "keep" else v
                if b.kind == "b":
                    body = C.zb(vv) if body is None else z3.If(z3.And(*g) if g else z3.BoolVal(True), C.zb(vv), body)
                else:
                    body = vv if body is None else C.rite(z3.And(*g) if g else True, vv, body)

            def get(idx):
                sub = [(x, z(j)) for x, j in zip(xs, idx)] + [(i, z(rsub(n, 1)))]
                p = self._pre_comp(pre, idx, b, comp)
                if is_const(body):
                    return body
                val = z3.substitute(body, *sub)
                hx = z3.substitute(h, *sub)
                return z3.substitute(val, (hx, p if b.kind == "b" else (z(p) if b.kind == "i" else z(p, True))))
            return get
        raise Unsupported("loop-carried array update (recurrence)")

    def _other_mentions(self, body, h):
        if is_const(body):
            return False
        t = z3.substitute(body, (h, z3.FreshConst(h.sort(), "own")))
        return self._mentions(t)

    def _resolve_others(self, body, h, xs, rng, wcond, b, pre, comp):
        """reads of other cells: allowed when no iteration writes those cells before the read (never written)"""
        ctx = C.CTX
        # collect applications of havoc functions
        apps, seen, stack = [], set(), [body]
        names = {f.name(): (k, c) for k, fs in self.hfun.items() for c, f in enumerate(fs)}
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in names and not t.eq(h):
                apps.append(t)
            stack.extend(t.children())
        # a cell that only later iterations write still holds its value from before the loop
        key = next(k for k, fs in self.hfun.items() if any(f.name() == h.decl().name() for f in fs))
        i, n = self.i, self.n
        subs = []
        j = z3.Int(ctx.fresh("lj"))
        for t in apps:
            k, cmp_ = names[t.decl().name()]
            if k != key:
                raise Unsupported("loop reads cells of another written array")
            args = list(t.children())
            if any(self._mentions(q) for q in args):
                raise Unsupported("loop reads cells written by other iterations")
            wj = z3.substitute(wcond, *list(zip(xs, args)), (i, j))
            ctx.push(i >= 0, i < z(n), j >= 0, j < i, *rng, wcond)
            try:
                ok = ctx.entails(z3.Not(wj))
            finally:
                ctx.pop()
            if not ok:
                raise Unsupported("loop reads cells written by other iterations")
            ctx.push(i >= 0, i < z(n), *rng, wcond)
            ctx.nofork += 1
            try:
                p = self._pre_comp(pre, tuple(fold(q) for q in args), b, cmp_)
            finally:
                ctx.nofork -= 1
                ctx.pop()
            subs.append((t, p if b.kind == "b" else (z(p) if b.kind == "i" else z(p, True))))
        return z3.substitute(body if z3.is_expr(body) else z(body), *subs)
    def _inverse(self, guards, xs, rng):
        """find s(x) with  write-guard(i,x) /\\ 0<=i<n  =>  i == s(x)"""
        ctx = C.CTX
        i, n = self.i, self.n
        cands, seen = [], set()
        W = z3.Or(*[z3.And(*g) if g else z3.BoolVal(True) for g in guards])
        stack, vis = [W], set()
        atoms, vis_terms = [], []
        while stack:
            t = stack.pop()
            if t.get_id() in vis:
                continue
            vis.add(t.get_id())
            vis_terms.append(t)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD:
                continue
            if z3.is_eq(t) or z3.is_le(t) or z3.is_ge(t) or z3.is_lt(t) or z3.is_gt(t):
                if t.arg(0).sort() == z3.IntSort():
                    atoms.append(t)
                    stack.extend(t.children())
            else:
                stack.extend(t.children())
        modc = []
        for t in vis_terms:
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD and O.contains(t.arg(0), i) and not O.contains(t.arg(1), i):
                e, d = t.arg(0), t.arg(1)
                coef = fold(z3.simplify(z3.substitute(e, (i, i + 1)) - e, som=True))
                e0 = z3.simplify(z3.substitute(e, (i, z3.IntVal(0))))
                if is_const(coef) and abs(coef) == 1:
                    c = z3.simplify((e0 if coef == -1 else -e0) % d)
                    modc.append((c, t, d))
        for t in atoms:
            d = t.arg(0) - t.arg(1)
            if not O.contains(d, i):
                continue
            coef = fold(z3.simplify(z3.substitute(d, (i, i + 1)) - d))
            if not is_const(coef):
                coef = fold(z3.simplify(z(coef), som=True))
            d0 = z3.simplify(z3.substitute(d, (i, z3.IntVal(0))))
            if is_const(coef):
                if coef == 0:
                    continue
                if abs(coef) == 1:
                    c = z3.simplify(-d0 if coef == 1 else d0)
                    cands.append(c)
                else:
                    num = -d0 if coef > 0 else d0
                    cands.append(z3.simplify(num / abs(coef)))
                    cands.append(z3.simplify((num + abs(coef) - 1) / abs(coef)))
            elif not O.contains(coef, i):
                cands.append(z3.simplify((-d0) / coef))
                cands.append(z3.simplify(d0 / (-coef)))
        uniq = []
        for c in cands:
            if O.contains(c, i) or any(c.eq(u) for u in uniq):
                continue
            uniq.append(c)
        # number-theoretic lemma: 0 <= i < d and (e -+ i) mod d == 0  =>  i == (+-e) mod d
        for c, t, d in modc:
            ctx.push(*rng)
            try:
                s = ctx.solver
                s.set("timeout", 3000)
                tm = z3.Int(ctx.fresh("mm"))
                W2 = z3.substitute(W, (t, tm))
                ok = ctx.check(W2, tm != 0, i >= 0, i < z(n)) == z3.unsat and ctx.check(i >= 0, i < z(n), i >= d) == z3.unsat \
                    and ctx.entails(d > 0)
                s.set("timeout", ctx.decide_ms)
            finally:
                ctx.pop()
            if ok:
                return c
        for c in uniq[:10]:
            ctx.push(*rng)
            try:
                s = ctx.solver
                s.set("timeout", 3000)
                r = ctx.check(W, i >= 0, i < z(n), i != c)
                s.set("timeout", ctx.decide_ms)
            finally:
                ctx.pop()
            if r == z3.unsat:
                return c
        if is_const(n) and n == 1:
            return z3.IntVal(0)
        return None
