"""Contract API: one contract text is used three ways
  * SymC  - symbolic execution of the current source, obligations for the prover,
  * ConC  - concrete evaluation against the unmodified package (replay, cross-check,
            bounded stand-in).
"""
from __future__ import annotations
import builtins
import math
from fractions import Fraction
import numpy as np
import z3
from . import core as C
from . import ops as O
from . import arrays as A
from .core import Unsupported, SNum, SBool, mk, parts, z, is_const, rle, rlt, req, b_and, b_or, b_not, mkb, toreal
from .arrays import SArr, MaskSel

CONTRACTS = {}


class Contract:
    def __init__(self, prop, name, fn, targets, sym, bounded, trials, note, tol, sym_timeout, max_paths):
        self.prop, self.name, self.fn, self.targets = prop, name, fn, targets
        self.sym, self.bounded, self.trials, self.note, self.tol = sym, bounded, trials, note, tol
        self.sym_timeout, self.max_paths = sym_timeout, max_paths
        self.id = f"{prop}.{name}"


def contract(prop, targets=(), sym=True, bounded=None, trials=60, note="", tol=1e-6, sym_timeout=240, max_paths=400, observed_by=()):
    """bounded: None when every parameter is unbounded, else a text naming the bound;
    observed_by: contracts that observe the same promise from outside, through calls only. A contract about the representation (internal state)
    with observers reports a violation only when an observer fails: another representation with the same behaviour is no violation."""
    def deco(fn):
        c = Contract(prop, fn.__name__, fn, list(targets), sym, bounded, trials, note, tol, sym_timeout, max_paths)
        c.observed_by = tuple(observed_by)
        if c.id in CONTRACTS:
            raise ValueError("duplicate contract " + c.id)
        CONTRACTS[c.id] = c
        return fn
    return deco


class Reject(Exception):
    pass


class Failed(Exception):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label, self.detail = label, detail


class Stop(BaseException):
    """stop exploring the current path after a decisive failure"""


def _scal(v):
    return isinstance(v, (SNum, SBool, bool, int, float, complex, Fraction, np.generic))


# =================================================================== symbolic
class SymC:
    symbolic = True

    def __init__(self, ctx, dsp, report):
        from . import npproxy as N
        self.ctx, self.dsp, self.report = ctx, dsp, report
        self.np = N.NP
        from . import sciproxy
        self.sci = sciproxy.REG["scipy.signal"]
        self.simpson = sciproxy.simpson
        self.nreq = 0

    # ---- inputs
    def dim(self, name, lo=1, hi=None, typ=None):
        v = z3.Int(name)
        self.ctx.inputs[name] = ("int", v)
        self.ctx.add(v >= (lo if isinstance(lo, int) else z(C.raw_int(lo))))
        if hi is not None:
            self.ctx.add(v <= (hi if isinstance(hi, int) else z(C.raw_int(hi))))
        return mk("i", v)

    int = dim

    def bool(self, name):
        return self.choice(name, [False, True])

    def real(self, name, lo=None, hi=None, open=False, typ=None):
        v = z3.Real(name)
        self.ctx.inputs[name] = ("real", v)
        if lo is not None:
            l = z(C.raw_real(lo), True)
            self.ctx.add(v > l if open else v >= l)
        if hi is not None:
            h = z(C.raw_real(hi), True)
            self.ctx.add(v < h if open else v <= h)
        return mk("f", v)

    def complex(self, name):
        r, i = z3.Real(name + ".re"), z3.Real(name + ".im")
        self.ctx.inputs[name] = ("complex", r, i)
        return mk("c", r, i)

    def array(self, name, shape, kind="f", lo=None, hi=None, open=False, style=None):
        sh = [A.dim_raw(s) for s in shape]
        S = [z3.IntSort()] * len(sh)
        ctx = self.ctx
        if kind == "c":
            f = (z3.Function(name + ".re", *S, z3.RealSort()), z3.Function(name + ".im", *S, z3.RealSort()))

            def get(idx):
                ts = [f[0](*[z(i) for i in idx]), f[1](*[z(i) for i in idx])]
                for t in ts:
                    cs = ([t >= z(parts(lo)[1], True)] if lo is not None else []) + ([t <= z(parts(hi)[1], True)] if hi is not None else [])
                    if cs:
                        ctx.axiom(("in", t.get_id()), z3.And(*cs))
                return mk("c", *ts)
        elif kind == "b":
            f = (z3.Function(name, *S, z3.BoolSort()),)
            get = lambda idx: mkb(f[0](*[z(i) for i in idx]))
        else:
            f = (z3.Function(name, *S, z3.IntSort() if kind == "i" else z3.RealSort()),)

            def get(idx):
                t = f[0](*[z(i) for i in idx])
                if lo is not None or hi is not None:
                    cs = []
                    if lo is not None:
                        l = z(parts(lo)[1], kind == "f")
                        cs.append(t > l if open else t >= l)
                    if hi is not None:
                        h = z(parts(hi)[1], kind == "f")
                        cs.append(t < h if open else t <= h)
                    ctx.axiom(("in", t.get_id()), z3.And(*cs))
                return mk(kind, t)
            if lo is not None or hi is not None:
                ctx.input_bounds[f[0].name()] = (lo, hi, open)
        ctx.inputs[name] = ("array", kind, f, sh)
        return SArr.new(sh, kind, get)

    def sorted(self, name, n, lo=None, gap=0):
        """a strictly increasing vector (the order of every pair of entries that is read is a hypothesis)"""
        n = A.dim_raw(n)
        f = z3.Function(name, z3.IntSort(), z3.RealSort())
        ctx = self.ctx
        self.ctx.inputs[name] = ("array", "f", (f,), [n])

        lo_ = None if lo is None else z(parts(lo)[1], True)
        ctx.sorted_fns[name] = (z(n), lo_)

        def get(idx):
            i = z3.simplify(z(idx[0]))
            t = f(i)
            seen = ctx.op_memo.setdefault(("sorted", name), {})
            sid = ctx.scope_ids[-1]
            old = seen.get(t.get_id())
            if old is None or old[2] not in ctx.scope_ids:
                for (j, u, sc) in list(seen.values()):
                    if sc in ctx.scope_ids and not u.eq(t):
                        ctx.axiom(("srt", t.get_id(), u.get_id()), O.sorted_pair(z(n), i, t, j, u))
                if lo_ is not None:
                    ctx.axiom(("in", t.get_id()), z3.Implies(z3.And(i >= 0, i < z(n)), t >= lo_))
                seen[t.get_id()] = (i, t, sid)
            return mk("f", t)
        return SArr.new((n,), "f", get)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            self.ctx.inputs[name] = ("choice", 0)
            return options[0]
        v = z3.Int("choice_" + name)
        self.ctx.inputs[name] = ("choicevar", v)
        self.ctx.add(z3.And(v >= 0, v < len(options)))
        for j in range(len(options) - 1):
            if self.ctx.decide(v == j):
                return options[j]
        return options[-1]

    small = choice

    def expand(self, n):
        """filters applied to at most n samples are replaced by their difference equation"""
        self.ctx.expand = n

    def requires(self, *conds):
        for cond in conds:
            if isinstance(cond, SArr):
                raise Unsupported("array precondition")
            e = cond.e if isinstance(cond, SBool) else cond
            self.ctx.add(e if not isinstance(e, (bool, np.bool_)) else z3.BoolVal(builtins.bool(e)))
        if self.ctx.check() == z3.unsat:
            raise C.Infeasible()

    # ---- spec helpers
    def arr(self, shape, fn, kind=None):
        sh = [A.dim_raw(s) for s in shape]
        if kind is None:
            xs = tuple(z3.Int(self.ctx.fresh("sp")) for _ in sh)
            self.ctx.push(*[z3.And(x >= 0, x < z(d)) for x, d in zip(xs, sh)])
            try:
                kind = C.kind_of(fn(*[mk("i", x) for x in xs]))
            finally:
                self.ctx.pop()
        return SArr.new(sh, kind, lambda idx: A.cast_cell(fn(*[mk("i", i) for i in idx]), kind))

    def where(self, cond, a, b):
        if isinstance(cond, SBool):
            return C.s_ite(cond, a, b)
        return a if cond else b

    def _site(self, path):
        mod, name = path.split(":")
        o = self.dsp
        for q in mod.split("."):
            o = getattr(o, q)
        if not hasattr(o, name):
            raise C.Unsupported(f"no {path} to put under an assumed contract")
        return o, name

    def opaque(self, path, shape):
        """assumed contract: module:function is a function of its arguments' values only.
        ``shape(args)`` (args: the bound arguments) lists the outputs as (shape, kind)"""
        import inspect
        from . import npproxy as N
        o, name = self._site(path)
        f0 = getattr(o, name)
        f0 = getattr(f0, "_vf_real", f0)
        sig = inspect.signature(f0)

        def fn(*a, **kw):
            b = sig.bind(*a, **kw)
            b.apply_defaults()
            extra, scal, vecs = [], [], []
            for k, v in b.arguments.items():
                if isinstance(v, SArr):
                    sh = v._shape
                    flat = v.reshape(-1) if v.ndim != 1 else v
                    rd = flat.reader()
                    vecs.append(N.comp_vec(lambda i, rd=rd: rd((i,)), flat._shape[0]))
                    scal += list(sh)
                elif isinstance(v, (SNum, SBool)):
                    kd, re, im = parts(v)
                    scal += [re] + ([im] if kd == "c" else [])
                else:
                    extra.append(f"{k}={v!r}")
            outs = []
            for q, (sh, kd) in builtins.enumerate(shape(b.arguments)):
                def el(idx, q=q, kd=kd):
                    t = O.op_term(f"{name}.{q}", scal, vecs, list(idx), ncomp=2 if kd == "c" else 1, extra=tuple(extra), int_result=kd == "i")
                    return mk("c", t[0], t[1]) if kd == "c" else mk(kd, t[0])
                outs.append(SArr.new([A.dim_raw(d) for d in sh], kd, el) if sh is not None else el(()))
            return outs[0] if len(outs) == 1 else tuple(outs)
        fn._vf_real = f0
        setattr(o, name, fn)

    def stub(self, path, fn):
        """replace module:function (symbolic runs only; used for plotting)"""
        o, name = self._site(path)
        setattr(o, name, fn)

    def case(self, cond):
        """fork on a condition (python truth value)"""
        return builtins.bool(cond)

    def sum(self, n, fn, lo=0):
        return O.s_sum(A.dim_raw(n), lambda k: fn(mk("i", k)), A.dim_raw(lo))

    def maxof(self, n, fn):
        return mk("f", O.r_max(A.dim_raw(n), lambda k: C.raw_real(fn(mk("i", k)))))

    def minof(self, n, fn):
        return mk("f", O.r_max(A.dim_raw(n), lambda k: C.raw_real(fn(mk("i", k))), "MIN"))

    def all_(self, n, fn):
        return mkb(O.b_forall(A.dim_raw(n), lambda k: C.raw_bool(fn(mk("i", k)))))

    def and_(self, *a): return mkb(b_and(*a))
    def or_(self, *a): return mkb(b_or(*a))
    def not_(self, a): return mkb(b_not(a))
    def implies(self, a, b): return mkb(b_or(b_not(a), b))
    def min(self, a, b): return C.s_min(a, b)
    def max(self, a, b): return C.s_max(a, b)
    def toint(self, x): return C.s_trunc(x)
    def floor(self, x): return C.s_cast(C.s_floor(x), "i")
    def ceil(self, x): return C.s_cast(C.s_ceil(x), "i")

    def ceil_div(self, a, b): return (a + b - 1) // b

    def copy(self, a):
        return a.copy() if hasattr(a, "copy") else a

    snap = copy

    # ---- obligations
    def _oblige(self, label, goal):
        self.report.obligation(self.ctx, label, goal)

    def ensure(self, label, cond):
        if isinstance(cond, SArr):
            return self.eq(label, cond, self.arr(cond.shape, lambda *i: True, "b"))
        e = cond.e if isinstance(cond, SBool) else cond
        if not isinstance(e, (bool, np.bool_, z3.BoolRef)):
            e = builtins.bool(e)
        self._oblige(label, e)
        if isinstance(e, z3.BoolRef):
            self.ctx.add(e)          # assert, then assume

    def _cmp(self, label, a, b):
        bb = lambda v: isinstance(v, (SBool, bool, np.bool_))
        if bb(a) and bb(b):
            self._oblige(label, C.zb(a) == C.zb(b) if not (isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_))) else a == b)
            return
        ka, ra, ia = parts(a)
        kb, rb, ib = parts(b)
        self._oblige(label, req(ra, rb))
        if "c" in (ka, kb):
            i1 = ia if ia is not None else Fraction(0)
            i2 = ib if ib is not None else Fraction(0)
            self._oblige(label + ".im", req(i1, i2))

    def eq(self, label, a, b, tol=None):
        for x in (a, b):
            if isinstance(x, (list, tuple)):
                pass
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))) or (not _scal(a) and not isinstance(a, (SArr, MaskSel, np.ndarray, list, tuple))):
            self._oblige(label, a is b or (type(a) is type(b) and builtins.bool(a == b)))
            return
        if _scal(a) and _scal(b):
            return self._cmp(label, a, b)
        if _scal(b) and not _scal(a):
            a = A.as_sarr(a)
            b = SArr.const(a._shape, b)
        a, b = A.as_sarr(a), A.as_sarr(b)
        if a.ndim != b.ndim:
            self._oblige(label + ".ndim", False)
            return
        for j, (x, y) in enumerate(zip(a._shape, b._shape)):
            if not (is_const(x) and is_const(y) and x == y):
                self._oblige(f"{label}.shape{j}", req(x, y))
        self.forall(label, b.shape, lambda *i: (a.get(tuple(A.dim_raw(k) for k in i)), b.get(tuple(A.dim_raw(k) for k in i))))

    def shape(self, label, a, shape):
        if a.ndim != len(shape):
            self._oblige(label + ".ndim", False)
            return
        for j, (x, y) in enumerate(zip(a._shape, shape)):
            self._oblige(f"{label}.shape{j}", req(x, A.dim_raw(y)))

    def forall(self, label, ranges, fn, when=None):
        ctx = self.ctx
        sk, conds = [], []
        for r in ranges:
            n = A.dim_raw(r)
            if is_const(n) and n <= 0:
                return
            if is_const(n) and n == 1:
                sk.append(0)
                continue
            s = z3.Int(ctx.fresh("sk"))
            conds.append(z3.And(s >= 0, s < z(n)))
            sk.append(mk("i", s))
        raws = [A.dim_raw(s) for s in sk]
        ctx.push(*conds)
        nw = len(ctx.witness_idx)
        ctx.witness_idx += [z(r) for r in raws if not is_const(r)]
        try:
            if conds and ctx.check() == z3.unsat:
                return
            if when is not None:
                w = when(*sk)
                e = w.e if isinstance(w, SBool) else w
                if e is False:
                    return
                if e is not True:
                    ctx.add(e)
                    if ctx.check() == z3.unsat:
                        return
            v = fn(*sk)
            if isinstance(v, tuple):
                self._cmp(label, *v)
            else:
                self._oblige(label, C.zb(v))
        finally:
            del ctx.witness_idx[nw:]
            ctx.pop()

    def hint(self, *idx):
        """extra instantiation points for the reductions in the current obligations"""
        self.ctx.witness_idx += [z(A.dim_raw(i)) for i in idx]

    def raises(self, label, excs, fn):
        try:
            fn()
        except excs:
            self._oblige(label, True)
            return
        self._oblige(label, False)

    def unchanged(self, label, a, snap):
        self.eq(label, a, snap)

    def exact(self, label, a, b):
        self.eq(label, a, b)

    def close(self, label, a, b, tol):
        self.eq(label, a, b)

    def reach(self):
        """the point must be reachable (non-vacuity)"""
        self.report.reached()

    def elems(self, a):
        return a


# =================================================================== concrete
class ConC:
    symbolic = False

    def __init__(self, dsp, rng, inputs=None, tol=1e-6, big=False):
        self.dsp, self.rng, self.given = dsp, rng, inputs or {}
        self.np = np
        import scipy.signal
        self.sci = scipy.signal
        from scipy.integrate import simpson
        self.simpson = simpson
        self.inputs = {}
        self.fails = []
        self.tol = tol
        self.n_checks = 0
        self.style = rng.choice(["normal", "normal", "normal", "ints", "sparse", "alt"])
        self.big = big

    def _rec(self, name, v):
        self.inputs[name] = v
        return v

    def dim(self, name, lo=1, hi=None, typ=None):
        if name in self.given:
            return self._rec(name, int(self.given[name]))
        lo = int(lo)
        top = lo + 8 if hi is None else int(hi)
        if typ is not None:
            t0, t1 = typ
            if self.rng.random() < 0.8:
                lo2, hi2 = max(lo, t0), min(t1, top if hi is not None else t1)
                if hi2 >= lo2:
                    return self._rec(name, int(self.rng.integers(lo2, hi2 + 1)))
        if hi is None:
            r = self.rng.random()
            top = lo + (3 if r < 0.35 else 10 if r < 0.8 else 40)
        if top < lo:
            raise Reject()
        return self._rec(name, int(self.rng.integers(lo, top + 1)))

    int = dim

    def bool(self, name):
        return self.choice(name, [False, True])

    def real(self, name, lo=None, hi=None, open=False, typ=None):
        if name in self.given:
            return self._rec(name, float(self.given[name]))
        l = -5.0 if lo is None else float(lo)
        h = (l + 10.0 if hi is None else float(hi))
        if lo is None and hi is not None:
            l = h - 10.0
        if typ is not None and self.rng.random() < 0.8:
            l, h = float(typ[0]), float(typ[1])
        r = self.rng.random()
        if not open and r < 0.06 and lo is not None:
            v = l
        elif not open and r < 0.12 and hi is not None:
            v = h
        elif lo is None and hi is None and r < 0.15:
            v = float(self.rng.choice([0.0, 1.0, -1.0]))
        else:
            v = float(self.rng.uniform(l, h))
            if open and (v <= l or v >= h):
                v = 0.5 * (l + h)
        return self._rec(name, v)

    def complex(self, name):
        if name in self.given:
            v = self.given[name]
            return self._rec(name, complex(v[0], v[1]) if isinstance(v, (list, tuple)) else complex(v))
        return self._rec(name, complex(self.rng.normal(), self.rng.normal()))

    def array(self, name, shape, kind="f", lo=None, hi=None, open=False, style=None):
        sh = tuple(int(s) for s in shape)
        if name in self.given:
            v = self.given[name]
            a = np.asarray(v, dtype={"f": float, "i": int, "c": complex, "b": bool}[kind])
            if a.shape == sh:
                return self._rec(name, a.copy()).copy()
        r = self.rng
        if kind == "b":
            a = r.random(sh) < 0.5
        elif kind == "i":
            a = r.integers(-5 if lo is None else int(lo), (6 if hi is None else int(hi)) + (0 if hi is None else 1), sh)
        elif lo is not None or hi is not None:
            l = float(lo) if lo is not None else float(hi) - 10
            h = float(hi) if hi is not None else float(lo) + 10
            a = r.uniform(l, h, sh)
            if kind == "c":
                a = a + 1j * r.uniform(l, h, sh)
            if open:
                a = np.clip(a, l + 1e-9 * max(1, abs(h - l)), h - 1e-9 * max(1, abs(h - l)))
        else:
            st = style or self.style
            a = r.normal(0, 1, sh)
            if st == "ints":
                a = r.integers(-4, 5, sh).astype(float)
            elif st == "sparse":
                a = a * (r.random(sh) < 0.4)
            elif st == "alt":
                a = a * float(r.choice([0.05, 3.0]))
            if kind == "c":
                b = r.normal(0, 1, sh)
                if st == "ints":
                    b = r.integers(-4, 5, sh).astype(float)
                a = a + 1j * b
        return self._rec(name, a.copy()).copy()

    def sorted(self, name, n, lo=None, gap=0):
        n = int(n)
        if name in self.given:
            a = np.asarray(self.given[name], dtype=float)
            if a.shape == (n,):
                if np.any(np.diff(a) <= 0) or (lo is not None and np.any(a < lo)):
                    raise Reject()
                return self._rec(name, a.copy()).copy()
        r = self.rng
        st = r.choice(["lin", "log", "other"])
        start = (0.0 if lo is None else float(lo)) + (0.0 if r.random() < 0.3 else float(r.uniform(0.5, 20)))
        if st == "lin":
            a = start + np.arange(n) * float(r.uniform(0.5, 40))
        elif st == "log":
            a = (start + 1.0) * float(r.uniform(1.1, 2)) ** np.arange(n)
        else:
            a = start + np.cumsum(r.uniform(0.3, 40, n))
        return self._rec(name, a.copy()).copy()

    def choice(self, name, options):
        options = list(options)
        if name in self.given:
            j = int(self.given[name])
        else:
            j = int(self.rng.integers(0, len(options)))
        self._rec(name, j)
        return options[j]

    small = choice

    def expand(self, n): pass

    def requires(self, *conds):
        for cnd in conds:
            if not builtins.bool(cnd):
                raise Reject()

    def arr(self, shape, fn, kind=None):
        sh = tuple(int(s) for s in shape)
        out = None
        for idx in np.ndindex(*sh):
            v = fn(*idx)
            if out is None:
                dt = {"f": float, "i": int, "c": complex, "b": bool}[kind] if kind else (
                    complex if np.iscomplexobj(v) else bool if isinstance(v, (bool, np.bool_)) else int if isinstance(v, (int, np.integer)) else float)
                if dt is int and kind is None:
                    dt = float
                out = np.zeros(sh, dt)
            if np.iscomplexobj(v) and not np.iscomplexobj(out):
                out = out.astype(complex)
            out[idx] = v
        return np.zeros(sh) if out is None else out

    def where(self, cond, a, b): return a if cond else b
    def opaque(self, path, shape): pass
    def stub(self, path, fn): pass
    def case(self, cond): return builtins.bool(cond)
    def sum(self, n, fn, lo=0): return builtins.sum((fn(k) for k in range(int(lo), int(n))), 0.0)
    def maxof(self, n, fn): return builtins.max(fn(k) for k in range(int(n)))
    def minof(self, n, fn): return builtins.min(fn(k) for k in range(int(n)))
    def all_(self, n, fn): return builtins.all(fn(k) for k in range(int(n)))
    def and_(self, *a): return builtins.all(a)
    def or_(self, *a): return builtins.any(a)
    def not_(self, a): return not a
    def implies(self, a, b): return (not a) or builtins.bool(b)
    def min(self, a, b): return builtins.min(a, b)
    def max(self, a, b): return builtins.max(a, b)
    def toint(self, x): return builtins.int(x)
    def floor(self, x): return builtins.int(math.floor(x))
    def ceil(self, x): return builtins.int(math.ceil(x))

    def ceil_div(self, a, b): return (a + b - 1) // b

    def copy(self, a):
        return np.array(a, copy=True) if isinstance(a, np.ndarray) else a

    snap = copy

    def _fail(self, label, detail=""):
        self.fails.append((label, str(detail)[:400]))

    def ensure(self, label, cond):
        self.n_checks += 1
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not builtins.bool(cond):
            self._fail(label, "condition is false")

    def eq(self, label, a, b, tol=None):
        self.n_checks += 1
        tol = self.tol if tol is None else tol
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            if not (a is b or a == b):
                self._fail(label, f"{a!r} != {b!r}")
            return
        if not _scal(a) and not isinstance(a, (np.ndarray, list, tuple)):
            if not (a is b or a == b):
                self._fail(label, f"{a!r} != {b!r}")
            return
        a_, b_ = np.asarray(a), np.asarray(b)
        if not (_scal(b) and not _scal(a)) and a_.shape != b_.shape:
            self._fail(label + ".shape", f"{a_.shape} != {b_.shape}")
            return
        if a_.size == 0:
            return
        if a_.dtype == bool or b_.dtype == bool:
            if not np.all(a_ == b_):
                self._fail(label, f"{a_} != {b_}")
            return
        fa, fb = np.isfinite(a_), np.isfinite(b_)
        scale = 0.0
        for q, f in ((a_, fa), (b_, fb)):
            if np.any(f):
                scale = builtins.max(scale, float(np.max(np.abs(q[f]))))
        with np.errstate(all="ignore"):
            d = np.abs(a_ - b_)
            bad = ~(d <= tol * builtins.max(scale, 1e-9))
            bad &= ~((~fa) & (~fb) & ((a_ == b_) | (np.isnan(a_) & np.isnan(b_))))
        if np.any(bad):
            j = np.argmax(np.where(np.broadcast_to(bad, np.broadcast(a_, b_).shape), 1, 0))
            bb = np.broadcast_to(b_, np.broadcast(a_, b_).shape)
            aa = np.broadcast_to(a_, bb.shape)
            self._fail(label, f"index {np.unravel_index(j, bb.shape)}: got {aa.flat[j]!r}, expected {bb.flat[j]!r}")

    def shape(self, label, a, shape):
        self.n_checks += 1
        if tuple(a.shape) != tuple(int(s) for s in shape):
            self._fail(label + ".shape", f"{a.shape} != {shape}")

    def forall(self, label, ranges, fn, when=None):
        rr = [int(r) for r in ranges]
        tot = 1
        for r in rr:
            tot *= max(r, 0)
        L, R = [], []
        for idx in np.ndindex(*[max(r, 0) for r in rr]):
            if when is not None and not when(*idx):
                continue
            v = fn(*idx)
            if isinstance(v, tuple):
                L.append(v[0])
                R.append(v[1])
            else:
                self.n_checks += 1
                if not builtins.bool(v):
                    self._fail(label, f"false at {idx}")
                    return
        if L:
            self.eq(label, np.array(L), np.array(R))

    def hint(self, *idx): pass

    def raises(self, label, excs, fn):
        self.n_checks += 1
        try:
            fn()
        except excs:
            return
        except Exception as e:
            self._fail(label, f"raised {type(e).__name__} instead")
            return
        self._fail(label, "no exception")

    def unchanged(self, label, a, snap):
        self.exact(label, a, snap)

    def exact(self, label, a, b):
        self.n_checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not np.array_equal(a, b):
            self._fail(label, "arrays differ")

    def close(self, label, a, b, tol):
        self.eq(label, a, b, tol)

    def reach(self):
        pass

    def elems(self, a):
        return a
