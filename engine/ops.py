"""Opaque operator terms (sum, max, fft, lfilter, ...) with congruence by skolem witnesses."""
from __future__ import annotations
from fractions import Fraction
import z3
from . import core as C
from .core import (Unsupported, mk, parts, z, toreal, is_const, radd, rmul, rneg, rsub, rle, rlt, req, b_and, fold)


class OpDef:
    __slots__ = ("name", "funcs", "params", "scalars", "vecs", "out", "extra")

    def __init__(self, name, funcs, params, scalars, vecs, out, extra=None):
        self.name, self.funcs, self.params = name, funcs, params
        self.scalars, self.vecs, self.out, self.extra = scalars, vecs, out, extra


_consts_cache = {}


def int_consts(e):
    """set of names of uninterpreted 0-ary Int consts in e"""
    if is_const(e):
        return frozenset()
    key = e.get_id()
    hit = _consts_cache.get(key)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    seen, out, stack = set(), set(), [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if not z3.is_app(t):
            stack.extend(t.children())
            continue
        if t.num_args() == 0:
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
        else:
            stack.extend(t.children())
    out = frozenset(out)
    _consts_cache[key] = (e, out)
    return out


def contains(e, var):
    return (not is_const(e)) and var.decl().name() in int_consts(e)


def zraw(x):
    """raw real/int -> z3 keeping sort"""
    if isinstance(x, (int, Fraction)):
        return z(x)
    return x


def bind(n, fn, lo=0):
    """evaluate fn(k) for a fresh canonical bound variable with lo <= k < n."""
    ctx = C.CTX
    k = z3.Int(f"k!{len(ctx.bound)}")
    ctx.push(z(lo) <= k, k < z(n))
    ctx.bound.append(k)
    try:
        v = fn(k)
    finally:
        ctx.bound.pop()
        ctx.pop()
    return k, v


def _params_in(exprs):
    ctx = C.CTX
    cand = list(ctx.bound) + [v for v in ctx.loops]
    names = set()
    for e in exprs:
        if not is_const(e):
            names |= int_consts(e)
    out = []
    for v in cand:
        if v.decl().name() in names and not any(v.eq(o) for o in out):
            out.append(v)
    return out


def op_term(name, scalars, vecs, out, ncomp=1, int_result=False, extra=None, bool_result=False):
    """scalars: raw values; vecs: list of (n, k, [exprs]) with k bound; out: raw index values.
    returns list of ncomp raw terms."""
    ctx = C.CTX
    sc = [zraw(s) for s in scalars]
    ou = [zraw(o) for o in out]
    vz = []
    for (n, k, es) in vecs:
        vz.append((zraw(n), k, [zraw(e) for e in es]))
    key = (name, ncomp, tuple(s.get_id() for s in sc), tuple(o.get_id() for o in ou),
           tuple((n.get_id(), k.get_id(), tuple(e.get_id() for e in es)) for n, k, es in vz), extra)
    hit = ctx.op_memo.get(key)
    if hit is not None:
        return hit[0]
    allx = sc + ou + [n for n, _, _ in vz]
    for n, k, es in vz:
        allx += es
    params = _params_in(allx)
    own = {k.decl().name() for _, k, _ in vz}
    params = [p for p in params if p.decl().name() not in own]
    # canonical bound names of enclosing binders are params; own bound variables are not
    fname = ctx.fresh(name + "#")
    rs = z3.BoolSort() if bool_result else (z3.IntSort() if int_result else z3.RealSort())
    funcs = [z3.Function(fname + (f".{i}" if ncomp > 1 else ""), *([p.sort() for p in params] + [rs])) for i in range(ncomp)]
    terms = [f(*params) if params else f() for f in funcs]
    d = OpDef(name, funcs, params, sc, vz, ou, extra)
    for i, f in enumerate(funcs):
        ctx.ops[f.name()] = (d, i)
    ctx.op_memo[key] = (terms, sc, ou, vz)
    return terms


def subst(e, pairs):
    if is_const(e) or not pairs:
        return e
    return z3.substitute(e, *pairs)


# ------------------------------------------------------------------ sums
def _split(e, k):
    """e -> list of (coef raw (k-free), atom z3 or None)"""
    e = fold(e)
    if is_const(e) or not contains(e, k):
        return [(e, None)]
    if z3.is_add(e):
        out = []
        for c in e.children():
            out += _split(c, k)
        return out
    if z3.is_sub(e):
        ch = e.children()
        out = _split(ch[0], k)
        for c in ch[1:]:
            out += [(rneg(q), a) for q, a in _split(c, k)]
        return out
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        return [(rneg(q), a) for q, a in _split(e.arg(0), k)]
    if z3.is_mul(e):
        free, dep = Fraction(1), []
        flat, st = [], list(reversed(e.children()))
        while st:
            c = st.pop()
            if z3.is_mul(c):
                st += reversed(c.children())
            elif z3.is_div(c) and contains(c, k) and not contains(c.arg(1), k):
                from .core import rdiv
                free = rdiv(free, c.arg(1))
                st.append(c.arg(0))
            else:
                flat.append(c)
        for c in flat:
            c = fold(c)
            if is_const(c) or not contains(c, k):
                free = rmul(free, c)
            else:
                dep.append(c)
        if len(dep) == 1:
            sp = _split(dep[0], k)
            return [(rmul(free, q), a) for q, a in sp]
        # distribute one sum factor when small
        for i, d in enumerate(dep):
            if z3.is_add(d) or z3.is_sub(d):
                others = dep[:i] + dep[i + 1:]
                out = []
                for q, a in _split_terms(d):
                    t = a
                    for o in others:
                        t = rmul(t, o)
                    out += [(rmul(rmul(free, q), qq), aa) for qq, aa in _split(z(t, True), k)]
                return out
        prod = dep[0]
        for d in sorted(dep[1:], key=lambda t: t.get_id()):
            prod = rmul(prod, d)
        prod = z(prod, True)
        if z3.is_mul(prod) or not contains(prod, k):
            return [(free, prod)]
        return [(free, prod)]
    if z3.is_div(e):
        num, den = e.arg(0), e.arg(1)
        if not contains(den, k):
            from .core import rdiv
            return [(rdiv(q, den), a) for q, a in _split(num, k)]
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c = e.arg(0)
        if not contains(c, k):
            return [(Fraction(1), e)]
        b = fold(e.arg(2))
        a = fold(e.arg(1))
        if is_const(b) and b == 0 and not is_const(a):
            # pull free factors out of the then-branch
            sp = _split(a, k)
            out = []
            for q, at in sp:
                at1 = z(Fraction(1)) if at is None else at
                out.append((q, z3.If(c, z(at1, True), z(Fraction(0)))))
            return out
    return [(Fraction(1), e)]


def _split_terms(d):
    out = []
    if z3.is_add(d):
        return [(Fraction(1), c) for c in d.children()]
    ch = d.children()
    return [(Fraction(1), ch[0])] + [(Fraction(-1), c) for c in ch[1:]]


def _tidy(e, k):
    """cancel the bound variable where possible and drop branches decided by the path condition"""
    if is_const(e):
        return e
    if not _has_ite(e):
        return e
    e = z3.simplify(e)
    memo = {}

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i][1]
        r = t
        if z3.is_app(t) and t.num_args():
            if z3.is_app_of(t, z3.Z3_OP_ITE) and not contains(t.arg(0), k):
                if C.CTX.entails(t.arg(0)):
                    r = go(t.arg(1))
                elif C.CTX.entails(z3.Not(t.arg(0))):
                    r = go(t.arg(2))
                else:
                    r = z3.If(t.arg(0), go(t.arg(1)), go(t.arg(2)))
            elif t.decl().kind() != z3.Z3_OP_UNINTERPRETED and _has_ite(t):
                r = t.decl()(*[go(c) for c in t.children()]) if not (z3.is_and(t) or z3.is_or(t) or z3.is_add(t) or z3.is_mul(t)) else \
                    {z3.Z3_OP_AND: lambda *a: z3.And(*a), z3.Z3_OP_OR: lambda *a: z3.Or(*a), z3.Z3_OP_ADD: lambda *a: z3.Sum(*a),
                     z3.Z3_OP_MUL: lambda *a: z3.Product(*a)}[t.decl().kind()](*[go(c) for c in t.children()])
        memo[i] = (t, r)
        return r
    return z3.simplify(go(e))


def _has_ite(e):
    seen, st = set(), [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return True
        st.extend(t.children())
    return False


def r_sum(n, fn, lo=0):
    """sum_{k=lo}^{n-1} fn(k), fn returns raw real"""
    if is_const(n) and is_const(lo) and n - lo <= 16:
        out = Fraction(0)
        for i in range(lo, n):
            out = radd(out, fn(i))
        return out
    if not (is_const(lo) and lo == 0):
        m = rsub(n, lo)
        return r_sum(m, lambda k: fn(radd(k, lo)))
    k, e = bind(n, lambda k: toreal(fn(k)))
    e = _tidy(e, k)
    total = Fraction(0)
    from collections import OrderedDict
    groups = OrderedDict()
    for q, a in _split(e, k):
        key = None if a is None else a.get_id()
        if key in groups:
            groups[key][0] = radd(groups[key][0], q)
        else:
            groups[key] = [q, a]
    for q, a in groups.values():
        if is_const(q) and q == 0:
            continue
        if a is None:
            nn = toreal(n)
            if not C.CTX.entails(z(n) >= 0):
                nn = C.rite(z(n) >= 0, nn, Fraction(0))
            total = radd(total, rmul(q, nn))
        else:
            t = _nested("SUM", n, k, a)
            if t is None:
                t = op_term("SUM", [], [(n, k, [a])], [])[0]
            total = radd(total, rmul(q, t))
    return total


def s_sum(n, fn, lo=0):
    """fn: raw idx -> V (scalar)"""
    probe_kind = None

    def re(k):
        return toreal(parts(fn(k))[1])

    def im(k):
        p = parts(fn(k))
        return toreal(p[2]) if p[0] == "c" else Fraction(0)
    if is_const(n) and is_const(lo) and n - lo <= 16:
        out = 0
        for i in range(lo, n):
            out = C.s_add(out, fn(i))
        return out
    _, v = bind(n, fn, lo)
    kd = parts(v)[0]
    if kd == "c":
        return mk("c", r_sum(n, re, lo), r_sum(n, im, lo))
    if kd == "i":
        s = r_sum(n, re, lo)
        ii = C._as_int(s) if not is_const(s) else s
        if ii is not None:
            return mk("i", int(ii) if is_const(ii) else ii)
        return mk("i", z3.ToInt(z(s, True)))
    return mk("f", r_sum(n, re, lo))


def _nested(name, n, k, t):
    """t, the body of a reduction over k < n, is itself the same reduction over an
    independent range: give the two ranges a canonical order"""
    if is_const(t) or not z3.is_app(t) or t.decl().name() not in C.CTX.ops:
        return None
    d, comp = C.CTX.ops[t.decl().name()]
    if d.name != name or len(d.vecs) != 1 or d.scalars or d.out:
        return None
    sub = list(zip(d.params, t.children()))
    n2, k2, es = d.vecs[0]
    n2 = subst(n2, sub)
    if contains(n2, k) or str(n2) <= str(z(n)) or k2.eq(k):
        return None
    body = subst(es[0], sub)

    def outer(a):
        kk, e = bind(n, lambda b: z3.substitute(body, (k, b), (k2, a)))
        return op_term(name, [], [(n, kk, [e])], [])[0]
    ko, eo = bind(n2, outer)
    return op_term(name, [], [(n2, ko, [eo])], [])[0]


def r_max(n, fn, which="MAX"):
    k, e = bind(n, lambda k: toreal(fn(k)))
    t = _nested(which, n, k, e)
    if t is not None:
        return t
    return op_term(which, [], [(n, k, [e])], [])[0]


def r_argmax(n, fn, which="ARGMAX"):
    k, e = bind(n, lambda k: toreal(fn(k)))
    t = op_term(which, [], [(n, k, [e])], [], int_result=True)[0]
    C.CTX.axiom(("am", t.get_id()), z3.Implies(z(n) >= 1, z3.And(t >= 0, t < z(n))))
    return t


def b_forall(n, fn):
    """forall k<n: fn(k) (z3 bool / bool) -> z3 Bool term"""
    if is_const(n) and n <= 16:
        return b_and(*[fn(i) for i in range(n)])
    k, e = bind(n, lambda k: C.zb(fn(k)))
    se = z3.simplify(e)
    if z3.is_true(se):
        return True
    if z3.is_false(se):
        return z(n) <= 0
    ctx = C.CTX
    sk = z3.Int(ctx.fresh("all"))
    ctx.push(sk >= 0, sk < z(n))
    try:
        if ctx.entails(C.zb(fn(sk))):
            return True
    finally:
        ctx.pop()
    t = op_term("ALL", [], [(n, k, [e])], [], bool_result=True)[0]
    return t


# ------------------------------------------------------------------ lemma instantiation
AX = {}


def _ax_sqrt(a):
    x = a.arg(0)
    return z3.Implies(x >= 0, z3.And(a >= 0, a * a == x))


AX["SQRT"] = _ax_sqrt


def _mkpow(E, L):
    def ae(a):
        r = a.arg(0)
        return z3.And(a > 0, L(a) == r, z3.Implies(r == 0, a == 1), z3.Implies(r > 0, a > 1), z3.Implies(r < 0, a < 1))

    def al(a):
        r = a.arg(0)
        return z3.Implies(r > 0, z3.And(E(a) == r, (r >= 1) == (a >= 0), (r == 1) == (a == 0)))
    return ae, al


for _E, _L in ((C.F_P10, C.F_L10), (C.F_EXP, C.F_LN), (C.F_P2, C.F_L2)):
    _a, _b = _mkpow(_E, _L)
    AX[_E.name()] = _a
    AX[_L.name()] = _b


_ANCHOR = {"POW10": (10, (-307, -30, -12, -6, -4, -3, -2, -1, 1, 2, 3, 4, 6)), "POW2": (2, (-20, -8, -2, -1, 1, 2, 3, 8, 20))}


def _mk_anchor(nm):
    base, ks = _ANCHOR[nm]

    def f(a):
        r = a.arg(0)
        if z3.is_rational_value(z3.simplify(r)):
            return None
        return z3.And(*[(r >= k) == (a >= z3.RealVal(Fraction(base) ** k)) for k in ks])
    return f


def _log_anchor(a):
    r = a.arg(0)
    return z3.And(*[z3.Implies(r > 0, (a >= k) == (r >= z3.RealVal(Fraction(10) ** k))) for k in (-6, -3, -1, 1, 3)])


ANCHOR = {n: _mk_anchor(n) for n in _ANCHOR}
ANCHOR["LOG10"] = _log_anchor


def _factors(e):
    """positive-part factorisation candidates: x*y -> [(x,1),(y,1)], x/y -> [(x,1),(y,-1)]"""
    if z3.is_mul(e):
        return [p for c in e.children() for p in _factors(c)]
    if z3.is_div(e):
        return _factors(e.arg(0)) + [(a, -s) for a, s in _factors(e.arg(1))]
    return [(e, 1)]


def log_split(t):
    """log of a product is the sum of the logs (all factors positive)"""
    fs = _factors(t.arg(0))
    if len(fs) < 2 or len(fs) > 6:
        return None
    L = t.decl()
    tot = None
    for a, s in fs:
        q = L(a) if s > 0 else -L(a)
        tot = q if tot is None else tot + q
    return z3.Implies(z3.And(*[a > 0 for a, _ in fs]), t == tot)


def _ax_trig(a):
    r = a.arg(0)
    s, c = C.F_SIN(r), C.F_COS(r)
    return z3.And(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1,
                  z3.Implies(r == 0, z3.And(s == 0, c == 1)),
                  z3.Implies(z3.And(r > 0, r < C.PI), z3.And(s > 0, c < 1, c > -1)),
                  z3.Implies(z3.And(r > 0, r < C.PI / 2), c > 0))


AX["SIN"] = _ax_trig
AX["COS"] = _ax_trig
AX["POW"] = lambda a: z3.And(z3.Implies(a.arg(0) > 0, a > 0), z3.Implies(a.arg(1) == 0, a == 1),
                             z3.Implies(a.arg(1) == 1, a == a.arg(0)),
                             z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) <= 1, a.arg(1) >= 0), z3.And(a >= 0, a <= 1)))
MONO = ("POW10", "EXP", "POW2", "LOG10", "LN", "LOG2")


def _ax_atan2(a):
    # |z| cos(arg z) = Re z, |z| sin(arg z) = Im z
    y, x = a.arg(0), a.arg(1)
    h = z(parts(C.s_abs(C.mk("c", x, y)))[1], True)
    return z3.And(a <= C.PI, a > -C.PI, h >= 0, h * h == x * x + y * y, h * C.F_COS(a) == x, h * C.F_SIN(a) == y)


AX["ATAN2"] = _ax_atan2


def sorted_pair(n, i, a, j, b):
    """order of two entries of a strictly increasing vector of n entries"""
    d = z3.simplify(j - i)
    if z3.is_int_value(d):
        lo, hi = (i, j) if d.as_long() > 0 else (j, i)
        return z3.Implies(z3.And(lo >= 0, hi < n), a < b if d.as_long() > 0 else b < a)
    return z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n), z3.And((i < j) == (a < b), (j < i) == (b < a)))


def subterms(exprs, seen=None):
    seen = {} if seen is None else seen
    new = []
    stack = [e for e in exprs if not isinstance(e, bool)]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen or not z3.is_app(t):
            continue
        seen[i] = t
        new.append(t)
        stack.extend(t.children())
    return new


def lemmas(goal_exprs, pc, rounds=2, use_pc=True, max_pairs=60):
    """Collect axioms/congruence lemmas relevant for the given formulas."""
    ctx = C.CTX
    seen = {}
    out = []
    done = set()
    frontier = subterms(list(goal_exprs) + (list(pc) if use_pc else []), seen)
    apps = {}     # op name -> list of (term, OpDef, comp, param-substitution)
    mono = {}
    idx_terms = []
    wit = 0

    def add(key, f):
        if key in done:
            return []
        done.add(key)
        out.append(f)
        return subterms([f], seen)

    for rnd in range(rounds):
        nxt = []
        new_ops = []
        for t in frontier:
            if t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                continue
            nm = t.decl().name()
            if nm in AX:
                nxt += add(("ax", t.get_id()), AX[nm](t))
                if rounds > 1 and nm in ANCHOR:
                    f = ANCHOR[nm](t)
                    if f is not None:
                        add(("anchor", t.get_id()), f)
                if nm in ("SIN", "COS"):
                    lst = mono.setdefault("TRIG", [])
                    if len(lst) < 8:
                        r = t.arg(0)
                        for o in lst:
                            for p_, q_ in ((r, o), (o, r)):
                                if not p_.eq(q_):
                                    nxt += add(("trigdbl", p_.get_id(), q_.get_id()), z3.Implies(p_ == 2 * q_, z3.And(C.F_SIN(p_) == 2 * C.F_SIN(q_) * C.F_COS(q_), C.F_COS(p_) == 1 - 2 * C.F_SIN(q_) * C.F_SIN(q_))))
                        lst.append(r)
                    out.append(z3.And(C.PI > z3.RealVal("31415926/10000000"), C.PI < z3.RealVal("31415927/10000000")))
                if nm in MONO:
                    lst = mono.setdefault(nm, [])
                    if nm in ("LOG10", "LN", "LOG2"):
                        f = log_split(t)
                        if f is not None:
                            nxt += add(("logsplit", t.get_id()), f)
                        if nm != "LN":
                            bs = 10 if nm == "LOG10" else 2
                            for o in lst[:8]:
                                for p_, q_ in ((t, o), (o, t)):
                                    add(("logbase", p_.get_id(), q_.get_id()), z3.Implies(z3.And(q_.arg(0) > 0, p_.arg(0) == bs * q_.arg(0)), p_ == q_ + 1))
                    if nm in ("POW10", "EXP", "POW2") and len(lst) < 7:
                        for i, o in enumerate(lst):
                            for o2 in lst[i:]:
                                for r, p, q in ((t, o, o2), (o, t, o2), (o2, t, o)):
                                    add(("powmul", r.get_id(), p.get_id(), q.get_id()), z3.Implies(r.arg(0) == p.arg(0) + q.arg(0), r == p * q))
                            add(("powdbl", t.get_id(), o.get_id()), z3.And(z3.Implies(o.arg(0) == 2 * t.arg(0), o == t * t),
                                z3.Implies(t.arg(0) == 2 * o.arg(0), t == o * o), z3.Implies(t.arg(0) == -o.arg(0), t * o == 1)))
                    for o in lst[:8]:
                        a, b = t.arg(0), o.arg(0)
                        g = z3.And((a < b) == (t < o), (a == b) == (t == o))
                        if nm.startswith("L"):
                            g = z3.Implies(z3.And(a > 0, b > 0), g)
                        add(("mono", t.get_id(), o.get_id()), g)
                    lst.append(t)
            if nm in ctx.sorted_fns:
                n_, lo_ = ctx.sorted_fns[nm]
                lst = mono.setdefault(("sorted", nm), [])
                for o in lst[:12]:
                    nxt += add(("srt", t.get_id(), o.get_id()), sorted_pair(n_, t.arg(0), t, o.arg(0), o))
                if lo_ is not None:
                    add(("srtlo", t.get_id()), z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < n_), t >= lo_))
                lst.append(t)
            if nm in ctx.input_bounds:
                lo, hi, op = ctx.input_bounds[nm]
                fs = []
                if lo is not None:
                    l_ = z(toreal(parts(lo)[1]), True); fs.append(t > l_ if op else t >= l_)
                if hi is not None:
                    h_ = z(toreal(parts(hi)[1]), True); fs.append(t < h_ if op else t <= h_)
                if fs and t.sort() == z3.RealSort():
                    add(("bnd", t.get_id()), z3.And(*fs))
            if nm in ctx.ops:
                d, comp = ctx.ops[nm]
                if comp == 0 or True:
                    new_ops.append((t, d, comp))
        for t, d, comp in new_ops:
            sub = list(zip(d.params, t.children()))
            inst = (t, d, comp, sub)
            # unary axioms
            fam = d.name
            if fam in UNARY:
                for key, f in UNARY[fam](t, d, comp, sub):
                    nxt += add(("un", key, t.get_id()), f)
            if fam == "SUM":
                lst0 = apps.get((fam, comp, len(d.scalars), len(d.vecs), len(d.out), d.extra), [])
                for (t2, d2, c2, sub2) in lst0[:max_pairs]:
                    for key, f in _cauchy(t, d, sub, t2, d2, sub2):
                        nxt += add(("cs", key, t.get_id(), t2.get_id()), f)
                sq = _square_root(d.vecs[0][2][0])
                if sq is not None and sum(1 for k_ in done if k_[0] == "cs1") < 6:
                    # the plain sum exists as a term for Cauchy-Schwarz even when the goal does not mention it
                    pass
            lst = apps.setdefault((fam, comp, len(d.scalars), len(d.vecs), len(d.out), d.extra), [])
            for (t2, d2, c2, sub2) in lst[:max_pairs]:
                if t.eq(t2):
                    continue
                key = ("cong", min(t.get_id(), t2.get_id()), max(t.get_id(), t2.get_id()))
                if key in done:
                    continue
                conds = []
                for a, b in zip(d.scalars, d2.scalars):
                    if a.sort() != b.sort():
                        a, b = toreal(a), toreal(b)
                    conds.append(subst(a, sub) == subst(b, sub2))
                for a, b in zip(d.out, d2.out):
                    conds.append(subst(a, sub) == subst(b, sub2))
                wits = []
                for (n1, k1, e1), (n2, k2, e2) in zip(d.vecs, d2.vecs):
                    w = z3.Int(f"w!{wit}")
                    wit += 1
                    wits.append(w)
                    nn1, nn2 = subst(n1, sub), subst(n2, sub2)
                    conds.append(nn1 == nn2)
                    eqs = []
                    for x, y in zip(e1, e2):
                        xs = z3.substitute(x, *([(k1, w)] + sub))
                        ys = z3.substitute(y, *([(k2, w)] + sub2))
                        if xs.sort() != ys.sort():
                            xs, ys = toreal(xs), toreal(ys)
                        eqs.append(xs == ys)
                    conds.append(z3.Implies(z3.And(w >= 0, w < nn1), z3.And(*eqs)))
                f = z3.Implies(z3.And(*conds), t == t2)
                sf = z3.simplify(f)
                if z3.is_true(sf):
                    done.add(key)
                    continue
                nxt += add(key, f)
            lst.append(inst)
        frontier = nxt
        if not nxt:
            break
    return out


def _square_root(e):
    """b when e is syntactically b*b"""
    if z3.is_mul(e) and e.num_args() == 2 and e.arg(0).eq(e.arg(1)):
        return e.arg(0)
    if z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() == 2:
        return e.arg(0)
    return None


def _cauchy(t, d, sub, t2, d2, sub2):
    """(sum b)^2 <= n sum b^2"""
    out = []
    for (p, dp, sp), (q, dq, sq) in (((t, d, sub), (t2, d2, sub2)), ((t2, d2, sub2), (t, d, sub))):
        n1, k1, e1 = dp.vecs[0]
        n2, k2, e2 = dq.vecs[0]
        b = _square_root(e2[0])
        if b is None:
            continue
        x = z3.substitute(e1[0], *([(k1, k2)] + sp)) if not k1.eq(k2) else subst(e1[0], sp)
        y = subst(b, sq)
        na, nb = subst(n1, sp), subst(n2, sq)
        if x.eq(y) and na.eq(nb):
            out.append((0, z3.Implies(nb >= 0, z3.And(p * p <= nb * q, q >= 0))))
    return out


def _vec_at(d, sub, vi, idx, comp=0):
    n, k, es = d.vecs[vi]
    return z3.substitute(es[comp], *([(k, idx if not isinstance(idx, int) else z3.IntVal(idx))] + sub))


_w = [0]


def _wit():
    _w[0] += 1
    return z3.Int(f"u!{_w[0]}")


def _un_sum(t, d, comp, sub):
    n, k, es = d.vecs[0]
    n = subst(n, sub)
    out = [("empty", z3.Implies(n <= 0, t == 0))]
    w = _wit()
    b = _vec_at(d, sub, 0, w)
    rng = z3.And(w >= 0, w < n)
    out.append(("zero", z3.Implies(z3.Implies(rng, b == 0), t == 0)))
    w2 = _wit()
    b2 = _vec_at(d, sub, 0, w2)
    out.append(("nonneg", z3.Implies(z3.Implies(z3.And(w2 >= 0, w2 < n), b2 >= 0), t >= 0)))
    # positive if nonneg everywhere and positive somewhere (given at instantiation indices)
    for j, idx in enumerate(C.CTX.witness_idx[:6]):
        b3 = _vec_at(d, sub, 0, idx)
        out.append((("pos", j), z3.Implies(z3.And(z3.Implies(z3.And(w2 >= 0, w2 < n), b2 >= 0), idx >= 0, idx < n), t >= b3)))
    out.append(("one", z3.Implies(n == 1, t == _vec_at(d, sub, 0, 0))))
    return out


def _un_max(sign):
    def f(t, d, comp, sub):
        n, k, es = d.vecs[0]
        n = subst(n, sub)
        w = _wit()
        out = [("att", z3.Implies(n >= 1, z3.And(w >= 0, w < n, t == _vec_at(d, sub, 0, w))))]
        cands = list(C.CTX.witness_idx) + [z3.IntVal(0)]
        for j, idx in enumerate(cands[:8]):
            b = _vec_at(d, sub, 0, idx)
            out.append((("ub", j), z3.Implies(z3.And(idx >= 0, idx < n), (b <= t) if sign > 0 else (b >= t))))
        if any(z3.is_quantifier(f) for f in C.CTX.pc):
            q = z3.Int("qa!all")
            b = _vec_at(d, sub, 0, q)
            out.append(("quant", z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), (b <= t) if sign > 0 else (b >= t)))))
        return out
    return f


def _un_argmax(sign):
    def f(t, d, comp, sub):
        n, k, es = d.vecs[0]
        n = subst(n, sub)
        out = [("rng", z3.Implies(n >= 1, z3.And(t >= 0, t < n)))]
        m = _vec_at(d, sub, 0, t)
        cands = list(C.CTX.witness_idx) + [z3.IntVal(0)]
        for j, idx in enumerate(cands[:8]):
            b = _vec_at(d, sub, 0, idx)
            le = (b <= m) if sign > 0 else (b >= m)
            lt = (b < m) if sign > 0 else (b > m)
            out.append((("ub", j), z3.Implies(z3.And(idx >= 0, idx < n), z3.And(le, z3.Implies(idx < t, lt)))))
        return out
    return f


def _un_all(t, d, comp, sub):
    n, k, es = d.vecs[0]
    n = subst(n, sub)
    w = _wit()
    out = [("neg", z3.Implies(z3.Implies(z3.And(w >= 0, w < n), _vec_at(d, sub, 0, w)), t))]
    for j, idx in enumerate((list(C.CTX.witness_idx) + [z3.IntVal(0)])[:8]):
        out.append((("inst", j), z3.Implies(z3.And(t, idx >= 0, idx < n), _vec_at(d, sub, 0, idx))))
    if any(z3.is_quantifier(f) for f in C.CTX.pc):
        q = z3.Int("qa!all")
        out.append(("quant", z3.Implies(t, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), _vec_at(d, sub, 0, q))))))
    return out


def _un_unwrap(t, d, comp, sub):
    # documented: adds multiples of 2 pi, none to the first entry
    n, k, es = d.vecs[0]
    i = subst(d.out[0], sub)
    v = z(toreal(_vec_at(d, sub, 0, i)), True)
    K = z3.Int(f"unwrap!{t.get_id()}")
    return [("unwrap", z3.And(t == v + 2 * C.PI * z3.ToReal(K), z3.Implies(i == 0, K == 0),
                              C.F_COS(t) == C.F_COS(v), C.F_SIN(t) == C.F_SIN(v)))]


def _un_seg(t, d, comp, sub):
    # the segment of a grid that contains the value
    n, k, es = d.vecs[0]
    n = subst(n, sub)
    v = subst(d.scalars[0], sub)
    x = lambda i: _vec_at(d, sub, 0, i)
    return [("seg", z3.Implies(z3.And(x(0) <= v, v <= x(n - 1)), z3.And(t >= 0, t < n, x(t) <= v, z3.Or(t == n - 1, v < x(t + 1)))))]


def _un_searchs(t, d, comp, sub):
    n, k, es = d.vecs[0]
    n = subst(n, sub)
    v = subst(d.scalars[0], sub)
    lt = (lambda a, b: a < b) if d.extra == "left" else (lambda a, b: a <= b)
    return [("ss", z3.And(t >= 0, t <= n, z3.Implies(t > 0, lt(_vec_at(d, sub, 0, t - 1), v)), z3.Implies(t < n, z3.Not(lt(_vec_at(d, sub, 0, t), v)))))]


UNARY = {"UNWRAP": _un_unwrap, "SEG": _un_seg, "SEARCHS": _un_searchs, "SUM": _un_sum, "MAX": _un_max(1), "MIN": _un_max(-1), "ARGMAX": _un_argmax(1), "ARGMIN": _un_argmax(-1), "ALL": _un_all}
