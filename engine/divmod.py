"""Simplification of integer div/mod by a symbolic positive divisor (terms z3 treats as non-linear)."""
from __future__ import annotations
import z3
from . import core as C
from .core import is_const, fold, z

_has_cache = {}


def has_dm(e):
    """contains div/mod with a non-constant divisor"""
    if is_const(e) or isinstance(e, bool):
        return False
    k = e.get_id()
    h = _has_cache.get(k)
    if h is not None and h[0].eq(e):
        return h[1]
    seen, stack, r = set(), [e], False
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(t.arg(1)):
            r = True
            break
        stack.extend(t.children())
    _has_cache[k] = (e, r)
    return r


def addends(e):
    """sum of products -> list of (coef, [factors])"""
    e = z3.simplify(e, som=True)
    out = []
    for t in (e.children() if z3.is_add(e) else [e]):
        c, fs = 1, []
        for f in (t.children() if z3.is_mul(t) else [t]):
            if z3.is_int_value(f):
                c *= f.as_long()
            elif z3.is_app(f) and f.decl().kind() == z3.Z3_OP_UMINUS:
                c *= -1
                fs.append(f.arg(0))
            else:
                fs.append(f)
        out.append((c, fs))
    return out


def build(ads):
    s = z3.IntVal(0)
    for c, fs in ads:
        t = z3.IntVal(c)
        for f in fs:
            t = t * f
        s = s + t
    return z3.simplify(s)


def split(a, b):
    """a == b*q + r  with r free of obvious multiples of b; b an arbitrary term"""
    ads = addends(a)
    q, r = [], []
    bconst, bf = 1, [b]
    if z3.is_mul(b):
        bconst, bf = 1, []
        for f in b.children():
            if z3.is_int_value(f):
                bconst *= f.as_long()
            else:
                bf.append(f)
    for c, fs in ads:
        rest = list(fs)
        ok = c % bconst == 0
        for f in bf:
            hit = next((g for g in rest if g.eq(f)), None)
            if hit is None:
                ok = False
                break
            rest.remove(hit)
        if ok:
            q.append((c // bconst, rest))
        else:
            r.append((c, fs))
    return build(q), r


def divmod_(a, b, ctx):
    """(a div b, a mod b) for b > 0 (known), simplified"""
    q, rads = split(a, b)
    r = build(rads)
    if ctx is not None and not z3.is_int_value(r):
        add_facts(r, ctx)
        if ctx.entails(r >= 0):
            if ctx.entails(r < b):
                return q, (z3.IntVal(0) if ctx.entails(r <= 0) else r)
        elif ctx.entails(z3.And(r < 0, r >= -b)):
            return z3.simplify(q - 1), (z3.IntVal(0) if ctx.entails(r + b <= 0) else z3.simplify(r + b))
        elif not ctx.bound and not ctx.nofork and len(rads) == 1 and ctx.entails(z3.And(r <= 0, r >= -b)):
            if ctx.decide(r == 0):
                return q, z3.IntVal(0)
            if ctx.entails(r > -b) or not ctx.decide(r == -b):
                return z3.simplify(q - 1), z3.simplify(r + b)
            return z3.simplify(q - 1), z3.IntVal(0)
    # - (x mod b) + rest : use  x = b*(x div b) + x mod b
    for j, (c, fs) in enumerate(rads):
        if len(fs) == 1 and z3.is_app(fs[0]) and fs[0].decl().kind() == z3.Z3_OP_MOD and fs[0].arg(1).eq(b):
            x = fs[0].arg(0)
            other = [t for k, t in enumerate(rads) if k != j]
            # c*(x mod b) = c*x - c*b*(x div b)
            q2, r2 = split(build(other + [(c, [])]) if False else build(other) + c * x, b)
            if len(r2) < len(rads):
                q = z3.simplify(q + q2 - c * (x / b))
                rads = r2
                break
    r = build(rads)
    if z3.is_int_value(r) and r.as_long() == 0:
        return z3.simplify(q), z3.IntVal(0)
    if ctx is not None:
        if ctx.entails(r >= 0):
            if ctx.entails(r < b):
                return z3.simplify(q), r
        elif ctx.entails(z3.And(r < 0, r >= -b)):
            return z3.simplify(q - 1), z3.simplify(r + b)
    return z3.simplify(q + r / b), r % b


def facts(t, ctx):
    """sound facts about x div b, x mod b"""
    x, b = t.arg(0), t.arg(1)
    key = ("dm", x.get_id(), b.get_id())
    if key in ctx.axiom_keys:
        return
    q, r = x / b, x % b
    ctx.op_memo[key] = (x, b)
    ctx.axiom(key, z3.Implies(b > 0, z3.And(x == b * q + r, r >= 0, r < b, z3.Implies(x >= 0, z3.And(q >= 0, b * q >= 0, r <= x, q <= x)))))


def simp(e, ctx=None, memo=None):
    """rewrite all symbolic div/mod in e"""
    if is_const(e) or isinstance(e, bool) or not has_dm(e):
        return e
    ctx = ctx or C.CTX
    memo = {} if memo is None else memo

    def walk(t):
        k = t.get_id()
        h = memo.get(k)
        if h is not None:
            return h[1]
        if not has_dm(t):
            memo[k] = (t, t)
            return t
        ch = [walk(c) for c in t.children()]
        kd = t.decl().kind()
        if kd in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(ch[1]) and ctx.entails(ch[1] > 0):
            q, r = divmod_(ch[0], ch[1], ctx)
            n = q if kd == z3.Z3_OP_IDIV else r
        elif ch:
            n = z3.substitute(t, *[(a, b) for a, b in zip(t.children(), ch) if not a.eq(b)]) if False else t.decl()(*ch)
        else:
            n = t
        memo[k] = (t, n)
        return n
    return walk(e)


def add_facts(e, ctx):
    if is_const(e) or isinstance(e, bool) or not has_dm(e):
        return
    seen, stack = set(), [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(t.arg(1)) and not z3.is_var(t):
            facts(t, ctx)
        stack.extend(t.children())
