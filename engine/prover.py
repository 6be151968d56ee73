"""Obligation discharge, path exploration, counterexample extraction."""
from __future__ import annotations
import json
import os
import subprocess
import time
import traceback
from fractions import Fraction
import numpy as np
import z3
from . import core as C
from . import ops as O
from . import arrays as A
from .core import Unsupported, Infeasible, z, is_const, fold
from .contract import SymC, ConC, Reject, Stop


DUMP = os.environ.get("VF_DUMP")


class Obl:
    __slots__ = ("label", "status", "backend", "time", "inputs", "detail")

    def __init__(self, label, status, backend="", t=0.0, inputs=None, detail=""):
        self.label, self.status, self.backend, self.time, self.inputs, self.detail = label, status, backend, t, inputs, detail


def _solve(fs, ms, seed=0):
    s = z3.Solver()
    s.set("timeout", int(ms))
    if any(z3.is_quantifier(f) for f in fs):
        s.set("smt.mbqi", False)
    if seed:
        s.set("random_seed", seed)
    s.add(*fs)
    r = s.check()
    return r, s


def poly_equal(goal):
    """syntactic-modulo-ring equality: sum-of-monomials normal form of lhs - rhs is 0"""
    if not z3.is_eq(goal) or goal.arg(0).sort() != z3.RealSort():
        return False
    d = z3.simplify(goal.arg(0) - goal.arg(1), som=True, hoist_ite=False, timeout=1500) if True else None
    f = fold(d)
    return is_const(f) and f == 0


# ---- rational functions: polynomials are {monomial: Fraction}, monomial = ((atom id, exponent), ...)
_LIM = 4000


class _TooBig(Exception):
    pass


def _padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _pmul(a, b, sq):
    if len(a) * len(b) > _LIM * 10:
        raise _TooBig
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = dict(m1)
            for at, e in m2:
                d[at] = d.get(at, 0) + e
            m = tuple(sorted(d.items()))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    # sin(x)^2 = 1 - cos(x)^2, sqrt(x)^2 = x
    while True:
        hit = next(((m, at) for m in r for at, e in m if e >= 2 and at in sq), None)
        if hit is None:
            break
        m, at = hit
        c = r.pop(m)
        d = dict(m)
        d[at] -= 2
        if not d[at]:
            del d[at]
        for m0, c0 in sq[at].items():
            e = dict(d)
            for a0, e0 in m0:
                e[a0] = e.get(a0, 0) + e0
            r = _padd(r, {tuple(sorted(e.items())): c * c0})
        if len(r) > _LIM:
            raise _TooBig
    if len(r) > _LIM:
        raise _TooBig
    return r


def ratfunc_equal(goal, pc):
    """equality of two rational functions: cross-multiplied numerators agree modulo sin^2 + cos^2 = 1
    and every denominator is proved non-zero on the path"""
    if not z3.is_eq(goal) or goal.arg(0).sort() != z3.RealSort():
        return False
    atoms, sq, dens, memo, nonneg, funs = {}, {}, {}, {}, [], {}
    ONE = {(): Fraction(1)}

    def atom(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.arg(0).sort() == z3.RealSort():
            # f(x) and f(y) are one atom when x and y are equal rational functions
            nd = go(t.arg(0))
            for o, od in funs.setdefault(t.decl().name(), []):
                if not _padd(_pmul(nd[0], od[1], sq), _pmul(od[0], nd[1], sq), -1):
                    return go(o)
            funs[t.decl().name()].append((t, nd))
        atoms[t.get_id()] = t
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() == "SIN":
            co = C.F_COS(t.arg(0))
            atoms[co.get_id()] = co
            sq[t.get_id()] = {(): Fraction(1), ((co.get_id(), 2),): Fraction(-1)}
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() == "SQRT" and t.get_id() not in sq:
            # the atom stands for SQRT(N / D) * D, whose square is N * D
            pn, pd = go(t.arg(0))
            sq[t.get_id()] = _pmul(pn, pd, sq)
            nonneg.append(t.arg(0))
            return {((t.get_id(), 1),): Fraction(1)}, pd
        return {((t.get_id(), 1),): Fraction(1)}, ONE

    def go(t):
        k = t.get_id()
        if k not in memo:
            memo[k] = (go1(t), t)
        return memo[k][0]

    def go1(t):
        if z3.is_rational_value(t):
            v = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return ({(): v} if v else {}), ONE
        kd = t.decl().kind()
        if kd in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, d = go(t.arg(0))
            for i in range(1, t.num_args()):
                n2, d2 = go(t.arg(i))
                sg = 1 if kd == z3.Z3_OP_ADD else -1
                if d == d2:
                    n = _padd(n, n2, sg)
                else:
                    n, d = _padd(_pmul(n, d2, sq), _pmul(n2, d, sq), sg), _pmul(d, d2, sq)
            return n, d
        if kd == z3.Z3_OP_UMINUS:
            n, d = go(t.arg(0))
            return {m: -c for m, c in n.items()}, d
        if kd == z3.Z3_OP_MUL:
            n, d = go(t.arg(0))
            for i in range(1, t.num_args()):
                n2, d2 = go(t.arg(i))
                n, d = _pmul(n, n2, sq), _pmul(d, d2, sq)
            return n, d
        if kd == z3.Z3_OP_DIV:
            n, d = go(t.arg(0))
            n2, d2 = go(t.arg(1))
            if not z3.is_rational_value(t.arg(1)):
                dens[t.arg(1).get_id()] = t.arg(1)
            elif t.arg(1).numerator_as_long() == 0:
                return atom(t)
            return _pmul(n, d2, sq), _pmul(d, n2, sq)
        return atom(t)
    try:
        n1, d1 = go(goal.arg(0))
        n2, d2 = go(goal.arg(1))
        if _padd(_pmul(n1, d2, sq), _pmul(n2, d1, sq), -1):
            return False
    except (_TooBig, RecursionError):
        return False
    for ng in [d == 0 for d in dens.values()] + [a < 0 for a in nonneg]:
        r, _ = _solve(list(pc) + [ng], 1000)
        if r != z3.unsat:
            r, _ = _solve(list(pc) + [ng] + O.lemmas([ng], pc, rounds=1, use_pc=False), 2000)
        if r != z3.unsat:
            return False
    return True


def _conditions(e, out, seen):
    """conditions of the if-then-elses in e, outermost first"""
    st = [e]
    while st:
        t = st.pop(0)
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            out.append(t.arg(0))
        st += t.children()


def _atoms(e, out, seen):
    st = [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_bool(t) and z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR):
            st += t.children()
        elif z3.is_bool(t):
            if z3.is_app_of(t, z3.Z3_OP_ITE) or (z3.is_eq(t) and z3.is_bool(t.arg(0))):
                st += t.children()
            elif not z3.is_true(t) and not z3.is_false(t):
                out.append(t)


def _linear(e):
    st, seen = [e], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if not z3.is_app(t):
            return False
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(x) and not z3.is_int_value(x) for x in t.children()) > 1:
            return False
        if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_UNINTERPRETED) and t.num_args():
            return False
        st += t.children()
    return True


def _occurs(x, t):
    st, seen = [t], set()
    while st:
        e = st.pop()
        if e.eq(x):
            return True
        if e.get_id() not in seen:
            seen.add(e.get_id())
            st += e.children()
    return False


def _int_consts(t):
    st, seen, out = [t], set(), []
    while st:
        e = st.pop()
        if e.get_id() not in seen:
            seen.add(e.get_id())
            if z3.is_const(e) and e.sort() == z3.IntSort() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(e)
            st += e.children()
    return out


def cases(goal, pc, budget, depth=0):
    """replace the atoms of if-then-else conditions which the path decides; split on those it does not; each leaf must be an identity"""
    goal = z3.simplify(goal, hoist_ite=False)
    if z3.is_and(goal):
        return all(cases(g, pc, budget, depth) for g in goal.children())
    lin = [p for p in pc if _linear(p)]
    if depth == 0:
        zero = [x for x in _int_consts(goal) if _solve(lin + [x != 0], 300)[0] == z3.unsat]
        goal = z3.simplify(z3.substitute(goal, *[(x, z3.IntVal(0)) for x in zero]), hoist_ite=False) if zero else goal
    kept = set()
    for _ in range(40):
        if z3.is_true(goal) or poly_equal(goal) or ratfunc_equal(goal, pc):
            return True
        conds, atoms, seen = [], [], set()
        _conditions(goal, conds, set())
        for c in conds:
            _atoms(c, atoms, seen)
        if not atoms or time.time() > budget:
            return False
        sub = []
        for c in atoms[:60]:
            if c.get_id() in kept:
                continue
            facts = lin if _linear(c) else list(pc)
            if _solve(facts + [z3.Not(c)], 300)[0] == z3.unsat:
                sub.append((c, z3.BoolVal(True)))
            elif _solve(facts + [c], 300)[0] == z3.unsat:
                sub.append((c, z3.BoolVal(False)))
            else:
                kept.add(c.get_id())
            if time.time() > budget:
                return False
        if sub:
            goal = z3.simplify(z3.substitute(goal, *sub), hoist_ite=False)
            continue
        if depth >= 5:
            return False
        free = atoms[0]
        for c, v in ((free, True), (z3.Not(free), False)):
            g = z3.substitute(goal, (free, z3.BoolVal(v)))
            if v and z3.is_eq(free):
                for x, t in (free.children(), free.children()[::-1]):
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not _occurs(x, t):
                        g = z3.substitute(g, (x, t))
                        break
            if not cases(g, list(pc) + [c], budget, depth + 1):
                return False
        return True
    return False


def _cvc5(fs, ms):
    s = z3.Solver()
    s.add(*fs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % ms, "--nl-ext-tplanes", "-"], input=txt, capture_output=True, text=True, timeout=ms / 1000 + 3)
    except Exception:
        return "unknown"
    o = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
    return o


def _equations(g):
    if z3.is_and(g):
        return all(_equations(x) for x in g.children())
    return z3.is_eq(g) and g.arg(0).sort() == z3.RealSort()


def discharge(ctx, pc, goal, budget_ms=8000):
    """-> (status, backend, seconds, solver)   status: proved | sat | unknown"""
    t0 = time.time()
    if goal is True:
        return "proved", "normaliser", 0.0, None
    if goal is False:
        goal = z3.BoolVal(False)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "proved", "normaliser", time.time() - t0, None
    try:
        if poly_equal(goal):
            return "proved", "normaliser(ring)", time.time() - t0, None
    except z3.Z3Exception:
        pass
    ng = z3.Not(goal)
    budget_ms = int(budget_ms)
    r, s = _solve(list(pc) + [ng], min(300, budget_ms))
    if r == z3.unsat:
        return "proved", "z3", time.time() - t0, None
    last = (r, s)
    if r != z3.sat and ratfunc_equal(goal, pc):
        return "proved", "normaliser(field)", time.time() - t0, None
    if r != z3.sat and _equations(goal) and cases(goal, pc, time.time() + min(15, 2 * budget_ms / 1000)):
        return "proved", "normaliser(cases)", time.time() - t0, None
    lems = {}
    for rounds, mult in ((1, 0.15), (2, 0.3), (1, 0.6), (2, 1), (4, 2)):
        if rounds not in lems:
            lems[rounds] = O.lemmas([ng], pc, rounds=rounds, use_pc=rounds > 1)
        fs = list(pc) + [ng] + lems[rounds]
        r, s = _solve(fs, int(budget_ms * mult))
        if r == z3.unsat:
            return "proved", f"z3+lemmas({rounds})", time.time() - t0, None
        last = (r, s)
        if r == z3.sat and rounds >= 4:
            break
    if last[0] == z3.sat and any(z3.is_quantifier(f) for f in pc):
        last = (z3.unknown, None)
    if last[0] == z3.sat:
        return "sat", "z3", time.time() - t0, last[1]
    # unknown: other back ends
    for seed in (1, 2):
        s = z3.SolverFor("QF_UFNRA") if seed == 1 else z3.Solver()
        s.set("timeout", budget_ms)
        if seed == 2:
            s.set("smt.arith.solver", 2) if False else s.set("random_seed", 7)
        s.add(*fs)
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3(alt)", time.time() - t0, None
        if r == z3.sat:
            return "sat", "z3", time.time() - t0, s
    o = _cvc5(fs, budget_ms * 2)
    if o == "unsat":
        return "proved", "cvc5", time.time() - t0, None
    return "unknown", "z3+cvc5", time.time() - t0, None


# ------------------------------------------------------------------ models
def _num(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return 0


def extract(ctx, s):
    """model -> inputs dict (small dims preferred)"""
    dims = []
    for nm, d in ctx.inputs.items():
        if d[0] == "int":
            dims.append(d[1])
        elif d[0] == "array":
            dims += [x for x in d[3] if not is_const(x)]
    m = None
    for cap in (3, 5, 9, 17, 65, 4000):
        s.push()
        s.set("timeout", 3000)
        s.add(*[x <= cap for x in dims])
        r = s.check()
        if r == z3.sat:
            m = s.model()
            s.pop()
            break
        s.pop()
    if m is None:
        try:
            m = s.model()
        except z3.Z3Exception:
            return None
    return model_inputs(ctx, m)


def model_inputs(ctx, m):
    out = {}
    ev = lambda e: _num(m.eval(e, model_completion=True)) if not is_const(e) else (int(e) if isinstance(e, int) else float(e))
    for nm, d in ctx.inputs.items():
        if d[0] == "int":
            out[nm] = int(ev(d[1]))
        elif d[0] == "real":
            out[nm] = float(ev(d[1]))
        elif d[0] == "complex":
            out[nm] = [float(ev(d[1])), float(ev(d[2]))]
        elif d[0] == "choice":
            out[nm] = d[1]
        elif d[0] == "choicevar":
            out[nm] = int(ev(d[1]))
        elif d[0] == "array":
            kind, f, sh = d[1], d[2], [int(ev(x)) for x in d[3]]
            n = 1
            for q in sh:
                n *= q
            if n > 20000 or n < 0:
                continue
            dt = {"f": float, "i": int, "c": complex, "b": bool}[kind]
            a = np.zeros(sh, dt)
            for idx in np.ndindex(*sh):
                vals = [ev(g(*[z3.IntVal(i) for i in idx])) for g in f]
                v = complex(vals[0], vals[1]) if kind == "c" else vals[0]
                b = ctx.input_bounds.get(f[0].name())
                if b is not None and kind == "f":
                    lo, hi, op = b
                    try:
                        if lo is not None:
                            v = max(v, float(lo) + (1e-3 if op else 0))
                        if hi is not None:
                            v = min(v, float(hi) - (1e-3 if op else 0))
                    except Exception:
                        pass
                a[idx] = v
            out[nm] = a
    return out


# ------------------------------------------------------------------ exploration
class Report:
    def __init__(self, deadline):
        self.obls = []
        self.deadline = deadline
        self.nreach = 0
        self.undecided = []
        self.cands = []

    def reached(self):
        self.nreach += 1

    def obligation(self, ctx, label, goal):
        if time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        g = goal
        if not isinstance(g, (bool, np.bool_)):
            pass
        else:
            g = bool(g)
        left = max(1500, min(8000, (self.deadline - time.time()) * 1000 / 3))
        st, be, t, s = discharge(ctx, ctx.pc, g, left)
        o = Obl(label, st, be, t)
        if DUMP and (st != "proved" or t > 5):
            with open(DUMP, "a") as fh:
                fh.write(f"=== {label} {st} {t:.1f}s\nPC {list(ctx.pc)}\nGOAL {z3.simplify(g) if not isinstance(g, bool) else g}\n")
                seen, todo = set(), [g] if not isinstance(g, bool) else []
                while todo:
                    e = todo.pop()
                    for q in O.subterms([e]):
                        if q.decl().name() in ctx.ops and q.decl().name() not in seen:
                            seen.add(q.decl().name())
                            d, comp = ctx.ops[q.decl().name()]
                            fh.write(f"  OP {q.decl().name()} params={d.params} sc={d.scalars} out={d.out} vecs={d.vecs}\n")
                            todo += [x for _, _, es in d.vecs for x in es] + [n for n, _, _ in d.vecs] + list(d.scalars)
        if st == "sat":
            o.inputs = extract(ctx, s)
        self.obls.append(o)
        if st == "sat":
            self.cands.append(o)
            if len([1 for x in self.obls if x.status == "sat"]) >= 6:
                raise Stop()


def run_symbolic(con, dsp, timeout):
    """explore all paths of a contract; returns a result dict"""
    t0 = time.time()
    rep = Report(t0 + timeout)
    ctx = C.Ctx(max_paths=con.max_paths)
    C.set_ctx(ctx)
    prefix = []
    npaths, nfeas = 0, 0
    status = "ok"
    reason = ""
    exc_obls = []
    while True:
        ctx.new_path(prefix)
        ctx.input_bounds = {}
        npaths += 1
        try:
            c = SymC(ctx, dsp, rep)
            con.fn(c)
            nfeas += 1
        except Infeasible:
            pass
        except Stop:
            status, reason = "failed", "several obligations failed"
            break
        except Unsupported as e:
            status, reason = "unsupported", f"{e}"
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if "dsptoolbox" in f.filename]
            if loc:
                reason += f" at {loc[-1].filename.split('dsptoolbox/')[-1]}:{loc[-1].lineno}"
            rep.trace = traceback.format_exc()
            break
        except Reject:
            pass
        except RecursionError as e:
            status, reason = "unsupported", "recursion limit"
            break
        except Exception as e:
            # the code raised on this path: allowed only if the path is infeasible
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if "dsptoolbox" in f.filename]
            where = f"{loc[-1].filename.split('dsptoolbox/')[-1]}:{loc[-1].name}" if loc else "contract"
            if ctx.scopes:
                while ctx.scopes:
                    ctx.pop()
            ctx.loopstack, ctx.loop_summ, ctx.bound, ctx.nofork = [], None, [], 0
            st, be, t, s = discharge(ctx, ctx.pc, False, 4000)
            o = Obl(f"no-exception({type(e).__name__} in {where})", st, be, t, detail=f"{type(e).__name__}: {e}"[:300])
            rep.trace = traceback.format_exc()
            if st == "sat":
                o.inputs = extract(ctx, s)
                rep.cands.append(o)
                exc_obls.append(o)
            rep.obls.append(o)
        finally:
            while ctx.scopes:
                ctx.pop()
            ctx.loopstack, ctx.loop_summ, ctx.bound, ctx.nofork = [], None, [], 0
        if time.time() > rep.deadline:
            status, reason = "unsupported", "time budget exhausted"
            break
        if npaths >= con.max_paths:
            status, reason = "unsupported", f"more than {con.max_paths} paths"
            break
        nxt = ctx.next_prefix()
        if nxt is None:
            break
        prefix = nxt
    n = len(rep.obls)
    proved = [o for o in rep.obls if o.status == "proved"]
    sat = [o for o in rep.obls if o.status == "sat"]
    unk = [o for o in rep.obls if o.status == "unknown"]
    if status == "ok":
        if sat:
            status = "failed"
        elif unk:
            status, reason = "unknown", "; ".join(sorted({o.label for o in unk}))[:300]
        elif n == 0 or nfeas == 0:
            status, reason = "unsupported", "vacuous: no obligation generated"
        else:
            status = "proved"
    be = {}
    for o in proved:
        be[o.backend] = be.get(o.backend, 0) + 1
    return {"status": status, "reason": reason, "paths": npaths, "feasible_paths": nfeas, "obligations": n,
            "discharged": len(proved), "backends": be, "solver_s": round(sum(o.time for o in rep.obls) + ctx.solver_time, 2),
            "wall_s": round(time.time() - t0, 2),
            "failing": [{"label": o.label, "status": o.status, "detail": o.detail, "inputs": o.inputs} for o in sat + unk],
            "trace": getattr(rep, "trace", "")}


def run_concrete(con, dsp, rng, inputs=None):
    """-> ('reject'|'ok'|'fail', ConC, fails)"""
    c = ConC(dsp, rng, inputs, con.tol)
    import warnings
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            con.fn(c)
        except (Reject, MemoryError):
            return "reject", c, []
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if "dsptoolbox" in f.filename]
            if not loc:
                # error raised by the contract text itself (e.g. attribute missing on a result)
                c.fails.append((f"contract-exception({type(e).__name__})", traceback.format_exc()[-600:]))
            else:
                c.fails.append((f"no-exception({type(e).__name__} in {loc[-1].filename.split('dsptoolbox/')[-1]}:{loc[-1].name})", f"{e}"[:300]))
    return ("fail" if c.fails else "ok"), c, c.fails
